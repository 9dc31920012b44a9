"""State, memory, path and solver for the deductive verifier."""
import time, z3
from .term import *

z3.set_param('auto_config', False)
z3.set_param('smt.mbqi', False)


DEADLINE = [None]         # of the running task
class Unsupported(Exception): pass
class Giveup(Exception): pass


class Node:
    __slots__ = ('parent', 'depth', 'f', 'kind', '_nq')
    def __init__(self, parent, f, kind): self.parent, self.f, self.kind, self.depth, self._nq = parent, f, kind, parent.depth + 1 if parent else 0, None
    def quantified(self):
        """some fact on the path has a quantifier (or may)"""
        ch = []; n = self
        while n is not None and n._nq is None: ch.append(n); n = n.parent
        r = n._nq if n is not None else False
        for x in reversed(ch): r = x._nq = r or not ground(x.f)
        return r
ROOT = Node(None, TRUE, 'root')


def _free_of(bad):
    """a predicate: nothing in the term is bad; answers are kept per subterm"""
    memo = {}
    def ok(f):
        i = f.get_id()
        if i in memo: return memo[i][0]
        st = [f]
        while st:
            x = st[-1]; k = x.get_id()
            if k in memo: st.pop(); continue
            if bad(x): memo[k] = (False, x); st.pop(); continue
            todo = False; r = True
            for c in x.children():
                m = memo.get(c.get_id())
                if m is None: st.append(c); todo = True
                elif not m[0]: r = False
            if not r: memo[k] = (False, x); continue
            if not todo: memo[k] = (True, x); st.pop()
        return memo[i][0]
    return ok
ground = _free_of(z3.is_quantifier)      # no quantifier
pure = _free_of(lambda x: z3.is_quantifier(x) or z3.is_array(x))      # nor an array


def run_for(s, timeout):
    """s.check() with so many milliseconds of the processor, however busy the machine is"""
    left = timeout
    while True:
        s.set('timeout', max(50, int(left)))
        c0, w0 = time.process_time(), time.time()
        r = s.check()
        if r != z3.unknown: return r
        cpu, wall = (time.process_time() - c0) * 1000, (time.time() - w0) * 1000
        if cpu > 0.8 * left or wall < 0.8 * left: return r      # used up, or given up by itself
        left -= cpu
        if left < 0.2 * timeout: return r


class Solver:
    ground_only = False
    unknown = False
    retry = 45.0          # seconds that may be spent on obligations that time out, in addition
    def __init__(self, budget=None):
        self.s = z3.SimpleSolver()
        self.s.set('timeout', 4000)
        self.stack = []      # nodes asserted
        self.nq = 0; self.t = 0.0; self.nunk = 0; self.by = {'z3-incremental': 0, 'z3-fresh': 0, 'cvc5': 0}
        self.cache = {}
        self.deadline = DEADLINE[0]
        self.logfile = None
    def sync(self, node):
        # bring the solver's stack to the path of node
        chain = []
        n = node
        d = len(self.stack)
        while n is not None and n.depth > d: chain.append(n); n = n.parent
        while n is not None and n.depth > 0 and self.stack[n.depth - 1] is not n: chain.append(n); n = n.parent
        keep = n.depth if n is not None else 0
        if len(self.stack) > keep:
            self.s.pop(len(self.stack) - keep); del self.stack[keep:]
        for n in reversed(chain):
            if n.depth == 0: continue
            self.s.push(); self.stack.append(n)
            if not self.ground_only or ground(n.f): self.s.add(n.f)
    def check(self, node, extra, timeout=4000):
        """sat / unsat / unknown of path and extra"""
        if self.deadline and time.time() > self.deadline: raise Giveup('time budget')
        t0 = time.time()
        self.sync(node)
        self.s.push()
        for e in extra: self.s.add(e)
        r = run_for(self.s, timeout)
        self.unknown = r == z3.unknown
        self.model = None
        if r != z3.unsat:
            try: self.model = self.s.model()
            except z3.Z3Exception: pass
        self.s.pop()
        self.nq += 1; self.t += time.time() - t0
        if r == z3.unsat: self.by['z3-incremental'] += 1
        return r
    def facts(self, node):
        fs = []
        while node is not None and node.depth > 0: fs.append(node.f); node = node.parent
        return fs[::-1]
    def prove(self, node, goal, timeout=4000, hard=False):
        if z3.is_true(goal): return True
        key = (id(node), goal.get_id())
        if key in self.cache and (self.cache[key][0] or not hard): return self.cache[key][0]
        if z3.is_false(goal): r = self.check(node, [], timeout) == z3.unsat
        else:
            r = self.check(node, [z3.Not(goal)], timeout) == z3.unsat
        if not r and hard:
            m = self.model
            r = self.fallback(node, goal)
            self.model = m
        self.cache[key] = (r, node, goal)
        return r
    def fallback(self, node, goal):
        t0 = time.time()
        ok = False
        for tac in ('default', 'arith6'):
            s = z3.Solver() if tac == 'default' else z3.SimpleSolver()
            if tac == 'arith6': s.set('smt.arith.solver', 2)
            for f in self.facts(node): s.add(f)
            s.add(z3.Not(goal))
            try: r = run_for(s, 10000)
            except z3.Z3Exception: r = z3.unknown
            self.nq += 1
            if r == z3.unsat: ok = True; self.by['z3-fresh'] += 1; break
            if r == z3.sat: break
        if not ok:
            ok = self.cvc5(node, goal)
        # nobody refuted it: other random seeds, longer
        seed = 0
        while not ok and r != z3.sat and self.retry > 0 and seed < 4:
            seed += 1; t1 = time.time()
            s = z3.SimpleSolver() if seed % 2 else z3.Solver()
            s.set('random_seed', seed)
            for f in self.facts(node): s.add(f)
            s.add(z3.Not(goal))
            try: r = run_for(s, 15000)
            except z3.Z3Exception: r = z3.unknown
            self.nq += 1
            if r == z3.unsat: ok = True; self.by['z3-fresh'] += 1
            self.retry -= time.time() - t1
        self.t += time.time() - t0
        return ok
    def cvc5(self, node, goal, tmo=10):
        import subprocess, tempfile, os
        s = z3.Solver()
        for f in self.facts(node): s.add(f)
        s.add(z3.Not(goal))
        txt = '(set-logic ALL)\n' + s.to_smt2()
        self.nq += 1
        try:
            p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % (tmo * 1000), '-'], input=txt, capture_output=True, text=True, timeout=tmo + 5)
        except (subprocess.TimeoutExpired, OSError): return False
        if p.stdout.strip().startswith('unsat'): self.by['cvc5'] += 1; return True
        return False


class GroundSolver(Solver):
    """knows the facts without quantifiers only: what it proves holds, and its models are real models of those facts"""
    ground_only = True


class Obj:
    __slots__ = ('id', 'name', 'size', 'es', 'kind', 'ro', 'where', 'elem', 'cls', 'props')
    def __init__(self, id, name, size, kind, es=None, ro=False, where='stack', elem='int', cls=None):
        self.id, self.name, self.size, self.kind, self.es, self.ro, self.where, self.elem, self.cls = id, name, P(size) if size is not None else None, kind, es, ro, where, elem, cls
        self.props = {}
    def __repr__(self): return self.name


class St:
    __slots__ = ('path', 'mem', 'dead', 'g', 'objs', 'touched')
    def __init__(self):
        self.path, self.mem, self.dead, self.g, self.objs, self.touched = ROOT, {}, frozenset(), {}, {}, frozenset()
    def copy(self):
        s = St(); s.path, s.mem, s.dead, s.g, s.objs, s.touched = self.path, dict(self.mem), self.dead, dict(self.g), self.objs, self.touched
        return s
    def assume(self, f, kind='fact'):
        if isinstance(f, bool): f = TRUE if f else FALSE
        if z3.is_true(f): return self
        if z3.is_and(f) and kind in ('fact', 'lemma'):
            for c in f.children(): self.assume(c, kind)
            return self
        self.path = Node(self.path, f, kind)
        return self


class HintFail(Exception):
    """an obligation is not discharged with the invariants suggested by hints.json: search without them"""
class Obs(list):
    strict = False
    def append(self, o):
        list.append(self, o)
        if self.strict and not o.ok: raise HintFail(o.what)


class Obligation:
    __slots__ = ('kind', 'fn', 'what', 'ok', 'line', 'model', 't')
    def __init__(self, kind, fn, what, ok, line='', model=None): self.kind, self.fn, self.what, self.ok, self.line, self.model = kind, fn, what, ok, line, model
