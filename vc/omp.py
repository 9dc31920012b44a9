"""Parallel regions.  A region is executed once, by a generic thread tau of T threads (both symbolic); what the
other threads do between two barriers is summarised from the same paths with tau renamed (parts that are
proved disjoint), so that the conclusion holds for every number of threads and every schedule."""
import re, z3
from .term import *
from .term import _n
from .core import *
from .exec import Out, Item, Frame
from .loops import consts, created, same
from . import ir


_nl = {}
def _one(m):
    if m.get_id() not in _nl:
        a, b = m.arg(0), m.arg(1)
        _nl[m.get_id()] = ([z3.Implies(z3.And(a >= 0, b >= 0), m >= 0), z3.Implies(z3.And(a >= 1, b >= 0), m >= b), z3.Implies(z3.And(b >= 1, a >= 0), m >= a),
                            z3.Implies(a == 0, m == 0), z3.Implies(b == 0, m == 0), z3.Implies(a == 1, m == b), z3.Implies(b == 1, m == a)], m)
    return _nl[m.get_id()][0]
def _two(m, k):
    q = (m.get_id(), k.get_id())
    if q not in _nl:
        fs = []
        for a, f in ((m.arg(0), m.arg(1)), (m.arg(1), m.arg(0))):
            for b, g in ((k.arg(0), k.arg(1)), (k.arg(1), k.arg(0))):
                if not f.eq(g): continue
                fs += [z3.Implies(f >= 0, z3.And(z3.Implies(a < b, m + f <= k), z3.Implies(b < a, k + f <= m))),
                       z3.Implies(a == b, m == k), z3.Implies(a == b + 1, m == k + f), z3.Implies(b == a + 1, k == m + f)]
        _nl[q] = (fs, m, k)
    return _nl[q][0]


def nlfacts(terms, rounds=1):
    """facts about the products and quotients occurring in the terms (the multiplication and division
    symbols are uninterpreted; each fact is an instance of a lemma proved in lemmas.nonlinear)"""
    muls, divs, seen, st = {}, {}, set(), list(terms)
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): continue
        if z3.is_app(x):
            if x.decl().eq(MULF): muls[x.get_id()] = x
            elif x.decl().eq(DIVF): divs[x.get_id()] = x
            st.extend(x.children())
    fs = []
    ms = list(muls.values())
    for m in ms: fs += _one(m)
    for i, m in enumerate(ms):
        for k in ms[i + 1:]: fs += _two(m, k)
    for q in divs.values():
        x, y = q.arg(0), q.arg(1)
        p = (P(q) * P(y)).z()
        fs.append(z3.Implies(z3.And(x >= 0, y > 0), z3.And(q >= 0, q <= x, p <= x, x < p + y, z3.Implies(y > x, q == 0), z3.Implies(y == 1, q == x))))
    if rounds: fs += nlfacts(fs, 0)
    return fs


class Omp:
    def __init__(self, ex):
        self.ex = ex; ex.omp = self
        self.region = None
        self.specs = []          # callables giving footprints for arrays written by several threads
        self.part = None
        self.redspecs = []
        self.parts = None        # (ex, st, R, lo, hi) -> the bounds of the thread's part, where loops are to be run as given to threads
        ex.models = list(ex.models) + [(re.compile(a), b) for a, b in (
            (r'^__kmpc_fork_call$', self.fork), (r'^omp_get_num_threads$', self.num_threads), (r'^omp_get_thread_num$', self.thread_num),
            (r'^omp_set_dynamic$', self.set_dynamic), (r'^__kmpc_barrier$', self.barrier), (r'^__kmpc_single$', self.single), (r'^__kmpc_end_single$', self.end_single),
            (r'^__kmpc_for_static_init_[48]u?$', self.for_init), (r'^__kmpc_for_static_fini$', self.for_fini),
            (r'^__kmpc_dispatch_init_[48]u?$', self.dispatch_init), (r'^__kmpc_dispatch_next_[48]u?$', self.dispatch_next),
            (r'^__kmpc_global_thread_num$', self.gtid), (r'^__kmpc_reduce(_nowait)?$', self.reduce), (r'^__kmpc_end_reduce(_nowait)?$', self.end_reduce))]
        ex.access_hook = self.access
    # -- small ones
    def partition(self, st, x, y): return None
    def num_threads(self, ex, st, args, ins): return IntV(32, u=self.region.T if self.region else P(1))
    def thread_num(self, ex, st, args, ins):
        if not self.region: return IntV(32, u=0)
        if st.g.get('single'): return ex.fresh_int(st, 32, 'someone')
        return IntV(32, u=self.region.tau)
    def set_dynamic(self, ex, st, args, ins): st.g['dyn'] = 'off'
    def gtid(self, ex, st, args, ins): return ex.fresh_int(st, 32, 'gtid')
    # -- regions
    def fork(self, ex, st, args, ins):
        if self.region is not None: raise Unsupported('nested parallel region')
        f = args[2]
        if not isinstance(f, FnV): raise Unsupported('fork of an unknown function')
        self.region = R = Region(self, st, f.name, args[3:])
        try: return R.run()
        finally: self.region = None
    def barrier(self, ex, st, args, ins):
        if self.region is None: return None
        if len(ex.callstack) != self.region.depth: raise Unsupported('barrier outside the region\'s own body')
        if st.g.get('single'): raise Unsupported('barrier inside single')
        return [Out('barrier', st)]
    def single(self, ex, st, args, ins):
        """one thread enters; its private state is unknown inside"""
        R = self.region
        st.g['single0'] = Box((_n[0], st.path, dict(st.mem)))
        hidden = {k: v for k, v in st.mem.items() if k not in R.shared and k not in st.g['shared'] and ex.objs[k].where != 'global'}
        st.g['hidden'] = Box(hidden)
        # its own variables are unknown in there; what it stores in them is unknown to the others afterwards
        st.mem = {k: ({} if k in hidden and isinstance(v, dict) else v) for k, v in st.mem.items() if k not in hidden or isinstance(v, dict)}
        st.g['single'] = True
        st.g['nsingle'] = st.g.get('nsingle', 0) + 1
        return IntV(32, u=1)
    def end_single(self, ex, st, args, ins):
        hid = st.g['hidden'].v
        new = frozenset(k for k in st.mem if k not in self.region.shared and ex.objs[k].where != 'global' and k not in hid)
        own = {k for k in hid if st.mem.get(k)}
        st.g['shared'] = st.g['shared'] | new
        n0, path0, mem0 = st.g.pop('single0').v
        R = self.region
        # whoever entered: what was done there must not depend on the executing thread's own values
        def priv_(t):
            if isinstance(t, (IntV,)): t = Z(t.u if t.u is not None else t.s)
            elif isinstance(t, PtrV): t = t.off.z()
            elif isinstance(t, FltV): t = t.t
            elif isinstance(t, BoolV): t = t.b
            if not z3.is_expr(t): return False
            return any(created(c) <= n0 for c in R.private(t))
        bad = any(priv_(n.f) for n in R.nodes_since(st.path, path0) if n.kind != 'lemma')
        for ob, c in st.mem.items():
            if c is mem0.get(ob) or ob in hid: continue
            if isinstance(c, dict): bad = bad or any(priv_(v[1]) for q, v in c.items() if not (isinstance(mem0.get(ob), dict) and q in mem0[ob] and mem0[ob][q][1] is v[1]))
            elif z3.is_expr(c): bad = bad or priv_(c)
        if bad and not ex.search:
            # is it because what the single construct reads was just written by every thread, without a barrier?
            for a in R.accs:
                for b in R.accs:
                    if a.phase == b.phase == R.phase and a.obj == b.obj and a.rw == 'w' and not a.single and b.single:
                        R.race('%s is used by one thread while others still write it: %s' % (ex.objs[a.obj].name.split('#')[0], b.what), False)
                        return []
        if bad: raise Unsupported('a single construct depends on which thread executes it')
        R.common.append((n0, _n[0]))
        st.g.pop('hidden')
        st.mem.update({k: v if k not in own else {} for k, v in hid.items()})
        st.g['single'] = False
    def reduce(self, ex, st, args, ins):
        """the combining step of a reduction clause: one thread at a time; what the others combined before is unknown"""
        R = self.region
        if R is None or st.g.get('single'): raise Unsupported('reduction outside a region')
        lst = args[4]
        if not isinstance(lst, PtrV) or lst.obj not in st.mem: raise Unsupported('reduction list')
        priv = [v for q, (z, v) in sorted(st.mem[lst.obj].items())]
        before = {}
        for a in R.args:
            if isinstance(a, PtrV) and a.obj is not None and ex.objs[a.obj].kind == 'cells' and ex.objs[a.obj].size.isconst() and ex.objs[a.obj].size.c <= 8 and a.obj in st.mem:
                m = st.mem[a.obj]
                if set(m) == {0} and isinstance(m[0][1], IntV):
                    F = ex.fresh_int(st, m[0][1].bits, 'combined')
                    before[a.obj] = (m, F); st.mem[a.obj] = {0: (m[0][0], F)}
        st.g['reduce'] = Box((before, priv))
        ex.assumed.add('the compiler lowers reduction clauses correctly (the variant that combines in a critical section is the one verified)')
        return IntV(32, u=1)
    def end_reduce(self, ex, st, args, ins):
        before, priv = st.g.pop('reduce').v
        done = dict(st.g.get('reduced', {}))
        for ob, (m, F) in before.items():
            v = st.mem[ob][0][1]
            if v is F: st.mem[ob] = m; continue
            done[ob] = (m, F, v, [st.mem[p.obj][p.off.c][1] for p in priv])
            st.mem[ob] = m
        st.g['reduced'] = done
    # -- worksharing loops: the iterations are shared out to the threads in any way; see ForRegion
    def for_init(self, ex, st, args, ins):
        if self.region is None or isinstance(self.region, ForRegion) or st.g.get('single'): raise Unsupported('a worksharing loop outside a region')
        if len(ex.callstack) != self.region.depth: raise Unsupported('a worksharing loop outside the region\'s own body')
        sched, plb, pub, inc, chunk = args[2], args[4], args[5], args[7], args[8]
        if not (sched.isconst() and ex.U(st, sched).c == 34): raise Unsupported('schedule of a worksharing loop')
        if not (inc.isconst() and ex.U(st, inc).c == 1): raise Unsupported('step of a worksharing loop')
        ty = ir.INT(inc.bits)
        lo, hi = ex.load(st, ty, plb, 'lower bound'), ex.load(st, ty, pub, 'upper bound')
        if lo is None or hi is None: return []
        sg = ins.a['callee'].rstrip('"')[-1] != 'u'
        lo, hi = (ex.S(st, lo), ex.S(st, hi)) if sg else (ex.U(st, lo), ex.U(st, hi))
        if sg and not ex.prove(st, And(cmp('>=', lo, 0), cmp('>=', hi, 0))): raise Unsupported('a worksharing loop over negative numbers')
        if self.parts is not None:
            lb, ub = self.parts(ex, st, self.region, lo, hi)
            for p, v in ((plb, lb), (pub, ub)):
                if ex.store(st, ty, p, IntV(inc.bits, u=v), 'bounds of a worksharing loop') is None: return []
            return [Out('ret', st, None)]
        lb, ub = fresh('lb'), fresh('ub')
        st.assume(And(le(lo, lb), cmp('>=', ub, 0), le(ub, hi)))
        for p, v in ((plb, lb), (pub, ub)):
            if ex.store(st, ty, p, IntV(inc.bits, u=v), 'bounds of a worksharing loop') is None: return []
        st.g['for'] = Box((lo, hi, lb, ub, plb, pub, ty, sg))
        return [Out('ret', st, None)]
    def for_fini(self, ex, st, args, ins): return None
    # schedules that hand out chunks while the loop runs: the thread's chunks are looked at one by one, each like a loop of its own
    def dispatch_init(self, ex, st, args, ins):
        if self.region is None or isinstance(self.region, ForRegion) or st.g.get('single'): raise Unsupported('a worksharing loop outside a region')
        if len(ex.callstack) != self.region.depth: raise Unsupported('a worksharing loop outside the region\'s own body')
        lo, hi, inc = args[3], args[4], args[5]
        if not (inc.isconst() and ex.U(st, inc).c == 1): raise Unsupported('step of a worksharing loop')
        sched = ex.U(st, args[2]).c & 0xffff
        if sched not in (33, 34, 35, 36, 37, 38): raise Unsupported('schedule of a worksharing loop')      # not the ordered ones
        sg = ins.a['callee'].rstrip('"')[-1] != 'u'
        bits = inc.bits
        lo, hi = (ex.S(st, lo), ex.S(st, hi)) if sg else (ex.U(st, lo), ex.U(st, hi))
        if sg and not ex.prove(st, And(cmp('>=', lo, 0), cmp('>=', hi, 0))): raise Unsupported('a worksharing loop over negative numbers')
        st.g['dynfor'] = Box((lo, hi, (bits, sg)))
        return None
    def dispatch_next(self, ex, st, args, ins):
        if 'dynnext' not in st.g: raise Unsupported('a chunk is asked for outside a worksharing loop')
        lo, hi, bits, more = st.g.pop('dynnext').v
        if not more: return IntV(32, u=0)
        plb, pub, pst = args[3], args[4], args[5]
        bits, sg = bits
        ty = ir.INT(bits)
        lb, ub = fresh('lb'), fresh('ub')
        st.assume(And(le(lo, lb), le(lb, ub), le(ub, hi)))
        for p, v in ((plb, IntV(bits, u=lb)), (pub, IntV(bits, u=ub)), (pst, IntV(bits, u=1)), (args[2], ex.fresh_int(st, 32, 'last'))):
            if ex.store(st, ty if p is not args[2] else ir.INT(32), p, v, 'bounds of a worksharing loop') is None: return []
        st.g['for'] = Box((lo, hi, lb, ub, plb, pub, ty, sg))
        st.g['dyncells'] = Box({(p.obj, p.off.c) for p in (plb, pub, pst, args[2])})
        return IntV(32, u=1)
    def dyn_loop(self, fn, it, L):
        ex = self.ex
        if any(i.op == 'phi' for i in fn.blocks[it.blk]): raise Unsupported('a value is carried from one chunk of a worksharing loop to the next')
        lo, hi, bits = it.st.g.pop('dynfor').v
        st = it.st.copy(); st.g['dynnext'] = Box((lo, hi, bits, True))
        m0 = dict(st.mem)
        outs = ex.run(fn, [Item(it.blk, it.prev, 0, st, dict(it.regs))], region=L.body, header=it.blk)
        res = []
        for o in outs:
            if o.kind == 'throw': res.append(o); continue
            if o.kind == 'exit' and ex.infeasible(o.st): continue
            if o.kind != 'back' or 'for' in o.st.g: raise Unsupported('chunks of a worksharing loop')
            x = o.st; own = x.g.pop('dyncells').v; done = x.g.get('fordone', {})
            for ob, c in x.mem.items():
                if ob not in m0 or c is m0[ob] or ob in done: continue
                if not isinstance(c, dict): raise Unsupported('an array is changed between the chunks of a worksharing loop')
                for q in c:
                    if (ob, q) in own or q in m0[ob] and same(c[q][1], m0[ob][q][1]): continue
                    raise Unsupported('a variable is changed between the chunks of a worksharing loop')
            x.g['dynnext'] = Box((lo, hi, bits, False))
            last = ex.run(fn, [Item(it.blk, it.prev, 0, x, o.x.regs)], region=L.body, header=it.blk)
            if any(p.kind not in ('exit', 'throw') for p in last): raise Unsupported('end of a worksharing loop')
            res += last
        return res
    def for_loop(self, fn, it, L):
        R = self.region
        F = ForRegion(self, R, it, fn, L)
        self.region = F
        try: outs = F.run_iter()
        finally: self.region = R
        return outs
    def access(self, st, o, off, sz, rw, what):
        if self.region is not None and not ('reduce' in st.g and o.id in st.g['reduce'].v[0]): self.region.log(st, o, off, sz, rw, what)
    def atomicrmw(self, ex, st, ins, p, v): raise Unsupported('atomic operation')


class Box:
    def __init__(self, v): self.v = v


class Acc:
    __slots__ = ('node', 'obj', 'off', 'sz', 'rw', 'what', 'single', 'phase', 'block')
    def __init__(self, *a): self.node, self.obj, self.off, self.sz, self.rw, self.what, self.single, self.phase, self.block = a


class Region:
    def __init__(self, omp, st, fn, args):
        self.omp, self.ex, self.st0, self.fn, self.args = omp, omp.ex, st, fn, args
        ex = self.ex
        if st.g.get('dyn') == 'off' and 'T' in st.g: self.T = st.g['T']; new = False
        else: self.T = fresh('T'); new = True
        self.n0 = _n[0]
        self.tau = fresh('tau')
        self.shared = frozenset(st.mem)
        if new:
            st.assume(And(cmp('>=', self.T, 1), lt(self.T, 1 << 31)))
            if st.g.get('dyn') == 'off':
                st.g['T'] = self.T
                ex.assumed.add('after omp_set_dynamic(0) every parallel region gets the same number of threads')
        self.fork_node = st.path
        self.accs = []
        self.phase = 0
        self.common = []         # constants created for all threads together: (n0, n1]
        self.fors = []           # what worksharing loops of the current phase touched: (objects written, objects touched)
    def is_shared(self, st, ob): return ob in self.shared or ob in st.g.get('shared', ())
    def log(self, st, o, off, sz, rw, what):
        if self.ex.search or o.where == 'global' or not self.is_shared(st, o.id): return
        self.accs.append(Acc(st.path, o.id, off, P(sz), rw, what, bool(st.g.get('single')), self.phase, None))
    def facts_since(self, node, base):
        fs = []
        while node is not None and node is not base and node.depth > 0: fs.append(node.f); node = node.parent
        return fs[::-1]
    def nodes_since(self, node, base):
        while node is not None and node is not base and node.depth > 0: yield node; node = node.parent
    def private(self, f): return [c for c in consts(f) if created(c) > self.n0 and not any(a < created(c) <= b for a, b in self.common)]

    def run(self):
        ex = self.ex
        fn = ex.mod.funcs[self.fn]
        st = self.st0.copy()
        st.g['shared'] = frozenset()
        st.assume(And(cmp('>=', self.tau, 0), lt(self.tau, self.T)))
        for h in ex.hooks:
            if hasattr(h, 'region_start'): h.region_start(self, st)
        g = ex.new_cells(st, 'gtid', 4); st.mem[g.id] = {0: (4, ex.fresh_int(st, 32, 'gtid'))}
        regs = {}
        for (t, pn), a in zip(fn.params, [PtrV(g.id), PtrV(g.id)] + list(self.args)): regs[pn] = a
        ex.funcs_seen.add(self.fn)
        ex.callstack.append(Frame(fn, ''))
        self.depth = len(ex.callstack)
        try:
            items = [Item(fn.entry, None, 0, st, regs)]
            self.starts = [(st, dict(st.mem))]
            while True:
                self.base = {id(i.st): None for i in items}
                self.start_mem = dict(items[0].st.mem)
                if len(items) > 1: self.start_mem = None
                self.phase_starts = [(i.st.path, dict(i.st.mem)) for i in items]
                outs = []
                for i in items:
                    m0 = dict(i.st.mem)
                    for o in ex.run(fn, [i]): outs.append((o, m0))
                good = []
                for o, m0 in outs:
                    if o.kind == 'throw':
                        ex.oblige(o.st, 'post', FALSE, 'no exception leaves a parallel region')
                        continue
                    good.append((o, m0))
                if not good: return []
                kinds = {(o.kind, o.val if o.kind == 'barrier' else None) for o, m0 in good}
                if len(kinds) != 1: raise Unsupported('threads wait at different barriers')
                n1 = _n[0]
                good = self.sync(good)
                self.common.append((n1, _n[0]))
                self.phase += 1
                if good[0].kind == 'ret': break
                items = [o.x for o in good]
                for o in good: o.x.st = o.st
        finally: ex.callstack.pop()
        res = []
        for o in good:
            s = o.st
            s.assume(eq(self.tau, 0))
            if ex.infeasible(s): continue
            s.mem = {k: v for k, v in s.mem.items() if self.is_shared(s, k) or ex.objs[k].where == 'global'}
            for k in ('shared', 'single', 'nsingle'): s.g.pop(k, None)
            res.append(Out('ret', s, None))
        if len(res) >= 3: res = ex.merge(res)
        return res

    # ---------------------------------------------------------------- what all threads together did
    def sync(self, good):
        ex = self.ex
        accs = [a for a in self.accs if a.phase == self.phase]
        dirty = {}
        self.check_fors(good, accs)
        for o, m0 in good:
            done = o.st.g.pop('fordone', {})
            for ob, c in o.st.mem.items():
                if ob in done and c is done[ob]: continue
                if self.is_shared(o.st, ob) and c is not m0.get(ob) and ex.objs[ob].where != 'global':
                    if ob in m0: dirty.setdefault(ob, []).append((o, m0))
        if not ex.search:
            byobj = {}
            for a in accs: byobj.setdefault(a.obj, []).append(a)
        else: byobj = {}
        for ob in sorted(dirty):
            X = ex.objs[ob]
            if X.kind == 'cells': self.cells(good, ob, byobj.get(ob, []))
            else: self.array(good, ob, byobj.get(ob, []))
        # objects not written: reads only, no conflict
        if good[0][0].kind == 'ret': self.reductions(good)
        return [o for o, m0 in good]
    def reductions(self, good):
        ex = self.ex
        red = [o.st.g.get('reduced', {}) for o, m0 in good]
        for ob in sorted(set().union(*[set(r) for r in red])):
            if not all(ob in r for r in red): raise Unsupported('a reduction only some threads take part in')
            init = red[0][ob][0][0][1]; op = None; idx = None
            for i in range(len(red[0][ob][3])):
                for nm, f in (('max', lambda F, q: pmax(F, q)), ('min', lambda F, q: pmin(F, q)), ('+', lambda F, q: F + q)):
                    if all(ex.prove(o.st, eq(ex.U(o.st, r[ob][2]), f(ex.U(o.st, r[ob][1]), ex.U(o.st, r[ob][3][i])))) for (o, m0), r in zip(good, red)): op, idx = nm, i; break
                if op: break
            if op != 'max': raise Unsupported('reduction of %s is not understood' % ex.objs[ob].name)
            F = fresh('reduced')
            bits = init.bits
            for (o, m0), r in zip(good, red):
                s = o.st
                s.assume(And(cmp('>=', F, 0), lt(F, 1 << bits), le(ex.U(s, init), F), le(ex.U(s, r[ob][3][idx]), F)))
                s.mem[ob] = {0: (bits // 8, IntV(bits, u=F))}
            for f in self.omp.redspecs: f(self, good, ob, init, F, [ex.U(o.st, r[ob][3][idx]) for (o, m0), r in zip(good, red)])
        for o, m0 in good: o.st.g.pop('reduced', None)
    def race(self, what, ok, model=None):
        self.ex.obs.append(Obligation('race', self.fn, what, ok))
    def cells(self, good, ob, accs):
        """members of shared objects: written inside single only, and by nobody else meanwhile"""
        ex = self.ex
        if ex.search: return
        w = [a for a in accs if a.rw == 'w']
        for a in w:
            for b in accs:
                if a is b or not (a.off.isconst() and b.off.isconst()):
                    if a is b: continue
                    raise Unsupported('symbolic offset in a shared object')
                if a.off.c + a.sz.c <= b.off.c or b.off.c + b.sz.c <= a.off.c: continue
                if not (a.single and b.single): self.race('%s+%d is written while other threads use it: %s' % (ex.objs[ob].name.split('#')[0], a.off.c, a.what), False); return
            if not a.single: self.race('%s+%d is written by every thread: %s' % (ex.objs[ob].name.split('#')[0], a.off.c, a.what), False); return
        self.race('%s is written by one thread only' % ex.objs[ob].name.split('#')[0], True)
    def array(self, good, ob, accs):
        ex = self.ex; X = ex.objs[ob]
        nm = X.name.split('#')[0]
        sing = [a for a in accs if a.single and a.rw == 'w']; rest = [a for a in accs if not a.single]
        if sing:
            if any(not a.single for a in accs): self.race('%s is changed by one thread while others use it: %s' % (nm, sing[0].what), False)
            else: self.race('%s is changed by one thread alone' % nm, True)
            return
        # an object made in a single construct is known under one name per path; each path is looked at by itself
        have = [(o, m0) for o, m0 in good if ob in m0 and ob in o.st.mem]
        for spec in self.omp.specs:
            r = spec(self, have, ob, accs)
            if r: return
        raise Unsupported('effect of the threads on %s is not understood' % nm)

    def check_fors(self, good, accs):
        """the effect of a worksharing loop is known at its end; nothing else may touch what it writes before the next barrier,
        and threads that did different things must have been on paths they cannot take at the same time"""
        fors, self.fors = self.fors, []
        if not any('fordone' in o.st.g for o, m0 in good): return
        if not self.ex.search:
            for k, (w, t) in enumerate(fors):
                for w2, t2 in fors[k + 1:]:
                    if w & t2 or w2 & t: raise Unsupported('two worksharing loops without a barrier between them use the same array')
                for a in accs:
                    if a.obj in w or a.rw == 'w' and a.obj in t: raise Unsupported('an array of a worksharing loop is used before the next barrier')
        for k, (o, m0) in enumerate(good):
            for o2, m2 in good[k + 1:]:
                if o.st.g.get('fordone', {}) == o2.st.g.get('fordone', {}): continue
                if not self.apart(o.st.path, o2.st.path): raise Unsupported('threads may take part in different worksharing loops')
    def apart(self, a, b):
        """no two threads can be on these two paths at the same time"""
        fa, fb = self.ex.solver.facts(a), self.facts_since(b, self.fork_node)
        sub = self.rename(fb + [self.tau.z()])
        hyps = fa + [z3.substitute(f, *sub) if sub else f for f in fb]
        s = z3.SimpleSolver()
        for h in hyps + nlfacts(hyps): s.add(h)
        self.ex.solver.nq += 1
        return run_for(s, 5000) == z3.unsat

    # ---- two-thread reasoning
    def rename(self, fs):
        """the same facts about another thread: private constants renamed"""
        sub, seen = [], {}
        for f in fs:
            for c in self.private(f):
                if c.get_id() not in seen:
                    d = z3.Const('%s~2' % c.decl().name(), c.sort()); seen[c.get_id()] = d; sub.append((c, d))
        return sub
    def pairprove(self, ctx, a, b, rel, goal, what, kind='race'):
        """facts of path node a, facts of path node b for another thread, rel(tau,tau2), sub -> goal(sub)"""
        ex = self.ex
        fa = ex.solver.facts(a)
        fb = self.facts_since(b, self.fork_node)
        sub = self.rename(fb + [self.tau.z()])
        tau2 = z3.substitute(self.tau.z(), *sub)
        fb2 = [z3.substitute(f, *sub) for f in fb]
        hyps = fa + fb2 + [rel(self.tau.z(), tau2)]
        g = goal(lambda t: z3.substitute(t, *sub))
        hyps += nlfacts(hyps + [g])
        s = z3.SimpleSolver()
        for h in hyps: s.add(h)
        s.add(z3.Not(g))
        r = run_for(s, 8000); ex.solver.nq += 1
        ok = r == z3.unsat
        if not ok:
            s = z3.Solver()
            for h in hyps: s.add(h)
            s.add(z3.Not(g)); ok = run_for(s, 8000) == z3.unsat; ex.solver.nq += 1
        if ok: ex.solver.by['z3-fresh'] += 1
        if not ex.search: ex.obs.append(Obligation(kind, self.fn, what, ok))
        return ok
    def prove_at(self, node, extra, goal, what, kind='race'):
        ex = self.ex
        hyps = ex.solver.facts(node) + extra
        hyps += nlfacts(hyps + [goal])
        ok = False
        for mk in (z3.SimpleSolver, z3.Solver):
            s = mk()
            for h in hyps: s.add(h)
            s.add(z3.Not(goal)); ex.solver.nq += 1
            if run_for(s, 8000) == z3.unsat: ok = True; break
        if ok: ex.solver.by['z3-fresh'] += 1
        if not ex.search and what: ex.obs.append(Obligation(kind, self.fn, what, ok))
        return ok


class ForRegion(Region):
    """A worksharing loop: one generic iteration is executed from the state before the loop, as if every iteration had a
    thread of its own.  That is right for every way of sharing them out if no iteration touches what another one writes
    (proved by the specifications of the arrays written) and nothing private is carried from one to the next."""
    def __init__(self, omp, R, it, fn, L):
        ex = omp.ex
        self.omp, self.ex, self.R, self.it, self.L = omp, ex, R, it, L
        self.fnobj, self.fn = fn, fn.name
        self.entry = it.st
        self.lo, self.hi, self.lb, self.ub, self.plb, self.pub, self.ty, self.sg = it.st.g['for'].v
        self.n0, self.common, self.fork_node = R.n0, R.common, R.fork_node
        self.T = R.T
        self.tau = fresh('i')
        self.shared = R.shared | it.st.g.get('shared', frozenset())
        self.accs, self.phase, self.fors = [], 0, []
        self.depth = -1
        self.results = {}
    def is_shared(self, st, ob): return ob in self.shared
    def header_from(self, st, iv, regs):
        fn, header = self.fnobj, self.it.blk
        nphi, regs = 0, dict(regs)
        for ins in fn.blocks[header]:
            if ins.op != 'phi': break
            nphi += 1
            v = self.ex.val(self.entry, self.it.regs, ins.ty, ins.a['inc'][self.it.prev])
            if not (isinstance(v, IntV) and v.u is not None and v.u.same(self.lb)): raise Unsupported('a value is carried from one iteration of a worksharing loop to the next')
            regs[ins.res] = IntV(v.bits, u=iv); self.phi = ins
        if nphi != 1: raise Unsupported('worksharing loop without a counter')
        return [Item(header, self.it.prev, nphi, st, regs)]
    def run_iter(self):
        ex, fn = self.ex, self.fnobj
        n1 = _n[0]
        i = self.tau
        st = self.entry.copy(); st.g.pop('for')
        lb, ub = fresh('lb'), fresh('ub')
        st.assume(And(le(self.lo, lb), le(lb, i), le(i, ub), le(ub, self.hi)))
        for p, v in ((self.plb, lb), (self.pub, ub)): lib_set(st, p, IntV(self.ty.bits, u=v), ir.sizeof(self.ty))
        m0 = dict(st.mem)
        for h in ex.hooks:
            if hasattr(h, 'iteration_start'): h.iteration_start(self, st)
        node0 = st.path
        outs = ex.run(fn, self.header_from(st, i, self.it.regs), region=self.L.body, header=self.it.blk)
        good = []
        for o in outs:
            if o.kind == 'throw': ex.oblige(o.st, 'post', FALSE, 'no exception leaves a worksharing loop'); continue
            if o.kind == 'exit':
                if ex.infeasible(o.st): continue
                raise Unsupported('a worksharing loop is left early')
            if o.kind != 'back': raise Unsupported('control leaves a worksharing loop')
            v = ex.val(o.st, o.x.regs, self.phi.ty, self.phi.a['inc'][o.x.prev])
            if not ex.prove(o.st, eq(ex.U(o.st, v), i + 1)): raise Unsupported('counter of a worksharing loop')
            good.append((o, m0))
        undone = set()
        for o, m in good:
            for ob, c in o.st.mem.items():
                if ob not in m0 or c is m0[ob] or self.is_shared(o.st, ob) or ex.objs[ob].where == 'global': continue
                if not isinstance(c, dict): raise Unsupported('an array of the thread\'s own is carried from one iteration of a worksharing loop to the next')
                for q in c:
                    if q in m0[ob] and (c[q][1] is m0[ob][q][1] or same(c[q][1], m0[ob][q][1])): continue
                    if q in m0[ob] and not isinstance(m0[ob][q][1], UndefV): raise Unsupported('a variable is carried from one iteration of a worksharing loop to the next')
                    undone.add((ob, q))
            for g in ('heap', 'maps', 'open', 'fs'):
                if o.st.g.get(g) != self.entry.g.get(g) and g != 'heap': raise Unsupported('files used in a worksharing loop')
        dead = {ob for o, m in good for ob in o.st.dead if ob in m0} - set(self.entry.dead)
        if dead: raise Unsupported('memory is released in a worksharing loop')
        if good: self.sync(good)
        n2 = _n[0]
        # what holds afterwards
        s2 = self.entry.copy(); s2.g.pop('for')
        written = set(self.results)
        for ob, (A, facts) in self.results.items():
            for f in facts:
                if [c for c in self.private(f) if not (created(c) > n1 and created(c) <= n2 and c.decl().name().startswith('joined'))]: raise Unsupported('the effect of a worksharing loop depends on the thread')
                s2.assume(f)
            s2.mem[ob] = A
        self.R.common.append((n1, n2))
        if written: s2.g['fordone'] = {**s2.g.get('fordone', {}), **{ob: s2.mem[ob] for ob in written}}
        if not ex.search: self.R.fors.append((frozenset(written), frozenset(a.obj for a in self.accs) | frozenset(written)))
        for ob, q in undone: s2.mem[ob] = {k: v for k, v in s2.mem[ob].items() if k != q}
        lb, ub, iv = fresh('lb'), fresh('ub'), fresh('iv')
        s2.assume(And(le(self.lo, lb), cmp('>=', ub, 0), le(ub, self.hi), cmp('>=', iv, lb), lt(ub, iv), lt(iv, 1 << (self.ty.bits - (1 if self.sg else 0)))))
        for p, v in ((self.plb, lb), (self.pub, ub)): lib_set(s2, p, IntV(self.ty.bits, u=v), ir.sizeof(self.ty))
        outs = ex.run(fn, self.header_from(s2, iv, self.it.regs), region=self.L.body, header=self.it.blk)
        if not outs or any(o.kind != 'exit' for o in outs): raise Unsupported('end of a worksharing loop')
        return outs
    def result(self, good, ob, A, facts):
        """called by the specifications: after all iterations the array is A"""
        self.results[ob] = (A, facts)
        for o, m0 in good: o.st.mem[ob] = A


def lib_set(st, p, v, sz):
    m = dict(st.mem[p.obj]); m[p.off.c] = (sz, v); st.mem[p.obj] = m


def own_part(R, good, ob, accs, lo, hi, name):
    """every access of iteration i to the array is to elements [lo(i), hi(i)), and these parts are disjoint"""
    ex = R.ex; X = ex.objs[ob]; es = X.es or 1
    i = R.tau.z()
    Z_ = lambda t: P(t).z()
    seen = set()
    for a in accs:
        key = (a.node.f.get_id() if a.node.depth else 0, a.off.key(), a.sz.key(), a.rw)
        if key in seen: continue
        seen.add(key)
        R.prove_at(a.node, [], And(le(P(lo(i)) * es, a.off), le(a.off + a.sz, P(hi(i)) * es)), 'each iteration stays in its own part of %s: %s' % (name, 'writing' if a.rw == 'w' else 'reading'))
    if good and not ex.search:
        for o, m0 in good:
            for o2, m2 in good:
                R.pairprove(None, o.st.path, o2.st.path, lambda t, t2: t < t2, lambda ren: Z_(hi(i)) <= ren(Z_(lo(i))), 'different iterations have different parts of %s' % name)

def rows_spec(which, lo, hi, val, name, frame=True):
    """specification of an array written by a worksharing loop: iteration i writes elements [lo(i), hi(i)) only, and leaves
    val(i, k) in element k.  which(R, good, ob) tells whether the array is meant."""
    def spec(R, good, ob, accs):
        if not isinstance(R, ForRegion) or not which(R, good, ob): return False
        ex = R.ex; i = R.tau.z()
        own_part(R, good, ob, accs, lo, hi, name)
        Z_ = lambda t: P(t).z()
        k = z3.Int('k!row')
        A0 = good[0][1][ob]
        A = z3.Const('joined!%d' % fresh_id(), z3.ArraySort(z3.IntSort(), z3.IntSort()))
        inr = lambda j: z3.And(R.lo.z() <= j, j <= R.hi.z())
        for o, m0 in good:
            s = o.st.copy()
            ex.oblige(s, 'post', z3.Implies(z3.And(k >= Z_(lo(i)), k < Z_(hi(i))), z3.Select(s.mem[ob], k) == val(i, k)), '%s: each element is what it should be' % name)
        j = z3.Int('j!row')
        facts = [z3.ForAll([j, k], z3.Implies(z3.And(inr(j), k >= Z_(lo(j)), k < Z_(hi(j))), z3.Select(A, k) == val(j, k)), patterns=[z3.MultiPattern(z3.Select(A, k), val(j, k))])] if False else []
        if z3.is_int(k) and Z_(lo(k)).eq(k) and P(hi(k)).same(P(k) + 1):
            facts.append(z3.ForAll([k], z3.Select(A, k) == z3.If(inr(k), val(k, k), A0(k) if callable(A0) else z3.Select(A0, k)), patterns=[z3.Select(A, k)]))
        else:
            facts.append(z3.ForAll([j, k], z3.Implies(z3.And(inr(j), k >= Z_(lo(j)), k < Z_(hi(j))), z3.Select(A, k) == val(j, k))))
        R.result(good, ob, A, facts)
        return True
    return spec


def rows_rel(which, lo, hi, rel, witnesses, shared, name):
    """specification of arrays written by a worksharing loop, where the effect of an iteration is a relation:
    rel(i, {name: array}, w) -> closed formulas about the parts [lo(i), hi(i)) only, w(k) a function of the element number.
    which(R, good, ob) -> name of the array or None; witnesses(o, i) -> functions that may do for w.
    Afterwards some function of iteration and element number does for all iterations at once (shared[R])."""
    def spec(R, good, ob, accs):
        if not isinstance(R, ForRegion): return False
        nm = which(R, good, ob)
        if not nm: return False
        ex = R.ex; i = R.tau.z()
        own_part(R, good, ob, accs, lo, hi, nm)
        if id(R) not in shared: shared[id(R)] = (R, {}, {})
        _, wit, new = shared[id(R)]
        for n, (o, m0) in enumerate(good):
            s = o.st
            for w in ([wit[n]] if n in wit else list(witnesses(o, i))):
                fs = rel(i, {nm: s.mem[ob]}, w)
                ok = all(ex.prove(s.copy(), f, 8000) for d, f in fs)
                if ok: break
            if ok: wit[n] = w
            for d, f in fs: ex.oblige(s.copy(), 'post', f, '%s: %s' % (nm, d))
        A = z3.Const('joined!%d' % fresh_id(), z3.ArraySort(z3.IntSort(), z3.IntSort()))
        F = new.setdefault('F', z3.Function('rows!%d' % fresh_id(), z3.IntSort(), z3.IntSort(), z3.IntSort()))
        j = z3.Int('j!row%d' % fresh_id())
        facts = []
        for d, f in rel(j, {nm: A}, lambda k: F(j, k)):
            rng = z3.And(R.lo.z() <= j, j <= R.hi.z())
            if z3.is_quantifier(f) and f.is_forall():
                vs = [z3.Const('%s!q%d' % (f.var_name(q), fresh_id()), f.var_sort(q)) for q in range(f.num_vars())]
                body = z3.substitute_vars(f.body(), *vs[::-1])
                pats = [z3.substitute_vars(t, *vs[::-1]) for q in range(f.num_patterns()) for t in f.pattern(q).children()]
                at = P(lo(j)).z()
                facts.append(z3.ForAll([j] + vs, z3.Implies(rng, body), patterns=[z3.MultiPattern(*pats, at)] if pats else []))
            else: facts.append(z3.ForAll([j], z3.Implies(rng, f)))
        R.result(good, ob, A, facts)
        return True
    return spec
