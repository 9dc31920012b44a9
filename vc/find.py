"""C21: find_offsets.

CT(p) is the number of occurrences of the character before position p, OCC(i) the offset of the i-th one (both from the start
of the range).  Thread t begins at ST(t); BEF(t), the occurrences up to and including ST(t), are its predecessors'."""
import z3
from .term import *
from .core import *
from .exec import *
from .omp import *
from .loops import num_slots, Filled
from .contracts import text_state, reader, fr_layout, find
from . import lib, load as LD, bin as B
from .bin import fn, one, size_of

I = z3.IntSort()
class Cfg:
    def __init__(self, lt='uint64_t', ot='uint64_t'): self.lt, self.ot = lt, ot
    def defs(self): return ['LT=' + self.lt, 'OT=' + self.ot]
    def name(self): return '%s %s' % (self.lt, self.ot)
    def bits(self, t=None): return int((t or self.lt).strip('uint_'))
CFGS = [Cfg(), Cfg('uint32_t', 'uint64_t'), Cfg('uint32_t', 'uint32_t')]


class Occ:
    def __init__(self, ex, T, d0, ch):
        self.ex, self.T, self.d0, self.ch = ex, T, d0, ch
        self.CH = T.char_fn(ch)
        self.CT, self.OCC, self.ST, self.BEF = (z3.Function(n, I, I) for n in ('CT', 'OCC', 'ST', 'BEF'))
        self.n = self.sums = self.out = None
        self.fill = Filled({'the offsets': self.OCC})
        T.extra.append(self.pos)
    def hit(self, p): return z3.And(p < self.T.E.z(), self.T.B(p) == self.ch.z())
    def upto(self, p): return z3.If(p < self.T.E.z(), self.CT(p + 1), self.CT(self.T.E.z()))
    def all(self): return self.CT(self.T.E.z())
    def pos(self, st, x):
        for y in (x, x + 1): self.pos1(st, y)
    def pos1(self, st, x):
        k = ('occ', x.key())
        if k in st.touched: return
        st.touched = st.touched | {k}
        p, E, d0, CT, CH = x.z(), self.T.E.z(), self.d0.z(), self.CT, self.CH
        rng = z3.And(d0 <= p, p <= E)
        h = self.hit(p)
        st.assume(z3.And(CT(d0) == 0, z3.Implies(rng, z3.And(CT(p) >= 0, CT(p) <= p - d0, CT(p) <= CT(E), CH(p) >= p, CH(p) <= E, CT(CH(p)) == CT(p))), CT(E) <= E - d0, CT(E) >= 0,
                         z3.Implies(z3.And(rng, p < E), z3.And(CT(p + 1) == CT(p) + z3.If(h, 1, 0), CT(p + 1) <= CT(E), z3.Implies(h, self.OCC(CT(p)) == p - d0)))), 'lemma')
        for q in st.g.get('pts_occ', ())[-6:]:
            for a, b in ((p, q), (q, p)):
                st.assume(z3.Implies(z3.And(d0 <= a, a <= b, b <= E), z3.And(CT(a) <= CT(b), z3.Implies(b <= CH(a), CT(a) == CT(b)), CH(a) <= CH(b))), 'lemma')
        st.g['pts_occ'] = st.g.get('pts_occ', ()) + (p,)
    def touch_t(self, st, t):
        """where thread t begins"""
        T, ex, n = self.T, self.ex, self.n
        t = P(t); k = ('ST', t.key())
        if k in st.touched: return
        st.touched = st.touched | {k}
        size = T.E - self.d0; tz = t.z()
        q = self.d0 + (ex.divfacts(st, t * size, n) if not t.isconst() or t.c else P(0))
        ex.mulfacts(st, t, size); ex.mulfacts(st, n, size)
        inn = z3.And(tz >= 0, tz <= n.z())
        st.assume(z3.Implies(inn, z3.And((q - self.d0).z() <= size.z(), q.z() >= self.d0.z())), 'lemma')
        st.assume(z3.Implies(tz == n.z(), q.z() == T.E.z()), 'lemma')
        T.touch_at(st, q); T.touch_at(st, q + 1)
        qz, E, d0 = q.z(), T.E.z(), self.d0.z()
        s = self.ST(tz)
        st.assume(z3.And(self.ST(0) == d0, self.BEF(0) == 0, z3.Implies(z3.And(tz >= 1, inn), z3.And(s == self.CH(z3.If(self.hit(qz), qz + 1, qz)), self.BEF(tz) == self.upto(s))),
                         z3.Implies(inn, z3.And(self.BEF(tz) >= 0, self.BEF(tz) <= self.all(), s >= d0, s <= E)), z3.Implies(z3.And(tz == n.z(), n.z() >= 1), z3.And(s == E, self.BEF(tz) == self.all()))), 'lemma')
        T.touch_at(st, P(s))
        for o, oq in st.g.get('pts_thr', ())[-6:]:
            for (a, aq), (b, bq) in (((tz, qz), (o, oq)), ((o, oq), (tz, qz))):
                st.assume(z3.Implies(z3.And(0 <= a, a <= b, b <= n.z()), z3.And(aq <= bq, self.ST(a) <= self.ST(b), self.BEF(a) <= self.BEF(b))), 'lemma')
        st.g['pts_thr'] = st.g.get('pts_thr', ()) + ((tz, qz),)
    # -- hooks
    def region_start(self, R, st):
        for t in (R.tau, R.tau + 1): self.touch_t(st, t)
    def touch(self, ex, st, o, idx):
        if o.id == self.sums:
            for d in (-1, 0, 1): self.touch_t(st, idx + d)
    def slot_touch(self, ex, st, s): pass
    def slot_touch_init(self, ex, st, s): pass
    def slot_touch_val(self, ex, st, s, v):
        pass
    def ranks(self, ctx): return []
    def cands(self, ctx):
        cs, k = [], z3.Int('k!q')
        ns = [s for s in num_slots(ctx) if isinstance(s.cur, IntV) and s.cur.bits == 64 and s.init_z is not None]
        for s in ctx.slots:
            if s.kind == 'arr' or s.const is None or not self.T.is_text(s.cur) or s.init_z is None: continue
            cs.append(('%s in the range' % s.name, z3.And(s.const >= self.d0.z(), s.const <= self.T.E.z())))
            for v in ns: cs.append(('%s counts the occurrences up to %s' % (v.name, s.name), v.const - v.init_z == self.upto(s.const) - self.upto(s.init_z)))
        if any(a.kind == 'arr' and a.key == self.sums for a in ctx.slots):
            for v in ns:
                cs.append(('%s <= threads' % v.name, v.const <= self.n.z()))
                for i in ns:
                    if i is not v: cs.append(('%s is the sum before %s' % (v.name, i.name), v.const == self.BEF(i.const)))
                for a in ctx.slots:
                    if a.kind == 'arr' and a.key == self.sums: cs.append(('%s holds the sums before %s' % (a.name, v.name), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < v.const), z3.Select(a.const, k) == self.BEF(k + 1)), patterns=[z3.Select(a.const, k)])))
        return cs + self.fill.cands(ctx)
    # -- specifications of the shared arrays
    def counts(self, R, good, ob, accs):
        """each thread stores at its own number how many occurrences it has"""
        ex = R.ex; X = ex.objs[ob]
        if X.es != 8 or X.name.split('#')[0] != 'vector' or not good or any(ob not in o.st.mem for o, m0 in good): return False
        tz = R.tau.z()
        for o, m0 in good:
            t = o.st.mem[ob]
            if not z3.is_store(t) or not t.arg(0).eq(m0[ob]) or not ex.prove(o.st, t.arg(1) == tz): return False
        for a in accs: R.prove_at(a.node, [], And(eq(a.off, R.tau * 8), eq(a.sz, 8)), 'a thread uses only its own element of the counts: ' + a.what)
        A, k = fresh_arr('all'), z3.Int('k')
        A0 = good[0][1][ob]
        for o, m0 in good:
            ex.oblige(o.st.copy(), 'post', o.st.mem[ob].arg(2) == self.BEF(tz + 1) - self.BEF(tz), 'a thread counts exactly the occurrences of its part')
        for o, m0 in good:
            o.st.assume(z3.ForAll([k], z3.Select(A, k) == z3.If(z3.And(k >= 0, k < R.T.z()), self.BEF(k + 1) - self.BEF(k), z3.Select(A0, k)), patterns=[z3.Select(A, k)]))
            o.st.mem[ob] = A
            for q in (R.tau, R.tau + 1, R.T): self.touch_t(o.st, q)
        self.sums = ob
        if not ex.search: ex.obs.append(Obligation('race', R.fn, 'every thread stores its own count', True))
        return True
    def output(self, R, good, ob, accs):
        """each thread stores the offsets of its own occurrences"""
        ex = R.ex; X = ex.objs[ob]
        if self.sums is None or ob == self.sums: return False
        es = X.es or 1
        t = R.tau; kk, k = z3.Int('k!any'), z3.Int('k')
        lo, hi, tot = P(self.BEF(t.z())), P(self.BEF((t + 1).z())), self.all()
        for a in accs: R.prove_at(a.node, [], And(le(lo * es, a.off), le(a.off + a.sz, hi * es)), 'a thread stays in the part of the result reserved for it: ' + a.what)
        A = fresh_arr('joined'); A0 = good[0][1][ob]
        for o, m0 in good:
            s = o.st.copy(); A1 = s.mem[ob]
            ex.oblige(s, 'race', z3.Implies(z3.Or(kk < lo.z(), kk >= hi.z()), z3.Select(A1, kk) == z3.Select(m0[ob], kk)), 'outside its part of the result a thread changes nothing')
            ex.oblige(s, 'post', z3.Implies(z3.And(kk >= lo.z(), kk < hi.z()), z3.Select(A1, kk) == self.OCC(kk)), 'a thread stores exactly the offsets of its own occurrences, in order')
        for o, m0 in good:
            o.st.assume(z3.ForAll([k], z3.Select(A, k) == z3.If(z3.And(k >= 0, k < tot), self.OCC(k), z3.Select(A0, k)), patterns=[z3.Select(A, k)]))
            o.st.mem[ob] = A
        self.out = ob
        return True


def verify_find(ex, cfg):
    Omp(ex); B.setup(ex); ex.no_oom = ex.merge_pts = True
    st, T = text_state(ex, [])
    ex.lay = fr_layout(ex)
    LD.scan_contracts(ex, ('good', 'size', 'peek', 'at_nl_or_eol', 'at_zero'))
    st.assume(lt(T.E, 1 << min(56, cfg.bits(), cfg.bits(cfg.ot))))
    n = fresh('T'); st.g['T'] = n
    st.assume(And(cmp('>=', n, 1), lt(n, 1 << 31), lt(T.E * n, 1 << 56)))
    ex.mulfacts(st, T.E, n)
    ex.assumed.add('the text has fewer than 2^56 bytes divided by the number of threads, and its offsets fit the label type')
    left = P(z3.Int('left')); d0 = T.E - left; st.assume(And(cmp('>=', left, 0), cmp('>=', d0, 0)))
    ex.mulfacts(st, left, n)
    c = ex.fresh_int(st, 8, 'c')
    G = Occ(ex, T, d0, c.u); G.n = n
    ex.hooks.append(G)
    ex.omp.specs = [G.counts, G.output]
    r = reader(ex, st, d0, T.E)
    T.touch_at(st, d0); T.touch_at(st, T.E)
    o = ex.new_cells(st, 'result', size_of(ex, 't_sz'))
    off = one(ex.inline(st.copy(), fn(ex, 't_sto_c'), [PtrV(o.id)]), 'accessor').val.off.c
    get = {}
    ex.search += 1
    try:
        for g in ('order', 'm'):
            x = one(ex.inline(st.copy(), fn(ex, 't_get_' + g), [PtrV(o.id)]), 'accessor')
            new = [q for q in x.st.mem[o.id] if q not in st.mem[o.id]]
            if len(new) != 1: raise Unsupported('accessor %s does not read one member' % g)
            get[g] = new[0]
    finally: ex.search -= 1
    name = fn(ex, 'f_find')
    ex.obs.append(Obligation('vacuity', name, 'the precondition is satisfiable', ex.solver.check(st.path, [], 3000) != z3.unsat))
    mem0 = dict(st.mem)
    outs = ex.inline(st, name, [PtrV(o.id), PtrV(r.id), c])
    ex.callstack.append(Frame(ex.mod.funcs[name], ''))
    kk = z3.Int('k!any'); full = 0
    es = cfg.bits() // 8
    for x in outs:
        s = x.st
        if x.kind != 'ret': ex.oblige(s, 'post', FALSE, 'finding offsets does not throw'); continue
        full += 1
        M = s.mem[o.id]
        ex.oblige(s, 'post', eq(ex.U(s, M[get['m']][1]), P(G.all())), 'as many offsets as there are occurrences')
        ex.oblige(s, 'post', Imp(lt(P(0), P(G.all())), eq(ex.U(s, M[get['order']][1]), 1)), 'one offset for each')
        for q in (r.id, T.obj.id): ex.oblige(s, 'frame', TRUE if s.mem[q] is mem0[q] else FALSE, 'the reader and the text are unchanged')
        ptr = M[off][1]
        ok = isinstance(ptr, PtrV) and ptr.obj is not None and ptr.obj not in s.dead
        ex.oblige(s, 'post', TRUE if ok else FALSE, 'the offsets have storage')
        if not ok: continue
        ex.oblige(s, 'post', And(eq(ptr.off, 0), eq(ex.objs[ptr.obj].size, P(G.all()) * es)), 'storage for exactly the occurrences')
        ex.oblige(s.copy(), 'post', z3.Implies(z3.And(kk >= 0, kk < G.all()), z3.Select(s.mem[ptr.obj], kk) == G.OCC(kk)), 'the result holds exactly the offsets of the occurrences, in increasing order')
    ex.callstack.pop()
    if not full: ex.obs.append(Obligation('vacuity', name, 'some path returns', False))
    return ex.obs
