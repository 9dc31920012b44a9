"""C09, C27: writing COOs and tensors as text with several threads.

S(e) is where entry e begins in the file: the sum of the sizes of the entries before it.  Both passes are verified against S: the
first gives every thread the number of bytes of its entries, the prefix sum gives where they begin, and the second writes from
there the documented bytes (OUT).  write_size and write_ascii enter by their contracts (digits.py: SZ(v) characters TXT(v, .))."""
import re, z3
from . import ir
from .term import *
from .core import *
from .exec import *
from .omp import *
from .loops import num_slots, Filled, consts
from .contracts import find
from . import lib, bin as B, sto as S
from .lib import cell, setcell, kill
from .digits import TYPES

SIZES = {'uint8_t': 1, 'int8_t': 1, 'uint16_t': 2, 'int16_t': 2, 'uint32_t': 4, 'int32_t': 4, 'uint64_t': 8, 'int64_t': 8}
I = z3.IntSort()
SZ = z3.Function('SZ', I, I)           # characters of an integer as text: the sign and NDIG of the magnitude
TXT = z3.Function('TXT', I, I, I)      # its characters: '-' and the decimal digits (what verify_ascii proves)
MAXC = 21
def sz_facts(v): return z3.And(SZ(v) >= 1, SZ(v) <= MAXC)


class Cfg:
    def __init__(self, lt='uint32_t', ot='uint64_t', w=None, tensor=False): self.lt, self.ot, self.w, self.tensor = lt, ot, w, tensor
    def defs(self): return ['LT=' + self.lt, 'OT=' + self.ot] + (['WGT=1', 'WT=' + self.w] if self.w else []) + (['TENSOR=1'] if self.tensor else [])
    def name(self): return '%s %s%s' % (self.lt, self.ot, ' ' + self.w if self.w else '')
CFGS = [Cfg(), Cfg('int64_t', 'uint32_t'), Cfg('int32_t', 'uint32_t', 'uint8_t'), Cfg(w='int32_t'), Cfg('uint64_t', 'uint64_t', 'int64_t')]
TCFGS = [Cfg(tensor=True), Cfg('uint32_t', 'uint32_t', 'int32_t', True), Cfg('int64_t', 'uint64_t', 'uint64_t', True)]


def num(raw, t):
    """the integer whose representation in type t is raw"""
    b = 8 * SIZES[t]
    return raw if t[0] == 'u' else z3.If(raw >= (1 << (b - 1)), raw - (1 << b), raw)


class Size:
    """contract of write_size (proved in digits.py)"""
    def __init__(self, bits, signed): self.bits, self.signed = bits, signed
    def value(self, ex, st, v):
        if isinstance(v, BoolV): return z3.If(v.b, z3.IntVal(1), z3.IntVal(0))
        return Z(ex.S(st, v)) if self.signed else Z(ex.U(st, v))
    def apply(self, ex, st, args):
        v = self.value(ex, st, args[0])
        st.assume(sz_facts(v), 'lemma')
        return [Out('ret', st, IntV(64, u=P(SZ(v))))]


class Ascii(Size):
    """contract of write_ascii (proved in digits.py): exactly the characters of the number, then the position is behind them"""
    def apply(self, ex, st, args):
        v = self.value(ex, st, args[1])
        st.assume(sz_facts(v), 'lemma')
        p = ex.load(st, ir.PTR, args[0], 'file position')
        if p is None: return []
        n = P(SZ(v))
        o = ex.access(st, p, n, 'w', 'writing a number')
        if o is None: return []
        if o.es is None: o.es = 1
        if o.es != 1: raise Unsupported('text in an array of larger elements')
        A, D, k = st.mem[o.id], fresh_arr('txt'), z3.Int('k')
        a = p.off.z(); b = (p.off + n).z()
        st.assume(z3.ForAll([k], z3.Select(D, k) == z3.If(z3.And(k >= a, k < b), TXT(v, k - a), z3.Select(A, k)), patterns=[z3.Select(D, k)]))
        st.mem[o.id] = D
        if ex.store(st, ir.PTR, args[0], PtrV(p.obj, p.off + n), 'file position') is None: return []
        return [Out('ret', st)]


class Fp:
    """contract of File::fp() on the File made by make_shared below"""
    def apply(self, ex, st, args): return [Out('ret', st, ex.load(st, ir.PTR, args[0], 'use of the File'))]


def m_make(ex, st, args, ins):
    """std::make_shared<File>(name, mode, size): the constructor's contract (proved for C23) in storage of its own"""
    name, mode, size = args[1], ex.load(st, IntT(32), args[2], 'mode'), ex.load(st, IntT(64), args[3], 'size')
    if mode is None or size is None: return []
    G = ex.text_out
    ex.oblige(st, 'pre', eq(ex.U(st, mode), 1), 'the file is opened for writing')
    size = ex.U(st, size)
    if not ex.oblige(st, 'pre', And(cmp('>=', size, 1), lt(size, 1 << 62)), 'the file is opened with a size of at least 1 (an exception here would end the program)'): return []
    d, n = lib.str_get(ex, st, name)
    d0, n0 = G.name
    k = z3.Int('k!nm')
    ex.oblige(st.copy(), 'post', And(eq(n, n0), z3.Implies(z3.And(k >= 0, k < n0.z()), B.sel(st.mem[d.obj], (d.off + k).z()) == B.sel(d0, k))), 'the file written has the given name')
    ex.oblige(st, 'post', TRUE if 'file' not in st.g else FALSE, 'the file is opened once')
    m = ex.new_arr(st, 'output', size, es=1, where='map')
    f = ex.new_cells(st, 'File', 64); f.props['alloc'] = 'make_shared'
    st.mem[f.id] = {0: (8, PtrV(m.id, 0))}
    S.sptr_new(ex, st, args[0], PtrV(f.id, 0), 'make_shared')
    st.g['file'] = (f.id, m.id)
    ex.assumed.add('the output file can be created (an exception inside the parallel region ends the program)')
def used(ex, st, p, rw): return ex.access(st, p, 16, rw, 'use of the shared pointer to the File')
def m_deref(ex, st, args, ins):
    if used(ex, st, args[0], 'r') is None: return []
    p = cell(ex, st, args[0], 0)
    if not ex.oblige(st, 'null', FALSE if p.obj is None else TRUE, 'the File has been made'): return []
    return p
def m_move(ex, st, args, ins):
    if used(ex, st, args[0], 'w') is None: return []
    return close(ex, st, S.m_sptr_move_assign(ex, st, args, ins))
def m_dtor(ex, st, args, ins):
    if used(ex, st, args[0], 'w') is None: return []
    return close(ex, st, S.m_sptr_dtor(ex, st, args, ins))
def close(ex, st, r):
    """the last owner destroys the File, which releases the mapping (contract of ~File, proved for C23)"""
    if 'file' in st.g and st.g['file'][0] in st.dead: kill(st, st.g['file'][1])
    return r
P_ = r'std::shared_ptr<pigo::File>::'
MODELS = [(re.compile(a), b) for a, b in [
    (r'std::shared_ptr<.*> std::make_shared<pigo::File, std::__cxx11::basic_string<.*>&, pigo::OpenMode, unsigned long&>\(', m_make),
    (r'std::__shared_ptr_access<pigo::File, .*>::operator->\(\) const$', m_deref),
    (P_ + r'operator=\(std::shared_ptr<pigo::File>&&\)$', m_move), (P_ + r'~shared_ptr\(\)$', m_dtor)]]


class Parts:
    """worksharing loops without a schedule: thread t is given the t-th of T contiguous parts, the same in equal loops"""
    def __init__(self, G): self.G = G; self.PT = z3.Function('PART', I, I); self.known = None
    def __call__(self, ex, st, R, lo, hi):
        if self.known is None: self.known = (lo, hi, R.T)
        l, h, T = self.known
        if not (T.same(R.T) and ex.prove(st, And(eq(l, lo), eq(h, hi)))): raise Unsupported('worksharing loops over different ranges')
        if not ex.prove(st, le(lo, hi)): raise Unsupported('a worksharing loop over nothing')
        ex.assumed.add('a worksharing loop without a schedule gives thread t the t-th of the contiguous parts, the same parts in loops over the same range (as clang and gcc do)')
        self.G.touch_t(st, R.tau); self.G.touch_t(st, R.tau + 1)
        t = R.tau.z()
        return P(self.PT(t)), P(self.PT(t + 1)) - 1


class TextOut:
    """hook: the sizes of entries, where they begin (S), what the file is to hold (OUT), which entries a thread has (PART)"""
    def __init__(self, ex, cfg, m, arrs):
        self.ex, self.cfg, self.m, self.arrs = ex, cfg, m, arrs
        self.S, self.OUT = z3.Function('S', I, I), z3.Function('OUT', I, I)
        self.parts = Parts(self); self.T = None; self.sums = None
        w = SIZES[cfg.w] if cfg.w else 0
        self.top = 3 * (MAXC + 1)
        self.fill = Filled({'the text': self.OUT})
    def fields(self, e):
        c = self.cfg
        r = [num(z3.Select(self.arrs['x'], e), c.lt), num(z3.Select(self.arrs['y'], e), c.lt)]
        if c.w: r.append(num(z3.Select(self.arrs['w'], e), c.w))
        return r
    def touch_e(self, st, e):
        """entry e: its size, where it begins and ends, its bytes"""
        e = P(e); k = ('outentry', e.key())
        if k in st.touched: return
        st.touched = st.touched | {k}
        ez, m, Sf = e.z(), self.m.z(), self.S
        inn = z3.And(ez >= 0, ez < m)
        fs = self.fields(ez)
        size = sum([SZ(v) + 1 for v in fs[1:]], SZ(fs[0]) + 1)
        st.assume(z3.And(Sf(0) == 0, z3.Implies(inn, z3.And(*[sz_facts(v) for v in fs], Sf(ez + 1) == Sf(ez) + size, Sf(ez + 1) <= Sf(m))),
                         z3.Implies(z3.And(ez >= 0, ez <= m), z3.And(Sf(ez) >= 0, Sf(ez) <= self.top * ez, Sf(ez) <= Sf(m), Sf(m) <= self.top * m)), z3.Implies(m >= 1, Sf(m) >= 1)), 'lemma')
        q = z3.Int('k!out'); at = Sf(ez); body = z3.IntVal(10); pos = [at]
        for v in fs: pos.append(pos[-1] + SZ(v) + 1)
        for i in range(len(fs) - 1, -1, -1):
            sep = z3.IntVal(10) if i == len(fs) - 1 else z3.IntVal(32)
            body = z3.If(q < pos[i] + SZ(fs[i]), TXT(fs[i], q - pos[i]), z3.If(q == pos[i] + SZ(fs[i]), sep, body))
        st.assume(z3.ForAll([q], z3.Implies(z3.And(inn, q >= at, q < at + size), self.OUT(q) == body), patterns=[self.OUT(q)]), 'unfold')
        for o in st.g.get('entries', ())[-14:]:
            st.assume(z3.And(z3.Implies(z3.And(0 <= ez, ez <= o, o <= m), Sf(ez) <= Sf(o)), z3.Implies(z3.And(0 <= o, o <= ez, ez <= m), Sf(o) <= Sf(ez)),
                             z3.Implies(z3.And(0 <= ez, ez < o, o <= m), Sf(ez + 1) <= Sf(o)), z3.Implies(z3.And(0 <= o, o < ez, ez <= m), Sf(o + 1) <= Sf(ez))), 'lemma')
        st.g['entries'] = st.g.get('entries', ()) + (ez,)
    def touch_t(self, st, t):
        """where the part of thread t begins"""
        t = P(t); k = ('outpart', t.key())
        if k in st.touched or self.parts.known is None: return
        st.touched = st.touched | {k}
        lo, hi, T = self.parts.known
        PT, tz, Tz = self.parts.PT, t.z(), T.z()
        st.assume(z3.And(PT(0) == lo.z(), PT(Tz) == hi.z() + 1, z3.Implies(z3.And(tz >= 0, tz <= Tz), z3.And(lo.z() <= PT(tz), PT(tz) <= hi.z() + 1)),
                         z3.Implies(z3.And(tz >= 1, tz <= Tz), PT(tz) >= lo.z() + 1),
                         z3.Implies(z3.And(tz >= 0, tz < Tz), PT(tz) <= PT(tz + 1)), z3.Implies(z3.And(tz >= 1, tz <= Tz), PT(tz - 1) <= PT(tz))), 'parts')
        self.touch_e(st, P(PT(tz)))
        if t.isconst() and t.c == 0: self.touch_e(st, lo)
    def SP(self, t): return self.S(self.parts.PT(t))
    # -- hooks of the executor
    def touch(self, ex, st, o, idx):
        if o.id == self.sums:
            for d in (-1, 0, 1): self.touch_t(st, idx + d)
    def region_start(self, R, st):
        self.T = R.T
    def index(self, v): return isinstance(v, IntV) and v.bits == 8 * SIZES[self.cfg.ot]
    def slot_touch(self, ex, st, s):
        if s.kind != 'arr' and self.index(s.cur): self.touch_e(st, ex.U(st, s.cur))
    def slot_touch_init(self, ex, st, s):
        if s.kind != 'arr' and self.index(s.cur) and s.init_z is not None: self.touch_e(st, P(s.init_z))
    def slot_touch_val(self, ex, st, s, v):
        if s.kind != 'arr' and self.index(v): self.touch_e(st, ex.U(st, v))
    def ranks(self, ctx): return []
    def cands(self, ctx):
        cs, k = [], z3.Int('k!q')
        ns = [s for s in num_slots(ctx) if s.init_z is not None]
        ix = [s for s in ns if self.index(s.cur)]
        for v in ns:
            if not (isinstance(v.cur, PtrV) or isinstance(v.cur, IntV) and v.cur.bits == 64): continue
            for i in ix:
                if i is not v: cs.append(('%s is as many bytes further as the entries from %s0 to %s take' % (v.name, i.name, i.name), v.const - v.init_z == self.S(i.const) - self.S(i.init_z)))
        if self.sums is None: return cs + self.fill.cands(ctx)
        for v in ns:
            if not (isinstance(v.cur, IntV) and v.cur.bits == 64): continue
            cs.append(('%s <= threads + 1' % v.name, v.const <= self.T.z() + 1))
            for a in ctx.slots:
                if a.kind == 'arr' and a.key == self.sums:
                    for d in (0, 1): cs.append(('%s holds where parts begin before %s (+%d)' % (a.name, v.name, d), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < v.const + d), z3.Select(a.const, k) == self.SP(k)), patterns=[z3.Select(a.const, k)])))
        return cs + self.fill.cands(ctx)
    # -- specifications of the shared arrays
    def sizes(self, R, good, ob, accs):
        """each thread stores at its own number + 1 how many bytes its entries take"""
        ex = R.ex; X = ex.objs[ob]
        if X.es != 8 or X.name.split('#')[0] != 'vector' or not good or any(ob not in o.st.mem for o, m0 in good): return False
        tz = R.tau; t1 = (tz + 1).z()
        for o, m0 in good:
            t = o.st.mem[ob]
            if not z3.is_store(t) or not t.arg(0).eq(m0[ob]) or not ex.prove(o.st, t.arg(1) == t1): return False
        for a in accs: R.prove_at(a.node, [], And(eq(a.off, (tz + 1) * 8), eq(a.sz, 8)), 'a thread uses only its own element of the sizes: ' + a.what)
        A, k = fresh_arr('all'), z3.Int('k')
        A0 = good[0][1][ob]
        for o, m0 in good:
            s = o.st.copy(); self.touch_t(s, tz); self.touch_t(s, tz + 1)
            ex.oblige(s, 'post', s.mem[ob].arg(2) == self.SP(t1) - self.SP(tz.z()), 'a thread counts exactly the bytes of its own entries')
        for o, m0 in good:
            o.st.assume(z3.ForAll([k], z3.Select(A, k) == z3.If(z3.And(k >= 1, k <= R.T.z()), self.SP(k) - self.SP(k - 1), z3.Select(A0, k)), patterns=[z3.Select(A, k)]))
            o.st.mem[ob] = A
            for q in (tz, tz + 1, R.T): self.touch_t(o.st, q)
        self.sums = ob
        if not ex.search: ex.obs.append(Obligation('race', R.fn, 'every thread stores its own size', True))
        return True
    def output(self, R, good, ob, accs):
        """each thread writes the bytes of its own entries"""
        ex = R.ex; X = ex.objs[ob]
        if X.where != 'map': return False
        tz = R.tau; kk, k = z3.Int('k!any'), z3.Int('k')
        lo, hi, tot = P(self.SP(tz.z())), P(self.SP((tz + 1).z())), self.SP(R.T.z())
        for a in accs: R.prove_at(a.node, [], And(le(lo, a.off), le(a.off + a.sz, hi)), 'a thread stays in the part of the file of its entries: ' + a.what)
        A = fresh_arr('joined')
        A0 = good[0][1][ob]
        for o, m0 in good:
            s = o.st.copy(); A1 = s.mem[ob]
            ex.oblige(s, 'race', z3.Implies(z3.Or(kk < lo.z(), kk >= hi.z()), z3.Select(A1, kk) == z3.Select(m0[ob], kk)), 'outside its part of the file a thread changes nothing')
            ex.oblige(s, 'post', z3.Implies(z3.And(kk >= lo.z(), kk < hi.z()), z3.Select(A1, kk) == self.OUT(kk)), 'a thread writes exactly the text of its own entries, in order')
        for o, m0 in good:
            o.st.assume(z3.ForAll([k], z3.Select(A, k) == z3.If(z3.And(k >= 0, k < tot), self.OUT(k), z3.Select(A0, k)), patterns=[z3.Select(A, k)]))
            o.st.mem[ob] = A
        return True


class TensorOut(TextOut):
    """C(q): the characters of the coordinates before coordinate q, each with what follows it; W(e): those of the weights of the
    entries before e.  Entry e begins at S(e) = C(e order) + W(e); coordinate q is one of entry ENT(q)."""
    def __init__(self, ex, cfg, m, arrs, order):
        super().__init__(ex, cfg, m, arrs)
        self.order = order; self.C, self.W, self.ENT = (z3.Function(n, I, I) for n in ('C', 'W', 'ENT'))
        self.c_id = None; self.qs = []
    def touch_e(self, st, e):
        e = P(e); k = ('outentry', e.key())
        if k in st.touched: return
        st.touched = st.touched | {k}
        ex = self.ex; ez, m, od = e.z(), self.m.z(), self.order
        S, C, W, top = self.S, self.C, self.W, MAXC + 1
        for x in (e, e + 1, self.m): ex.mulfacts(st, x, od)
        a, b, mo = (e * od).z(), ((e + 1) * od).z(), (self.m * od).z()
        inn = z3.And(ez >= 0, ez < m); in1 = z3.And(ez >= 0, ez <= m)
        self.touch_q(st, e * od); self.touch_q(st, (e + 1) * od); self.touch_q(st, (e + 1) * od - 1)
        w = num(z3.Select(self.arrs['w'], ez), self.cfg.w) if self.cfg.w else None
        ws = SZ(w) + 1 if self.cfg.w else z3.IntVal(0)
        fs = [W(0) == 0, C(0) == 0, S(0) == 0, z3.Implies(inn, W(ez + 1) == W(ez) + ws), z3.Implies(inn, z3.And(b <= mo, S(ez + 1) == C(b) + W(ez + 1), C(a) + od.z() * 1 <= C(b), S(ez + 1) <= S(m))),
              z3.Implies(in1, z3.And(S(ez) == C(a) + W(ez), W(ez) >= 0, W(ez) <= top * ez, W(ez) <= W(m), a <= mo, S(ez) <= S(m))), S(m) == C(mo) + W(m), C(mo) <= top * mo, W(m) <= top * m, W(m) >= 0, z3.Implies(m >= 1, S(m) >= 1)]
        if w is not None: fs.append(z3.Implies(inn, sz_facts(w)))
        st.assume(z3.And(*fs), 'lemma')
        if w is not None:
            q = z3.Int('k!out'); at = C(b) + W(ez)
            st.assume(z3.ForAll([q], z3.Implies(z3.And(inn, q >= at, q < at + SZ(w) + 1), self.OUT(q) == z3.If(q < at + SZ(w), TXT(w, q - at), 10)), patterns=[self.OUT(q)]), 'unfold')
        for o in st.g.get('entries', ())[-14:]:
            for F in (S, W): st.assume(z3.And(*[z3.Implies(z3.And(0 <= x, x <= y, y <= m), F(x) <= F(y)) for x, y in ((ez, o), (o, ez))], *[z3.Implies(z3.And(0 <= x, x < y, y <= m), F(x + 1) <= F(y)) for x, y in ((ez, o), (o, ez))]), 'lemma')
        st.g['entries'] = st.g.get('entries', ()) + (ez,)
        for q in st.g.get('coords', ())[-8:]: self.link(st, q, ez)
    def link(self, st, q, ez):
        a = (P(ez) * self.order).z()
        st.assume(z3.Implies(z3.And(ez >= 0, a <= q, q < a + self.order.z()), self.ENT(q) == ez), 'lemma')
    def touch_q(self, st, q):
        q = P(q); k = ('outcoord', q.key())
        if k in st.touched: return
        st.touched = st.touched | {k}
        qz, C, W, mo = q.z(), self.C, self.W, (self.m * self.order).z()
        x = num(z3.Select(self.arrs['c'], qz), self.cfg.lt)
        inn = z3.And(qz >= 0, qz < mo)
        st.assume(z3.And(z3.Implies(inn, z3.And(sz_facts(x), C(qz + 1) == C(qz) + SZ(x) + 1, C(qz + 1) <= C(mo))),
                         z3.Implies(z3.And(qz >= 0, qz <= mo), z3.And(C(qz) >= 0, C(qz) <= (MAXC + 1) * qz, C(qz) <= C(mo)))), 'lemma')
        k = z3.Int('k!out'); at = C(qz) + W(self.ENT(qz))
        sep = z3.IntVal(32) if self.cfg.w else z3.If(qz + 1 == self.end_of(qz), z3.IntVal(10), z3.IntVal(32))
        st.assume(z3.ForAll([k], z3.Implies(z3.And(inn, k >= at, k < at + SZ(x) + 1), self.OUT(k) == z3.If(k < at + SZ(x), TXT(x, k - at), sep)), patterns=[self.OUT(k)]), 'unfold')
        for o in st.g.get('coords', ())[-10:]:
            st.assume(z3.And(*[z3.Implies(z3.And(0 <= x, x <= y, y <= mo), C(x) <= C(y)) for x, y in ((qz, o), (o, qz))], *[z3.Implies(z3.And(0 <= x, x < y, y <= mo), C(x + 1) <= C(y)) for x, y in ((qz, o), (o, qz))]), 'lemma')
        st.g['coords'] = st.g.get('coords', ()) + (qz,)
        for ez in st.g.get('entries', ())[-8:]: self.link(st, qz, ez)
    def end_of(self, qz): return ((P(self.ENT(qz)) + 1) * self.order).z()
    def touch(self, ex, st, o, idx):
        super().touch(ex, st, o, idx)
        if o.id == self.c_id:
            self.touch_q(st, idx); self.touch_q(st, idx + 1)
            self.qs = [q for q in self.qs if not q.same(idx)][-20:] + [idx]
    def cands(self, ctx):
        cs = super().cands(ctx)
        ns = [s for s in num_slots(ctx) if s.init_z is not None]
        for i in ns:
            if not self.index(i.cur): continue
            for q in self.qs:
                if P(i.const).z().get_id() not in {c.get_id() for c in consts(q.z())} or not ctx.allowed(q.z()): continue
                q0 = z3.substitute(q.z(), (i.const, i.init_z)); q0 = P(P(i.init_z) + (q - P(i.const))).z() if (q - P(i.const)).z() is not None and i.const.get_id() not in {c.get_id() for c in consts((q - P(i.const)).z())} else q0
                for v in ns:
                    if v is i or not (isinstance(v.cur, PtrV) or isinstance(v.cur, IntV) and v.cur.bits == 64): continue
                    d = self.C(q.z()) - self.C(q0)
                    cs.append(('%s is as many bytes further as the coordinates to %s take' % (v.name, i.name), v.const - v.init_z == d))
                    cs.append(('%s is as many bytes further as the coordinates to %s take, without the last separator' % (v.name, i.name), v.const - v.init_z == d - z3.If(i.const == self.order.z(), 1, 0)))
        return cs


def numbers(ex):
    for t, b, s in TYPES:
        for n in find(ex, r'unsigned long pigo::write_size<%s, ' % re.escape(t)): ex.contracts[n] = Size(b, s)
        for n in find(ex, r'void pigo::write_ascii<%s, ' % re.escape(t)): ex.contracts[n] = Ascii(b, s)


def verify_write(ex, cfg):
    Omp(ex); B.setup(ex); S.setup(ex); ex.no_oom = True
    ex.models = MODELS + list(ex.models)
    numbers(ex)
    for n in find(ex, r'pigo::File::fp\(\)$'): ex.contracts[n] = Fp()
    st = St()
    o = ex.new_cells(st, 'coo', B.size_of(ex, 't_sz'))
    stos = ('c' if cfg.tensor else 'xy') + ('w' if cfg.w else '')
    ptr = {s: B.one(ex.inline(st.copy(), B.fn(ex, 't_sto_' + s), [PtrV(o.id)]), 'accessor').val.off.c for s in stos}
    mem = {}
    ex.search += 1
    try:
        for g in ('m',) + (('order',) if cfg.tensor else ()):
            r = B.one(ex.inline(st.copy(), B.fn(ex, 't_get_' + g), [PtrV(o.id)]), 'accessor')
            new = [q for q in r.st.mem[o.id] if q not in st.mem[o.id]]
            if len(new) != 1: raise Unsupported('accessor %s does not read one member' % g)
            mem[g] = (new[0], r.val.bits)
    finally: ex.search -= 1
    m = fresh('m'); st.assume(And(cmp('>=', m, 0), lt(m, 1 << min(55, mem['m'][1]))))
    n = fresh('T'); st.g['T'] = n; st.assume(And(cmp('>=', n, 1), lt(n, 1 << 31)))
    cells = {mem['m'][0]: (mem['m'][1] // 8, IntV(mem['m'][1], u=m))}
    arrs = {}
    if cfg.tensor:
        od = fresh('order'); st.assume(And(cmp('>=', od, 1), lt(od, 1 << min(55, mem['order'][1])), lt(m * od, 1 << 54))); ex.mulfacts(st, m, od)
        cells[mem['order'][0]] = (mem['order'][1] // 8, IntV(mem['order'][1], u=od))
    for s in stos:
        es = SIZES[cfg.w if s == 'w' else cfg.lt]
        a = ex.new_arr(st, s, (m * od if s == 'c' else m) * es, es=es, where='heap')
        cells[ptr[s]] = (8, PtrV(a.id, 0)); arrs[s] = a
    st.mem[o.id] = cells
    data = {s: st.mem[a.id] for s, a in arrs.items()}
    G = ex.text_out = TensorOut(ex, cfg, m, data, od) if cfg.tensor else TextOut(ex, cfg, m, data)
    if cfg.tensor: G.c_id = arrs['c'].id
    ex.hooks.append(G)
    ex.omp.parts = G.parts
    ex.omp.specs = [G.output, G.sizes]
    nm = B.strval(ex, st); d, nl = lib.str_get(ex, st, PtrV(nm.id)); G.name = (st.mem[d.obj], nl)
    name = B.fn(ex, 't_write')
    what = 'tensor' if cfg.tensor else 'COO'
    G.touch_e(st, m)
    ex.obs.append(Obligation('vacuity', name, 'the precondition is satisfiable', ex.solver.check(st.path, [], 3000) != z3.unsat))
    mem0 = dict(st.mem)
    st.g['fs'] = (P(z3.Int('old_size')), fresh_arr('old'))
    outs = ex.inline(st, name, [PtrV(o.id), PtrV(nm.id)])
    ex.callstack.append(Frame(ex.mod.funcs[name], ''))
    k = z3.Int('k!any'); full = 0
    for x in outs:
        s = x.st
        if x.kind != 'ret':
            ex.oblige(s, 'post', eq(m, 0) if s.g.get('libfail') else FALSE, 'writing a %s does not throw' % what); continue
        for q, c in mem0.items():
            if q in s.mem and q in (o.id, *[a.id for a in arrs.values()]):
                ex.oblige(s, 'frame', TRUE if s.mem[q] is c else FALSE, 'writing does not change the %s (%s)' % (what, ex.objs[q].name.split('#')[0]))
        if 'file' not in s.g:
            # nothing to map: a file without any byte
            ex.oblige(s, 'post', eq(m, 0), 'a file is written for a %s with entries' % what)
            ex.oblige(s, 'post', eq(s.g['fs'][0], 0), 'the file of a %s without entries is empty' % what)
            ex.oblige(s, 'post', TRUE if not s.g.get('open') else FALSE, 'no file handle is left open')
            continue
        full += 1
        f, mp = s.g['file']
        ex.oblige(s, 'post', TRUE if f in s.dead else FALSE, 'the file is closed')
        ex.oblige(s, 'post', eq(ex.objs[mp].size, G.S(m.z())), 'the file has exactly the size of the text')
        y = s.copy()
        ex.oblige(y, 'post', z3.Implies(z3.And(k >= 0, k < G.S(m.z())), z3.Select(s.mem[mp], k) == G.OUT(k)), 'the file holds exactly the entries, in order')
    ex.callstack.pop()
    if not full: ex.obs.append(Obligation('vacuity', name, 'some path writes a file', False))
    return ex.obs
