"""C04-C08: loading an edge list from text with several threads.

One entry is specified as a step of a function of (position, end): where the next entry starts (NX), how many entries are
stored (DK) and what they hold (XV, YV).  Both passes are proved to be that step; the loops, the prefix sum and the
parallel region are then verified over the step's contract only."""
import re, z3
from .term import *
from .core import *
from .exec import *
from .omp import *
from . import lib
from .text import *
from .contracts import *
from .bin import fn, size_of, one

I = z3.IntSort()


class Cfg:
    def __init__(self, sym=0, ut=0, sl=0, w='', L=32):
        self.sym, self.ut, self.sl, self.w, self.L = sym, ut, sl, w, L
    def defs(self):
        d = ['SYM=%d' % self.sym, 'UT=%d' % self.ut, 'SL=%d' % self.sl, 'WGT=%d' % bool(self.w), 'LT=uint%d_t' % self.L]
        if self.w: d.append('WT=' + self.w)
        return d
    def name(self): return ('+'.join([n for n in ('sym', 'ut', 'sl') if getattr(self, n)]) or 'plain') + (' ' + self.w if self.w else '') + ('' if self.L == 32 else ' u%d' % self.L)


CFGS = [Cfg(), Cfg(sym=1), Cfg(ut=1), Cfg(sl=1), Cfg(sym=1, ut=1), Cfg(sym=1, sl=1), Cfg(ut=1, sl=1), Cfg(sym=1, ut=1, sl=1),
        Cfg(w='float'), Cfg(w='int32_t', sym=1), Cfg(w='uint32_t', sym=1, ut=1, sl=1), Cfg(w='double', sl=1, L=64), Cfg(w='float', ut=1)]


def mnE(a, e): return pmin(a, e)
def step(T, cfg, p, e):
    """the documented meaning of one entry that starts with a digit at p, in a text that ends at e"""
    M = 1 << cfg.L
    s = mn(T.f('DG', p), e)
    p1 = mn(T.f('ND', s), e)
    p2 = mn(T.f('FI', T.f('ND', p1)), e)
    s2 = mn(T.f('DG', p2), e)
    p3 = mn(T.f('ND', s2), e)
    p4 = mn(T.f('EOL', p3), e)
    p5 = mn(T.f('FI', T.f('ND', p4)), e)
    x = P(T.DV(z3.IntVal(0), s.z(), p1.z()) % M); y = P(T.DV(z3.IntVal(0), s2.z(), p3.z()) % M)
    none = cmp('>=', p2, e)
    dk = P(1)
    if cfg.sym and not cfg.ut: dk = ite(eq(x, y), 1, 2)
    if cfg.ut and not cfg.sym: dk = ite(lt(y, x), 0, dk)
    if cfg.sl: dk = ite(eq(x, y), 0, dk)
    a, b = (pmin(x, y), pmax(x, y)) if cfg.sym and cfg.ut else (x, y)
    return dict(nx=ite(none, p2, p5), dk=ite(none, 0, dk), xs=(a, b), ys=(b, a), p2=p2, p3=p3, p4=p4, none=none)


def wval(T, cfg, S):
    """the weight of an entry: the number after the second label, looked for on its line only; 0 if there is none"""
    p3, p4 = S['p3'], S['p4']
    if cfg.w in ('float', 'double'): return P(T.RV[cfg.w](mn(T.f('FP', p3), p4).z(), p4.z()))
    M = 1 << (8 * WSZ[cfg.w])
    if cfg.w[0] == 'u': q = mn(T.f('FI', T.f('ND', p3)), p4); neg = FALSE
    else:
        q = mn(T.f('SI', T.f('ND', signed_start(T, p3, p4))), p4)
        neg = And(lt(q, p4), T.B(q.z()) == 45)
    s = mn(T.f('DG', q), p4)
    v = P(T.DV(z3.IntVal(0), s.z(), mn(T.f('ND', s), p4).z()) % M)
    return ite(neg, P((0 - v).z() % M), v)


class Coo:
    """a COO object whose storage pointers are where the accessors say"""
    def __init__(self, ex, st):
        self.o = ex.new_cells(st, 'coo', size_of(ex, 'coo_sz'))
        self.ptr = {}
        for s in 'xyw':
            self.ptr[s] = one(ex.inline(st.copy(), fn(ex, 'coo_sto_' + s), [PtrV(self.o.id)]), 'accessor').val.off.c
        self.get = {}
        ex.search += 1
        try:
            for g in ('n', 'nrows', 'ncols', 'm'):
                r = one(ex.inline(st.copy(), fn(ex, 'coo_get_' + g), [PtrV(self.o.id)]), 'accessor')
                new = [q for q in r.st.mem[self.o.id] if q not in st.mem[self.o.id]]
                if len(new) != 1: raise Unsupported('accessor %s does not read one member' % g)
                self.get[g] = (new[0], r.val.bits)
        finally: ex.search -= 1


F_COO = ['EOL', 'SC', 'FI', 'ND', 'DG', 'SI', 'NF', 'FP']
def scan_contracts(ex, skip=()):
    for k, c in SCAN.items():
        if k in skip: continue
        for n in find(ex, c.rx):
            if n in ex.mod.funcs: ex.contracts[n] = c
SMALL = ('good', 'size', 'peek', 'at_nl_or_eol', 'at_zero')


def entry_fn(ex, count):
    c = [n for n in find(ex, r'void pigo::COO<.*>::read_coord_entry_<%s>\(unsigned long&, pigo::FileReader&, ' % ('true' if count else 'false')) if n in ex.mod.funcs]
    if len(c) != 1: raise Unsupported('read_coord_entry_ not found')
    return c[0]


def base(ex, cfg, F=None):
    ex.no_oom = True
    lib.install(ex)
    F = F or [f for f in F_COO if cfg.w or f not in ('SI', 'NF', 'FP')]
    st, T = text_state(ex, F)
    ex.lay = fr_layout(ex)
    scan_contracts(ex, SMALL)
    st.assume(lt(T.E, 1 << 56))
    return st, T


WSZ = {'': 0, 'float': 4, 'double': 8, 'int': 4, 'int32_t': 4, 'uint32_t': 4, 'int64_t': 8, 'uint64_t': 8, 'int16_t': 2, 'uint8_t': 1}
def verify_entry(ex, cfg, count):
    st, T = base(ex, cfg)
    C = Coo(ex, st)
    p, e, c, cap = (P(z3.Int(x)) for x in ('p', 'e', 'c', 'cap'))
    st.assume(And(cmp('>=', p, 0), lt(p, e), le(e, T.E), cmp('>=', c, 0), le(c, 1 << 56), cmp('>=', cap, 0), le(cap, 1 << 57)))
    T.touch_at(st, p); T.touch_at(st, e)
    st.assume(c_digit(T.B(p.z())))
    T.st = ex.cur_st = st
    S = step(T, cfg, p, e)
    for k in ('p2', 'p3', 'p4', 'nx'): T.touch_at(st, S[k])
    arrs = {}
    Lb = cfg.L // 8
    if not count:
        st.assume(le(c + S['dk'], cap))
        for s, es in (('x', Lb), ('y', Lb)) + ((('w', WSZ[cfg.w]),) if cfg.w else ()):
            a = ex.new_arr(st, s, cap * es, es=es, where='heap', elem='float' if s == 'w' and cfg.w in ('float', 'double') else 'int')
            st.mem[C.o.id] = {**st.mem[C.o.id], C.ptr[s]: (8, PtrV(a.id, 0))}
            arrs[s] = a
    r = reader(ex, st, p, e)
    def var(nm, bits, v=None):
        o = ex.new_cells(st, nm, bits // 8); v = v if v is not None else ex.fresh_int(st, bits, nm); st.mem[o.id] = {0: (bits // 8, v)}; return o, v
    co, cv = var('coord_pos', 64, IntV(64, u=c))
    mr, mrv = var('max_row', cfg.L); mc, mcv = var('max_col', cfg.L)
    name = entry_fn(ex, count)
    what = 'count' if count else 'fill'
    ex.obs.append(Obligation('vacuity', name, 'the precondition is satisfiable', ex.solver.check(st.path, [], 3000) != z3.unsat))
    if cfg.w: wval(T, cfg, S)          # touches the positions
    mem0 = dict(st.mem)
    def hook(s, o, off, sz, rw, what):
        if rw == 'w' and o.id in ids: s.g['wr'] = s.g.get('wr', ()) + ((o.id, off.key()),); offs[off.key()] = off
    ids = {a.id: s for s, a in arrs.items()}; offs = {}
    ex.access_hook = hook
    st.g['wr'] = ()
    ex.merge_at = 99
    outs = ex.inline(st, name, [PtrV(C.o.id), PtrV(co.id), PtrV(r.id), PtrV(mr.id), PtrV(mc.id)])
    ex.access_hook = None
    ex.callstack.append(Frame(ex.mod.funcs[name], ''))
    k = z3.Int('k!any')
    for o in outs:
        s = o.st
        if o.kind != 'ret': ex.oblige(s, 'post', FALSE, '%s: does not throw' % what); continue
        dv, ev = s.mem[r.id][ex.lay.d][1], s.mem[r.id][ex.lay.end][1]
        if not (T.is_text(dv) and T.is_text(ev)): ex.oblige(s, 'post', FALSE, '%s: the reader stays in its text' % what); continue
        T.touch_at(s, dv.off)
        ex.oblige(s, 'post', eq(ev.off, e), what + ': the end of the reader is unchanged')
        ex.oblige(s, 'post', eq(dv.off, S['nx']), what + ': the reader moves to the next entry')
        n = s.mem[co.id][0][1]
        ex.oblige(s, 'post', eq(ex.U(s, n), c + S['dk']), what + ': the position advances by the entries stored for this line')
        ex.oblige(s, 'post', And(lt(p, S['nx']), le(S['nx'], e)), what + ': the step makes progress and stays in its part')
        ex.oblige(s, 'post', Imp(lt(S['nx'], e), c_digit(T.B(S['nx'].z()))), what + ': the next entry starts with a digit')
        ex.oblige(s, 'post', And(cmp('>=', S['dk'], 0), le(S['dk'], S['nx'] - p)), what + ': a line stores at most as many entries as it has bytes')
        for q, cc in mem0.items():
            if q in (r.id, co.id) or q in ids or not count and q in (mr.id, mc.id): continue
            now = s.mem.get(q)
            if q not in s.mem: continue
            okk = now is cc or isinstance(cc, dict) and all(kk in now and same_cell(now[kk][1], cc[kk][1]) for kk in cc)
            ex.oblige(s, 'frame', TRUE if okk else FALSE, what + ': nothing else is written (%s)' % ex.objs[q].name.split('#')[0])
        if count: continue
        for q, nm in ids.items():
            es = ex.objs[q].es
            ws = [offs[kk] for oid, kk in s.g['wr'] if oid == q]
            ex.oblige(s, 'post', eq(S['dk'], len(ws)), 'fill: %s is written once per entry stored' % nm)
            for i, a in enumerate(ws):
                ex.oblige(s, 'post', And(le(c * es, a), lt(a, (c + S['dk']) * es)), 'fill: %s is written only where this line\'s entries go' % nm)
                for b in ws[i + 1:]: ex.oblige(s, 'post', cmp('!=', a, b), 'fill: no element of %s is written twice' % nm)
            A1 = s.mem[q]
            s1 = s.copy()
            if nm != 'w':
                for j in (0, 1):
                    ex.oblige(s1, 'post', Imp(lt(P(j), S['dk']), z3.Select(A1, (c + j).z()) == S['xs' if nm == 'x' else 'ys'][j].z()), 'fill: %s of entry %d of the line is the documented one' % (nm, j))
            else:
                ex.oblige(s1, 'post', Imp(lt(P(0), S['dk']), z3.Select(A1, c.z()) == wval(T, cfg, S).z()), 'fill: the weight stored is the one on the line')
                ex.oblige(s1, 'post', Imp(eq(S['dk'], 2), z3.Select(A1, (c + 1).z()) == z3.Select(A1, c.z())), 'fill: the mirrored entry carries the same weight')
            ex.oblige(s1, 'frame', z3.Implies(z3.Or(k < c.z(), k >= (c + S['dk']).z()), z3.Select(A1, k) == z3.Select(mem0[q], k)), 'fill: no other element of %s is touched' % nm)
        for nm, cell, v0, w in (('row', mr, mrv, 'xs'), ('column', mc, mcv, 'ys')):
            v1 = ex.U(s, s.mem[cell.id][0][1])
            ex.oblige(s, 'post', eq(v1, ite(eq(S['dk'], 0), v0.u, pmax(v0.u, S[w][0]))), 'fill: the largest %s label is kept' % nm)
    ex.callstack.pop()
    if not any(o.kind == 'ret' for o in outs): ex.obs.append(Obligation('vacuity', name, 'some path returns', False))
    return ex.obs


def same_cell(a, b):
    from .loops import same
    return a is b or same(a, b)


# ---------------------------------------------------------------- the loops and the parallel region over the step's contract
class Ghost:
    """the step as abstract functions, the entries left in a part (CNT), and prefix sums of what each thread counted"""
    def __init__(self, ex, T, cfg, C):
        self.ex, self.T, self.cfg, self.C = ex, T, cfg, C
        self.NX, self.DK, self.CNT = (z3.Function(n, I, I, I) for n in ('NX', 'DK', 'CNT'))
        self.XV, self.YV, self.MR, self.MC = (z3.Function(n, I, I, I, I) for n in ('XV', 'YV', 'MR', 'MC'))
        self.sums = {}          # array object -> (GA, SUM, number of threads)
        self.written = None
        self.content = None
    # -- facts
    def step_facts(self, p, e):
        E = self.T.E.z(); B = self.T.B
        nx, dk = self.NX(p, e), self.DK(p, e)
        rng = z3.And(p >= 0, e <= E); dig = lambda q: c_digit(B(q))
        return [z3.Implies(z3.And(rng, p < e, dig(p)), z3.And(p < nx, nx <= e, z3.Implies(nx < e, dig(nx)), dk >= 0, dk <= nx - p, dk <= 2)),]
    def cnt_facts(self, p, e):
        E = self.T.E.z(); B = self.T.B
        nx, dk, c = self.NX(p, e), self.DK(p, e), self.CNT
        ok = z3.And(p >= 0, e <= E); dig = lambda q: c_digit(B(q))
        return [z3.Implies(p >= e, c(p, e) == 0), z3.Implies(z3.And(ok, p < e, dig(p)), z3.And(c(p, e) == dk + c(nx, e), c(nx, e) >= 0, c(nx, e) <= e - nx)),
                z3.Implies(z3.And(ok, p <= e, z3.Or(p == e, dig(p))), z3.And(c(p, e) >= 0, c(p, e) <= e - p))]
    def touch2(self, st, p, e):
        p, e = P(p), P(e)
        k = ('entry', p.key(), e.key())
        if k in st.touched: return
        st.touched = st.touched | {k}
        for f in self.step_facts(p.z(), e.z()) + self.cnt_facts(p.z(), e.z()): st.assume(f, 'lemma')
        if self.content:
            for f in self.content.facts(p.z(), e.z()): st.assume(f, 'lemma')
            if not e.same(self.T.E): self.touch2(st, p, self.T.E)
    def reader_end(self, st, s):
        if s.kind != 'cell' or s.key[1] != self.ex.lay.d: return None
        c = st.mem.get(s.key[0], {}).get(self.ex.lay.end) if isinstance(st.mem.get(s.key[0]), dict) else None
        return c[1] if c is not None and self.T.is_text(c[1]) else None
    # -- hooks
    def touch(self, ex, st, o, idx):
        if o.id in self.sums: self.sum_touch(st, o.id, idx); self.sum_touch(st, o.id, idx + 1)
    def slot_touch(self, ex, st, s):
        e = self.reader_end(st, s)
        if e is not None and self.T.is_text(s.cur): self.touch2(st, s.cur.off, e.off)
    def slot_touch_init(self, ex, st, s):
        e = self.reader_end(st, s)
        if e is not None and self.T.is_text(s.cur) and s.init_z is not None: self.touch2(st, P(s.init_z), e.off)
    def slot_touch_val(self, ex, st, s, v):
        e = self.reader_end(st, s)
        if e is not None and self.T.is_text(v): self.touch2(st, v.off, e.off)
        if isinstance(v, IntV):
            for ob in self.sums: self.sum_touch(st, ob, ex.U(st, v))
    def cands(self, ctx):
        cs = []
        ns = [s for s in num_slots(ctx) if isinstance(s.cur, IntV) and s.init_z is not None]
        for s in ctx.slots:
            if s.kind == 'arr' or s.const is None: continue
            e = self.reader_end(ctx.entry, s)
            if e is None or not self.T.is_text(s.cur) or s.init_z is None: continue
            x, x0, ez = s.const, s.init_z, e.off.z()
            cs.append(('%s within its part' % s.name, x <= ez))
            cs.append(('%s at a digit' % s.name, z3.Implies(x < ez, c_digit(self.T.B(x)))))
            for v in ns:
                if v.cur.bits == 64: cs.append(('%s counts the entries before %s' % (v.name, s.name), v.const + self.CNT(x, ez) == v.init_z + self.CNT(x0, ez)))
        k = z3.Int('k!q')
        for a in ctx.slots:
            if a.kind != 'arr' or a.const is None: continue
            for ob, (GA, SUM, T) in self.sums.items():
                for v in ns:
                    if v.cur.bits != 64: continue
                    if a.key == ob:
                        for d in (0, 1):
                            cs.append(('%s holds the sums before %s (+%d)' % (a.name, v.name, d), z3.ForAll([k], z3.Implies(z3.And(k >= v.init_z, k < v.const), z3.Select(a.const, k) == SUM(k + d)), patterns=[z3.Select(a.const, k)])))
            if self.written is not None and a.key == self.written.id:
                for v in ns:
                    if v.cur.bits == 64: cs.append(('entries from %s0 to %s are written once' % (v.name, v.name), z3.ForAll([k], z3.Select(a.const, k) == z3.Select(a.init_z, k) + z3.If(z3.And(k >= v.init_z, k < v.const), 1, 0), patterns=[z3.Select(a.const, k)])))
        for ob, (GA, SUM, T) in self.sums.items():
            for i in ns:
                if i.cur.bits != 64: continue
                for v in ns:
                    if v is i or v.cur.bits != 64: continue
                    for d in (0, 1): cs.append(('%s is the sum before %s (+%d)' % (v.name, i.name, d), v.const == SUM(i.const + d)))
                cs.append(('%s <= threads' % i.name, i.const <= T.z()))
        return cs
    def ranks(self, ctx):
        rs = []
        for s in ctx.slots:
            if s.kind == 'arr' or s.const is None: continue
            e = self.reader_end(ctx.entry, s)
            if e is not None and self.T.is_text(s.cur): rs.append(('end - ' + s.name, e.off.z() - s.const))
        return rs
    # -- prefix sums
    def sum_touch(self, st, ob, k):
        GA, SUM, T = self.sums[ob]
        k = P(k); key = ('sum', ob, k.key())
        if key in st.touched: return
        pts = st.g.get('sumpts%d' % ob, ())
        st.touched = st.touched | {key}
        kz, E = k.z(), self.T.E
        inn = z3.And(kz >= 0, kz < T.z())
        st.assume(z3.And(SUM(0) == 0, z3.Implies(inn, z3.And(SUM(kz + 1) == SUM(kz) + GA(kz), GA(kz) >= 0, GA(kz) <= E.z(), SUM(kz + 1) <= SUM(T.z()))),
                         z3.Implies(z3.And(kz >= 0, kz <= T.z()), z3.And(SUM(kz) >= 0, SUM(kz) <= SUM(T.z()), SUM(T.z()) <= (E * T).z()))), 'lemma')
        for q in pts[-6:]: st.assume(z3.And(z3.Implies(z3.And(kz >= 0, kz <= q, q <= T.z()), SUM(kz) <= SUM(q)), z3.Implies(z3.And(q >= 0, q <= kz, kz <= T.z()), SUM(q) <= SUM(kz))), 'lemma')
        st.g['sumpts%d' % ob] = pts + (kz,)
        if self.content: self.content.sum_touch(st, ob, k)


class EntryC:
    """contract of read_coord_entry_ (proved by verify_entry): one step"""
    def __init__(self, G, count): self.G, self.count = G, count
    def apply(self, ex, st, args):
        G, T, lay = self.G, self.G.T, ex.lay
        this, co, r, mr, mc = args
        if this.obj != G.C.o.id or not isinstance(r, PtrV): raise Unsupported('entry of another object')
        d, e = st.mem[r.obj][r.off.c + lay.d][1], st.mem[r.obj][r.off.c + lay.end][1]
        if not (T.is_text(d) and T.is_text(e)): raise Unsupported('reader over another buffer')
        p, e = d.off, e.off
        ex.oblige(st, 'pre', And(cmp('>=', p, 0), lt(p, e), le(e, T.E)), 'an entry is read inside the part')
        T.touch_at(st, p)
        ex.oblige(st, 'pre', c_digit(T.B(p.z())), 'an entry is read at a digit')
        G.touch2(st, p, e)
        nx, dk = P(G.NX(p.z(), e.z())), P(G.DK(p.z(), e.z()))
        c = ex.load(st, IntT(64), co, 'entry position')
        if c is None: return []
        c = ex.U(st, c)
        ex.oblige(st, 'pre', le(c, 1 << 56), 'entry counts stay far from overflow')
        if not self.count:
            ex.oblige(st, 'pre', cmp('>=', c, 0), '')
            k = z3.Int('k')
            for s in 'xyw':
                es = WSZ[G.cfg.w] if s == 'w' else G.cfg.L // 8
                if not es: continue
                ptr = ex.load(st, ir.PTR, PtrV(this.obj, G.C.ptr[s]), 'storage of ' + s)
                if ptr is None: return []
                o = ex.access(st, PtrV(ptr.obj, ptr.off + c * es), dk * es, 'w', 'the entries of a line go into ' + s)
                if o is None: return []
                if o.es is None: o.es = es
                if o.es != es: raise Unsupported('element size')
                A = st.mem[o.id]; D = fresh_arr(s)
                i0 = ptr.off.divexact(es) + c
                st.assume(z3.ForAll([k], z3.Implies(z3.Or(k < i0.z(), k >= (i0 + dk).z()), z3.Select(D, k) == z3.Select(A, k)), patterns=[z3.Select(D, k)]))
                for h in ex.hooks:
                    f = getattr(h, 'entry_written', None)
                    if f: f(ex, st, s, D, i0, p, e, dk)
                st.mem[o.id] = D
            if G.written is not None:
                A = st.mem[G.written.id]; D = fresh_arr('wr')
                ex.access(st, PtrV(G.written.id, c), dk, 'w', 'entries written')
                st.assume(z3.ForAll([k], z3.Select(D, k) == z3.Select(A, k) + z3.If(z3.And(k >= c.z(), k < (c + dk).z()), 1, 0), patterns=[z3.Select(D, k)]))
                st.mem[G.written.id] = D
            for q, f in ((mr, G.MR), (mc, G.MC)):
                v = ex.load(st, IntT(G.cfg.L), q, 'largest label')
                if v is None: return []
                nv = fresh('mx')
                st.assume(z3.And(nv.z() >= ex.U(st, v).z(), nv.z() < (1 << G.cfg.L)))
                for h in ex.hooks:
                    g = getattr(h, 'entry_max', None)
                    if g: g(ex, st, 'r' if q is mr else 'c', ex.U(st, v), nv, p, e, dk)
                ex.store(st, IntT(G.cfg.L), q, IntV(G.cfg.L, u=nv), 'largest label')
        ex.store(st, IntT(64), co, IntV(64, u=c + dk), 'entry position')
        m = dict(st.mem[r.obj]); m[r.off.c + lay.d] = (8, PtrV(d.obj, nx)); st.mem[r.obj] = m
        T.touch_at(st, nx)
        return [Out('ret', st)]


def own_value(G):
    """an array each thread writes at its own number only"""
    def spec(R, good, ob, accs):
        ex = R.ex; X = ex.objs[ob]
        es = X.es
        if not es or ob == (G.written.id if G.written else None): return False
        nm = X.name.split('#')[0]
        tz = R.tau
        vals = []
        for o, m0 in good:
            t = o.st.mem[ob]
            if not z3.is_store(t) or not t.arg(0).eq(m0[ob]): return False
            if not ex.prove(o.st, t.arg(1) == tz.z()): return False
            vals.append(t.arg(2))
        for a in accs: R.prove_at(a.node, [], And(eq(a.off, tz * es), eq(a.sz, es)), '%s: a thread uses only its own element: %s' % (nm, a.what))
        GA, SUM = z3.Function('G%d' % ob, I, I), z3.Function('SUM%d' % ob, I, I)
        E = G.T.E
        if not all(ex.prove(o.st, z3.And(v >= 0, v <= E.z())) for (o, m0), v in zip(good, vals)): raise Unsupported('values of %s are not bounded by the text' % nm)
        A = fresh_arr('all'); k = z3.Int('k')
        A0 = m_first(good, ob)
        for (o, m0), v in zip(good, vals):
            o.st.assume(GA(tz.z()) == v)          # what this thread stored, by name
            o.st.assume(z3.ForAll([k], z3.Select(A, k) == z3.If(z3.And(k >= 0, k < R.T.z()), GA(k), z3.Select(A0, k)), patterns=[z3.Select(A, k)]))
            o.st.mem[ob] = A
            G.sums[ob] = (GA, SUM, R.T)
            ex.prodfacts_for(o.st, E, R.T)
        if G.content: G.content.counted(R, good, vals, ob)
        for (o, m0), v in zip(good, vals):
            for q in (R.T, tz, tz + 1): G.sum_touch(o.st, ob, q)
        ex.obs.append(Obligation('race', R.fn, '%s: every thread stores its own count' % nm, True))
        return True
    return spec


def m_first(good, ob):
    for o, m0 in good:
        if ob in m0: return m0[ob]


def own_range(G):
    """arrays each thread writes only in the range its predecessors' counts give it"""
    def spec(R, good, ob, accs):
        ex = R.ex; X = ex.objs[ob]
        if not G.sums: return False
        nm = X.name.split('#')[0]; es = X.es or 1
        GA, SUM, T = list(G.sums.values())[-1]
        lo, hi = P(SUM(R.tau.z())), P(SUM((R.tau + 1).z()))
        k = z3.Int('k')
        for a in accs: R.prove_at(a.node, [], Or(eq(a.sz, 0), And(le(lo * es, a.off), le(a.off + a.sz, hi * es))), '%s: a thread stays in the range reserved for it: %s' % (nm, a.what))
        A0 = m_first(good, ob)
        A = fresh_arr('joined')
        kk = z3.Int('k!any')
        tot = SUM(T.z())
        wr = G.written is not None and ob == G.written.id
        for o, m0 in good:
            s = o.st.copy()
            A1 = s.mem[ob]
            ex.oblige(s, 'race', z3.Implies(z3.Or(kk < lo.z(), kk >= hi.z()), z3.Select(A1, kk) == z3.Select(m0[ob], kk)), '%s: outside its range a thread changes nothing' % nm)
            if wr: ex.oblige(s, 'post', z3.Implies(z3.And(kk >= lo.z(), kk < hi.z()), z3.Select(A1, kk) == z3.Select(m0[ob], kk) + 1), 'every entry of a thread\'s range is written exactly once by it')
        for o, m0 in good:
            o.st.assume(z3.ForAll([k], z3.Implies(z3.Or(k < 0, k >= tot), z3.Select(A, k) == z3.Select(m0[ob], k)), patterns=[z3.Select(A, k)]))
            if wr: o.st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < tot), z3.Select(A, k) == z3.Select(m0[ob], k) + 1), patterns=[z3.Select(A, k)]))
            for h in ex.hooks:
                f = getattr(h, 'joined', None)
                if f: f(R, o, m0, ob, A, lo, hi, tot)
            o.st.mem[ob] = A
        return True
    return spec


def verify_el(ex, cfg, content=False):
    """read_el_: any text, any number of threads"""
    st, T = base(ex, cfg, ['EOL', 'FI', 'ND'])
    C = Coo(ex, st)
    Omp(ex)
    G = Ghost(ex, T, cfg, C)
    ex.hooks.append(G)
    ex.contracts[entry_fn(ex, True)] = EntryC(G, True)
    ex.contracts[entry_fn(ex, False)] = EntryC(G, False)
    n = fresh('T'); st.g['T'] = n
    st.assume(And(cmp('>=', n, 1), lt(n, 1 << 31), lt(T.E * n, 1 << 56)))
    ex.mulfacts(st, T.E, n)
    def prodfacts_for(s, a, b): ex.mulfacts(s, a, b)
    ex.prodfacts_for = prodfacts_for
    ex.assumed.add('the text has fewer than 2^56 bytes divided by the number of threads')
    G.written = ex.new_arr(st, 'entries written', P(1 << 62), es=1, content=z3.K(I, z3.IntVal(0)), where='heap')
    ex.omp.specs = [own_value(G), own_range(G)]
    left = P(z3.Int('left')); d0 = T.E - left; st.assume(And(cmp('>=', left, 0), cmp('>=', d0, 0)))
    ex.mulfacts(st, left, n)
    K = None
    if content:
        K = G.content = Content(G, d0, n)
        ex.hooks.append(K); ex.omp.redspecs.append(K.reduced)
        st.assume(K.ONC(K.P0))
        K.sf_touch(st, P(0))
    r = reader(ex, st, d0, T.E)
    T.touch_at(st, d0)
    name = fn(ex, 'coo_el')
    ex.obs.append(Obligation('vacuity', name, 'the precondition is satisfiable', ex.solver.check(st.path, [], 3000) != z3.unsat))
    outs = ex.inline(st, name, [PtrV(C.o.id), PtrV(r.id)])
    ex.callstack.append(Frame(ex.mod.funcs[name], ''))
    kk = z3.Int('k!any')
    for o in outs:
        s = o.st
        if o.kind != 'ret': ex.oblige(s, 'post', FALSE, 'loading an edge list does not throw'); continue
        m = ex.U(s, s.mem[C.o.id][C.get['m'][0]][1])
        for q in 'xyw':
            es = WSZ[cfg.w] if q == 'w' else cfg.L // 8
            if not es: continue
            ptr = s.mem[C.o.id][C.ptr[q]][1]
            ok = isinstance(ptr, PtrV) and ptr.obj is not None and ptr.obj not in s.dead
            ex.oblige(s, 'post', TRUE if ok else FALSE, 'storage for %s is allocated' % q)
            if ok: ex.oblige(s, 'post', And(eq(ptr.off, 0), eq(ex.objs[ptr.obj].size, m * es)), 'storage for %s has room for exactly m entries' % q)
        ex.oblige(s.copy(), 'post', z3.Implies(z3.And(kk >= 0, kk < m.z()), z3.Select(s.mem[G.written.id], kk) == 1), 'every allocated entry is written exactly once')
        if not content: continue
        ex.oblige(s.copy(), 'post', m.z() == K.CE(K.P0), 'as many entries are stored as the options keep of the file\'s lines')
        for q in K.seqs():
            ptr = s.mem[C.o.id][C.ptr[q]][1]
            if not isinstance(ptr, PtrV) or ptr.obj is None: continue
            ex.oblige(s.copy(), 'post', z3.Implies(z3.And(kk >= 0, kk < m.z()), z3.Select(s.mem[ptr.obj], kk) == K.SEQ[q](kk)), '%s holds exactly the file\'s entries as the options have them, in order' % q)
        g = {q: ex.U(s, s.mem[C.o.id][C.get[q][0]][1]) for q in ('n', 'nrows', 'ncols')}
        M = 1 << cfg.L
        for q, nm in (('nrows', 'r'), ('ncols', 'c')):
            mx = K.ML[nm](K.P0, K.E)
            ex.oblige(s.copy(), 'post', z3.Implies(mx + 1 < M, g[q].z() == mx + 1), '%s is one more than the largest label' % q)
        ex.oblige(s.copy(), 'post', eq(g['n'], pmax(g['nrows'], g['ncols'])), 'n is the larger of nrows and ncols')
    ex.callstack.pop()
    if not any(o.kind == 'ret' for o in outs): ex.obs.append(Obligation('vacuity', name, 'some path returns', False))
    return ex.obs


# ---------------------------------------------------------------- which entries, in which order (C04, C06, C07)
class Content:
    """For well-formed files: the entries of the file are those at the positions of one chain (ONC) from the first digit, each
    the first digit after the line of the one before; a thread's part ends where an entry begins (LS).  So what a thread sees of
    an entry does not depend on the thread.  XS, YS, WS: the sequence the options make of them.  The facts used here are proved
    from step() by chain.py."""
    def __init__(self, G, d0, T):
        self.G, self.T, self.ex = G, G.T, G.ex
        Bo = z3.BoolSort()
        self.ONC, self.LS = z3.Function('ONC', I, Bo), z3.Function('LS', I, Bo)
        self.SF = z3.Function('SF', I, I)
        self.d0, self.n = d0, T
        self.V = {'x': G.XV, 'y': G.YV}
        self.MX = {'r': G.XV, 'c': G.YV}
        self.ML = {'r': z3.Function('MRL', I, I, I), 'c': z3.Function('MCL', I, I, I)}
        self.SEQ = {q: z3.Function(q.upper() + 'S', I, I) for q in 'xyw'}
        self.WV = z3.Function('WV', I, I, I)
        self.P0 = self.SF(0)
        self.E = self.T.E.z()
        self.ok = False
    def val(self, q, p, e, j): return self.WV(p, e) if q == 'w' else self.V[q](p, e, j)
    def CE(self, p): return self.G.CNT(p, self.E)
    def seqs(self): return 'xyw' if self.G.cfg.w else 'xy'
    def facts(self, p, e):
        G, E, ONC, LS = self.G, self.E, self.ONC, self.LS
        nx, dk = G.NX(p, e), G.DK(p, e)
        fs = []
        on = z3.And(ONC(p), p >= 0)
        for q in 'rc':
            m = self.ML[q]
            fs += [z3.Implies(p >= e, m(p, e) == 0), m(p, e) >= 0, z3.Implies(z3.And(p >= 0, p < e, e <= E, c_digit(self.T.B(p))), m(p, e) == z3.If(z3.Or(dk == 0, self.MX[q](p, e, 0) <= m(nx, e)), m(nx, e), self.MX[q](p, e, 0))), m(nx, e) >= 0]
        if e.eq(E):
            fs.append(z3.Implies(z3.And(on, p < E), ONC(nx)))
            at = self.CE(self.P0) - self.CE(p)
            for q in self.seqs():
                for j in (0, 1): fs.append(z3.Implies(z3.And(on, p < E, j < dk), self.SEQ[q](at + j) == self.val(q, p, E, j)))
        else:
            same = z3.And(on, p < e, LS(e), e <= E)
            vs = [nx == G.NX(p, E), dk == G.DK(p, E), G.NX(p, E) <= e] + [self.val(q, p, e, j) == self.val(q, p, E, j) for q in self.seqs() for j in (0, 1)]
            fs.append(z3.Implies(same, z3.And(*vs)))
            fs.append(z3.Implies(z3.And(on, p <= e, LS(e), e <= E), z3.And(self.CE(p) == G.CNT(p, e) + self.CE(e), *[self.ML[q](p, E) == z3.If(self.ML[q](p, e) <= self.ML[q](e, E), self.ML[q](e, E), self.ML[q](p, e)) for q in 'rc'])))
        return fs
    def sf_touch(self, st, t):
        """where the part of thread t begins"""
        T, ex = self.T, self.ex
        t = P(t); k = ('SF', t.key())
        if k in st.touched: return
        st.touched = st.touched | {k}
        size = T.E - self.d0
        tz = t.z()
        q = self.d0 + (ex.divfacts(st, t * size, self.n) if not t.isconst() or t.c else P(0))
        for x in (q, P(T.F['EOL'](q.z()))): T.touch_at(st, x)
        ex.mulfacts(st, t, size); ex.mulfacts(st, self.n, size)
        st.assume(z3.Implies(z3.And(tz >= 0, tz <= self.n.z()), (q - self.d0).z() <= size.z()), 'lemma')
        el = T.F['EOL'](q.z())
        T.touch_at(st, P(T.F['FI'](el)))
        s = self.SF(tz)
        st.assume(z3.And(self.P0 == T.F['FI'](self.d0.z()), z3.Implies(z3.And(tz >= 1, tz <= self.n.z()), z3.And(s == T.F['FI'](el), self.LS(s), self.ONC(s))), self.ONC(self.P0), z3.Implies(tz == self.n.z(), s == self.E)), 'lemma')
        T.touch_at(st, P(s)); T.touch_at(st, P(self.P0))
        self.G.touch2(st, P(s), T.E); self.G.touch2(st, P(self.P0), T.E)
    # -- hooks called by Ghost and the specifications of shared arrays
    def counted(self, R, good, vals, ob):
        ex = self.ex
        tz = R.tau
        for (o, m0), v in zip(good, vals):
            s = o.st
            self.sf_touch(s, tz); self.sf_touch(s, tz + 1)
            self.G.touch2(s, P(self.SF(tz.z())), P(self.SF((tz + 1).z())))
            ex.oblige(s.copy(), 'post', v == self.CE(self.SF(tz.z())) - self.CE(self.SF((tz + 1).z())), 'a thread counts exactly the entries of its own lines')
        self.ok = True
    def sum_touch(self, st, ob, k):
        if not self.ok: return
        GA, SUM, T = self.G.sums[ob]
        self.sf_touch(st, k)
        kz = P(k).z()
        st.assume(z3.Implies(z3.And(kz >= 0, kz <= T.z()), SUM(kz) == self.CE(self.P0) - self.CE(self.SF(kz))), 'lemma')
    def storage(self, st, ob):
        """which of x, y, w this object is the storage of"""
        m = st.mem.get(self.G.C.o.id)
        for q in self.seqs():
            v = m.get(self.G.C.ptr[q]) if isinstance(m, dict) else None
            if v is not None and isinstance(v[1], PtrV) and v[1].obj == ob and v[1].off.isconst() and v[1].off.c == 0: return q
    def cands(self, ctx):
        cs = []
        G = self.G
        k = z3.Int('k!q')
        ns = [s for s in num_slots(ctx) if isinstance(s.cur, IntV) and s.init_z is not None]
        for s in ctx.slots:
            if s.kind == 'arr' or s.const is None: continue
            e = G.reader_end(ctx.entry, s)
            if e is None or not self.T.is_text(s.cur) or s.init_z is None: continue
            cs.append(('%s at an entry of the file' % s.name, self.ONC(s.const)))
            ez = e.off.z()
            for v in ns:
                if v.cur.bits == 64: cs.append(('%s is the place of the entry at %s' % (v.name, s.name), v.const == self.CE(self.P0) - self.CE(s.const)))
                if v.cur.bits != G.cfg.L: continue
                for q in 'rc':
                    m = self.ML[q]; mx = lambda a, b: z3.If(a <= b, b, a)
                    cs.append(('%s with what %s has yet to see is the largest (%s)' % (v.name, s.name, q), mx(v.const, m(s.const, ez)) == mx(v.init_z, m(s.init_z, ez))))
        for a in ctx.slots:
            if a.kind != 'arr' or a.const is None: continue
            q = self.storage(ctx.entry, a.key)
            if q is None: continue
            for v in ns:
                if v.cur.bits == 64: cs.append(('entries of %s from %s0 to %s are the documented ones' % (q, v.name, v.name), z3.ForAll([k], z3.Implies(z3.And(k >= v.init_z, k < v.const), z3.Select(a.const, k) == self.SEQ[q](k)), patterns=[z3.Select(a.const, k)])))
        return cs
    # hook interface of the executor
    def touch(self, ex, st, o, idx): pass
    def region_start(self, R, st):
        for t in (R.tau, R.tau + 1): self.sf_touch(st, t)
    def slot_touch(self, ex, st, s): pass
    def slot_touch_init(self, ex, st, s): pass
    def slot_touch_val(self, ex, st, s, v): pass
    def ranks(self, ctx): return []
    def entry_written(self, ex, st, q, D, i0, p, e, dk):
        pz, ez, iz = p.z(), e.z(), i0.z()
        at = self.CE(self.P0) - self.CE(pz)
        for j in (0, 1):
            st.assume(z3.Implies(j < dk.z(), z3.Select(D, (i0 + j).z()) == self.val(q, pz, ez, j)))
        # in terms of the sequence, where the entry goes to its place (dk is at most 2)
        k = z3.Int('k'); c = fresh_bool('placed')
        st.assume(z3.Implies(z3.And(self.ONC(pz), pz >= 0, pz < ez, z3.Or(ez == self.E, self.LS(ez)), iz == at), c), 'lemma')
        st.assume(z3.ForAll([k], z3.Implies(z3.And(c, k >= iz, k < iz + dk.z()), z3.Select(D, k) == self.SEQ[q](k)), patterns=[z3.Select(D, k)]), 'lemma')
    def entry_max(self, ex, st, q, v, nv, p, e, dk):
        x = self.MX[q](p.z(), e.z(), 0)
        st.assume(nv.z() == z3.If(z3.Or(dk.z() == 0, x <= v.z()), v.z(), x))
    def joined(self, R, o, m0, ob, A, lo, hi, tot):
        q = self.storage(o.st, ob)
        if q is None: return
        kk, k = z3.Int('k!any'), z3.Int('k')
        s = o.st.copy()
        self.ex.oblige(s, 'post', z3.Implies(z3.And(kk >= lo.z(), kk < hi.z()), z3.Select(s.mem[ob], kk) == self.SEQ[q](kk)), 'a thread stores in %s exactly the entries of its own lines, in file order' % q)
        o.st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < tot), z3.Select(A, k) == self.SEQ[q](k)), patterns=[z3.Select(A, k)]))
    def reduced(self, R, good, ob, init, F, privs):
        """a maximum over the threads of what each saw is the maximum over the file"""
        ex = self.ex
        tz = R.tau.z()
        for q in 'rc':
            if all(ex.prove(o.st, p.z() == self.ML[q](self.SF(tz), self.SF(tz + 1))) for (o, m0), p in zip(good, privs)):
                for o, m0 in good:
                    i = ex.U(o.st, init).z()
                    m = self.ML[q](self.P0, self.E)
                    o.st.assume(F.z() == z3.If(i <= m, m, i))


def verify_content(ex, cfg):
    """read_el_ on a well-formed file: exactly the file's entries as the options have them, in file order"""
    return verify_el(ex, cfg, True)
