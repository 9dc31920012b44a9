"""Conversions between CSRs and COOs."""
import re, z3
from . import ir
from .term import *
from .core import *
from .exec import *
from .omp import Omp, rows_spec, ForRegion
from .loops import Filled
from . import lib, bin as B, sto as S
from .lib import cell, setcell

SZ = {'uint8_t': 1, 'int8_t': 1, 'uint16_t': 2, 'uint32_t': 4, 'float': 4, 'double': 8, 'uint64_t': 8, 'int64_t': 8}
class Cfg:
    def __init__(self, lt='uint32_t', ot='uint64_t', w=None, sym=False, ut=False, sl=False, clt=None, cot=None): self.lt, self.ot, self.w, self.sym, self.ut, self.sl, self.clt, self.cot = lt, ot, w, sym, ut, sl, clt or lt, cot or ot
    def defs(self):
        d = ['LT=' + self.lt, 'OT=' + self.ot, 'CLT=' + self.clt, 'COT=' + self.cot]
        if self.w: d += ['WG=true', 'WT=' + self.w]
        for k in ('sym', 'ut', 'sl'):
            if getattr(self, k): d.append(k.upper() + '=true')
        return d
    def name(self): return '+'.join([k for k in ('sym', 'ut', 'sl') if getattr(self, k)] or ['plain']) + ' %s %s%s' % (self.lt, self.ot, ' ' + self.w if self.w else '') + (' (csr %s %s)' % (self.clt, self.cot) if (self.clt, self.cot) != (self.lt, self.ot) else '')
def stores(cls, cfg): return {'coo': (('x', cfg.lt), ('y', cfg.lt)), 'csr': (('off', cfg.cot), ('end', cfg.clt))}[cls] + ((('w', cfg.w),) if cfg.w else ())
CFGS = [Cfg(), Cfg(w='float'), Cfg(sym=True), Cfg(sym=True, w='double'), Cfg(sym=True, ut=True, w='int64_t'), Cfg('uint64_t', 'uint64_t', 'int8_t'), Cfg('uint64_t', 'uint32_t', sym=True, ut=True),
        Cfg('uint64_t', 'uint64_t', 'float', sym=True, clt='uint32_t', cot='uint32_t'), Cfg('uint32_t', 'uint32_t', clt='uint16_t', cot='uint64_t')]
REFUSED = [Cfg(ut=True), Cfg(sl=True, w='float'), Cfg(sym=True, sl=True), Cfg(sym=True, ut=True, sl=True), Cfg(ut=True, sl=True)]
GETS = ('n', 'nrows', 'ncols', 'm')


def sel(A, k): return A(k) if callable(A) else z3.Select(A, k)


def make(ex, st, cls, cfg, name):
    """an object with arbitrary dimensions and storage of the documented size -> (object, fields, arrays)"""
    o = ex.new_cells(st, name, B.size_of(ex, cls + '_sz'))
    f, arrs = {}, {}
    ex.search += 1
    try:
        for g in GETS:
            r = B.one(ex.inline(st.copy(), B.fn(ex, '%s_get_%s' % (cls, g)), [PtrV(o.id)]), 'accessor')
            new = [q for q in r.st.mem[o.id] if q not in st.mem[o.id]]
            if len(new) != 1: raise Unsupported('accessor %s does not read one member' % g)
            v = ex.fresh_int(st, r.val.bits, name + '_' + g)
            st.mem[o.id] = {**st.mem[o.id], new[0]: (r.val.bits // 8, v)}; f[g] = v.u
        st.assume(And(lt(f['m'], 1 << 58), lt(f['n'], 1 << 58)))
        for s, t in stores(cls, cfg):
            a = B.one(ex.inline(st.copy(), B.fn(ex, '%s_sto_%s' % (cls, s)), [PtrV(o.id)]), 'accessor').val
            n = f['n'] + 1 if s == 'off' else f['m']
            arr = ex.new_arr(st, '%s_%s' % (name, s), n * SZ[t], es=SZ[t], where='heap')
            arr.props['alloc'] = 'malloc'
            setcell(st, a, 0, PtrV(arr.id, 0))
            arrs[s] = arr
    finally: ex.search -= 1
    return o, f, arrs


def csr_valid(ex, st, cfg, f, arrs):
    """offsets start at 0, never decrease, end at the entry count"""
    A = st.mem[arrs['off'].id]; j, k = z3.Int('j!v'), z3.Int('k!v')
    st.assume(And(z3.Select(A, 0) == 0, eq(P(z3.Select(A, f['n'].z())), f['m'])))
    st.assume(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j <= k, k <= f['n'].z()), z3.And(z3.Select(A, j) <= z3.Select(A, k), z3.Select(A, j) >= 0, z3.Select(A, k) <= f['m'].z())),
                        patterns=[z3.MultiPattern(z3.Select(A, j), z3.Select(A, k))]))
    return A


def verify_coo(ex, cfg):
    """a COO from a CSR"""
    Omp(ex); S.setup(ex); ex.no_oom = True
    fn = B.fn(ex, 'coo_of_csr')
    st = St()
    src, f, arrs = make(ex, st, 'csr', cfg, 'csr')
    OFF = csr_valid(ex, st, cfg, f, arrs)
    END = st.mem[arrs['end'].id]; WT = st.mem[arrs['w'].id] if cfg.w else None
    dbl = cfg.sym and not cfg.ut
    st.assume(lt(f['m'] * (2 if dbl else 1), 1 << (SZ[cfg.ot] * 8)))        # the counts fit the COO's types
    for g in ('n', 'nrows', 'ncols'): st.assume(lt(f[g], 1 << (SZ[cfg.lt] * 8)))
    bad = cfg.sl or cfg.ut and not cfg.sym
    dst = ex.new_cells(st, 'coo', B.size_of(ex, 'coo_sz'))
    e = lambda p: z3.Select(END, p)
    # the documented entry in place k for an entry of row r (position p of the CSR's own arrays)
    mul = 2 if dbl else 1
    def val(s):
        def v(r, k):
            p = k / 2 if dbl else k
            if s == 'w': return z3.Select(WT, p)
            if dbl: a, b = e(p), r            # mirror image first
            elif cfg.sym: return z3.If(r > e(p), e(p), r) if s == 'x' else z3.If(r > e(p), r, e(p))
            else: return r if s == 'x' else e(p)
            return z3.If(k % 2 == 0, a if s == 'x' else b, b if s == 'x' else a)
        return v
    offs = {}
    ex.search += 1
    for s, t in stores('coo', cfg): offs[s] = B.one(ex.inline(st.copy(), B.fn(ex, 'coo_sto_' + s), [PtrV(dst.id)]), 'accessor').val.off
    ex.search -= 1
    addr = lambda s: PtrV(dst.id, offs[s])
    def which(s):
        def w(R, good, ob):
            try: return cell(ex, good[0][0].st, addr(s), 0).obj == ob
            except (Unsupported, AttributeError): return False
        return w
    lo = lambda r: (z3.Select(OFF, P(r).z()) * mul); hi = lambda r: (z3.Select(OFF, (P(r) + 1).z()) * mul)
    ex.omp.specs = [rows_spec(which(s), lo, hi, val(s), s) for s, t in stores('coo', cfg)]
    fl = Filled({})
    ex.hooks.append(fl)
    def iteration(R, s):
        fl.vals = {n: (lambda k, v=val(n): v(R.tau.z(), k)) for n, t in stores('coo', cfg)}
    fl.iteration_start = iteration
    ex.obs.append(Obligation('vacuity', fn, 'the precondition is satisfiable', ex.solver.check(st.path, [], 3000) != z3.unsat))
    smem = {src.id: st.mem[src.id], **{a.id: st.mem[a.id] for a in arrs.values()}}
    T_ = lambda b: TRUE if b else FALSE
    ex.callstack.append(Frame(ex.mod.funcs[fn], ''))
    outs = ex.inline(st, fn, [PtrV(dst.id), PtrV(src.id)])
    ex.obs.append(Obligation('vacuity', fn, 'the conversion ends on some path', bool(outs)))
    big = lambda b: z3.BoolVal(b)
    mx = z3.If(f['nrows'].z() < f['ncols'].z(), f['ncols'].z(), f['nrows'].z())
    dims = {'n': f['n'].z(), 'm': (f['m'] * mul).z(), 'nrows': mx if cfg.sym else f['nrows'].z(), 'ncols': mx if cfg.sym else f['ncols'].z()}
    r, p = z3.Int('r!any'), z3.Int('p!any')
    for o in outs:
        x = o.st
        ex.oblige(x, 'frame', T_(all(x.mem[q] is m or x.mem[q] == m for q, m in smem.items()) and not any(q in x.dead for q in smem)), 'the CSR is not modified')
        if bad:
            ex.oblige(x, 'post', T_(o.kind == 'throw'), 'an unsupported combination of options is refused')
            continue
        if o.kind != 'ret':
            ex.oblige(x, 'post', FALSE, 'the conversion does not throw'); continue
        for g in GETS:
            v = B.one(ex.inline(x.copy(), B.fn(ex, 'coo_get_' + g), [PtrV(dst.id)]), 'accessor').val
            if isinstance(v, UndefV): ex.oblige(x, 'post', FALSE, g + ' is set'); continue
            ex.oblige(x, 'post', Z(ex.U(x, v)) == dims[g], g + ' is the documented one')
        mem = {}
        for s, t in stores('coo', cfg):
            b = cell(ex, x, addr(s), 0)
            if isinstance(b, UndefV) or b.obj is None: ex.oblige(x, 'post', FALSE, s + ' has storage'); continue
            ex.oblige(x, 'post', T_(b.obj not in x.dead and b.obj not in smem), s + ': storage of its own')
            ex.oblige(x, 'post', And(eq(b.off, 0), eq(ex.objs[b.obj].size, f['m'] * mul * SZ[t])), s + ': room for exactly the entries')
            if b.obj in x.dead: continue
            mem[s] = x.mem[b.obj]
        row = z3.And(r >= 0, r < f['n'].z(), p >= z3.Select(OFF, r), p < z3.Select(OFF, r + 1))
        for s in mem:
            A = mem[s]
            if dbl: g = z3.And(sel(A, 2 * p) == z3.substitute(val(s)(r, z3.Int('kk')), (z3.Int('kk'), 2 * p)), sel(A, 2 * p + 1) == z3.substitute(val(s)(r, z3.Int('kk')), (z3.Int('kk'), 2 * p + 1)))
            else: g = sel(A, p) == val(s)(r, p)
            ex.oblige(x.copy(), 'post', z3.Implies(row, g), s + ': the entry of each position of each row is the documented one')
    ex.callstack.pop()
    return ex.obs


def row_rel(OFF, cells):
    """what a row of a sorted CSR is: cells = {name: array before}"""
    def rel(i, arrs, w):
        k, j = z3.Int('k!rel'), z3.Int('j!rel')
        lo, hi = z3.Select(OFF, P(i).z()), z3.Select(OFF, (P(i) + 1).z())
        pi, inv = w
        row = lambda t: z3.And(lo <= t, t < hi)
        fs = []
        for nm, A in arrs.items():
            fs.append(('the entries of a row are those it had', z3.ForAll([k], z3.Implies(row(k), z3.And(row(pi(k)), row(inv(k)), inv(pi(k)) == k, pi(inv(k)) == k, z3.Select(A, k) == z3.Select(cells[nm], pi(k)))), patterns=[z3.Select(A, k)])))
            if nm == 'end': fs.append(('rows are in order', z3.ForAll([j, k], z3.Implies(z3.And(row(j), row(k), j <= k), z3.Select(A, j) <= z3.Select(A, k)), patterns=[z3.MultiPattern(z3.Select(A, j), z3.Select(A, k))])))
        return fs
    return rel


def sort_setup(ex, st, src, cfg, f, arrs, OFF):
    """the specification of the loop that sorts the rows -> the box the joined permutation is found in"""
    from .omp import rows_rel
    lo, hi = (lambda r: z3.Select(OFF, P(r).z())), (lambda r: z3.Select(OFF, (P(r) + 1).z()))
    names = {arrs['end'].id: 'end'}
    if cfg.w: names[arrs['w'].id] = 'w'
    cells = {n: st.mem[i] for i, n in names.items()}
    box = {}
    rel0 = row_rel(OFF, cells)
    def rel(i, a, w):
        if not isinstance(w, tuple):
            F, G = box.setdefault('F', (z3.Function('rowperm!%d' % fresh_id(), z3.IntSort(), z3.IntSort(), z3.IntSort()), z3.Function('rowperm!%d' % fresh_id(), z3.IntSort(), z3.IntSort(), z3.IntSort())))
            w = ((lambda k: F(i, k)), (lambda k: G(i, k)))
        return rel0(i, a, w)
    def witnesses(o, i):
        b = P(lo(i))
        for ob, at, n, pi, inv in reversed(o.st.g.get('sorts', ())): yield ((lambda k: (b + P(z3.Select(pi, (P(k) - b).z()))).z()), (lambda k: (b + P(z3.Select(inv, (P(k) - b).z()))).z()))
        yield ((lambda k: k), (lambda k: k))
    ex.omp.specs.append(rows_rel(lambda R, good, ob: names.get(ob), lo, hi, rel, witnesses, {}, 'rows'))
    return box, rel


def verify_sort(ex, cfg):
    from . import algo
    from .loops import Walk
    Omp(ex); S.setup(ex); algo.setup(ex); ex.no_oom = True
    fn = B.fn(ex, 'csr_sort')
    st = St()
    src, f, arrs = make(ex, st, 'csr', cfg, 'csr')
    OFF = csr_valid(ex, st, cfg, f, arrs)
    box, rel = sort_setup(ex, st, src, cfg, f, arrs, OFF)
    ex.hooks.append(Walk())
    ex.obs.append(Obligation('vacuity', fn, 'the precondition is satisfiable', ex.solver.check(st.path, [], 3000) != z3.unsat))
    before = dict(st.mem[src.id]); E0 = st.mem[arrs['end'].id]
    T_ = lambda b: TRUE if b else FALSE
    ex.callstack.append(Frame(ex.mod.funcs[fn], ''))
    outs = ex.inline(st, fn, [PtrV(src.id)])
    ex.obs.append(Obligation('vacuity', fn, 'sorting ends on some path', any(o.kind == 'ret' for o in outs)))
    r = z3.Int('r!any')
    for o in outs:
        x = o.st
        if o.kind != 'ret': ex.oblige(x, 'post', FALSE, 'sorting does not throw'); continue
        from .loops import same
        m = x.mem[src.id]
        ex.oblige(x, 'frame', T_(all(q in m and same(m[q][1], v[1]) for q, v in before.items()) and not any(a.id in x.dead for a in arrs.values())), 'the CSR keeps its dimensions and storage')
        ex.oblige(x, 'frame', T_(x.mem[arrs['off'].id] is OFF), 'the offsets are not modified')
        for s in ('end', 'w'):
            if s not in arrs: continue
            A = x.mem[arrs[s].id]
            if A is (E0 if s == 'end' else None):
                ex.oblige(x.copy(), 'post', eq(f['n'], 0), 'every row is sorted'); continue
            for d, g in rel(r, {s: A}, None) if 'F' in box else [('sorted', FALSE)]: ex.oblige(x.copy(), 'post', z3.Implies(z3.And(r >= 0, r < f['n'].z()), g), '%s: %s' % (s, d))
    ex.callstack.pop()
    return ex.obs
SCFGS = [Cfg(), Cfg(w='float'), Cfg(w='double'), Cfg('uint64_t', 'uint64_t', 'float'), Cfg('uint16_t', 'uint32_t', 'int64_t'), Cfg('uint64_t', 'uint32_t'), Cfg('uint32_t', 'uint32_t', 'int8_t')]
