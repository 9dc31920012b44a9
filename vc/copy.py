"""C18: copy construction and copy assignment of COOs and tensors."""
import re, z3
from . import ir
from .term import *
from .core import *
from .exec import *
from .omp import Omp, rows_spec, ForRegion
from .loops import Filled
from . import lib, bin as B, sto as S
from .lib import cell, setcell

CLS = {'coo': (('n', 'nrows', 'ncols', 'm'), ('x', 'y', 'w')), 'ten': (('order', 'm'), ('c', 'w'))}
class Cfg:
    def __init__(self, lt='uint32_t', ot='uint64_t', w=None, s='ptr', ws='ptr'): self.lt, self.ot, self.w, self.s, self.ws = lt, ot, w, s, ws
    def defs(self):
        d = ['LT=' + self.lt, 'OT=' + self.ot]
        if self.w: d += ['WG=true', 'WT=' + self.w]
        if self.s != 'ptr': d.append('STO_' + self.s.upper())
        if self.ws != 'ptr': d.append('WSTO_' + self.ws.upper())
        return d
    def name(self): return '%s %s%s, %s' % (self.lt, self.ot, ' ' + self.w if self.w else '', self.s + ('/' + self.ws if self.ws != self.s else ''))
CFGS = [Cfg(), Cfg(w='float'), Cfg('uint64_t', 'uint64_t', 'double', 'vec', 'vec'), Cfg('uint32_t', 'uint64_t', 'int8_t', 'sptr', 'sptr'), Cfg('uint64_t', 'uint32_t', 'float', 'ptr', 'vec'),
        Cfg('uint64_t', 'uint64_t', None, 'vec', 'vec'), Cfg('uint32_t', 'uint64_t', 'double', 'sptr', 'ptr'), Cfg('uint32_t', 'uint32_t', 'int64_t'), Cfg('uint16_t', 'uint32_t', 'uint8_t', 'ptr', 'sptr')]
SZ = {'uint8_t': 1, 'int8_t': 1, 'uint16_t': 2, 'uint32_t': 4, 'float': 4, 'double': 8, 'uint64_t': 8, 'int64_t': 8}


def make(ex, st, cls, cfg, name, heldby=1):
    """an object with arbitrary dimensions and storage of exactly that size -> (object, fields, {storage: (cell address, array, elements)})"""
    gets, stos = CLS[cls]
    o = ex.new_cells(st, name, B.size_of(ex, cls + '_sz'))
    f = {}
    ex.search += 1
    try:
        for g in gets:
            r = B.one(ex.inline(st.copy(), B.fn(ex, '%s_get_%s' % (cls, g)), [PtrV(o.id)]), 'accessor')
            new = [q for q in r.st.mem[o.id] if q not in st.mem[o.id]]
            if len(new) != 1: raise Unsupported('accessor %s does not read one member' % g)
            v = ex.fresh_int(st, r.val.bits, name + '_' + g)
            st.mem[o.id] = {**st.mem[o.id], new[0]: (r.val.bits // 8, v)}; f[g] = v.u
        cnt = f['m']
        if cls == 'ten':
            prod = mul(f['order'], f['m']); st.assume(And(cmp('>=', prod, 0), lt(prod, 1 << 58)))
        st.assume(lt(cnt, 1 << 58))
        arrs = {}
        for s in stos:
            a = B.one(ex.inline(st.copy(), B.fn(ex, '%s_sto_%s' % (cls, s)), [PtrV(o.id)]), 'accessor').val
            kind, es = (cfg.ws, SZ[cfg.w or 'float']) if s == 'w' else (cfg.s, SZ[cfg.lt])
            n = prod if s == 'c' else cnt
            if s == 'w' and not cfg.w:
                if kind != 'ptr':
                    for q in ((0, 8, 16) if kind == 'vec' else (0, 8)): setcell(st, a, q, NULL)
                continue
            arr = ex.new_arr(st, '%s_%s' % (name, s), n * es, es=es, where='heap')
            arr.props['alloc'] = dict(ptr='malloc', vec='vector', sptr='new[]')[kind]
            if kind == 'ptr': setcell(st, a, 0, PtrV(arr.id, 0))
            elif kind == 'vec':
                for q, v in ((0, P(0)), (8, n * es), (16, n * es)): setcell(st, a, q, PtrV(arr.id, v))
            else:
                S.sptr_new(ex, st, a, PtrV(arr.id, 0), 'new[]')
                c = cell(ex, st, a, 8).obj; st.g['owners'] = {**st.g['owners'], c: heldby}
            arrs[s] = (a, arr, n, kind, es)
    finally: ex.search -= 1
    return o, f, arrs
def mul(a, b): return a * b


def verify_copy(ex, cls, cfg, how):
    """how: 'construct', 'assign', 'self'"""
    Omp(ex); S.setup(ex); ex.no_oom = True
    fn = B.fn(ex, '%s_%s' % (cls, 'copy' if how == 'construct' else 'assign'))
    st = St()
    src, f, arrs = make(ex, st, cls, cfg, 'source')
    if how == 'construct':
        dst = ex.new_cells(st, 'copy', B.size_of(ex, cls + '_sz')); darrs = {}
    elif how == 'assign':
        dst, df, darrs = make(ex, st, cls, cfg, 'held')
    else: dst, darrs = src, arrs
    T_ = lambda b: TRUE if b else FALSE
    # which arrays the worksharing loops fill: storage s of the new object, element by element
    def which(s):
        def w(R, good, ob):
            x = good[0][0].st; a = addr(s)
            try: return cell(ex, x, a, 0).obj == ob
            except (Unsupported, AttributeError): return False
        return w
    offs = {s: a[0].off for s, a in arrs.items()}
    def addr(s): return PtrV(dst.id, offs[s])
    specs = []
    for s, (a, arr, n, kind, es) in arrs.items():
        A0 = st.mem[arr.id]
        specs.append(rows_spec(which(s), lambda i: i, lambda i: P(i) + 1, lambda i, k, A0=A0: z3.Select(A0, k), s + ' of the copy'))
    ex.omp.specs = specs
    ex.hooks.append(Filled({s: (lambda k, A0=st.mem[v[1].id]: z3.Select(A0, k)) for s, v in arrs.items()}))
    ex.obs.append(Obligation('vacuity', fn, 'the precondition is satisfiable', ex.solver.check(st.path, [], 3000) != z3.unsat))
    smem = {src.id: st.mem[src.id], **{a[1].id: st.mem[a[1].id] for a in arrs.values()}}
    ex.callstack.append(Frame(ex.mod.funcs[fn], ''))
    outs = ex.inline(st, fn, [PtrV(dst.id), PtrV(src.id)])
    rets = [o for o in outs if o.kind == 'ret']
    ex.obs.append(Obligation('vacuity', fn, 'copying returns on some path', bool(rets)))
    k = z3.Int('k!any')
    for o in outs:
        x = o.st
        if o.kind != 'ret':
            ex.oblige(x, 'post', FALSE, 'copying does not throw'); continue
        ex.oblige(x, 'frame', T_(all(x.mem[q] is m or x.mem[q] == m for q, m in smem.items()) and not any(q in x.dead for q in smem)), 'the source is not modified')
        if how == 'assign': ex.oblige(x, 'post', T_(isinstance(o.val, PtrV) and o.val.obj == dst.id and o.val.off.isconst() and o.val.off.c == 0), 'assignment returns its target')
        if how == 'self': continue
        for g, v in f.items():
            r = B.one(ex.inline(x.copy(), B.fn(ex, '%s_get_%s' % (cls, g)), [PtrV(dst.id)]), 'accessor').val
            if isinstance(r, UndefV): ex.oblige(x, 'post', FALSE, g + ' is copied'); continue
            ex.oblige(x, 'post', eq(ex.U(x, r), v), g + ' is copied')
        own = []
        for s, (a, arr, n, kind, es) in arrs.items():
            b = cell(ex, x, addr(s), 0)
            if isinstance(b, UndefV): ex.oblige(x, 'post', FALSE, s + ': the copy has storage'); continue
            if kind == 'vec':
                e = cell(ex, x, addr(s), 8)
                ex.oblige(x, 'post', eq(e.off - b.off, n * es) if b.obj is not None else eq(n, 0), s + ': the vector has the number of elements')
                if b.obj is None: continue
            elif b.obj is None: ex.oblige(x, 'post', FALSE, s + ': the copy has storage'); continue
            old = {q[1].id for q in list(arrs.values()) + list(darrs.values())} | set(own)
            fresh_store = b.obj not in old or how == 'assign' and kind == 'vec' and s in darrs and b.obj == darrs[s][1].id and b.obj not in own
            ex.oblige(x, 'post', T_(fresh_store), s + ': the copy has storage of its own')
            own.append(b.obj)
            ex.oblige(x, 'post', T_(b.obj not in x.dead), s + ': the storage of the copy is alive')
            if b.obj in x.dead: continue
            oj = ex.objs[b.obj]
            ex.oblige(x, 'post', And(eq(b.off, 0), eq(oj.size, n * es)), s + ': room for exactly the elements')
            if kind == 'sptr':
                c = cell(ex, x, addr(s), 8).obj
                ex.oblige(x, 'post', T_(c is not None and ex.objs[c].props['owns'][0] == b.obj and x.g['owners'][c] == 1), s + ': the copy is the only owner of its storage')
            A, A0 = x.mem[b.obj], x.mem[arr.id]
            ex.oblige(x.copy(), 'post', z3.Implies(z3.And(k >= 0, k < n.z()), (A(k) if callable(A) else z3.Select(A, k)) == z3.Select(A0, k)), s + ': every element is copied')
        if how == 'assign':
            for s, (a, arr, n, kind, es) in darrs.items():
                held = cell(ex, x, addr(s), 0)
                if kind == 'vec' and held.obj == arr.id: continue
                # raw storage of an object without entries holds nothing (a block of no bytes)
                ex.oblige(x, 'post', Or(T_(arr.id in x.dead), eq(df['m'], 0) if kind == 'ptr' else FALSE), s + ': the storage held before is released')
    ex.callstack.pop()
    return ex.obs
