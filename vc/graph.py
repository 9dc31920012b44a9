"""C19: directed graphs and matrices hold a graph and its transpose."""
import re, z3
from . import ir
from .term import *
from .core import *
from .exec import *
from .omp import Omp
from .contracts import find
from . import lib, bin as B, sto as S
from .lib import cell, setcell
from .bin import sel

SZ = {'uint8_t': 1, 'int8_t': 1, 'uint16_t': 2, 'uint32_t': 4, 'float': 4, 'double': 8, 'uint64_t': 8, 'int64_t': 8}
class Cfg:
    def __init__(self, lt='uint32_t', ot='uint64_t', w=None, clt=None, cot=None): self.lt, self.ot, self.w, self.clt, self.cot = lt, ot, w, clt or lt, cot or ot
    def defs(self): return ['LT=' + self.lt, 'OT=' + self.ot, 'CLT=' + self.clt, 'COT=' + self.cot] + (['WG=true', 'WT=' + self.w] if self.w else [])
    def name(self): return '%s %s%s' % (self.lt, self.ot, ' ' + self.w if self.w else '')
CFGS = [Cfg(), Cfg(w='float'), Cfg('uint64_t', 'uint64_t', 'double')]
GETS = ('n', 'nrows', 'ncols', 'm')
T_ = lambda b: TRUE if b else FALSE


class Layout:
    """where the members of a class are, found by running its accessors"""
    def __init__(self, ex, pre, stos, size):
        self.mem, self.sto = {}, {}
        st = St(); o = ex.new_cells(st, 'probe', size)
        ex.search += 1
        try:
            for g in GETS:
                r = B.one(ex.inline(st.copy(), B.fn(ex, '%s_get_%s' % (pre, g)), [PtrV(o.id)]), 'accessor')
                new = [q for q in r.st.mem[o.id] if q not in st.mem[o.id]]
                if len(new) != 1: raise Unsupported('accessor %s does not read one member' % g)
                self.mem[g] = (new[0], r.val.bits)
            for s in stos:
                self.sto[s] = B.one(ex.inline(st.copy(), B.fn(ex, '%s_sto_%s' % (pre, s)), [PtrV(o.id)]), 'accessor').val.off.c
        finally: ex.search -= 1


class World:
    def __init__(self, ex, cfg):
        self.ex, self.cfg = ex, cfg
        w = ('w',) if cfg.w else ()
        self.coo = Layout(ex, 'coo', ('x', 'y') + w, B.size_of(ex, 'coo_sz'))
        self.csr = Layout(ex, 'g', ('off', 'end') + w, B.size_of(ex, 'g_sz'))
        self.es = {'x': SZ[cfg.clt], 'y': SZ[cfg.clt], 'off': SZ[cfg.ot], 'end': SZ[cfg.lt], 'w': SZ[cfg.w or 'float']}
    def member(self, st, o, lay, g, base=0):
        off, bits = lay.mem[g]
        c = st.mem[o.obj].get(o.off.c + off)
        if c is None or isinstance(c[1], UndefV): return None
        return self.ex.U(st, c[1])
    def put(self, st, o, lay, g, v):
        off, bits = lay.mem[g]
        st.mem[o.obj] = {**st.mem[o.obj], o.off.c + off: (bits // 8, IntV(bits, u=v))}
    def new_coo(self, st, ptr, name):
        """an arbitrary COO whose labels are below its label count"""
        ex = self.ex; f, arrs = {}, {}
        for g in GETS:
            off, bits = self.coo.mem[g]
            v = ex.fresh_int(st, bits, name + '_' + g); f[g] = v.u
            st.mem[ptr.obj] = {**st.mem[ptr.obj], ptr.off.c + off: (bits // 8, v)}
        st.assume(And(lt(f['m'], 1 << 58), lt(f['n'], 1 << 58)))
        k = z3.Int('k!lab')
        for s, o in self.coo.sto.items():
            a = ex.new_arr(st, '%s_%s' % (name, s), f['m'] * self.es[s], es=self.es[s], where='heap'); a.props['alloc'] = 'malloc'
            setcell(st, PtrV(ptr.obj, ptr.off + o), 0, PtrV(a.id, 0)); arrs[s] = a
            if s != 'w':
                A = st.mem[a.id]
                st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < f['m'].z()), z3.And(z3.Select(A, k) >= 0, z3.Select(A, k) < f['n'].z())), patterns=[z3.Select(A, k)]))
        return f, arrs
    def check_coo(self, st, p, what):
        """precondition: a COO that is whole -> (fields, {storage: object}) or None"""
        ex = self.ex; f, objs = {}, {}
        if not isinstance(p, PtrV) or p.obj is None or p.obj in st.dead: ex.oblige(st, 'pre', FALSE, what + ': a COO that exists'); return None
        for g in GETS:
            f[g] = self.member(st, p, self.coo, g)
            if f[g] is None: ex.oblige(st, 'pre', FALSE, '%s: %s is set' % (what, g)); return None
        for s, o in self.coo.sto.items():
            q = cell(ex, st, PtrV(p.obj, p.off + o), 0)
            if not isinstance(q, PtrV) or q.obj is None or q.obj in st.dead: ex.oblige(st, 'pre', FALSE, '%s: the COO has storage for %s' % (what, s)); return None
            ex.oblige(st, 'pre', And(eq(q.off, 0), cmp('>=', ex.objs[q.obj].size, f['m'] * self.es[s])), '%s: %s has room for the entries' % (what, s))
            objs[s] = q.obj
        return f, objs


class CopyCoo:
    """copy construction of a COO (proved for C18): the same dimensions and elements in storage of its own"""
    def __init__(self, W): self.W = W
    def apply(self, ex, st, args):
        W = self.W; p, q = args[0], args[1]
        r = W.check_coo(st, q, 'copying a COO')
        if r is None: return []
        f, objs = r
        for g in GETS: W.put(st, p, W.coo, g, f[g])
        for s, o in W.coo.sto.items():
            a = ex.new_arr(st, 'copy_' + s, f['m'] * W.es[s], es=W.es[s], where='heap'); a.props['alloc'] = 'malloc'
            st.mem[a.id] = st.mem[objs[s]]
            setcell(st, PtrV(p.obj, p.off + o), 0, PtrV(a.id, 0))
        return [Out('ret', st)]


class Convert:
    """the CSR of a COO (C13): the documented dimensions; its storage is remembered as that of the CSR of these entries"""
    def __init__(self, W): self.W = W
    def apply(self, ex, st, args):
        W = self.W; p, q = args[0], args[1]
        r = W.check_coo(st, q, 'building a CSR')
        if r is None: return []
        f, objs = r
        k = z3.Int('k!any')
        for s in ('x', 'y'):
            A = st.mem[objs[s]]
            ex.oblige(st.copy(), 'pre', z3.Implies(z3.And(k >= 0, k < f['m'].z()), z3.And(sel(A, k) >= 0, sel(A, k) < f['n'].z())), 'building a CSR: the labels are below the label count')
        for g in GETS:
            ex.oblige(st, 'pre', lt(f[g], 1 << W.csr.mem[g][1]), 'building a CSR: the counts fit its types')
            W.put(st, p, W.csr, g, f[g])
        rec = dict(n=f['n'], m=f['m'], **{s: st.mem[objs[s]] for s in objs})
        for s, o in W.csr.sto.items():
            cnt = f['n'] + 1 if s == 'off' else f['m']
            a = ex.new_arr(st, 'csr_' + s, cnt * W.es[s], es=W.es[s], where='heap'); a.props['alloc'] = 'malloc'
            setcell(st, PtrV(p.obj, p.off + o), 0, PtrV(a.id, 0)); rec['id_' + s] = a.id; rec['mem_' + s] = st.mem[a.id]
        st.g['csrs'] = {**st.g.get('csrs', {}), rec['id_off']: rec}
        return [Out('ret', st)]


class Load:
    """a COO from a file (C04 to C10): some COO whose labels are below its label count, or an error"""
    def __init__(self, W): self.W = W
    def apply(self, ex, st, args):
        bad = st.copy()
        f, arrs = self.W.new_coo(st, args[0], 'loaded')
        st.g['loaded'] = (f, {s: st.mem[a.id] for s, a in arrs.items()})
        return [Out('ret', st), Out('throw', bad)]


class LoadCsr:
    """one side of a saved digraph (C11, and verify_saved): not followed here"""
    def apply(self, ex, st, args): return [Out('throw', st)]


class Guess:
    """guess_file_type (C26): some file type"""
    def apply(self, ex, st, args): return [Out('ret', st, ex.fresh_int(st, 32, 'file_type'))]


def install(ex, cfg, loads=False):
    Omp(ex); B.setup(ex); S.setup(ex); ex.no_oom = True
    W = World(ex, cfg)
    for n in find(ex, r'pigo::CSR<[^()]*>::CSR<[^()]*>\(pigo::COO<'): ex.contracts[n] = Convert(W)
    for n in find(ex, r'pigo::COO<[^()]*>::COO\(pigo::COO<[^()]*> const&\)'): ex.contracts[n] = CopyCoo(W)
    if loads:
        for n in find(ex, r'pigo::COO<[^()]*>::COO\((pigo::File&|std::)'): ex.contracts[n] = Load(W)
        for n in find(ex, r'pigo::CSR<[^()]*>::CSR\(pigo::File&, pigo::FileType\)'): ex.contracts[n] = LoadCsr()
        for n in find(ex, r'pigo::File::guess_file_type\('): ex.contracts[n] = Guess()
    return W


def sides(ex, x, pre, obj, cfg, W, want, f):
    """the postcondition: the out side is the CSR of the entries, the in side of the transposed entries"""
    k = z3.Int('k!any')
    for side, perm in (('out', {'x': 'x', 'y': 'y', 'w': 'w'}), ('in', {'x': 'y', 'y': 'x', 'w': 'w'})):
        nm = 'the %s side' % side
        vals = {}
        for g in ('n', 'm') + (('nrows', 'ncols') if side == 'out' else ()):
            v = B.one(ex.inline(x.copy(), B.fn(ex, '%s_%s_get_%s' % (pre, side, g)), [PtrV(obj.id)]), 'accessor').val
            ex.oblige(x, 'post', FALSE if isinstance(v, UndefV) else eq(ex.U(x, v), f[g]), '%s: %s is the one of the entries' % (nm, g))
        ptr = {}
        for s in W.csr.sto:
            a = B.one(ex.inline(x.copy(), B.fn(ex, '%s_%s_sto_%s' % (pre, side, s)), [PtrV(obj.id)]), 'accessor').val
            ptr[s] = cell(ex, x, a, 0)
        rec = x.g.get('csrs', {}).get(ptr['off'].obj) if isinstance(ptr['off'], PtrV) else None
        ok = rec is not None and all(isinstance(q, PtrV) and q.obj == rec['id_' + s] and q.off.isconst() and q.off.c == 0 and q.obj not in x.dead for s, q in ptr.items())
        ex.oblige(x, 'post', T_(ok), nm + ' holds the storage of one CSR built from entries')
        if not ok: continue
        ex.oblige(x, 'post', And(eq(rec['m'], f['m']), eq(rec['n'], f['n'])), nm + ' is built from as many entries')
        for s in W.csr.sto: ex.oblige(x, 'post', T_(x.mem[rec['id_' + s]] is rec['mem_' + s]), '%s: its storage is as it was built' % nm)
        for s, t in perm.items():
            if s in want: ex.oblige(x.copy(), 'post', z3.Implies(z3.And(k >= 0, k < f['m'].z()), sel(rec[s], k) == sel(want[t], k)), '%s: built from the entries %s (%s)' % (nm, 'by row' if side == 'out' else 'by column', s))
    a, b = (B.one(ex.inline(x.copy(), B.fn(ex, '%s_%s_sto_off' % (pre, q)), [PtrV(obj.id)]), 'accessor').val for q in ('out', 'in'))


def verify_build(ex, cfg, pre):
    """a digraph ('dg') or matrix ('mx') from a COO"""
    W = install(ex, cfg)
    fn = B.fn(ex, pre + '_of_coo')
    st = St()
    src = ex.new_cells(st, 'coo', B.size_of(ex, 'coo_sz'))
    f, arrs = W.new_coo(st, PtrV(src.id), 'coo')
    dst = ex.new_cells(st, 'graph', B.size_of(ex, pre + '_sz'))
    ex.obs.append(Obligation('vacuity', fn, 'the precondition is satisfiable', ex.solver.check(st.path, [], 3000) != z3.unsat))
    smem = {src.id: st.mem[src.id], **{a.id: st.mem[a.id] for a in arrs.values()}}
    want = {s: st.mem[a.id] for s, a in arrs.items()}
    ex.callstack.append(Frame(ex.mod.funcs[fn], ''))
    outs = ex.inline(st, fn, [PtrV(dst.id), PtrV(src.id)])
    ex.obs.append(Obligation('vacuity', fn, 'building returns on some path', any(o.kind == 'ret' for o in outs)))
    for o in outs:
        x = o.st
        if o.kind != 'ret': ex.oblige(x, 'post', FALSE, 'building does not throw'); continue
        ex.oblige(x, 'frame', T_(all(x.mem[q] is m or x.mem[q] == m for q, m in smem.items()) and not any(q in x.dead for q in smem)), 'the COO is unchanged')
        sides(ex, x, pre, dst, cfg, W, want, f)
        whole(ex, x, pre, dst, f)
    ex.callstack.pop()
    return ex.obs


def whole(ex, x, pre, dst, f):
    for g in ('m', 'n', 'nrows', 'ncols') if pre == 'dg' else ('nrows', 'ncols'):
        v = B.one(ex.inline(x.copy(), B.fn(ex, '%s_whole_%s' % (pre, g)), [PtrV(dst.id)]), 'accessor').val
        ex.oblige(x, 'post', eq(ex.U(x, v), f[g]), '%s of the whole is the one of the entries' % g)


def verify_file(ex, cfg, pre):
    """from a file that is not a binary digraph: built from the COO the file gives"""
    W = install(ex, cfg, loads=True)
    n = 0
    for how in ('name',) if pre == 'mx' else ('name', 'file'):
        fn = B.fn(ex, 'mx_of_file' if pre == 'mx' else 'dg_of_' + how)
        st = St()
        st.g['fs'] = (P(z3.Int('file_size')), fresh_arr('content'))
        st.assume(And(cmp('>=', st.g['fs'][0], 1), lt(st.g['fs'][0], 1 << 58)))
        dst = ex.new_cells(st, 'graph', B.size_of(ex, pre + '_sz'))
        s = B.strval(ex, st)
        args = [PtrV(dst.id), PtrV(s.id)]
        if how == 'file': args.append(ex.fresh_int(st, 32, 'wanted_type'))
        ex.callstack.append(Frame(ex.mod.funcs[fn], ''))
        for o in ex.inline(st, fn, args):
            x = o.st
            if o.kind != 'ret' or 'loaded' not in x.g: continue
            n += 1
            f, want = x.g['loaded']
            sides(ex, x, pre, dst, cfg, W, want, f)
            whole(ex, x, pre, dst, f)
        ex.callstack.pop()
    ex.obs.append(Obligation('vacuity', fn, 'some file is loaded', n > 0))
    return ex.obs


def verify_saved(ex, cfg):
    """a digraph saved and loaded again: both sides are the same"""
    Omp(ex); B.setup(ex); ex.no_oom = True
    st = St()
    size = B.size_of(ex, 'dg_sz')
    o = ex.new_cells(st, 'digraph', size)
    F, A = {}, {}
    for side in ('out', 'in'):
        lay = Layout(ex, 'dg_' + side, ('off', 'end') + (('w',) if cfg.w else ()), size)
        f = {}
        for g in GETS:
            off, bits = lay.mem[g]
            v = ex.fresh_int(st, bits, '%s_%s' % (side, g)); f[g] = v.u
            st.mem[o.id] = {**st.mem[o.id], off: (bits // 8, v)}
        st.assume(And(lt(f['m'], 1 << 56), lt(f['n'] + 1, 1 << 56)))
        for s, off in lay.sto.items():
            n = (f['n'] + 1) * SZ[cfg.ot] if s == 'off' else f['m'] * SZ[cfg.lt if s == 'end' else cfg.w]
            a = ex.new_arr(st, '%s_%s' % (side, s), n, es=1, where='heap'); a.props['alloc'] = 'malloc'
            st.mem[o.id] = {**st.mem[o.id], off: (8, PtrV(a.id, 0))}; A[side, s] = (a, n)
        F[side] = f
    ex.obs.append(Obligation('vacuity', '', 'the precondition is satisfiable', ex.solver.check(st.path, [], 3000) != z3.unsat))
    mem0 = {o.id: st.mem[o.id], **{a.id: st.mem[a.id] for a, n in A.values()}}
    s = B.strval(ex, st)
    st.g['fs'] = (P(0), z3.K(z3.IntSort(), z3.IntVal(0)))
    nret = 0
    ex.callstack.append(Frame(ex.mod.funcs[B.fn(ex, 'dg_save')], ''))
    saved = [x for x in ex.inline(st, B.fn(ex, 'dg_save'), [PtrV(o.id), PtrV(s.id)]) if x.kind == 'ret']
    ex.callstack.pop()
    fn = B.fn(ex, 'dg_load')
    for sv in saved:
        ex.oblige(sv.st, 'frame', T_(all(sv.st.mem[q] is m or sv.st.mem[q] == m for q, m in mem0.items())), 'saving does not change the digraph')
        fsz, content = sv.st.g['fs']
        file, opened = B.open_ro(ex, sv.st, fsz, content)
        for op in opened:
            t = op.st
            o2 = ex.new_cells(t, 'loaded', size)
            ex.callstack.append(Frame(ex.mod.funcs[fn], ''))
            for x in ex.inline(t, fn, [PtrV(o2.id), PtrV(file.id)]):
                if x.kind != 'ret': ex.oblige(x.st, 'post', FALSE, 'a saved digraph is accepted when it is loaded with the same types'); continue
                nret += 1; y = x.st
                for side in ('out', 'in'):
                    for g in GETS:
                        v = B.one(ex.inline(y.copy(), B.fn(ex, 'dg_%s_get_%s' % (side, g)), [PtrV(o2.id)]), 'accessor').val
                        ex.oblige(y, 'post', eq(ex.U(y, v), F[side][g]), 'the loaded %s side has the same %s' % (side, g))
                for (side, s2), (a, n) in A.items():
                    q = cell(ex, y, B.one(ex.inline(y.copy(), B.fn(ex, 'dg_%s_sto_%s' % (side, s2)), [PtrV(o2.id)]), 'accessor').val, 0)
                    if not isinstance(q, PtrV) or q.obj is None or q.obj in y.dead: ex.oblige(y, 'post', FALSE, 'the loaded %s side has storage' % side); continue
                    k = z3.Int('k!any')
                    ex.oblige(y, 'post', And(eq(q.off, 0), eq(ex.objs[q.obj].size, n)), 'the loaded %s side has room for exactly its %s' % (side, s2))
                    ex.oblige(y.copy(), 'post', z3.Implies(z3.And(k >= 0, k < n.z()), sel(y.mem[q.obj], k) == sel(y.mem[a.id], k)), 'the loaded %s side has the same %s, byte for byte' % (side, s2))
                left = B.one(ex.inline(y.copy(), B.fn(ex, 'f_left'), [PtrV(file.id)]), 'left')
                ex.oblige(left.st, 'post', eq(ex.U(left.st, left.val), 0), 'the file has exactly the size its contents need')
            ex.callstack.pop()
    ex.obs.append(Obligation('vacuity', fn, 'some digraph is saved and loaded', nret > 0))
    return ex.obs


def verify_range(ex, cfg):
    """each vertex's neighbour range and degree are those of the stored side"""
    Omp(ex); S.setup(ex); B.setup(ex)
    W = World(ex, cfg)
    st = St()
    o = ex.new_cells(st, 'graph', B.size_of(ex, 'g_sz'))
    f = {}
    for g in GETS:
        off, bits = W.csr.mem[g]
        v = ex.fresh_int(st, bits, g); f[g] = v.u
        st.mem[o.id] = {**st.mem[o.id], off: (bits // 8, v)}
    st.assume(And(lt(f['m'], 1 << 58), lt(f['n'], 1 << 58)))
    arr = {}
    for s, off in W.csr.sto.items():
        a = ex.new_arr(st, s, (f['n'] + 1 if s == 'off' else f['m']) * W.es[s], es=W.es[s], where='heap'); arr[s] = a
        setcell(st, PtrV(o.id), off, PtrV(a.id, 0))
    from .conv import csr_valid
    OFF = csr_valid(ex, st, cfg, f, arr)
    END = st.mem[arr['end'].id]
    v = P(z3.Int('v')); st.assume(And(cmp('>=', v, 0), lt(v, f['n'])))
    lo, hi = P(z3.Select(OFF, v.z())), P(z3.Select(OFF, (v + 1).z()))
    st.assume(And(le(lo, hi), le(hi, f['m']), cmp('>=', lo, 0)))
    ex.obs.append(Obligation('vacuity', '', 'the precondition is satisfiable', ex.solver.check(st.path, [], 3000) != z3.unsat))
    bits = W.csr.mem['n'][1]
    for nm, want, what in (('g_start', lo, 'the range of a vertex starts where its row does'), ('g_end', hi, 'the range of a vertex ends where its row does'), ('g_degree', hi - lo, 'the degree of a vertex is the length of its row')):
        fn = B.fn(ex, nm); ex.callstack.append(Frame(ex.mod.funcs[fn], ''))
        for r in ex.inline(st.copy(), fn, [PtrV(o.id), IntV(bits, u=v)]):
            ex.oblige(r.st, 'post', eq(ex.U(r.st, r.val), want) if r.kind == 'ret' else FALSE, what)
        ex.callstack.pop()
    fn = B.fn(ex, 'g_walk'); ex.callstack.append(Frame(ex.mod.funcs[fn], ''))
    from .loops import Filled
    s = st.copy()
    res = ex.new_arr(s, 'met', (hi - lo) * W.es['end'], es=W.es['end'], where='heap')
    ex.hooks.append(Filled({'met': lambda k: z3.Select(END, lo.z() + k)}))
    n = 0; k = z3.Int('k!any')
    for r in ex.inline(s, fn, [PtrV(o.id), IntV(bits, u=v), PtrV(res.id, 0)]):
        if r.kind != 'ret': ex.oblige(r.st, 'post', FALSE, 'going through the neighbours does not throw'); continue
        n += 1
        ex.oblige(r.st, 'post', eq(ex.U(r.st, r.val), hi - lo), 'as many neighbours are met as the row has entries')
        ex.oblige(r.st.copy(), 'post', z3.Implies(z3.And(k >= 0, k < (hi - lo).z()), sel(r.st.mem[res.id], k) == z3.Select(END, lo.z() + k)), 'the neighbours met are the entries of the row, in order')
    ex.obs.append(Obligation('vacuity', fn, 'going through the neighbours ends', n > 0))
    ex.callstack.pop()
    return ex.obs
