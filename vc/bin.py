"""C10, C11, C12, C18, C23, C24, C26: binary input and output, files and storage.

Saving and loading are executed one after the other on one ghost file: what load reads is what save wrote."""
import re, z3
from .term import *
from .core import *
from .exec import *
from . import lib
from .contracts import find


class Block:
    """contract of the parallel block copies (proved for C20)"""
    def __init__(self, write): self.write = write
    def apply(self, ex, st, args):
        fp, v, n = args[0], args[1], ex.U(st, args[2])
        p = ex.load(st, ir.PTR, fp, 'file position')
        if p is None: return []
        st.assume(lt(n, 1 << 62))
        nm = 'parallel_write' if self.write else 'parallel_read'
        for q, what in ((p, 'file'), (v, 'data')):
            if not isinstance(q, PtrV): ex.oblige(st, 'pre', FALSE, nm + ': an undefined pointer is passed'); return []
        outs = []
        z = st.copy(); z.assume(eq(n, 0)); 
        if not ex.infeasible(z): outs.append(Out('ret', z))
        st.assume(cmp('>=', n, 1))
        if ex.infeasible(st): return outs
        d, s = (p, v) if self.write else (v, p)
        if d.obj is not None and d.obj == s.obj: raise Unsupported('block copy within one object')
        if ex.memcpy(st, d, s, n, nm) is None: return outs
        if ex.store(st, ir.PTR, fp, PtrV(p.obj, p.off + n)) is None: return outs
        return outs + [Out('ret', st)]


class WriteStr:
    """contract of write(FilePos&, std::string): every byte of the string, then the position is behind them"""
    def apply(self, ex, st, args):
        p = ex.load(st, ir.PTR, args[0], 'file position')
        d, n = lib.str_get(ex, st, args[1])
        if not n.isconst(): raise Unsupported('a string of unknown length is written')
        if n.c:
            o = ex.access(st, p, n, 'w', 'write of a string')
            if o is None: return []
            if o.es is None: o.es = 1
            a = st.mem[o.id]
            for k in range(n.c): a = z3.Store(a, (p.off + k).z(), lib.byte_at(ex, st, d.obj, d.off + k))
            st.mem[o.id] = a
        ex.store(st, ir.PTR, args[0], PtrV(p.obj, p.off + n))
        return [Out('ret', st)]


class SymStr:
    """the same contract for a string of any length (proved by verify_writestr)"""
    def apply(self, ex, st, args):
        p = ex.load(st, ir.PTR, args[0], 'file position')
        if p is None: return []
        d, n = lib.str_get(ex, st, args[1])
        outs = []
        z = st.copy(); z.assume(eq(n, 0))
        if not ex.infeasible(z): outs.append(Out('ret', z))
        st.assume(cmp('>=', n, 1))
        if ex.infeasible(st): return outs
        if ex.memcpy(st, p, d, n, 'write of a string') is None: return outs
        ex.store(st, ir.PTR, args[0], PtrV(p.obj, p.off + n))
        return outs + [Out('ret', st)]


def fn(ex, name):
    c = [n for n in find(ex, re.escape(name) + r'\(') if n in ex.mod.funcs]
    if not c: raise Unsupported(name + ' not found')
    return c[0]
def setup(ex):
    lib.install(ex)
    ex.no_oom = True
    for n in find(ex, r'pigo::parallel_write\(char const\*&|void pigo::parallel_write\('): ex.contracts[n] = Block(True)
    for n in find(ex, r'pigo::parallel_read\(char const\*&|void pigo::parallel_read\('): ex.contracts[n] = Block(False)
    for n in find(ex, r'void pigo::write<std::__cxx11::basic_string'): ex.contracts[n] = WriteStr()


class Kind:
    """what an object of one of the classes consists of, through its accessors"""
    def __init__(self, cls, gets, stos, count): self.cls, self.gets, self.stos, self.count = cls, gets, stos, count
KINDS = {
    'coo': Kind('coo', ('n', 'nrows', 'ncols', 'm'), ('x', 'y', 'w'), lambda f, s: f['m']),
    'csr': Kind('csr', ('n', 'nrows', 'ncols', 'm'), ('offsets', 'endpoints', 'w'), lambda f, s: f['n'] + 1 if s == 'offsets' else f['m']),
    'ten': Kind('ten', ('order', 'm'), ('c', 'w'), lambda f, s: f['order'] * f['m'] if s == 'c' else f['m']),
}
CFG = {'a': dict(L=4, O=8, W=0), 'b': dict(L=4, O=8, W=8), 'c': dict(L=8, O=8, W=4), 'd': dict(L=4, O=4, W=8), 'e': dict(L=4, O=8, W=4)}
def esize(kind, cfg, s):
    c = CFG[cfg]
    return c['W'] if s == 'w' else c['O'] if s == 'offsets' else c['L']


def one(outs, what):
    outs = [o for o in outs if o.kind == 'ret']
    if len(outs) != 1: raise Unsupported(what)
    return outs[0]
def size_of(ex, name):
    st = St(); dummy = ex.new_cells(st, 'dummy', 4096)
    o = one(ex.inline(st, fn(ex, name), [PtrV(dummy.id)] if ex.mod.funcs[fn(ex, name)].params else []), 'sizeof')
    return o.val.u.c
def blank(ex, st, cls, cfg, name):
    return ex.new_cells(st, name, size_of(ex, '%s_%s_sz' % (cls, cfg)))
def get(ex, st, cls, cfg, o, g):
    return one(ex.inline(st.copy(), fn(ex, '%s_%s_get_%s' % (cls, cfg, g)), [PtrV(o.id)]), 'accessor ' + g)
def sto(ex, st, cls, cfg, o, s):
    return one(ex.inline(st.copy(), fn(ex, '%s_%s_sto_%s' % (cls, cfg, s)), [PtrV(o.id)]), 'accessor ' + s).val


def fill(ex, st, cls, cfg, name='obj'):
    """an arbitrary object: symbolic members, storage of exactly the size its counts announce"""
    K = KINDS[cls]
    o = blank(ex, st, cls, cfg, name)
    f, arrs = {}, {}
    ex.search += 1
    try:
        for g in K.gets:
            r = get(ex, st, cls, cfg, o, g)
            new = [q for q in r.st.mem[o.id] if q not in st.mem[o.id]]
            if len(new) != 1: raise Unsupported('accessor %s does not read one member' % g)
            v = ex.fresh_int(st, r.val.bits, g)
            st.mem[o.id] = {**st.mem[o.id], new[0]: (r.val.bits // 8, v)}
            f[g] = v.u
    finally: ex.search -= 1
    for s in K.stos:
        es = esize(K, cfg, s)
        if not es: continue
        p = sto(ex, st, cls, cfg, o, s)
        cnt = K.count(f, s)
        for x in f.values():
            for y in f.values():
                if x is not y and not (x * y).isconst() and any(len(k) > 1 for k in cnt.m): ex.mulfacts(st, x, y)
        st.assume(And(lt(cnt * es, 1 << 58)))
        a = ex.new_arr(st, s, cnt * es, es=1, where='heap'); a.props['alloc'] = 'malloc'
        st.mem[o.id] = {**st.mem[o.id], p.off.c: (8, PtrV(a.id, 0))}
        arrs[s] = (a, cnt * es)
    return o, f, arrs


def strval(ex, st, name='fn'):
    """an arbitrary string"""
    n = P(z3.Int(name + '_len')); st.assume(And(cmp('>=', n, 0), lt(n, 1 << 62)))
    s = ex.new_cells(st, name, 32)
    lib.str_new(ex, st, PtrV(s.id), n, fresh_arr(name))
    return s


def save(ex, st, cls, cfg, o):
    """-> states after save(file name) returned; st.g['fs'] is the file"""
    s = strval(ex, st)
    st.g['fs'] = (P(0), z3.K(z3.IntSort(), z3.IntVal(0)))
    return ex.inline(st, fn(ex, '%s_%s_save' % (cls, cfg)), [PtrV(o.id), PtrV(s.id)])


def open_ro(ex, st, size, content):
    """a File whose mapping is the given content, built by running its constructor"""
    st.g['fs'] = (size, content)
    s = strval(ex, st, 'fn2')
    f = ex.new_cells(st, 'file_object', size_of(ex, 'f_sz'))
    outs = ex.inline(st, fn(ex, 'f_ropen'), [PtrV(f.id), PtrV(s.id)])
    return f, [o for o in outs if o.kind == 'ret']


def sel(c, i): return c(i) if callable(c) else z3.Select(c, i)


def saved(ex, cls, cfg):
    """one generic object saved: (state, object, fields, arrays, file size, content)"""
    st = St()
    o, f, arrs = fill(ex, st, cls, cfg)
    # a count plus one does not wrap (documented range of the label type)
    if cls == "csr": st.assume(lt(f["n"] + 1, 1 << 58))
    ex.obs.append(Obligation('vacuity', '', '%s: the precondition is satisfiable' % cls, ex.solver.check(st.path, [], 3000) != z3.unsat))
    mem0 = {a.id: st.mem[a.id] for a, n in arrs.values()}
    cells0 = st.mem[o.id]
    outs = [x for x in save(ex, st, cls, cfg, o) if x.kind == 'ret']
    if not outs: ex.obs.append(Obligation('vacuity', '', '%s: saving returns on some path' % cls, False)); return []
    res = []
    for x in outs:
        for a, n in arrs.values():
            ex.oblige(x.st, 'frame', TRUE if x.st.mem[a.id] is mem0[a.id] else FALSE, 'saving does not change the entries')
        ex.oblige(x.st, 'frame', TRUE if all(q in x.st.mem[o.id] and x.st.mem[o.id][q][1] is v for q, (z, v) in cells0.items()) else FALSE, 'saving does not change the object')
        ex.oblige(x.st, 'post', TRUE if not x.st.g.get('maps') else FALSE, 'saving releases the mapping')
        res.append((x.st, o, f, arrs) + x.st.g['fs'])
    return res


def verify_writestr(ex):
    """write(FilePos&, std::string): every byte of any string, then the position is right behind them"""
    lib.install(ex)
    name = [n for n in find(ex, r'void pigo::write<std::__cxx11::basic_string') if n in ex.mod.funcs][0]
    st = St()
    FS, f = P(z3.Int('file_size')), P(z3.Int('f'))
    st.assume(And(cmp('>=', f, 0), le(f, FS), lt(FS, 1 << 62)))
    file = ex.new_arr(st, 'file', FS, es=1, where='ext')
    fp = ex.new_cells(st, 'fp', 8); st.mem[fp.id] = {0: (8, PtrV(file.id, f))}
    s = strval(ex, st); d, n = lib.str_get(ex, st, PtrV(s.id))
    st.assume(le(f + n, FS))
    a0, s0 = st.mem[file.id], st.mem[d.obj]
    ex.obs.append(Obligation('vacuity', name, 'the precondition is satisfiable', ex.solver.check(st.path, [], 3000) != z3.unsat))
    outs = ex.inline(st, name, [PtrV(fp.id), PtrV(s.id)])
    ex.callstack.append(Frame(ex.mod.funcs[name], ''))
    k = z3.Int('k!any')
    for o in outs:
        x = o.st
        if o.kind != 'ret': ex.oblige(x, 'post', FALSE, 'write(string) does not throw'); continue
        p = x.mem[fp.id][0][1]
        ex.oblige(x, 'post', And(TRUE if p.obj == file.id else FALSE, eq(p.off, f + n)), 'write(string): the position advances by the length of the string')
        a1 = x.mem[file.id]
        y = x.copy()
        ex.oblige(y, 'post', z3.Implies(z3.And(k >= 0, k < n.z()), z3.Select(a1, k + f.z()) == sel(s0, k)), 'write(string): every byte is written to its own position')
        ex.oblige(y, 'frame', z3.Implies(z3.Or(k < f.z(), k >= (f + n).z()), z3.Select(a1, k) == z3.Select(a0, k)), 'write(string): nothing else is written')
        ex.oblige(x, 'frame', TRUE if x.mem[d.obj] is s0 else FALSE, 'write(string): the string is unchanged')
    ex.callstack.pop()
    if not any(o.kind == 'ret' for o in outs): ex.obs.append(Obligation('vacuity', name, 'some path returns', False))
    return ex.obs


def verify_written(ex, cls, cfg):
    """every byte of the file is written: a marker in the new file (not a byte value) is nowhere left"""
    setup(ex)
    ex.newfile = z3.K(z3.IntSort(), z3.IntVal(-1))
    n = 0
    for st, o, f, arrs, size, content in saved(ex, cls, cfg):
        n += 1
        k = z3.Int('k!w')
        for a, _ in arrs.values():
            A = st.mem[a.id]; st.assume(z3.ForAll([k], z3.Select(A, k) >= 0, patterns=[z3.Select(A, k)]))
        j = z3.Int('k!any')
        note(ex, '%s_%s_save' % (cls, cfg))
        ex.oblige(st, 'post', z3.Implies(z3.And(j >= 0, j < size.z()), sel(content, j) >= 0), 'every byte of a saved %s file is written' % cls)
        ex.callstack.pop()
    if not n: ex.obs.append(Obligation('vacuity', '', 'some file is saved', False))
    return ex.obs


def verify_savef(ex, cfg):
    """CSR::save(File&): advances the position by exactly save_size() and writes nothing else"""
    setup(ex)
    st = St()
    o, f, arrs = fill(ex, st, 'csr', cfg)
    st.assume(lt(f["n"] + 1, 1 << 58))
    st.g['fs'] = (P(0), z3.K(z3.IntSort(), z3.IntVal(0)))
    size, pos = P(z3.Int('file_size')), P(z3.Int('pos'))
    r = one(ex.inline(st, fn(ex, 'csr_%s_size' % cfg), [PtrV(o.id)]), 'save_size')
    st, ssz = r.st, ex.U(r.st, r.val)
    st.assume(And(cmp('>=', pos, 0), lt(pos, size), le(pos + ssz, size), lt(size, 1 << 60)))
    s = strval(ex, st); fo = ex.new_cells(st, 'file_object', size_of(ex, 'f_sz'))
    n = 0
    for w in ex.inline(st, fn(ex, 'f_wopen'), [PtrV(fo.id), PtrV(s.id), IntV(64, u=size)]):
        if w.kind != 'ret': continue
        for k in ex.inline(w.st, fn(ex, 'f_seek'), [PtrV(fo.id), IntV(64, u=pos)]):
            if k.kind != 'ret': ex.oblige(k.st, 'post', FALSE, 'seeking inside the file is accepted'); continue
            x = k.st
            m = ex.objs[x.g['maps'][-1]]; a0 = x.mem[m.id]
            outs = ex.inline(x, fn(ex, 'csr_%s_savef' % cfg), [PtrV(o.id), PtrV(fo.id)])
            note(ex, 'csr_%s_savef' % cfg)
            for y in outs:
                if y.kind != 'ret': ex.oblige(y.st, 'post', FALSE, 'saving into a file with room for save_size() bytes succeeds'); continue
                n += 1
                p = one(ex.inline(y.st.copy(), fn(ex, 'f_fp'), [PtrV(fo.id)]), 'fp').val
                ex.oblige(y.st, 'post', And(TRUE if p.obj == m.id else FALSE, eq(p.off, pos + ssz)), 'saving advances the file position by exactly save_size()')
                j = z3.Int('k!any')
                ex.oblige(y.st, 'frame', z3.Implies(z3.Or(j < pos.z(), j >= (pos + ssz).z()), z3.Select(y.st.mem[m.id], j) == z3.Select(a0, j)), 'saving writes nothing outside its save_size() bytes')
            ex.callstack.pop()
    if not n: ex.obs.append(Obligation('vacuity', '', 'some file is saved', False))
    return ex.obs


def note(ex, name): ex.callstack.append(Frame(ex.mod.funcs[fn(ex, name)], ''))


def verify_inverse(ex, cls, cfg):
    K = KINDS[cls]
    setup(ex)
    nret = 0
    for st, o, f, arrs, size, content in saved(ex, cls, cfg):
        file, opened = open_ro(ex, st, size, content)
        for op in opened:
            s = op.st
            o2 = blank(ex, s, cls, cfg, 'loaded')
            outs = ex.inline(s, fn(ex, '%s_%s_load' % (cls, cfg)), [PtrV(o2.id), PtrV(file.id)])
            note(ex, '%s_%s_load' % (cls, cfg))
            for x in outs:
                if x.kind != 'ret': ex.oblige(x.st, 'post', FALSE, 'a saved file is accepted when it is loaded with the same types'); continue
                nret += 1
                for g in K.gets:
                    v = get(ex, x.st, cls, cfg, o2, g).val
                    ex.oblige(x.st, 'post', eq(ex.U(x.st, v), f[g]), 'loading a saved %s gives the same %s' % (cls, g))
                for nm, (a, n) in arrs.items():
                    p = sto(ex, x.st, cls, cfg, o2, nm)
                    q = ex.load(x.st, ir.PTR, p)
                    if not isinstance(q, PtrV) or q.obj is None: ex.oblige(x.st, 'post', FALSE, 'loading a saved %s gives the same %s' % (cls, nm)); continue
                    b = ex.objs[q.obj]
                    k = z3.Int('k!' + nm)
                    ex.oblige(x.st, 'post', And(eq(q.off, 0), eq(b.size, n)), 'the loaded %s hold exactly the saved number of entries' % nm)
                    goal = z3.Implies(z3.And(k >= 0, k < n.z()), sel(x.st.mem[b.id], k) == sel(x.st.mem[a.id], k))
                    y = x.st.copy()
                    ex.oblige(y, 'post', goal, 'loading a saved %s gives the same %s, byte for byte' % (cls, nm))
                    ex.oblige(x.st, 'post', FALSE if b.id == a.id else TRUE, 'the loaded %s have storage of their own' % nm)
                left = one(ex.inline(x.st.copy(), fn(ex, 'f_left'), [PtrV(file.id)]), 'left')
                ex.oblige(left.st, 'post', eq(ex.U(left.st, left.val), 0), 'the file has exactly the size its contents need')
            ex.callstack.pop()
    if not nret: ex.obs.append(Obligation('vacuity', '', 'some file is saved and loaded', False))
    return ex.obs


def verify_truncated(ex, cls, cfg):
    """any strict prefix of a saved file is refused"""
    setup(ex)
    n = 0
    for st, o, f, arrs, size, content in saved(ex, cls, cfg):
        cut = P(z3.Int('cut'))
        st.assume(And(cmp('>=', cut, 1), lt(cut, size)))
        file, opened = open_ro(ex, st, cut, content)
        for op in opened:
            s = op.st; n += 1
            o2 = blank(ex, s, cls, cfg, 'loaded')
            outs = ex.inline(s, fn(ex, '%s_%s_load' % (cls, cfg)), [PtrV(o2.id), PtrV(file.id)])
            note(ex, '%s_%s_load' % (cls, cfg))
            for x in outs:
                if x.kind == 'ret': ex.oblige(x.st, 'post', FALSE, 'a %s file shorter than its header announces is refused' % cls)
                else: ex.oblige(x.st, 'post', TRUE, 'refused')
            ex.callstack.pop()
    if not n: ex.obs.append(Obligation('vacuity', '', 'some file is cut', False))
    return ex.obs


def verify_mismatch(ex, cls, cfg, cls2, cfg2):
    """a file saved as one type is refused by another"""
    setup(ex)
    n = 0
    for st, o, f, arrs, size, content in saved(ex, cls, cfg):
        file, opened = open_ro(ex, st, size, content)
        for op in opened:
            s = op.st; n += 1
            o2 = blank(ex, s, cls2, cfg2, 'loaded')
            outs = ex.inline(s, fn(ex, '%s_%s_load' % (cls2, cfg2)), [PtrV(o2.id), PtrV(file.id)])
            note(ex, '%s_%s_load' % (cls2, cfg2))
            for x in outs:
                if x.kind == 'ret': ex.oblige(x.st, 'post', FALSE, 'a %s file of other type sizes or kind is refused by %s' % (cls, cls2))
                else: ex.oblige(x.st, 'post', TRUE, 'refused')
            ex.callstack.pop()
    if not n: ex.obs.append(Obligation('vacuity', '', 'some file is saved', False))
    return ex.obs


def verify_any(ex, cls, cfg):
    """whatever the file holds: loading stays inside the file and its own storage"""
    setup(ex); ex.no_oom = False
    st = St()
    size = P(z3.Int('file_size')); st.assume(And(cmp('>=', size, 1), lt(size, 1 << 58)))
    file, opened = open_ro(ex, st, size, fresh_arr('content'))
    n = 0
    for op in opened:
        s = op.st
        o2 = blank(ex, s, cls, cfg, 'loaded')
        outs = ex.inline(s, fn(ex, '%s_%s_load' % (cls, cfg)), [PtrV(o2.id), PtrV(file.id)])
        n += len(outs)
        note(ex, '%s_%s_load' % (cls, cfg))
        K = KINDS[cls]
        for x in outs:
            if x.kind != 'ret': continue
            f = {g: ex.U(x.st, get(ex, x.st, cls, cfg, o2, g).val) for g in K.gets}
            need = P(0)
            for nm in K.stos:
                es = esize(K, cfg, nm)
                if not es: continue
                q = ex.load(x.st, ir.PTR, sto(ex, x.st, cls, cfg, o2, nm))
                if not isinstance(q, PtrV) or q.obj is None: ex.oblige(x.st, 'post', FALSE, 'a loaded %s has storage for its %s' % (cls, nm)); continue
                cnt = K.count(f, nm) * es
                ex.oblige(x.st, 'post', And(eq(q.off, 0), cmp('>=', ex.objs[q.obj].size, cnt)), 'the storage of the loaded %s holds what its counts announce' % nm)
                need = need + cnt
            ex.oblige(x.st, 'post', le(need, size), 'an accepted %s file is long enough for what its header announces' % cls)
        ex.callstack.pop()
    if not n: ex.obs.append(Obligation('vacuity', '', 'some file is loaded', False))
    return ex.obs
