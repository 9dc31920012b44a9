"""Models of the C and C++ library functions PIGO calls.  Each model is an assumption about the library
(listed in the evidence); everything of PIGO itself is executed from its source."""
import re, z3
from .term import *
from .core import *
from .exec import Out, IntT

TSIZE = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'float': 4,
         'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'double': 8}
S_ = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::'


def cell(ex, st, p, off=0):
    if not isinstance(p, PtrV) or p.obj is None or not p.off.isconst(): raise Unsupported('library object at an unknown address')
    if p.obj in st.dead: raise Unsupported('library object already destroyed')
    c = st.mem[p.obj].get(p.off.c + off)
    if c is None: raise Unsupported('library object is not initialised')
    return c[1]
def setcell(st, p, off, v, sz=8):
    m = dict(st.mem[p.obj]); m[p.off.c + off] = (sz, v); st.mem[p.obj] = m
def kill(st, obj): st.dead = st.dead | {obj}


# ---------------------------------------------------------------- std::string
def str_get(ex, st, p):
    d, n = cell(ex, st, p, 0), cell(ex, st, p, 8)
    return d, ex.U(st, n)
def str_set(ex, st, p, d, n):
    setcell(st, p, 0, d); setcell(st, p, 8, IntV(64, u=n))
def str_new(ex, st, p, n, content):
    o = ex.new_arr(st, 'str', P(n) + 1, es=1, content=content, where='heap')
    str_set(ex, st, p, PtrV(o.id, 0), n)
def byte_at(ex, st, obj, off):
    """byte of an array object at a Poly offset"""
    o = ex.objs[obj]
    if o.kind != 'arr' or o.es not in (None, 1): raise Unsupported('bytes of ' + o.name)
    d = o.props.get('data')
    if d is not None and off.isconst() and 0 <= off.c < len(d): return z3.IntVal(d[off.c])
    for h in ex.hooks: h.touch(ex, st, o, off)
    if o.es is None: o.es = 1
    t = ex.select(st, o, off, 1)
    ex.elem_val(st, o, IntT(8), t)
    return t
def literal_len(ex, st, p):
    o = ex.objs[p.obj]
    d = o.props.get('data')
    if d is None or not p.off.isconst(): raise Unsupported('length of a string that is not a literal')
    k = p.off.c
    while k < len(d) and d[k]: k += 1
    if k >= len(d): raise Unsupported('string literal without end')
    return k - p.off.c
def shifted(S, k):
    kz = P(k).z()
    return (lambda i: S(P(i + kz).z())) if callable(S) else (lambda i: z3.Select(S, P(i + kz).z()))
def m_str_lit(ex, st, args, ins):
    s = args[1]; n = literal_len(ex, st, s)
    A = z3.K(z3.IntSort(), z3.IntVal(0))
    d = ex.objs[s.obj].props['data']
    for k in range(n): A = z3.Store(A, k, d[s.off.c + k])
    str_new(ex, st, args[0], n, A)
def m_str_copy(ex, st, args, ins):
    d, n = str_get(ex, st, args[1])
    c = st.mem[d.obj] if d.obj is not None else None
    str_new(ex, st, args[0], n, shifted(c, d.off) if not (d.off.isconst() and d.off.c == 0) else c)
    src = ex.objs[d.obj]; dst = ex.objs[st.mem[args[0].obj][args[0].off.c][1].obj]
    if 'data' in src.props: dst.props['data'] = src.props['data']
def m_str_range(ex, st, args, ins):
    b, e = args[1], args[2]
    if not (isinstance(b, PtrV) and isinstance(e, PtrV) and b.obj == e.obj): raise Unsupported('string range')
    n = e.off - b.off
    if n.isconst() and n.c == 0: str_new(ex, st, args[0], 0, z3.K(z3.IntSort(), z3.IntVal(0))); return
    if ex.access(st, b, n, 'r', 'bytes of a string') is None: return []
    c = st.mem[b.obj]
    str_new(ex, st, args[0], n, shifted(c, b.off))
def m_str_move(ex, st, args, ins):
    d, n = str_get(ex, st, args[1])
    str_set(ex, st, args[0], d, n)
    str_new(ex, st, args[1], 0, z3.K(z3.IntSort(), z3.IntVal(0)))
def m_str_assign_move(ex, st, args, ins):
    if args[0].obj == args[1].obj and args[0].off.same(args[1].off): return args[0]
    m_str_move(ex, st, args, ins); return args[0]
def m_str_assign(ex, st, args, ins):
    m_str_copy(ex, st, args, ins); return args[0]
def m_str_dtor(ex, st, args, ins):
    d, n = str_get(ex, st, args[0])
    if not ex.oblige(st, 'uaf', FALSE if d.obj in st.dead else TRUE, 'string destroyed twice'): return []
    kill(st, d.obj)
def m_str_size(ex, st, args, ins): return IntV(64, u=str_get(ex, st, args[0])[1])
def m_str_empty(ex, st, args, ins): return BoolV(eq(str_get(ex, st, args[0])[1], 0))
def m_str_begin(ex, st, args, ins): return str_get(ex, st, args[0])[0]
def m_str_end(ex, st, args, ins):
    d, n = str_get(ex, st, args[0]); return PtrV(d.obj, d.off + n)
def m_str_at(ex, st, args, ins):
    d, n = str_get(ex, st, args[0])
    i = ex.U(st, args[1])
    ex.oblige(st, 'mem', le(i, n), 'string index within the string')
    return PtrV(d.obj, d.off + i)
def str_equal(ex, st, a, na, b, nb):
    """a, b PtrV; -> z3 Bool"""
    if nb.isconst() and not na.isconst(): a, na, b, nb = b, nb, a, na
    if na.isconst() and na.c <= 256:
        cs = [eq(na, nb)]
        lim = na.c
        for k in range(lim): cs.append(byte_at(ex, st, a.obj, a.off + k) == byte_at(ex, st, b.obj, b.off + k))
        return And(cs)
    k = z3.Int('k!s')
    A, B = st.mem[a.obj], st.mem[b.obj]
    fa, fb = shifted(A, a.off), shifted(B, b.off)
    return And(eq(na, nb), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < na.z()), fa(k) == fb(k))))
def cmp_result(ex, st, equal):
    r = ex.fresh_int(st, 32, 'compare')
    st.assume((r.u.z() == 0) == equal)
    return r
def m_str_compare(ex, st, args, ins):
    a, na = str_get(ex, st, args[0]); b, nb = str_get(ex, st, args[1])
    return cmp_result(ex, st, str_equal(ex, st, a, na, b, nb))
def m_str_compare_sub(ex, st, args, ins):
    a, na = str_get(ex, st, args[0]); b, nb = str_get(ex, st, args[3])
    pos, n = ex.U(st, args[1]), ex.U(st, args[2])
    outs = []
    s2 = st.copy(); s2.assume(lt(na, pos))
    if not ex.infeasible(s2): outs.append(Out('throw', s2))
    st.assume(le(pos, na))
    rem = na - pos
    ln = n if ex.prove(st, le(n, rem)) else pmin(n, rem)
    if nb.isconst() and not ln.isconst() and ex.prove(st, eq(ln, nb)): ln = nb
    return outs + [Out('ret', st, cmp_result(ex, st, str_equal(ex, st, PtrV(a.obj, a.off + pos), ln, b, nb)))]
def m_str_compare_lit(ex, st, args, ins):
    a, na = str_get(ex, st, args[0])
    return cmp_result(ex, st, str_equal(ex, st, a, na, args[1], P(literal_len(ex, st, args[1]))))


# ---------------------------------------------------------------- memory
def new_block(ex, st, name, n, where='heap'):
    o = ex.new_arr(st, name, n, where=where)
    o.props['alloc'] = name
    st.g['heap'] = st.g.get('heap', ()) + (o.id,)
    return PtrV(o.id, 0)
def m_malloc(ex, st, args, ins):
    n = ex.U(st, args[0])
    outs = []
    if not getattr(ex, 'no_oom', False):
        s2 = st.copy()
        outs.append(Out('ret', s2, NULL))
    st.assume(lt(n, 1 << 62))
    return [Out('ret', st, new_block(ex, st, 'malloc', n))] + outs
def m_free(ex, st, args, ins):
    p = args[0]
    if isinstance(p, UndefV):
        ex.oblige(st, 'uaf', FALSE, 'an undefined pointer is freed'); return []
    if p.obj is None: return None
    o = ex.objs[p.obj]
    if not ex.oblige(st, 'uaf', FALSE if p.obj in st.dead else TRUE, 'memory freed twice: ' + o.name): return []
    if not ex.oblige(st, 'uaf', And(eq(p.off, 0), TRUE if o.props.get('alloc') == 'malloc' else FALSE), 'free() of memory that malloc returned'): return []
    kill(st, p.obj)
def m_new(ex, st, args, ins):
    n = ex.U(st, args[0]); st.assume(lt(n, 1 << 62))
    return new_block(ex, st, 'new', n)
def m_newarr(ex, st, args, ins):
    n = ex.U(st, args[0]); st.assume(lt(n, 1 << 62))
    return new_block(ex, st, 'new[]', n)
def m_delete(kind):
    def h(ex, st, args, ins):
        p = args[0]
        if p.obj is None: return None
        if not ex.oblige(st, 'uaf', FALSE if p.obj in st.dead else TRUE, 'memory deleted twice'): return []
        if not ex.oblige(st, 'uaf', And(eq(p.off, 0), TRUE if ex.objs[p.obj].props.get('alloc') == kind else FALSE), 'delete matches its new'): return []
        kill(st, p.obj)
    return h
def m_memcpy(ex, st, args, ins):
    d, s, n = args[0], args[1], ex.U(st, args[2])
    if isinstance(d, PtrV) and isinstance(s, PtrV) and d.obj is not None and d.obj == s.obj and not (n.isconst() and n.c == 0) and 'memmove' not in ins.line and ex.objs[d.obj].kind == 'arr':
        ex.oblige(st, 'mem', Or(le(d.off + n, s.off), le(s.off + n, d.off)), 'memcpy of overlapping memory')
    outs = []
    if not n.isconst():
        # nothing happens for size 0
        z = st.copy(); z.assume(eq(n, 0))
        if not ex.infeasible(z):
            if isinstance(d, PtrV) and isinstance(s, PtrV): ex.note_copy(z, d, s, P(0))
            outs.append(Out('ret', z, d))
        st.assume(cmp('>=', n, 1))
        if ex.infeasible(st): return outs
    elif n.c == 0: return d
    if ex.memcpy(st, d, s, n, ins.line.strip() if ins is not None else 'memcpy') is None: return outs
    return outs + [Out('ret', st, d)]
def m_memset(ex, st, args, ins):
    p, v, n = args[0], args[1], ex.U(st, args[2])
    if n.isconst() and n.c == 0: return p
    o = ex.access(st, p, n, 'w', 'memset')
    if o is None: return []
    if o.kind == 'cells' and n.isconst() and p.off.isconst() and v.isconst() and v.u.c == 0:
        m = {q: c for q, c in st.mem[o.id].items() if not (p.off.c <= q < p.off.c + n.c)}
        for q in range(p.off.c, p.off.c + n.c, 8): m[q] = (min(8, p.off.c + n.c - q), IntV(8 * min(8, p.off.c + n.c - q), u=0))
        st.mem[o.id] = m
        return p
    if o.kind == 'arr' and v.isconst() and v.u.c == 0:
        if o.es is None: o.es = 1
        lo = ex.index(st, o, p.off)
        nn = n if o.es == 1 else n.divexact(o.es) if n.divisible(o.es) else None
        if nn is None: raise Unsupported('memset length')
        A = st.mem[o.id]; D = fresh_arr('ms'); k = z3.Int('k')
        st.assume(z3.ForAll([k], z3.Select(D, k) == z3.If(z3.And(k >= lo.z(), k < (lo + nn).z()), 0, z3.Select(A, k)), patterns=[z3.Select(D, k)]))
        st.mem[o.id] = D
        return p
    raise Unsupported('memset')


# ---------------------------------------------------------------- exceptions
def m_exc_alloc(ex, st, args, ins):
    o = ex.new_cells(st, 'exception', 64); return PtrV(o.id, 0)
def m_throw(ex, st, args, ins): return [Out('throw', st, args[0])]
def m_nothing(ex, st, args, ins): return None
def m_lib_throw(ex, st, args, ins): return [Out('throw', st)]
def m_terminate(ex, st, args, ins):
    ex.oblige(st, 'term', FALSE, 'std::terminate is not reached')
    return []


# ---------------------------------------------------------------- std::vector<T>: begin, end, capacity
def vec_es(ex, name_dem):
    m = re.search(r'std::vector<([^<>]+), std::allocator<', name_dem)
    if not m: raise Unsupported('vector of a class type')
    if m.group(1) in TSIZE: return TSIZE[m.group(1)]
    raise Unsupported('vector of ' + m.group(1))
def vec_new(ex, st, p, es, n, content=None):
    o = ex.new_arr(st, 'vector', P(n) * es, es=es, where='heap', content=content if content is not None else z3.K(z3.IntSort(), z3.IntVal(0)))
    o.props['alloc'] = 'vector'; st.g['heap'] = st.g.get('heap', ()) + (o.id,)
    for off, q in ((0, P(0)), (8, P(n) * es), (16, P(n) * es)): setcell(st, p, off, PtrV(o.id, q))
    return o
def vec_size(ex, st, p, es):
    b, e = cell(ex, st, p, 0), cell(ex, st, p, 8)
    if b.obj is None: return P(0)
    d = e.off - b.off
    return d.divexact(es) if d.divisible(es) else P(d.z() / es)
def with_es(f):
    def h(ex, st, args, ins):
        return f(ex, st, args, ins, vec_es(ex, ex.dem.get(ins.a['callee'], '')))
    return h
def m_vec_default(ex, st, args, ins, es=None):
    for off in (0, 8, 16): setcell(st, args[0], off, NULL)
def m_vec_n(ex, st, args, ins, es):
    n = ex.U(st, args[1])
    st.assume(lt(n * es, 1 << 62))
    vec_new(ex, st, args[0], es, n)
def m_vec_nv(ex, st, args, ins, es):
    n = ex.U(st, args[1])
    st.assume(lt(n * es, 1 << 62))
    v = ex.load(st, IntT(8 * es), args[2], 'vector fill value')
    vec_new(ex, st, args[0], es, n, z3.K(z3.IntSort(), ex.raw(st, v, es)))
def m_vec_copy(ex, st, args, ins, es):
    n = vec_size(ex, st, args[1], es); b = cell(ex, st, args[1], 0)
    if b.obj is None: m_vec_default(ex, st, args, ins); return
    vec_new(ex, st, args[0], es, n, st.mem[b.obj])
def m_vec_resize(ex, st, args, ins, es):
    n = ex.U(st, args[1]); b = cell(ex, st, args[0], 0)
    st.assume(lt(n * es, 1 << 62))
    if b.obj is None: vec_new(ex, st, args[0], es, n); return
    old = vec_size(ex, st, args[0], es)
    D = fresh_arr('rs'); k = z3.Int('k')
    st.assume(z3.ForAll([k], z3.Select(D, k) == z3.If(z3.And(k >= 0, k < old.z()), z3.Select(st.mem[b.obj], k), 0), patterns=[z3.Select(D, k)]))
    kill(st, b.obj)
    vec_new(ex, st, args[0], es, n, D)
def m_vec_dtor(ex, st, args, ins, es=None):
    b = cell(ex, st, args[0], 0)
    if isinstance(b, UndefV): ex.oblige(st, 'uaf', FALSE, 'a vector that was never constructed is destroyed'); return []
    if b.obj is None: return
    if not ex.oblige(st, 'uaf', FALSE if b.obj in st.dead else TRUE, 'vector destroyed twice'): return []
    kill(st, b.obj)
def m_vec_assign_copy(ex, st, args, ins, es):
    if args[0].obj == args[1].obj and args[0].off.same(args[1].off): return args[0]
    r = m_vec_dtor(ex, st, args, ins)
    if r == []: return []
    m_vec_copy(ex, st, args, ins, es); return args[0]
def m_vec_assign_move(ex, st, args, ins, es=None):
    if args[0].obj == args[1].obj and args[0].off.same(args[1].off): return args[0]
    r = m_vec_dtor(ex, st, args, ins)
    if r == []: return []
    for off in (0, 8, 16): setcell(st, args[0], off, cell(ex, st, args[1], off)); setcell(st, args[1], off, NULL)
    return args[0]
def m_vec_move(ex, st, args, ins, es=None):
    for off in (0, 8, 16): setcell(st, args[0], off, cell(ex, st, args[1], off)); setcell(st, args[1], off, NULL)


# ---------------------------------------------------------------- files: one ghost file system per state
# st.g['fs'] = (size Poly, content array); st.g['maps'] = ids of live mappings
def fails(ex, st, v):
    """a path on which the library call fails with the given value"""
    s = st.copy(); s.g['libfail'] = True
    return Out('ret', s, v)
def m_fopen(ex, st, args, ins):
    if args[0].obj in st.dead: ex.oblige(st, 'uaf', FALSE, 'file name already destroyed'); return []
    bad = fails(ex, st, NULL)
    mode = literal_mode(ex, st, args[1])
    o = ex.new_cells(st, 'FILE', 16)
    st.mem[o.id] = {0: (8, IntV(64, u=0))}
    if 'w' in mode: st.g['fs'] = (P(0), getattr(ex, 'newfile', None) if getattr(ex, 'newfile', None) is not None else z3.K(z3.IntSort(), z3.IntVal(0)))
    o.props['w'] = 'w' in mode or '+' in mode
    st.g['open'] = st.g.get('open', ()) + (o.id,)
    return [Out('ret', st, PtrV(o.id, 0)), bad]
def literal_mode(ex, st, p):
    """the characters of a mode string"""
    r = ''
    o = ex.objs[p.obj]
    for k in range(4):
        if o.kind == 'cells': raise Unsupported('mode string')
        t = byte_at(ex, st, p.obj, p.off + k)
        c = P(z3.simplify(t))
        if not c.isconst():
            for ch in (0, ord('r'), ord('w'), ord('b'), ord('+'), ord('a')):
                if ex.prove(st, t == ch): c = P(ch); break
            else: raise Unsupported('mode string')
        if c.c == 0: return r
        r += chr(c.c)
    return r
def m_fseeko(ex, st, args, ins):
    bad = fails(ex, st, IntV(32, s=-1))
    off = ex.S(st, args[1]); wh = ex.S(st, args[2])
    size, content = st.g['fs']
    if not wh.isconst(): raise Unsupported('fseeko')
    pos = off if wh.c == 0 else size + off if wh.c == 2 else None
    if pos is None: raise Unsupported('fseeko SEEK_CUR')
    f = args[0]
    if ex.access(st, f, 8, 'w', 'use of a FILE') is None: return [bad]
    b2 = st.copy(); b2.assume(lt(pos, 0))      # a negative position is refused
    st.assume(cmp('>=', pos, 0))
    st.mem[f.obj] = {0: (8, IntV(64, u=pos))}
    return ([Out('ret', st, IntV(32, u=0))] if not ex.infeasible(st) else []) + [bad]
def m_fputc(ex, st, args, ins):
    bad = fails(ex, st, IntV(32, s=-1))
    f = args[1]
    if ex.access(st, f, 8, 'w', 'use of a FILE') is None: return [bad]
    pos = ex.U(st, st.mem[f.obj][0][1]); size, content = st.g['fs']
    c = z3.Store(content, pos.z(), Z(ex.U(st, args[0]))) if not callable(content) else content
    st.g['fs'] = (pmax(size, pos + 1) if not (size.isconst() and size.c == 0) else pos + 1, c)
    st.mem[f.obj] = {0: (8, IntV(64, u=pos + 1))}
    return [Out('ret', st, IntV(32, u=P(ex.U(st, args[0])))), bad]
def m_ftello(ex, st, args, ins):
    f = args[0]
    if ex.access(st, f, 8, 'r', 'use of a FILE') is None: return []
    return [Out('ret', st, st.mem[f.obj][0][1]), fails(ex, st, IntV(64, s=-1))]
def m_fclose(ex, st, args, ins):
    f = args[0]
    if not ex.oblige(st, 'uaf', FALSE if f.obj in st.dead else TRUE, 'a FILE is closed twice'): return []
    bad = st.copy(); bad.g['libfail'] = True
    for s in (st, bad):
        kill(s, f.obj); s.g['open'] = tuple(x for x in s.g.get('open', ()) if x != f.obj)
    return [Out('ret', st, IntV(32, u=0)), Out('ret', bad, IntV(32, s=-1))]
def m_open(ex, st, args, ins):
    if args[0].obj in st.dead: ex.oblige(st, 'uaf', FALSE, 'file name already destroyed'); return []
    bad = fails(ex, st, IntV(32, s=-1))
    r = ex.fresh_int(st, 32, 'fd'); st.assume(r.u.z() < (1 << 31))
    st.g['flags'] = args[1]
    return [Out('ret', st, r), bad]
def m_fdopen(ex, st, args, ins):
    bad = fails(ex, st, NULL)
    o = ex.new_cells(st, 'FILE', 16)
    st.mem[o.id] = {0: (8, IntV(64, u=0))}
    st.g['open'] = st.g.get('open', ()) + (o.id,)
    return [Out('ret', st, PtrV(o.id, 0)), bad]
def m_mmap(ex, st, args, ins):
    n = ex.U(st, args[1]); prot = ex.U(st, args[2]); flags = ex.U(st, args[3])
    mo = ex.globals.get('MAP_FAILED')
    bad = Out('ret', st.copy(), PtrV(None, P(-1))); bad.st.g['libfail'] = True
    size, content = st.g['fs']
    fl = ex.U(st, st.g['flags']) if 'flags' in st.g else None
    z = st.copy(); z.assume(eq(n, 0))             # mmap of nothing fails
    st.assume(cmp('>=', n, 1))
    if ex.infeasible(st): return [bad]
    if not prot.isconst() or not flags.isconst(): raise Unsupported('mmap protection')
    ex.oblige(st, 'pre', TRUE if flags.c & 1 else FALSE, 'the mapping is shared with the file')
    if prot.c & 2: ex.oblige(st, 'pre', TRUE if fl is None or (fl.isconst() and fl.c & 3 == 2) else FALSE, 'a writable mapping needs a writable file')
    o = ex.new_arr(st, 'file', n, es=1, content=content, ro=not (prot.c & 2), where='map')
    ex.oblige(st, 'mem', le(n, size), 'nothing beyond the file is mapped')
    o.props['mapsize'] = n
    st.assume(lt(n, 1 << 62))
    st.g['maps'] = st.g.get('maps', ()) + (o.id,)
    return [Out('ret', st, PtrV(o.id, 0)), bad]
def m_munmap(ex, st, args, ins):
    p = args[0]; n = ex.U(st, args[1])
    if not isinstance(p, PtrV) or p.obj is None:
        ex.oblige(st, 'uaf', FALSE, 'munmap of a mapping'); return []
    if not ex.oblige(st, 'uaf', FALSE if p.obj in st.dead else TRUE, 'a mapping is released twice'): return []
    o = ex.objs[p.obj]
    if not ex.oblige(st, 'uaf', And(TRUE if o.where == 'map' else FALSE, eq(p.off, 0), eq(n, o.size)), 'munmap releases exactly the mapping'): return []
    if not o.ro: st.g['fs'] = (st.g['fs'][0], st.mem[p.obj])        # a shared mapping: the file holds what was stored
    kill(st, p.obj)
    st.g['maps'] = tuple(x for x in st.g.get('maps', ()) if x != p.obj)
    return IntV(32, u=0)
def m_madvise(ex, st, args, ins):
    return [Out('ret', st, IntV(32, u=0)), fails(ex, st, IntV(32, s=-1))]


V_ = r'std::vector<[^<>]+, std::allocator<[^<>]+>>::'
MODELS = [
    (S_ + r'basic_string\(char const\*, std::allocator<char> const&\)$', m_str_lit),
    (S_ + r'basic_string<std::allocator<char>>\(char const\*, std::allocator<char> const&\)$', m_str_lit),
    (S_ + r'basic_string<char const\*, void>\(char const\*, char const\*, std::allocator<char> const&\)$', m_str_range),
    (S_ + r'basic_string\(std::__cxx11::basic_string<[^()]*> const&\)$', m_str_copy),
    (S_ + r'basic_string\(std::__cxx11::basic_string<[^()]*>&&\)$', m_str_move),
    (S_ + r'operator=\(std::__cxx11::basic_string<[^()]*>&&\)$', m_str_assign_move),
    (S_ + r'operator=\(std::__cxx11::basic_string<[^()]*> const&\)$', m_str_assign),
    (S_ + r'~basic_string\(\)$', m_str_dtor),
    (S_ + r'(size|length)\(\) const$', m_str_size),
    (S_ + r'empty\(\) const$', m_str_empty),
    (S_ + r'(begin|cbegin)\(\)( const)?$', m_str_begin), (S_ + r'(c_str|data)\(\)( const)?$', m_str_begin),
    (S_ + r'(end|cend)\(\)( const)?$', m_str_end),
    (S_ + r'operator\[\]\(unsigned long\)( const)?$', m_str_at),
    (S_ + r'compare\(std::__cxx11::basic_string<[^()]*> const&\) const$', m_str_compare),
    (S_ + r'compare\(unsigned long, unsigned long, std::__cxx11::basic_string<[^()]*> const&\) const$', m_str_compare_sub),
    (S_ + r'compare\(char const\*\) const$', m_str_compare_lit),
    (r'^(malloc)$', m_malloc), (r'^(free)$', m_free),
    (r'^operator new\(unsigned long\)$', m_new), (r'^operator new\[\]\(unsigned long\)$', m_newarr),
    (r'^operator delete\(void\*(, unsigned long)?\)$', m_delete('new')), (r'^operator delete\[\]\(void\*(, unsigned long)?\)$', m_delete('new[]')),
    (r'^(llvm\.memcpy|llvm\.memmove|memcpy$|memmove$)', m_memcpy), (r'^(llvm\.memset|memset$)', m_memset),
    (r'^__cxa_allocate_exception$', m_exc_alloc), (r'^__cxa_throw$', m_throw), (r'^__cxa_free_exception$', m_nothing),
    (r'^std::runtime_error::(~)?runtime_error\(', m_nothing), (r'^std::exception::~?exception\(', m_nothing),
    (r'^std::__throw_', m_lib_throw), (r'^std::terminate\(\)$', m_terminate), (r'^__clang_call_terminate$', m_terminate),
    (V_ + r'vector\(\)$', m_vec_default),
    (V_ + r'vector\(unsigned long, std::allocator<[^()]*> const&\)$', with_es(m_vec_n)),
    (V_ + r'vector\(unsigned long, [^()]* const&, std::allocator<[^()]*> const&\)$', with_es(m_vec_nv)),
    (V_ + r'vector\(std::vector<[^()]*> const&\)$', with_es(m_vec_copy)),
    (V_ + r'vector\(std::vector<[^()]*>&&\)$', m_vec_move),
    (V_ + r'resize\(unsigned long\)$', with_es(m_vec_resize)),
    (V_ + r'~vector\(\)$', m_vec_dtor),
    (V_ + r'operator=\(std::vector<[^()]*> const&\)$', with_es(m_vec_assign_copy)),
    (V_ + r'operator=\(std::vector<[^()]*>&&\)$', m_vec_assign_move),
    (r'^std::(__new_)?allocator<', m_nothing),
    (r'^fopen$', m_fopen), (r'^fseeko$', m_fseeko), (r'^fputc$', m_fputc), (r'^ftello$', m_ftello), (r'^fclose$', m_fclose),
    (r'^open$', m_open), (r'^fdopen$', m_fdopen), (r'^mmap$', m_mmap), (r'^munmap$', m_munmap), (r'^madvise$', m_madvise),
]
MODELS = [(re.compile(a), b) for a, b in MODELS]
def install(ex):
    ex.models = list(ex.models) + MODELS
