"""Models of std::sort and of vectors of pairs (assumptions about the library, listed in the evidence)."""
import re, z3
from .term import *
from .core import *
from .exec import *
from . import lib
from .lib import cell, setcell, kill, TSIZE

PV_ = r'std::vector<std::pair<[^<>]+, [^<>]+>, std::allocator<std::pair<[^<>]+, [^<>]+>>>::'
def unit(ex, ins):
    """a pair of two numbers takes two units of the larger one's size"""
    m = re.search(r'std::vector<std::pair<([^<>,]+), ([^<>,]+)>', ex.dem.get(ins.a['callee'], ''))
    a, b = TSIZE.get(m.group(1)), TSIZE.get(m.group(2))
    if not a or not b: raise Unsupported('vector of ' + m.group(0))
    return max(a, b), a, b, m.group(1) in ('float', 'double'), m.group(2) in ('float', 'double'), m
def m_reserve(ex, st, args, ins):
    u = unit(ex, ins)[0]; n = ex.U(st, args[1])
    b = cell(ex, st, args[0], 0)
    if b.obj is not None: raise Unsupported('a vector that is not empty is enlarged')
    if not ex.oblige(st, 'pre', lt(n * (2 * u), 1 << 62), 'the vector is not larger than a vector can be'): return []
    o = lib.vec_new(ex, st, args[0], u, n * 2, z3.Const('room!%d' % fresh_id(), z3.ArraySort(z3.IntSort(), z3.IntSort())))
    o.props['pairs'] = True
    setcell(st, args[0], 8, PtrV(o.id, 0))
    ex.assumed.add('std::vector::reserve makes room for the elements (or throws, and the run ends)')
def m_append(ex, st, args, ins):
    u, sa, sb, fa, fb, m = unit(ex, ins)
    b, e, c = (cell(ex, st, args[0], k) for k in (0, 8, 16))
    if b.obj is None: raise Unsupported('a vector grows')
    ex.note_cmp(e.off, c.off)
    if ex.search: st.assume(lt(e.off, c.off))      # proved when the invariant is
    elif not ex.prove(st, lt(e.off, c.off)): raise Unsupported('a vector grows')
    from . import ir
    ty = lambda s, f, name: (ir.FloatT(name) if f else ir.INT(8 * s))
    names = [m.group(1), m.group(2)]
    for k, (s, f) in enumerate(((sa, fa), (sb, fb))):
        v = ex.load(st, ty(s, f, names[k]), PtrV(args[1].obj, args[1].off + (k * u)), 'the pair added to a vector')
        if v is None: return []
        if ex.store(st, ty(s, f, names[k]), PtrV(e.obj, e.off + k * u), v, 'adding to a vector') is None: return []
    setcell(st, args[0], 8, PtrV(e.obj, e.off + 2 * u))
def m_sort(ex, st, args, ins):
    """[first, last) becomes a non-decreasing permutation of itself (pairs: ordered by their first, then their second member)"""
    f, l = args[0], args[1]
    if not (isinstance(f, PtrV) and isinstance(l, PtrV)): raise Unsupported('sort of an unknown range')
    if f.obj is None and l.obj is None: return None
    if f.obj != l.obj: ex.oblige(st, 'pre', FALSE, 'std::sort gets a range of one array'); return []
    n = l.off - f.off
    o = ex.objs[f.obj]
    dem = ex.dem.get(ins.a['callee'], '')
    signed = re.match(r'^void std::(stable_)?sort<(signed char|short|int|long|float|double|char)\*>', dem)
    if signed: raise Unsupported('sort of signed or floating-point numbers')
    if not ex.oblige(st, 'pre', cmp('>=', n, 0), 'std::sort gets a range that does not end before it starts'): return []
    for rw in 'rw':
        if ex.access(st, f, n, rw, 'std::sort') is None: return []
    if o.kind != 'arr' or o.es is None: raise Unsupported('sort of ' + o.name)
    stride = 2 if o.props.get('pairs') else 1
    es = o.es
    if not (f.off.divisible(es * stride) or stride == 2 and f.off.divisible(es)) or not n.divisible(es * stride): raise Unsupported('sort of a part of elements')
    lo, cells = f.off.divexact(es), n.divexact(es); cnt = n.divexact(es * stride)
    A = st.mem[o.id]; D = fresh_arr('sorted'); pi, inv = fresh_arr('perm'), fresh_arr('perm')
    k, j = z3.Int('k!s'), z3.Int('j!s')
    S = lambda X, t: X(P(t).z()) if callable(X) else z3.Select(X, P(t).z())
    st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < cnt.z()), z3.And(0 <= z3.Select(pi, k), z3.Select(pi, k) < cnt.z(), z3.Select(inv, z3.Select(pi, k)) == k)), patterns=[z3.Select(pi, k)]))
    st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < cnt.z()), z3.And(0 <= z3.Select(inv, k), z3.Select(inv, k) < cnt.z(), z3.Select(pi, z3.Select(inv, k)) == k)), patterns=[z3.Select(inv, k)]))
    q = P(k) - lo
    src = lo.z() + z3.Select(pi, q.z()) if stride == 1 else lo.z() + 2 * z3.Select(pi, q.z() / 2) + q.z() % 2
    inside = z3.And(lo.z() <= k, k < (lo + cells).z())
    st.assume(z3.ForAll([k], z3.Select(D, k) == z3.If(inside, S(A, src), S(A, k)), patterns=[z3.Select(D, k)]))
    ev = [] if stride == 1 else [(j - lo.z()) % 2 == 0, (k - lo.z()) % 2 == 0]
    st.assume(z3.ForAll([j, k], z3.Implies(z3.And(lo.z() <= j, j <= k, k < (lo + cells).z(), *ev), z3.Select(D, j) <= z3.Select(D, k)), patterns=[z3.MultiPattern(z3.Select(D, j), z3.Select(D, k))]))
    st.mem[o.id] = D
    st.g['sorts'] = st.g.get('sorts', ()) + ((o.id, lo, cnt, pi, inv),)
    ex.assumed.add('std::sort leaves a non-decreasing permutation of its range' + (' of pairs (weights that are numbers, not NaN)' if stride == 2 else ''))
MODELS = [(re.compile(a), b) for a, b in [
    (PV_ + r'vector\(\)$', lib.m_vec_default), (PV_ + r'~vector\(\)$', lib.m_vec_dtor), (PV_ + r'reserve\(unsigned long\)$', m_reserve),
    (PV_ + r'emplace_back<', m_append), (PV_ + r'push_back\(', m_append),
    (r'^void std::(stable_)?sort<[^,]*\*>\([^,]*, [^,]*\)$', m_sort),
    (r'^void std::(stable_)?sort<__gnu_cxx::__normal_iterator<[^()]*>>\(__gnu_cxx::__normal_iterator<[^()]*>, __gnu_cxx::__normal_iterator<[^()]*>\)$', m_sort),
]]
def setup(ex): ex.models = MODELS + list(ex.models)
