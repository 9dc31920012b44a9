"""C24: the storage operations on raw pointers, vectors and shared pointers."""
import re, z3
from . import ir
from .term import *
from .core import *
from .exec import *
from . import lib, bin as B
from .lib import cell, setcell, kill

KINDS = ('ptr', 'vec', 'sptr')
TYPES = dict(u8=1, i8=1, u16=2, i16=2, u32=4, i32=4, u64=8, i64=8, f=4, d=8)


# ---------------------------------------------------------------- library models
def m_umul(ex, st, args, ins):
    """llvm.umul.with.overflow"""
    w = args[0].bits
    p = ex.U(st, args[0]) * ex.U(st, args[1])
    s2 = st.copy(); st.assume(lt(p, 1 << w)); s2.assume(cmp('>=', p, 1 << w))
    outs = []
    for s, v in ((st, IntV(w, u=p)), (s2, None)):
        if ex.infeasible(s): continue
        outs.append(Out('ret', s, AggV([v if v is not None else ex.fresh_int(s, w, 'wrapped'), BoolV(z3.BoolVal(v is None))])))
    return outs
def m_vec_at(ex, st, args, ins, es):
    b = cell(ex, st, args[0], 0); n = lib.vec_size(ex, st, args[0], es); i = ex.U(st, args[1])
    if not ex.oblige(st, 'mem', lt(i, n), 'vector index within the vector'): return []
    return PtrV(b.obj, b.off + i * es)
def m_vec_data(ex, st, args, ins): return cell(ex, st, args[0], 0)
# std::shared_ptr<T> of an array: the address at 0, the control block at 8; a control block is a ghost object
# (object owned, how it is deleted); the number of owners of each control block is in the state
def ctrl(ex, st, p):
    c = cell(ex, st, p, 8)
    return None if c.obj is None else c.obj
def release(ex, st, c):
    """one owner less"""
    if c is None: return True
    own = dict(st.g.get('owners', {})); n = own[c] - 1; own[c] = n; st.g['owners'] = own
    if n: return True
    obj, how = ex.objs[c].props['owns']
    if not ex.oblige(st, 'uaf', FALSE if obj in st.dead else TRUE, 'shared memory freed twice'): return False
    if not ex.oblige(st, 'uaf', TRUE if ex.objs[obj].props.get('alloc') == how else FALSE, 'the deleter of a shared pointer matches the allocation'): return False
    kill(st, obj); return True
def sptr_new(ex, st, p, q, how):
    c = ex.new_cells(st, 'control', 16); c.props['owns'] = (q.obj, how)
    st.g['owners'] = {**st.g.get('owners', {}), c.id: 1}
    setcell(st, p, 0, q); setcell(st, p, 8, PtrV(c.id, 0))
def m_sptr_array(ex, st, args, ins): sptr_new(ex, st, args[0], args[1], 'new[]')
def m_sptr_single(ex, st, args, ins): sptr_new(ex, st, args[0], args[1], 'new')
def m_sptr_dtor(ex, st, args, ins):
    if not release(ex, st, ctrl(ex, st, args[0])): return []
    setcell(st, args[0], 0, NULL); setcell(st, args[0], 8, NULL)
def m_sptr_move_assign(ex, st, args, ins):
    if args[0].obj == args[1].obj and args[0].off.same(args[1].off): return args[0]
    old = ctrl(ex, st, args[0])
    for off in (0, 8): setcell(st, args[0], off, cell(ex, st, args[1], off))
    for off in (0, 8): setcell(st, args[1], off, NULL)
    if not release(ex, st, old): return []
    return args[0]
def m_sptr_copy(ex, st, args, ins):
    c = ctrl(ex, st, args[1])
    if c is not None: own = dict(st.g['owners']); own[c] += 1; st.g['owners'] = own
    for off in (0, 8): setcell(st, args[0], off, cell(ex, st, args[1], off))
def m_sptr_assign(ex, st, args, ins):
    if args[0].obj == args[1].obj and args[0].off.same(args[1].off): return args[0]
    old = ctrl(ex, st, args[0])
    m_sptr_copy(ex, st, args, ins)
    if not release(ex, st, old): return []
    return args[0]
def m_sptr_default(ex, st, args, ins):
    for off in (0, 8): setcell(st, args[0], off, NULL)
def m_sptr_get(ex, st, args, ins): return cell(ex, st, args[0], 0)
P_ = r'std::shared_ptr<[^<>]+>::'
Q_ = r'std::__shared_ptr<[^<>]+, \(__gnu_cxx::_Lock_policy\)2>::'
MODELS = [(re.compile(a), b) for a, b in [
    (r'^llvm\.umul\.with\.overflow\.i64$', m_umul),
    (lib.V_ + r'operator\[\]\(unsigned long\)( const)?$', lib.with_es(m_vec_at)), (lib.V_ + r'data\(\)( const)?$', m_vec_data),
    (P_ + r'shared_ptr<[^<>]+, std::default_delete<[^<>]+ \[\]>, void>\(', m_sptr_array),
    (P_ + r'shared_ptr<[^<>]+, void>\([^&]*\*\)$', m_sptr_single),
    (P_ + r'~shared_ptr\(\)$', m_sptr_dtor), (P_ + r'shared_ptr\(\)$', m_sptr_default),
    (P_ + r'operator=\(std::shared_ptr<[^<>]+>&&\)$', m_sptr_move_assign), (P_ + r'operator=\(std::shared_ptr<[^<>]+> const&\)$', m_sptr_assign),
    (P_ + r'shared_ptr\(std::shared_ptr<[^<>]+> const&\)$', m_sptr_copy),
    (Q_ + r'get\(\) const$', m_sptr_get),
]]
def setup(ex):
    B.setup(ex); ex.no_oom = False
    ex.models = MODELS + list(ex.models)


# ---------------------------------------------------------------- the storage as the specification sees it
def fresh_storage(ex, kind, es, owners=1, how=None):
    """a state with storage of n elements -> (state, storage object, array object, n)"""
    st = St(); n = P(z3.Int('n'))
    st.assume(And(cmp('>=', n, 0), lt(n * es, 1 << 62)))
    s = ex.new_cells(st, 'storage', dict(ptr=8, vec=24, sptr=16)[kind])
    a = ex.new_arr(st, 'elements', n * es, es=es, where='heap')
    a.props['alloc'] = dict(ptr='malloc', vec='vector', sptr='new[]')[kind]
    if kind == 'ptr': st.mem[s.id] = {0: (8, PtrV(a.id, 0))}
    elif kind == 'vec': st.mem[s.id] = {0: (8, PtrV(a.id, 0)), 8: (8, PtrV(a.id, n * es)), 16: (8, PtrV(a.id, n * es))}
    else:
        sptr_new(ex, st, PtrV(s.id, 0), PtrV(a.id, 0), 'new[]')
        c = st.mem[s.id][8][1].obj; st.g['owners'] = {c: owners}
    return st, s, a, n
def empty_storage(ex, kind):
    st = St()
    s = ex.new_cells(st, 'storage', dict(ptr=8, vec=24, sptr=16)[kind])
    st.mem[s.id] = {0: (8, UndefV(ir.PTR))} if kind == 'ptr' else {q: (8, NULL) for q in ((0, 8, 16) if kind == 'vec' else (0, 8))}
    return st, s


def verify_storage(ex, kind, t):
    setup(ex)
    es = TYPES[t]; nm = '%s_%s' % (kind, t)
    F = {f: B.fn(ex, '%s_%s' % (nm, f)) for f in ('alloc', 'noalloc', 'set', 'get', 'ref', 'raw', 'craw', 'free', 'nofree')}
    vt = ex.mod.funcs[F['set']].params[2][0]
    def run(st, f, *args):
        ex.callstack.append(Frame(ex.mod.funcs[F[f]], ''))
        try: return ex.inline(st, F[f], list(args))
        finally: ex.callstack.pop()
    def ob(st, kind_, goal, what): ex.obs.append(Obligation(kind_, F[cur[0]], nm + ': ' + what, *check(st, goal)))
    def check(st, goal):
        if z3.is_true(goal): return (True, None)
        ok = ex.solver.prove(st.path, goal, timeout=8000, hard=True)
        return (ok, None if ok else ex.solver.model)
    cur = ['alloc']
    def rets(st, outs, what):
        r = [o for o in outs if o.kind == 'ret']
        ob(st, 'vacuity', TRUE if r else FALSE, what + ' returns on some path')
        return r
    T_ = lambda b: TRUE if b else FALSE

    # allocate: room for exactly k elements; what was held before is released as the kind of storage says
    for had in ('nothing', 'elements', 'shared elements'):
        if had == 'shared elements' and kind != 'sptr': continue
        if had == 'elements' and kind == 'ptr': continue
        if had == 'nothing': st, s = empty_storage(ex, kind); a = None
        else: st, s, a, n = fresh_storage(ex, kind, es, 2 if had == 'shared elements' else 1)
        k = P(z3.Int('k')); st.assume(And(cmp('>=', k, 0), lt(k, 1 << 64)))
        before = st.mem[a.id] if a is not None else None
        outs = run(st, 'alloc', PtrV(s.id, 0), IntV(64, u=k))
        for o in rets(st, outs, 'allocating'):
            x = o.st; b = x.mem[s.id][0][1]
            if kind == 'vec':
                e = x.mem[s.id][8][1]
                ob(x, 'post', eq(e.off - b.off, k * es) if b.obj is not None else eq(k, 0), 'the vector has exactly k elements')
            if b.obj is None: ob(x, 'post', T_(kind == 'vec'), 'storage is allocated'); continue
            oj = ex.objs[b.obj]
            ob(x, 'post', And(eq(b.off, 0), eq(oj.size, k * es)), 'room for exactly k elements of the type')
            ob(x, 'post', T_(b.obj not in x.dead), 'the elements are alive')
            ob(x, 'post', T_(oj.props.get('alloc') == dict(ptr='malloc', vec='vector', sptr='new[]')[kind]), 'storage is allocated the way it is freed')
            if kind == 'sptr':
                c = x.mem[s.id][8][1]
                ob(x, 'post', T_(c.obj is not None and ex.objs[c.obj].props['owns'] == (b.obj, 'new[]') and x.g['owners'][c.obj] == 1), 'the shared pointer is the only owner of its elements')
                if a is not None: ob(x, 'post', T_((a.id in x.dead) == (had == 'elements')), 'elements held before live on exactly if someone else owns them')
            if kind == 'vec' and a is not None:
                q = z3.Int('q!'); x2 = x.copy()
                ob(x2, 'post', z3.Implies(z3.And(q >= 0, q < n.z(), q < k.z()), z3.Select(x2.mem[b.obj], q) == z3.Select(before, q)), 'elements already in the vector stay')
        for o in outs:
            if o.kind == 'throw' and kind == 'ptr': ob(o.st, 'frame', T_(not o.st.g.get('heap')), 'nothing is leaked when allocating fails')

    # neither allocated nor freed: nothing changes
    for f in ('noalloc', 'nofree') + (('free',) if kind != 'ptr' else ()):
        cur[0] = f
        for had in (True, False):
            if had: st, s, a, n = fresh_storage(ex, kind, es)
            else: st, s = empty_storage(ex, kind)
            m0, d0, h0, g0 = dict(st.mem), st.dead, st.g.get('heap', ()), st.g.get('owners')
            args = [IntV(64, u=P(z3.Int('k')))] if f == 'noalloc' else []
            if args: st.assume(And(cmp('>=', P(z3.Int('k')), 0), lt(P(z3.Int('k')), 1 << 64)))
            outs = run(st, f, PtrV(s.id, 0), *args)
            rets(st, outs, f)
            for o in outs:
                ob(o.st, 'post', T_(o.kind == 'ret'), f + ' does not throw')
                ob(o.st, 'frame', T_(all(o.st.mem[i] is m or o.st.mem[i] == m for i, m in m0.items()) and o.st.dead == d0 and o.st.g.get('heap', ()) == h0 and o.st.g.get('owners') == g0), f + ' leaves the storage as it is')
    if kind == 'ptr':
        cur[0] = 'free'
        st, s, a, n = fresh_storage(ex, kind, es)
        outs = run(st, 'free', PtrV(s.id, 0))
        for o in rets(st, outs, 'free'): ob(o.st, 'post', T_(a.id in o.st.dead), 'free releases raw storage')

    # elements
    i, j = P(z3.Int('i')), P(z3.Int('j'))
    def at(f, idx):
        st, s, a, n = fresh_storage(ex, kind, es)
        if idx is not None: st.assume(And(cmp('>=', idx, 0), lt(idx, n)))
        ex.obs.append(Obligation('vacuity', F[f], nm + ': the precondition is satisfiable', ex.solver.check(st.path, [], 3000) != z3.unsat))
        cur[0] = f
        return st, s, a, n
    for f in ('raw', 'craw'):
        st, s, a, n = at(f, None); m0 = dict(st.mem)
        for o in rets(st, run(st, f, PtrV(s.id, 0)), f):
            ob(o.st, 'post', And(T_(o.val.obj == a.id), eq(o.val.off, 0)), 'the raw data address is the address of element 0')
            ob(o.st, 'frame', T_(all(o.st.mem[q] is m for q, m in m0.items())), f + ' changes nothing')
    st, s, a, n = at('ref', i); m0 = dict(st.mem)
    for o in rets(st, run(st, 'ref', PtrV(s.id, 0), IntV(64, u=i)), 'ref'):
        ob(o.st, 'post', And(T_(o.val.obj == a.id), eq(o.val.off, i * es)), 'a reference to element i is its address')
        ob(o.st, 'frame', T_(all(o.st.mem[q] is m for q, m in m0.items())), 'a reference changes nothing')
    st, s, a, n = at('get', i); m0 = dict(st.mem)
    for o in rets(st, run(st, 'get', PtrV(s.id, 0), IntV(64, u=i)), 'get'):
        ob(o.st, 'post', ex.raw(o.st, o.val, es) == z3.Select(m0[a.id], i.z()), 'get returns element i')
        ob(o.st, 'frame', T_(all(o.st.mem[q] is m for q, m in m0.items())), 'get changes nothing')
    st, s, a, n = at('set', i); m0 = dict(st.mem)
    st.assume(And(cmp('>=', j, 0), lt(j, n)))
    v = ex.fresh_val(st, vt, 'v'); vz = ex.raw(st, v, es)
    for o in rets(st, run(st, 'set', PtrV(s.id, 0), IntV(64, u=i), v), 'set'):
        x = o.st; q = z3.Int('q!')
        ob(x, 'post', z3.Select(x.mem[a.id], i.z()) == vz, 'set stores the value in element i')
        ob(x, 'frame', z3.Implies(q != i.z(), z3.Select(x.mem[a.id], q) == z3.Select(m0[a.id], q)), 'set leaves every other element')
        ob(x, 'frame', T_(x.mem[s.id] == m0[s.id] and x.dead == frozenset() or x.mem[s.id] == m0[s.id] and not x.dead), 'set leaves the storage object')
        for p in rets(x, run(x.copy(), 'get', PtrV(s.id, 0), IntV(64, u=j)), 'get'):
            r = ex.raw(p.st, p.val, es)
            ob(p.st, 'post', r == z3.If(i.z() == j.z(), vz, z3.Select(m0[a.id], j.z())), 'what is set is what is read back, and elsewhere what was there')
    return ex.obs
