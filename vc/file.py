"""C23 and C26: the File class: class invariant, contracts of every member, detection of the file type.

Invariant of a File: it holds nothing (null), or it is the only owner of a live mapping of exactly size() bytes and
0 <= position <= size()."""
import z3
from .term import *
from .core import *
from .exec import *
from . import lib
from .bin import fn, setup, one, size_of, strval, sel, note
from .contracts import find

LITS = ('PIGO-COO-v1', 'PIGO-CSR-v2', 'PIGO-DiGraph-v1', 'PIGO-Tensor-2')


class F:
    """one File object in a state"""
    def __init__(self, obj, map_, size, name, content): self.obj, self.map, self.size, self.name, self.content = obj, map_, size, name, content


def call(ex, st, name, *a): return ex.inline(st, fn(ex, name), list(a))
def ask(ex, st, name, o): return one(call(ex, st.copy(), name, PtrV(o.id)), name).val


def opened(ex, st, mode='r', tag=''):
    """-> [(state, F)]: a File opened by its constructor, then at an arbitrary position"""
    size = P(z3.Int('size' + tag)); st.assume(And(cmp('>=', size, 1), lt(size, 1 << 58)))
    s = strval(ex, st, 'name' + tag)
    o = ex.new_cells(st, 'File' + tag, size_of(ex, 'f_sz'))
    if mode == 'r':
        st.g['fs'] = (size, fresh_arr('content' + tag))
        outs = call(ex, st, 'f_ropen', PtrV(o.id), PtrV(s.id))
    else:
        st.g['fs'] = (P(z3.Int('old_size')), fresh_arr('old'))
        outs = call(ex, st, 'f_wopen', PtrV(o.id), PtrV(s.id), IntV(64, u=size))
    res = []
    for x in outs:
        if x.kind != 'ret': continue
        m = ex.objs[x.st.g['maps'][-1]]
        # an arbitrary position: the member seek() changes
        p = P(z3.Int('pos' + tag)); x.st.assume(And(cmp('>=', p, 0), le(p, m.size)))
        b = x.st.copy(); q = P(z3.Int('q!' + tag)); b.assume(And(cmp('>=', q, 0), lt(q, m.size)))
        ex.search += 1
        try: k = one(call(ex, b, 'f_seek', PtrV(o.id), IntV(64, u=q)), 'seek').st
        finally: ex.search -= 1
        ch = [c for c in k.mem[o.id] if k.mem[o.id][c][1] is not x.st.mem[o.id].get(c, (0, None))[1]]
        if len(ch) != 1 or not isinstance(k.mem[o.id][ch[0]][1], PtrV): raise Unsupported('seek changes more than the position')
        x.st.mem[o.id] = {**x.st.mem[o.id], ch[0]: (8, PtrV(m.id, p))}
        f = F(o, m, m.size, x.st.mem[s.id], x.st.mem[m.id]); f.pos = p; f.s = s
        res.append((x.st, f))
    if not res: ex.obs.append(Obligation('vacuity', '', 'a file is opened', False))
    return res


def state(ex, st, f):
    """(mapping or None, position, size, left) as the accessors report them"""
    p, n, l = ask(ex, st, 'f_fp', f.obj), ex.U(st, ask(ex, st, 'f_size', f.obj)), ex.U(st, ask(ex, st, 'f_left', f.obj))
    return p, n, l
def at(ex, st, f, obj, pos, what, kind='post'):
    """f's observable state: position pos in mapping obj"""
    p, n, l = state(ex, st, f)
    if obj is None:
        return ex.oblige(st, kind, And(TRUE if p.obj is None else FALSE, eq(n, 0), eq(l, 0)), what)
    return ex.oblige(st, kind, And(TRUE if p.obj == obj.id and obj.id not in st.dead else FALSE, eq(p.off, pos), eq(n, obj.size), eq(l, obj.size - pos)), what)
def name_is(ex, st, f, content, n, what):
    """the stored name: found by detection depending on it; compared through the string object inside"""
    cells = st.mem[f.obj.id]
    strs = [c for c in cells if isinstance(cells[c][1], PtrV) and cells[c][1].obj is not None and ex.objs[cells[c][1].obj].name.startswith('str#')]
    if len(strs) != 1: raise Unsupported('the name of a File')
    d, m = lib.str_get(ex, st, PtrV(f.obj.id, strs[0]))
    k = z3.Int('k!n')
    ex.oblige(st, 'uaf', FALSE if d.obj in st.dead else TRUE, what + ' (its memory is live)')
    y = st.copy()
    ex.oblige(y, 'post', And(eq(m, n), z3.Implies(z3.And(k >= 0, k < n.z()), sel(st.mem[d.obj], (d.off + k).z()) == sel(content, k))), what)
def closed(ex, st, fs, what):
    """destroy the objects in order: afterwards no mapping is left; a second release would be its own failed obligation"""
    for f in fs:
        o = one(call(ex, st, 'f_close', PtrV(f.obj.id)), 'destructor'); st = o.st
    ex.oblige(st, 'post', TRUE if not st.g.get('maps') else FALSE, what)
def throws_why(ex, x, cond, what):
    """an exception needs a failed library call or the condition"""
    ex.oblige(x.st, 'post', TRUE if x.st.g.get('libfail') else cond, what)


def begin(ex, name):
    setup(ex); note(ex, name); return St()


def verify_open_read(ex):
    st = begin(ex, 'f_open_r')
    size, arg = P(z3.Int('size')), P(z3.Int('max_size'))
    st.assume(And(cmp('>=', size, 0), lt(size, 1 << 58), cmp('>=', arg, 0), lt(arg, 1 << 64)))
    C = fresh_arr('content'); st.g['fs'] = (size, C)
    s = strval(ex, st); d, n = lib.str_get(ex, st, PtrV(s.id)); c0 = st.mem[d.obj]
    o = ex.new_cells(st, 'File', size_of(ex, 'f_sz')); f = F(o, None, None, None, None)
    nret = 0
    for x in call(ex, st, 'f_open_r', PtrV(o.id), PtrV(s.id), IntV(64, u=arg)):
        fs = x.st.g['fs']
        ex.oblige(x.st, 'frame', TRUE if fs[0] is size and fs[1] is C else FALSE, 'opening a file for reading does not change it')
        if x.kind != 'ret':
            throws_why(ex, x, Or(cmp('>=', arg, 1), eq(size, 0)), 'opening for reading is refused only for a size argument, an empty file or a failed system call'); continue
        nret += 1
        ex.oblige(x.st, 'post', eq(arg, 0), 'a size given when opening for reading is refused')
        ex.oblige(x.st, 'post', TRUE if len(x.st.g.get('maps', ())) == 1 else FALSE, 'opening makes exactly one mapping')
        m = ex.objs[x.st.g['maps'][-1]]
        ex.oblige(x.st, 'post', eq(m.size, size), 'the readable range has exactly the size of the file')
        at(ex, x.st, f, m, P(0), 'a newly opened file is positioned at its start, with all of it left')
        k = z3.Int('k!any'); y = x.st.copy()
        ex.oblige(y, 'post', z3.Implies(z3.And(k >= 0, k < size.z()), z3.Select(x.st.mem[m.id], k) == z3.Select(C, k)), 'the readable range holds the bytes of the file')
        ex.oblige(x.st, 'post', TRUE if not x.st.g.get('open') else FALSE, 'no file handle is left open')
        name_is(ex, x.st, f, c0, n, 'the File has the given name')
        closed(ex, x.st, [f], 'closing releases the mapping')
    if not nret: ex.obs.append(Obligation('vacuity', '', 'some file is opened', False))
    return ex.obs


def verify_open_write(ex):
    st = begin(ex, 'f_open_w')
    size, arg = P(z3.Int('old_size')), P(z3.Int('max_size'))
    st.assume(And(cmp('>=', size, 0), lt(size, 1 << 58), cmp('>=', arg, 0), lt(arg, 1 << 60)))
    C = fresh_arr('content'); st.g['fs'] = (size, C)
    s = strval(ex, st); d, n = lib.str_get(ex, st, PtrV(s.id)); c0 = st.mem[d.obj]
    o = ex.new_cells(st, 'File', size_of(ex, 'f_sz')); f = F(o, None, None, None, None)
    nret = 0
    for x in call(ex, st, 'f_open_w', PtrV(o.id), PtrV(s.id), IntV(64, u=arg)):
        fs = x.st.g['fs']
        if x.kind != 'ret':
            throws_why(ex, x, eq(arg, 0), 'opening for writing is refused only for the size 0 or a failed system call')
            y = x.st.copy(); y.assume(eq(arg, 0))
            if not ex.infeasible(y): ex.oblige(y, 'frame', TRUE if fs[0] is size and fs[1] is C else FALSE, 'a refused request to write does not touch the file')
            continue
        nret += 1
        ex.oblige(x.st, 'post', cmp('>=', arg, 1), 'opening for writing without a size is refused')
        ex.oblige(x.st, 'post', eq(fs[0], arg), 'opening for writing creates a file of exactly the requested size')
        ex.oblige(x.st, 'post', TRUE if len(x.st.g.get('maps', ())) == 1 else FALSE, 'opening makes exactly one mapping')
        m = ex.objs[x.st.g['maps'][-1]]
        ex.oblige(x.st, 'post', And(eq(m.size, arg), FALSE if m.ro else TRUE), 'the writable range has exactly the requested size')
        at(ex, x.st, f, m, P(0), 'a newly opened file is positioned at its start, with all of it left')
        ex.oblige(x.st, 'post', TRUE if not x.st.g.get('open') else FALSE, 'no file handle is left open')
        name_is(ex, x.st, f, c0, n, 'the File has the given name')
        # what is stored in the range is in the file afterwards
        i, v = P(z3.Int('i!w')), P(z3.Int('v!w'))
        y = x.st.copy(); y.assume(And(cmp('>=', i, 0), lt(i, arg)))
        y.mem[m.id] = z3.Store(y.mem[m.id], i.z(), v.z())
        z = one(call(ex, y, 'f_close', PtrV(o.id)), 'destructor').st
        ex.oblige(z, 'post', z3.Select(z.g['fs'][1], i.z()) == v.z(), 'what is written to the range is in the file')
        closed(ex, x.st, [f], 'closing releases the mapping')
    if not nret: ex.obs.append(Obligation('vacuity', '', 'some file is opened', False))
    return ex.obs


def verify_seek(ex):
    st = begin(ex, 'f_seek')
    t = P(z3.Int('target')); st.assume(And(cmp('>=', t, 0), lt(t, 1 << 64)))
    nret = 0
    for s, f in opened(ex, st):
        for x in call(ex, s, 'f_seek', PtrV(f.obj.id), IntV(64, u=t)):
            if x.kind == 'ret':
                nret += 1
                ex.oblige(x.st, 'post', lt(t, f.size), 'seeking at or beyond the end is refused')
                at(ex, x.st, f, f.map, t, 'seeking moves to exactly the given position')
            else:
                ex.oblige(x.st, 'post', cmp('>=', t, f.size), 'seeking inside the file is accepted')
                at(ex, x.st, f, f.map, f.pos, 'a refused seek does not move the position')
            closed(ex, x.st, [f], 'the mapping is released exactly once')
    if not nret: ex.obs.append(Obligation('vacuity', '', 'some seek succeeds', False))
    return ex.obs


def verify_read(ex, bits):
    st = begin(ex, 'f_read%d' % bits); nb = bits // 8
    nret = 0
    for s, f in opened(ex, st):
        for x in call(ex, s, 'f_read%d' % bits, PtrV(f.obj.id)):
            if x.kind == 'ret':
                nret += 1
                ex.oblige(x.st, 'post', le(f.pos + nb, f.size), 'a value is read only where all of it is left')
                bs = [lib.byte_at(ex, x.st, f.map.id, f.pos + k) for k in range(nb)]
                ex.oblige(x.st, 'post', ex.U(x.st, x.val).z() == z3.Sum([b * 256 ** k for k, b in enumerate(bs)]), 'the value is made of the bytes at the position')
                at(ex, x.st, f, f.map, f.pos + nb, 'reading advances by exactly the size of the value')
            else:
                ex.oblige(x.st, 'post', lt(f.size - f.pos, nb), 'a value that is completely in the file is read')
                at(ex, x.st, f, f.map, f.pos, 'a refused read does not move the position')
            ex.oblige(x.st, 'frame', TRUE if x.st.mem[f.map.id] is f.content else FALSE, 'reading does not change the file')
    if not nret: ex.obs.append(Obligation('vacuity', '', 'some read succeeds', False))
    return ex.obs


def verify_write(ex, bits):
    st = begin(ex, 'f_write%d' % bits); nb = bits // 8
    nret = 0
    for s, f in opened(ex, st, 'w'):
        v = ex.fresh_int(s, bits, 'v')
        for x in call(ex, s, 'f_write%d' % bits, PtrV(f.obj.id), v):
            C = x.st.mem[f.map.id]; k = z3.Int('k!any')
            if x.kind == 'ret':
                nret += 1
                ex.oblige(x.st, 'post', le(f.pos + nb, f.size), 'a value is written only where there is room for all of it')
                bs = [lib.byte_at(ex, x.st, f.map.id, f.pos + i) for i in range(nb)]
                ex.oblige(x.st, 'post', v.u.z() == z3.Sum([b * 256 ** i for i, b in enumerate(bs)]), 'the bytes of the value are at the position')
                at(ex, x.st, f, f.map, f.pos + nb, 'writing advances by exactly the size of the value')
                y = x.st.copy()
                ex.oblige(y, 'frame', z3.Implies(z3.Or(k < f.pos.z(), k >= (f.pos + nb).z()), z3.Select(C, k) == z3.Select(f.content, k)), 'nothing else is written')
            else:
                ex.oblige(x.st, 'post', lt(f.size - f.pos, nb), 'a value there is room for is written')
                at(ex, x.st, f, f.map, f.pos, 'a refused write does not move the position')
                ex.oblige(x.st, 'frame', TRUE if C is f.content else FALSE, 'a refused write changes nothing')
    if not nret: ex.obs.append(Obligation('vacuity', '', 'some write succeeds', False))
    return ex.obs


def verify_reads(ex):
    st = begin(ex, 'f_reads')
    nret = 0
    for s, f in opened(ex, st):
        w = strval(ex, s, 'want'); d, n = lib.str_get(ex, s, PtrV(w.id)); W = s.mem[d.obj]
        k = z3.Int('k!m')
        match = z3.And(n.z() <= (f.size - f.pos).z(), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n.z()), z3.Select(W, k) == z3.Select(f.content, k + f.pos.z()))))
        for x in call(ex, s, 'f_reads', PtrV(f.obj.id), PtrV(w.id)):
            if x.kind == 'ret':
                nret += 1
                ex.oblige(x.st.copy(), 'post', match, 'a string is read only if the file has it at the position')
                at(ex, x.st, f, f.map, f.pos + n, 'reading a string moves right behind it')
            else:
                ex.oblige(x.st.copy(), 'post', z3.Not(match), 'a string that is there is accepted')
                at(ex, x.st, f, f.map, f.pos, 'a string that is not there does not move the position')
    if not nret: ex.obs.append(Obligation('vacuity', '', 'some read succeeds', False))
    return ex.obs


def verify_writes(ex):
    st = begin(ex, 'f_writes')
    from .bin import SymStr
    for nme in find(ex, r'void pigo::write<std::__cxx11::basic_string'): ex.contracts[nme] = SymStr()
    nret = 0
    for s, f in opened(ex, st, 'w'):
        w = strval(ex, s, 'text'); d, n = lib.str_get(ex, s, PtrV(w.id)); W = s.mem[d.obj]
        k = z3.Int('k!any')
        for x in call(ex, s, 'f_writes', PtrV(f.obj.id), PtrV(w.id)):
            C = x.st.mem[f.map.id]
            if x.kind == 'ret':
                nret += 1
                ex.oblige(x.st, 'post', le(f.pos + n, f.size), 'a string is written only where there is room for all of it')
                y = x.st.copy(); ex.oblige(y, 'post', z3.Implies(z3.And(k >= 0, k < n.z()), z3.Select(C, k + f.pos.z()) == z3.Select(W, k)), 'the string is at the position')
                y = x.st.copy(); ex.oblige(y, 'frame', z3.Implies(z3.Or(k < f.pos.z(), k >= (f.pos + n).z()), z3.Select(C, k) == z3.Select(f.content, k)), 'nothing else is written')
                at(ex, x.st, f, f.map, f.pos + n, 'writing a string moves right behind it')
            else:
                ex.oblige(x.st, 'post', lt(f.size - f.pos, n), 'a string there is room for is written')
                at(ex, x.st, f, f.map, f.pos, 'a refused write does not move the position')
                ex.oblige(x.st, 'frame', TRUE if C is f.content else FALSE, 'a refused write changes nothing')
    if not nret: ex.obs.append(Obligation('vacuity', '', 'some write succeeds', False))
    return ex.obs


def verify_block(ex, write):
    nm = 'f_pwrite' if write else 'f_pread'
    st = begin(ex, nm)
    nret = 0
    for s, f in opened(ex, st, 'w' if write else 'r'):
        n = P(z3.Int('n')); s.assume(And(cmp('>=', n, 0), lt(n, 1 << 62)))
        # the caller's memory holds at least the block, whenever the file does
        cap = P(z3.Int('cap')); s.assume(And(cmp('>=', cap, 0), lt(cap, 1 << 62), z3.Implies(n.z() <= (f.size - f.pos).z(), cap.z() >= n.z())))
        a = ex.new_arr(s, 'data', cap, es=1, where='ext'); A0 = s.mem[a.id]
        k = z3.Int('k!any')
        for x in call(ex, s, nm, PtrV(f.obj.id), PtrV(a.id), IntV(64, u=n)):
            C, A = x.st.mem[f.map.id], x.st.mem[a.id]
            D0, D, S = (f.content, C, A0) if write else (A0, A, f.content)
            df, sf = (f.pos, P(0)) if write else (P(0), f.pos)
            if x.kind == 'ret':
                nret += 1
                ex.oblige(x.st, 'post', le(f.pos + n, f.size), 'a block is copied only if the file has room for all of it')
                y = x.st.copy(); ex.oblige(y, 'post', z3.Implies(z3.And(k >= 0, k < n.z()), sel(D, k + df.z()) == z3.Select(S, k + sf.z())), 'every byte of the block is copied')
                y = x.st.copy(); ex.oblige(y, 'frame', z3.Implies(z3.Or(k < df.z(), k >= (df + n).z()), sel(D, k) == z3.Select(D0, k)), 'nothing else is changed')
                at(ex, x.st, f, f.map, f.pos + n, 'the position advances by exactly the block size')
            else:
                ex.oblige(x.st, 'post', lt(f.size - f.pos, n), 'a block there is room for is copied')
                at(ex, x.st, f, f.map, f.pos, 'a refused block does not move the position')
                ex.oblige(x.st, 'frame', TRUE if C is f.content and A is A0 else FALSE, 'a refused block changes nothing')
    if not nret: ex.obs.append(Obligation('vacuity', '', 'some block is copied', False))
    return ex.obs


def moved_from(ex, st, f):
    """move f away into a new object -> (state, new object)"""
    g = ex.new_cells(st, 'File_moved', size_of(ex, 'f_sz'))
    x = one(call(ex, st, 'f_move', PtrV(g.id), PtrV(f.obj.id)), 'move constructor')
    h = F(g, f.map, f.size, f.name, f.content); h.pos, h.s = f.pos, f.s
    return x.st, h


def verify_move(ex):
    """move construction: the new object owns the mapping, position and name; the old one owns nothing"""
    st = begin(ex, 'f_move')
    for s, f in opened(ex, st):
        d, n = lib.str_get(ex, s, PtrV(f.s.id)); c0 = s.mem[d.obj]
        t, g = moved_from(ex, s, f)
        at(ex, t, g, f.map, f.pos, 'the new owner has the mapping, the size and the position')
        at(ex, t, f, None, P(0), 'the moved-from File has nothing')
        name_is(ex, t, g, c0, n, 'the new owner has the name of the moved file')
        closed(ex, t.copy(), [f, g], 'after a move the mapping is released exactly once')
        closed(ex, t.copy(), [g, f], 'after a move the mapping is released exactly once (other order)')
        # moving on, and moving from an object that has nothing
        t2, h = moved_from(ex, t.copy(), g)
        at(ex, t2, h, f.map, f.pos, 'a second move keeps the mapping, the size and the position')
        closed(ex, t2, [g, h, f], 'after two moves the mapping is released exactly once')
        t3, h3 = moved_from(ex, t.copy(), f)
        at(ex, t3, h3, None, P(0), 'moving from a moved-from File gives nothing')
        closed(ex, t3, [h3, f, g], 'a moved-from File may be moved and destroyed')
    return ex.obs


def verify_assign(ex):
    """move assignment between any two Files, each opened or moved-from, and to itself"""
    st = begin(ex, 'f_assign')
    for s, f in opened(ex, st, 'r', '1'):
        for t, g in opened(ex, s.copy(), 'r', '2'):
            d, n = lib.str_get(ex, t, PtrV(g.s.id)); c0 = t.mem[d.obj]
            x = one(call(ex, t.copy(), 'f_assign', PtrV(f.obj.id), PtrV(g.obj.id)), 'move assignment').st
            ex.oblige(x, 'post', TRUE if f.map.id in x.dead else FALSE, 'assigning releases the mapping held before')
            at(ex, x, f, g.map, g.pos, 'the assigned File has the mapping, the size and the position')
            at(ex, x, g, None, P(0), 'the moved-from File has nothing')
            name_is(ex, x, f, c0, n, 'the assigned File has the name of the moved file')
            closed(ex, x.copy(), [f, g], 'after an assignment every mapping is released exactly once')
            closed(ex, x.copy(), [g, f], 'after an assignment every mapping is released exactly once (other order)')
            # to a File that was moved from
            u, h = moved_from(ex, t.copy(), f)
            x = one(call(ex, u.copy(), 'f_assign', PtrV(f.obj.id), PtrV(g.obj.id)), 'move assignment').st
            at(ex, x, f, g.map, g.pos, 'a moved-from File can be assigned to')
            closed(ex, x, [g, h, f], 'after assigning to a moved-from File every mapping is released exactly once')
            # from a File that was moved from
            x = one(call(ex, u.copy(), 'f_assign', PtrV(g.obj.id), PtrV(f.obj.id)), 'move assignment').st
            at(ex, x, g, None, P(0), 'assigning from a moved-from File gives nothing')
            ex.oblige(x, 'post', TRUE if g.map.id in x.dead else FALSE, 'assigning from a moved-from File releases the mapping held before')
            closed(ex, x, [f, g, h], 'after assigning from a moved-from File every mapping is released exactly once')
        # to itself
        d, n = lib.str_get(ex, s, PtrV(f.s.id)); c0 = s.mem[d.obj]
        x = one(call(ex, s.copy(), 'f_assign', PtrV(f.obj.id), PtrV(f.obj.id)), 'move assignment').st
        at(ex, x, f, f.map, f.pos, 'assigning a File to itself changes nothing')
        name_is(ex, x, f, c0, n, 'assigning a File to itself keeps its name')
        closed(ex, x, [f], 'after self-assignment the mapping is released exactly once')
    return ex.obs


def ft(ex, name): return ex.U(None, one(ex.inline(St(), fn(ex, name), []), name).val)


def verify_guess(ex):
    st = begin(ex, 'f_guess')
    T = {k: ft(ex, 'ft_' + k) for k in ('mm', 'el', 'coo', 'csr', 'dig', 'ten', 'graph')}
    nret = 0
    for s, f in opened(ex, st):
        d, n = lib.str_get(ex, s, PtrV(f.s.id)); N = s.mem[d.obj]
        def has(x, lit):
            return z3.And((f.size - f.pos).z() >= len(lit), *[lib.byte_at(ex, x, f.map.id, f.pos + k) == ord(c) for k, c in enumerate(lit)])
        def ends(x, lit):
            return z3.And(n.z() >= len(lit), *[sel(N, (n - len(lit) + k).z()) == ord(c) for k, c in enumerate(lit)])
        for x in call(ex, s, 'f_guess', PtrV(f.obj.id)):
            hs = [has(x.st, l) for l in LITS]; pre = has(x.st, 'PIGO')
            nobin = z3.Not(z3.Or(*hs))
            if x.kind != 'ret':
                ex.oblige(x.st.copy(), 'post', z3.And(nobin, pre), 'detection refuses only a file that starts with the PIGO prefix but no known header')
            else:
                nret += 1
                v = ex.U(x.st, x.val)
                exp = z3.And(*[z3.Implies(h, eq(v, T[k])) for h, k in zip(hs, ('coo', 'csr', 'dig', 'ten'))],
                             z3.Implies(nobin, z3.And(z3.Not(pre), z3.If(ends(x.st, '.mtx'), eq(v, T['mm']), z3.If(ends(x.st, '.graph'), eq(v, T['graph']), eq(v, T['el']))))))
                ex.oblige(x.st.copy(), 'post', exp, 'the detected type follows the documented precedence')
            at(ex, x.st, f, f.map, f.pos, 'detection does not move the file position')
            ex.oblige(x.st, 'frame', TRUE if x.st.mem[f.map.id] is f.content else FALSE, 'detection does not change the file')
            ex.obs.append(Obligation('vacuity', ex.where(), 'the path is satisfiable', True))
    if not nret: ex.obs.append(Obligation('vacuity', '', 'some file type is detected', False))
    return ex.obs


def verify_saved_type(ex, cls, cfg):
    """what a class saves is detected as that class, whatever the file is called"""
    from . import bin as B
    setup(ex)
    T = {k: ft(ex, 'ft_' + k) for k in ('coo', 'csr', 'ten')}
    n = 0
    for st, o, f, arrs, size, content in B.saved(ex, cls, cfg):
        file, ops = B.open_ro(ex, st, size, content)
        for op in ops:
            for x in call(ex, op.st, 'f_guess', PtrV(file.id)):
                n += 1
                note(ex, 'f_guess')
                ex.oblige(x.st, 'post', eq(ex.U(x.st, x.val), T[cls]) if x.kind == 'ret' else FALSE, 'a saved %s is detected as a binary %s' % (cls, cls))
                ex.callstack.pop()
    if not n: ex.obs.append(Obligation('vacuity', '', 'some file is saved', False))
    return ex.obs
