"""C20: block copies by several threads; C21: finding character offsets."""
import re, z3
from .term import *
from .core import *
from .exec import *
from .omp import *
from . import lib
from .contracts import find


def copy_spec(D, f, n, S, v):
    """the threads' parts of one block copy are proved to tile [f, f+n)"""
    def spec(R, good, ob, accs):
        ex = R.ex
        if ob != D.id: return False
        parts = []
        for o, m0 in good:
            cs = [c for c in o.st.g.get('copies', ()) if c[0] in (ob, None)]
            if len(cs) != 1 or cs[0][3] not in (S.id, None): raise Unsupported('a thread copies its part in pieces')
            parts.append((o, m0, cs[0]))
        name = D.name.split('#')[0]
        last = (R.T - 1).z()
        for k, (o, m0, c) in enumerate(parts):
            lo, hi = c[1], c[1] + c[2]
            p = o.st.path
            R.prove_at(p, [], le(c[2], n), 'no thread\'s part is longer than the block')
            R.prove_at(p, [], eq(c[4] - c[1], P(v) - f), 'every byte goes to its own position in %s' % name, 'post')
            R.prove_at(p, [R.tau.z() == 0], eq(lo, f), 'the first thread starts at the start of the block', 'post')
            R.prove_at(p, [R.tau.z() == last], eq(hi, P(f) + n), 'the last thread ends at the end of the block', 'post')
            for k2, (o2, m2, c2) in enumerate(parts):
                R.pairprove(None, p, o2.st.path, lambda t, t2: t2 == t + 1, lambda ren: hi.z() == ren(c2[1].z()), 'the parts of consecutive threads of %s meet: no byte is left out or copied twice' % name)
        A0 = m_first(good, ob)
        A = fresh_arr('joined'); i = z3.Int('i')
        src = good[0][0].st.mem[S.id]
        fz, nz = P(f).z(), P(n).z()
        for o, m0 in good:
            o.st.mem[ob] = A
            rd = z3.Select(src, i + (P(v) - f).z())
            o.st.assume(z3.ForAll([i], z3.Select(A, i) == z3.If(z3.And(i >= fz, i < fz + nz), rd, z3.Select(A0, i)), patterns=[z3.Select(A, i)]))
        return True
    return spec
def m_first(good, ob):
    for o, m0 in good:
        if ob in m0: return m0[ob]


def block_state(ex, write):
    st = St()
    Omp(ex); lib.install(ex)
    FS, VS, f, v, n = (P(z3.Int(x)) for x in ('file_size', 'data_size', 'f', 'v', 'n'))
    for x in (FS, VS): st.assume(And(cmp('>=', x, 0), lt(x, 1 << 62)))
    file = ex.new_arr(st, 'file', FS, es=1, where='ext', ro=not write)
    data = ex.new_arr(st, 'data', VS, es=1, where='ext', ro=write)
    st.assume(And(cmp('>=', f, 0), cmp('>=', v, 0), cmp('>=', n, 0), le(f + n, FS), le(v + n, VS)))
    fp = ex.new_cells(st, 'fp', 8); st.mem[fp.id] = {0: (8, PtrV(file.id, f))}
    return st, file, data, fp, f, v, n


def verify_block(ex, write):
    st, file, data, fp, f, v, n = block_state(ex, write)
    nm = 'parallel_write' if write else 'parallel_read'
    name = find(ex, r'pigo::%s\(char const\*&, char\*, unsigned long\)$' % nm)[0]
    D, df, S, sf = (file, f, data, v) if write else (data, v, file, f)
    ex.omp.specs = [copy_spec(D, df, n, S, sf)]
    d0, s0 = st.mem[D.id], st.mem[S.id]
    ex.obs.append(Obligation('vacuity', name, 'the precondition is satisfiable', ex.solver.check(st.path, [], 3000) != z3.unsat))
    outs = ex.inline(st, name, [PtrV(fp.id), PtrV(data.id, v), IntV(64, u=n)])
    ex.callstack.append(Frame(ex.mod.funcs[name], ''))
    k = z3.Int('k!any')
    for o in outs:
        s = o.st
        if o.kind != 'ret': ex.oblige(s, 'post', FALSE, nm + ' does not throw'); continue
        p = s.mem[fp.id][0][1]
        ex.oblige(s, 'post', And(TRUE if p.obj == file.id else FALSE, eq(p.off, f + n)), nm + ': the position advances by exactly the block size')
        ex.oblige(s, 'frame', TRUE if s.mem[S.id] is s0 else FALSE, nm + ': the source is unchanged')
        d1 = s.mem[D.id]
        s1 = s.copy()
        ex.oblige(s1, 'post', z3.Implies(z3.And(k >= 0, k < n.z()), z3.Select(d1, k + df.z()) == z3.Select(s0, k + sf.z())), nm + ': every byte of the block is copied to its own position')
        ex.oblige(s1, 'frame', z3.Implies(z3.Or(k < df.z(), k >= (df + n).z()), z3.Select(d1, k) == z3.Select(d0, k)), nm + ': nothing outside the block is touched')
    ex.callstack.pop()
    if not any(o.kind == 'ret' for o in outs): ex.obs.append(Obligation('vacuity', name, 'some path returns', False))
    return ex.obs
