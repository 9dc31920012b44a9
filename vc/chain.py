"""The facts about the chain of entries that load.py's Content uses, proved from step(), the definition of one entry.

Well-formed file: every line that has an entry has its second number before its end.  The chain: from the first digit P0 = FI(d0),
each entry's successor is NX(p, E).  anchor(p, a): p is where a search from a finds a digit, a being the start of the text or a
line end."""
import z3
from .term import *
from .core import *
from . import lemmas
from .load import *

I, Bo = z3.IntSort(), z3.BoolSort()


def verify_chain(ex, cfg):
    F = ['EOL', 'FI', 'ND', 'DG'] + (['SI', 'NF', 'FP'] if cfg.w else [])
    st, T = base(ex, cfg, F)
    E = T.E
    p, a, q, d0 = (P(z3.Int(x)) for x in ('p', 'a', 'q', 'd0'))
    inn = lambda x, lo: And(le(lo, x), le(x, E))
    st.assume(And(inn(d0, P(0)), inn(a, d0), inn(q, d0)))
    T.st = ex.cur_st = st
    B = T.B
    line_end = lambda x: Or(eq(x, E), eq(P(B(x.z())), 10))
    anchor = lambda x, y: And(eq(x, T.f('FI', y)), le(d0, y), le(y, E), Or(eq(y, d0), line_end(y)))
    for x in (d0, a, q, p): T.touch_at(st, x)
    el, b = T.f('EOL', p), T.f('EOL', q)
    e = T.f('FI', b); p1 = T.f('ND', p); p2 = T.f('FI', p1); p3 = T.f('ND', p2)
    pts = [d0, a, q, p, el, b, e, p1, p2, p3, T.f('FI', el), T.f('EOL', p3), T.f('FI', d0)]
    for x in pts: T.touch_at(st, x)
    for i, x in enumerate(pts):
        for y in pts[i + 1:]:
            pf = T.pair_facts(x.z(), y.z())
            if pf: st.assume(z3.And(*pf), 'lemma')
    for x in (p, q): st.assume(z3.Implies(z3.And(x.z() >= 0, x.z() <= E.z()), z3.Or(T.F['EOL'](x.z()) == E.z(), B(T.F['EOL'](x.z())) == 10)), 'lemma')
    def nl(x, y): st.assume(z3.Implies(z3.And(x.z() >= 0, x.z() <= y.z(), y.z() <= E.z(), line_end(y)), T.F['EOL'](x.z()) <= y.z()), 'lemma')      # lemma "EOL: not past a newline"
    for x in (p, q):
        for y in (a, b, el): nl(x, y)
    name = entry_fn(ex, False)
    ex.callstack.append(Frame(ex.mod.funcs[name], ''))
    st.assume(anchor(p, a))
    s0 = st.copy()
    st.assume(And(lt(p, E), lt(p2, el)))
    S, Q = step(T, cfg, p, E), step(T, cfg, p, e)
    for k in ('p2', 'p3', 'p4', 'nx'):
        for X in (S, Q): T.touch_at(st, X[k])
    W = wval(T, cfg, S) if cfg.w else None; V = wval(T, cfg, Q) if cfg.w else None
    ob = lambda s, g, w: ex.oblige(s.copy(), 'lemma', g, w)
    ex.obs.append(Obligation('vacuity', name, 'the hypotheses are satisfiable', ex.solver.check(st.path, [], 5000) != z3.unsat))
    ob(st, And(eq(S['nx'], T.f('FI', el)), lt(p, S['nx']), le(S['nx'], E)), 'the entry after p is the first after the end of its line')
    st.assume(eq(S['nx'], T.f('FI', el)))
    ob(st, anchor(S['nx'], el), 'entries of the chain are found from line ends')
    ob(st, And(eq(S['p2'], p2), eq(S['p3'], p3), eq(S['p4'], el)), 'both labels are on the line')
    st.assume(And(eq(S['p2'], p2), eq(S['p3'], p3), eq(S['p4'], el)))
    # a part ends at e = FI(EOL(q))
    s1 = st.copy(); s1.assume(lt(p, e))
    ex.obs.append(Obligation('vacuity', name, 'a part can end behind an entry', ex.solver.check(s1.path, [], 5000) != z3.unsat))
    ob(s1, le(el, b), 'a part that has an entry has its whole line')
    s1.assume(le(el, b))
    ob(s1, And(le(el, e), le(S['nx'], e)), 'the next entry is in the part, or the part ends where it begins')
    s1.assume(And(le(el, e), le(S['nx'], e)))
    ob(s1, And(eq(Q['p2'], p2), eq(Q['p3'], p3), eq(Q['p4'], el)), 'both labels are found in the part')
    s1.assume(And(eq(Q['p2'], p2), eq(Q['p3'], p3), eq(Q['p4'], el)))
    ob(s1, eq(Q['nx'], S['nx']), 'the part agrees on where the next entry is')
    ob(s1, eq(Q['dk'], S['dk']), 'the part agrees on how many entries a line makes')
    for j in (0, 1):
        for k in ('xs', 'ys'): ob(s1, eq(Q[k][j], S[k][j]), 'the part agrees on the labels (%s %d)' % (k, j))
    if cfg.w: ob(s1, eq(W, V), 'the part agrees on the weight')
    # every e is on the chain: induction on E - p over H(p, a): anchor(p, a) and a <= EOL(q) and p on the chain imply FI(EOL(q)) is
    ON = z3.Function('ONC', I, Bo)
    H = lambda x, y: z3.Implies(z3.And(anchor(x, y), y.z() <= b.z(), ON(x.z())), ON(e.z()))
    s2 = s0.copy()
    s2.assume(And(le(a, b), ON(p.z())))
    s3 = s2.copy(); s3.assume(cmp('>=', p, E))
    ob(s3, ON(e.z()), 'parts begin at entries of the chain (past the last)')
    s4 = st.copy(); s4.assume(And(le(a, b), ON(p.z()))); s4.assume(z3.And(ON(S['nx'].z()), H(S['nx'], el)))
    ob(s4, ON(e.z()), 'parts begin at entries of the chain (induction step)')
    ob(s0, z3.And(anchor(T.f('FI', d0), d0), d0.z() <= b.z()), 'the first entry is found from the start of the text')
    # parts are in order
    q2 = P(z3.Int('q2')); s5 = s0.copy(); s5.assume(inn(q2, q))
    T.st = s5; T.touch_at(s5, q2); b2 = T.f('EOL', q2); e2 = T.f('FI', b2)
    for x in (b2, e2): T.touch_at(s5, x)
    for x, y in ((q, q2), (b, b2), (q, b2), (d0, b), (e, b2)): s5.assume(z3.And(*T.pair_facts(x.z(), y.z())), 'lemma')
    s5.assume(z3.Or(b2.z() == E.z(), B(b2.z()) == 10), 'lemma')
    ob(s5, le(e, e2), 'parts are in file order'); ob(s5, le(T.f('FI', d0), e), 'the first part begins at the first entry')
    T.st = None
    ex.callstack.pop()
    return ex.obs


def verify_telescope():
    """sums and maxima over the chain, and over the threads' parts"""
    obs = []
    NX, DK, CNT, M, X = (z3.Function(n, I, I, I) for n in ('NX', 'DK', 'CNT', 'M', 'X'))
    ON, LS = z3.Function('ONC', I, Bo), z3.Function('LS', I, Bo)
    p, e, E, k, n = z3.Ints('p e E k n')
    mx = lambda a, b: z3.If(a <= b, b, a)
    dig = z3.Function('dig', I, Bo)
    cnt = lambda x, y: CNT(x, y) == z3.If(x >= y, 0, DK(x, y) + CNT(NX(x, y), y))
    m = lambda x, y: M(x, y) == z3.If(x >= y, 0, z3.If(z3.Or(DK(x, y) == 0, X(x, y) <= M(NX(x, y), y)), M(NX(x, y), y), X(x, y)))
    pos = lambda x, y: M(x, y) >= 0
    lemmas.prove('largest label: not negative', [m(p, e), z3.Implies(p < e, pos(NX(p, e), e))], pos(p, e), obs)
    # the chain facts of verify_chain
    same = z3.Implies(z3.And(ON(p), p >= 0, p < e, LS(e), e <= E), z3.And(NX(p, e) == NX(p, E), DK(p, e) == DK(p, E), X(p, e) == X(p, E), NX(p, E) <= e, NX(p, E) > p))
    on = z3.Implies(z3.And(ON(p), p < E), ON(NX(p, E)))
    tel = lambda x: z3.Implies(z3.And(ON(x), x >= 0, x <= e, LS(e), e <= E), z3.And(CNT(x, E) == CNT(x, e) + CNT(e, E), M(x, E) == mx(M(x, e), M(e, E))))
    lemmas.prove('chain: a part and what follows it', [cnt(p, e), cnt(p, E), m(p, e), m(p, E), pos(e, E), pos(p, e), pos(p, E), pos(NX(p, E), E), pos(NX(p, E), e), same, on, z3.Implies(p < e, tel(NX(p, E)))], tel(p), obs)
    # over threads
    S, SF, GA, PM = (z3.Function(x, I, I) for x in ('SUM', 'SF', 'GA', 'PM'))
    inn = z3.And(k >= 0, k < n)
    part = z3.And(SF(k) <= SF(k + 1), CNT(SF(k), E) == CNT(SF(k), SF(k + 1)) + CNT(SF(k + 1), E), M(SF(k), E) == mx(M(SF(k), SF(k + 1)), M(SF(k + 1), E)))
    sums = lambda j: S(j) == CNT(SF(0), E) - CNT(SF(j), E)
    lemmas.prove('threads: the sum before a thread is what precedes its part', [inn, part, S(k + 1) == S(k) + GA(k), GA(k) == CNT(SF(k), E) - CNT(SF(k + 1), E), sums(k)], sums(k + 1), obs)
    lemmas.prove('threads: the sum before a thread (base)', [S(0) == 0], sums(z3.IntVal(0)), obs)
    i = z3.Int('i')
    pm = lambda j: mx(i, M(SF(0), E)) == mx(PM(j), M(SF(j), E))
    lemmas.prove('threads: largest label (base)', [PM(0) == i, i >= 0], pm(z3.IntVal(0)), obs)
    lemmas.prove('threads: largest label (step)', [inn, part, PM(k + 1) == mx(PM(k), M(SF(k), SF(k + 1))), pm(k)], pm(k + 1), obs)
    lemmas.prove('threads: largest label (end)', [SF(n) == E, M(E, E) == 0, PM(n) >= 0, pm(n)], PM(n) == mx(i, M(SF(0), E)), obs)
    # the sequence is well defined: entries of the chain have disjoint places
    r = z3.Int('r')
    at = lambda x: CNT(SF(0), E) - CNT(x, E)
    ordp = lambda x: z3.Implies(z3.And(x <= r, r <= E, ON(x)), z3.Or(z3.Not(ON(r)), at(x) <= at(r)))
    place = z3.Implies(z3.And(ON(p), p < r, r <= E, ON(r)), at(p) + DK(p, E) <= at(r))
    nxt = z3.Implies(z3.And(ON(p), p < E), z3.And(NX(p, E) > p, NX(p, E) <= E, DK(p, E) >= 0, z3.Implies(z3.And(ON(r), r > p), r >= NX(p, E))))
    lemmas.prove('sequence: places of entries are in chain order', [cnt(p, E), on, nxt, z3.Implies(p < E, ordp(NX(p, E)))], ordp(p), obs)
    lemmas.prove('sequence: places of entries are disjoint', [cnt(p, E), on, nxt, p < E, ordp(NX(p, E))], place, obs)
    # the order of the chain itself: C(0), C(1), ... each the successor of the one before, as long as it is before E
    C = z3.Function('C', I, I); i, j, N = z3.Ints('ci cj N')
    up = lambda x: z3.Implies(z3.And(x >= 0, x < N), z3.And(C(x + 1) == NX(C(x), E), C(x + 1) > C(x)))
    mono = lambda x: z3.Implies(z3.And(i >= 0, i <= x, x <= N), C(i) <= C(x))
    lemmas.prove('chain: increasing (base)', [], mono(i), obs)
    lemmas.prove('chain: increasing (step)', [j >= i, up(j), mono(j)], mono(j + 1), obs)
    u, v = z3.Ints('cu cv')
    M2 = lambda a, b: z3.Implies(z3.And(a >= 0, a <= b, b <= N), C(a) <= C(b))
    lemmas.prove('chain: no entry lies between an entry and its successor', [u >= 0, u < N, v >= 0, v <= N, up(u), M2(v, u), M2(u + 1, v), C(u) < C(v)], C(v) >= NX(C(u), E), obs)
    return obs
