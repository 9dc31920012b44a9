"""The facts about the specification functions of text.py that are not definitions are proved here, by
well-founded induction on the distance to the end of the buffer.  Every run discharges them again.

A lemma  forall x in [0,E]: L(x)  is proved from the definition unfolded at the points it mentions and from the
induction hypothesis, L at the (strictly larger) successor positions.  Lemmas with a second position z are
proved with z arbitrary (the hypothesis is instantiated at the same z, or generalised over z where stated)."""
import z3
from .text import STOP, AWARE, c_comment, c_digit, NL
from .core import Obligation, run_for
I, Bo = z3.IntSort(), z3.BoolSort()


def prove(name, hyps, goal, obs, tmo=10000):
    s = z3.Solver()
    for h in hyps: s.add(h)
    sat = run_for(s, tmo)
    s.add(z3.Not(goal))
    r = run_for(s, tmo)
    if r == z3.unknown:
        s = z3.SimpleSolver(); s.set('random_seed', 1)
        for h in hyps: s.add(h)
        s.add(z3.Not(goal)); r = run_for(s, 3 * tmo)
    obs.append(Obligation('lemma', 'specification', name, r == z3.unsat and sat != z3.unsat))
    return r == z3.unsat


def plain(name, stopf, obs, stops_at_nl):
    """f(x) = x if x >= E or stop(B x) else f(x+1)"""
    B = z3.Function('B', I, I); E, x, z = z3.Ints('E x z')
    f = z3.Function('f', I, I); g = z3.Function('EOL', I, I)
    inn = lambda t: z3.And(t >= 0, t < E)
    d = lambda fn, st, t: fn(t) == z3.If(inn(t), z3.If(st(B(t)), t, fn(t + 1)), t)
    rng = z3.And(x >= 0, x <= E, E >= 0)
    L1 = lambda t: z3.And(t <= f(t), f(t) <= E)
    L2 = lambda t: z3.Implies(f(t) < E, stopf(B(f(t))))
    L3 = lambda t: f(f(t)) == f(t)
    def ind(nm, L, extra=lambda t: []):
        hyp = [rng, d(f, stopf, x), z3.Implies(x < E, L(x + 1))] + extra(x)
        prove('%s: %s' % (name, nm), hyp, L(x), obs)
    ind('x <= f(x) <= E', L1)
    ind('stops where it should', L2, lambda t: [z3.Implies(t < E, L1(t + 1))])
    ind('idempotent', L3, lambda t: [d(f, stopf, f(t)), L1(t)])
    # x <= z <= f(x) -> f(z) = f(x) and nothing between stops
    L4 = lambda t: z3.And(z3.Implies(z3.And(t <= z, z <= f(t)), f(z) == f(t)), z3.Implies(z3.And(t <= z, z < f(t)), z3.Not(stopf(B(z)))),
                          z3.Implies(z3.And(t <= z, z <= E), f(t) <= f(z)))
    ind('same stop from every position passed; monotone', L4, lambda t: [L1(t), d(f, stopf, z), z3.Implies(z3.And(z >= 0, z <= E), L1(z)), z3.Implies(t < E, L1(t + 1))])
    if stops_at_nl:
        nl = lambda b: b == NL
        L5 = lambda t: z3.And(f(t) <= g(t), g(f(t)) == g(t))
        hyp = [rng, d(f, stopf, x), d(g, nl, x), z3.Implies(x < E, L5(x + 1)), z3.Implies(x < E, z3.And(g(x + 1) >= x + 1, g(x + 1) <= E))]
        prove('%s: stays on its line' % name, hyp, L5(x), obs)


def aware(name, cls, obs):
    """f(x) = x>=E: x; comment: f(nln x); cls: x; else f(x+1)     (SC: cls None: not comment: x)"""
    B = z3.Function('B', I, I); E, x = z3.Ints('E x')
    f = z3.Function('f', I, I); g = z3.Function('EOL', I, I); sc = z3.Function('SC', I, I)
    inn = lambda t: z3.And(t >= 0, t < E)
    nln = lambda t: z3.If(g(t) + 1 <= E, g(t) + 1, E)
    def d(t):
        rest = t if cls is None else z3.If(cls(B(t)), t, f(t + 1))
        return f(t) == z3.If(inn(t), z3.If(c_comment(B(t)), f(nln(t)), rest), t)
    dsc = lambda t: sc(t) == z3.If(inn(t), z3.If(c_comment(B(t)), sc(nln(t)), t), t)
    geol = lambda t: z3.Implies(z3.And(t >= 0, t <= E), z3.And(g(t) >= t, g(t) <= E))
    rng = z3.And(x >= 0, x <= E, E >= 0)
    def ind(nm, L, extra=lambda t: []):
        hyp = [rng, d(x), geol(x), z3.Implies(x < E, L(x + 1)), z3.Implies(x < E, L(nln(x)))] + extra(x)
        prove('%s: %s' % (name, nm), hyp, L(x), obs)
    L1 = lambda t: z3.And(t <= f(t), f(t) <= E)
    both = lambda L: (lambda t: [z3.Implies(t < E, z3.And(L(t + 1), L(nln(t))))])
    ind('x <= f(x) <= E', L1)
    st = (lambda b: z3.Not(c_comment(b))) if cls is None else cls
    L2 = lambda t: z3.Implies(f(t) < E, z3.And(st(B(f(t))), z3.Not(c_comment(B(f(t))))))
    ind('stops where it should', L2, both(L1))
    ind('idempotent', lambda t: f(f(t)) == f(t), lambda t: [d(f(t)), L1(t), L2(t)])
    ind('a comment is passed to its end', lambda t: z3.Implies(z3.And(inn(t), c_comment(B(t))), f(t) >= nln(t)), both(L1))
    if cls is not None:
        Ls = lambda t: z3.And(f(sc(t)) == f(t), sc(t) <= f(t))
        ind('comments first', Ls, lambda t: [dsc(t), L1(t)] + both(L1)(t))
        b = z3.Int('b')
        Lb = lambda t: z3.Implies(z3.And(t <= b, b <= E, z3.Or(b == E, B(b) == NL)), z3.Or(f(t) <= b, f(t) == f(b)))
        eol = lambda t: z3.And(g(t) == z3.If(inn(t), z3.If(B(t) == NL, t, g(t + 1)), t), z3.Implies(z3.And(t >= 0, t <= b, b <= E, z3.Or(b == E, B(b) == NL)), g(t) <= b))
        ind('the same from a line end on', Lb, lambda t: [d(b), L1(t), eol(t), eol(b)] + both(L1)(t))
        # the end of the line is at or before any newline behind
        Le = lambda t: z3.Implies(z3.And(t >= 0, t <= b, b <= E, z3.Or(b == E, B(b) == NL)), g(t) <= b)
        prove('EOL: not past a newline (%s)' % name, [rng, g(x) == z3.If(inn(x), z3.If(B(x) == NL, x, g(x + 1)), x), z3.Implies(x < E, Le(x + 1))], Le(x), obs)


def text_lemmas():
    obs = []
    for n, s in STOP.items():
        nl = z3.is_true(z3.simplify(s(z3.IntVal(NL))))
        plain(n, s, obs, nl)
    c = z3.Int('c')
    plain('CH', lambda b: b == c, obs, False)
    aware('SC', None, obs)
    for n, s in AWARE.items(): aware(n, s, obs)
    return obs


def nonlinear():
    """the facts the engine instantiates about products and quotients, proved for all integers"""
    obs = []
    a, b, f, x, y, q = z3.Ints('a b f x y q')
    m, k = a * f, b * f
    # products are monotone in a factor: by a product of two non-negative differences
    prove('product of non-negative factors', [a >= 0, f >= 0], m >= 0, obs)
    prove('product bounds its factors', [a >= 1, f >= 0], m >= f, obs)
    prove('zero and one', [], z3.And(z3.Implies(a == 0, m == 0), z3.Implies(a == 1, m == f)), obs)
    prove('a < b implies a f + f <= b f', [f >= 0, a < b, (b - a - 1) * f >= 0], m + f <= k, obs)
    prove('equal factors', [a == b], m == k, obs)
    prove('successor', [a == b + 1], m == k + f, obs)
    q, r = x / y, x % y
    prove('quotient bounds', [x >= 0, y > 0], z3.And(q * y <= x, x < q * y + y, q >= 0), obs)
    prove('quotient at most the dividend', [x >= 0, y > 0, q >= 0, q * y <= x, (y - 1) * q >= 0], q <= x, obs)
    qy, ay, by = z3.Ints('qy ay by')      # q y, a f, y f for q = (a f) / y with a <= y
    prove('part of a whole', [a >= 0, a <= y, f >= 0, y > 0, (y - a) * f >= 0, ay == a * f, by == y * f, qy == q * y, qy <= ay, z3.Implies(q > f, (q - f - 1) * y >= 0)], q <= f, obs)
    prove('small dividend', [x >= 0, y > x], q == 0, obs)
    prove('division by one', [y == 1], q == x, obs)
    return obs


def ghosts():
    """facts about the ghost functions of load.py: what is left in a part (CNT), prefix sums of the threads' counts (SUM) and the
    ranges they give to threads.  All by induction from their definitions."""
    obs = []
    NX, DK, CNT = (z3.Function(n, I, I, I) for n in ('NX', 'DK', 'CNT'))
    B = z3.Function('B', I, I); p, e, E = z3.Ints('p e E')
    dig = lambda q: c_digit(B(q))
    ok = lambda q: z3.And(q >= 0, q <= e, e <= E, z3.Or(q == e, dig(q)))
    d = lambda q: CNT(q, e) == z3.If(q >= e, 0, DK(q, e) + CNT(NX(q, e), e))
    step = z3.Implies(z3.And(p >= 0, e <= E, p < e, dig(p)), z3.And(p < NX(p, e), NX(p, e) <= e, z3.Implies(NX(p, e) < e, dig(NX(p, e))), DK(p, e) >= 0, DK(p, e) <= NX(p, e) - p))
    L = lambda q: z3.Implies(ok(q), z3.And(CNT(q, e) >= 0, CNT(q, e) <= e - q))
    prove('entries left: 0 <= CNT <= bytes left', [d(p), step, z3.Implies(p < e, L(NX(p, e)))], L(p), obs)
    prove('entries left: one step', [d(p), step, L(p), L(NX(p, e))], z3.And(z3.Implies(p >= e, CNT(p, e) == 0), z3.Implies(z3.And(ok(p), p < e),
          z3.And(CNT(p, e) == DK(p, e) + CNT(NX(p, e), e), CNT(NX(p, e), e) >= 0, CNT(NX(p, e), e) <= e - NX(p, e)))), obs)
    S, G = z3.Function('SUM', I, I), z3.Function('GA', I, I); W = z3.Function('W', I, I, I)
    k, n, T, j = z3.Ints('k n T j')
    kE, k1E, TE = z3.Ints('kE k1E TE')      # the products k E, (k+1) E, T E
    ds = lambda q: z3.Implies(z3.And(q >= 0, q < T), z3.And(S(q + 1) == S(q) + G(q), G(q) >= 0, G(q) <= E))
    prove('prefix sums: between 0 and k E', [ds(k), k >= 0, k < T, E >= 0, S(k) >= 0, S(k) <= kE, k1E == kE + E], z3.And(S(k + 1) >= 0, S(k + 1) <= k1E), obs)
    M = lambda q: z3.Implies(z3.And(j >= 0, j <= q, q <= T), S(j) <= S(q))
    prove('prefix sums: monotone', [ds(k), k >= 0, k < T, M(k)], M(k + 1), obs)
    w = lambda q: W(q + 1, k) == z3.If(k >= S(q), q, W(q, k))
    H = lambda q: z3.Implies(z3.And(k >= 0, k < S(q)), z3.And(W(q, k) >= 0, W(q, k) < q, S(W(q, k)) <= k, k < S(W(q, k) + 1)))
    prove('prefix sums: every place belongs to a thread', [S(0) == 0, w(n), n >= 0, n < T, H(n)], H(n + 1), obs)
    prove('prefix sums: no thread (base)', [S(0) == 0], H(z3.IntVal(0)), obs)
    a, b = z3.Ints('a b')
    prove('prefix sums: no place belongs to two threads', [a >= 0, a < b, b < T, z3.Implies(z3.And(a + 1 >= 0, a + 1 <= b, b <= T), S(a + 1) <= S(b))], z3.Not(z3.And(S(a) <= k, k < S(a + 1), S(b) <= k, k < S(b + 1))), obs)
    return obs


def output():
    """facts about where entries begin in a file written as text (write.py), by induction from their definitions; and that the
    pieces the text is defined by do not overlap, so there is such a text"""
    obs = []
    e, o, m, q, r, od, a, b, mo = z3.Ints('e o m q r od a b mo')
    for nm, top in (('S', 66), ('C', 22), ('W', 22)):
        S, size = z3.Function(nm, I, I), z3.Function('size', I, I)
        d = lambda x: z3.Implies(z3.And(x >= 0, x < m), z3.And(S(x + 1) == S(x) + size(x), size(x) >= 0, size(x) <= top))
        prove('%s: between 0 and %d for each' % (nm, top), [d(e), e >= 0, e < m, S(e) >= 0, S(e) <= top * e], z3.And(S(e + 1) >= 0, S(e + 1) <= top * (e + 1)), obs)
        M = lambda x: z3.Implies(z3.And(o >= 0, o <= x, x <= m), S(o) <= S(x))
        prove(nm + ': monotone', [d(e), e >= 0, e < m, M(e)], M(e + 1), obs)
        prove(nm + ': pieces do not overlap', [d(o), o >= 0, o < e, e <= m, z3.Implies(z3.And(o + 1 <= e, e <= m), S(o + 1) <= S(e))], S(o) + size(o) <= S(e), obs)
        prove(nm + ': not empty', [S(0) == 0, d(z3.IntVal(0)), size(0) >= 1, m >= 1, S(1) <= S(m)], S(m) >= 1, obs)
    # a coordinate belongs to one entry
    prove('ENT: the entry of a coordinate', [od >= 1, e >= 0, a == e * od, a <= q, q < a + od, r == q / od, r * od <= q, q < r * od + od,
          z3.Implies(r < e, (e - r - 1) * od >= 0), z3.Implies(r > e, (r - e - 1) * od >= 0)], r == e, obs)
    # an entry of a tensor: from C(e order) + W(e) to C((e+1) order) + W(e+1)
    C, W = z3.Function('C', I, I), z3.Function('W', I, I); E = z3.Function('ENT', I, I); sz = z3.Function('sz', I, I); ws = z3.Function('ws', I, I)
    mono = lambda F, x, y, t: z3.Implies(z3.And(0 <= x, x <= y, y <= t), F(x) <= F(y))
    cs = [0 <= q, q < r, r < mo, C(q + 1) == C(q) + sz(q), C(r + 1) == C(r) + sz(r), mono(C, q + 1, r, mo), 0 <= E(q), E(q) <= E(r), E(r) < m, mono(W, E(q), E(r), m)]
    prove('tensor text: coordinates do not overlap', cs, C(q) + W(E(q)) + sz(q) <= C(r) + W(E(r)), obs)
    ow = [0 <= e, e < m, 0 <= b, b <= mo, W(e + 1) == W(e) + ws(e)]      # b = (e+1) order
    prove('tensor text: a coordinate before a weight', ow + [0 <= q, q < b, C(q + 1) == C(q) + sz(q), mono(C, q + 1, b, mo), 0 <= E(q), E(q) <= e, mono(W, E(q), e, m)], C(q) + W(E(q)) + sz(q) <= C(b) + W(e), obs)
    prove('tensor text: a weight before a coordinate', ow + [b <= q, q < mo, E(q) >= e + 1, E(q) < m, mono(C, b, q, mo), mono(W, e + 1, E(q), m)], C(b) + W(e) + ws(e) <= C(q) + W(E(q)), obs)
    return obs
