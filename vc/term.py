"""Integer terms in polynomial normal form over z3 atoms, machine values, pointers."""
import z3

_ATOMS = {}      # z3 ast id -> z3 term (kept alive)
MULF = z3.Function('mul', z3.IntSort(), z3.IntSort(), z3.IntSort())
DIVF = z3.Function('idiv', z3.IntSort(), z3.IntSort(), z3.IntSort())
MODF = z3.Function('imod', z3.IntSort(), z3.IntSort(), z3.IntSort())


class Poly:
    __slots__ = ('c', 'm', '_z', '_k')
    def __init__(self, c=0, m=None): self.c, self.m, self._z, self._k = c, m or {}, None, None
    def __add__(self, o):
        o = P(o)
        if not o.m: return Poly(self.c + o.c, self.m)
        m = dict(self.m)
        for k, v in o.m.items():
            w = m.get(k, 0) + v
            if w: m[k] = w
            else: m.pop(k, None)
        return Poly(self.c + o.c, m)
    __radd__ = __add__
    def __neg__(self): return Poly(-self.c, {k: -v for k, v in self.m.items()})
    def __sub__(self, o): return self + (-P(o))
    def __rsub__(self, o): return P(o) - self
    def __mul__(self, o):
        o = P(o)
        if not o.m: return Poly(self.c * o.c, {k: v * o.c for k, v in self.m.items()}) if o.c else Poly(0)
        if not self.m: return o * self.c
        r = {}
        def put(k, v):
            w = r.get(k, 0) + v
            if w: r[k] = w
            else: r.pop(k, None)
        for k, v in self.m.items():
            for k2, v2 in o.m.items(): put(tuple(sorted(k + k2)), v * v2)
            if o.c: put(k, v * o.c)
        if self.c:
            for k2, v2 in o.m.items(): put(k2, v2 * self.c)
        return Poly(self.c * o.c, r)
    __rmul__ = __mul__
    def isconst(self): return not self.m
    def key(self):
        if self._k is None: self._k = (self.c, tuple(sorted(self.m.items())))
        return self._k
    def same(self, o): return self.key() == P(o).key()
    def divisible(self, k): return self.c % k == 0 and all(v % k == 0 for v in self.m.values())
    def divexact(self, k): return Poly(self.c // k, {a: v // k for a, v in self.m.items()})
    def z(self):
        if self._z is None:
            parts = []
            for k, v in self.m.items():
                t = _ATOMS[k[0]]
                for a in k[1:]: t = MULF(t, _ATOMS[a])
                parts.append(t if v == 1 else t * v)
            if self.c or not parts: parts.append(z3.IntVal(self.c))
            self._z = parts[0] if len(parts) == 1 else z3.Sum(parts)
        return self._z
    def atoms(self): return {a for k in self.m for a in k}
    def __repr__(self): return str(z3.simplify(self.z()))


def P(x):
    if isinstance(x, Poly): return x
    if isinstance(x, bool): return Poly(int(x))
    if isinstance(x, int): return Poly(x)
    if z3.is_int_value(x): return Poly(x.as_long())
    d = x.decl().kind() if z3.is_app(x) else None
    if d == z3.Z3_OP_ADD:
        r = Poly(0)
        for c in x.children(): r = r + P(c)
        return r
    if d == z3.Z3_OP_SUB:
        ch = x.children(); r = P(ch[0])
        for c in ch[1:]: r = r - P(c)
        return r
    if d == z3.Z3_OP_UMINUS: return -P(x.children()[0])
    if d == z3.Z3_OP_MUL:
        r = Poly(1)
        for c in x.children(): r = r * P(c)
        return r
    i = x.get_id(); _ATOMS[i] = x
    return Poly(0, {(i,): 1})


def atom_term(i): return _ATOMS[i]
def Z(x): return x.z() if isinstance(x, Poly) else (z3.IntVal(x) if isinstance(x, int) else x)

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
def cmp(op, a, b):
    """a op b over Polys -> z3 Bool, constant folded"""
    d = P(a) - P(b)
    if d.isconst():
        c = d.c
        return TRUE if {'==': c == 0, '!=': c != 0, '<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0}[op] else FALSE
    # keep both sides readable: move constants right
    l, r = Z(P(a)), Z(P(b))
    return {'==': lambda: l == r, '!=': lambda: l != r, '<': lambda: l < r, '<=': lambda: l <= r, '>': lambda: l > r, '>=': lambda: l >= r}[op]()
def le(a, b): return cmp('<=', a, b)
def lt(a, b): return cmp('<', a, b)
def eq(a, b): return cmp('==', a, b)
def And(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (list, tuple)): ys.extend(x)
        else: ys.append(x)
    ys = [y for y in ys if not z3.is_true(y)]
    if any(z3.is_false(y) for y in ys): return FALSE
    return TRUE if not ys else ys[0] if len(ys) == 1 else z3.And(*ys)
def Or(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (list, tuple)): ys.extend(x)
        else: ys.append(x)
    ys = [y for y in ys if not z3.is_false(y)]
    if any(z3.is_true(y) for y in ys): return TRUE
    return FALSE if not ys else ys[0] if len(ys) == 1 else z3.Or(*ys)
def Not(x):
    if z3.is_true(x): return FALSE
    if z3.is_false(x): return TRUE
    return x.children()[0] if z3.is_not(x) else z3.Not(x)
def Imp(a, b):
    if z3.is_true(a): return b
    if z3.is_false(a) or z3.is_true(b): return TRUE
    return z3.Implies(a, b)
def ite(c, a, b):
    if z3.is_true(c): return P(a)
    if z3.is_false(c): return P(b)
    a, b = P(a), P(b)
    if a.same(b): return a
    return P(z3.If(c, a.z(), b.z()))
def pmin(a, b): return ite(le(a, b), a, b)
def pmax(a, b): return ite(le(a, b), b, a)

_n = [0]
def fresh(name='v'):
    _n[0] += 1
    return P(z3.Int('%s!%d' % (name, _n[0])))
def fresh_bool(name='b'):
    _n[0] += 1
    return z3.Bool('%s!%d' % (name, _n[0]))
def fresh_arr(name='A'):
    _n[0] += 1
    return z3.Array('%s!%d' % (name, _n[0]), z3.IntSort(), z3.IntSort())
def fresh_id():
    _n[0] += 1
    return _n[0]


class IntV:
    """N-bit machine integer; u canonical unsigned, s canonical signed (at least one present)"""
    __slots__ = ('bits', 'u', 's', 'w')
    def __init__(self, bits, u=None, s=None, w=None):
        self.bits = bits
        self.w = w              # some integer congruent to the value modulo 2^bits (u is w mod 2^bits)
        if u is not None: u = P(u)
        if s is not None: s = P(s)
        M = 1 << bits
        if u is not None and u.isconst(): u = Poly(u.c % M); s = Poly(u.c - M if u.c >= M // 2 else u.c)
        elif s is not None and s.isconst(): s = Poly((s.c + M // 2) % M - M // 2); u = Poly(s.c % M)
        self.u, self.s = u, s
    def isconst(self): return (self.u if self.u is not None else self.s).isconst()
    def __repr__(self): return 'i%d(%s)' % (self.bits, self.u if self.u is not None else 's:%r' % self.s)
class BoolV:
    __slots__ = ('b',)
    def __init__(self, b): self.b = b
    def __repr__(self): return 'i1(%s)' % self.b
class PtrV:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off=0): self.obj, self.off = obj, P(off)
    def __repr__(self): return 'ptr(%s+%r)' % (self.obj, self.off)
class FltV:
    """floating point: an uninterpreted integer-sorted term"""
    __slots__ = ('t', 'name')
    def __init__(self, t, name): self.t, self.name = t, name
class FnV:
    __slots__ = ('name',)
    def __init__(self, n): self.name = n
class AggV:
    __slots__ = ('vs',)
    def __init__(self, vs): self.vs = vs
class UndefV:
    __slots__ = ('ty',)
    def __init__(self, ty): self.ty = ty
    def __repr__(self): return 'undef'
NULL = PtrV(None, 0)
