"""Specification of decimal digits and the contracts of write_size and write_ascii for integral types."""
import re, z3
from .term import *
from .core import *
from .exec import *
from .loops import num_slots
from .contracts import find
from .lemmas import prove

I = z3.IntSort()
ND = z3.Function('NDIG', I, I)          # number of decimal digits
Q = z3.Function('QUOT', I, I, I)        # V div 10^j


def nd_facts(v): return z3.Implies(v >= 0, z3.And(ND(v) == z3.If(v < 10, 1, 1 + ND(v / 10)), ND(v) >= 1, ND(v / 10) >= 1, z3.Implies(v < 2 ** 64, ND(v) <= 20)))
def mag(v, bits): return z3.If(v < (1 << (bits - 1)), v, (1 << bits) - v)


class Digits:
    """hook: unfolds ND where loops hold a number, proposes the digit invariants"""
    def __init__(self, out=None, bases=()): self.out, self.bases = out, bases
    def touch(self, ex, st, o, idx): pass
    def at(self, st, v, bits):
        for t in (v, mag(v, bits)):
            k = ('ND', t.get_id())
            if k in st.touched: continue
            Exec._keep.append(t)
            st.touched = st.touched | {k}; st.assume(nd_facts(t), 'unfold')
    def one(self, ex, st, v):
        if isinstance(v, IntV): self.at(st, Z(ex.U(st, v)), v.bits)
        elif isinstance(v, BoolV): self.at(st, z3.If(v.b, z3.IntVal(1), z3.IntVal(0)), 8)
    def slot_touch(self, ex, st, s):
        if s.kind != 'arr': self.one(ex, st, s.cur)
    def slot_touch_init(self, ex, st, s):
        if s.kind != 'arr' and s.init_z is not None:
            if isinstance(s.cur, IntV): self.at(st, s.init_z, s.cur.bits)
            elif isinstance(s.cur, BoolV): self.at(st, z3.If(s.init_z, z3.IntVal(1), z3.IntVal(0)), 8)
    def slot_touch_val(self, ex, st, s, v):
        if s.kind != 'arr' and v is not None: self.one(ex, st, v)
    def ranks(self, ctx):
        r = []
        for s in ctx.slots:
            if s.kind == 'arr' or s.const is None: continue
            if isinstance(s.cur, IntV): r += [('|%s|' % s.name, mag(s.const, s.cur.bits)), ('NDIG(%s)' % s.name, ND(s.const))]
            elif isinstance(s.cur, BoolV): r.append((s.name, z3.If(s.const, z3.IntVal(1), z3.IntVal(0))))
        return r
    def cands(self, ctx):
        cs = []
        vals = []
        for s in ctx.slots:
            if s.kind == 'arr' or s.const is None or s.init_z is None: continue
            if isinstance(s.cur, IntV):
                vals.append((s.name, s.const, s.init_z)); vals.append(('|%s|' % s.name, mag(s.const, s.cur.bits), mag(s.init_z, s.cur.bits)))
            elif isinstance(s.cur, BoolV):
                n = lambda b: z3.If(b, z3.IntVal(1), z3.IntVal(0))
                vals.append((s.name, n(s.const), n(s.init_z)))
        cnts = [s for s in num_slots(ctx) if isinstance(s.cur, IntV) and s.cur.bits >= 32 and s.init_z is not None]
        for n, v, v0 in vals:
            for c in cnts:
                cs.append(('%s + digits of %s is constant' % (c.name, n), c.const + ND(v) == c.init_z + ND(v0)))
                cs.append(('%s - digits of %s is constant' % (c.name, n), c.const - ND(v) == c.init_z - ND(v0)))
                if self.out is None: continue
                for sg, k, dl in ((1, c.const - c.init_z, 'up'), (-1, c.init_z - c.const, 'down')):
                    ctx.pre_facts += [Q(v0, 0) == v0, z3.Implies(k >= 0, Q(v0, k + 1) == Q(v0, k) / 10)]
                    cs.append(('%s is the number without its last %s %s digits' % (n, c.name, dl), v == Q(v0, k)))
                    if sg < 0:
                        for A in [s for s in ctx.slots if s.kind == 'arr' and s.key == self.out.id]:
                            for b in self.bases:
                                q = z3.Int('k!q'); bz = b.z()
                                S = z3.Select
                                cs.append(('digits of %s after %s are written' % (n, c.name), z3.ForAll([q], z3.Implies(z3.And(bz + c.const < q, q <= bz + c.init_z), S(A.const, q) == 48 + Q(v0, bz + c.init_z - q) % 10), patterns=[S(A.const, q)])))
                                cs.append(('nothing else is written', z3.ForAll([q], z3.Implies(z3.Or(q <= bz + c.const, q > bz + c.init_z), S(A.const, q) == S(A.init_z, q)), patterns=[S(A.const, q)])))
        return cs


class SizeContract:
    """write_size(v) == (v < 0) + NDIG(|v|)"""
    def __init__(self, bits, signed): self.bits, self.signed = bits, signed
    def spec(self, ex, st, v):
        if isinstance(v, BoolV): x, neg = z3.If(v.b, z3.IntVal(1), z3.IntVal(0)), z3.IntVal(0)
        elif self.signed:
            s = Z(ex.S(st, v)); x = z3.If(s < 0, -s, s); neg = z3.If(s < 0, z3.IntVal(1), z3.IntVal(0))
        else: x, neg = Z(ex.U(st, v)), z3.IntVal(0)
        st.assume(nd_facts(x), 'unfold')
        return neg + ND(x)
    def apply(self, ex, st, args):
        r = self.spec(ex, st, args[0])
        return [Out('ret', st, IntV(64, u=P(r)))]


TYPES = [('bool', 1, False), ('char', 8, True), ('signed char', 8, True), ('unsigned char', 8, False), ('short', 16, True), ('unsigned short', 16, False),
         ('int', 32, True), ('unsigned int', 32, False), ('long', 64, True), ('unsigned long', 64, False), ('long long', 64, True), ('unsigned long long', 64, False),
         ('wchar_t', 32, True), ('char16_t', 16, False), ('char32_t', 32, False)]
UNS = {'char': 'unsigned char', 'signed char': 'unsigned char', 'short': 'unsigned short', 'int': 'unsigned int', 'long': 'unsigned long', 'long long': 'unsigned long long', 'wchar_t': 'unsigned int'}
def size_name(ex, t): return find(ex, r'unsigned long pigo::write_size<%s, ' % re.escape(t))
def ascii_name(ex, t): return find(ex, r'void pigo::write_ascii<%s, ' % re.escape(t))


def arg(ex, st, bits):
    if bits == 1: return BoolV(z3.Bool('v'))
    v = ex.fresh_int(st, bits, 'value'); return v


def verify_size(ex, t, bits, signed):
    names = [n for n in size_name(ex, t) if n in ex.mod.funcs]
    if not names: raise Unsupported('write_size<%s> not found' % t)
    st = St(); h = Digits(); ex.hooks = [h]
    v = arg(ex, st, bits); h.one(ex, st, v)
    n0 = len(ex.obs)
    spec = SizeContract(bits, signed)
    want = spec.spec(ex, st, v)
    ex.obs.append(Obligation('vacuity', names[0], 'the precondition is satisfiable', ex.solver.check(st.path, [], 3000) != z3.unsat))
    ex.callstack.append(Frame(ex.mod.funcs[names[0]], ''))
    outs = ex.inline(st, names[0], [v])
    for o in outs:
        if o.kind != 'ret': ex.oblige(o.st, 'post', FALSE, 'write_size<%s> does not throw' % t); continue
        ex.oblige(o.st, 'post', Z(ex.U(o.st, o.val)) == want, 'write_size<%s>: the sign plus the number of decimal digits' % t)
    if not outs: ex.obs.append(Obligation('vacuity', names[0], 'some path returns', False))
    ex.callstack.pop()
    return ex.obs[n0:]


def verify_ascii(ex, t, bits, signed):
    names = [n for n in ascii_name(ex, t) if n in ex.mod.funcs]
    if not names: raise Unsupported('write_ascii<%s> not found' % t)
    for t2, b2, s2 in TYPES:
        for n in size_name(ex, t2): ex.contracts[n] = SizeContract(b2, s2)
    st = St()
    S, f = P(z3.Int('size')), P(z3.Int('f'))
    st.assume(And(cmp('>=', f, 0), lt(S, 1 << 62)))
    out = ex.new_arr(st, 'out', S, es=1, where='ext')
    A0 = st.mem[out.id]
    h = Digits(out, (f, f + 1)); ex.hooks = [h]
    v = arg(ex, st, bits); h.one(ex, st, v)
    spec = SizeContract(bits, signed)
    want = spec.spec(ex, st, v)
    if bits == 1: V, neg = z3.If(v.b, z3.IntVal(1), z3.IntVal(0)), FALSE
    elif signed: s = Z(ex.S(st, v)); V, neg = z3.If(s < 0, -s, s), s < 0
    else: V, neg = Z(v.u), FALSE
    st.assume(f.z() + want <= S.z())       # precondition: the predicted size fits
    st.assume(nd_facts(V)); st.assume(Q(V, 0) == V)
    fp = ex.new_cells(st, 'fp', 8); st.mem[fp.id] = {0: (8, PtrV(out.id, f))}
    n0 = len(ex.obs)
    ex.obs.append(Obligation('vacuity', names[0], 'the precondition is satisfiable', ex.solver.check(st.path, [], 3000) != z3.unsat))
    ex.callstack.append(Frame(ex.mod.funcs[names[0]], ''))
    outs = ex.inline(st, names[0], [PtrV(fp.id), v])
    k = z3.Int('kk')
    for o in outs:
        s = o.st
        if o.kind != 'ret': ex.oblige(s, 'post', FALSE, 'write_ascii<%s> does not throw' % t); continue
        p = s.mem[fp.id][0][1]
        if not isinstance(p, PtrV) or p.obj != out.id: ex.oblige(s, 'post', FALSE, 'the position stays in the output'); continue
        ex.oblige(s, 'post', eq(p.off, f + P(want)), 'write_ascii<%s>: advances by exactly the predicted size' % t)
        A = s.mem[out.id]
        n1 = z3.If(neg, z3.IntVal(1), z3.IntVal(0)); b = f.z() + n1
        fr = z3.Int('kq!%d' % fresh_id())
        ex.oblige(s, 'post', z3.Implies(neg, z3.Select(A, f.z()) == 45), 'write_ascii<%s>: a minus sign exactly for negative values' % t)
        ex.oblige(s, 'post', z3.Implies(z3.And(fr >= b, fr < b + ND(V)), z3.Select(A, fr) == 48 + Q(V, b + ND(V) - 1 - fr) % 10), 'write_ascii<%s>: exactly the decimal digits' % t)
        ex.oblige(s, 'frame', z3.Implies(z3.Or(fr < f.z(), fr >= f.z() + want), z3.Select(A, fr) == z3.Select(A0, fr)), 'write_ascii<%s>: touches only the predicted bytes' % t)
    if not outs: ex.obs.append(Obligation('vacuity', names[0], 'some path returns', False))
    ex.callstack.pop()
    return ex.obs[n0:]


def lemmas():
    """the digits Q(V,n-1) % 10 ... Q(V,0) % 10 with n = NDIG(V) are the canonical decimal form of V"""
    obs = []
    V, j, n, i = z3.Ints('V j n i')
    d = lambda v: ND(v) == z3.If(v < 10, 1, 1 + ND(v / 10))
    q0 = lambda v: Q(v, 0) == v
    qs = lambda v, k: Q(v, k + 1) == Q(v, k) / 10
    for k in range(1, 21):
        hyp = [V >= 0, V < 10 ** k, d(V)] + ([z3.Implies(V / 10 < 10 ** (k - 1), ND(V / 10) <= k - 1)] if k > 1 else [])
        prove('NDIG(V) <= %d below 10^%d' % (k, k), hyp, ND(V) <= k, obs)
    prove('NDIG >= 1', [V >= 0, d(V), z3.Implies(V >= 10, ND(V / 10) >= 1)], ND(V) >= 1, obs)
    # Q(V/10, j) = Q(V, j+1), by induction on j
    prove('Q(V/10,0) = Q(V,1)', [V >= 0, q0(V / 10), q0(V), qs(V, z3.IntVal(0))], Q(V / 10, 0) == Q(V, 1), obs)
    prove('Q(V/10,j+1) = Q(V,j+2)', [V >= 0, j >= 0, Q(V / 10, j) == Q(V, j + 1), qs(V / 10, j), qs(V, j + 1)], Q(V / 10, j + 1) == Q(V, j + 2), obs)
    shift = lambda v, k: Q(v / 10, k) == Q(v, k + 1)
    # leading digit, by induction on V (V/10 < V)
    L = lambda v: z3.And(Q(v, ND(v) - 1) < 10, Q(v, ND(v) - 1) >= 0, z3.Implies(v > 0, Q(v, ND(v) - 1) >= 1), Q(v, ND(v)) == 0)
    prove('leading digit is not zero unless V = 0; nothing is left after NDIG(V) digits', [V >= 0, d(V), z3.Implies(V >= 10, z3.And(L(V / 10), ND(V / 10) >= 1)), q0(V), qs(V, z3.IntVal(0)), shift(V, ND(V / 10) - 1), shift(V, ND(V / 10))], L(V), obs)
    # reading the digits back: the value of the first i digits is Q(V, n-i)
    Pf = z3.Function('prefix', I, I)
    prove('value of the written digits, step', [V >= 0, n == ND(V), i >= 0, i < n, Pf(i) == Q(V, n - i), Pf(i + 1) == 10 * Pf(i) + Q(V, n - 1 - i) % 10, qs(V, n - 1 - i), Q(V, n - 1 - i) >= 0], Pf(i + 1) == Q(V, n - (i + 1)), obs)
    prove('value of the written digits, start', [V >= 0, n == ND(V), Pf(0) == 0, L(V)], Pf(0) == Q(V, n), obs)
    prove('value of the written digits, all of them', [V >= 0, n == ND(V), q0(V), Pf(n) == Q(V, n - n)], Pf(n) == V, obs)
    return obs
