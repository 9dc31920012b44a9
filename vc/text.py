"""Specification functions over a text buffer: byte B(x), full end E, and where each scanner stops."""
import z3
from .term import *
from .loops import num_slots, consts

I = z3.IntSort()
NL = 10
def c_digit(b): return z3.And(b >= 48, b <= 57)
def c_comment(b): return z3.Or(b == 37, b == 35)
def c_sign(b): return z3.Or(b == 43, b == 45)
def c_fp(b): return z3.Or(c_digit(b), b == 101, b == 69, b == 45, b == 43, b == 46)

STOP = {
    'EOL': lambda b: b == NL,
    'ND': lambda b: z3.Not(c_digit(b)),
    'DG': c_digit,
    'FP': c_fp,
    'NF': lambda b: z3.Not(c_fp(b)),
    'NB': lambda b: z3.Not(z3.Or(b == 32, b == 13)),
    'NS': lambda b: z3.Not(z3.Or(b == 32, b == 13, b == 9)),
    'DN': lambda b: z3.Or(c_digit(b), b == NL, c_comment(b)),
}
AWARE = {'FI': c_digit, 'SI': lambda b: z3.Or(c_digit(b), c_sign(b))}


class Text:
    """one text buffer; positions are byte offsets into obj"""
    def __init__(self, ex, st, enabled, name='T', size=None):
        self.ex = ex
        self.name = name
        self._memo = {}
        self.B = z3.Function('B_' + name, I, I)
        self.E = size if size is not None else P(z3.Int('E_' + name))
        st.assume(self.E.z() >= 0); st.assume(self.E.z() < (1 << 62))
        self.obj = ex.new_arr(st, 'text_' + name, self.E, es=1, content=self.B, ro=True, where='ext')
        self.F = {}
        self.enabled = [f for f in enabled if f not in ('CS',)]
        self.enabled_x = {f for f in enabled if f in ('CS',)}
        for f in self.enabled:
            if f not in ('CH',): self.F[f] = z3.Function('%s_%s' % (f, name), I, I)
        self.chars = []          # (z3 char term, function)
        self.extra = []          # further touch functions
        self.CS = z3.Function('CS_' + name, I, I)
        self.DV = z3.Function('DV_' + name, I, I, I, I)
        self.RV = {t: z3.Function('RV_%s_%s' % (t, name), I, I, I) for t in ('float', 'double')}
        self.extra_cands = []
        self.st = None            # state that specification terms are touched in
    def stop(self, f, b):
        return STOP[f](b) if f in STOP else AWARE[f](b)
    def nln(self, x): return z3.If(self.F['EOL'](x) + 1 <= self.E.z(), self.F['EOL'](x) + 1, self.E.z())
    def f(self, name, x):
        x = P(x)
        if self.st is not None: self.touch_at(self.st, x)
        return P(self.F[name](Z(x)))
    def add_char(self, c):
        """CH_c for a symbolic character value (unsigned)"""
        fn = z3.Function('CH%d_%s' % (len(self.chars), self.name), I, I)
        self.chars.append((c, fn)); return fn
    # -- definitional facts at one position
    def facts(self, x, deep=True):
        k = (x.get_id(), len(self.chars), deep)
        if k not in self._memo: self._memo[k] = (self.facts_(x, deep), x)
        return self._memo[k][0]
    def pair_facts(self, x, z):
        k = (x.get_id(), z.get_id(), len(self.chars))
        if k not in self._memo: self._memo[k] = (self.pair_facts_(x, z), x, z)
        return self._memo[k][0]
    def facts_(self, x, deep=True):
        B, E, F = self.B, self.E.z(), self.F
        b = B(x)
        fs = [z3.And(b >= 0, b <= 255), self.DV(0, x, x) == 0]
        inn = z3.And(x >= 0, x < E)
        rng = z3.And(x >= 0, x <= E)
        plain = [(F[n], STOP[n]) for n in self.enabled if n in STOP] + [(fn, (lambda c: (lambda v: v == c))(c)) for c, fn in self.chars]
        for f, stop in plain:
            y = f(x)
            fs += [z3.Implies(rng, z3.And(x <= y, y <= E)), f(E) == E,
                   z3.Implies(inn, y == z3.If(stop(b), x, f(x + 1))),
                   z3.Implies(z3.And(rng, y < E), stop(B(y))), z3.Implies(rng, f(y) == y)]
            if 'EOL' in F and f is not F['EOL'] and z3.is_true(z3.simplify(stop(z3.IntVal(NL)))):
                # scanners that stop at a newline stay on the line
                fs += [z3.Implies(rng, z3.And(y <= F['EOL'](x), F['EOL'](y) == F['EOL'](x)))]
            if deep: fs.append(z3.And(B(y) >= 0, B(y) <= 255))
        if 'SC' in F:
            y = F['SC'](x)
            fs += [z3.Implies(rng, z3.And(x <= y, y <= E)), F['SC'](E) == E,
                   z3.Implies(inn, y == z3.If(c_comment(b), F['SC'](self.nln(x)), x)),
                   z3.Implies(z3.And(rng, y < E), z3.Not(c_comment(B(y)))), z3.Implies(rng, F['SC'](y) == y),
                   z3.Implies(z3.And(inn, c_comment(b)), y >= self.nln(x)),
                   z3.Implies(rng, z3.And(F['EOL'](x) >= x, F['EOL'](x) <= E))]
        for n in AWARE:
            if n in F:
                f = F[n]; y = f(x)
                fs += [z3.Implies(rng, z3.And(x <= y, y <= E)), f(E) == E,
                       z3.Implies(inn, y == z3.If(c_comment(b), f(self.nln(x)), z3.If(AWARE[n](b), x, f(x + 1)))),
                       z3.Implies(z3.And(inn, c_comment(b)), y >= self.nln(x)),
                       z3.Implies(z3.And(rng, y < E), AWARE[n](B(y))), z3.Implies(rng, f(y) == y),
                       z3.Implies(rng, z3.And(F['EOL'](x) >= x, F['EOL'](x) <= E))]
                if 'SC' in F:
                    s = F['SC'](x)
                    fs += [z3.Implies(rng, z3.And(f(s) == y, s <= y))]
        if 'CS' in self.enabled_x:
            # numbers of the line after x that are followed by something other than blanks or a comment
            y = F['DN'](x); z = F['NF'](y); w = F['NS'](z)
            for q in (y, z, w): fs.append(z3.And(B(q) >= 0, B(q) <= 255))
            stop = z3.Or(w >= E, B(w) == NL, c_comment(B(w)))
            nonum = z3.Or(y >= E, z3.Not(c_digit(B(y))))
            fs += [z3.Implies(rng, self.CS(x) == z3.If(nonum, 0, z3.If(stop, 0, 1 + self.CS(w)))),
                   z3.Implies(rng, z3.And(y >= x, y <= E)), z3.Implies(z3.And(rng), z3.And(z >= y, z <= E, w >= z, w <= E))]
            for q in (y, z): 
                for nm in ('DN', 'NF', 'NS', 'EOL'):
                    fs.append(z3.Implies(z3.And(q >= 0, q < E), F[nm](q) == z3.If(STOP[nm](B(q)), q, F[nm](q + 1))))
                    fs.append(z3.Implies(z3.And(q >= 0, q <= E), z3.And(F[nm](q) >= q, F[nm](q) <= E)))
        return fs
    def pair_facts_(self, x, z):
        F = self.F
        fs = []
        E = self.E.z()
        plain = [(F[n], STOP[n]) for n in self.enabled if n in STOP] + [(fn, (lambda c: (lambda v: v == c))(c)) for c, fn in self.chars]
        for a, b in ((x, z), (z, x)):
            for f, stop in plain:
                fs += [z3.Implies(z3.And(a >= 0, a <= b, b <= f(a), a <= E), f(b) == f(a)),
                       z3.Implies(z3.And(a >= 0, a <= b, b < f(a)), z3.Not(stop(self.B(b)))),
                       z3.Implies(z3.And(a >= 0, a <= b, b <= E), f(a) <= f(b))]
            for n in AWARE:
                # from a line end on, what is found does not depend on where before it the search began
                if n in F: fs.append(z3.Implies(z3.And(a >= 0, a <= b, b <= E, z3.Or(b == E, self.B(b) == NL)), z3.Or(F[n](a) <= b, F[n](a) == F[n](b))))
        return fs
    def touch_at(self, st, x):
        """x: Poly position"""
        k = ('T', self.name, P(x).key())
        if k in st.touched: return
        pts = st.g.get('pts_' + self.name, ())
        st.touched = st.touched | {k}
        xz = Z(P(x))
        st.assume(z3.And(*self.facts(xz)), 'lemma')
        for z in pts[-6:]:
            pf = self.pair_facts(xz, z)
            if pf: st.assume(z3.And(*pf), 'lemma')
        st.g['pts_' + self.name] = pts + (xz,)
        for e in self.extra: e(st, P(x))
    # -- hook interface
    def touch(self, ex, st, o, idx):
        if o is self.obj: self.touch_at(st, idx)
    def is_text(self, v): return isinstance(v, PtrV) and v.obj == self.obj.id
    def slot_touch(self, ex, st, s):
        if s.kind != 'arr' and self.is_text(s.cur): self.touch_at(st, s.cur.off)
    def slot_touch_init(self, ex, st, s):
        if s.kind != 'arr' and self.is_text(s.cur) and s.init_z is not None: self.touch_at(st, P(s.init_z))
    def slot_touch_val(self, ex, st, s, v):
        if self.is_text(v): self.touch_at(st, v.off)
    def cands(self, ctx):
        cs = []
        pf = ctx.pre_facts
        cids = {s.const.get_id() for s in ctx.slots if s.const is not None}
        ts = [s for s in ctx.slots if s.kind != 'arr' and self.is_text(s.cur) and s.init_z is not None]
        if not ts: return cs
        bounds = [(self.E, 'E')]
        for a, b in ctx.pairs:
            for t in (a, b):
                if t.isconst(): continue
                if any(c.get_id() in cids for c in consts(t.z())): continue
                if self.obj_size_like(t): continue
                bounds.append((t, str(t)))
        fns = [(n, f) for n, f in self.F.items()] + [('CH%d' % i, f) for i, (c, f) in enumerate(self.chars)]
        for s in ts:
            x, x0 = s.const, s.init_z
            for t in self.facts(x0): pf.append(t)
            cs.append(('%s in text' % s.name, z3.And(x >= 0, x <= self.E.z())))
            for n, f in fns:
                cs.append(('%s(%s) fixed' % (n, s.name), f(x) == f(x0)))
                cs.append(('%s <= %s(%s0)' % (s.name, n, s.name), x <= f(x0)))
                cs.append(('%s(%s) is there' % (n, s.name), f(x) == x))
                for b, bn in bounds[1:4]:
                    bz = b.z()
                    mn = lambda v: z3.If(v <= bz, v, bz)
                    cs.append(('min(%s(%s),%s) fixed' % (n, s.name, bn), mn(f(x)) == mn(f(x0))))
                    cs.append(('min(%s(%s),%s) is there' % (n, s.name, bn), mn(f(x)) == x))
            for b, bn in bounds:
                cs.append(('%s <= %s' % (s.name, bn), x <= b.z()))
            for v in num_slots(ctx):
                if isinstance(v.cur, IntV) and v.cur.bits >= 32 and v.init_z is not None:
                    M = 1 << v.cur.bits
                    if v.cur.bits != 64: continue
                    DV = self.DV
                    pf.append(DV(v.init_z, x0, x0) == v.init_z)
                    pf.append(DV(v.init_z, x0, x + 1) == (10 * DV(v.init_z, x0, x) + self.B(x) - 48) % M)
                    cs.append(('%s is the value of the digits before %s' % (v.name, s.name), v.const == DV(v.init_z, x0, x)))
            for v in num_slots(ctx):
                if isinstance(v.cur, IntV) and v.init_z is not None:
                    cs.append(('%s grows at most as %s' % (v.name, s.name), v.const - v.init_z <= x - x0))
                    if 'CS' in self.enabled_x:
                        cs.append(('%s counts the numbers passed by %s' % (v.name, s.name), v.const + self.CS(x) == v.init_z + self.CS(x0)))
            for v in ctx.slots:
                if v.kind != 'arr' and isinstance(v.cur, FltV) and v.const is not None and v.init_z is not None: cs.append(('%s is unchanged while %s is' % (v.name, s.name), z3.Implies(x == x0, v.const == v.init_z)))
            for g in self.extra_cands: cs += g(ctx, s)
        return cs
    def obj_size_like(self, t):
        """not a position: the value of a byte"""
        seen, st = set(), [t.z()]
        while st:
            x = st.pop()
            if z3.is_app(x):
                if x.decl().eq(self.B): return True
                st.extend(x.children())
        return False
    def ranks(self, ctx):
        return [('E - ' + s.name, self.E.z() - s.const) for s in ctx.slots if s.kind != 'arr' and self.is_text(s.cur) and s.const is not None]
