"""Symbolic execution of LLVM IR with contracts, models and inferred (then proved) loop invariants."""
import re, time, z3
from . import ir
from .ir import IntT, PtrT, FloatT, VoidT, ArrT, StructT, sizeof, offsets
from .term import *
from .core import *


class Out:
    __slots__ = ('kind', 'st', 'val', 'x')
    def __init__(self, kind, st, val=None, x=None): self.kind, self.st, self.val, self.x = kind, st, val, x
class Item:
    __slots__ = ('blk', 'prev', 'idx', 'st', 'regs')
    def __init__(self, blk, prev, idx, st, regs): self.blk, self.prev, self.idx, self.st, self.regs = blk, prev, idx, st, regs
class Frame:
    __slots__ = ('fn', 'site')
    def __init__(self, fn, site): self.fn, self.site = fn, site


def predsucc(fn):
    if fn.loops is None: fn.loops = ir.loops_of(fn)
    return fn.loops


def fp_fn(ex, st, args, ins):
    """library arithmetic on floating-point values: some function of its arguments, without side effects"""
    nm = ins.a['callee'].lstrip('@') if ins is not None else 'fp'
    if any(isinstance(a, UndefV) for a in args): return FltV(fresh('undef').z(), ins.ty.name)
    zs = [a.t if isinstance(a, FltV) else Z(ex.U(st, a)) for a in args]
    return FltV(z3.Function(nm, *([z3.IntSort()] * (len(zs) + 1)))(*zs), ins.ty.name)
FPM = [(re.compile(r'^llvm\.(fmuladd|fabs|pow|powi)\.|^pow$|^powf$|^fabs$'), fp_fn)]


class Exec:
    def __init__(self, mod, demangle=None):
        self.mod = mod
        self.solver = Solver()
        self.gsolver = GroundSolver()
        self.objs = {}
        self.contracts, self.models = {}, list(FPM)
        self.obs = Obs()
        self.hints = None        # (function, loop) -> candidates worth trying, from a run of the same task
        self.search = 0          # >0: obligations are assumed (invariant search), not recorded
        self.callstack = []
        self.inv_cache = {}
        self.icmps = None        # comparison operands collected during loop discovery
        self.hooks = []          # theories: .touch(ex, st, obj, off), .cands(...)
        self.strict_uninit = False
        self.globals = {}
        self.dem = demangle or {}
        self.funcs_seen = set(); self.contracts_used = set(); self.models_used = set()
        self.invs = {}
        self.log = None
        self.omp = None
        self.maxdepth = 60
        self.prods = {}
        self.le_def = {}
        self.copyinfo = {}
        self.bytes_of = {}
        self.merge_at = 5
        self.merge_pts = False      # also merge paths that differ in which positions have been looked at
        self.loopinfo = []
        self.assumed = set()
        self.nexec = 0
        self.deadline = DEADLINE[0]
        self.access_hook = None   # (st, obj, off, size, 'r'|'w', ins)

    # ------------------------------------------------------------------ objects
    def new_obj(self, name, size, kind, **kw):
        i = fresh_id()
        o = Obj(i, '%s#%d' % (name, i), size, kind, **kw)
        self.objs[i] = o
        return o
    def new_cells(self, st, name, size, **kw):
        o = self.new_obj(name, size, 'cells', **kw); st.mem[o.id] = {}
        return o
    def new_arr(self, st, name, size, es=None, content=None, **kw):
        o = self.new_obj(name, size, 'arr', es=es, **kw)
        st.mem[o.id] = content if content is not None else fresh_arr(name)
        return o
    def fresh_int(self, st, bits, name='v'):
        x = fresh(name); st.assume(z3.And(x.z() >= 0, x.z() < (1 << bits)))
        return IntV(bits, u=x)
    def fresh_val(self, st, ty, name='v'):
        if isinstance(ty, IntT):
            if ty.bits == 1: return BoolV(fresh_bool(name))
            return self.fresh_int(st, ty.bits, name)
        if isinstance(ty, FloatT): return FltV(fresh(name).z(), ty.name)
        if isinstance(ty, (StructT,)): return AggV([self.fresh_val(st, f, name) for f in ty.fields])
        raise Unsupported('fresh %r' % ty)

    # ------------------------------------------------------------------ obligations and ints
    def where(self): return self.callstack[-1].fn.name if self.callstack else '?'
    def oblige(self, st, kind, goal, what=''):
        """returns False if the path cannot continue"""
        if z3.is_true(goal):
            if not self.search: self.obs.append(Obligation(kind, self.where(), what, True))
            return True
        if not self.search:
            ok = self.solver.prove(st.path, goal, timeout=8000 if st.path.depth < 3000 else 2500, hard=True)
            model = None if ok else self.solver.model
            self.obs.append(Obligation(kind, self.where(), what, ok, model=model))
            if not ok and self.log: self.log('FAILED %s in %s: %s' % (kind, self.where(), what))
            if not ok: self.last_fail = (st.path, goal)
        if z3.is_false(goal): return False
        st.assume(goal)
        return True
    def prove(self, st, goal, timeout=4000):
        if z3.is_true(goal): return True
        if ground(goal):
            if self.gsolver.prove(st.path, goal, 1500): return True
            if not st.path.quantified(): return False
        return self.solver.prove(st.path, goal, timeout)
    def U(self, st, v):
        if v.u is not None: return v.u
        M = 1 << v.bits
        if self.prove(st, cmp('>=', v.s, 0)): return v.s
        if self.prove(st, lt(v.s, 0)): return v.s + M
        return ite(lt(v.s, 0), v.s + M, v.s)
    def S(self, st, v):
        if v.s is not None: return v.s
        M = 1 << v.bits
        if self.prove(st, lt(v.u, M // 2)): return v.u
        if self.prove(st, cmp('>=', v.u, M // 2)): return v.u - M
        return ite(lt(v.u, M // 2), v.u, v.u - M)
    def wrapU(self, st, bits, r):
        """r mathematically computed; the machine result is r mod 2^bits"""
        M = 1 << bits
        if r.isconst(): return IntV(bits, u=r.c % M)
        lo, hi = cmp('>=', r, 0), lt(r, M)
        if self.prove(st, And(lo, hi)): return IntV(bits, u=r)
        if not (ground(lo) and self.gsolver.prove(st.path, lo, 1000)):
            if self.prove(st, And(cmp('>=', r, -(M // 2)), lt(r, M // 2))): return IntV(bits, s=r)
            if self.prove(st, And(cmp('>=', r, -M), lt(r, M))): return IntV(bits, u=ite(lt(r, 0), r + M, r))
        if self.prove(st, And(lo, lt(r, 2 * M))): return IntV(bits, u=ite(cmp('>=', r, M), r - M, r))
        return IntV(bits, u=P(r.z() % M), w=r)
    def form(self, v):
        """the integer to compute with: small constants, unreduced sums"""
        if v.isconst(): return v.s
        if v.w is not None: return v.w
        return v.u if v.u is not None else v.s

    def binop(self, st, ins, o, bits, a, b):
        if isinstance(a, UndefV) or isinstance(b, UndefV):
            return self.fresh_int(st, bits, 'undef')
        fl = ins.a.get('fl', ())
        if bits == 1:
            x, y = self.B(a), self.B(b)
            if o == 'and': return BoolV(And(x, y))
            if o == 'or': return BoolV(Or(x, y))
            if o == 'xor': return BoolV(Not(x) if z3.is_true(y) else x if z3.is_false(y) else z3.Xor(x, y))
            raise Unsupported('i1 ' + o)
        M = 1 << bits
        if o in ('add', 'sub', 'mul'):
            if 'nsw' in fl:
                x, y = self.S(st, a), self.S(st, b)
                r = x + y if o == 'add' else x - y if o == 'sub' else x * y
                if not r.isconst() or not (-(M // 2) <= r.c < M // 2):
                    self.oblige(st, 'ovf', And(cmp('>=', r, -(M // 2)), lt(r, M // 2)), 'signed overflow in ' + ins.line.strip())
                v = IntV(bits, s=r)
                if self.prove(st, cmp('>=', r, 0)): v.u = r
                return v
            if o == 'mul':
                x, y = self.form(a), self.form(b)
                r = x * y
                if not x.isconst() and not y.isconst(): self.mulfacts(st, x, y)
                return self.wrapU(st, bits, r)
            x, y = self.form(a), self.form(b)
            return self.wrapU(st, bits, x + y if o == 'add' else x - y)
        if o in ('udiv', 'urem'):
            x, y = self.U(st, a), self.U(st, b)
            self.oblige(st, 'div0', cmp('!=', y, 0), 'division by zero in ' + ins.line.strip())
            if y.isconst() and y.c:
                if x.divisible(y.c): return IntV(bits, u=x.divexact(y.c) if o == 'udiv' else 0)
                return IntV(bits, u=P(x.z() / y.c) if o == 'udiv' else P(x.z() % y.c))
            q = self.divfacts(st, x, y)
            if o == 'udiv': return IntV(bits, u=q)
            return IntV(bits, u=x - q * y)
        if o in ('sdiv', 'srem'):
            x, y = self.S(st, a), self.S(st, b)
            self.oblige(st, 'div0', cmp('!=', y, 0), 'division by zero in ' + ins.line.strip())
            if y.isconst() and y.c > 0:
                if x.divisible(y.c): return IntV(bits, s=x.divexact(y.c) if o == 'sdiv' else 0)
                if 'exact' in fl:
                    return IntV(bits, s=P(x.z() / y.c))
                if self.prove(st, cmp('>=', x, 0)):
                    return IntV(bits, s=P(x.z() / y.c) if o == 'sdiv' else P(x.z() % y.c))
                q = z3.If(x.z() >= 0, x.z() / y.c, -((-x.z()) / y.c))
                return IntV(bits, s=P(q) if o == 'sdiv' else x - P(q) * y.c)
            raise Unsupported('signed division by a variable')
        if o == 'shl' and b.isconst():
            return self.wrapU(st, bits, self.U(st, a) * (1 << b.u.c))
        if o == 'lshr' and b.isconst(): return IntV(bits, u=P(self.U(st, a).z() / (1 << b.u.c)))
        if o == 'ashr' and b.isconst():
            x = self.S(st, a); k = 1 << b.u.c
            if x.divisible(k): return IntV(bits, s=x.divexact(k))
            return IntV(bits, s=P(x.z() / k))
        if o == 'and' and (a.isconst() or b.isconst()):
            if a.isconst(): a, b = b, a
            k = b.u.c
            if k == M - 1: return a
            if k & (k + 1) == 0: return IntV(bits, u=P(self.U(st, a).z() % (k + 1)))
        if o in ('and', 'or', 'xor', 'shl', 'lshr') and a.isconst() and b.isconst():
            x, y = a.u.c, b.u.c
            return IntV(bits, u={'and': x & y, 'or': x | y, 'xor': x ^ y, 'shl': x << min(y, bits), 'lshr': x >> min(y, bits)}[o] % M)
        if o == 'or':
            if a.isconst(): a, b = b, a
            if b.isconst() and b.u.c == 0: return a
            # disjoint bits: the sum
            if b.isconst() and b.u.c > 0 and b.u.c & (b.u.c - 1) == 0:
                x = self.U(st, a); k = b.u.c
                if self.prove(st, (x.z() / k) % 2 == 0): return IntV(bits, u=x + k)
                return IntV(bits, u=ite((x.z() / k) % 2 == 0, x + k, x))
        if o == 'xor' and b.isconst() and b.u.c == M - 1:
            return IntV(bits, s=-1 - self.S(st, a)) if a.u is None else IntV(bits, u=M - 1 - a.u)
        raise Unsupported('%s i%d' % (o, bits))
    def mulfacts(self, st, x, y):
        """facts about an uninterpreted product of two non-negative terms"""
        t = (x * y).z()
        xz, yz = x.z(), y.z()
        st.assume(z3.Implies(z3.And(xz >= 0, yz >= 0), t >= 0), 'lemma')
        st.assume(z3.Implies(z3.And(xz >= 1, yz >= 0), t >= yz), 'lemma'); st.assume(z3.Implies(z3.And(yz >= 1, xz >= 0), t >= xz), 'lemma')
        st.assume(z3.Implies(xz == 0, t == 0), 'lemma'); st.assume(z3.Implies(yz == 0, t == 0), 'lemma')
        for mono in (x * y).m:
            if len(mono) < 2: continue
            m = atom_term(mono[0])
            for q in mono[1:]:
                m = MULF(m, atom_term(q)); self.prodfacts(st, m)
    def prodfacts(self, st, t):
        """a product against the products already there that share a factor"""
        k = ('prod', t.get_id())
        if k in st.touched: return
        x, y = t.arg(0), t.arg(1)
        st.assume(z3.And(z3.Implies(z3.And(x >= 0, y >= 0), t >= 0), z3.Implies(z3.And(x >= 1, y >= 0), t >= y), z3.Implies(z3.And(y >= 1, x >= 0), t >= x),
                         z3.Implies(x == 0, t == 0), z3.Implies(y == 0, t == 0), z3.Implies(x == 1, t == y), z3.Implies(y == 1, t == x)), 'lemma')
        for k2 in list(st.touched):
            if k2[0] != 'prod': continue
            m = self.prods[k2[1]]
            for a, f in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
                for b, g in ((m.arg(0), m.arg(1)), (m.arg(1), m.arg(0))):
                    if not f.eq(g) or a.eq(b): continue
                    st.assume(z3.Implies(f >= 0, z3.And(z3.Implies(a < b, t + f <= m), z3.Implies(b < a, m + f <= t))), 'lemma')
                    st.assume(z3.Implies(a == b, t == m), 'lemma')
        self.prods[t.get_id()] = t
        st.touched = st.touched | {k}
    def divfacts(self, st, x, y):
        if self.omp is not None:
            r = self.omp.partition(st, x, y)
            if r is not None: return r
        q = DIVF(x.z(), y.z()); qp = P(q)
        xz, yz = x.z(), y.z()
        prod = qp * y
        k = ('div', q.get_id())
        if k not in st.touched:
            st.touched = st.touched | {k}
            st.assume(z3.Implies(z3.And(xz >= 0, yz > 0), z3.And(q >= 0, q <= xz, prod.z() <= xz, xz < prod.z() + yz, z3.Implies(yz > xz, q == 0), z3.Implies(yz == 1, q == xz))), 'lemma')
            self.mulfacts(st, qp, y)
        return qp
    def B(self, v):
        if isinstance(v, BoolV): return v.b
        if isinstance(v, UndefV): return fresh_bool('undef')
        raise Unsupported('bool of %r' % v)

    # ------------------------------------------------------------------ values
    def val(self, st, regs, ty, v):
        k = v[0]
        if k == 'r': return regs[v[1]]
        if k == 'i':
            if isinstance(ty, IntT):
                if ty.bits == 1: return BoolV(TRUE if v[1] & 1 else FALSE)
                return IntV(ty.bits, u=v[1] % (1 << ty.bits))
            raise Unsupported('const')
        if k == 'null': return NULL
        if k == 'undef': return UndefV(ty)
        if k == 'f': return self.fconst(v[1], ty)
        if k == 'g': return self.globalptr(st, v[1])
        if k == 'gep':
            return self.gep(st, v[1], [(t, self.val(st, regs, t, x)) for t, x in v[2]])
        if k == 'zero': return self.zero(ty)
        if k == 'agg': return AggV([self.val(st, regs, t, x) for t, x in v[1]])
        if k == 'cast':
            x = self.val(st, regs, v[2], v[3])
            if v[1] == 'inttoptr' and isinstance(x, IntV) and x.isconst(): return PtrV(None, x.s)
            return x
        raise Unsupported('value %r' % (v,))
    def zero(self, ty):
        if isinstance(ty, IntT): return BoolV(FALSE) if ty.bits == 1 else IntV(ty.bits, u=0)
        if isinstance(ty, PtrT): return NULL
        if isinstance(ty, FloatT): return self.fconst('0.0', ty)
        if isinstance(ty, StructT): return AggV([self.zero(f) for f in ty.fields])
        raise Unsupported('zero %r' % ty)
    def fconst(self, txt, ty): return FltV(z3.Int('fp$%s$%s' % (ty.name, txt)), ty.name)
    def globalptr(self, st, name):
        if name in self.mod.funcs or name in self.mod.decls: return FnV(name)
        if name not in self.globals:
            ty, init, const = self.mod.globals[name] if name in self.mod.globals else (None, None, False)
            data = init[1] if init and init[0] == 'str' else None
            try: sz = sizeof(ty) if ty is not None else None
            except Exception: sz = None
            if data is not None:
                o = self.new_obj('g' + name, len(data), 'arr', es=1, ro=True, where='global'); o.props['data'] = data
                a = fresh_arr('str'); o.props['arr'] = a
            else:
                o = self.new_obj('g' + name, sz, 'cells', where='global', ro=const)
            self.globals[name] = o.id
        i = self.globals[name]; o = self.objs[i]
        if i not in st.mem:
            if o.kind == 'arr':
                st.mem[i] = o.props['arr']
                for k, c in enumerate(o.props['data'][:256]): st.assume(o.props['arr'][k] == c)
            else: st.mem[i] = {}
        return PtrV(i, 0)
    def gep(self, st, bt, ops):
        p = ops[0][1]
        if not isinstance(p, PtrV): raise Unsupported('gep on %r' % p)
        off = p.off
        t = bt
        for n, (ity, iv) in enumerate(ops[1:]):
            if isinstance(iv, UndefV): raise Unsupported('gep undef')
            if n == 0: sz = sizeof(t)
            elif isinstance(t, StructT):
                i = iv.u.c; off = off + offsets(t)[i]; t = t.fields[i]; continue
            elif isinstance(t, ArrT): t = t.e; sz = sizeof(t)
            else: raise Unsupported('gep')
            ix = iv.s if iv.s is not None else (iv.u if iv.bits == 64 and self.prove(st, lt(iv.u, 1 << 63)) else self.S(st, iv))
            off = off + ix * sz
        if p.obj is None and off.isconst() and off.c == 0: return NULL
        return PtrV(p.obj, off)

    # ------------------------------------------------------------------ memory
    def access(self, st, p, size, rw, what):
        """obligations for an access; returns the object or None if the path ends"""
        if isinstance(p, UndefV):
            self.oblige(st, 'mem', FALSE, 'access through an undefined pointer: ' + what); return None
        if not isinstance(p, PtrV): raise Unsupported('access through %r' % (p,))
        if p.obj is None:
            if not self.oblige(st, 'null', FALSE, 'null dereference: ' + what): return None
        o = self.objs[p.obj]
        if p.obj in st.dead:
            if not self.oblige(st, 'uaf', FALSE, 'access to released memory %s: %s' % (o.name, what)): return None
        if rw == 'w' and o.ro:
            if not self.oblige(st, 'write', FALSE, 'write to read-only memory %s: %s' % (o.name, what)): return None
        if o.size is None: raise Unsupported('object of unknown size ' + o.name)
        sz = P(size)
        g = And(cmp('>=', p.off, 0), le(p.off + sz, o.size))
        if not self.oblige(st, 'mem', g, '%s of %s: %s' % ('write' if rw == 'w' else 'read', o.name, what)): return None
        if self.access_hook: self.access_hook(st, o, p.off, sz, rw, what)
        return o
    def elem_val(self, st, o, ty, t):
        """machine value of an array element term"""
        if isinstance(ty, FloatT): return FltV(t, ty.name)
        if isinstance(ty, IntT):
            k = ('rng', t.get_id(), ty.bits)
            if k not in st.touched:
                st.touched = st.touched | {k}
                st.assume(z3.And(t >= 0, t < (1 << ty.bits)))
                st.g.setdefault('keep', []); self.keepalive(t)
            return IntV(ty.bits, u=P(t))
        raise Unsupported('array element %r' % ty)
    _keep = []
    def keepalive(self, t): self._keep.append(t)
    def load(self, st, ty, p, what=''):
        if isinstance(ty, StructT):
            vs = []
            for f, of in zip(ty.fields, offsets(ty)):
                v = self.load(st, f, PtrV(p.obj, p.off + of), what)
                if v is None: return None
                vs.append(v)
            return AggV(vs)
        sz = sizeof(ty)
        o = self.access(st, p, sz, 'r', what)
        if o is None: return None
        if o.kind == 'cells':
            if not p.off.isconst(): return self.load_sym(st, o, p, ty, sz)
            c = st.mem[o.id].get(p.off.c)
            if c is None:
                v = self.uninit(st, o, p.off.c, ty, sz)
                if v is None: return None
                st.mem[o.id] = {**st.mem[o.id], p.off.c: (sz, v)}
                return v
            if c[0] != sz:
                return self.recell(st, o, p.off.c, ty, sz, c)
            v = c[1]
            if isinstance(v, UndefV): return v
            return v
        if o.es is None: o.es = sz
        if o.elem == 'ptr':
            raise Unsupported('pointer array')
        if o.es == sz or sz < o.es and o.props.get('pairs'):
            return self.elem_val(st, o, ty, self.select(st, o, p.off, sz))
        if o.es == 1:
            # little-endian composition from bytes
            r = P(0); ids = []
            for k in range(sz):
                b = self.elem_val(st, o, IntT(8), self.select(st, o, p.off + k, 1))
                r = r + b.u * (256 ** k); ids.append(b.u.z().get_id())
            if tuple(ids) in self.bytes_of: r = self.bytes_of[tuple(ids)]
            elif not r.isconst(): r0 = r; self.bytes_of[tuple(ids)] = r = fresh('le'); self.le_def[r.z().get_id()] = r0
            d = self.le_def.get(r.z().get_id()) if not r.isconst() else None
            if d is not None and ('le', r.key()) not in st.touched:
                st.touched = st.touched | {('le', r.key())}
                st.assume(z3.And(r.z() == d.z(), r.z() >= 0, r.z() < 256 ** sz))
            if isinstance(ty, FloatT): return FltV(r.z(), ty.name)
            return IntV(ty.bits, u=r)
        raise Unsupported('load of %d bytes from %s (elements of %d)' % (sz, o.name, o.es))
    def index(self, st, o, off):
        es = o.es
        if es == 1: return off
        if off.divisible(es): return off.divexact(es)
        q = off.z() / es
        if not self.prove(st, off.z() % es == 0): raise Unsupported('misaligned access to ' + o.name)
        return P(q)
    def select(self, st, o, off, sz):
        idx = self.index(st, o, off)
        for h in self.hooks: h.touch(self, st, o, idx)
        c = st.mem[o.id]
        t = z3.Select(c, idx.z()) if not callable(c) else c(idx.z())
        # read over write on syntactically known indices
        while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT:
            ci = self.copyinfo.get(t.arg(0).get_id())
            if ci is not None:
                _, lo, hi, rd, A = ci; j = t.arg(1)
                def outside():
                    d1, d2 = P(j) - lo, P(j) - hi
                    if d1.isconst() and d1.c < 0 or d2.isconst() and d2.c >= 0: return True
                    return self.prove(st, Or(lt(P(j), lo), cmp('>=', P(j), hi)))
                if outside(): t = z3.Select(A, j) if not callable(A) else A(j)
                elif self.prove(st, And(le(lo, P(j)), lt(P(j), hi))): t = rd(P(j))
                else: break
                continue
            if not z3.is_store(t.arg(0)): break
            a, i, v = t.arg(0).children(); j = t.arg(1)
            d = P(i) - P(j)
            if d.isconst() and d.c == 0: t = v; break
            if d.isconst(): t = z3.Select(a, j)
            elif self.prove(st, i == j): t = v; break
            elif self.prove(st, i != j): t = z3.Select(a, j)
            else: break
        return t
    def load_sym(self, st, o, p, ty, sz): raise Unsupported('symbolic offset in ' + o.name)
    def recell(self, st, o, off, ty, sz, c):
        if isinstance(ty, IntT) and isinstance(c[1], IntV) and sz < c[0]: return IntV(ty.bits, u=P(self.U(st, c[1]).z() % (1 << ty.bits)))
        raise Unsupported('cell size mismatch in %s at %d' % (o.name, off))
    def uninit(self, st, o, off, ty, sz):
        for h in self.hooks:
            f = getattr(h, 'uninit', None)
            if f:
                v = f(self, st, o, off, ty, sz)
                if v is not None: return v
        if o.where == 'global' and isinstance(ty, PtrT): raise Unsupported('global %s' % o.name)
        if isinstance(ty, PtrT): return UndefV(ty)
        # inside a wider cell?
        for q, (n, v) in st.mem[o.id].items():
            if q < off < q + n and isinstance(v, IntV): 
                return IntV(sz * 8, u=P((self.U(st, v).z() / (256 ** (off - q))) % (256 ** sz)))
        return self.fresh_val(st, ty, 'uninit')
    def store(self, st, ty, p, v, what=''):
        if isinstance(v, AggV):
            t = ty
            for f, x, of in zip(t.fields, v.vs, offsets(t)):
                if self.store(st, f, PtrV(p.obj, p.off + of), x, what) is None: return None
            return True
        sz = sizeof(ty)
        o = self.access(st, p, sz, 'w', what)
        if o is None: return None
        if o.kind == 'cells':
            if not p.off.isconst(): raise Unsupported('symbolic offset store in ' + o.name)
            m = dict(st.mem[o.id])
            of = p.off.c
            for q in [q for q in m if q != of and q < of + sz and of < q + m[q][0]]: del m[q]
            m[of] = (sz, v); st.mem[o.id] = m
            return True
        if o.es is None: o.es = sz
        if o.es == sz or sz < o.es and o.props.get('pairs'):
            idx = self.index(st, o, p.off)
            t = self.raw(st, v, sz)
            st.mem[o.id] = z3.Store(st.mem[o.id], idx.z(), t)
            return True
        if o.es == 1:
            t = P(self.raw(st, v, sz))
            a = st.mem[o.id]
            if t.isconst(): bs = [P((t.c // 256 ** k) % 256) for k in range(sz)]
            elif isinstance(v, IntV):
                # the little-endian bytes of the value
                bs = [fresh('byte') for k in range(sz)]
                for b in bs: st.assume(z3.And(b.z() >= 0, b.z() <= 255)); st.touched = st.touched | {('rng', b.z().get_id(), 8)}; self.keepalive(b.z())
                st.assume(z3.Sum([b.z() * (256 ** k) for k, b in enumerate(bs)]) == t.z())
                self.bytes_of[tuple(b.z().get_id() for b in bs)] = t
            else: bs = [P((t.z() / (256 ** k)) % 256) for k in range(sz)]
            for k, b in enumerate(bs): a = z3.Store(a, (p.off + k).z(), b.z())
            st.mem[o.id] = a
            return True
        raise Unsupported('store of %d bytes to %s (elements of %d)' % (sz, o.name, o.es))
    def raw(self, st, v, sz):
        if isinstance(v, IntV): return Z(self.U(st, v))
        if isinstance(v, FltV): return v.t
        if isinstance(v, UndefV): return fresh('undef').z()
        raise Unsupported('store of %r into an array' % (v,))
    def memcpy(self, st, d, s, n, what='memcpy'):
        """n a Poly"""
        if n.isconst() and n.c == 0: return True
        od = self.access(st, d, n, 'w', what) if not (n.isconst() is False and self.zero_ok(st, d, s, n)) else self.objs.get(d.obj)
        if od is None: return None
        os_ = self.access(st, s, n, 'r', what)
        if os_ is None: return None
        if od.kind == 'cells' and os_.kind == 'cells':
            if not (n.isconst() and d.off.isconst() and s.off.isconst()): raise Unsupported('symbolic memcpy of cells')
            m = dict(st.mem[od.id]); do, so = d.off.c, s.off.c
            for q in [q for q in m if do <= q < do + n.c]: del m[q]
            for q, (z, v) in st.mem[os_.id].items():
                if so <= q and q + z <= so + n.c: m[q - so + do] = (z, v)
            st.mem[od.id] = m
            return True
        if od.kind == 'arr' and os_.kind == 'arr':
            if od.es is None and os_.es is None: od.es = os_.es = 1
            if od.es is None: od.es = os_.es
            if os_.es is None: os_.es = od.es
            if od.es != os_.es: raise Unsupported('memcpy between element sizes %d and %d' % (od.es, os_.es))
            es = od.es
            di, si = self.index(st, od, d.off), self.index(st, os_, s.off)
            nn = n if es == 1 else (n.divexact(es) if n.divisible(es) else None)
            if nn is None: raise Unsupported('memcpy length')
            A, S = st.mem[od.id], st.mem[os_.id]
            self.note_copy(st, d, s, n)
            D = fresh_arr('cp')
            k = z3.Int('k')
            rd = S(k - di.z() + si.z()) if callable(S) else z3.Select(S, k - di.z() + si.z())
            st.assume(z3.ForAll([k], z3.Select(D, k) == z3.If(z3.And(k >= di.z(), k < (di + nn).z()), rd, z3.Select(A, k)), patterns=[z3.Select(D, k)]))
            st.mem[od.id] = D
            self.copyinfo[D.get_id()] = (D, di, di + nn, (lambda j: S(Z(j - di + si))) if callable(S) else (lambda j: z3.Select(S, Z(j - di + si))), A)
            return True
        raise Unsupported('memcpy between %s and %s' % (od.name, os_.name))
    def zero_ok(self, st, d, s, n): return False
    def note_copy(self, st, d, s, n):
        if self.omp is not None and self.omp.region is not None: st.g['copies'] = st.g.get('copies', ()) + ((d.obj, d.off, n, s.obj, s.off),)

    # ------------------------------------------------------------------ calls
    def match_model(self, name):
        for rx, h in self.models:
            if rx.search(name): return h
        return None
    def call(self, st, name, args, ins=None, rty=None):
        """-> list of Out('ret'|'throw')"""
        d = self.dem.get(name, name)
        c = self.contracts.get(name)
        if c is not None and not (self.callstack and getattr(self, 'proving', None) == name and len(self.callstack) == 0):
            self.contracts_used.add(name)
            return c.apply(self, st, args)
        h = self.match_model(d) or self.match_model(name)
        if h is not None:
            self.models_used.add(d)
            r = h(self, st, args, ins)
            if isinstance(r, list): return r
            return [Out('ret', st, r)]
        if name in self.mod.funcs: return self.inline(st, name, args, ins)
        raise Unsupported('call to ' + d)
    def inline(self, st, name, args, ins=None):
        fn = self.mod.funcs[name]
        if len(self.callstack) > self.maxdepth: raise Unsupported('call depth')
        if sum(1 for f in self.callstack if f.fn is fn) > 2: raise Unsupported('recursion in ' + self.dem.get(name, name))
        self.funcs_seen.add(name)
        regs = {}
        for (t, pn), a in zip(fn.params, args): regs[pn] = a
        self.callstack.append(Frame(fn, ins.line if ins is not None else ''))
        try:
            outs = self.run(fn, [Item(fn.entry, None, 0, st, regs)])
        finally: self.callstack.pop()
        rets = [o for o in outs if o.kind == 'ret']; oth = [o for o in outs if o.kind != 'ret']
        if len(rets) >= self.merge_at: rets = self.merge(rets)
        return rets + oth

    # ------------------------------------------------------------------ merging
    def merge(self, outs):
        groups = []
        for o in outs:
            for g in groups:
                if self.compatible(g[0], o): g.append(o); break
            else: groups.append([o])
        return [self.merge_group(g) if len(g) > 1 else g[0] for g in groups]
    def vcompat(self, a, b):
        if isinstance(a, PtrV) and isinstance(b, PtrV): return a.obj == b.obj
        if a is b: return True
        if a is None or b is None: return a is None and b is None
        if isinstance(a, UndefV) or isinstance(b, UndefV): return isinstance(a, UndefV) and isinstance(b, UndefV)
        if type(a) != type(b): return False
        if isinstance(a, IntV): return a.bits == b.bits
        if isinstance(a, FnV): return a.name == b.name
        if isinstance(a, AggV): return all(self.vcompat(x, y) for x, y in zip(a.vs, b.vs))
        return isinstance(a, (BoolV, FltV))
    def compatible(self, a, b):
        if a.st.dead != b.st.dead or not self.vcompat(a.val, b.val): return False
        drop = lambda g: {k for k in g if not (self.merge_pts and k.startswith('pts'))}
        if drop(a.st.g) != drop(b.st.g): return False
        for k in a.st.g:
            if self.merge_pts and k.startswith('pts'): continue
            if a.st.g[k] is not b.st.g[k] and a.st.g[k] != b.st.g[k]: return False
        ks = set(a.st.mem) | set(b.st.mem)
        for k in ks:
            x, y = a.st.mem.get(k), b.st.mem.get(k)
            if x is y or x is None or y is None: continue
            if isinstance(x, dict):
                for q in set(x) | set(y):
                    if q in x and q in y:
                        if x[q][0] != y[q][0] or not self.vcompat(x[q][1], y[q][1]): return False
        return True
    def vmerge(self, st, sels, vs):
        v0 = vs[0]
        if all(v is v0 for v in vs): return v0
        if isinstance(v0, PtrV):
            es = (self.objs[v0.obj].es or 1) if v0.obj is not None else 1
            if es == 1 or not all(v.off.divisible(es) for v in vs): es = 1
            r = vs[-1].off.divexact(es)
            for s, v in zip(sels[-2::-1], vs[-2::-1]): r = ite(s, v.off.divexact(es), r)
            return PtrV(v0.obj, r * es)
        if isinstance(v0, BoolV):
            r = vs[-1].b
            for s, v in zip(sels[-2::-1], vs[-2::-1]): r = z3.If(s, v.b, r)
            return BoolV(r)
        if isinstance(v0, IntV):
            if all(v.u is not None for v in vs): fs, key = [v.u for v in vs], 'u'
            elif all(v.s is not None for v in vs): fs, key = [v.s for v in vs], 's'
            else:
                M = 1 << v0.bits
                fs, key = [v.u if v.u is not None else ite(lt(v.s, 0), v.s + M, v.s) for v in vs], 'u'
            r = fs[-1]
            for s, f in zip(sels[-2::-1], fs[-2::-1]): r = ite(s, f, r)
            return IntV(v0.bits, **{key: r})
        if isinstance(v0, FltV):
            r = vs[-1].t
            for s, v in zip(sels[-2::-1], vs[-2::-1]): r = z3.If(s, v.t, r)
            return FltV(r, v0.name)
        if isinstance(v0, AggV): return AggV([self.vmerge(st, sels, [v.vs[i] for v in vs]) for i in range(len(v0.vs))])
        if isinstance(v0, (UndefV, FnV)): return v0
        raise Unsupported('merge')
    def merge_group(self, g):
        nodes = [o.st.path for o in g]
        d = min(n.depth for n in nodes)
        anc = []
        for n in nodes:
            while n.depth > d: n = n.parent
            anc.append(n)
        while any(a is not anc[0] for a in anc): anc = [a.parent for a in anc]
        base = anc[0]
        st = g[0].st.copy(); st.path = base
        if self.merge_pts:
            for k in [k for k in st.g if k.startswith('pts')]:
                ts = [o.st.g.get(k, ()) for o in g]; n = 0
                while n < min(map(len, ts)) and all(t[n] is ts[0][n] for t in ts): n += 1
                st.g[k] = ts[0][:n]
        sels = [fresh_bool('sel') for _ in g]
        # facts common by identity are impossible after the split; keep each under its selector
        st.assume(z3.Or(*sels))
        for s, o in zip(sels, g):
            fs = []; n = o.st.path
            while n is not base: fs.append(n.f); n = n.parent
            if fs: st.assume(z3.Implies(s, z3.And(*fs[::-1]) if len(fs) > 1 else fs[0]), kind='merge')
        st.touched = frozenset.intersection(*[o.st.touched for o in g])
        mem = {}
        for k in set().union(*[o.st.mem.keys() for o in g]):
            xs = [o.st.mem.get(k) for o in g]
            if any(x is None for x in xs): continue       # local to one path
            if all(x is xs[0] for x in xs): mem[k] = xs[0]; continue
            if isinstance(xs[0], dict):
                m = {}
                for q in set.intersection(*[set(x) for x in xs]):
                    m[q] = (xs[0][q][0], self.vmerge(st, sels, [x[q][1] for x in xs]))
                mem[k] = m
            else:
                r = xs[-1]
                for s, x in zip(sels[-2::-1], xs[-2::-1]): r = z3.If(s, x, r)
                mem[k] = r
        st.mem = mem
        return Out('ret', st, None if g[0].val is None else self.vmerge(st, sels, [o.val for o in g]))

    # ------------------------------------------------------------------ running
    def run(self, fn, items, region=None, header=None):
        loops = predsucc(fn)
        outs = []
        items = list(items)
        while items:
            it = items.pop()
            self.nexec += 1
            if self.deadline and time.time() > self.deadline: raise Giveup('time budget')
            if it.idx == 0:
                if region is not None:
                    if it.blk == header and it.prev in region: outs.append(Out('back', it.st, None, it)); continue
                    if it.blk not in region: outs.append(Out('exit', it.st, None, it)); continue
                L = loops.get(it.blk)
                if L is not None and it.blk != header and it.prev not in L.body:
                    for o in self.loop(fn, it, L):
                        if o.kind == 'exit': items.append(o.x)
                        else: outs.append(o)
                    continue
            self.block(fn, it, items, outs)
        return outs

    def phis(self, fn, it):
        b = fn.blocks[it.blk]
        new = {}
        n = 0
        for ins in b:
            if ins.op != 'phi': break
            n += 1
            new[ins.res] = self.val(it.st, it.regs, ins.ty, ins.a['inc'][it.prev])
        regs = {**it.regs, **new} if new else it.regs
        return n, regs

    def block(self, fn, it, items, outs, skip_phis=False):
        st, regs = it.st, it.regs
        b = fn.blocks[it.blk]
        i = it.idx
        if i == 0:
            if skip_phis:
                while b[i].op == 'phi': i += 1
                regs = dict(regs)
            else:
                i, regs = self.phis(fn, it)
                regs = dict(regs)
        else: regs = dict(regs)
        n = len(b)
        while i < n:
            ins = b[i]; op = ins.op; a = ins.a; i += 1
            if op == 'bin':
                x, y = self.val(st, regs, ins.ty, a['x']), self.val(st, regs, ins.ty, a['y'])
                if isinstance(ins.ty, FloatT): regs[ins.res] = self.fop(st, a['o'], ins.ty, x, y)
                else: regs[ins.res] = self.binop(st, ins, a['o'], ins.ty.bits, x, y)
            elif op == 'icmp': regs[ins.res] = BoolV(self.icmp(st, a['pred'], a['t'], self.val(st, regs, a['t'], a['x']), self.val(st, regs, a['t'], a['y'])))
            elif op == 'fcmp': regs[ins.res] = BoolV(self.fcmp(st, a['pred'], self.val(st, regs, a['t'], a['x']), self.val(st, regs, a['t'], a['y'])))
            elif op == 'cast': regs[ins.res] = self.cast(st, a['o'], a['t'], ins.ty, self.val(st, regs, a['t'], a['v']))
            elif op == 'load':
                v = self.load(st, ins.ty, self.val(st, regs, ir.PTR, a['ptr']), ins.line.strip())
                if v is None: return
                regs[ins.res] = v
            elif op == 'store':
                if self.store(st, ins.ty, self.val(st, regs, ir.PTR, a['ptr']), self.val(st, regs, ins.ty, a['val']), ins.line.strip()) is None: return
            elif op == 'getelementptr':
                regs[ins.res] = self.gep(st, a['bt'], [(t, self.val(st, regs, t, x)) for t, x in a['ops']])
            elif op == 'alloca':
                regs[ins.res] = self.alloca(st, ins)
            elif op == 'select':
                c = self.B(self.val(st, regs, ir.INT(1), a['c']))
                x, y = self.val(st, regs, ins.ty, a['x']), self.val(st, regs, ins.ty, a['y'])
                if z3.is_true(c): regs[ins.res] = x
                elif z3.is_false(c): regs[ins.res] = y
                elif self.vcompat(x, y): regs[ins.res] = self.vmerge(st, [c, Not(c)], [x, y])
                else:
                    s2 = st.copy(); s2.assume(Not(c), 'branch')
                    if not self.infeasible(s2): items.append(Item(it.blk, it.prev, i, s2, {**regs, ins.res: y}))
                    st = st.copy(); st.assume(c, 'branch')
                    if self.infeasible(st): return
                    regs[ins.res] = x
            elif op in ('call', 'invoke'):
                r = self.do_call(fn, it, ins, i, st, regs, items, outs)
                if r is None: return
                st, regs = r
                if op == 'invoke':
                    items.append(Item(a['normal'], it.blk, 0, st, regs)); return
            elif op == 'br':
                if len(a['to']) == 1:
                    items.append(Item(a['to'][0], it.blk, 0, st, regs)); return
                c = self.B(self.val(st, regs, ir.INT(1), a['c']))
                self.branch(st, regs, it.blk, [(c, a['to'][0]), (Not(c), a['to'][1])], items); return
            elif op == 'switch':
                v = self.val(st, regs, ins.ty, a['v'])
                alts, neg = [], []
                for k, dst in a['cs']:
                    c = eq(self.U(st, v), k % (1 << ins.ty.bits)); alts.append((c, dst)); neg.append(Not(c))
                alts.append((And(neg), a['d']))
                self.branch(st, regs, it.blk, alts, items); return
            elif op == 'ret':
                v = None if a['v'] is None else self.val(st, regs, ins.ty, a['v'])
                outs.append(Out('ret', st, v)); return
            elif op == 'unreachable':
                return
            elif op == 'resume': outs.append(Out('throw', st)); return
            elif op == 'landingpad': regs[ins.res] = UndefV(ins.ty)
            elif op == 'extractvalue':
                v = self.val(st, regs, a['t'], a['v'])
                for k in a['idx']: v = v.vs[k] if isinstance(v, AggV) else UndefV(None)
                regs[ins.res] = v
            elif op == 'insertvalue':
                v = self.val(st, regs, ins.ty, a['v']); e = self.val(st, regs, a['t2'], a['e'])
                if isinstance(v, UndefV): v = AggV([UndefV(f) for f in ins.ty.fields])
                vs = list(v.vs); vs[a['idx'][0]] = e; regs[ins.res] = AggV(vs)
            elif op == 'freeze': regs[ins.res] = self.val(st, regs, ins.ty, a['v'])
            elif op == 'fneg': regs[ins.res] = self.fop(st, 'fneg', ins.ty, self.val(st, regs, ins.ty, a['v']), None)
            elif op == 'atomicrmw': 
                r = self.atomicrmw(st, ins, self.val(st, regs, ir.PTR, a['ptr']), self.val(st, regs, ins.ty, a['v']))
                if r is None: return
                regs[ins.res] = r
            else: raise Unsupported('instruction ' + ins.line.strip())
        raise Unsupported('block falls through')

    def infeasible(self, st): return self.solver.prove(st.path, FALSE, 2000)
    def excluded(self, st, c):
        """c cannot hold here; where the facts without quantifiers have a model with c, it is taken to be possible"""
        n = Not(c)
        if ground(n):
            r = self.gsolver.check(st.path, [c], 1500 if self.gsolver.nunk < 8 else 500)
            if r == z3.unknown: self.gsolver.nunk += 1
            if r != z3.unknown: return r == z3.unsat
            if not st.path.quantified(): return False       # nothing more to use
        return self.solver.prove(st.path, n, 2000)
    def branch(self, st, regs, blk, alts, items):
        live = []
        alts = [(c, d) for c, d in alts if not z3.is_false(c)]
        for c, d in alts:
            if z3.is_true(c): live = [(c, d)]; break
            if not self.excluded(st, c): live.append((c, d))
        if len(live) == 1: 
            c, d = live[0]
            st.assume(c, 'branch')
            items.append(Item(d, blk, 0, st, regs)); return
        for k, (c, d) in enumerate(live):
            s2 = st.copy() if k < len(live) - 1 else st
            s2.assume(c, 'branch')
            items.append(Item(d, blk, 0, s2, dict(regs)))

    def do_call(self, fn, it, ins, i, st, regs, items, outs):
        a = ins.a
        cal = a['callee']
        if cal[0] == '%': 
            f = regs.get(cal)
            if not isinstance(f, FnV): raise Unsupported('indirect call')
            name = f.name
        else: name = cal
        if name.startswith('@llvm.dbg') or name.startswith('@llvm.lifetime') or name.startswith('@llvm.assume') or name.startswith('@llvm.experimental'):
            return st, regs
        args = [self.val(st, regs, t, x) for t, x in a['args']]
        rs = self.call(st, name, args, ins, ins.ty)
        norm = [o for o in rs if o.kind == 'ret']
        for o in rs:
            if o.kind == 'throw':
                if ins.op == 'invoke' and self.follow_unwind(fn, a['unwind']):
                    items.append(Item(a['unwind'], it.blk, 0, o.st, dict(regs)))
                else: outs.append(o)
            elif o.kind == 'barrier':
                o.x = Item(it.blk, it.prev, i, o.st, dict(regs)); o.val = (fn.name, it.blk, i); outs.append(o)
            elif o.kind != 'ret': outs.append(o)
        if not norm: return None
        for o in norm[1:]:
            r2 = dict(regs)
            if ins.res: r2[ins.res] = o.val
            if ins.op == 'invoke': items.append(Item(a['normal'], it.blk, 0, o.st, r2))
            else: items.append(Item(it.blk, it.prev, i, o.st, r2))
        if ins.res: regs[ins.res] = norm[0].val
        return norm[0].st, regs
    def follow_unwind(self, fn, blk): return False
    def alloca(self, st, ins):
        t = ins.a['t']
        if ins.a['n'] is not None:
            n = ins.a['n'][1]
            if n != ('i', 1): raise Unsupported('variable alloca')
        if isinstance(t, ArrT) and isinstance(t.e, IntT):
            o = self.new_arr(st, 'buf', sizeof(t), es=sizeof(t.e))
        else: o = self.new_cells(st, ins.res.strip('%'), sizeof(t))
        return PtrV(o.id, 0)

    def icmp(self, st, pred, ty, x, y):
        if isinstance(x, UndefV) or isinstance(y, UndefV): return fresh_bool('undef')
        if isinstance(ty, PtrT):
            if isinstance(x, FnV) or isinstance(y, FnV): raise Unsupported('function pointer compare')
            if x.obj == y.obj: a, b = x.off, y.off
            elif x.obj is None or y.obj is None or pred in ('eq', 'ne'):
                if pred in ('eq', 'ne'): return FALSE if pred == 'eq' else TRUE
                raise Unsupported('pointer order against null')
            else: raise Unsupported('order of pointers to different objects')
            sg = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}
            r = cmp(sg[pred], a, b)
            self.note_cmp(a, b)
            return r
        if isinstance(x, BoolV) or isinstance(y, BoolV):
            p, q = self.B(x), self.B(y)
            e = p if z3.is_true(q) else Not(p) if z3.is_false(q) else (p == q)
            if pred == 'eq': return e
            if pred == 'ne': return Not(e)
            raise Unsupported('i1 order')
        if pred in ('eq', 'ne'):
            if x.u is not None and y.u is not None: a, b = x.u, y.u
            elif x.s is not None and y.s is not None: a, b = x.s, y.s
            else: a, b = self.U(st, x), self.U(st, y)
            self.note_cmp(a, b)
            return cmp('==' if pred == 'eq' else '!=', a, b)
        if pred[0] == 'u': a, b = self.U(st, x), self.U(st, y)
        else: a, b = self.S(st, x), self.S(st, y)
        self.note_cmp(a, b)
        return cmp({'gt': '>', 'ge': '>=', 'lt': '<', 'le': '<='}[pred[1:]], a, b)
    def note_cmp(self, a, b):
        if self.icmps is not None:
            for l in self.icmps: l.append((a, b))
    def fcmp(self, st, pred, x, y):
        f = z3.Function('fcmp_' + pred, z3.IntSort(), z3.IntSort(), z3.BoolSort())
        if isinstance(x, UndefV) or isinstance(y, UndefV): return fresh_bool('undef')
        return f(x.t, y.t)
    def fop(self, st, o, ty, x, y):
        if isinstance(x, UndefV) or isinstance(y, UndefV): return FltV(fresh('undef').z(), ty.name)
        if y is None: return FltV(z3.Function('%s_%s' % (o, ty.name), z3.IntSort(), z3.IntSort())(x.t), ty.name)
        return FltV(z3.Function('%s_%s' % (o, ty.name), z3.IntSort(), z3.IntSort(), z3.IntSort())(x.t, y.t), ty.name)
    def cast(self, st, o, t, t2, v):
        if isinstance(v, UndefV): return UndefV(t2) if isinstance(t2, PtrT) else self.fresh_val(st, t2, 'undef')
        if o == 'bitcast': return v
        if o == 'zext':
            if isinstance(v, BoolV): return IntV(t2.bits, u=ite(v.b, 1, 0))
            return IntV(t2.bits, u=self.U(st, v))
        if o == 'sext':
            if isinstance(v, BoolV): return IntV(t2.bits, s=ite(v.b, -1, 0))
            r = IntV(t2.bits, s=self.S(st, v))
            return r
        if o == 'trunc':
            if t2.bits == 1: 
                u = self.U(st, v)
                if u.isconst(): return BoolV(TRUE if u.c & 1 else FALSE)
                if self.prove(st, le(u, 1)): return BoolV(eq(u, 1))
                return BoolV(u.z() % 2 == 1)
            M = 1 << t2.bits
            if v.u is not None:
                if v.u.isconst(): return IntV(t2.bits, u=v.u.c % M)
                if self.prove(st, lt(v.u, M)): return IntV(t2.bits, u=v.u)
            if v.s is not None and self.prove(st, And(cmp('>=', v.s, -(M // 2)), lt(v.s, M // 2))): return IntV(t2.bits, s=v.s)
            x = v.u if v.u is not None else v.s
            return IntV(t2.bits, u=P(x.z() % M), w=self.form(v))
        if o == 'ptrtoint':
            if v.obj is None: return IntV(t2.bits, u=v.off)
            b = z3.Int('BASE%d' % v.obj)
            ob = self.objs[v.obj]
            k = ('base', v.obj)
            if k not in st.touched:
                st.touched = st.touched | {k}
                st.assume(z3.And(b > 0, b + (ob.size.z() if ob.size is not None else 0) < (1 << 63)))
            return IntV(t2.bits, u=P(b) + v.off)
        if o == 'inttoptr': raise Unsupported('inttoptr')
        if o in ('sitofp', 'uitofp'):
            f = z3.Function('%s_%d_%s' % (o, v.bits, t2.name), z3.IntSort(), z3.IntSort())
            return FltV(f(Z(self.S(st, v) if o == 'sitofp' else self.U(st, v))), t2.name)
        if o in ('fpext', 'fptrunc'):
            return FltV(z3.Function('%s_%s_%s' % (o, t.name, t2.name), z3.IntSort(), z3.IntSort())(v.t), t2.name)
        if o in ('fptosi', 'fptoui'):
            r = z3.Function('%s_%s_%d' % (o, t.name, t2.bits), z3.IntSort(), z3.IntSort())(v.t)
            st.assume(z3.And(r >= 0, r < (1 << t2.bits))); return IntV(t2.bits, u=P(r))
        raise Unsupported(o)
    def atomicrmw(self, st, ins, p, v):
        if self.omp is not None:
            return self.omp.atomicrmw(self, st, ins, p, v)
        old = self.load(st, ins.ty, p, ins.line.strip())
        if old is None: return None
        o = ins.a['o']
        if o in ('add', 'sub'): new = self.binop(st, ins, o, ins.ty.bits, old, v)
        elif o == 'umax': new = IntV(ins.ty.bits, u=pmax(self.U(st, old), self.U(st, v)))
        elif o == 'xchg': new = v
        else: raise Unsupported('atomicrmw ' + o)
        if self.store(st, ins.ty, p, new, ins.line.strip()) is None: return None
        return old

    # ------------------------------------------------------------------ loops
    def loop(self, fn, it, L):
        from .loops import do_loop
        return do_loop(self, fn, it, L)
