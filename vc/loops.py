"""Loop invariants: candidates are proposed, filtered (Houdini) and the surviving conjunction is proved
inductive; termination by a ranking term taken from the loop's own comparisons."""
import re, z3
from . import ir
from .ir import IntT, PtrT, FloatT
from .term import *
from .term import _n
from .core import *
from .exec import Item, Out

_num = re.compile(r'!(\d+)$')
_cc = {}
def consts(t):
    """uninterpreted constants of a z3 term"""
    i = t.get_id()
    if i in _cc: return _cc[i][0]
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x)
            st.extend(x.children())
    _cc[i] = (frozenset(out), t)
    return _cc[i][0]
def created(c):
    m = _num.search(c.decl().name())
    return int(m.group(1)) if m else 0


class Slot:
    """something the loop modifies: a phi, a memory cell or an array"""
    def __init__(self, kind, key, ty, init, bits=None, name=''):
        self.kind, self.key, self.ty, self.init, self.name = kind, key, ty, init, name
        self.cur = None; self.const = None
        self.init_z = None


class Ctx:
    """what a candidate generator sees"""
    pass


def as_z(ex, st, v, scale=1):
    if isinstance(v, IntV): return Z(ex.U(st, v))
    if isinstance(v, PtrV):
        if scale == 1: return v.off.z()
        if not v.off.divisible(scale): raise Unsupported('a pointer to elements moves by a part of an element')
        return v.off.divexact(scale).z()
    if isinstance(v, BoolV): return v.b
    if isinstance(v, FltV): return v.t
    return None


def do_loop(ex, fn, it, L):
    body = L.body
    header = it.blk
    entry = it.st
    if ex.omp is not None and 'for' in entry.g: return ex.omp.for_loop(fn, it, L)
    if ex.omp is not None and 'dynfor' in entry.g: return ex.omp.dyn_loop(fn, it, L)
    # initial phi values
    nphi = 0
    slots = []
    for ins in fn.blocks[header]:
        if ins.op != 'phi': break
        nphi += 1
        v = ex.val(entry, it.regs, ins.ty, ins.a['inc'][it.prev])
        slots.append(mkslot(ex, entry, 'phi', ins.res, v, ins.ty, ins.res))
    slots = [s for s in slots]
    known = {('phi', s.key): s for s in slots}
    name = '%s loop %s' % (ex.dem.get(fn.name, fn.name), header)

    def enter(cands):
        st = entry.copy(); regs = dict(it.regs)
        for s in slots:
            if s.facts is not None: st.assume(s.facts)
            if s.kind == 'phi': regs[s.key] = s.cur
            elif s.kind == 'cell':
                m = dict(st.mem[s.key[0]]); m[s.key[1]] = (m[s.key[1]][0] if s.key[1] in m else s.size, s.cur); st.mem[s.key[0]] = m
            else: st.mem[s.key] = s.cur
        for f in pre_facts: st.assume(f)
        for d, c in cands: st.assume(c)
        for s in slots:
            for h in ex.hooks: h.slot_touch(ex, st, s)
        return st, regs
    pre_facts = []

    def body_run(cands):
        st, regs = enter(cands)
        start = st.copy()
        if nphi: items = [Item(header, it.prev, nphi, st, regs)]
        else: items = [Item(header, it.prev, 0, st, regs)]
        outs = ex.run(fn, items, region=body, header=header)
        return start, outs

    def back_vals(o):
        """slot -> z3 value at the back edge (None: not comparable)"""
        st, item = o.st, o.x
        vals = {}
        for s in slots:
            if s.kind == 'phi':
                ins = next(i for i in fn.blocks[header] if i.res == s.key)
                v = ex.val(st, item.regs, ins.ty, ins.a['inc'][item.prev])
            elif s.kind == 'cell':
                c = st.mem[s.key[0]].get(s.key[1]); v = c[1] if c else None
            else: v = st.mem[s.key]
            vals[s] = v
        return vals
    def subst_of(st, vals):
        sub = []
        for s in slots:
            if s.const is None: continue
            v = vals[s]
            if s.kind == 'arr': sub.append((s.const, v))
            else:
                z = as_z(ex, st, v, s.scale) if v is not None and not isinstance(v, UndefV) else None
                if z is None: z = fresh('undef').z() if not z3.is_bool(s.const) else fresh_bool('undef')
                sub.append((s.const, z))
        return sub

    # ---- discovery of what the loop modifies
    ex.search += 1
    saved_icmps = ex.icmps
    try:
        for rounds in range(8):
            ex.icmps = (ex.icmps or [])
            mine = []
            ex.icmps = ex.icmps + [mine]
            try: start, outs = body_run([])
            finally: ex.icmps = ex.icmps[:-1]
            changed = False
            backs = [o for o in outs if o.kind == 'back']
            for o in backs:
                for s, v in back_vals(o).items():
                    if s.kind != 'arr' and isinstance(s.cur, PtrV):
                        if isinstance(v, UndefV) or v is None: continue
                        if not isinstance(v, PtrV) or v.obj != s.cur.obj:
                            if s.cur.obj is None and isinstance(v, PtrV): raise Unsupported('pointer slot changes object')
                            raise Unsupported('pointer %s changes its object in %s' % (s.name, name))
                for ob, c in o.st.mem.items():
                    if ob not in entry.mem: continue
                    base = start.mem[ob]
                    if c is base: continue
                    if isinstance(c, dict):
                        for q in set(c) | set(base):
                            if q in c and q in base and (c[q][1] is base[q][1] or same(c[q][1], base[q][1])): continue
                            if ('cell', ob, q) in known: continue
                            if q in base:
                                if ob not in entry.mem or q not in entry.mem[ob]:
                                    pass
                                s = mkslot(ex, entry, 'cell', (ob, q), base[q][1], None, '%s+%d' % (ex.objs[ob].name, q)); s.size = base[q][0]
                            elif q in c:
                                if isinstance(c[q][1], (PtrV, AggV, FnV)):
                                    known[('cell', ob, q)] = None; continue
                                # first written in the loop: unknown before
                                v0 = UndefV(None); s = mkslot(ex, entry, 'cell', (ob, q), c[q][1], None, '%s+%d' % (ex.objs[ob].name, q), undef=True); s.size = c[q][0]
                            else: continue
                            known[('cell', ob, q)] = s; slots.append(s); changed = True
                    else:
                        if ('arr', ob) in known: continue
                        s = mkslot(ex, entry, 'arr', ob, base, None, ex.objs[ob].name)
                        known[('arr', ob)] = s; slots.append(s); changed = True
            if not changed: break
        N0 = _n[0]
        # ---- candidates
        ctx = Ctx(); ctx.ex, ctx.entry, ctx.slots, ctx.fn, ctx.header, ctx.name, ctx.regs, ctx.L = ex, entry, slots, fn, header, name, it.regs, L
        ctx.backs, ctx.start = backs, start; ctx.pre_facts = pre_facts
        cur_consts = {s.const for s in slots if s.const is not None}
        c_ids = {c.get_id() for c in cur_consts}
        maxc = max([created(c) for c in cur_consts] + [0])
        ctx.maxc = maxc
        entry_consts = entry_const_numbers(entry)
        def allowed(t):
            return all(c.get_id() in c_ids or created(c) == 0 or c.get_id() in entry_consts for c in consts(t))
        ctx.allowed = allowed
        pairs = []
        seen = set()
        for a, b in mine:
            az, bz = a.z(), b.z()
            if not (z3.is_int(az) and z3.is_int(bz)): continue
            k = (a.key(), b.key())
            if k in seen: continue
            seen.add(k)
            if allowed(az) and allowed(bz): pairs.append((a, b))
        ctx.pairs = pairs
        cands = generic(ctx)
        for h in ex.hooks:
            cands += h.cands(ctx)
        cands = dedupe(cands)
        hint = (ex.hints or {}).get(fn.name + ' ' + header)
        if hint is not None: cands = [c for c in cands if canon(c[0]) in hint]
        # ---- initiation
        isub = [(s.const, s.init_z) for s in slots if s.const is not None and s.init_z is not None]
        keep = []
        e2 = entry.copy()
        for f in pre_facts: e2.assume(f)
        for s in slots:
            for h in ex.hooks: h.slot_touch_init(ex, e2, s)
        for d, c in cands:
            ic = z3.simplify(z3.substitute(c, *isub)) if isub else c
            if z3.is_true(ic) or ex.solver.prove(e2.path, z3.substitute(c, *isub) if isub else c): keep.append((d, c))
        cands = keep
        # ---- Houdini: first the candidates without arrays, over the facts without quantifiers, then all
        rest = [c for c in cands if not pure(c[1])]; first = [c for c in cands if pure(c[1])]
        if rest:
            for rounds in range(60):
                start, outs = body_run(first)
                bad = set(); later = set()
                for o in outs:
                    if o.kind != 'back': continue
                    b2 = o.st.copy()
                    vals = back_vals(o)
                    sub = subst_of(b2, vals)
                    for s in slots:
                        for h in ex.hooks: h.slot_touch_val(ex, b2, s, vals[s])
                    goals = [(i, z3.substitute(c, *sub) if sub else c) for i, (d, c) in enumerate(first) if i not in bad]
                    later |= {i for i, g in goals if not pure(g)}
                    bad |= failing_ground(ex, b2.path, [(i, g) for i, g in goals if i not in later])
                rest = [first[i] for i in sorted(later - bad)] + rest
                first = [c for i, c in enumerate(first) if i not in bad and i not in later]
                if not bad and not later: break
            grows = {d[:-len(' >= ') - len(nm) - 1] for d, c in first for nm in [d.split(' >= ')[0]] if d == '%s >= %s0' % (nm, nm)}
            falls = {nm for d, c in first for nm in [d.split(' <= ')[0]] if d == '%s <= %s0' % (nm, nm)}
            rest = [(d, c) for d, c in rest if not (d.endswith(') down') and any('[%s0,' % x in d for x in grows) or d.endswith(') up') and 'unchanged outside' in d and any('[%s0,' % x in d for x in falls - grows))]
            cands = first + rest
        for rounds in range(60):
            start, outs = body_run(cands)
            backs = [o for o in outs if o.kind == 'back']
            bad = set()
            for o in backs:
                b2 = o.st.copy()
                vals = back_vals(o)
                sub = subst_of(b2, vals)
                for s in slots:
                    for h in ex.hooks: h.slot_touch_val(ex, b2, s, vals[s])
                goals = [(i, z3.substitute(c, *sub) if sub else c) for i, (d, c) in enumerate(cands) if i not in bad]
                bad |= failing(ex, b2.path, goals)
            if not bad: break
            cands = [c for i, c in enumerate(cands) if i not in bad]
    finally:
        ex.search -= 1
        ex.icmps = saved_icmps
    if ex.search:
        return [o for o in outs if o.kind != 'back']
    # ---- final pass: every obligation is discharged with the surviving invariant
    for d, c in cands:
        ex.obs.append(Obligation('inv-init', fn.name, '%s: %s' % (header, d), True))
    nob = len(ex.obs)
    start, outs = body_run(cands)
    backs = [o for o in outs if o.kind == 'back']
    ranks = rank_terms(ctx)
    if backs:
        okr = None
        finals = []
        for o in backs:
            b2 = o.st.copy(); vals = back_vals(o); sub = subst_of(b2, vals)
            for s in slots:
                for h in ex.hooks: h.slot_touch_val(ex, b2, s, vals[s])
            finals.append((o, b2, sub))
            for d, c in cands:
                ok = ex.solver.prove(b2.path, z3.substitute(c, *sub) if sub else c, hard=True)
                ex.obs.append(Obligation('inv', fn.name, '%s: %s' % (header, d), ok))
        why = None
        for d, r in ranks:
            good = True
            for o, b2, sub in finals:
                r1 = z3.substitute(r, *sub)
                if not ex.solver.prove(b2.path, z3.And(r1 < r, r >= 0)): good = False; break
            if good: why = d; break
        ex.obs.append(Obligation('term', fn.name, '%s terminates%s' % (header, ' (%s decreases)' % why if why else ''), why is not None))
        if why is None and ex.log: ex.log('NO RANK for %s among %s' % (name, [d for d, _ in ranks][:20]))
    ex.invs.setdefault(fn.name + ' ' + header, set()).update(canon(d) for d, _ in cands)
    if ex.log: ex.log('invariant of %s: %s' % (name, '; '.join(d for d, _ in cands)))
    return [o for o in outs if o.kind != 'back']


_fresh = re.compile(r'[!#]\d+')
def canon(d): return _fresh.sub('', d)


def same(a, b):
    if isinstance(a, PtrV) and isinstance(b, PtrV): return a.obj == b.obj and a.off.same(b.off)
    if isinstance(a, IntV) and isinstance(b, IntV) and a.u is not None and b.u is not None: return a.u.same(b.u)
    if isinstance(a, IntV) and isinstance(b, IntV) and a.s is not None and b.s is not None: return a.s.same(b.s)
    if isinstance(a, FltV) and isinstance(b, FltV): return a.t.eq(b.t)
    if isinstance(a, BoolV) and isinstance(b, BoolV): return a.b.eq(b.b)
    if isinstance(a, UndefV) and isinstance(b, UndefV): return True
    if isinstance(a, FnV) and isinstance(b, FnV): return a.name == b.name
    return False


def mkslot(ex, entry, kind, key, v, ty, name, undef=False):
    s = Slot(kind, key, ty, v, name=name)
    s.facts = None; s.size = None; s.undef = undef; s.scale = 1
    if kind == 'arr':
        s.const = z3.Const('%s!%d' % ('H', fresh_id()), v.sort()) if not callable(v) else None
        s.cur = s.const; s.init_z = v
        return s
    if isinstance(v, UndefV):
        if isinstance(ty, PtrT) or ty is None: s.cur = v; return s
        v2 = ex.fresh_val(entry, ty, 'undef')
        s.init = v2; v = v2
    if isinstance(v, IntV):
        x = fresh('h'); s.const = x.z(); s.cur = IntV(v.bits, u=x)
        s.facts = z3.And(x.z() >= 0, x.z() < (1 << v.bits))
        s.init_z = Z(ex.U(entry, v)) if not undef else fresh('undef').z()
    elif isinstance(v, PtrV):
        if v.obj is None and v.off.isconst(): s.cur = v; s.init_z = None; return s
        x = fresh('h'); s.const = x.z()
        o = ex.objs[v.obj] if v.obj is not None else None
        # a pointer to elements of several bytes moves by elements
        if o is not None and o.kind == 'arr' and (o.es or 1) > 1 and not undef:
            for sc in ([2 * o.es] if o.props.get('pairs') else []) + [o.es]:
                if v.off.divisible(sc): s.scale = sc; break
        s.cur = PtrV(v.obj, x * s.scale); s.init_z = (v.off.divexact(s.scale).z() if s.scale > 1 else v.off.z()) if not undef else fresh('undef').z()
    elif isinstance(v, BoolV):
        b = fresh_bool('h'); s.const = b; s.cur = BoolV(b); s.init_z = v.b
    elif isinstance(v, FltV):
        x = fresh('h'); s.const = x.z(); s.cur = FltV(x.z(), v.name); s.init_z = v.t
    else:
        s.cur = v
    return s


def entry_const_numbers(st):
    ids = set(); n = st.path
    while n is not None and n.depth > 0:
        for c in consts(n.f): ids.add(c.get_id())
        n = n.parent
    for ob, c in st.mem.items():
        if isinstance(c, dict):
            for q, (z, v) in c.items():
                t = v.u.z() if isinstance(v, IntV) and v.u is not None else v.s.z() if isinstance(v, IntV) and v.s is not None else v.off.z() if isinstance(v, PtrV) else None
                if t is not None:
                    for x in consts(t): ids.add(x.get_id())
    return ids


def dedupe(cs):
    seen, out = set(), []
    for d, c in cs:
        if c is None or z3.is_true(c) or z3.is_false(c): continue
        if c.get_id() in seen: continue
        seen.add(c.get_id()); out.append((d, c))
    return out


def failing_ground(ex, path, goals):
    bad = set(); todo = list(goals)
    for _ in range(60):
        if not todo: return bad
        r = ex.gsolver.check(path, [z3.Not(z3.And(*[g for _, g in todo]) if len(todo) > 1 else todo[0][1])], 3000)
        if r == z3.unsat: return bad
        m = ex.gsolver.model
        drop = set()
        if m is not None:
            for i, g in todo:
                try:
                    if z3.is_false(m.eval(g, model_completion=True)): drop.add(i)
                except z3.Z3Exception: pass
        if r == z3.unknown or not drop: break
        bad |= drop
        todo = [(i, g) for i, g in todo if i not in drop]
    for i, g in todo:
        if not ex.gsolver.prove(path, g, 2000): bad.add(i)
    return bad


def failing(ex, path, goals):
    """indices of goals not provable"""
    bad = set()
    todo = [(i, g) for i, g in goals if pure(g)]
    maybe = failing_ground(ex, path, todo)
    todo = [(i, g) for i, g in goals if i in maybe]
    rest = [(i, g) for i, g in goals if not pure(g)]
    if len(rest) > 3: todo += rest
    else: bad |= {i for i, g in rest if not ex.solver.prove(path, g, 3000)}
    for _ in range(50):
        if not todo: return bad
        if len(todo) == 1: break
        r = ex.solver.check(path, [z3.Not(z3.And(*[g for _, g in todo]) if len(todo) > 1 else todo[0][1])], 3000)
        if r == z3.unsat: return bad
        m = ex.solver.model
        drop = set()
        if m is not None:
            for i, g in todo:
                try:
                    if z3.is_false(m.eval(g, model_completion=True)): drop.add(i)
                except z3.Z3Exception: pass
        if not drop: break
        if r == z3.unknown:
            # a candidate model only: confirm each one
            drop = {i for i, g in todo if i in drop and not ex.solver.prove(path, g, 3000)}
            if not drop: break
        bad |= drop
        todo = [(i, g) for i, g in todo if i not in drop]
    for i, g in todo:
        if not ex.solver.prove(path, g, 3000): bad.add(i)
    return bad


def num_slots(ctx):
    for s in ctx.slots:
        if s.kind != 'arr' and s.const is not None and z3.is_int(s.const) and not isinstance(s.cur, FltV): yield s


def deltas(ctx):
    ds = []
    for o in ctx.backs:
        row = {}
        for s in num_slots(ctx):
            if s.kind == 'phi':
                ins = next(i for i in ctx.fn.blocks[ctx.header] if i.res == s.key)
                v = ctx.ex.val(o.st, o.x.regs, ins.ty, ins.a['inc'][o.x.prev])
            else:
                c = o.st.mem[s.key[0]].get(s.key[1]); v = c[1] if c else None
            f = None
            if isinstance(v, IntV): f = v.u if v.u is not None else v.s
            elif isinstance(v, PtrV): f = v.off
            if isinstance(v, PtrV) and s.scale > 1: f = f.divexact(s.scale) if f.divisible(s.scale) else None
            if f is not None:
                row[s] = f - P(s.const)
                z = f.z()
                if z3.is_app_of(z, z3.Z3_OP_ITE):        # a step that may wrap: the step where it does not
                    cs = [c for c in (z3.simplify(z.arg(i) - s.const) for i in (1, 2)) if z3.is_int_value(c)]
                    if cs: row[s] = P(min((c.as_long() for c in cs), key=abs))
        ds.append(row)
    return ds


def generic(ctx):
    cs = []
    ns = list(num_slots(ctx))
    for s in ns:
        if s.init_z is None: continue
        cs.append(('%s >= %s0' % (s.name, s.name), s.const >= s.init_z))
        cs.append(('%s <= %s0' % (s.name, s.name), s.const <= s.init_z))
        if isinstance(s.cur, IntV):
            cs.append(('%s signed-nonneg' % s.name, s.const < (1 << (s.cur.bits - 1))))
            if s.cur.bits == 8: cs.append(('%s bool' % s.name, s.const <= 1))
    for s in ctx.slots:
        if s.kind != 'arr' and isinstance(s.cur, (BoolV, FltV)) and s.init_z is not None:
            cs.append(('%s same' % s.name, s.const == s.init_z))
    cid = {s.const.get_id(): s for s in ns}
    for a, b in ctx.pairs[:40]:
        az, bz = a.z(), b.z()
        cs.append(('%s <= %s' % (a, b), az <= bz)); cs.append(('%s <= %s' % (b, a), bz <= az))
        cs.append(('%s < %s' % (a, b), az < bz)); cs.append(('%s < %s' % (b, a), bz < az))
        for t, o in ((a, b), (b, a)):
            for at in t.atoms():
                s = cid.get(at)
                if s is not None and not (o.atoms() & {at}):
                    cs.append(('%s <= %s' % (s.name, o), s.const <= o.z()))
                    if not t.same(P(s.const)): cs.append(('%s < %s' % (s.name, o), s.const < o.z()))
    ds = deltas(ctx)
    if ds:
        for i, s in enumerate(ns):
            for t in ns[i + 1:]:
                if s.init_z is None or t.init_z is None: continue
                ratio = None; ok = True
                for row in ds:
                    if s not in row or t not in row: ok = False; break
                    x, y = row[s], row[t]
                    # find p, q with p*x == q*y
                    if x.isconst() and y.isconst(): pq = (y.c, x.c)
                    elif x.same(y): pq = (1, 1)
                    elif x.same(-y): pq = (-1, 1)
                    else:
                        pq = None
                        for e in (2, 4, 8):
                            if (x * e).same(y): pq = (e, 1)
                            if (y * e).same(x): pq = (1, e)
                        if pq is None: ok = False; break
                    if pq == (0, 0): continue
                    if ratio is None: ratio = pq
                    elif ratio[0] * pq[1] != ratio[1] * pq[0]: ok = False; break
                if ok and ratio:
                    p, q = ratio
                    cs.append(('%d*(%s-%s0) == %d*(%s-%s0)' % (p, s.name, s.name, q, t.name, t.name), p * (s.const - s.init_z) == q * (t.const - t.init_z)))
    # arrays: untouched outside the part walked over
    k = z3.Int('k!q')
    for s in ctx.slots:
        if s.kind != 'arr' or s.const is None: continue
        es = ctx.ex.objs[s.key].es or 1
        for x in ns:
            if x.init_z is None: continue
            if isinstance(x.cur, PtrV):
                if x.cur.obj != s.key: continue
                if x.scale % es == 0 and (es > 1 or x.scale == 1): r = x.scale // es; lo, hi = (P(x.init_z) * r).z(), (P(x.const) * r).z()
                else:
                    p0 = P(x.init_z)
                    lo, hi = (p0.divexact(es).z() if p0.divisible(es) else x.init_z / es), x.const / es
            else: lo, hi = x.init_z, x.const
            for d, l, h in (('up', lo, hi), ('down', hi + 1, lo + 1)):
                cs.append(('%s unchanged outside [%s0,%s) %s' % (s.name, x.name, x.name, d),
                           z3.ForAll([k], z3.Implies(z3.Or(k < l, k >= h), z3.Select(s.const, k) == z3.Select(s.init_z, k)), patterns=[z3.Select(s.const, k)])))
        # what was walked over is a copy of what another pointer (or index) walked over
        for x in ns:
            if x.init_z is None or not isinstance(x.cur, PtrV) or x.cur.obj != s.key or es != 1: continue
            for y in ns:
                if y is x or y.init_z is None: continue
                if isinstance(y.cur, PtrV):
                    if y.cur.obj is None or y.cur.obj == s.key or y.cur.obj not in ctx.entry.mem: continue
                    srcs = [y.cur.obj]
                else: srcs = [q for q in ctx.entry.mem if q != s.key and ctx.ex.objs[q].kind == 'arr' and ctx.ex.objs[q].where != 'global' and q not in ctx.entry.dead]
                for q in srcs:
                    S = ctx.entry.mem[q]
                    if isinstance(S, dict) or (ctx.ex.objs[q].es or 1) != 1 or ('arr', q) in {(t.kind, t.key) for t in ctx.slots}: continue
                    j = k - x.init_z + y.init_z
                    cs.append(('%s copies %s from %s' % (s.name, ctx.ex.objs[q].name, y.name),
                               z3.ForAll([k], z3.Implies(z3.And(k >= x.init_z, k < x.const), z3.Select(s.const, k) == (S(j) if callable(S) else z3.Select(S, j))), patterns=[z3.Select(s.const, k)])))
    return cs


def rank_terms(ctx):
    rs = []
    ns = list(num_slots(ctx))
    for a, b in ctx.pairs:
        rs.append(('%s - %s' % (b, a), (b - a).z())); rs.append(('%s - %s' % (a, b), (a - b).z()))
    for s in ns: rs.append((s.name, s.const + 0))
    for s in ns:
        if isinstance(s.cur, PtrV) and s.cur.obj is not None:
            o = ctx.ex.objs[s.cur.obj]
            if o.size is not None: rs.append(('size - %s' % s.name, (o.size - P(s.const) * s.scale).z()))
    for h in ctx.ex.hooks: rs += h.ranks(ctx)
    out, seen = [], set()
    for d, r in rs:
        if r.get_id() in seen: continue
        seen.add(r.get_id()); out.append((d, r))
    return out


class Filled:
    """candidates: what a counter or pointer has walked over holds the values given by one of some functions of the index"""
    def __init__(self, vals): self.vals = vals        # name -> function of the element number
    def touch(self, ex, st, o, off): pass
    def slot_touch(self, ex, st, s): pass
    def slot_touch_init(self, ex, st, s): pass
    def slot_touch_val(self, ex, st, s, v): pass
    def ranks(self, ctx): return []
    def cands(self, ctx):
        cs, k = [], z3.Int('k!fill')
        for s in ctx.slots:
            if s.kind != 'arr' or s.const is None: continue
            es = ctx.ex.objs[s.key].es or 1
            for x in num_slots(ctx):
                if x.init_z is None: continue
                if isinstance(x.cur, PtrV):
                    if x.cur.obj != s.key: continue
                    if x.scale % es == 0 and (es > 1 or x.scale == 1): r = x.scale // es; lo, hi = (P(x.init_z) * r).z(), (P(x.const) * r).z()
                    else: p0 = P(x.init_z); lo, hi = (p0.divexact(es).z() if p0.divisible(es) else x.init_z / es), x.const / es
                else: lo, hi = x.init_z, x.const
                for nm, f in self.vals.items():
                    cs.append(('%s holds %s over [%s0,%s)' % (s.name, nm, x.name, x.name),
                               z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < hi), z3.Select(s.const, k) == f(k)), patterns=[z3.Select(s.const, k)])))
        return cs


class Walk:
    """candidates: the elements an array slot was given are those another array has where another pointer or counter walked"""
    def touch(self, ex, st, o, off): pass
    def slot_touch(self, ex, st, s): pass
    def slot_touch_init(self, ex, st, s): pass
    def slot_touch_val(self, ex, st, s, v): pass
    def ranks(self, ctx): return []
    def cands(self, ctx):
        ds = deltas(ctx); ns = [s for s in num_slots(ctx) if s.init_z is not None]
        step = {}
        for s in ns:
            vs = {row[s].c if s in row and row[s].isconst() else None for row in ds}
            if len(vs) == 1 and None not in vs and 0 < max(vs) <= 4: step[s] = max(vs)
        arrs = {s.key for s in ctx.slots if s.kind == 'arr'}
        def walkers(ob):
            w = [s for s in step if isinstance(s.cur, PtrV) and s.cur.obj == ob and s.scale % (ctx.ex.objs[ob].es or 1) == 0]
            w = w or [s for s in step if isinstance(s.cur, IntV) and s.cur.bits >= 16]
            def one(s):
                r = s.scale // (ctx.ex.objs[ob].es or 1) if isinstance(s.cur, PtrV) else 1
                return s.name, step[s] * r, (P(s.init_z) * r).z(), (P(s.const) * r).z()
            return [one(s) for s in w]
        cs, k = [], z3.Int('k!walk')
        for a in ctx.slots:
            if a.kind != 'arr' or a.const is None: continue
            for xn, dx, x0, x1 in walkers(a.key):
                for q, S in ctx.entry.mem.items():
                    o = ctx.ex.objs[q]
                    if q in arrs or isinstance(S, dict) or o.kind != 'arr' or o.where == 'global' or q in ctx.entry.dead: continue
                    for yn, dy, y0, y1 in walkers(q):
                        if dx > 4 or dy > 4: continue
                        for d in range(dx):
                            for e in range(dy):
                                j = k - x0
                                t = P(y0 + dy * (j if dx == 1 else j / dx) + e).z()
                                cs.append(('%s [%s +%d/%d] holds %s [%s +%d/%d]' % (a.name, xn, d, dx, o.name, yn, e, dy),
                                    z3.ForAll([k], z3.Implies(z3.And(k >= x0, k < x1, *([j % dx == d] if dx > 1 else [])), z3.Select(a.const, k) == (S(t) if callable(S) else z3.Select(S, t))), patterns=[z3.Select(a.const, k)])))
        return cs + self.stored(ctx, ns, step)
    def stored(self, ctx, ns, step):
        """from a store in the body: what the iterations so far stored is what that store stores, as a function of the iteration"""
        cs = []; k = z3.Int('k!st')
        ones = [s for s in step if step[s] == 1] or list(step)
        if not ones: return cs
        lead = ones[0]
        J = (P(lead.const) - P(lead.init_z)).z() if step[lead] == 1 else (lead.const - lead.init_z) / step[lead]
        jv = z3.Int('j!st')
        sub = [(s.const, (P(s.init_z) + P(jv) * step[s]).z()) for s in step if s.const is not None]
        own = {s.const.get_id() for s in step}
        def fixed(t): return all(c.get_id() in own or c.get_id() not in loopc and ctx.allowed(c) for c in consts(t))
        loopc = {s.const.get_id() for s in ctx.slots if s.const is not None} - own
        for a in ctx.slots:
            if a.kind != 'arr' or a.const is None: continue
            for o in ctx.backs:
                t = o.st.mem.get(a.key); seen = 0
                while t is not None and not callable(t) and z3.is_store(t) and seen < 8:
                    t, i, v = t.children(); seen += 1
                    if not fixed(i) or not fixed(v): continue
                    ij = P(z3.simplify(z3.substitute(i, *sub)))
                    i0, i1 = P(z3.substitute(ij.z(), (jv, z3.IntVal(0)))), P(z3.substitute(ij.z(), (jv, z3.IntVal(1))))
                    i0, i1 = P(z3.simplify(i0.z())), P(z3.simplify(i1.z()))
                    D = i1 - i0
                    if not D.isconst() or D.c < 1 or not (ij - i0 - P(jv) * D.c).same(P(0)): continue
                    D = D.c
                    q = (P(k) - i0).z() if D == 1 else (P(k) - i0).z() / D
                    val = z3.substitute(z3.substitute(v, *sub), (jv, q))
                    cs.append(('%s holds what was stored at %s' % (a.name, i0), z3.ForAll([k], z3.Implies(z3.And(k >= i0.z(), k < (i0 + P(J) * D).z(), *([(P(k) - i0).z() % D == 0] if D > 1 else [])), z3.Select(a.const, k) == val), patterns=[z3.Select(a.const, k)])))
                    cs.append(('%s unchanged outside what was stored at %s' % (a.name, i0), z3.ForAll([k], z3.Implies(z3.Or(k < i0.z(), k >= (i0 + P(J) * D).z()), z3.Select(a.const, k) == (a.init_z(k) if callable(a.init_z) else z3.Select(a.init_z, k))), patterns=[z3.Select(a.const, k)])))
        return cs
