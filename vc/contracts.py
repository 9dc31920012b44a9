"""Contracts of PIGO's scanning operations, stated over the specification functions of text.py."""
import re, z3
from . import ir
from .term import *
from .core import *
from .exec import *
from .text import *


class Layout:
    """where a class keeps its members, discovered by executing its constructor symbolically"""
    pass


def fr_layout(ex):
    """FileReader(d, end) is executed; the cells holding the two arguments are the members"""
    name = next((n for n in ex.mod.funcs if re.match(r'pigo::FileReader::FileReader\(char const\*, char const\*\)$', ex.dem.get(n, ''))), None)
    if name is None: raise Unsupported('FileReader constructor not found')
    st = St(); o = ex.new_arr(st, 'probe', P(z3.Int('probe_size')), es=1, ro=True)
    d, e = fresh('pd'), fresh('pe')
    r = ex.new_cells(st, 'probe_reader', 64)
    ex.search += 1
    try: outs = ex.inline(st, name, [PtrV(r.id), PtrV(o.id, d), PtrV(o.id, e)])
    finally: ex.search -= 1
    if len(outs) != 1: raise Unsupported('FileReader constructor branches')
    lay = Layout(); lay.d = lay.end = None
    for off, (sz, v) in outs[0].st.mem[r.id].items():
        if isinstance(v, PtrV) and v.off.same(d): lay.d = off
        elif isinstance(v, PtrV) and v.off.same(e): lay.end = off
        else: raise Unsupported('FileReader has state besides its position and end')
    if lay.d is None or lay.end is None: raise Unsupported('FileReader layout')
    return lay


def find(ex, rx):
    return [n for n in list(ex.mod.funcs) + list(ex.mod.decls) if re.match(rx, ex.dem.get(n, ''))]


class ScanContract:
    """d -> d' with relations between them; only the reader's position is modified"""
    def __init__(self, rx, posts, F, ret=None, moves=True, args=()):
        self.rx, self.posts, self.F, self.ret, self.moves, self.args = rx, posts, F, ret, moves, args
    def apply(self, ex, st, args):
        T = ex.text; lay = ex.lay
        this = args[0]
        if not isinstance(this, PtrV) or this.obj is None: raise Unsupported('reader pointer')
        cells = st.mem[this.obj]
        o = this.off.c
        try: d, e = cells[o + lay.d][1], cells[o + lay.end][1]
        except KeyError: raise Unsupported('uninitialised reader')
        if not (T.is_text(d) and T.is_text(e)): raise Unsupported('reader over another buffer')
        ex.oblige(st, 'pre', And(cmp('>=', d.off, 0), le(d.off, e.off), le(e.off, T.E)), 'reader within the buffer at call of ' + self.rx)
        T.touch_at(st, d.off)
        dn = fresh('d') if self.moves else d.off
        rv = None
        if self.ret is not None:
            rv = BoolV(fresh_bool('r')) if self.ret == 1 else FltV(T.RV[self.ret](Z(d.off), Z(e.off)), self.ret) if isinstance(self.ret, str) else IntV(self.ret, u=fresh('r'))
            if isinstance(rv, IntV): st.assume(z3.And(rv.u.z() >= 0, rv.u.z() < (1 << self.ret)))
        T.st = ex.cur_st = st
        for n, f in self.posts(T, ex, d.off, e.off, dn, rv, args): st.assume(f)
        if self.moves:
            st.assume(And(le(d.off, dn), le(dn, e.off)))
            m = dict(st.mem[this.obj]); m[o + lay.d] = (8, PtrV(d.obj, dn)); st.mem[this.obj] = m
            T.touch_at(st, dn)
        return [Out('ret', st, rv)]


def mn(a, b): return pmin(a, b)
def F1(name):
    def posts(T, ex, d, e, dn, rv, args):
        return [("stops exactly at %s" % name, eq(dn, mn(T.f(name, d), e)))]
    return posts
def next_int(T, ex, d, e, dn, rv, args):
    return [('stops exactly at the first digit outside comments after the digits it stands in', eq(dn, mn(T.f('FI', T.f('ND', d)), e)))]
def signed_start(T, d, e):
    """after an optional sign and the digits"""
    b = T.B(d.z())
    d1 = ite(z3.And(lt(d, e), c_sign(b)), d + 1, d)
    return d1
def next_signed(T, ex, d, e, dn, rv, args):
    d1 = signed_start(T, d, e)
    return [('stops exactly at the next digit or sign outside comments', eq(dn, mn(T.f('SI', T.f('ND', d1)), e)))]
def line_end(T, ex, d, e, dn, rv, args):
    return [('true exactly if only spaces and carriage returns are left on the line', rv.b == Or(cmp('>=', T.f('NB', d), e), cmp('>=', T.f('NB', d), T.f('EOL', d))))]
def read_int(bits):
    def posts(T, ex, d, e, dn, rv, args):
        s = mn(T.f('DG', d), e)
        M = 1 << 64
        v = T.DV(z3.IntVal(0), s.z(), dn.z())
        return [('stops exactly after the digit run', eq(dn, mn(T.f('ND', s), e))),
                ('value of the digit run modulo 2^%d' % bits, rv.u.z() == (v if bits == 64 else v % (1 << bits)))]
    return posts
def move_to(T, ex, d, e, dn, rv, args):
    c = ex.U(ex.cur_st, args[1])
    fn = T.char_fn(c)
    b = P(T.B(d.z()))
    d1 = ite(And(lt(d, e), eq(b, c)), d + 1, d)
    return [('stops exactly at the next instance of the character', eq(dn, mn(P(fn(d1.z())), e)))]


def peek(T, ex, d, e, dn, rv, args):
    return [('the byte at the position, 0 at the end', rv.u.z() == z3.If(lt(d, e), T.B(d.z()), 0))]
def at_nl(T, ex, d, e, dn, rv, args):
    b = T.B(d.z())
    return [('true exactly at the end, a newline or a comment', rv.b == Or(cmp('>=', d, e), b == 10, c_comment(b)))]
def at_zero(T, ex, d, e, dn, rv, args):
    b, b1 = T.B(d.z()), T.B((d + 1).z())
    return [('true exactly on a 0 that no digit follows', rv.b == And(lt(d, e), b == 48, Or(cmp('>=', d + 1, e), Not(c_digit(b1)))))]
def good(T, ex, d, e, dn, rv, args): return [('true exactly before the end', rv.b == lt(d, e))]
def size(T, ex, d, e, dn, rv, args): return [('the bytes left', rv.u.z() == (e - d).z())]
def sign(bits):
    def posts(T, ex, d, e, dn, rv, args):
        return [('-1 exactly on a minus, else 1', rv.u.z() == z3.If(z3.And(lt(d, e), T.B(d.z()) == 45), (1 << bits) - 1, 1))]
    return posts

def next_int_or_nl(T, ex, d, e, dn, rv, args):
    b = T.B(d.z())
    x1 = ite(And(lt(d, e), c_digit(b)), T.f('ND', d), ite(And(lt(d, e), b == 10), T.f('SC', d + 1), d))
    y = T.f('DN', x1)
    T.touch_at(T.st, y)
    r = ite(And(lt(y, T.E), c_comment(T.B(y.z()))), T.f('EOL', y), y)
    return [('stops exactly at the next number, or line end after one', eq(dn, mn(r, e)))]
def count_spaces(T, ex, d, e, dn, rv, args):
    return [('stops exactly at the line end', eq(dn, mn(T.f('EOL', d), e))),
            ('counts the numbers on the line that something follows', Imp(eq(e, T.E), rv.u.z() == T.CS(d.z())))]
def nothing(T, ex, d, e, dn, rv, args): return []
def fp_value(T, ex, d, e, dn, rv, args):
    # RV(d, e), the value, is a function of the text, the position and the end: verify_scan checks that nothing else is read
    return [('without a number before the end the value is 0', Imp(cmp('>=', T.f('FP', d), e), rv.t == ex.fconst('0.000000e+00', ir.FloatT(rv.name)).t))]

R = r'pigo::FileReader::'
def ri(t): return re.escape(t)
SCAN = {
    'skip_comments': ScanContract(R + r'skip_comments\(\)$', F1('SC'), ['EOL', 'SC']),
    'move_to_non_int': ScanContract(R + r'move_to_non_int\(\)$', F1('ND'), ['ND']),
    'move_to_non_fp': ScanContract(R + r'move_to_non_fp\(\)$', F1('NF'), ['NF']),
    'move_to_fp': ScanContract(R + r'move_to_fp\(\)$', F1('FP'), ['FP']),
    'move_to_eol': ScanContract(R + r'move_to_eol\(\)$', F1('EOL'), ['EOL']),
    'move_to_first_int': ScanContract(R + r'move_to_first_int\(\)$', F1('FI'), ['EOL', 'SC', 'FI']),
    'move_to_next_int': ScanContract(R + r'move_to_next_int\(\)$', next_int, ['EOL', 'SC', 'FI', 'ND']),
    'move_to_next_signed_int': ScanContract(R + r'move_to_next_signed_int\(\)$', next_signed, ['EOL', 'SC', 'SI', 'ND']),
    'move_to_next_int_or_nl': ScanContract(R + r'move_to_next_int_or_nl\(\)$', next_int_or_nl, ['EOL', 'SC', 'ND', 'DN']),
    'count_spaces_to_eol': ScanContract(R + r'count_spaces_to_eol\(\)$', count_spaces, ['EOL', 'DN', 'NF', 'NS', 'CS'], ret=64),
    'move_to': ScanContract(R + r'move_to\(char\)$', move_to, [], args=(8,)),
    'at_end_of_line': ScanContract(R + r'at_end_of_line\(\)$', line_end, ['EOL', 'NB'], ret=1, moves=False),
    'good': ScanContract(R + r'good\(\)$', good, [], ret=1, moves=False),
    'size': ScanContract(R + r'size\(\)$', size, [], ret=64, moves=False),
    'peek': ScanContract(R + r'peek\(\)$', peek, [], ret=8, moves=False),
    'at_nl_or_eol': ScanContract(R + r'at_nl_or_eol\(\)$', at_nl, [], ret=1, moves=False),
    'at_zero': ScanContract(R + r'at_zero\(\)$', at_zero, [], ret=1, moves=False),
}
for _t, _b in (('unsigned char', 8), ('unsigned short', 16), ('unsigned int', 32), ('unsigned long', 64), ('signed char', 8), ('short', 16), ('int', 32), ('long', 64)):
    SCAN['read_int<%s>' % _t] = ScanContract(r'%s pigo::FileReader::read_int<%s>\(\)$' % (_t, _t), read_int(_b), ['DG', 'ND'], ret=_b)
for _t in ('float', 'double'):
    SCAN['read_fp<%s>' % _t] = ScanContract(r'%s pigo::FileReader::read_fp<%s(, true)?>\(\)$' % (_t, _t), fp_value, ['FP'], ret=_t)
    SCAN['read_fp<%s, false>' % _t] = ScanContract(r'%s pigo::FileReader::read_fp<%s, false>\(\)$' % (_t, _t), fp_value, ['FP'], ret=_t)
for _t, _b in (('signed char', 8), ('short', 16), ('int', 32), ('long', 64)):
    SCAN['read_sign<%s>' % _t] = ScanContract(r'%s pigo::FileReader::read_sign<%s>\(\)$' % (_t, _t), sign(_b), [], ret=_b, moves=False)


def text_state(ex, F):
    st = St()
    ex.text = Text(ex, st, F)
    T = ex.text
    T._chars = {}
    def char_fn(c):
        k = c.key()
        if k not in T._chars: T._chars[k] = T.add_char(c.z())
        return T._chars[k]
    T.char_fn = char_fn
    ex.hooks = [T]
    return st, T


def reader(ex, st, d, e, name='reader'):
    r = ex.new_cells(st, name, 16)
    st.mem[r.id] = {ex.lay.d: (8, PtrV(ex.text.obj.id, d)), ex.lay.end: (8, PtrV(ex.text.obj.id, e))}
    return r


def verify_scan(ex, key, label=None):
    """proves the contract of one scanning operation on the code of /repo; returns its obligations"""
    c = SCAN[key]
    names = [n for n in find(ex, c.rx) if n in ex.mod.funcs]
    if not names: raise Unsupported('%s not found' % key)
    F = list(c.F)
    st, T = text_state(ex, F)
    d, e = P(z3.Int('d')), P(z3.Int('e'))
    st.assume(And(cmp('>=', d, 0), le(d, e), le(e, T.E)))
    args = []
    for b in c.args: args.append(ex.fresh_int(st, b, 'arg'))
    for a in args:
        if key == 'move_to': T.char_fn(a.u)
    r = reader(ex, st, d, e)
    T.touch_at(st, d)
    base = dict(st.mem)
    n0 = len(ex.obs)
    name = names[0]
    saved = {n: ex.contracts.pop(n) for n in [name] if n in ex.contracts}
    ex.cur_st = T.st = st
    # the precondition itself is satisfiable
    sane = ex.solver.check(st.path, [], 3000)
    ex.obs.append(Obligation('vacuity', name, 'the precondition is satisfiable', sane != z3.unsat))
    inputs = {r.id, T.obj.id}; seen = set()
    if isinstance(c.ret, str): ex.access_hook = lambda s, o, off, sz, rw, what: seen.add(o.id) if o.id in base and o.id not in inputs else None
    outs = ex.inline(st, name, [PtrV(r.id)] + args)
    ex.access_hook = None
    ex.contracts.update(saved)
    ex.callstack.append(Frame(ex.mod.funcs[name], ''))
    nret = 0
    for o in outs:
        if o.kind != 'ret':
            ex.oblige(o.st, 'post', FALSE, '%s does not throw' % key); continue
        s = o.st
        cells = s.mem[r.id]
        dv, ev = cells[ex.lay.d][1], cells[ex.lay.end][1]
        if not (T.is_text(dv) and T.is_text(ev)):
            ex.oblige(s, 'post', FALSE, '%s leaves the reader in its buffer' % key); continue
        nret += 1
        dn = dv.off
        T.touch_at(s, dn)
        for q in (d, e): T.touch_at(s, q)
        ex.cur_st = T.st = s
        rv = o.val
        if rv is not None and isinstance(rv, IntV): rv = IntV(rv.bits, u=ex.U(s, rv))
        ex.oblige(s, 'post', eq(ev.off, e), key + ': the end is unchanged')
        if isinstance(c.ret, str):
            from .loops import consts
            free = [q for q in consts(rv.t) if str(q).startswith('undef')] if isinstance(rv, FltV) else [0]
            ex.oblige(s, 'post', FALSE if free or seen else TRUE, key + ': the value depends on the text, the position and the end only')
        if c.moves: ex.oblige(s, 'post', And(le(d, dn), le(dn, e)), key + ': never backwards, never past the end')
        else: ex.oblige(s, 'post', eq(d, dn), key + ': does not move')
        for n, f in c.posts(T, ex, d, e, dn, rv, [PtrV(r.id)] + args):
            for g in postpoints(T, s, d, e, dn): pass
            ex.oblige(s, 'post', f, key + ': ' + n)
        for ob in base:
            if ob != r.id: ex.oblige(s, 'frame', TRUE if s.mem[ob] is base[ob] else FALSE, key + ': writes nothing but the position (%s)' % ex.objs[ob].name)
        if c.moves: pass
    ex.callstack.pop()
    if nret == 0: ex.obs.append(Obligation('vacuity', name, 'some path returns', False))
    return ex.obs[n0:]


def postpoints(T, s, d, e, dn):
    return []
