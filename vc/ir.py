"""Textual LLVM IR (clang 18, opaque pointers) -> Python objects.  Only what clang emits for PIGO is
parsed; an instruction the parser does not know becomes op 'unknown' and is reported by the engine as
unsupported if it is ever executed."""
import re

TOK = re.compile(r'''c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"|"[^"]*"|[%@][-a-zA-Z$._0-9]+|[%@]"[^"]*"|![0-9A-Za-z._]*|\#\d+|-?0x[KLMHR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|[a-zA-Z_.][-a-zA-Z0-9_.]*|\.\.\.|[<>{}()\[\],=*:|]''')

PARAM_ATTRS = {'noundef', 'dead_on_unwind', 'writable', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'zeroext',
               'signext', 'returned', 'immarg', 'inreg', 'nofree', 'nest', 'swiftself', 'allocptr', 'allocalign', 'writable'}
CC = {'fastcc', 'ccc', 'coldcc', 'tail', 'musttail', 'notail'}
LINK = {'private', 'internal', 'linkonce', 'linkonce_odr', 'weak', 'weak_odr', 'common', 'external', 'available_externally',
        'appending', 'extern_weak', 'dso_local', 'hidden', 'protected', 'default', 'unnamed_addr', 'local_unnamed_addr',
        'constant', 'global', 'comdat', 'thread_local', 'externally_initialized', 'dllexport', 'dllimport'}


class IntT:
    __slots__ = ('bits',)
    def __init__(self, b): self.bits = b
    def __repr__(self): return 'i%d' % self.bits
class PtrT:
    def __repr__(self): return 'ptr'
class FloatT:
    def __init__(self, n): self.name = n
    def __repr__(self): return self.name
class VoidT:
    def __repr__(self): return 'void'
class ArrT:
    def __init__(self, n, e): self.n, self.e = n, e
    def __repr__(self): return '[%d x %r]' % (self.n, self.e)
class StructT:
    def __init__(self, name, fields, packed=False): self.name, self.fields, self.packed = name, fields, packed; self._off = None
    def __repr__(self): return self.name or '{%s}' % ','.join(map(repr, self.fields or []))
class OtherT:
    def __init__(self, n): self.name = n
    def __repr__(self): return self.name
PTR, VOID = PtrT(), VoidT()
_ints = {}
def INT(b):
    if b not in _ints: _ints[b] = IntT(b)
    return _ints[b]


def sizeof(t):
    if isinstance(t, IntT): return 1 if t.bits <= 8 else 2 if t.bits <= 16 else 4 if t.bits <= 32 else 8 if t.bits <= 64 else 16
    if isinstance(t, PtrT): return 8
    if isinstance(t, FloatT): return {'half': 2, 'float': 4, 'double': 8, 'x86_fp80': 16, 'fp128': 16}[t.name]
    if isinstance(t, ArrT): return t.n * sizeof(t.e)
    if isinstance(t, StructT):
        offsets(t); return t._size
    raise ValueError('sizeof %r' % t)
def alignof(t):
    if isinstance(t, ArrT): return alignof(t.e)
    if isinstance(t, StructT): return 1 if t.packed else max([1] + [alignof(f) for f in t.fields])
    return sizeof(t)
def offsets(t):
    if t._off is None:
        o, r = 0, []
        for f in t.fields:
            if not t.packed:
                a = alignof(f); o = (o + a - 1) // a * a
            r.append(o); o += sizeof(f)
        a = alignof(t); t._size = (o + a - 1) // a * a; t._off = r
    return t._off


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'line')
    def __init__(self, op, res=None, ty=None, line='', **a): self.op, self.res, self.ty, self.a, self.line = op, res, ty, a, line
    def __repr__(self): return self.line
class Function:
    def __init__(self, name, ret, params): self.name, self.ret, self.params = name, ret, params; self.blocks = {}; self.entry = None; self.loops = None
class Module:
    def __init__(self): self.types, self.funcs, self.decls, self.globals = {}, {}, {}, {}


class P:
    """token cursor"""
    def __init__(self, m, toks): self.m, self.t, self.i = m, toks, 0
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else None
    def next(self): x = self.t[self.i]; self.i += 1; return x
    def eat(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def expect(self, x):
        y = self.next()
        if y != x: raise ValueError('expected %s got %s in %s' % (x, y, ' '.join(self.t[:60])))
    def type(self):
        x = self.next()
        if x == 'ptr': t = PTR
        elif x == 'void': t = VOID
        elif re.fullmatch(r'i\d+', x): t = INT(int(x[1:]))
        elif x in ('float', 'double', 'half', 'x86_fp80', 'fp128'): t = FloatT(x)
        elif x == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']'); t = ArrT(n, e)
        elif x == '{':
            fs = []
            while not self.eat('}'):
                fs.append(self.type()); self.eat(',')
            t = StructT(None, fs)
        elif x == '<':
            if self.eat('{'):
                fs = []
                while not self.eat('}'):
                    fs.append(self.type()); self.eat(',')
                self.expect('>'); t = StructT(None, fs, True)
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>'); t = OtherT('vec')
        elif x[0] == '%':
            t = self.m.types.setdefault(x, StructT(x, None))
        else: t = OtherT(x)
        while self.peek() == '(' and isinstance(t, (VoidT, IntT, PtrT, FloatT, StructT)) and self._functype():
            pass
        return t
    def _functype(self):
        # function type after a return type, e.g. "void (ptr, i32, ptr, ...)": skip when followed by @ or %
        d, j = 0, self.i
        while True:
            x = self.t[j]
            if x == '(': d += 1
            if x == ')': d -= 1
            j += 1
            if d == 0: break
        if j < len(self.t) and self.t[j][0] in '@%':
            self.i = j; return True
        return False
    def attrs(self):
        while True:
            x = self.peek()
            if x in PARAM_ATTRS: self.i += 1
            elif x == 'align': self.i += 2
            elif x in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'captures', 'allocsize', 'elementtype', 'range'):
                self.i += 1
                if self.peek() == '(':
                    d = 0
                    while True:
                        y = self.next()
                        if y == '(': d += 1
                        if y == ')':
                            d -= 1
                            if d == 0: break
            else: return
    def value(self, ty):
        x = self.next()
        if x[0] == '%': return ('r', x)
        if x[0] == '@': return ('g', x)
        if re.fullmatch(r'-?\d+', x): return ('i', int(x))
        if x == 'true': return ('i', 1)
        if x == 'false': return ('i', 0)
        if x in ('null', 'none'): return ('null',)
        if x in ('undef', 'poison'): return ('undef',)
        if x == 'zeroinitializer': return ('zero',)
        if x[:2] == '0x' or x[:3] == '-0x' or re.fullmatch(r'-?\d+\.\d+(e[+-]?\d+)?', x): return ('f', x)
        if x[0] == 'c' and x[1:2] == '"': return ('str', unesc(x[2:-1]))
        if x == 'getelementptr':
            self.eat('inbounds'); self.eat('nuw')
            self.expect('('); bt = self.type(); self.expect(','); ops = []
            while True:
                self.eat('inrange')
                t = self.type(); ops.append((t, self.value(t)))
                if not self.eat(','): break
            self.expect(')'); return ('gep', bt, ops)
        if x in ('inttoptr', 'ptrtoint', 'bitcast'):
            self.expect('('); t = self.type(); v = self.value(t); self.expect('to'); t2 = self.type(); self.expect(')'); return ('cast', x, t, v, t2)
        if x in '{[<':
            close = {'{': '}', '[': ']', '<': '>'}[x]
            vs = []
            if x == '<' and self.eat('{'): close = '}'
            while not self.eat(close):
                t = self.type(); vs.append((t, self.value(t))); self.eat(',')
            if x == '<' and close == '}': self.expect('>')
            return ('agg', vs)
        raise ValueError('value? %s in %s' % (x, ' '.join(self.t[:40])))
    def tv(self):
        t = self.type(); self.attrs(); return t, self.value(t)


def unesc(s):
    out, i = bytearray(), 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i + 1:i + 3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return bytes(out)


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc'}


def parse_call(p, op, res, line):
    while p.peek() in CC or p.peek() in ('nnan', 'ninf', 'nsz', 'fast', 'contract', 'reassoc', 'afn', 'arcp'): p.next()
    p.attrs()
    rt = p.type()
    callee = p.next()
    if callee in ('asm',): return Instr('unknown', res, None, line)
    p.expect('(')
    args = []
    while not p.eat(')'):
        t = p.type()
        if isinstance(t, OtherT) and t.name == 'metadata':
            d = 0
            while not (d == 0 and p.peek() in (',', ')')):
                y = p.next(); d += (y == '(') - (y == ')')
            args.append((t, ('undef',)))
        else:
            p.attrs(); args.append((t, p.value(t)))
        p.eat(',')
    ins = Instr(op, res, rt, line, callee=callee, args=args)
    if op == 'invoke':
        while p.peek() != 'to': p.next()
        p.next(); p.expect('label'); ins.a['normal'] = p.next(); p.expect('unwind'); p.expect('label'); ins.a['unwind'] = p.next()
    return ins


def parse_instr(m, line):
    toks = TOK.findall(line)
    p = P(m, toks)
    res = None
    if len(toks) > 1 and toks[1] == '=': res = p.next(); p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'): op = p.next()
    if op in ('call', 'invoke'): return parse_call(p, op, res, line)
    if op == 'alloca':
        t = p.type(); n = None
        if p.eat(',') and p.peek() != 'align': n = p.tv()
        return Instr(op, res, PTR, line, t=t, n=n)
    if op == 'load':
        if p.eat('atomic'): pass
        p.eat('volatile'); t = p.type(); p.expect(','); _, ptr = p.tv()
        return Instr(op, res, t, line, ptr=ptr)
    if op == 'store':
        if p.eat('atomic'): pass
        p.eat('volatile'); t, v = p.tv(); p.expect(','); _, ptr = p.tv()
        return Instr(op, None, t, line, val=v, ptr=ptr)
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
        bt = p.type(); p.expect(','); ops = [p.tv()]
        while p.eat(','):
            if p.peek()[0] == '!': break
            ops.append(p.tv())
        return Instr(op, res, PTR, line, bt=bt, ops=ops)
    if op in BIN:
        fl = set()
        while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'): fl.add(p.next())
        t = p.type(); x = p.value(t); p.expect(','); y = p.value(t)
        return Instr('bin', res, t, line, o=op, x=x, y=y, fl=fl)
    if op == 'fneg':
        while p.peek() in ('nnan', 'fast'): p.next()
        t, v = p.tv(); return Instr('fneg', res, t, line, v=v)
    if op in CAST:
        while p.peek() in ('nneg', 'nuw', 'nsw'): p.next()
        t, v = p.tv(); p.expect('to'); t2 = p.type(); return Instr('cast', res, t2, line, o=op, t=t, v=v)
    if op in ('icmp', 'fcmp'):
        pr = p.next()
        while pr in ('samesign', 'fast', 'nnan'): pr = p.next()
        t = p.type(); x = p.value(t); p.expect(','); y = p.value(t)
        return Instr(op, res, INT(1), line, pred=pr, t=t, x=x, y=y)
    if op == 'phi':
        t = p.type(); inc = []
        while True:
            p.expect('['); v = p.value(t); p.expect(','); b = p.next(); p.expect(']'); inc.append((v, b))
            if not p.eat(','): break
        return Instr(op, res, t, line, inc={b: v for v, b in inc})
    if op == 'select':
        _, c = p.tv(); p.expect(','); t, x = p.tv(); p.expect(','); _, y = p.tv()
        return Instr(op, res, t, line, c=c, x=x, y=y)
    if op == 'br':
        if p.eat('label'): return Instr(op, None, None, line, to=[p.next()])
        _, c = p.tv(); p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
        return Instr(op, None, None, line, c=c, to=[a, b])
    if op == 'switch':
        t, v = p.tv(); p.expect(','); p.expect('label'); d = p.next(); p.expect('['); cs = []
        while not p.eat(']'):
            _, k = p.tv(); p.expect(','); p.expect('label'); cs.append((k[1], p.next()))
        return Instr(op, None, t, line, v=v, d=d, cs=cs)
    if op == 'ret':
        if p.eat('void'): return Instr(op, None, VOID, line, v=None)
        t, v = p.tv(); return Instr(op, None, t, line, v=v)
    if op in ('unreachable', 'resume'): return Instr(op, None, None, line)
    if op == 'landingpad': return Instr(op, res, p.type(), line)
    if op == 'extractvalue':
        t, v = p.tv(); idx = []
        while p.eat(','): idx.append(int(p.next()))
        return Instr(op, res, None, line, t=t, v=v, idx=idx)
    if op == 'insertvalue':
        t, v = p.tv(); p.expect(','); t2, e = p.tv(); idx = []
        while p.eat(','): idx.append(int(p.next()))
        return Instr(op, res, t, line, v=v, e=e, t2=t2, idx=idx)
    if op == 'atomicrmw':
        p.eat('volatile'); o = p.next(); _, ptr = p.tv(); p.expect(','); t, v = p.tv()
        return Instr(op, res, t, line, o=o, ptr=ptr, v=v)
    if op == 'freeze':
        t, v = p.tv(); return Instr('freeze', res, t, line, v=v)
    return Instr('unknown', res, None, line)


def parse(text):
    m = Module()
    lines = text.split('\n')
    # join multi-line constructs (switch tables, landingpads, invokes)
    i = 0
    out = []
    while i < len(lines):
        l = lines[i]
        s = l.strip()
        if l.startswith('  ') and re.match(r'\s+switch ', l):
            while not s.rstrip().endswith(']'):
                i += 1; s += ' ' + lines[i].strip()
            l = '  ' + s
        elif l.startswith('  ') and ('invoke ' in l) and ' unwind label ' not in l:
            i += 1; s += ' ' + lines[i].strip(); l = '  ' + s
        out.append(l); i += 1
    # types first
    for l in out:
        mm = re.match(r'(%(?:"[^"]*"|[-\w$.]+)) = type (.*)', l)
        if mm:
            st = m.types.setdefault(mm.group(1), StructT(mm.group(1), None))
            body = mm.group(2).strip()
            if body == 'opaque': st.fields = []; continue
            t = P(m, TOK.findall(body)).type()
            st.fields, st.packed = t.fields, t.packed
    cur = blk = None
    for l in out:
        if cur is None:
            if l.startswith('define '):
                toks = TOK.findall(l)
                p = P(m, toks); p.next()
                while p.peek() in LINK or p.peek() in CC: p.next()
                p.attrs()
                rt = p.type(); name = p.next(); p.expect('(')
                params = []
                while not p.eat(')'):
                    if p.eat('...'): continue
                    t = p.type(); p.attrs(); params.append((t, p.next())); p.eat(',')
                cur = Function(name, rt, params); m.funcs[name] = cur; blk = None
            elif l.startswith('declare '):
                mm = re.search(r'(@"[^"]*"|@[-\w$.]+)\(', l)
                if mm: m.decls[mm.group(1)] = l
            elif l.startswith('@'):
                mm = re.match(r'(@"[^"]*"|@[-\w$.]+) = (.*)', l)
                if mm:
                    toks = TOK.findall(mm.group(2)); p = P(m, toks)
                    const = False; ext = False
                    while p.peek() in LINK or p.peek() in ('addrspace',):
                        x = p.next()
                        if x == 'constant': const = True
                        if x in ('external',): ext = True
                    try:
                        t = p.type(); v = None
                        if not ext and p.peek() not in (None, ','): v = p.value(t)
                        m.globals[mm.group(1)] = (t, v, const)
                    except Exception:
                        m.globals[mm.group(1)] = (None, None, const)
            continue
        if l.startswith('}'):
            cur = None; continue
        if not l.strip() or l.lstrip().startswith(';'): continue
        mm = re.match(r'("[^"]*"|[-\w$.]+):', l)
        if mm and not l.startswith(' '):
            n = mm.group(1); blk = '%' + n
            cur.blocks[blk] = []
            if cur.entry is None: cur.entry = blk
            continue
        if blk is None:
            blk = '%0'; cur.blocks[blk] = []; cur.entry = blk
        s = l.strip()
        if s.startswith(('cleanup', 'catch', 'filter')): continue
        try: ins = parse_instr(m, s)
        except Exception as e: ins = Instr('unknown', None, None, s + '   ; ' + str(e))
        cur.blocks[blk].append(ins)
    return m


def succs(ins):
    if ins.op == 'br': return list(ins.a['to'])
    if ins.op == 'switch': return [ins.a['d']] + [b for _, b in ins.a['cs']]
    if ins.op == 'invoke': return [ins.a['normal']]          # exceptional edges end the path (see engine)
    return []


class Loop:
    def __init__(self, header, body): self.header, self.body = header, body


def loops_of(f):
    """natural loops by header: {header: Loop}"""
    if f.loops is not None: return f.loops
    succ = {b: succs(i[-1]) if i else [] for b, i in f.blocks.items()}
    order, seen = [], set()
    st = [(f.entry, iter(succ[f.entry]))]; seen.add(f.entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(succ[s]))); break
        else:
            order.append(b); st.pop()
    rpo = order[::-1]; idx = {b: i for i, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]:
            pred[s].append(b)
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in pred[b] if p in idom]
            n = ps[0]
            for p in ps[1:]:
                a, c = p, n
                while a != c:
                    while idx[a] > idx[c]: a = idom[a]
                    while idx[c] > idx[a]: c = idom[c]
                n = a
            if idom.get(b) != n: idom[b] = n; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == f.entry: return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succ[b]:
            if idx[s] <= idx[b]:
                if not dom(s, b): raise ValueError('irreducible loop in ' + f.name)
                body = {s}; wl = [b]
                while wl:
                    x = wl.pop()
                    if x not in body:
                        body.add(x); wl.extend(pred[x])
                if s in loops: loops[s].body |= body
                else: loops[s] = Loop(s, body)
    f.loops = loops
    return loops
