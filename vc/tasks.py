"""Proof tasks: each verifies one function (or a group) of /repo against its contract and returns obligations."""
import time, traceback, re, os, json
from .core import Obligation, Unsupported, Giveup
from . import build

_mods = {}
def mod(src, defs=()):
    k = (src, tuple(defs))
    if k not in _mods: _mods[k] = build.load(src, defs)
    return _mods[k]


class Task:
    def __init__(self, name, fn, srcs, cost=5, budget=240): self.name, self.fn, self.srcs, self.cost, self.budget = name, fn, srcs, cost, budget
TASKS = {}
def task(name, fn, srcs=(), cost=5, budget=240): TASKS[name] = Task(name, fn, srcs, cost, budget)


HINTFILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'hints.json')
_hints, _all = [None], []
def hints():
    if not _all:
        try: _all.append({t: {l: set(c) for l, c in v.items()} for t, v in json.load(open(HINTFILE)).items()})
        except (OSError, ValueError): _all.append({})
    return _all[0]


def run_task(name, use_hints=True):
    t = TASKS[name]; t0 = time.time()
    r = dict(name=name, status='proved', obligations=0, discharged=0, failed=[], functions=[], by={}, queries=0, solver_s=0.0, why='', kinds={}, contracts=[], models=[], assumed=[])
    from . import core
    core.DEADLINE[0] = t0 + t.budget
    def attempt():
        # first with the loop invariants that a run on the committed tree found, only suggestions: they are proved like any
        # other; if anything is not discharged with them, the search is done again over all candidates
        h = hints().get(name)
        if h and use_hints:
            _hints[0] = h
            try: return t.fn()
            except (core.HintFail, Unsupported): pass
            finally: _hints[0] = None
        return t.fn()
    try: obs, exs = attempt()
    except Unsupported as e:
        r['status'] = 'unsupported'; r['why'] = str(e)[:400]; obs, exs = [], []
    except Giveup as e:
        r['status'] = 'unsupported'; r['why'] = 'gave up: ' + str(e)[:300]; obs, exs = [], []
    except build.BuildError as e:
        r['status'] = 'unsupported'; r['why'] = 'does not compile to IR: ' + str(e)[-300:]; obs, exs = [], []
    except Exception as e:
        r['status'] = 'unsupported'; r['why'] = 'engine error: ' + traceback.format_exc()[-800:]; obs, exs = [], []
    fns = set()
    r['invs'] = {}
    for ex in exs:
        for k, v in ex.invs.items(): r['invs'].setdefault(k, set()).update(v)
        for k, v in ex.solver.by.items(): r['by'][k] = r['by'].get(k, 0) + v
        r['queries'] += ex.solver.nq; r['solver_s'] += ex.solver.t
        fns |= {ex.dem.get(f, f) for f in ex.funcs_seen}
        r['contracts'] = sorted(set(r['contracts']) | {ex.dem.get(f, f) for f in ex.contracts_used})
        r['models'] = sorted(set(r['models']) | set(ex.models_used)); r['assumed'] = sorted(set(r['assumed']) | set(ex.assumed))
    r['functions'] = sorted(f for f in fns if 'pigo::' in f)
    dem = {}
    for ex in exs: dem = ex.dem
    r['obligations'] = len(obs); r['discharged'] = sum(1 for o in obs if o.ok)
    for o in obs:
        k = r['kinds'].setdefault(o.kind, [0, 0]); k[0] += 1; k[1] += bool(o.ok)
    seen = set()
    for o in obs:
        if o.ok: continue
        key = (o.kind, o.fn, o.what)
        if key in seen: continue
        seen.add(key)
        r['failed'].append(dict(kind=o.kind, function=dem.get(o.fn, o.fn), what=o.what, model=(str(o.model)[:1500] if o.model is not None else '')))
    if r['failed']: r['status'] = 'failed'
    if r['status'] == 'proved' and not obs: r['status'] = 'unsupported'; r['why'] = 'no obligation was generated'
    r['wall_s'] = time.time() - t0
    return r


# ---------------------------------------------------------------- scanning (C01, C02)
def mk(src, defs=()):
    from . import exec as E
    m = mod(src, defs); ex = E.Exec(m, m.dem)
    if _hints[0] is not None: ex.hints = _hints[0]; ex.obs.strict = True
    return ex


LEAF = ('skip_comments', 'move_to_non_int', 'move_to_eol', 'move_to_first_int', 'move_to_non_fp')
def scan_task(key):
    def run():
        from . import contracts as C
        ex = mk('scan.cpp')
        ex.lay = C.fr_layout(ex)
        for k2, c in C.SCAN.items():
            if k2 in LEAF and set(c.F) <= set(C.SCAN[key].F) and k2 != key or key.startswith('read_fp') and k2.endswith('false>') and k2 != key:
                for n in C.find(ex, c.rx): ex.contracts[n] = c
        obs = C.verify_scan(ex, key)
        return obs, [ex]
    return run
def lemma_task():
    from . import lemmas
    return lemmas.text_lemmas(), []


def num_task(t, b, sg):
    def run():
        from . import digits as D
        ex = mk('num.cpp'); ex2 = mk('num.cpp')
        return D.verify_size(ex, t, b, sg) + D.verify_ascii(ex2, t, b, sg), [ex, ex2]
    return run


def lemmas_mod():
    from . import lemmas
    return lemmas
def block_task(w):
    def run():
        from . import par
        ex = mk('par.cpp')
        return par.verify_block(ex, w), [ex]
    return run


def register():
    from . import contracts as C
    task('lemmas: text', lemma_task, cost=1)
    for k in C.SCAN: task('scan: ' + k, scan_task(k), ['scan.cpp'], cost={'count_spaces_to_eol': 14, 'move_to_next_int_or_nl': 6}.get(k, 2))
    from . import digits as D
    task('lemmas: digits', lambda: (D.lemmas(), []), cost=1)
    for t, b, sg in D.TYPES: task('num: ' + t, num_task(t, b, sg), ['num.cpp'], cost=2)
    task('lemmas: nonlinear', lambda: (lemmas_mod().nonlinear(), []), cost=1)
    for w in (True, False): task('par: parallel_' + ('write' if w else 'read'), block_task(w), ['par.cpp'], cost=2)
    def bt(f, *a):
        def run():
            from . import bin as B
            ex = mk('bin.cpp')
            return getattr(B, 'verify_' + f)(ex, *a), [ex]
        return run
    B = {'coo': 'C10', 'csr': 'C11', 'ten': 'C12'}
    task('bin: write(string)', bt('writestr'), ['bin.cpp'], cost=1)
    for c in B:
        for k in 'abcd':
            for f in ('inverse', 'truncated', 'any') + (('written',) if k in 'ab' else ()):
                task('%s: %s, types %s' % (c, f, k), bt(f, c, k), ['bin.cpp'], cost=2)
    # a saved file loaded as something else: other label size, other ordinal size, other weight size (tensor), other class
    for c, k, c2, k2 in [('coo', 'a', 'coo', 'd'), ('coo', 'd', 'coo', 'a'), ('coo', 'b', 'coo', 'c'), ('coo', 'c', 'coo', 'b'), ('coo', 'a', 'csr', 'a'), ('coo', 'b', 'ten', 'b'),
                         ('csr', 'a', 'csr', 'd'), ('csr', 'd', 'csr', 'a'), ('csr', 'b', 'csr', 'c'), ('csr', 'c', 'csr', 'b'), ('csr', 'a', 'coo', 'a'), ('csr', 'b', 'ten', 'b'),
                         ('ten', 'b', 'ten', 'd'), ('ten', 'd', 'ten', 'b'), ('ten', 'b', 'ten', 'c'), ('ten', 'c', 'ten', 'b'), ('ten', 'b', 'ten', 'e'), ('ten', 'a', 'coo', 'a'), ('ten', 'b', 'csr', 'b')]:
        task('%s: mismatch, %s types %s read as %s types %s' % (c2, c, k, c2, k2), bt('mismatch', c, k, c2, k2), ['bin.cpp'], cost=2)
    for k in 'abcd': task('csr: savef, types ' + k, bt('savef', k), ['bin.cpp'], cost=2)
    def ft(f, *a):
        def run():
            from . import file as F
            ex = mk('bin.cpp')
            return getattr(F, 'verify_' + f)(ex, *a), [ex]
        return run
    for f, a in [('open_read', ()), ('open_write', ()), ('seek', ()), ('read', (8,)), ('read', (64,)), ('write', (8,)), ('write', (64,)), ('reads', ()), ('writes', ()),
                 ('block', (True,)), ('block', (False,)), ('move', ()), ('assign', ())]:
        task('file: ' + ' '.join([f] + [str(x) for x in a]), ft(f, *a), ['bin.cpp'], cost=1)
    task('guess: guess_file_type', ft('guess'), ['bin.cpp'], cost=2)
    for c in B:
        for k in 'ab': task('guess: saved %s %s' % (c, k), ft('saved_type', c, k), ['bin.cpp'], cost=2)
    task('lemmas: ghosts', lambda: (lemmas_mod().ghosts(), []), cost=1)
    def lt(f, cfg, *a):
        def run():
            from . import load as LD
            ex = mk('coo.cpp', cfg.defs())
            return getattr(LD, 'verify_' + f)(ex, cfg, *a), [ex]
        return run
    from .load import CFGS
    for cfg in CFGS:
        w = bool(cfg.w)
        for cnt in (True, False): task('el: %s an entry, %s' % ('counting' if cnt else 'filling', cfg.name()), lt('entry', cfg, cnt), [], cost=5 if cnt else 400 if cfg.name() in ('sym int32_t', 'sl double u64') else 80 if w else 25, budget=640)
        task('el: read_el_, ' + cfg.name(), lt('el', cfg), [], cost=100 if w else 45, budget=400)
    from .load import Cfg
    for cfg in CFGS + [Cfg(L=64)]: task('content: read_el_, ' + cfg.name(), lt('content', cfg), [], cost=300 if cfg.w else 250, budget=640)
    def ch(cfg):
        def run():
            from . import chain as CH
            ex = mk('coo.cpp', cfg.defs())
            return CH.verify_chain(ex, cfg), [ex]
        return run
    for cfg in CFGS + [Cfg(L=64)]: task('chain: ' + cfg.name(), ch(cfg), [], cost=20 if cfg.w else 6)
    def tel():
        from . import chain as CH
        return CH.verify_telescope(), []
    task('chain: sums', tel, cost=1)
    task('el: counting an entry, plain u64', lt('entry', Cfg(L=64), True), [], cost=5, budget=400)
    task('el: filling an entry, plain u64', lt('entry', Cfg(L=64), False), [], cost=25, budget=400)
    def stt(k, t):
        def run():
            from . import sto as ST
            ex = mk('sto.cpp')
            return ST.verify_storage(ex, k, t), [ex]
        return run
    from . import sto as ST
    for k in ST.KINDS:
        for t in ST.TYPES: task('sto: %s %s' % (k, t), stt(k, t), ['sto.cpp'], cost=1)
    from . import copy as CP
    def cpt(cls, cfg, how):
        def run():
            ex = mk('cpy.cpp', cfg.defs())
            return CP.verify_copy(ex, cls, cfg, how), [ex]
        return run
    for cfg in CP.CFGS:
        for cls in CP.CLS:
            for how in ('construct', 'assign', 'self'): task('copy: %s %s, %s' % (cls, how, cfg.name()), cpt(cls, cfg, how), [], cost=1)
    from . import conv as CV
    def cvt(cfg, what='coo'):
        def run():
            ex = mk('conv.cpp', cfg.defs())
            return getattr(CV, 'verify_' + what)(ex, cfg), [ex]
        return run
    for cfg in CV.SCFGS: task('conv: sort, ' + cfg.name(), cvt(cfg, 'sort'), [], cost=30 if cfg.w else 1)
    for cfg in CV.CFGS + CV.REFUSED: task('conv: coo of csr, ' + cfg.name(), cvt(cfg), [], cost=2)
    task('lemmas: output', lambda: (lemmas_mod().output(), []), cost=1)
    from . import write as WR
    def wrt(cfg):
        def run():
            ex = mk('wr.cpp', cfg.defs())
            return WR.verify_write(ex, cfg), [ex]
        return run
    for cfg in WR.CFGS: task('write: coo, ' + cfg.name(), wrt(cfg), [], cost=5)
    for cfg in WR.TCFGS: task('write: tensor, ' + cfg.name(), wrt(cfg), [], cost=100, budget=400)
    from . import graph as GR
    def grt(cfg, what, *a):
        def run():
            ex = mk('gr.cpp', cfg.defs())
            return getattr(GR, 'verify_' + what)(ex, cfg, *a), [ex]
        return run
    for cfg in GR.CFGS:
        for p, nm in (('dg', 'digraph'), ('mx', 'matrix')):
            task('graph: %s of a COO, %s' % (nm, cfg.name()), grt(cfg, 'build', p), [], cost=1)
            task('graph: %s of a file, %s' % (nm, cfg.name()), grt(cfg, 'file', p), [], cost=1)
        task('graph: saved and loaded, ' + cfg.name(), grt(cfg, 'saved'), [], cost=70)
        task('graph: neighbours, ' + cfg.name(), grt(cfg, 'range'), [], cost=1)
register()
COPY = ['lemmas: nonlinear', 'par: parallel_write', 'par: parallel_read', 'bin: write(string)']
def starting(*ps): return [n for n in TASKS if any(n.startswith(p) for p in ps)]
NUMS = ['lemmas: digits'] + [n for n in TASKS if n.startswith('num: ')]
SCANS = ['lemmas: text'] + [n for n in TASKS if n.startswith('scan: ')]

SAFETY = {'mem', 'null', 'uaf', 'write', 'term', 'ovf', 'div0', 'frame', 'vacuity', 'lemma', 'pre'}
def c01(o): return o['kind'] in SAFETY or (o['kind'] == 'post' and re.search(r'never backwards|end is unchanged|does not throw|leaves the reader|does not move', o['what']))
def c02(o): return o['kind'] in ('post', 'inv', 'vacuity', 'lemma')
ELSCANS = ['lemmas: text'] + ['scan: ' + k for k in ('skip_comments', 'move_to_first_int', 'move_to_next_int', 'move_to_non_int', 'move_to_eol', 'move_to_next_signed_int', 'read_int<unsigned int>', 'read_int<unsigned long>', 'read_int<int>', 'read_sign<int>', 'move_to_fp', 'move_to_non_fp', 'read_fp<float>', 'read_fp<double>', 'read_fp<float, false>', 'read_fp<double, false>') if 'scan: ' + k in TASKS]
def c05(o): return not re.search(r'label is kept|is the documented one|the same weight|weight stored is', o['what'])
def c06(o): return not re.search(r'weight|^w holds|thread stores in w', o['what'])
def c07(o): return not re.search(r'label|[xy] of entry|^[xy] holds|thread stores in [xy]|n is the larger', o['what'])
CHAIN = ['lemmas: nonlinear', 'lemmas: ghosts', 'chain: sums']
EL_U = ('sym', 'ut', 'sl', 'sym+ut', 'sym+sl', 'ut+sl', 'sym+ut+sl')
EL_W = ('plain float', 'sym int32_t', 'sym+ut+sl uint32_t', 'sl double u64', 'ut float')
def loading(*cs): return ELSCANS + CHAIN + [k + c for c in cs for k in ('el: counting an entry, ', 'el: filling an entry, ', 'el: read_el_, ', 'content: read_el_, ', 'chain: ') if k + c in TASKS]
# property -> (tasks, which failed obligations concern it)
PROPS = {
    'C01': (SCANS, c01),
    'C02': (SCANS, c02),
    'C20': (['lemmas: nonlinear', 'par: parallel_write', 'par: parallel_read'], lambda o: True),
    'C23': (COPY + starting('file: '), lambda o: True),
    'C26': (COPY + starting('guess: '), lambda o: True),
    'C09': (NUMS + ['lemmas: nonlinear', 'lemmas: output'] + starting('write: coo'), lambda o: True),
    'C27': (NUMS + ['lemmas: nonlinear', 'lemmas: output'] + starting('write: tensor'), lambda o: True),
    'C10': (COPY + starting('coo: '), lambda o: True),
    'C11': (COPY + starting('csr: '), lambda o: True),
    'C12': (COPY + starting('ten: '), lambda o: True),
    'C04': (loading('plain', 'plain u64'), c06),
    'C06': (loading(*EL_U), c06),
    'C07': (loading(*EL_W), c07),
    'C05': (ELSCANS + ['lemmas: nonlinear', 'lemmas: ghosts'] + starting('el: '), c05),
    'C14': (['lemmas: nonlinear'] + starting('conv: coo'), lambda o: True),
    'C15': (['lemmas: nonlinear'] + starting('conv: sort'), lambda o: True),
    'C18': (['lemmas: nonlinear'] + starting('copy: '), lambda o: True),
    'C19': (COPY + starting('graph: ') + starting('copy: coo construct'), lambda o: True),
    'C24': (starting('sto: '), lambda o: True),
    'C03': (NUMS + ['scan: read_int<unsigned long>', 'scan: read_int<long>', 'scan: read_sign<long>'], lambda o: True),
}

TRUSTED = ['clang 18 front end and sroa/mem2reg/simplifycfg (source to the LLVM IR that is verified)',
           'the vc engine itself: IR parser, symbolic execution, loop-invariant checking (vc/*.py)',
           'z3 and cvc5 unsat answers',
           'memory: objects are disjoint, allocations that succeed have the requested size']
ASSUME_ALL = ['text and arrays are smaller than 2^62 bytes', 'the code is compiled with the C++11 semantics clang gives it (64-bit size_t, little endian)',
              'the path of an exception from its throw to the caller (destructors run on unwinding) is not analysed unless stated']
ASSUME = {}
