#!/usr/bin/env python3-vt
"""check.py PROPERTY: decides one property on /repo's working tree.  Exit 0 held, exit 1 with a VIOLATION line."""
import sys, os, time, json, subprocess, tempfile, shutil, multiprocessing as mp, traceback, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
T0 = time.time()
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:malloc_fill_byte=171:max_malloc_fill_size=10000000:detect_odr_violation=0:handle_abort=1', UBSAN_OPTIONS='print_stacktrace=0', OMP_DYNAMIC='false', OMP_WAIT_POLICY='passive', GOMP_SPINCOUNT='0')
ENV.pop('OMP_NUM_THREADS', None); ENV.pop('OMP_THREAD_LIMIT', None)
HARD = 780 if TIER == 'quick' else 860


def known(pid):
    out = []
    try:
        for l in open(os.path.join(HERE, 'known_findings.txt')):
            if l.startswith('known: property=%s ' % pid): out.append(l[len('known: property=%s ' % pid):].strip())
    except OSError: pass
    return out


class Harness:
    def __init__(self, pid, tmp):
        self.name = pid.lower(); self.tmp = tmp; self.bin = os.path.join(tmp, self.name)
        self.err = None; self.proc = None; self.cases = 0; self.secs = 0.0; self.fail = None; self.runs = []
    def start_build(self):
        self.proc = subprocess.Popen([os.path.join(HERE, 'harness', 'build.sh'), self.name, self.bin], stdout=subprocess.DEVNULL, stderr=open(os.path.join(self.tmp, 'build.err'), 'w'))
    def wait_build(self, tmo=240):
        try: rc = self.proc.wait(tmo)
        except subprocess.TimeoutExpired: self.proc.kill(); rc = -1
        if rc: self.err = 'harness does not build: ' + open(os.path.join(self.tmp, 'build.err')).read()[-500:]
        return rc == 0
    def run(self, seeds, secs):
        """bounded search with several seeds at once"""
        ps = []
        t = time.time()
        for s in seeds:
            d = os.path.join(self.tmp, 'd%d' % s); os.makedirs(d, exist_ok=True)
            rp = os.path.join(self.tmp, 'r%d.case' % s)
            ps.append((s, rp, subprocess.Popen([self.bin, 'run', str(s), str(secs), d, rp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=self.tmp)))
        for s, rp, p in ps:
            try: o, e = p.communicate(timeout=secs + 90)
            except subprocess.TimeoutExpired: p.kill(); p.communicate(); continue
            o = o.decode('latin-1'); e = e.decode('latin-1')
            if p.returncode == 0 and o.startswith('OK'): self.cases += int(o.split('cases=')[1].split()[0])
            elif p.returncode == 1 and 'FAIL' in o:
                if self.fail is None: self.fail = (rp, o, e)
            else: self.err = 'harness error: exit %s %s %s' % (p.returncode, o[-200:], e[-300:])
        self.secs += time.time() - t


def worker(name, conn):
    try:
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        from vc import tasks
        conn.send(tasks.run_task(name))
    except BaseException as e:
        try: conn.send(dict(name=name, status='unsupported', why='worker: %r' % e, obligations=0, discharged=0, failed=[], functions=[], by={}, queries=0, solver_s=0, kinds={}, contracts=[], models=[], assumed=[], wall_s=0))
        except Exception: pass
    finally: conn.close()


def run_tasks(names, par, deadline):
    from vc import tasks
    for s in sorted({x for n in names for x in tasks.TASKS[n].srcs if isinstance(x, str)}):
        try: tasks.mod(s)
        except Exception: pass          # reported by the task that needs it
    todo = sorted(names, key=lambda n: -tasks.TASKS[n].cost)
    live, res = [], []
    def empty(n, why): return dict(name=n, status='unsupported', why=why, obligations=0, discharged=0, failed=[], functions=[], by={}, queries=0, solver_s=0, kinds={}, contracts=[], models=[], assumed=[], wall_s=0)
    ctx = mp.get_context('fork')
    while todo or live:
        while todo and len(live) < par and time.time() < deadline:
            n = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(n, b)); p.start(); b.close()
            live.append((n, p, a, time.time()))
        if time.time() >= deadline:
            for n in todo: res.append(empty(n, 'no time left'))
            todo = []
        nl = []
        for n, p, a, t in live:
            if a.poll(0):
                try: res.append(a.recv())
                except EOFError: res.append(empty(n, 'worker died'))
                p.join(); a.close()
            elif not p.is_alive() and not a.poll(0):
                res.append(empty(n, 'worker died')); a.close()
            elif time.time() - t > tasks.TASKS[n].budget + 30 or time.time() > deadline:
                p.kill(); p.join(); a.close(); res.append(empty(n, 'time limit'))
            else: nl.append((n, p, a, t))
        live = nl
        time.sleep(0.02)
    return sorted(res, key=lambda r: names.index(r['name']))


def in_process(f, meanwhile):
    a, b = mp.Pipe(False)
    def px(conn):
        try: conn.send(f())
        except BaseException as e: conn.send([])
    pp = mp.get_context('fork').Process(target=px, args=(b,)); pp.start(); b.close()
    meanwhile()
    try: res = a.recv()
    except EOFError: res = []
    pp.join()
    return res


def main():
    if len(sys.argv) > 2 and sys.argv[1] == 'replay':
        # check.py replay PROPERTY FILE
        tmp = tempfile.mkdtemp(prefix='pigo-vc-')
        try:
            h = Harness(sys.argv[2], tmp); h.start_build()
            if not h.wait_build(): print(h.err); return 2
            return subprocess.call([h.bin, 'replay', sys.argv[3], tmp], env=ENV)
        finally: shutil.rmtree(tmp, ignore_errors=True)
    pid = sys.argv[1]
    tmp = tempfile.mkdtemp(prefix='pigo-vc-')
    try: return decide(pid, tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)


def decide(pid, tmp):
    from vc import tasks
    h = Harness(pid, tmp)
    have = os.path.exists(os.path.join(HERE, 'harness', h.name + '.cpp'))
    if have: h.start_build()
    names, concerns = tasks.PROPS.get(pid, ([], lambda o: True))
    import threading
    secs = 24 if TIER == 'quick' else 240
    def bg():
        if h.wait_build(): h.run([SEED * 1000 + k for k in range(3 if TIER == 'quick' else 3)], secs)
    th = threading.Thread(target=bg) if have else None
    res = []
    if names:
        # parsing first, then fork, before any thread exists
        res = in_process(lambda: run_tasks(names, 6, T0 + HARD - 200), th.start if th else lambda: None)
    elif th: th.start()
    if th: th.join()
    def sort():
        return ([(r, f) for r in res for f in r['failed'] if concerns(f)], [(r, f) for r in res for f in r['failed'] if not concerns(f)], [r for r in res if r['status'] == 'unsupported'])
    bad, other, und = sort()
    # a failed or undecided obligation: look for a concrete failing input longer; and as long as there is none, the proofs that
    # failed are done once more, with less going on beside them and more time for each obligation
    def longer():
        if (bad or und or other) and have and not h.err and not h.fail:
            left = T0 + HARD - time.time() - 60
            h.run([SEED * 1000 + 500 + k for k in range(6 if not bad else 4)], max(5, min(60 if bad else 20, left)))
    again = sorted({r['name'] for r, f in bad}, key=names.index)
    if again and not h.fail and len(again) <= 4:
        def redo():
            from vc import core
            core.Solver.retry = 150.0
            return run_tasks(again, 4, T0 + HARD - 20)
        new = in_process(redo, longer)
        for r in new:
            if r['status'] == 'proved': r['why'] = 'at the second attempt'; res = [r if q['name'] == r['name'] else q for q in res]
        bad, other, und = sort()
    else: longer()
    rdir = os.path.join(HERE, 'replay'); os.makedirs(rdir, exist_ok=True)
    viol = 0
    line = None
    if h.fail:
        rp, o, e = h.fail
        dst = os.path.join(rdir, '%s.case' % pid)
        shutil.copy(rp, dst)
        why = o.split('\n')[0][5:]
        if bad: print('failed obligation: %s: %s [%s]' % (bad[0][1]['function'], bad[0][1]['what'], bad[0][1]['kind']))
        print('failing input: ' + o.strip().replace('\n', '\n  '))
        if 'ERROR: AddressSanitizer' in e or 'runtime error' in e: print('  ' + '\n  '.join([l for l in e.split('\n') if 'ERROR:' in l or 'runtime error' in l or l.strip().startswith('#')][:8]))
        line = 'VIOLATION property=%s replay=%s' % (pid, dst); viol = 1
    elif bad:
        dst = os.path.join(rdir, '%s.obligation' % pid)
        with open(dst, 'w') as f:
            f.write('Obligations of %s that the verifier no longer discharges on the current tree (no failing input was found):\n' % pid)
            for r, o in bad: f.write('\ntask %s\n  function %s\n  obligation [%s] %s\n  model %s\n' % (r['name'], o['function'], o['kind'], o['what'], o['model']))
        for r, o in bad[:5]: print('failed obligation: %s: %s [%s]' % (o['function'], o['what'], o['kind']))
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, dst); viol = 1
    for k in known(pid): print('KNOWN-FINDING: property=%s %s' % (pid, k))
    evidence(pid, h, have, names, res, und, bad, other, viol)
    for r in und: print('note: undecided by the verifier: %s (%s); bounded search only' % (r['name'], r['why'].strip().split('\n')[-1][:200]))
    if h.err: print('note: ' + h.err)
    nob = sum(r['obligations'] for r in res); nd = sum(r['discharged'] for r in res)
    print('%s: %d of %d obligations discharged, %d functions; bounded cross-check %d cases; %.1f s' % (pid, nd, nob, len({f for r in res for f in r['functions']}), h.cases, time.time() - T0))
    if line: print(line)
    sys.stdout.flush()
    return 1 if viol else 0


def evidence(pid, h, have, names, res, und, bad, other, viol):
    from vc import tasks
    by = {}
    for r in res:
        for k, v in r['by'].items(): by[k] = by.get(k, 0) + v
    cov = {}
    nob = sum(r['obligations'] for r in res)
    level = 'proof' if nob else 'exploration'
    if nob:
        kinds = {}
        for r in res:
            for k, v in r['kinds'].items():
                q = kinds.setdefault(k, [0, 0]); q[0] += v[0]; q[1] += v[1]
        cov.update(obligations=nob, discharged=sum(r['discharged'] for r in res), checker_cmd='python3-vt check.py %s  (vc engine; z3 5.3 Python API, cvc5 1.1.2 as fallback)' % pid,
                   trusted_base=tasks.TRUSTED + sorted({m for r in res for m in r['assumed']}),
                   obligations_by_kind={k: '%d of %d' % (v[1], v[0]) for k, v in sorted(kinds.items())},
                   functions_under_contract=sorted({f for r in res for f in r['functions']}), calls_decided_by_contract=sorted({f for r in res for f in r['contracts']}),
                   external_functions_modelled=sorted({f for r in res for f in r['models']}), back_ends=by, solver_queries=sum(r['queries'] for r in res), solver_time_s=round(sum(r['solver_s'] for r in res), 2),
                   tasks={r['name']: '%s, %d of %d, %.1f s' % (r['status'], r['discharged'], r['obligations'], r.get('wall_s', 0)) for r in res},
                   undecided={r['name']: r['why'] for r in und})
        if have: cov['bounded_cross_check'] = dict(label='bounded, not counted as proved', cases=h.cases, seconds=round(h.secs, 1), error=h.err or '')
    else:
        cov.update(evaluations=h.cases, distinct_nontrivial=h.cases, rule='bounded stand-in: seeded generator of harness/%s.cpp; each case index draws a fresh case from its own random stream; a case counts once its comparison with the reference finished' % h.name, samples=[getattr(h, 'sample', 'see harness/%s.cpp gen()' % h.name)])
    ev = dict(property=pid, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=tasks.ASSUME.get(pid, []) + tasks.ASSUME_ALL, wall_s=round(time.time() - T0, 2), violations=viol)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    p = os.path.join(HERE, 'evidence', pid + '.json')
    with open(p + '.tmp', 'w') as f: json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)


if __name__ == '__main__':
    try: rc = main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); rc = 2
    sys.exit(rc)
