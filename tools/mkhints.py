#!/usr/bin/env python3-vt
"""writes vc/hints.json: the loop invariants each task found on the current tree (suggestions for later runs, proved again by each)"""
import sys, os, json, multiprocessing as mp
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from vc import tasks
def one(n):
    tasks.TASKS[n].budget = 1500
    r = tasks.run_task(n, use_hints=False)
    return n, r['status'], {k: sorted(v) for k, v in sorted(r.get('invs', {}).items())}, r.get('wall_s', 0), r['why'] + str([(f['kind'], f['what'][:90]) for f in r['failed'][:8]])
if __name__ == '__main__':
    pat = sys.argv[1:]
    names = [n for n in tasks.TASKS if not pat or any(p in n for p in pat)]
    try: H = json.load(open(tasks.HINTFILE))
    except OSError: H = {}
    H = {k: v for k, v in H.items() if k in tasks.TASKS}
    names.sort(key=lambda n: -tasks.TASKS[n].cost)
    with mp.Pool(7, maxtasksperchild=1) as pool:
        for n, st, inv, w, why in pool.imap_unordered(one, names, chunksize=1):
            print(n, st, '%.1f' % w, why[:200], flush=True)
            if st == 'proved' and inv: H[n] = inv
            with open(tasks.HINTFILE, 'w') as f: json.dump(H, f, indent=0, sort_keys=True); f.write('\n')
