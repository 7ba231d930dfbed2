"""check.py --determinism ID[,ID...] [N]: the same seeds, run again elsewhere.

The first N trials of a property (and the fault variants they lead to) are run
three times: by one worker; by one worker in a fresh laboratory, in reverse
order; and by six workers at once beside each other.  The event logs and the
results must be the same byte for byte (the digest covers both)."""
import json
import multiprocessing as mp
import os
import sys

from sim import driver
from sim.world import HarnessError  # noqa: F401


def trial(prop, rig, pid, seed, i, tier):
    rng = driver.trial_rng(pid, seed, i)
    sc = prop.gen(rng, i, tier)
    sc.setdefault('seed', rng.getrandbits(40))
    got = []
    todo = [sc]
    first = True
    while todo:
        s = todo.pop(0)
        out = rig.run(s)
        vs = driver.judge(prop, s, out)
        got.append((out.digest(), len(out.events), sorted(v['cls'] for v in vs)))
        if first and not vs:
            for v in prop.variants(rng, s, out, tier):
                v.setdefault('seed', s['seed'])
                todo.append(v)
        first = False
    return got


def batch(lab, pid, seed, wid, idx, q):
    try:
        prop = driver.load_prop(pid)
        rig = lab.rig(wid)
        for i in idx:
            q.put((i, trial(prop, rig, pid, seed, i, 'quick')))
    except BaseException as e:
        q.put((None, repr(e)))
    q.put((None, None))


def passes(pid, seed, order, workers):
    prop = driver.load_prop(pid)
    lab = driver.Lab(workers, getattr(prop, 'WARM', ()))
    try:
        q = mp.Queue()
        ps = [mp.Process(target=batch, args=(lab, pid, seed, w, order[w::workers], q)) for w in range(workers)]
        for p in ps:
            p.start()
        res, left = {}, workers
        while left:
            i, r = q.get()
            if i is None:
                left -= r is None
                if r:
                    print('HARNESS-ERROR', r)
                    res['error'] = r
            else:
                res[i] = r
        for p in ps:
            p.join()
        return res
    finally:
        lab.close()


def main(argv):
    n = int(argv[1]) if len(argv) > 1 else 12
    seed = int(os.environ.get('VERIF_SEED', '1'))
    bad = 0
    for pid in argv[0].split(','):
        order = list(range(n))
        a = passes(pid, seed, order, 1)
        b = passes(pid, seed, order[::-1], 1)
        c = passes(pid, seed, order, 6)
        diff = [i for i in order if not a.get(i) == b.get(i) == c.get(i) or i not in a]
        runs = sum(len(v) for v in a.values() if isinstance(v, list))
        print('%s: %d trials, %d runs, three executions each: %s' % (
            pid, n, runs, 'identical' if not diff and 'error' not in a else 'DIFFERENT in trials %s' % diff))
        for i in diff[:3]:
            print('  trial %d: %s' % (i, json.dumps([a.get(i), b.get(i), c.get(i)])[:1500]))
        sys.stdout.flush()
        bad += bool(diff)
    return 1 if bad else 0
