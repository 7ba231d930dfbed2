"""Runs a property's seeded search, shrinks what it finds, writes evidence."""
import copy
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
REPO = os.environ.get('SHGPY_REPO', '/repo')
sys.path.insert(0, VERIF)

from sim.world import Rig, HarnessError  # noqa: E402

HASHSEEDS = [0, 1, 4242]


class Lab:
    """Shim, compiler front and warm interpreters, for one check run."""

    def __init__(self, workers, warm=()):
        base = None
        for b in ('/dev/shm', '/tmp'):
            try:
                d = os.path.join(b, 'shgpysim-%d' % os.getpid())
                os.makedirs(d)
                t = os.path.join(d, 'x')
                with open(t, 'w') as fh:
                    fh.write('#!/bin/sh\nexit 0\n')
                os.chmod(t, 0o755)
                if subprocess.call([t]) == 0:
                    base = d
                    break
                shutil.rmtree(d)
            except OSError:
                continue
        if not base:
            raise HarnessError('no scratch space')
        self.base = base
        self.owner = os.getpid()
        self.procs = []
        self.workers = workers
        for d in ('cache', 'simbin', 'mpl'):
            os.makedirs(os.path.join(base, d))
        src = os.path.join(VERIF, 'sim')
        self.shim = os.path.join(base, 'shim.so')
        subprocess.check_call(['gcc', '-O1', '-shared', '-fPIC', '-o', self.shim,
                               os.path.join(src, 'shim.c'), '-ldl'])
        cc = os.path.join(base, 'simbin', 'gcc')
        subprocess.check_call(['gcc', '-O1', '-o', cc, os.path.join(src, 'simcc.c')])
        for n in ('cc', 'clang'):
            os.link(cc, os.path.join(base, 'simbin', n))
        self.zpaths = []
        # a replay run by the check itself uses the check's interpreters
        borrowed = os.environ.get('SIM_LAB')
        if borrowed:
            self.zpaths = [os.path.join(borrowed, 'z%d' % i) for i in range(len(HASHSEEDS))]
            return
        for i, hs in enumerate(HASHSEEDS):
            zp = os.path.join(base, 'z%d' % i)
            env = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'HOME': base,
                   'LANG': 'C.UTF-8', 'PYTHONPATH': REPO, 'PYTHONHASHSEED': str(hs),
                   'PYTHONDONTWRITEBYTECODE': '1', 'OPENBLAS_NUM_THREADS': '1',
                   'OMP_NUM_THREADS': '1', 'MPLBACKEND': 'Agg',
                   'MPLCONFIGDIR': os.path.join(base, 'mpl'), 'LD_PRELOAD': self.shim,
                   'TMPDIR': base}
            lg = open(zp + '.log', 'wb')
            self.procs.append(subprocess.Popen(
                [PY, os.path.join(src, 'zygote.py'), zp, *warm], env=env, stdin=subprocess.DEVNULL,
                stdout=lg, stderr=lg, cwd=base))
            self.zpaths.append(zp)
        t0 = time.time()
        for p, zp in zip(self.procs, self.zpaths):
            while not os.path.exists(zp):
                if p.poll() is not None or time.time() - t0 > 420:
                    with open(zp + '.log', errors='replace') as fh:
                        raise HarnessError('zygote failed: ' + fh.read()[-2000:])
                time.sleep(0.02)

    def rig(self, i):
        return Rig(os.path.join(self.base, 'w%d' % i), self.zpaths,
                   os.path.join(self.base, 'cache'), os.path.join(self.base, 'simbin'))

    def close(self):
        if os.getpid() != self.owner:
            return
        for p in self.procs:
            p.kill()
        for p in self.procs:
            p.wait()
        assert '/shgpysim-' in self.base
        for _ in range(5):
            shutil.rmtree(self.base, ignore_errors=True)
            if not os.path.exists(self.base):
                break
            time.sleep(0.2)


def load_prop(pid):
    return importlib.import_module('props.' + pid)


def trial_rng(pid, seed, i):
    h = hashlib.sha256(('%s/%s/%s' % (pid, seed, i)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


class Cov:
    def __init__(self):
        self.runs = self.faulted = self.steps = self.ops = 0
        self.sim_ns = 0
        self.shapes = set()
        self.faults = {}
        self.probes = {}
        self.switches = 0
        self.deaths = 0
        self.samples = []

    def add(self, sc, out, probes, more=None):
        """more: faults injected above the seam, such as failing callbacks."""
        self.runs += 1
        self.faulted += bool(out.fired or more)
        for k, v in (more or {}).items():
            self.faults[k] = self.faults.get(k, 0) + v
        self.ops += len(out.events)
        for ph in out.results:
            for r in ph.values():
                self.steps += len(r)
        self.shapes.add(out.shape() + outcome(sc, out))
        for k, v in out.fault_counts.items():
            self.faults[k] = self.faults.get(k, 0) + v
        for k, v in (probes or {}).items():
            self.probes[k] = self.probes.get(k, 0) + v
        self.switches += out.switch_count
        self.deaths += sum(len(d) for d in out.deaths)

    def merge(self, o):
        for a in ('runs', 'faulted', 'steps', 'ops', 'switches', 'deaths', 'sim_ns'):
            setattr(self, a, getattr(self, a) + getattr(o, a))
        self.shapes |= o.shapes
        for d, e in ((self.faults, o.faults), (self.probes, o.probes)):
            for k, v in e.items():
                d[k] = d.get(k, 0) + v
        self.samples += o.samples[:2]


def outcome(sc, out):
    """Which steps ran and how each ended, ignoring payload."""
    h = hashlib.sha256()
    for ph, phase in enumerate(sc['phases']):
        for a in phase['actors']:
            for ti, th in enumerate(a['threads']):
                for st, r in zip(th, out.results[ph].get('%s.%d' % (a['id'], ti), [])):
                    v = r.get('v')
                    h.update(repr((ph, st['do'], st.get('op'), st.get('kind'), r['ok'], r.get('exc'),
                                   v.get('exc') if isinstance(v, dict) else None)).encode())
    return h.hexdigest()[:12]


def explicit(sc, out):
    """The scenario with every generated schedule / fault made explicit."""
    s = copy.deepcopy(sc)
    s.pop('faultgen', None)
    s['faults'] = [{k: v for k, v in f.items() if k != 'op'} for f in out.fired]
    for ph, used in zip(s['phases'], out.switches):
        ph['sched'] = {'switches': used}
    return s


def judge(prop, sc, out):
    vs = []
    for ph, d in enumerate(out.deaths):
        for a, how in d.items():
            if how.startswith('exit '):
                raise HarnessError('actor %s ended early: %s' % (a, how))
    vs += prop.judge(sc, out)
    return vs


def run_one(prop, rig, sc, cov=None):
    out = rig.run(sc)
    vs = judge(prop, sc, out)
    if cov is not None:
        cov.add(sc, out, prop.probes(sc, out) if hasattr(prop, 'probes') else None,
                prop.faults(sc, out) if hasattr(prop, 'faults') else None)
    return out, vs


def drop_step(sc, ph, ai, ti, si):
    s = copy.deepcopy(sc)
    a = s['phases'][ph]['actors'][ai]
    del a['threads'][ti][si]
    tid = '%s.%d' % (a['id'], ti)
    fs = []
    for f in s.get('faults', []):
        if f['ph'] == ph and f['t'] == tid:
            if f['s'] == si:
                continue
            if f['s'] > si:
                f = dict(f, s=f['s'] - 1)
        fs.append(f)
    s['faults'] = fs
    return s


def shrink(prop, rig, sc, cls, budget=120, seconds=90):
    """Greedy minimisation: fewer faults, switches, phases, actors, steps."""
    t0 = time.time()
    n = [0]

    def bad(c):
        if n[0] >= budget or time.time() - t0 > seconds:
            return False
        n[0] += 1
        try:
            out, vs = run_one(prop, rig, c)
        except HarnessError:
            raise
        except Exception:
            return False
        return any(v['cls'] == cls for v in vs)

    def candidates(s):
        for i in reversed(range(len(s.get('faults', [])))):
            c = copy.deepcopy(s)
            del c['faults'][i]
            yield c
        for p, ph in enumerate(s['phases']):
            sw = (ph.get('sched') or {}).get('switches') or []
            if sw:
                c = copy.deepcopy(s)
                c['phases'][p]['sched'] = {'switches': []}
                yield c
                if len(sw) > 1:
                    for half in (sw[:len(sw) // 2], sw[len(sw) // 2:]):
                        c = copy.deepcopy(s)
                        c['phases'][p]['sched'] = {'switches': half}
                        yield c
                if len(sw) <= 12:
                    for i in range(len(sw)):
                        c = copy.deepcopy(s)
                        del c['phases'][p]['sched']['switches'][i]
                        yield c
        for p, ph in enumerate(s['phases']):
            for ai in reversed(range(len(ph['actors']))):
                if len(ph['actors']) > 1:
                    c = copy.deepcopy(s)
                    a = c['phases'][p]['actors'].pop(ai)
                    c['faults'] = [f for f in c.get('faults', [])
                                   if not (f['ph'] == p and f['t'].rsplit('.', 1)[0] == a['id'])]
                    yield c
                for ti, th in enumerate(ph['actors'][ai]['threads']):
                    for si in reversed(range(len(th))):
                        yield drop_step(s, p, ai, ti, si)
        if hasattr(prop, 'simplify'):
            yield from prop.simplify(s)

    cur = sc
    progress = True
    while progress and n[0] < budget and time.time() - t0 < seconds:
        progress = False
        for c in candidates(cur):
            if bad(c):
                cur = c
                progress = True
                break
    return cur, n[0]


def worker(lab, pid, seed, tier, wid, tasks, results, deadline, stop):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        prop = load_prop(pid)
        rig = lab.rig(wid)
        cov = Cov()
        known = load_known(pid)
        while True:
            with tasks.get_lock():
                i = tasks.value
                tasks.value += 1
            if i >= prop.TRIALS[tier] or time.time() > deadline or stop.value:
                break
            rng = trial_rng(pid, seed, i)
            sc = prop.gen(rng, i, tier)
            sc.setdefault('seed', rng.getrandbits(40))
            todo = [sc]
            first = True
            done = False
            while todo and not done:
                s = todo.pop(0)
                out, vs = run_one(prop, rig, s, cov)
                if first:
                    first = False
                    if len(cov.samples) < 2:
                        cov.samples.append({'trial': i, 'phases': s['phases'],
                                            'ops': len(out.events), 'digest': out.digest()[:16]})
                    if not vs:
                        for v in prop.variants(rng, s, out, tier):
                            v.setdefault('seed', s['seed'])
                            todo.append(v)
                for v in vs:
                    kf = match_known(known, v)
                    if kf:
                        results.put(('known', kf['id'], v, i))
                    else:
                        done = True
                        ex = explicit(s, out)
                        results.put(('violation', i, v, ex))
                        break
        cov.stats = rig.stats
        results.put(('cov', i, cov))
    except BaseException as e:
        results.put(('error', None, '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-3000:])))


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return [k for k in json.load(fh)['findings'] if k['property'] == pid]


def match_known(known, v):
    for k in known:
        if k.get('fingerprint') == v.get('fp'):
            return k
    return None


def check(pid, tier, seed, nworkers=None, wall=None):
    t0 = time.time()
    prop = load_prop(pid)
    nworkers = nworkers or min(8, os.cpu_count() or 1)
    wall = wall or {'quick': 240, 'thorough': 3000}[tier]
    print('property %s tier %s VERIF_SEED %d trials %d workers %d' % (
        pid, tier, seed, prop.TRIALS[tier], nworkers), flush=True)
    lab = Lab(nworkers, getattr(prop, 'WARM', ()))
    try:
        ctx = mp.get_context('fork')
        tasks, stop = ctx.Value('i', 0), ctx.Value('i', 0)
        results = ctx.Queue()
        deadline = t0 + wall
        ps = [ctx.Process(target=worker, args=(lab, pid, seed, tier, w, tasks, results, deadline, stop))
              for w in range(nworkers)]
        for p in ps:
            p.start()
        cov = Cov()
        stats = {}
        left = len(ps)
        viols, errs, known = [], [], {}
        while left:
            try:
                r = results.get(timeout=30)
            except Exception:
                if not any(p.is_alive() for p in ps):
                    errs.append('workers died')
                    break
                if time.time() > deadline + 400:
                    errs.append('workers stuck')
                    break
                continue
            if r[0] == 'cov':
                cov.merge(r[2])
                for k, v in r[2].stats.items():
                    stats[k] = stats.get(k, 0) + v
                left -= 1
            elif r[0] == 'error':
                errs.append(r[2])
                stop.value = 1
                left -= 1
            elif r[0] == 'violation':
                viols.append(r[1:])
                stop.value = 1
            elif r[0] == 'known':
                known.setdefault(r[1], r[2])
        for p in ps:
            p.join(5)
            if p.is_alive():
                p.kill()
        code = 0
        for k in load_known(pid):
            # a listed finding is reported whether or not this run met it
            print('KNOWN-FINDING: property=%s %s%s' % (
                pid, k['what'], '' if k['id'] in known else ' (not met in this run)'))
        lines = []
        if viols:
            viols.sort(key=lambda v: v[0])
            for i, v, ex in viols[:3]:
                print('trial %d: %s' % (i, v['msg']), flush=True)
                rig = lab.rig(99 + i)
                try:
                    mini, tries = shrink(prop, rig, ex, v['cls']) if v['cls'] != 'hang' else (ex, 0)
                except HarnessError as e:
                    mini, tries = ex, -1
                    print('shrink stopped: %s' % str(e)[:300])
                path, out, vs = None, None, []
                for cand in (mini, ex):
                    out, vs = run_one(prop, rig, cand)
                    vs = [x for x in vs if x['cls'] == v['cls']]
                    if not vs:
                        continue
                    path = write_replay(pid, seed, i, cand, vs[0], out, tries)
                    rc = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'),
                                         '--replay', path], stdout=subprocess.PIPE,
                                        env=dict(os.environ, SIM_LAB=lab.base),
                                        stderr=subprocess.STDOUT)
                    txt = rc.stdout.decode(errors='replace')
                    if rc.returncode == 1:
                        print('minimised in %d runs: %s' % (tries, vs[0]['msg']))
                        print('replay: ' + ('exact' if 'digest: same' in txt else 'same violation, different digest'))
                        code = 1
                        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
                        break
                    print(txt[-800:])
                if code or time.time() - t0 > 560:
                    break
            if not code:
                errs.append('violation of trial %d did not replay: %s' % (i, v['msg']))
        wall_s = time.time() - t0
        write_evidence(prop, pid, tier, seed, cov, stats, wall_s, len(viols), known, lab)
        print('%d simulated runs (%d with faults fired), %d steps, %d seam operations, %d distinct '
              'interleaving/fault shapes, %.1f s' % (cov.runs, cov.faulted, cov.steps, cov.ops,
                                                     len(cov.shapes), wall_s))
        print('faults: ' + json.dumps(cov.faults, sort_keys=True))
        print('probes: ' + json.dumps(cov.probes, sort_keys=True))
        for ln in lines:
            print(ln)
        if errs and not code:
            print('HARNESS-ERROR ' + errs[0])
            return 3
        if not code and cov.runs == 0:
            print('HARNESS-ERROR nothing ran')
            return 3
        if not code:
            missing = [p for p in getattr(prop, 'MUST', []) if not cov.probes.get(p)]
            if missing:
                # a differently written tree may never reach some of them; a
                # search that reaches none of them has tested nothing
                print('WARNING probes never hit: %s' % missing)
                if len(missing) == len(prop.MUST):
                    print('HARNESS-ERROR no probe was hit')
                    return 3
        return code
    finally:
        lab.close()


def write_replay(pid, seed, trial, sc, v, out, tries):
    d = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    body = {'property': pid, 'verif_seed': seed, 'trial': trial, 'class': v['cls'],
            'message': v['msg'], 'digest': out.digest(), 'shrink_runs': tries,
            'scenario': sc,
            'trace': [list(map(str, e)) for e in out.events][:4000]}
    h = hashlib.sha256(json.dumps([pid, sc], sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, '%s-%s.json' % (pid, h))
    with open(p, 'w') as fh:
        json.dump(body, fh, indent=1)
    return p


def replay(path):
    with open(path) as fh:
        body = json.load(fh)
    prop = load_prop(body['property'])
    lab = Lab(1, getattr(prop, 'WARM', ()))
    try:
        rig = lab.rig(0)
        out, vs = run_one(prop, rig, body['scenario'])
        same = out.digest() == body['digest']
        print('digest: %s' % ('same' if same else 'different'))
        hit = [v for v in vs if v['cls'] == body['class']]
        for v in vs:
            print('violates: [%s] %s' % (v['cls'], v['msg']))
        if hit:
            print('VIOLATION property=%s replay=%s' % (body['property'], path))
            return 1
        print('not reproduced')
        return 0
    finally:
        lab.close()


def write_evidence(prop, pid, tier, seed, cov, stats, wall_s, nviol, known, lab):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': cov.runs,
            'distinct_nontrivial': len(cov.shapes),
            'rule': prop.RULE + ' Two runs count as distinct when the sequence of (phase, thread, '
                    'step, seam operation, directive) or of (step, outcome) differs.',
            'samples': cov.samples[:3] or ['none'],
            'runs_with_faults_fired': cov.faulted,
            'user_steps': cov.steps, 'seam_operations': cov.ops,
            'context_switches': cov.switches, 'process_deaths': cov.deaths,
            'faults_injected': cov.faults, 'probes': cov.probes,
            'probes_never_hit': [p for p in getattr(prop, 'MUST', []) if not cov.probes.get(p)],
            'runs_per_hour': round(cov.runs / max(wall_s, 1e-9) * 3600),
            'simulated_time': 'clocks are simulated; 20 us per seam operation, 1 us per clock '
                              'read, plus injected sleeps and jumps: at least %.3f s' % (cov.ops * 2e-5),
            'real_components': ['shgpy (from %s)' % REPO, 'CPython, numpy, scipy, sympy, pandas',
                                'kernel file system under a scratch root', 'gcc (memoised on its inputs)',
                                'glibc dynamic loader'],
            'stubbed_components': ['clock, sleep, entropy, directory order, lock waits (shim)',
                                   'compiler front (simcc) deciding success, failure, kill'],
            'compiler_runs_real': stats.get('cc_real', 0),
            'compiler_runs_memoised': stats.get('cc_cached', 0),
            'known_findings_met': sorted(known),
        },
        'assumptions': getattr(prop, 'ASSUME', []),
        'wall_s': round(wall_s, 2), 'violations': nviol,
    }
    with open(os.path.join(d, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
