"""No fault is swallowed; nothing fails without one."""
import copy
from sim import store

TRIALS = {'quick': 300, 'thorough': 4000}
RULE = ('Each trial draws 1-3 sessions of saves, generations and loads (formula, cost function, gradient set, model '
        'folder), runs them fault-free, then with 1-3 errors (open, read, write, close, rename, mkdir, disk full, '
        'failed or killed compiler, failed library load) aimed at their operations, and then with only short or '
        'interrupted calls and clock jumps.  A step that returned must have done its work in full; a step nothing '
        'failed under must return.')
ASSUME = ['an error injected into an operation the package need not care about (removing scratch) may be ignored by it']
MUST = ['step-raised', 'fault-survived', 'transparent-only', 'cc-failed', 'write-failed']


def gen(rng, i, tier):
    b = store.Bench(rng)
    phases = []
    paths = {'form': ['work/f.p', 'work/sub/g'], 'cost': ['work/c.so', 'work/sub/c2.so'],
             'grad': ['work/gr.so'], 'model': ['work/m', 'work/sub/m2']}
    base = {}
    done = []
    w = 3 if i % 6 == 0 else 1
    for n in range(rng.choice([1, 1, 2])):
        steps = []
        for q in range(rng.choice([1, 2, 2, 3]) if w == 1 else 1):
            kind = rng.choice(['form', 'form', 'form', 'cost', 'cost', 'cost', 'cost', 'model']) if w == 1 else 'grad'
            p = rng.choice(paths[kind])
            u = rng.random()
            if u < 0.25 and (kind, p) in done:
                steps.append(b.read(kind, p))
                continue
            kw = {}
            if kind == 'grad':
                kw = dict(M=0, keys=['PP'])
            if kind == 'model':
                kw = dict(M=rng.choice([0, 0, 1]), keys=['PP'], nterms=rng.choice([1, 3, 5]))
            big = kind == 'form' and rng.random() < 0.3
            if big:
                kw = dict(M=4, keys=['PP', 'PS', 'SP', 'SS'], nterms=6, zero=0.0)
            v = b.value(kind, like=base.get((kind, p)), odd=True, **kw) if kind == 'model' else b.value(kind, odd=True, **kw)
            base[(kind, p)] = v
            if kind in ('cost', 'model') and rng.random() < 0.25:
                steps.append(b.save(kind, None, v))
                continue
            steps.append(b.save(kind, p, v))
            done.append((kind, p))
        phases.append({'actors': [store.actor(rng, 's%d' % n, steps)]})
    phases.append({'actors': [store.actor(rng, 'audit', [b.read(k, p) for k, p in sorted(set(done))])]})
    return b.finish({'phases': phases, 'dirs': ['work/sub']})


def variants(rng, sc, out, tier):
    last = len(sc['phases']) - 1
    n = 5
    for q in range(n):
        menu = rng.choice([['err', 'cc'], ['err', 'cc'], ['err', 'full', 'cc'], ['rerr', 'cc', 'short'],
                           ['err', 'short', 'clk']])
        phs = list(range(last)) if rng.random() < 0.85 else [last]
        pref = rng.choice([lambda e: e[4] in ('write', 'openw', 'openx', 'rename', 'cc'),
                           lambda e: e[4] in ('cc', 'dlopen', 'system', 'fork'),
                           lambda e: e[4] in ('read', 'openr', 'close')])
        fs = store.aim(rng, out, menu, rng.choice([1, 1, 2, 3]), phases=phs, prefer=pref)
        if fs:
            c = copy.deepcopy(sc)
            c['faults'] = fs
            yield c
    fs = store.aim(rng, out, ['short', 'eintr', 'clk'], 12)
    if fs:
        c = copy.deepcopy(sc)
        c['faults'] = fs
        yield c


def judge(sc, out):
    return (store.judge_registers(sc, out) + store.judge_returned(sc, out)
            + store.judge_clean_failures(sc, out) + store.judge_deaths(sc, out))


def probes(sc, out):
    p = {}
    ok, bad = 0, 0
    hit = out.hit
    for ph, res in enumerate(out.results):
        for tid, rs in res.items():
            for i, r in enumerate(rs):
                if (ph, tid, i) in hit:
                    if r['ok']:
                        ok = 1
                    else:
                        bad = 1
    if bad:
        p['step-raised'] = 1
    if ok:
        p['fault-survived'] = 1
    if out.fired and not out.hit:
        p['transparent-only'] = 1
    if any(f['do'] in ('CC', 'CCTORN') for f in out.fired):
        p['cc-failed'] = 1
    if any(f['op'] in ('write', 'openw', 'openx') and f['do'] == 'E' for f in out.fired):
        p['write-failed'] = 1
    return p
