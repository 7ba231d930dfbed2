"""A load sees what the latest completed save put there."""
import copy
from sim import store

TRIALS = {'quick': 300, 'thorough': 8000}
RULE = ('Histories of saves, loads and uses of held functions on 1-2 shared paths. Two thirds run several processes or '
        'threads at once (formula and cost files) under a seeded scheduler that may switch at every system call, '
        'compiler run and library load; the rest alternate processes (also gradient sets and model folders). '
        'Every history is checked by a linearizability search against a register per path; overlapping saves may '
        'land in either order. Paths are spelled absolute, relative, bare, as Path, with .. and through a symlink.')
ASSUME = ['overlapping saves and loads of model folders and gradient sets are outside the property']
MUST = ['concurrent', 'threads', 'reread', 'held-after-overwrite', 'multiprocessing-load', 'overlap-read']


def steps_for(b, rng, kind, paths, n, tag, base, kw):
    steps, held = [], []
    for q in range(n):
        p = rng.choice(paths)
        u = rng.random()
        if u < 0.45:
            v = b.value(kind, like=base.get(p) if kind == 'model' else None, **kw)
            base[p] = v
            st = b.save(kind, p, v)
        else:
            st = b.read(kind, p)
        if kind in ('cost', 'model') and rng.random() < 0.7:
            st['var'] = '%s%d' % (tag, q)
            held.append(st)
        steps.append(st)
        if held and rng.random() < 0.5:
            steps.append(b.recheck(rng.choice(held)))
    return steps


def gen(rng, i, tier):
    b = store.Bench(rng)
    phases = []
    mode = ['procs', 'threads', 'seq'][i % 3]
    if mode == 'seq':
        kind = rng.choice(['form', 'cost', 'cost', 'cost', 'grad', 'model'])
    else:
        kind = rng.choice(['form', 'cost', 'cost'])
    paths = rng.choice([['work/a.so'], ['work/a.so'], ['work/a.so', 'work/sub/a.so'], ['work/a', 'work/b']])
    kw = dict(M=rng.choice([0, 0, 1]), keys=['PP'], nsym=rng.choice([1, 2]), nterms=rng.choice([1, 2]))
    if kind == 'form' and rng.random() < 0.4:
        kw = dict(M=3, keys=['PP', 'PS', 'SP', 'SS'], nterms=4, zero=0.0)
    base = {}
    # something is there already, mostly
    if rng.random() < 0.8:
        st = []
        for p in paths:
            v = b.value(kind, like=None, **kw)
            base[p] = v
            st.append(b.save(kind, p, v))
        phases.append({'actors': [store.actor(rng, 'init', st)]})
    if mode == 'seq':
        for n in range(rng.choice([1, 2, 3])):
            k = rng.choice([3, 4, 5]) if kind != 'grad' else 2
            phases.append({'actors': [store.actor(rng, 'p%d' % n, steps_for(b, rng, kind, paths, k, 'v', base, kw))]})
    elif mode == 'procs':
        acts = [store.actor(rng, 'p%d' % n, steps_for(b, rng, kind, paths, rng.choice([1, 2, 3]), 'v', base, kw))
                for n in range(rng.choice([2, 2, 3]))]
        phases.append({'actors': acts, 'sched': {'seed': rng.getrandbits(32), 'p': rng.choice([0.03, 0.15, 0.4])}})
    else:
        a = store.actor(rng, 'p', [])
        a['threads'] = [steps_for(b, rng, kind, paths, rng.choice([1, 2, 3]), 't%d' % n, base, kw)
                        for n in range(rng.choice([2, 2, 3]))]
        for th in a['threads']:
            for st in th:
                if rng.random() < 0.5:
                    st['lines'] = sorted(rng.sample(range(400), rng.choice([2, 6, 20])))
        phases.append({'actors': [a], 'sched': {'seed': rng.getrandbits(32), 'p': rng.choice([0.05, 0.2, 0.5])}})
    phases.append({'actors': [store.actor(rng, 'audit', [b.read(kind, p) for p in paths for _ in range(2)])]})
    sc = b.finish({'phases': phases, 'dirs': ['work/sub'], 'kind': kind, 'mode': mode})
    return sc


def variants(rng, sc, out, tier):
    if sc['mode'] != 'seq':
        for _ in range(2):
            c = copy.deepcopy(sc)
            for ph in c['phases']:
                if 'sched' in ph:
                    ph['sched'] = {'seed': rng.getrandbits(32), 'p': rng.choice([0.03, 0.15, 0.5])}
            yield c
    if rng.random() < 0.3:
        fs = store.aim(rng, out, ['short', 'eintr', 'clk'], 8)
        if fs:
            c = copy.deepcopy(sc)
            for ph, used in zip(c['phases'], out.switches):
                ph['sched'] = {'switches': used}
            c['faults'] = fs
            yield c


def judge(sc, out):
    return (store.judge_registers(sc, out) + store.judge_returned(sc, out) + store.judge_held(sc, out)
            + store.judge_clean_failures(sc, out) + store.judge_deaths(sc, out))


def probes(sc, out):
    p = {}
    ops = store.history(sc, out)
    if out.switch_count:
        p['concurrent'] = 1
        if sc['mode'] == 'threads':
            p['threads'] = 1
    w = [o for o in ops if o.typ == 'w']
    for o in ops:
        if o.typ == 'r':
            if any(x.path == o.path and x.b < o.e and o.b < x.e for x in w):
                p['overlap-read'] = 1
            if sum(x.path == o.path and x.e < o.b for x in w) > 1:
                p['reread'] = 1
            if o.st.get('mp'):
                p['multiprocessing-load'] = 1
    for ph, phase in enumerate(sc['phases']):
        for a in phase['actors']:
            for ti, th in enumerate(a['threads']):
                seen = {}
                for st in th:
                    if st.get('use') in seen and seen[st['use']]:
                        p['held-after-overwrite'] = 1
                    if st['do'].startswith('save_'):
                        for k in seen:
                            seen[k] = True
                    if st.get('var'):
                        seen[st['var']] = False
    return p
