"""A saved Fourier formula loads back as the same formula."""
import copy
from sim import specs, store

TRIALS = {'quick': 220, 'thorough': 6000}
RULE = ('Each trial saves 1-4 generated formulas (M 0..6 or 16, 1-8 polarization keys, mixed symbol assumptions, '
        'zero / constant / trigonometric components, exact and floating coefficients) through differently spelled '
        'paths in processes of different hash seeds and loads, re-saves and re-loads them elsewhere; then again with '
        'short reads and writes, interrupted system calls, clock jumps and (for the loads) hard errors injected.')
ASSUME = ['the formula model compares expressions exactly, or to 25 digits where sympy rewrote them']
MUST = ['loaded', 'resaved', 'short', 'other-hash-seed']


def gen(rng, i, tier):
    b = store.Bench(rng)
    names = ['work/f.p', 'work/sub/g', 'work/a b.pkl', 'work/uml\u00e4ut.p', 'work/f']
    rng.shuffle(names)
    phases, zs = [], []
    where = {}
    for n in range(rng.choice([1, 1, 2, 3])):
        steps = []
        for _ in range(rng.choice([1, 1, 2])):
            p = names[rng.randrange(2)]
            M = rng.choice([0, 1, 1, 2, 2, 3, 4, 6] + ([16] if rng.random() < 0.3 else []))
            kw = dict(M=M, keys=rng.choice(specs.KEYSETS), assume=rng.choice(['real', 'mixed', 'mixed']),
                      fns=rng.random() < 0.4, nsym=rng.choice([1, 2, 3, 5, 8]), nterms=rng.choice([None, 1, 4]),
                      maxdeg=rng.choice([1, 2, 3]), zero=rng.choice([0.0, 0.25, 0.9]), const=rng.choice([0, .1, .5]))
            if M > 4:
                kw.update(nterms=1, nsym=2)
            v = b.value('form', **kw)
            steps.append(b.save('form', p, v))
            where[p] = v
            if rng.random() < 0.6:
                steps.append(b.read('form', p))
        if rng.random() < 0.5:
            p = rng.choice(sorted(where))
            q = names[2 + rng.randrange(2)]
            steps.append(b.read('form', p, var='f'))
            steps.append(b.save('form', q, where[p], src='f', srcpath=p))
            where[q] = where[p]
        phases.append({'actors': [store.actor(rng, 'w%d' % n, steps)]})
    for n in range(rng.choice([1, 1, 2])):
        steps = [b.read('form', p) for p in sorted(where)]
        phases.append({'actors': [store.actor(rng, 'r%d' % n, steps)]})
    return b.finish({'phases': phases, 'dirs': ['work/sub']})


def variants(rng, sc, out, tier):
    for menu, n in ((['short', 'eintr', 'clk'], 4), (['short'], 4), (['rerr', 'short'], 2)):
        fs = store.aim(rng, out, menu, n)
        if fs:
            c = copy.deepcopy(sc)
            c['faults'] = fs
            yield c


def judge(sc, out):
    return (store.judge_registers(sc, out) + store.judge_clean_failures(sc, out)
            + store.judge_deaths(sc, out))


def probes(sc, out):
    p = {}
    ops = store.history(sc, out)
    if any(o.typ == 'r' and o.ok for o in ops):
        p['loaded'] = 1
    if any(o.st.get('src') for o in ops):
        p['resaved'] = 1
    if any(f['do'] == 'S' for f in out.fired):
        p['short'] = 1
    if len({a['z'] for ph in sc['phases'] for a in ph['actors']}) > 1:
        p['other-hash-seed'] = 1
    return p
