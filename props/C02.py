"""A failed or killed save never damages what was saved before."""
import copy
from sim import store

TRIALS = {'quick': 160, 'thorough': 4000}
RULE = ('Each trial draws a saved-artifact workload (formula, cost function, gradient set, model '
        'folder; 1-2 generations on one path, then loads in fresh processes under other hash seeds), '
        'runs it fault-free, then re-runs it with one or two faults (kill, torn write then kill, '
        'SIGINT, I/O error, disk full, compiler failure) aimed at operations of the last save. '
        'Every load in a later process must give the old value or the new one.')
ASSUME = ['process crash, not power loss: completed system calls survive']
MUST = ['killed-in-save', 'failed-save', 'old-survived', 'new-visible']


def gen(rng, i, tier):
    b = store.Bench(rng)
    kind = rng.choice(['form', 'form', 'form', 'cost', 'cost', 'cost', 'grad', 'model'])
    p = 'work/' + rng.choice(['f.p', 'sub/x.so', 'a b.dat', 'cost.so', 'm'])
    if kind == 'cost':
        p = p if p.endswith('.so') else 'work/c.so'
    nold = rng.choice([0, 1, 1, 1])
    phases = []
    last = None
    big = kind == 'form' and rng.random() < 0.5
    kw = dict(M=3, keys=['PP', 'PS', 'SP', 'SS'], nterms=5, zero=0.0) if big else {}
    if kind == 'grad':
        kw = dict(M=0, keys=['PP'])
    if kind == 'model':
        kw = dict(M=rng.choice([0, 0, 1]), keys=['PP'])
    for g in range(nold):
        last = b.value(kind, like=last if kind == 'model' else None, **kw)
        phases.append({'actors': [store.actor(rng, 'old', [b.save(kind, p, last)])]})
    new = b.value(kind, like=last if kind == 'model' else None, **kw)
    phases.append({'actors': [store.actor(rng, 'new', [b.save(kind, p, new)])]})
    phases.append({'actors': [store.actor(rng, 'audit', [b.read(kind, p)])]})
    if rng.random() < 0.4:
        phases.append({'actors': [store.actor(rng, 'audit2', [b.read(kind, p)])]})
    sc = {'phases': phases, 'dirs': ['work/sub'], 'kind': kind, 'savephase': nold}
    return b.finish(sc)


def variants(rng, sc, out, tier):
    n = 5 if sc['kind'] != 'model' else 4
    ph = sc['savephase']
    menu = [['kill'], ['kill'], ['err', 'cc'], ['err', 'cc', 'full'], ['int'], ['kill', 'err', 'full', 'int', 'cc']]
    for _ in range(n):
        fs = store.aim(rng, out, rng.choice(menu), rng.choice([1, 1, 1, 2]), phases=[ph])
        if fs:
            c = copy.deepcopy(sc)
            c['faults'] = fs
            yield c


def judge(sc, out):
    return (store.judge_registers(sc, out)
            + (store.judge_clean_failures(sc, out) if not out.fired else [])
            + store.judge_deaths(sc, out))


def probes(sc, out):
    p = {}
    ops = store.history(sc, out)
    sv = [o for o in ops if o.typ == 'w' and o.where[0] == sc['savephase']]
    rd = [o for o in ops if o.typ == 'r']
    if sv and sv[0].killed:
        p['killed-in-save'] = 1
    if sv and not sv[0].ok and not sv[0].killed:
        p['failed-save'] = 1
    if sv and not sv[0].ok and rd and rd[0].ok:
        p['new-visible' if rd[0].val == sv[0].val else 'old-survived'] = 1
    p['kind-' + sc['kind']] = 1
    return p
