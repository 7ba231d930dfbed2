"""A compiled cost function computes the cost of its formula and data."""
import copy
from sim import store, specs

TRIALS = {'quick': 260, 'thorough': 8000}
RULE = ('Each trial generates, saves, overwrites, loads and evaluates several cost functions and gradients of formulas '
        'of 1-14 parameters, M 0..6, 1-8 keys, 1-30 terms per component, in 1-3 processes of different hash seeds, '
        'interleaving the functions held with new generations and loads on the same files, with permuted argument '
        'lists, chunked and not, single precision or re-ordered data containers and six memory layouts of the '
        'argument; all seam orders (directory listings, clock, entropy) are drawn from the seed.')
ASSUME = ['values are compared with an independent evaluator to 1e-12 of the sum of magnitudes']
MUST = ['evaluated', 'loaded', 'held-later', 'gradient', 'many-parameters', 'permuted', 'chunked', 'single-precision']

LAYOUTS = [None, None, 'strided', 'reversed', 'int', 'f4', 'readonly', 'column']


def shape(rng, i):
    if i % 5 == 0:
        n = rng.choice([9, 11, 12, 14])
        return dict(M=rng.choice([0, 1]), nsym=n, keys=rng.choice([['PP'], ['PP', 'SS']]), nterms=rng.choice([3, 6]), zero=0.0)
    if i % 5 == 1:
        return dict(M=rng.choice([0, 1]), nsym=rng.choice([2, 4]), keys=['PP'], nterms=rng.choice([12, 25, 30]), zero=0.0,
                    maxdeg=rng.choice([2, 3]))
    if i % 5 == 2:
        return dict(M=rng.choice([3, 4, 6]), nsym=rng.choice([1, 2, 3]), keys=rng.choice([['PP'], ['SP', 'PS']]), nterms=1)
    if i % 5 == 3:
        return dict(M=rng.choice([1, 2]), nsym=rng.choice([1, 2, 5]), keys=rng.choice(specs.KEYSETS), fns=True,
                    maxdeg=rng.choice([1, 3]))
    return dict(M=rng.choice([0, 1, 2]), nsym=rng.choice([1, 3, 6]), assume=rng.choice(['real', 'mixed']),
                keys=rng.choice(specs.KEYSETS), const=rng.choice([0.1, 0.6]))


def gen(rng, i, tier):
    b = store.Bench(rng)
    phases = []
    paths = ['work/c.so', 'work/sub/d.so', 'work/e']
    used = set()
    nv = 0
    for n in range(rng.choice([1, 2, 2, 3])):
        steps, held = [], []
        for q in range(rng.choice([1, 2, 3])):
            u = rng.random()
            if u < 0.3 and used:
                st = b.read('cost', rng.choice(sorted(used)), var='v%d' % nv, layout=rng.choice(LAYOUTS[:4]))
            elif u < 0.42:
                v = b.value('grad', **dict(M=rng.choice([0, 1]), keys=['PP'], nsym=rng.choice([1, 2, 3, 4]),
                                           nterms=rng.choice([1, 3, 12]), fns=rng.random() < 0.3))
                g = b.save('grad', None, v)
                steps.append(g)
                continue
            else:
                v = b.value('cost', odd=True, **shape(rng, i + q))
                if u < 0.75:
                    p = rng.choice(paths)
                    st = b.save('cost', p, v, var='v%d' % nv, layout=rng.choice(LAYOUTS))
                    used.add(p)
                else:
                    st = b.save('cost', None, v, var='v%d' % nv)
                if rng.random() < 0.3:
                    st['method'] = rng.choice(['cc', 'gcc -O2', 'clang'])
            nv += 1
            steps.append(st)
            held.append(st)
            for h in held:
                if rng.random() < 0.45:
                    steps.append(b.recheck(h, layout=rng.choice(LAYOUTS)))
        phases.append({'actors': [store.actor(rng, 's%d' % n, steps)]})
    if used:
        phases.append({'actors': [store.actor(rng, 'audit', [b.read('cost', p) for p in sorted(used)])]})
    sc = b.finish({'phases': phases, 'dirs': ['work/sub'], 'dirseed': rng.randrange(1, 1000)})
    for ph in sc['phases']:
        for a in ph['actors']:
            for st in a['threads'][0]:
                if st.get('layout') in ('int', 'f4') and 'xs' in st:
                    f = round if st['layout'] == 'int' else None
                    st['xs'] = [[float(round(v * 2)) if f else round(v * 64) / 64 for v in x] for x in st['xs']]
    return sc


def variants(rng, sc, out, tier):
    if rng.random() < 0.4:
        fs = store.aim(rng, out, ['short', 'eintr', 'clk'], 8)
        if fs:
            c = copy.deepcopy(sc)
            c['faults'] = fs
            yield c


def judge(sc, out):
    return (store.judge_returned(sc, out) + store.judge_held(sc, out) + store.judge_registers(sc, out)
            + store.judge_clean_failures(sc, out) + store.judge_deaths(sc, out))


def probes(sc, out):
    p = {}
    for ph, phase in enumerate(sc['phases']):
        for a in phase['actors']:
            for st, r in zip(a['threads'][0], out.results[ph].get('%s.0' % a['id'], [])):
                if not r['ok']:
                    continue
                if st['do'] == 'save_cost':
                    p['evaluated'] = 1
                    v = sc['extra']['vals'][st['val']]
                    if len(st['xs'][0]) > 10:
                        p['many-parameters'] = 1
                    if v.get('perm'):
                        p['permuted'] = 1
                    if st.get('chunk'):
                        p['chunked'] = 1
                    if sc['dats'][v['dat']].get('dt'):
                        p['single-precision'] = 1
                if st['do'] == 'read_cost':
                    p['loaded'] = 1
                if st['do'] == 'recheck':
                    p['held-later'] = 1
                if st['do'] == 'save_grad':
                    p['gradient'] = 1
    return p
