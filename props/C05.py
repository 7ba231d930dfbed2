"""A model function computes the Fourier components of its formula."""
import copy
from sim import store, specs

TRIALS = {'quick': 150, 'thorough': 4000}
RULE = ('Each trial generates, saves (max_terms_per_file 1..10), re-saves over a formula with more or fewer terms, '
        'loads and evaluates model functions of formulas of 1-12 parameters, M 0..3, polarization keys that are '
        'prefixes of one another, 1-25 terms per component and constant or zero components, in 1-3 processes of '
        'different hash seeds; directory listings come back in an order drawn from the seed.')
ASSUME = ['values are compared with an independent evaluator to 1e-12 of the sum of magnitudes']
MUST = ['generated', 'loaded', 'held-later', 'overwritten', 'many-chunks', 'prefix-keys']
LAYOUTS = [None, None, 'strided', 'reversed', 'int', 'f4', 'readonly', 'column']


def shape(rng, i):
    u = i % 5
    if u == 0:
        return dict(M=0, nsym=rng.choice([2, 3]), keys=['PP'], nterms=rng.choice([11, 14, 25]), zero=0.0, maxdeg=3)
    if u == 1:
        return dict(M=0, nsym=rng.choice([2, 11, 12]), keys=rng.choice([['PP', 'PP_1'], ['S', 'SP', 'SS']]),
                    nterms=rng.choice([2, 4]), zero=0.0)
    if u == 2:
        return dict(M=rng.choice([1, 2, 3]), nsym=2, keys=['PP'], nterms=rng.choice([1, 2]), const=0.4)
    if u == 3:
        return dict(M=1, nsym=rng.choice([1, 2]), keys=rng.choice([['PP'], ['PP', 'P']]), fns=True,
                    assume=rng.choice(['real', 'mixed']))
    return dict(M=rng.choice([0, 1]), nsym=rng.choice([1, 3]), keys=['PP'], assume='mixed', const=0.6, nterms=3)


def gen(rng, i, tier):
    b = store.Bench(rng)
    phases = []
    base = {}
    nv = 0
    for n in range(rng.choice([1, 2, 2, 3])):
        steps, held = [], []
        for q in range(rng.choice([1, 1, 2])):
            p = rng.choice(['work/m', 'work/m', 'work/sub/m 2'])
            u = rng.random()
            if u < 0.3 and p in base:
                st = b.read('model', p, var='v%d' % nv, layout=rng.choice(LAYOUTS[:4]))
            elif u < 0.45:
                st = b.save('model', None, b.value('model', **shape(rng, i)), var='v%d' % nv)
            else:
                kw = shape(rng, i)
                if p in base:
                    kw['nterms'] = rng.choice([1, 2, kw.get('nterms') or 3, 12])
                v = b.value('model', like=base.get(p), **kw)
                base[p] = v
                st = b.save('model', p, v, var='v%d' % nv, layout=rng.choice(LAYOUTS),
                            mtpf=rng.choice([None, None, 1, 2, 5]))
            nv += 1
            steps.append(st)
            held.append(st)
            for h in held:
                if rng.random() < 0.4:
                    steps.append(b.recheck(h, layout=rng.choice(LAYOUTS)))
        phases.append({'actors': [store.actor(rng, 's%d' % n, steps)]})
    if base:
        phases.append({'actors': [store.actor(rng, 'audit', [b.read('model', p) for p in sorted(base)])]})
    sc = b.finish({'phases': phases, 'dirs': ['work/sub'], 'dirseed': rng.randrange(1, 1000)})
    for ph in sc['phases']:
        for a in ph['actors']:
            for st in a['threads'][0]:
                if st.get('layout') in ('int', 'f4') and 'xs' in st:
                    f = st['layout'] == 'int'
                    st['xs'] = [[float(round(v * 2)) if f else round(v * 64) / 64 for v in x] for x in st['xs']]
    return sc


def variants(rng, sc, out, tier):
    c = copy.deepcopy(sc)       # the same history under another listing order
    c['dirseed'] = rng.randrange(1, 1000)
    if rng.random() < 0.3:
        c['faults'] = store.aim(rng, out, ['short', 'eintr', 'clk'], 8)
    if rng.random() < 0.6:
        yield c


def judge(sc, out):
    return (store.judge_returned(sc, out) + store.judge_held(sc, out) + store.judge_registers(sc, out)
            + store.judge_clean_failures(sc, out) + store.judge_deaths(sc, out))


def probes(sc, out):
    p = {}
    saved = set()
    for ph, phase in enumerate(sc['phases']):
        for a in phase['actors']:
            for st, r in zip(a['threads'][0], out.results[ph].get('%s.0' % a['id'], [])):
                if not r['ok']:
                    continue
                if st['do'] == 'save_model':
                    p['generated'] = 1
                    f = sc['forms'][sc['extra']['vals'][st['val']]['form']]
                    if max(len(t) for c in f['keys'].values() for t in c) / (st.get('mtpf') or 10) > 2:
                        p['many-chunks'] = 1
                    if len(f['keys']) > 1:
                        p['prefix-keys'] = 1
                    if st.get('path'):
                        q = store.ppath(st['path'])
                        if q in saved:
                            p['overwritten'] = 1
                        saved.add(q)
                if st['do'] == 'read_model':
                    p['loaded'] = 1
                if st['do'] == 'recheck_model':
                    p['held-later'] = 1
    return p
