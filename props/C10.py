"""What a fit reports is true."""
import copy
import math

from sim import specs, store

TRIALS = {'quick': 120, 'thorough': 12000}
KINDS = ['ls', 'lsb', 'bh', 'bhb', 'bhj', 'bhjb', 'da']
RULE = ('Each trial runs 2-4 fits (all seven fit functions) of formulas of 1-12 parameters in one process - dictionaries in '
        'any order with extra entries, tight and wide bounds, different minimisers, cost functions generated, saved, '
        'chunked and loaded, also loaded ones that stand for other data - then again with I/O errors, full disks, '
        'compiler failures, interrupts and kills aimed at single operations, and a second attempt. Each result that is '
        'returned is recomputed with an independent evaluator of the cost.')
ASSUME = ['values are compared to 1e-12 of the sum of magnitudes',
          'the result of basinhopping is compared with the guess only when it makes no hop (a hop from a minimisation '
          'that scipy calls failed may give a worse one)']
MUST = ['kind-' + k for k in KINDS] + ['at-bound', 'loaded', 'loaded-other-data', 'extra-guess', 'many-parameters',
                                       'raised-by-fault', 'right-despite-fault', 'no-parameters']


def value(b, rng, i, j):
    if (i + j) % 6 == 5:
        return b.value('grad', M=rng.choice([0, 1]), keys=['PP'], nsym=rng.choice([9, 11, 12]), nterms=4, const=0.0, zero=0.0,
                       maxdeg=1)
    return b.value('grad', M=rng.choice([0, 0, 1, 2]), keys=rng.choice([['PP'], ['SS'], ['PP', 'PS']]),
                   nsym=rng.choice([1, 2, 3]), nterms=rng.choice([1, 2, 3]), const=rng.choice([0.0, 0.3]),
                   fns=rng.random() < 0.3, assume=rng.choice(['real', 'real', 'mixed']))


def gen(rng, i, tier):
    b = store.Bench(rng)
    phases = []
    saved = {}
    for n in range(rng.choice([1, 1, 2])):
        steps = []
        for q in range(rng.choice([2, 3])):
            kind = KINDS[(i + 3 * n + q) % 7]
            val = value(b, rng, i, q)
            f = b.forms[b.vals[val]['form']]
            if i % 23 == 7 and q == 0:       # nothing to fit
                for c in f['keys'].values():
                    for t in c:
                        for x in t:
                            x[2], x[3] = [], None
            ns = len(f['syms'])
            st = b.fit(kind, val, quick=rng.random() < 0.6)
            if rng.random() < 0.4:
                st['guess'] = [round(rng.uniform(-3, 3), 3) for _ in range(ns)]
            if 'bounds' in st:
                w = rng.choice([0.01, 0.3, 2, 20])
                st['bounds'] = [[round(g - rng.uniform(0.3, 1) * w, 4), round(g + rng.uniform(0.3, 1) * w, 4)]
                                for g in st['guess']]
                st['blist'] = rng.random() < 0.3
            o = list(range(ns))
            rng.shuffle(o)
            st['gorder'] = o
            if rng.random() < 0.4:
                st['extra_guess'] = rng.sample([x for x in specs.NAMES if x not in [y[0] for y in f['syms']]], 2)
            if kind.startswith('bh') and not kind.startswith('bhj') and rng.random() < 0.3:
                st['mk'] = {'method': rng.choice(['Nelder-Mead', 'Powell'])}
            u = rng.random()
            st['val'] = val
            p = 'work/c%d_%d.so' % (n, q)
            if u < 0.3:
                st['save'] = store.path_spec(rng, p)
                if kind.startswith('bhj'):
                    st['gsave'] = store.path_spec(rng, p[:-3] + '_g')
                steps.append(st)
                if rng.random() < 0.7:       # fit again with what was saved
                    l = {k: v for k, v in st.items() if k not in ('save', 'gsave', 'chunk')}
                    l.update(load=store.path_spec(rng, p), mayfail=True)
                    if kind.startswith('bhj'):
                        l['gload'] = store.path_spec(rng, p[:-3] + '_g')
                    steps.append(l)
                continue
            if u < 0.5:                      # fit with a function of other data
                other = dict(b.vals[val])
                b.dats.append(specs.gen_dat(rng, f))
                other['dat'] = len(b.dats) - 1
                b.vals.append(other)
                j = len(b.vals) - 1
                if kind.startswith('bhj'):
                    steps.append(b.save('grad', p, j))
                    st['gload'] = {'p': p + '_g', 'as': 'str'}
                else:
                    other['kind'] = 'cost'
                    steps.append(b.save('cost', p, j))
                st.update(load={'p': p, 'as': 'str'}, val=j, other=True, mayfail=True)
                st.pop('chunk', None)
            steps.append(st)
        phases.append({'actors': [store.actor(rng, 'f%d' % n, steps)]})
    return b.finish({'phases': phases, 'dirs': []})


def variants(rng, sc, out, tier):
    for menu in (['err', 'cc', 'full'], ['err', 'rerr', 'cc'], ['int', 'kill', 'cc'], ['short', 'eintr', 'clk']):
        fs = store.aim(rng, out, menu, 8 if 'clk' in menu else rng.choice([1, 1, 2]))
        if fs:
            c = copy.deepcopy(sc)
            c['faults'] = fs
            # the same fit again afterwards
            for ph in c['phases']:
                th = ph['actors'][0]['threads'][0]
                if not th[-1].get('load'):
                    th.append(copy.deepcopy(th[-1]))
            yield c


def judge_fit(sc, st, v):
    f = sc['forms'][st['form']]
    val = sc['extra']['vals'][st['val']]
    o = specs.order(f)
    names = [f['syms'][i][0] for i in o]
    x = [float.fromhex(h) for h in v['x']]
    if list(v['xdict']) != names or [v['xdict'][n] for n in names] != x:
        return 'names', 'parameters %s and x %s but xdict %s' % (names, x, v['xdict'])
    if not o:
        return None if not v['success'] else ('empty', 'there is nothing to fit but success is reported')
    if not all(map(math.isfinite, x)):
        return 'finite', 'x is %s' % x
    if st.get('bounds'):
        for i, xi in zip(o, x):
            lo, hi = st['bounds'][i]
            if not lo <= xi <= hi:
                return 'bounds', '%s = %r is not in %s' % (f['syms'][i][0], xi, [lo, hi])
    d = sc['dats'][val['dat']]
    ref, bnd = specs.cost(f, d, x)
    fun = v['fun']
    got = sum(y * y for y in fun) if st['kind'].startswith('ls') else fun[0]
    if len(fun) != 1 and not st['kind'].startswith('ls') or not store.close(got, ref, bnd):
        return 'fun', 'the cost at x = %s is %r but fun is %s' % (x, ref, fun)
    if not st['kind'].startswith('bh') or st.get('niter') == 0:
        g, gb = specs.cost(f, d, [st['guess'][i] for i in o])
        if ref > g + 1e-9 * (bnd + gb):
            return 'worse', 'the cost of the guess %s is %r, of the result %s %r' % (st['guess'], g, x, ref)
    if not v['guess_kept'] or not v['bounds_kept']:
        return 'args', 'the guess or the bounds were changed'
    return None


def judge(sc, out):
    vs = store.judge_clean_failures(sc, out) + store.judge_deaths(sc, out)
    for ph, phase in enumerate(sc['phases']):
        for a in phase['actors']:
            tid = a['id'] + '.0'
            broke = False
            for st, r in zip(a['threads'][0], out.results[ph].get(tid, [])):
                if st['do'] != 'fit':
                    broke |= not r['ok']
                    continue
                if not r['ok']:
                    if st.get('load') and not broke and (ph, tid, r['i']) not in out.hit:
                        vs.append({'cls': 'unloadable', 'fp': 'unloadable-' + st['kind'], 'msg': 'fit %s fails with its saved '
                                   'cost function: %s %s %s' % (st['kind'], r['exc'], r['msg'][:200], r.get('tb'))})
                    broke = True
                    continue
                w = judge_fit(sc, st, r['v'])
                if w:
                    vs.append({'cls': w[0], 'fp': w[0] + '-' + st['kind'], 'msg': 'fit %s (step %d of %s): %s' % (
                        st['kind'], r['i'], tid, w[1])})
    return vs


def probes(sc, out):
    p = {}
    for ph, phase in enumerate(sc['phases']):
        for a in phase['actors']:
            tid = a['id'] + '.0'
            for st, r in zip(a['threads'][0], out.results[ph].get(tid, [])):
                if st['do'] != 'fit':
                    continue
                hit = (ph, tid, r['i']) in out.hit
                if not r['ok']:
                    if hit:
                        p['raised-by-fault'] = 1
                    continue
                if hit:
                    p['right-despite-fault'] = 1
                p['kind-' + st['kind']] = 1
                if not r['v']['x']:
                    p['no-parameters'] = 1
                if len(r['v']['x']) > 8:
                    p['many-parameters'] = 1
                if st.get('extra_guess'):
                    p['extra-guess'] = 1
                if st.get('load'):
                    p['loaded-other-data' if st.get('other') else 'loaded'] = 1
                if st.get('bounds'):
                    x = [float.fromhex(h) for h in r['v']['x']]
                    o = specs.order(sc['forms'][st['form']])
                    if any(min(xi - st['bounds'][i][0], st['bounds'][i][1] - xi) < 1e-6 for i, xi in zip(o, x)):
                        p['at-bound'] = 1
    return p
