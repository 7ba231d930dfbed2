"""Work goes through once faults stop."""
import copy
from sim import specs, store

TRIALS = {'quick': 90, 'thorough': 8000}
FITS = ['ls', 'lsb', 'bh', 'bhb', 'bhj', 'bhjb', 'da']
RULE = ('Each trial repeats 1-3 calls (saving and loading formulas, cost functions, gradients and model functions, seeded '
        'fits with saved and loaded functions, loading data) over 1-3 process lifetimes. An earlier clean version may '
        'or may not be there. One failure, disk-full spell, compiler failure, interrupt (at an operation or between two '
        'lines of the package), torn write or kill is aimed at every attempt; the next attempts are made in the same '
        'process or in a new one, with the same or other temporary names; a last attempt, with nothing failing, has '
        'to succeed, return the right function and store it for good.')
ASSUME = ['formulas and values are compared as in C01-C05; fits and data with an undisturbed run, bit for bit']
MUST = ['failed-then-right', 'killed-then-right', 'interrupted-then-right', 'same-names', 'same-process', 'over-earlier',
        'two-failures', 'line', 'retry-save_form', 'retry-save_cost', 'retry-save_grad', 'retry-save_model', 'retry-fit',
        'retry-load', 'retry-read']
WHAT = ['form', 'cost', 'grad', 'model', 'fit', 'load', 'model', 'cost', 'grad']


def one(b, rng, n, what):
    """The call that is repeated, one that stores an earlier version, and a load of what it stored."""
    p = 'work/%s' % {'form': 'f%d.p', 'cost': 'c%d.so', 'grad': 'g%d_', 'model': 'm%d', 'fit': 'x%d.so', 'load': 'd%d.csv'}[what] % n
    if what == 'load':
        return {'do': 'load', 'fn': 'load_data', 'data': {'PP': p, 'SS': 'work/e.csv'}, 'units': 'degrees', 'tag': n}, None, None
    if what == 'fit':
        k = rng.choice(FITS)
        st = b.fit(k, save={'p': p, 'as': 'str'}, tag=n)
        if k.startswith('bhj'):
            st['gsave'] = {'p': 'work/xg%d_' % n, 'as': 'str'}
        return st, None, None
    kw = dict(M=rng.choice([0, 0, 1]), keys=['PP'])
    old = b.value(what, **kw)
    new = b.value(what, like=old, **({'nterms': rng.choice([1, 12, 14])} if what == 'model' else {}))
    sp = {'p': p, 'as': rng.choice(['str', 'path', 'rel'])}
    st = b.save(what, sp, new)
    return st, b.save(what, dict(sp), old), b.read(what, dict(sp))


def attempt(rng, st):
    a = copy.deepcopy(st)
    a['attempt'] = True
    if rng.random() < 0.35:
        a['lines'] = sorted(rng.sample(range(rng.choice([40, 120, 500])), 12))
    return a


def gen(rng, i, tier):
    b = store.Bench(rng)
    jobs = [one(b, rng, n, WHAT[(i + n * 4) % len(WHAT)]) for n in range(rng.choice([1, 2, 2]))]
    phases = []
    ref = [dict(copy.deepcopy(s), ref=True) for s, _, _ in jobs if 'tag' in s]
    for s in ref:
        for k in ('save', 'gsave'):
            if k in s:
                s[k] = {'p': s[k]['p'].replace('/x', '/ref'), 'as': 'str'}
    early = [o for _, o, _ in jobs if o and rng.random() < 0.6]
    if ref or early:
        phases.append({'actors': [store.actor(rng, 'early', ref + early)]})
    ent = rng.getrandbits(48)
    for n in range(rng.choice([1, 2, 3])):
        steps = []
        for _ in range(rng.choice([1, 2])):
            for s, _, r in jobs:
                steps.append(attempt(rng, s))
                if r and rng.random() < 0.3:
                    steps.append(attempt(rng, r))
        if rng.random() < 0.5:
            # ... and once more right away
            for s, _, r in jobs:
                steps.append(dict(copy.deepcopy(s), final=True))
                if r:
                    steps.append(dict(copy.deepcopy(r), final=True))
        phases.append({'actors': [store.actor(rng, 'a%d' % n, steps, entropy=ent if rng.random() < 0.6 else rng.getrandbits(48))]})
    last = []
    for s, _, r in jobs:
        last.append(dict(copy.deepcopy(s), final=True))
        if r:
            last.append(dict(copy.deepcopy(r), final=True))
    phases.append({'actors': [store.actor(rng, 'last', last, entropy=ent if rng.random() < 0.6 else rng.getrandbits(48))]})
    reads = [dict(copy.deepcopy(r), final=True) for _, _, r in jobs if r]
    if reads:
        phases.append({'actors': [store.actor(rng, 'audit', reads)]})
    files = {'work/e.csv': '0,1\n90,2.5\n180,3\n270,1\n'}
    for n in range(3):
        files['work/d%d.csv' % n] = ''.join('%d,%s\n' % (x * 30, round(rng.uniform(0, 5), 3)) for x in range(12))
    return b.finish({'phases': phases, 'dirs': [], 'files': files})


def steps_of(sc, out):
    for ph, phase in enumerate(sc['phases']):
        for a in phase['actors']:
            tid = '%s.0' % a['id']
            res = out.results[ph].get(tid, [])
            infl = out.inflight[ph].get(tid)
            for i, st in enumerate(a['threads'][0]):
                if i < len(res):
                    yield ph, a, tid, i, st, res[i]
                elif infl and infl['i'] == i and infl['started']:
                    yield ph, a, tid, i, st, None


def variants(rng, sc, out, tier):
    att = sorted({(ph, tid, i) for ph, a, tid, i, st, r in steps_of(sc, out) if st.get('attempt')})
    if not att:
        return
    line = lambda e: e[4] == 'line'
    for menu in (['err', 'int', 'cc', 'full'], ['kill', 'err'], ['int', 'kill', 'err', 'cc', 'full'], ['kill']):
        fs = []
        for w in att:
            if rng.random() < 0.85:
                fs += store.aim(rng, out, menu, 1, steps={w}, prefer=line if rng.random() < 0.5 else None)
        for f in fs:
            if f['do'] == 'FULL':
                f['n'] = rng.choice([1, 2, 4])
        if fs:
            c = copy.deepcopy(sc)
            c['faults'] = fs
            yield c


def same(a, b):
    keys = ('x', 'fun', 'xdict', 'xdict_syms', 'nfev', 'lowest', 'success') if 'xdict' in b else list(b)
    return all(a.get(k) == b.get(k) for k in keys)


def judge(sc, out):
    vs = store.judge_registers(sc, out) + store.judge_returned(sc, out) + store.judge_clean_failures(sc, out) \
        + store.judge_deaths(sc, out)
    ref, stored = {}, {}
    for ph, a, tid, i, st, r in steps_of(sc, out):
        if st['do'].startswith('save_'):
            stored[store.ppath(st['path'])] = bool(r and r['ok'])
        if st.get('ref') and r and r['ok']:
            ref[st['tag']] = r['v']
        elif 'tag' in st and r and r['ok'] and st['tag'] in ref and not same(r['v'], ref[st['tag']]):
            vs.append({'cls': 'differs', 'fp': 'differs-' + st['do'], 'msg': '%s at step %d of %s (phase %d) gives %s, '
                       'undisturbed %s' % (st['do'], i, tid, ph, str(r['v'])[:300], str(ref[st['tag']])[:300])})
        elif st.get('final') and r and not r['ok'] and not r.get('skip') and (ph, tid, i) not in out.hit \
                and store.sk(st)[0] == 'r' and stored.get(store.ppath(st['path'])):
            # a load after a completed save
            vs.append({'cls': 'unloadable', 'fp': 'unloadable-' + st['do'], 'msg': '%s fails after a completed save with '
                       'nothing wrong underneath: %s: %s (%s)' % (st['do'], r['exc'], r['msg'][:200], r.get('tb'))})
    return vs


def probes(sc, out):
    p = {}
    bad = {}
    early = set()
    lines = {(f['ph'], f['t'], f['s']) for f in out.fired if f.get('op') == 'line'}
    for ph, a, tid, i, st, r in steps_of(sc, out):
        key = (st['do'].split('_')[-1], store.ppath(st['path']) if st.get('path') else st.get('tag'))
        if st['do'].startswith('save_') and not st.get('attempt') and not st.get('final') and r and r['ok']:
            early.add(key)
        if st.get('attempt'):
            if r is None:
                bad.setdefault(key, []).append(('killed', ph, a['entropy']))
            elif not r['ok'] and (ph, tid, i) in out.hit:
                bad.setdefault(key, []).append(('interrupted' if r['exc'] == 'KeyboardInterrupt' else 'failed', ph, a['entropy']))
                if (ph, tid, i) in lines:
                    p['line'] = 1
            if r is None and (ph, tid, i) in lines:
                p['line'] = 1
        if st.get('final') and r and r['ok'] and bad.get(key) and (ph, tid, i) not in out.hit:
            for how, q, ent in bad[key]:
                p[how + '-then-right'] = 1
                if q == ph:
                    p['same-process'] = 1
                elif ent == a['entropy']:
                    p['same-names'] = 1
            if len(bad[key]) > 1:
                p['two-failures'] = 1
            if key in early:
                p['over-earlier'] = 1
            n = st['do']
            p['retry-' + ('read' if n.startswith('read_') else n)] = 1
    return p
