"""Sessions at work at the same time do not notice each other."""
import copy
import json

from props import C11, C12
from sim import store

TRIALS = {'quick': 110, 'thorough': 6000}
RULE = ('Each trial draws 2-3 sessions (saving, loading, generating, evaluating, fitting, converting, loading data, calls '
        'that fail on their own) on different files of one folder, runs each alone, and then all together - as threads '
        'preempted between lines of the package and at every system call, as processes, or as several processes of '
        'several threads - under seeded schedules, with colliding sources of temporary names and one temporary folder. '
        'In some runs one of them meets an I/O error, a '
        'compiler failure or is killed.  Every other step must give exactly what it gave alone, every file written then loads as the same value.')
ASSUME = ['sessions share input files only for reading', 'each session uses objects of its own']
MUST = ['threads', 'processes', 'both', 'same-entropy', 'lines', 'fit', 'model', 'cost', 'form', 'containers', 'data',
        'raised-alone', 'trouble-elsewhere']

KINDS = ['form', 'cost', 'cost', 'model', 'fit', 'cont', 'load', 'grad', 'odd']


def chain(rng, steps):
    """A run of container steps that starts from nothing."""
    c = C12.gen(rng, rng.randrange(4), 'quick')
    n = rng.choice([3, 5, 8])
    return c['phases'][0]['actors'][0]['threads'][0][:n]


def relabel(steps, tag):
    t = json.loads(json.dumps(steps))
    for st in t:
        for k in ('out', 'on', 'var', 'use', 'src'):
            if isinstance(st.get(k), str):
                st[k] = tag + st[k]
        for k in ('from', 'show'):
            if k in st:
                st[k] = [tag + x for x in st[k]]
    return t


def session(b, rng, i, sid, files, truth, pr):
    """Steps with paths below D/."""
    steps, held, have = [], [], {}
    small = dict(M=0, keys=['PP'], nsym=rng.choice([1, 2]), nterms=rng.choice([1, 2]))
    for q in range(rng.choice([2, 3, 4])):
        k = KINDS[(i + q) % len(KINDS)] if q == 0 else rng.choice(KINDS)
        if k in ('form', 'cost', 'model', 'grad'):
            p = 'D/%s%s' % (sid, {'form': '.p', 'cost': '.so', 'model': '_m', 'grad': '_gr'}[k])
            if p in have and rng.random() < 0.5:
                st = b.read(k, p)
            else:
                kw = dict(small) if k in ('model', 'grad') else {}
                v = b.value(k, like=have.get(p) if k == 'model' else None, **kw)
                u = None if k in ('cost', 'model') and rng.random() < 0.3 else p
                st = b.save(k, u, v)
                if u:
                    have[p] = v
            if k in ('cost', 'model') and rng.random() < 0.6:
                st['var'] = '%sv%d' % (sid, q)
                held.append(st)
            steps.append(st)
        elif k == 'fit':
            f = b.fit(rng.choice(['ls', 'lsb', 'bh', 'bhb', 'bhj', 'bhjb', 'da']))
            if rng.random() < 0.3:
                f['save'] = store.path_spec(rng, 'D/%s_fit.so' % sid)
            steps.append(f)
        elif k == 'cont':
            steps += relabel(chain(rng, steps), '%s_%d_' % (sid, q))
        elif k == 'load':
            c = C11.gen(rng, rng.randrange(100), 'quick')
            ss = c['phases'][0]['actors'][0]['threads'][0][:2]
            ren = {p: p.replace('work/', 'work/%s_%d_' % (sid, q)) for p in c['extra']['truth']}
            for p, t in c['files'].items():
                files[ren.get(p, p)] = t
            ss = json.loads(json.dumps(ss))
            for st in ss:
                for w in ('data', 'dark'):
                    for x in (st.get(w) or {}).values():
                        x['p'] = ren[x['p']]
            steps += ss
        else:
            w = rng.choice(['cost_missing_key', 'cost_arguments', 'cost_compiler', 'cost_codegen', 'load_cost', 'load_form',
                            'fit_guess', 'model_compiler', 'fit_minimiser'])
            st = {'do': 'odd', 'what': w, 'flag': rng.random() < 0.5, 'val': b.value('grad', **small),
                  'path': store.path_spec(rng, 'D/%s_odd' % sid)}
            steps.append(st)
        if held and rng.random() < 0.5:
            steps.append(b.recheck(rng.choice(held)))
    return steps, have


def place(steps, d):
    t = json.loads(json.dumps(steps))

    def fix(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k == 'p' and isinstance(v, str) and v.startswith('D/'):
                    x[k] = 'work/%s/%s' % (d, v[2:])
                else:
                    fix(v)
        elif isinstance(x, list):
            for v in x:
                fix(v)
    fix(t)
    return t


def gen(rng, i, tier):
    b = store.Bench(rng)
    files, truth = {}, {}
    mode = ['threads', 'procs', 'both'][i % 3]
    n = 3 if mode == 'both' else rng.choice([2, 2, 3])
    pr = C12.gen(rng, 0, 'quick')['extra']['probes']
    ss = [session(b, rng, i + 3 * q, 's%d' % q, files, truth, pr) for q in range(n)]
    audit = [b.read(*x) for _, have in ss for x in
             [({'p': 'form', 'so': 'cost', '_m': 'model', '_gr': 'grad'}[p[-2:] if p.endswith('so') or p.endswith('_m')
               else ('_gr' if p.endswith('_gr') else 'p')], p) for p in sorted(have)]]
    # the points and candidates are shared by the solo and the concurrent run
    tmp = b.finish({'phases': [{'actors': [{'id': 'x', 'threads': [s for s, _ in ss] + [audit]}]}]})
    z = rng.randrange(3)
    ent = rng.getrandbits(48)
    phases = []
    for q, (s, _) in enumerate(ss):
        phases.append({'actors': [store.actor(rng, 'solo%d' % q, place(s, 's'), z=z, private=True)]})
    phases.append({'actors': [store.actor(rng, 'asolo', place(audit, 's'), z=z)]})
    groups = {'threads': [list(range(n))], 'procs': [[q] for q in range(n)], 'both': [[0, 1], [2]]}[mode]
    acts = []
    same = rng.random() < 0.5
    for g in groups:
        a = store.actor(rng, 'c' + ''.join(map(str, g)), [], z=z, private=True)
        if same:
            a['entropy'] = ent
        a['threads'] = []
        for q in g:
            t = place(ss[q][0], 'c')
            if len(g) > 1:
                for st in t:
                    if rng.random() < 0.5 and st['do'] not in ('fit',):
                        st['lines'] = sorted(rng.sample(range(500), rng.choice([3, 10, 40])))
            a['threads'].append(t)
        acts.append(a)
    phases.append({'actors': acts, 'sched': {'seed': rng.getrandbits(32), 'p': rng.choice([0.03, 0.15, 0.4])}})
    phases.append({'actors': [store.actor(rng, 'ac', place(audit, 'c'), z=z)]})
    tmp.update({'phases': phases, 'dirs': ['work/s', 'work/c'], 'files': files, 'mode': mode, 'groups': groups,
                'same': same, 'n': n})
    tmp['extra']['probes'] = pr
    tmp['extra']['truth'] = {}
    return tmp


def variants(rng, sc, out, tier):
    k = len(sc['phases']) - 2
    for _ in range(2):
        c = copy.deepcopy(sc)
        c['phases'][k]['sched'] = {'seed': rng.getrandbits(32), 'p': rng.choice([0.02, 0.1, 0.3, 0.7])}
        yield c
    # trouble in one session is that session's alone
    fs = store.aim(rng, out, rng.choice([['err', 'cc'], ['err', 'cc', 'kill'], ['kill']]), 1, phases=[k])
    if fs:
        c = copy.deepcopy(sc)
        c['faults'] = fs
        c['phases'][k]['sched'] = {'seed': rng.getrandbits(32), 'p': rng.choice([0.1, 0.3])}
        yield c


def plain(v):
    if isinstance(v, dict):
        return {k: plain(w) for k, w in v.items() if k not in ('time', 'tb')}
    if isinstance(v, list):
        return [plain(w) for w in v]
    if isinstance(v, str):
        return v.replace('work/c/', 'work/s/')
    return v


def pairs(sc, out):
    """(session, step, its result alone, its result in company, thread)."""
    k = sc['n'] + 1
    for a in sc['phases'][k]['actors']:
        for ti, th in enumerate(a['threads']):
            q = [g for g in sc['groups'] if 'c' + ''.join(map(str, g)) == a['id']][0][ti]
            solo = {i: r for i, r in enumerate(out.results[q].get('solo%d.0' % q, []))}
            for i, (st, r) in enumerate(zip(th, out.results[k].get('%s.%d' % (a['id'], ti), []))):
                yield q, st, solo.get(i), r, '%s.%d' % (a['id'], ti)


def troubled(sc, out):
    """{session: first step that met a fault}, judged no further."""
    k = sc['n'] + 1
    t = {}
    for a in sc['phases'][k]['actors']:
        for ti, th in enumerate(a['threads']):
            tid = '%s.%d' % (a['id'], ti)
            q = [g for g in sc['groups'] if 'c' + ''.join(map(str, g)) == a['id']][0][ti]
            hit = [x[2] for x in out.hit if x[:2] == (k, tid)]
            if a['id'] in out.deaths[k]:
                hit.append(len(out.results[k].get(tid, [])))
            if hit:
                t[q] = min(hit)
    return t


def judge(sc, out):
    vs = store.judge_deaths(sc, out)
    bad = troubled(sc, out)
    for q, st, s, r, tid in pairs(sc, out):
        if s is None or r['i'] >= bad.get(q, 1 << 30):
            continue
        name = st['do'] + ('-' + (st.get('what') or st.get('op') or st.get('fn') or st.get('kind') or '')).rstrip('-')
        if s['ok'] != r['ok']:
            if s['ok']:
                vs.append({'cls': 'fails', 'fp': 'fails-' + name, 'msg': '%s of session %d works alone but raised %s: %s in '
                           'company (%s)' % (name, q, r['exc'], r['msg'][:200], r.get('tb'))})
            else:
                vs.append({'cls': 'passes', 'fp': 'passes-' + name, 'msg': '%s of session %d raises %s alone but passes in '
                           'company' % (name, q, s['exc'])})
            break
        if s['ok']:
            if plain(s['v']) != plain(r['v']):
                vs.append({'cls': 'differs', 'fp': 'differs-' + name, 'msg': '%s of session %d gives %s alone but %s in '
                           'company' % (name, q, str(plain(s['v']))[:300], str(plain(r['v']))[:300])})
                break
        elif s['exc'] != r['exc']:
            vs.append({'cls': 'raises', 'fp': 'raises-' + name, 'msg': '%s of session %d raises %s %s alone but %s %s in '
                       'company' % (name, q, s['exc'], s['msg'][:100], r['exc'], r['msg'][:100])})
            break
    n = sc['n']
    a0, a1 = out.results[n].get('asolo.0', []), out.results[n + 2].get('ac.0', [])
    for st, s, r in zip(sc['phases'][n]['actors'][0]['threads'][0], a0, a1):
        if int(store.ppath(st['path']).split('/')[-1][1]) in bad:
            continue
        if s['ok'] != r['ok'] or s['ok'] and plain(s['v']) != plain(r['v']):
            vs.append({'cls': 'file', 'fp': 'file-' + st['do'], 'msg': 'what is left at %s after working alone is %s, in company '
                       '%s' % (store.ppath(st['path']), str(s.get('v') if s['ok'] else s['msg'])[:200],
                               str(r.get('v') if r['ok'] else r['msg'])[:200])})
    return vs


def probes(sc, out):
    p = {}
    k = sc['n'] + 1
    if out.switches[k]:
        p[{'threads': 'threads', 'procs': 'processes', 'both': 'both'}[sc['mode']]] = 1
        if sc['same'] and sc['mode'] != 'threads':
            p['same-entropy'] = 1
    if troubled(sc, out):
        p['trouble-elsewhere'] = 1
    if any(e[0] == k and e[4] == 'line' for e in out.events):
        p['lines'] = 1
    for q, st, s, r, tid in pairs(sc, out):
        if not r['ok']:
            p['raised-alone'] = 1
            continue
        d = st['do']
        for w in ('fit', 'model', 'cost', 'form'):
            if d == w or d.endswith('_' + w):
                p[w] = 1
        if d == 'cont':
            p['containers'] = 1
        if d == 'load':
            p['data'] = 1
    return p
