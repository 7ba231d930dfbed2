"""Loaded data is what the files say, or the call fails."""
import copy
import json
import math

from props import C12
from sim import store

TRIALS = {'quick': 380, 'thorough': 30000}
RULE = ('Each trial writes 1-4 data files (and dark files) in varied dialects, some malformed or missing, and loads them '
        'in 1-3 processes by the four loading functions with retries; then again with read errors, failing opens, '
        'descriptor exhaustion, interrupts, short and interrupted reads aimed at single operations.  A load that '
        'returns must agree with an independent reading of the files and with the fault-free run bit for bit; one '
        'that raises must have met a fault or a malformed file, and the next one is unaffected.')
ASSUME = ['files do not change while they are being loaded']
MUST = ['read-error', 'raised', 'malformed', 'missing', 'dark', 'fourier', 'oblique', 'retry-after-failure', 'short-read',
        'units-degrees']


def fmt(rng, v):
    u = rng.random()
    if u < 0.5:
        return repr(float(v))
    if u < 0.7:
        return '%.17g' % v
    if u < 0.85:
        return '%.17e' % v
    return ' ' + repr(float(v)) + ' '


def write_rows(rng, pts, delim=','):
    nl = rng.choice(['\n', '\n', '\n', '\r\n'])
    extra = rng.random() < 0.15
    quote = rng.random() < 0.1
    rows = []
    for x, y in pts:
        a, b = fmt(rng, x), fmt(rng, y)
        if quote:
            a, b = '"%s"' % a.strip(), '"%s"' % b.strip()
        rows.append(a + delim + b + (delim + 'note' if extra else ''))
    t = nl.join(rows)
    return t + (nl if rng.random() < 0.8 else '')


def spoil(rng, text):
    """A malformed version of a file and what must happen: raise or either."""
    lines = text.split('\n')
    i = rng.randrange(max(1, len(lines) - 1))
    kind = rng.choice(['word', 'short', 'header', 'empty', 'blank', 'bytes', 'trunc'])
    if kind == 'word':
        lines[i] = 'n/a,1.0'
    elif kind == 'short':
        lines[i] = lines[i].split(',')[0]
    elif kind == 'header':
        lines.insert(0, 'angle,signal')
    elif kind == 'empty':
        return '', 'either'
    elif kind == 'blank':
        lines.insert(i, '')
        return '\n'.join(lines), 'either'
    elif kind == 'bytes':
        lines[i] = '\udcff\udcfe,\udc80'
    elif kind == 'trunc':
        lines = lines[:i] + [lines[i].split(',')[0].strip(' "')[:1] + ',']
        return '\n'.join(lines), 'raise'
    return '\n'.join(lines), 'raise'


def gen(rng, i, tier):
    b = store.Bench(rng)
    files, truth = {}, {}
    loads = []
    big = rng.random() < 0.15
    for q in range(rng.choice([1, 1, 2])):
        oblique = rng.random() < 0.25
        keys = rng.choice([['PP'], ['PP', 'PS'], ['SS', 'SP', 'PP'], ['PP', 'PS', 'SP', 'SS']])
        if oblique:
            keys = rng.choice([['PP', 'PS'], ['SP', 'SS'], ['pp', 'sp'], ['PP', 'PS', 'SP', 'SS']])
        grid = rng.random() < 0.6
        n = rng.choice([8, 12, 16]) if not big else 720
        xs0 = None
        d, dark = {}, {}
        units = {w: rng.choice(['degrees', 'radians']) for w in 'ud'}
        dk = rng.random() < 0.5
        for k in keys:
            if grid:
                t = [j / n for j in range(n)]
            else:
                t = xs0 or sorted(rng.sample(range(1, 997), n))
                xs0 = t
                t = [j / 997 for j in t]
            for w, dest, on in (('u', d, True), ('d', dark, dk)):
                if not on:
                    continue
                turn = 360 if units[w] == 'degrees' else 2 * math.pi
                xs = [f * turn for f in t]
                pts = [(x, round(rng.uniform(0, 5), rng.choice([2, 15]))) for x in xs]
                if rng.random() < 0.5:
                    p2 = pts[:]
                    rng.shuffle(p2)
                else:
                    p2 = pts
                if rng.random() < 0.15 and units[w] == 'degrees' and grid and not dk:
                    p2 = p2 + [(360.0, pts[0][1] + 1)]
                    if p2.index(pts[0]) > p2.index(p2[-1]):
                        p2 = pts + [p2[-1]]
                f = 'work/%s%d_%s.csv' % ('dark' if w == 'd' else 'data', q, k)
                files[f] = write_rows(rng, p2)
                truth[f] = {'pts': p2, 'want': 'ok'}
                u = rng.random()
                if u < 0.06:
                    files[f], truth[f]['want'] = spoil(rng, files[f])
                elif u < 0.09:
                    del files[f]
                    truth[f]['want'] = 'missing'
                dest[k] = f
        loads.append({'d': d, 'dark': dark, 'units': units, 'oblique': oblique, 'grid': grid, 'n': n})
    phases = []
    for ph in range(rng.choice([1, 2, 3])):
        steps = []
        for _ in range(rng.choice([1, 2, 3])):
            L = rng.choice(loads)
            fn = rng.choice(['load_data', 'load_data', 'load_data_and_dark_subtract', 'load_data_and_fourier_transform',
                             'load_data_and_fourier_transform', 'read_csv'])
            if fn == 'load_data_and_dark_subtract' and not L['dark']:
                fn = 'load_data'
            ks = list(L['d'])
            rng.shuffle(ks)
            st = {'do': 'load', 'fn': fn, 'units': L['units']['u'], 'dunits': L['units']['d'], 'oblique': L['oblique'],
                  'grid': L['grid'],
                  'data': {k: store.path_spec(rng, L['d'][k]) for k in (ks if not L['oblique'] else list(L['d']))},
                  'dark': {k: store.path_spec(rng, L['dark'][k]) for k in L['dark']} or None}
            if fn == 'read_csv':
                st['data'] = {ks[0]: st['data'][ks[0]]}
            if fn == 'load_data_and_fourier_transform':
                if rng.random() < 0.4:
                    st['dark'] = None
                st['M'] = rng.choice([1, 2, 3])
                if rng.random() < 0.4:
                    st['min_subtract'] = rng.random() < 0.8
                if rng.random() < 0.4:
                    st['scale'] = rng.choice([2, 0.5, 1, 1e-3])
                if rng.random() < 0.3:
                    st['interp_kind'] = rng.choice(['linear', 'cubic', 'quadratic'])
            steps.append(st)
            if rng.random() < 0.5:
                steps.append(copy.deepcopy(st))
        phases.append({'actors': [store.actor(rng, 'l%d' % ph, steps, cwd=rng.choice(['work', 'home']))]})
    return {'phases': phases, 'files': files, 'extra': {'truth': truth, 'vals': []}}


def variants(rng, sc, out, tier):
    for menu in (['rerr'], ['rerr', 'int', 'short'], ['short', 'eintr', 'clk']):
        fs = store.aim(rng, out, menu, rng.choice([1, 2, 3]) if 'eintr' not in menu else 8)
        if fs:
            c = copy.deepcopy(sc)
            c['faults'] = fs
            c['ref'] = {json.dumps(st): r['v'] for ph, phase in enumerate(sc['phases'])
                        for a in phase['actors'] for st, r in zip(a['threads'][0], out.results[ph][a['id'] + '.0'])
                        if r['ok']}
            yield c


def expect(sc, st):
    """(must, dat, fdat): must is 'ok', 'raise' or 'either'."""
    T = sc['extra']['truth']
    use = dict(st['data'])
    dark = st['dark'] if st['fn'] in ('load_data_and_dark_subtract', 'load_data_and_fourier_transform') else None
    wants = [T[store.ppath(p)]['want'] for p in list(use.values()) + list((dark or {}).values())]
    if 'raise' in wants or 'missing' in wants:
        return 'raise', None, None
    must = 'either' if 'either' in wants else 'ok'

    def read(d):
        return {k: [[x for x, _ in T[store.ppath(p)]['pts']], [y for _, y in T[store.ppath(p)]['pts']]]
                for k, p in d.items()}
    if must == 'either':
        return must, None, None
    if st['fn'] == 'read_csv':
        return must, list(read(use).values())[0], None
    dat = C12.mk_dat(read(use), st['units'] == 'degrees', st['oblique'])
    if dark:
        dk = C12.mk_dat(read(dark), st['dunits'] == 'degrees', st['oblique'])
        try:
            dat = C12.step({'op': 'dat_subtract', 'from': ['a', 'b'], 'out': 'c'}, {'a': dat, 'b': dk})['c']
        except (C12.Bad, C12.Unknown):
            return 'either', None, None
        dat.eps = 1e-9
    fd = None
    if st['fn'] == 'load_data_and_fourier_transform':
        if st.get('min_subtract'):
            dat = C12.step({'op': 'subtract_min', 'on': 'a'}, {'a': dat})['a']
        if st['grid']:
            dat.grid = 1
        try:
            fd = C12.step({'op': 'dat_to_fdat', 'on': 'a', 'out': 'b', 'M': st['M'],
                           'interp': st.get('interp_kind')}, {'a': dat})['b']
        except C12.Unknown:
            fd = None
        sc_ = st.get('scale', 1)
        if sc_ != 1:
            dat = C12.step({'op': 'scale_data', 'on': 'a', 'by': sc_}, {'a': dat})['a']
            if fd:
                fd = C12.step({'op': 'scale_fdata', 'on': 'a', 'by': sc_}, {'a': fd})['a']
    return must, dat, fd


def judge(sc, out):
    vs = store.judge_deaths(sc, out)
    for ph, phase in enumerate(sc['phases']):
        for a in phase['actors']:
            tid = a['id'] + '.0'
            for i, (st, r) in enumerate(zip(a['threads'][0], out.results[ph].get(tid, []))):
                must, dat, fd = expect(sc, st)
                hit = (ph, tid, i) in out.hit
                desc = '%s (phase %d step %d)' % (st['fn'], ph, i)
                if not r['ok']:
                    if must == 'ok' and not hit:
                        vs.append({'cls': 'refused', 'fp': 'refused-' + st['fn'], 'msg': '%s failed with nothing wrong: %s %s %s' % (
                            desc, r['exc'], r['msg'], r.get('tb'))})
                    continue
                if must == 'raise':
                    vs.append({'cls': 'accepted', 'fp': 'accepted-' + st['fn'], 'msg':
                               '%s returned data although a file is malformed or missing' % desc})
                    continue
                if not r['v']['same_args']:
                    vs.append({'cls': 'args', 'fp': 'args-' + st['fn'], 'msg': '%s changed its arguments' % desc})
                ref = sc.get('ref', {}).get(json.dumps(st))
                if ref is not None and ref != r['v']:
                    vs.append({'cls': 'differs', 'fp': 'differs-' + st['fn'], 'msg':
                               '%s gave other data than the fault-free run: %s / %s' % (desc, str(r['v'])[:200], str(ref)[:200])})
                if must == 'either':
                    continue
                if st['fn'] == 'read_csv':
                    if r['v']['csv'] != dat:
                        vs.append({'cls': 'wrong', 'fp': 'wrong-read_csv', 'msg': '%s: %s, not %s' % (desc, r['v']['csv'], dat)})
                    continue
                d = C12.differs(r['v']['dat'], dat, [])
                if d:
                    vs.append({'cls': 'wrong', 'fp': 'wrong-' + st['fn'], 'msg': '%s: %s' % (desc, d)})
                elif fd is not None and max(max(v[0]) for v in r['v']['dat']['rad'].values()) < 2 * math.pi - 1e-7:
                    d = C12.differs(r['v']['fdat'], fd, [])
                    if d:
                        vs.append({'cls': 'wrong', 'fp': 'wrong-fdat', 'msg': '%s: fdat %s' % (desc, d)})
    return vs


def probes(sc, out):
    p = {}
    for f in out.fired:
        if f['op'] in ('read', 'openr') and f['do'] == 'E' and f.get('e') not in (4,):
            p['read-error'] = 1
        if f['op'] == 'read' and f['do'] == 'S':
            p['short-read'] = 1
    for ph, phase in enumerate(sc['phases']):
        for a in phase['actors']:
            bad = False
            for st, r in zip(a['threads'][0], out.results[ph].get(a['id'] + '.0', [])):
                must = expect(sc, st)[0]
                if must == 'raise':
                    w = [sc['extra']['truth'][store.ppath(x)]['want'] for x in st['data'].values()]
                    p['missing' if 'missing' in w else 'malformed'] = 1
                if r['ok']:
                    if bad:
                        p['retry-after-failure'] = 1
                    if st.get('dark'):
                        p['dark'] = 1
                    if st['fn'].endswith('transform'):
                        p['fourier'] = 1
                    if st['oblique']:
                        p['oblique'] = 1
                    if st['units'] == 'degrees':
                        p['units-degrees'] = 1
                else:
                    bad = True
                    p['raised'] = 1
    return p
