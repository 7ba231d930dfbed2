"""Containers behave like values, and a failing call changes nothing."""
import cmath
import copy
import math
import struct

from sim import store

TRIALS = {'quick': 900, 'thorough': 60000}
RULE = ('Each trial is a history of 6-16 container operations (construction, copies by three routes, scaling, '
        'normalising, shifting, filtering, substitution, merging, adding, subtracting, conversions, scribbling over '
        'arrays handed in or out) over up to five containers of the four types in one process, with invalid arguments '
        'and callbacks, iterations and multiplications that fail at their n-th use.  After every step every container '
        'held is compared with a reference model of plain values.')
ASSUME = ['agreement is judged to 1e-7 relative (1e-5 where single precision is documented)']
MUST = ['kind-dat', 'kind-fdat', 'kind-fform', 'kind-form', 'failed-midway', 'failed-argument', 'after-failure',
        'copied', 'scribbled', 'merged', 'converted']
TAU = 2 * math.pi
SYMS = ['a', 'b', 'xxx', 'zz_1']


# ------------------------------------------------------------------ the model
def ev(terms, a):
    tot = 0j
    for re, im, pw, fns in terms:
        v = complex(re, im)
        for n, p in pw.items():
            v *= a[n] ** p
        for fn, n, k, p in fns:
            v *= getattr(cmath, fn)(k * a[n]) ** p
        tot += v
    return tot


def c64(z):
    r, i = struct.unpack('ff', struct.pack('ff', z.real, z.imag))
    return complex(r, i)


class Bad(Exception):
    """The call must fail."""


class Unknown(Exception):
    """The model does not say what happens."""


class Dat:
    kind = 'dat'

    def __init__(self, d):
        self.d = d              # key -> [(x, y)], x in [0, tau)
        self.scale, self.offset, self.ps = 1.0, 0.0, 0.0
        self.eps = 1e-9
        self.grid = None
        self.moved = False      # angles are not just the numbers that were given

    def ys(self):
        return [y for v in self.d.values() for _, y in v]


class FDat:
    kind = 'fdat'

    def __init__(self, M, d, eps=1e-9):
        self.M, self.d, self.eps = M, d, eps
        self.scale, self.ps = 1.0, 0.0


class FForm:
    kind = 'fform'
    eps = 1e-9

    def __init__(self, M, d):
        self.M, self.d = M, d


class Form:
    kind = 'form'
    eps = 1e-9

    def __init__(self, d):
        self.d = d


def wrap(x):
    x = x % TAU
    return 0.0 if TAU - x < 1e-9 else x


def mk_dat(items, deg, oblique):
    d = {}
    for k, (x, y) in items.items():
        d[k] = [(math.radians(u) if deg else float(u), float(v)) for u, v in zip(x, y)]
    if oblique:
        d = {k.upper()[:2]: v for k, v in d.items()}
        have = list(d)
        if set(have) != {'PP', 'PS', 'SP', 'SS'}:
            par = [k for k in have if k[0] == k[1]]
            cross = [k for k in have if k[0] != k[1]]
            if len(have) != 2 or len(par) != 1 or len(cross) != 1:
                raise Bad()
            for k in ['PP', 'PS', 'SP', 'SS']:
                if k not in d:
                    src = par[0] if k[0] == k[1] else cross[0]
                    d[k] = [(x + math.pi / 2, y) for x, y in d[src]]
    out = {}
    for k, v in d.items():
        pts = []
        for x, y in v:
            x = wrap(x)
            if not any(abs(x - u) < 1e-9 for u, _ in pts):
                pts.append((x, y))
        out[k] = sorted(pts)
    r = Dat(out)
    r.moved = any(x and min(wrap(x), TAU - wrap(x)) < 1e-6 for v in d.values() for x, _ in v)
    return r


def close_over(f, pairs):
    def g(a):
        a = dict(a)
        for n, t in reversed(pairs):
            a[n] = ev(t, a)
        return f(a)
    return g


def times(f, g):
    return lambda a: f(a) * g(a)


def const_env(subs):
    return dict(subs)


def fdat_points(f, n):
    out = {}
    for k, v in f.d.items():
        pts = []
        for i in range(n):
            x = TAU * i / n
            y = sum(v[m + f.M] * cmath.exp(1j * m * x) for m in range(-f.M, f.M + 1))
            pts.append((x, y.real))
        out[k] = pts
    r = Dat(out)
    r.grid = n
    r.eps = max(1e-9, f.eps)
    return r


def uniform(d):
    n = [len(v) for v in d.d.values()]
    return all(x == n[0] for x in n)


def step(st, V):
    """Returns the new variables; raises Bad / Unknown."""
    op = st['op']
    N = dict(V)
    if op == 'new':
        k = st['kind']
        if st.get('invalid'):
            raise Bad()
        if k == 'dat':
            N[st['out']] = mk_dat(st['data'], st['units'] == 'degrees', st.get('oblique'))
        elif k == 'fdat':
            z = {pc: [complex(*c) for c in v] for pc, v in st['data'].items()}
            if st.get('dtype') == 'complex64':
                N[st['out']] = FDat(st['M'], {pc: [c64(c) for c in v] for pc, v in z.items()}, 1e-5)
            else:
                N[st['out']] = FDat(st['M'], z)
        elif k == 'fform':
            N[st['out']] = FForm(st['M'], {pc: [(lambda a, t=t: ev(t, a)) for t in v] for pc, v in st['data'].items()})
        else:
            N[st['out']] = Form({pc: (lambda a, t=t: ev(t, a)) for pc, t in st['data'].items()})
        return N
    if op == 'drop':
        N.pop(st['on'], None)
        return N
    if op == 'merge':
        src = [V[n] for n in st['from']]
        if len({s.kind for s in src}) > 1:
            raise Bad()
        d = {}
        for i, s in enumerate(src):
            for k, v in s.d.items():
                d[k + st['suffix'][i]] = copy.copy(v)
        k = src[0].kind
        if k in ('fdat', 'fform') and len({s.M for s in src}) > 1:
            raise Bad()
        eps = max(s.eps for s in src)
        r = {'dat': lambda: Dat(d), 'fdat': lambda: FDat(src[0].M, d, eps),
             'fform': lambda: FForm(src[0].M, d), 'form': lambda: Form(d)}[k]()
        if k == 'dat':
            r.eps = eps
            r.moved = any(s.moved for s in src)
        N[st['out']] = r
        return N
    if op in ('dat_add', 'dat_subtract'):
        a, b = V[st['from'][0]], V[st['from'][1]]
        if set(a.d) != set(b.d):
            raise Bad()
        if not uniform(a) or not uniform(b):
            raise Unknown()
        if len(next(iter(a.d.values()))) != len(next(iter(b.d.values()))):
            raise Bad()
        out = {}
        amb = False
        for k in a.d:
            pts = []
            u, w = sorted(a.d[k]), sorted(b.d[k])
            for (x, y), (x2, y2) in zip(u, w):
                if x < 1e-6 or x2 < 1e-6:
                    amb = amb or a.ps or b.ps
                gap = abs(x - x2)
                if 1e-9 < gap < 1e-4:
                    raise Unknown()
                if gap > 1e-4:
                    raise Unknown() if amb else Bad()
                pts.append((x, y + y2 if op == 'dat_add' else y - y2))
            out[k] = pts
        if amb:
            raise Unknown()
        r = Dat(out)
        r.grid = a.grid
        r.eps = max(a.eps, b.eps) * 4
        r.moved = a.moved or b.moved
        N[st['out']] = r
        return N
    o = V[st['on']]
    n = copy.copy(o)
    if op == 'copy':
        N[st['out']] = n
        return N
    if op == 'poke':
        return N
    if op in ('scale_data', 'scale_fdata', 'normalize_data', 'normalize_fdata'):
        by = st['by']
        if op.startswith('norm'):
            m = max(o.ys()) if o.kind == 'dat' else max(abs(z) for v in o.d.values() for z in v)
            if abs(m) < 1e-3:
                raise Unknown()
            by = by / m
        if by < 0:
            raise Bad()
        if o.kind == 'dat':
            n.d = {k: [(x, y * by) for x, y in v] for k, v in o.d.items()}
        else:
            n.d = {k: [z * by for z in v] for k, v in o.d.items()}
        n.scale = o.scale * by
    elif op == 'subtract_min':
        m = min(o.ys())
        n.d = {k: [(x, y - m) for x, y in v] for k, v in o.d.items()}
        n.offset = o.offset - m
    elif op in ('phase_shift_data', 'phase_shift_fdata'):
        if st['units'].lower() not in ('radians', 'degrees'):
            raise Bad()
        a = math.radians(st['angle']) if st['units'].lower() == 'degrees' else st['angle']
        if o.kind == 'dat':
            n.d = {k: sorted((wrap(x + a), y) for x, y in v) for k, v in o.d.items()}
            n.grid = None
            n.moved = True
        else:
            n.d = {k: [z * cmath.exp(1j * (i - o.M) * a) for i, z in enumerate(v)] for k, v in o.d.items()}
        n.ps = o.ps + a
    elif op == 'filter':
        if st.get('short'):
            raise Bad()
        n.d = {k: [(x, y * st['b'] + st['c']) for x, y in v] for k, v in o.d.items()}
    elif op == 'subs':
        if st.get('bad'):
            raise Bad()
        n.d = {k: [close_over(f, st['pairs']) for f in v] if o.kind == 'fform' else close_over(v, st['pairs'])
               for k, v in o.d.items()}
    elif op == 'apply_phase_shift':
        by = st['by']
        if o.kind == 'fform':
            n.d = {k: [times(f, lambda a, m=i - o.M: cmath.exp(1j * m * ev(by, a))) for i, f in enumerate(v)]
                   for k, v in o.d.items()}
        else:
            n.d = {k: (lambda a, f=f: f(dict(a, phi=a['phi'] + ev(by, a)))) for k, f in o.d.items()}
    elif op == 'apply_arbitrary_scale':
        by = st['by']
        n.d = {k: [times(f, lambda a: ev(by, a)) for f in v] if o.kind == 'fform' else times(v, lambda a: ev(by, a))
               for k, v in o.d.items()}
    elif op in ('expand', 'simplify'):
        pass
    elif op == 'fform_to_fdat':
        e = const_env(st['subs'])
        N[st['out']] = FDat(o.M, {k: [f(e) for f in v] for k, v in o.d.items()})
        return N
    elif op == 'form_to_fdat':
        ff = to_fform(o, st['M'])
        e = const_env(st['subs'])
        N[st['out']] = FDat(ff.M, {k: [f(e) for f in v] for k, v in ff.d.items()})
        return N
    elif op == 'fdat_to_dat':
        N[st['out']] = fdat_points(o, st['n'])
        return N
    elif op == 'fform_to_dat':
        e = const_env(st['subs'])
        N[st['out']] = fdat_points(FDat(o.M, {k: [f(e) for f in v] for k, v in o.d.items()}), st['n'])
        return N
    elif op == 'form_to_dat':
        e = const_env(st['subs'])
        r = Dat({k: [(TAU * i / st['n'], f(dict(e, phi=TAU * i / st['n'])).real) for i in range(st['n'])]
                 for k, f in o.d.items()})
        r.grid = st['n']
        N[st['out']] = r
        return N
    elif op == 'dat_to_fdat':
        M = st['M']
        r = FDat(M, {k: [sum(y * cmath.exp(-1j * m * x) for x, y in v) / len(v) for m in range(-M, M + 1)]
                     for k, v in ((k, v if o.grid is not None else resample(o, v, st.get('interp') or 'cubic'))
                                  for k, v in o.d.items())}, 1e-5)
        big = max(abs(y) for v in o.d.values() for _, y in v)
        if o.grid is None and max(abs(z) for v in r.d.values() for z in v) < 1e-2 * big:
            raise Unknown()
        N[st['out']] = r
        return N
    elif op == 'fform_to_form':
        M = o.M
        N[st['out']] = Form({k: (lambda a, v=v: sum(f(a) * cmath.exp(1j * (i - M) * a['phi'])
                                                    for i, f in enumerate(v))) for k, v in o.d.items()})
        return N
    elif op == 'form_to_fform':
        N[st['out']] = to_fform(o, st['M'])
        return N
    N[st['on']] = n
    return N


def to_fform(o, M):
    def comp(f, m):
        return lambda a: sum(f(dict(a, phi=TAU * i / 64)) * cmath.exp(-1j * m * TAU * i / 64) for i in range(64)) / 64
    return FForm(M, {k: [comp(f, m) for m in range(-M, M + 1)] for k, f in o.d.items()})


def resample(o, pts, kind):
    """The values, at evenly spaced angles, of the curve drawn through the points (continued beyond the outermost)."""
    n = len(pts)
    pts = sorted(pts)
    xs, ys = [x for x, _ in pts], [y for _, y in pts]
    need = {'linear': 2, 'quadratic': 3, 'cubic': 4}[kind]
    if n < max(need, 2) or o.eps > 1e-8 or min(b - a for a, b in zip(xs, xs[1:])) < 0.02:
        raise Unknown()
    if o.moved and (xs[0] < 1e-6 or xs[-1] > TAU - 1e-6):
        raise Unknown()
    at = [TAU * i / n for i in range(n)]
    if kind == 'linear':
        out = []
        for x in at:
            i = min(max(sum(u <= x for u in xs) - 1, 0), n - 2)
            out.append(ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i]))
    elif kind == 'cubic':
        import scipy.interpolate
        out = [float(y) for y in scipy.interpolate.CubicSpline(xs, ys, bc_type='not-a-knot')(at)]
    else:
        import scipy.interpolate
        f = scipy.interpolate.make_interp_spline(xs, ys, k=2)
        out = [float(y) for y in f(at)]
    if max(map(abs, out)) > 1e6 * max([abs(y) for y in ys] + [1e-9]):
        raise Unknown()
    if max(map(abs, out)) > 1e3 * abs(sum(out)) / n:
        raise Unknown()
    return list(zip(at, out))


# ------------------------------------------------------------------ comparing
def num(z):
    return complex(z['re'], z['im']) if isinstance(z, dict) else complex(z)


def near(a, b, tol):
    return abs(a - b) <= tol


def pts_equal(xs, ys, pts, tol, full=TAU):
    if len(xs) != len(pts):
        return False
    got = sorted((0.0 if full - x < 1e-7 * full else x, y) for x, y in zip(xs, ys))
    return all(near(x, u * full / TAU, 1e-7 * full) and near(y, w, tol) for (x, y), (u, w) in zip(got, sorted(pts)))


def differs(s, o, probes):
    """'' or what the reported state s has that model o has not."""
    if s['kind'] != o.kind:
        return 'kind %s %s' % (s['kind'], s.get('exc', ''))
    if list(s['keys']) != list(o.d):
        return 'keys %s, not %s' % (s['keys'], list(o.d))
    if o.kind == 'dat':
        m = max([abs(y) for y in o.ys()] + [1.0])
        tol = o.eps * 100 * m
        for k, v in o.d.items():
            x, y = s['rad'][k]
            if not pts_equal(x, y, v, tol):
                return '%s (radians) %s, not %s' % (k, s['rad'][k], v)
            if x != sorted(x) or any(not 0 <= u <= TAU for u in x):
                return '%s angles %s' % (k, x)
            x, y = s['deg'][k]
            if not pts_equal(x, y, v, tol, 360.0):
                return '%s (degrees) %s, not %s' % (k, s['deg'][k], v)
        if [k for k, _ in s['items']] != list(o.d) or any(v != s['rad'][k] for k, v in s['items']):
            return 'items'
        if [k for k, _ in s['ditems']] != list(o.d) or any(v != s['deg'][k] for k, v in s['ditems']):
            return 'items in degrees'
        if s['values'] != [s['rad'][k] for k in s['keys']]:
            return 'values'
        for k, x, y in s['pandas']:
            if [x, y] != s['deg'][k]:
                return 'pandas of ' + k
        if s['multi'] != s['pandas']:
            return 'multi-index pandas %s, not %s' % (s['multi'], s['pandas'])
        hi = {k: max(y for _, y in v) for k, v in o.d.items()}
        lo = {k: min(y for _, y in v) for k, v in o.d.items()}
        if not near(s['max'][1], max(hi.values()), tol) or not near(hi[s['max'][0]], max(hi.values()), tol):
            return 'maxval %s' % s['max']
        if not near(s['min'][1], min(lo.values()), tol) or not near(lo[s['min'][0]], min(lo.values()), tol):
            return 'minval %s' % s['min']
        for k in o.d:
            if not near(s['pcmax'][k], hi[k], tol) or not near(s['pcmin'][k], lo[k], tol):
                return 'pc max/min of ' + k
        if not near(s['scale'], o.scale, 1e-7 * (1 + abs(o.scale))):
            return 'scale %s, not %s' % (s['scale'], o.scale)
        if not near(s['offset'], o.offset, 1e-7 * (m + abs(o.offset))):
            return 'offset %s, not %s' % (s['offset'], o.offset)
        if not near(s['ps'], o.ps, 1e-7 * (1 + abs(o.ps))) or not near(s['psd'], math.degrees(o.ps), 1e-5 * (1 + abs(o.ps))):
            return 'phase shift %s, not %s' % (s['ps'], o.ps)
        return ''
    if o.kind == 'fdat':
        if s['M'] != o.M:
            return 'M %s' % s['M']
        m = max([abs(z) for v in o.d.values() for z in v] + [1e-3])
        tol = o.eps * 100 * m
        for k, v in o.d.items():
            if len(s['v'][k]) != len(v) or not all(near(num(a), b, tol) for a, b in zip(s['v'][k], v)):
                return '%s %s, not %s' % (k, s['v'][k], v)
        if [k for k, _ in s['items']] != list(o.d) or any(v != s['v'][k] for k, v in s['items']):
            return 'items'
        if s['values'] != [s['v'][k] for k in s['keys']]:
            return 'values'
        for k, n, v in s['pandas']:
            if v != s['v'][k] or n != list(range(-o.M, o.M + 1)):
                return 'pandas of ' + k
        if s['multi'] != [[k, n, v] for k, n, v in s['pandas']]:
            return 'multi-index pandas'
        hi = {k: max(abs(z) for z in v) for k, v in o.d.items()}
        if not near(s['max'][1], max(hi.values()), tol) or not near(hi[s['max'][0]], max(hi.values()), tol):
            return 'maxval %s' % s['max']
        if any(not near(s['pcmax'][k], hi[k], tol) for k in hi):
            return 'pc maxval'
        if not near(s['scale'], o.scale, 1e-5 * (1 + abs(o.scale))):
            return 'scale %s, not %s' % (s['scale'], o.scale)
        if not near(s['ps'], o.ps, 1e-7 * (1 + abs(o.ps))) or not near(s['psd'], math.degrees(o.ps), 1e-5 * (1 + abs(o.ps))):
            return 'phase shift %s, not %s' % (s['ps'], o.ps)
        return ''
    if o.kind == 'fform' and s['M'] != o.M:
        return 'M %s' % s['M']
    if s['items'] != list(o.d) or s['nvalues'] != len(o.d) or not s['same']:
        return 'items / values disagree with get_pc'
    if s['syms'] != sorted(s['syms']) or len(set(s['syms'])) != len(s['syms']):
        return 'free symbols %s' % s['syms']
    dep = set()
    for k, f in o.d.items():
        fs = f if o.kind == 'fform' else [f]
        for pi, a in enumerate(probes):
            got = s['v'][k][pi]
            got = [num(z) for z in got] if o.kind == 'fform' else [num(got)]
            want = [g(a) for g in fs]
            m = max([abs(z) for z in want] + [1.0])
            if len(got) != len(want) or not all(near(x, y, 1e-7 * m) for x, y in zip(got, want)):
                return '%s at %s: %s, not %s' % (k, a, got, want)
        a = probes[0]
        for n in a:
            b = dict(a)
            b[n] += 0.37
            if any(abs(g(a) - g(b)) > 1e-5 for g in fs):
                dep.add(n)
    if not dep <= set(s['syms']):
        return 'free symbols %s lack %s' % (s['syms'], sorted(dep - set(s['syms'])))
    return ''


def judge(sc, out):
    vs = store.judge_deaths(sc, out)
    probes = sc['extra']['probes']
    for ph, phase in enumerate(sc['phases']):
        for a in phase['actors']:
            V = {}
            for i, (st, r) in enumerate(zip(a['threads'][0], out.results[ph].get(a['id'] + '.0', []))):
                if not r['ok']:
                    vs.append({'cls': 'harness', 'fp': 'harness', 'msg': 'step %s: %s %s %s' % (i, r['exc'], r['msg'], r.get('tb'))})
                    return vs
                if any(n not in V for n in ([st['on']] if 'on' in st and st['op'] != 'drop' else []) + st.get('from', [])):
                    continue
                v = r['v']
                exc = v.get('exc')
                try:
                    N = step(st, V)
                    want = None
                except Bad:
                    N, want = V, 'fail'
                except Unknown:
                    N, want = None, 'either'
                desc = {k: x for k, x in st.items() if k not in ('show', 'data')}
                if want == 'fail' and not exc:
                    vs.append({'cls': 'accepted', 'fp': 'accepted-' + st['op'], 'msg':
                               'step %d %s should have been refused' % (i, desc)})
                    return vs
                if want is None and exc and not (st.get('fuse') is not None and exc == 'Boom'):
                    vs.append({'cls': 'refused', 'fp': 'refused-' + st['op'], 'msg':
                               'step %d %s failed: %s %s' % (i, desc, exc, v.get('msg'))})
                    return vs
                if want is None and exc:
                    N = V
                if N is None:
                    N = dict(V)
                    if not exc:
                        for n in (st.get('on'), st.get('out')):
                            if n != st.get('on') or st['op'] not in ('dat_to_fdat',):
                                N.pop(n, None)
                for n, o in N.items():
                    if n not in v['state']:
                        vs.append({'cls': 'missing', 'fp': 'missing-' + st['op'], 'msg': 'step %d %s: no %s' % (i, desc, n)})
                        return vs
                    d = differs(v['state'][n], o, probes)
                    if d:
                        what = 'changed-by-failure' if exc else 'wrong'
                        if n not in (st.get('on'), st.get('out')):
                            what = 'bystander'
                        vs.append({'cls': what, 'fp': '%s-%s-%s' % (what, st['op'], o.kind), 'msg':
                                   'after step %d %s%s, %s %s: %s' % (i, desc, ' (failed: %s)' % exc if exc else '',
                                                                     o.kind, n, d)})
                        return vs
                V = N
    return vs


# ----------------------------------------------------------------- generation
def rv(rng, nd=3, lo=-2.0, hi=2.0):
    return round(rng.uniform(lo, hi), nd) or 0.5


def gen_terms(rng, names, n=None, deg=2, fns=False, imag=True):
    out = []
    for _ in range(n or rng.choice([1, 1, 2, 3])):
        pw = {}
        for _ in range(rng.randrange(deg + 1)):
            x = rng.choice(names)
            pw[x] = pw.get(x, 0) + 1
        f = []
        if fns and rng.random() < 0.3:
            f = [[rng.choice(['sin', 'cos']), rng.choice(names), rng.choice([1, 2]), 1]]
        out.append([rng.choice([1, -2, rv(rng), rv(rng)]), rv(rng) if imag and rng.random() < 0.4 else 0, pw, f])
    return out


def gen_phi_terms(rng, names):
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        t = gen_terms(rng, names, 1, deg=rng.choice([0, 1, 2]), imag=False)[0]
        p, q = rng.choice([(0, 0), (1, 0), (0, 1), (2, 0), (0, 2), (1, 1), (2, 2), (4, 0), (1, 3), (3, 3)])
        if p:
            t[3].append(['cos', 'phi', 1, p])
        if q:
            t[3].append(['sin', 'phi', 1, q])
        out.append(t)
    return out


KEYS = [['PP'], ['PP', 'SS'], ['SP', 'PS'], ['PP', 'PS', 'SP'], ['SS', 'PP', 'S']]


def gen_new(rng, kind, keys, M, names, like=None):
    st = {'do': 'cont', 'op': 'new', 'kind': kind, 'pairs': rng.random() < 0.3, 'scribble': rng.random() < 0.5}
    if kind == 'dat':
        st['units'] = rng.choice(['radians', 'degrees'])
        deg = st['units'] == 'degrees'
        turn = 360 if deg else TAU
        n = rng.choice([4, 5, 8])
        if like is not None:
            st['units'] = like['units']
            d = {}
            for k, (x, y) in like['data'].items():
                p = list(range(len(x)))
                rng.shuffle(p)
                d[k] = [[x[i] for i in p], [rng.randint(-9, 9) if like.get('dtype') == 'int64' else rv(rng) for _ in p]]
            st['data'] = d
            st['dtype'] = like.get('dtype', 'float64')
            st['oblique'] = like.get('oblique')
            return st
        st['dtype'] = rng.choice(['float64'] * 4 + ['int64'] if deg else ['float64'])
        if rng.random() < 0.2:
            st['oblique'] = True
            keys = rng.choice([['PP', 'PS'], ['SS', 'SP'], ['pp', 'sp'], ['PP', 'PS', 'SP', 'SS'], ['PPx', 'PS1']])
            if rng.random() < 0.15:
                keys = rng.choice([['PP', 'SS'], ['PP'], ['PS', 'SP']])
        d = {}
        xs = None
        for k in keys:
            if xs is None or rng.random() < 0.15:
                base = rng.sample(range(64), n)
                if deg:
                    xs = [b * 360 / 64 for b in base] if st['dtype'] != 'int64' else [b * 5 for b in base]
                    if rng.random() < 0.2:
                        xs[0] = 360 if st['dtype'] == 'int64' else 360.0
                        xs = [x for i, x in enumerate(xs) if i == 0 or x != 0]
                else:
                    off = rng.random() * 0.05
                    xs = [b * TAU / 64 + off for b in base]
                if rng.random() < 0.3:
                    xs = sorted(xs)
            x = list(xs)
            y = [rng.randint(-9, 9) if st['dtype'] == 'int64' else rv(rng) for _ in x]
            if rng.random() < 0.1:
                x.append(x[0])
                y.append(y[0] + 1)
            d[k] = [x, y]
        st['data'] = d
        st['cols'] = rng.random() < 0.2
    elif kind == 'fdat':
        st['M'] = M
        st['dtype'] = rng.choice(['complex128', 'complex128', 'complex64'])
        st['data'] = {k: [[rv(rng), rv(rng)] for _ in range(2 * M + 1)] for k in keys}
        if rng.random() < 0.06:
            st['invalid'] = True
            st['data'][keys[-1]] = st['data'][keys[-1]][:-1]
    elif kind == 'fform':
        st['M'] = M
        st['data'] = {k: [gen_terms(rng, names, fns=True) if rng.random() < 0.8 else [] for _ in range(2 * M + 1)]
                      for k in keys}
        if rng.random() < 0.06:
            st['invalid'] = True
            st['data'][keys[-1]] = st['data'][keys[-1]][:-1]
    else:
        st['data'] = {k: gen_phi_terms(rng, names) for k in keys}
    return st


def gen(rng, i, tier):
    names = rng.sample(SYMS, rng.choice([1, 2, 3]))
    M = rng.choice([0, 1, 1, 2, 3])
    keys = rng.choice(KEYS)
    steps, kinds, news = [], {}, {}
    cnt = [0]

    def fresh():
        cnt[0] += 1
        return 'v%d' % cnt[0]

    def add(st, kind=None):
        if kind:
            st['out'] = fresh()
            kinds[st['out']] = kind
        steps.append(st)
        return st

    main = ['dat', 'fdat', 'fform', 'form'][i % 4]
    st = add(gen_new(rng, main, keys, M, names), main)
    news[st['out']] = st
    all_subs = {n: rv(rng) for n in SYMS}
    weight = {}
    for _ in range(rng.choice([5, 8, 12])):
        if len(kinds) > 4:
            n = rng.choice(sorted(kinds))
            kinds.pop(n)
            steps.append({'do': 'cont', 'op': 'drop', 'on': n})
        if not kinds or rng.random() < 0.12:
            k = main if rng.random() < 0.6 else rng.choice(['dat', 'fdat', 'fform', 'form'])
            like = None
            if k == 'dat' and rng.random() < 0.6:
                ls = [news[n] for n in kinds if n in news and news[n]['kind'] == 'dat']
                like = rng.choice(ls) if ls else None
            st = add(gen_new(rng, k, keys, M, names, like), k)
            news[st['out']] = st
            if st.get('invalid') or (st.get('oblique') and len(st['data']) < 4 and len({k[0].upper() == k[1].upper() for k in st['data']}) < 2):
                kinds.pop(st['out'])
            continue
        on = rng.choice(sorted(kinds))
        k = kinds[on]
        u = rng.random()
        b = {'do': 'cont', 'on': on, 'kind': k}
        fuse = rng.randrange(6) if rng.random() < 0.25 else None
        if u < 0.12:
            add(dict(b, op='copy', how=rng.choice(['copy', 'copy', 'deepcopy', 'pickle'])), k)
        elif u < 0.2:
            add(dict(b, op='poke'))
        elif u < 0.28:
            oth = [n for n in kinds if kinds[n] == k]
            src = [rng.choice(oth) for _ in range(rng.choice([1, 2, 2, 3]))]
            suf = ['_%d' % q for q in range(3)]
            if rng.random() < 0.1 and len(set(kinds.values())) > 1:
                src = [on, rng.choice([n for n in sorted(kinds) if kinds[n] != k])]
                steps.append({'do': 'cont', 'op': 'merge', 'from': src, 'suffix': suf, 'out': 'bad%d' % cnt[0]})
                continue
            st = {'do': 'cont', 'op': 'merge', 'from': src, 'suffix': suf, 'fuse': fuse}
            if fuse is not None:
                st['out'] = fresh()
                steps.append(st)
            else:
                add(st, k)
        elif k == 'dat':
            op = rng.choice(['scale_data', 'subtract_min', 'normalize_data', 'phase_shift_data', 'phase_shift_data',
                             'filter', 'filter', 'dat_add', 'dat_subtract', 'dat_to_fdat'])
            if op == 'scale_data':
                add(dict(b, op=op, by=rng.choice([2, 0.5, 0, rv(rng, lo=0.1), -1.5, 1e3])))
            elif op == 'normalize_data':
                add(dict(b, op=op, by=rng.choice([1, 2.5, 7])))
            elif op == 'subtract_min':
                add(dict(b, op=op))
            elif op == 'phase_shift_data':
                add(dict(b, op=op, angle=rng.choice([10, -45.5, 400, 0, rv(rng)]),
                         units=rng.choice(['degrees', 'radians', 'Degrees', 'grad'] if rng.random() < 0.3 else ['degrees', 'radians'])))
            elif op == 'filter':
                add(dict(b, op=op, b=rv(rng), c=rv(rng), inplace=rng.random() < 0.5, short=rng.random() < 0.1,
                         fuse=rng.choice([None, 0, 1, 2]) if rng.random() < 0.5 else None))
                if steps[-1]['short']:
                    steps[-1]['inplace'] = False
            elif op in ('dat_add', 'dat_subtract'):
                oth = [n for n in kinds if kinds[n] == 'dat']
                steps.append({'do': 'cont', 'op': op, 'from': [on, rng.choice(oth)], 'out': fresh()})
                weight[steps[-1]['out']] = 1
                kinds[steps[-1]['out']] = 'dat'
            else:
                add(dict(b, op=op, M=rng.choice([1, 2]), interp=rng.choice(['cubic', 'cubic', 'linear', 'quadratic'])), 'fdat')
        elif k == 'fdat':
            op = rng.choice(['scale_fdata', 'normalize_fdata', 'phase_shift_fdata', 'phase_shift_fdata', 'fdat_to_dat'])
            if op == 'scale_fdata':
                add(dict(b, op=op, by=rng.choice([2, 0.5, rv(rng, lo=0.1), -1.5])))
            elif op == 'normalize_fdata':
                add(dict(b, op=op, by=rng.choice([1, 2.5, 7, -1])))
            elif op == 'phase_shift_fdata':
                add(dict(b, op=op, angle=rng.choice([10, -45.5, 400, 0, rv(rng)]),
                         units=rng.choice(['degrees', 'radians', 'RADIANS', 'turns'] if rng.random() < 0.3 else ['degrees', 'radians'])))
            else:
                add(dict(b, op=op, n=rng.choice([4, 7, 9])), 'dat')
        elif k == 'fform':
            op = rng.choice(['subs', 'subs', 'apply_phase_shift', 'apply_arbitrary_scale', 'fform_to_fdat',
                             'fform_to_dat', 'fform_to_form'])
            if op == 'subs':
                pr = [[n, gen_terms(rng, names, 1, deg=1, imag=False)] for n in rng.sample(names, rng.choice([1, len(names)]))]
                add(dict(b, op=op, pairs=pr, fuse=fuse, bad=fuse is None and rng.random() < 0.1))
            elif op == 'apply_phase_shift':
                add(dict(b, op=op, by=gen_terms(rng, names, 1, deg=1, imag=False), fuse=fuse))
            elif op == 'apply_arbitrary_scale':
                add(dict(b, op=op, by=gen_terms(rng, names, 1, deg=1), fuse=fuse))
            elif op == 'fform_to_fdat':
                add(dict(b, op=op, subs=all_subs), 'fdat')
            elif op == 'fform_to_dat':
                add(dict(b, op=op, subs=all_subs, n=rng.choice([5, 8])), 'dat')
            else:
                add(dict(b, op=op), 'form')
        else:
            op = rng.choice(['subs', 'apply_phase_shift', 'apply_arbitrary_scale', 'expand', 'expand', 'simplify',
                             'form_to_fform', 'form_to_fform', 'form_to_fdat', 'form_to_dat'])
            plain = any(s.get('out') == on and s['op'] == 'new' for s in steps) and not any(
                s.get('on') == on and s['op'] in ('apply_phase_shift', 'subs', 'simplify') for s in steps)
            if op == 'subs':
                pr = [[n, gen_terms(rng, names, 1, deg=1, imag=False)] for n in rng.sample(names, 1)]
                add(dict(b, op=op, pairs=pr, fuse=fuse, bad=fuse is None and rng.random() < 0.1))
            elif op == 'apply_phase_shift':
                add(dict(b, op=op, by=gen_terms(rng, names, 1, deg=1, imag=False)))
            elif op == 'apply_arbitrary_scale':
                add(dict(b, op=op, by=gen_terms(rng, names, 1, deg=1), fuse=fuse))
            elif op == 'expand':
                add(dict(b, op=op))
            elif op == 'simplify':
                if plain and rng.random() < 0.3:
                    add(dict(b, op=op))
            elif op == 'form_to_fform' and plain:
                add(dict(b, op=op, M=rng.choice([1, 3, 6])), 'fform')
            elif op == 'form_to_fdat' and plain:
                add(dict(b, op=op, M=rng.choice([1, 4]), subs=all_subs), 'fdat')
            elif op == 'form_to_dat' and plain:
                add(dict(b, op=op, subs=all_subs, n=rng.choice([5, 8])), 'dat')
    alive = []
    for st in steps:
        if st.get('out') and st['out'] not in alive:
            alive.append(st['out'])
        st['show'] = list(alive)
        if st['op'] == 'drop' and st['on'] in alive:
            alive.remove(st['on'])
    pr = []
    for _ in range(2):
        a = {n: rv(rng, 4) for n in SYMS}
        a['phi'] = rv(rng, 4)
        pr.append(a)
    return {'phases': [{'actors': [store.actor(rng, 'p', steps)]}], 'extra': {'probes': pr}}


def variants(rng, sc, out, tier):
    return
    yield


def probes(sc, out):
    p = {}
    failed = False
    for st, r in zip(sc['phases'][0]['actors'][0]['threads'][0], out.results[0].get('p.0', [])):
        if not r['ok']:
            continue
        if failed:
            p['after-failure'] = 1
        exc = r['v'].get('exc')
        if exc == 'Boom':
            p['failed-midway'] = failed = 1
        elif exc:
            p['failed-argument'] = failed = 1
        if st['op'] == 'new' and not exc:
            p['kind-' + st['kind']] = 1
        if st['op'] == 'copy':
            p['copied'] = 1
        if st['op'] == 'poke' or st.get('scribble'):
            p['scribbled'] = 1
        if st['op'] == 'merge' and not exc:
            p['merged'] = 1
        if '_to_' in st['op'] and not exc:
            p['converted'] = 1
    return p


def faults(sc, out):
    f = {}
    for st, r in zip(sc['phases'][0]['actors'][0]['threads'][0], out.results[0].get('p.0', [])):
        if r['ok'] and r['v'].get('exc') == 'Boom':
            k = 'use-fails@' + st['op']
            f[k] = f.get(k, 0) + 1
        elif r['ok'] and r['v'].get('exc'):
            k = 'refused-argument@' + st['op']
            f[k] = f.get(k, 0) + 1
    return f
