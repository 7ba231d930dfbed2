"""Uncontracted Fourier transform sets: used whole or refused; contracted right."""
import copy

import numpy as np

from sim import store
from sim.forms import value
from sim.ufts import AOI, TENSORS

TRIALS = {'quick': 48, 'thorough': 900}
WARM = ('uft',)
RULE = ('Each trial generates one or two uncontracted Fourier transform sets on a prefix (angle of incidence 0.3, 0.7 '
        'or symbolic), contracts them with real or complex tensors in the same or another process, and loads the '
        'result; it is re-run with faults (kill, torn write then kill, SIGINT, I/O error, disk full) aimed at the '
        'generation or the contraction, or with a file of the set lost or torn, or with another number of frequencies. '
        'Every contraction must give the formula of one complete set, by an independent numerical evaluation, or raise.')
ASSUME = ['process crash, not power loss: completed system calls survive',
          'no contraction overlaps a generation of the same set',
          'sets have M=1, where frequencies above M are dropped from every intermediate product (known finding '
          'few-frequencies); thorough also generates and contracts a set with M=8, which drops none',
          'pure functions of expression arrays are memoised across runs, from a first run of the real code']
MUST = ['old-set-used', 'new-set-used', 'refused', 'failed-generation', 'killed-generation']
NPTS = 2
PCS = ['PP', 'PS', 'SP', 'SS']


def gen(rng, i, tier):
    pre = rng.choice(['work/u', 'work/uft.10', 'work/a b', 'work/sub/uft', 'work/u_pp'])

    def uft(aoi, M=1, p=pre):
        return {'do': 'uft', 'prefix': {'p': p, 'as': rng.choice(['str', 'rel'])}, 'aoi': aoi, 'M': M}

    def cft(t='real', M=1, nd=None, p=pre, out='work/c.p'):
        return {'do': 'cft', 'prefix': {'p': p, 'as': rng.choice(['str', 'rel'])}, 'tensors': TENSORS[t],
                'path': store.path_spec(rng, out), 'M': M, 'nd': nd}

    def rdf(out='work/c.p'):
        return {'do': 'rdf', 'path': store.path_spec(rng, out)}
    if tier == 'thorough' and i == 0:
        return {'phases': [{'actors': [store.actor(rng, 'x', [uft(0.3, 8), cft('real', 8), rdf(), cft('real', 1), rdf()])]}],
                'what': 'exact', 'dirs': ['work/sub']}
    what = {0: 'few', 1: 'complex', 2: 'symbolic', 3: 'symbolic_over'}.get(i) or rng.choice(['over', 'over', 'over', 'over', 'first', 'contract', 'contract', 'tear', 'tear',
                                            'frequencies', 'frequencies', 'kinds', 'kinds', 'pair'])
    ph = []
    aim = []
    add = lambda *st, **k: ph.append({'actors': [store.actor(rng, 'p%d' % len(ph), list(st), **k)]})
    if what == 'few':
        add(uft(0.3), cft('real'), rdf())
    elif what == 'complex':
        add(uft(0.3), cft('complex'), rdf())
    elif what == 'symbolic':
        add(uft('sym'), cft(), rdf())
    elif what == 'symbolic_over':
        aim = [[1, 'p1.0', 0]]
        add(uft(0.7))
        add(uft('sym'))
        add(cft(), rdf())
    elif what == 'over':
        a, b = rng.sample(AOI, 2)
        add(uft(a))
        aim = [[1, 'p1.0', 0]]
        if rng.random() < 0.5:
            add(uft(b))
            add(cft(), rdf())
        else:
            add(uft(b), cft(), rdf())
        if rng.random() < 0.5:
            add(cft(out='work/d.p'), rdf('work/d.p'))
    elif what == 'first':
        aim = [[0, 'p0.0', 0]]
        add(uft(rng.choice(AOI)))
        add(cft(), rdf())
    elif what == 'contract':
        a, b = rng.sample(AOI, 2)
        add(uft(a, p='work/v'), uft(b))
        add(cft(p='work/v'), rdf())
        aim = [[2, 'p2.0', 0]]
        add(cft())
        add(rdf())
    elif what == 'tear':
        a, b = rng.sample(AOI, 2)
        add(uft(a, p='work/v'), uft(a))
        add(cft(p='work/v'), rdf())
        aim = [[2, 'p2.0', 1]]
        add({'do': 'tear', 'path': '%s_%s.npy' % (pre, rng.choice(['pp', 'ps', 'sp', 'ss'])),
             'keep': rng.choice([None, None, 0.0, 0.01, 0.5, 0.9, 0.999])}, cft())
        add(rdf())
        if rng.random() < 0.5:
            add(uft(b), cft(), rdf())
    elif what == 'frequencies':
        aim = [[0, 'p0.0', 1]]
        add(uft(rng.choice(AOI)), cft(M=rng.choice([0, 0, 0, 2, 3, 16, None])))
        add(rdf())
    elif what == 'kinds':
        aim = [[0, 'p0.0', 1]]
        k = rng.choice(['round', 'loose', 'loose_q'])
        if k == 'round':
            add(uft(0.3), cft(nd=rng.choice([3, 5])))
        else:
            t = copy.deepcopy(TENSORS['real'])
            del t['d' if k == 'loose' else 'q']['real']
            st = cft()
            st['tensors'] = t
            st['refuse'] = True
            add(uft(0.3), st)
        add(rdf())
    else:
        add(uft(0.3, p='work/u1'), cft(p='work/u1', out='work/1.p'), rdf('work/1.p'))
        b = store.actor(rng, 'q', [uft(0.7, p='work/u2'), cft(p='work/u2', out='work/2.p'), rdf('work/2.p')])
        ph[0]['actors'].append(b)
        ph[0]['sched'] = {'p': rng.choice([0.1, 0.5])}
    return {'phases': ph, 'what': what, 'aim': aim, 'dirs': ['work/sub']}


def variants(rng, sc, out, tier):
    aim = {tuple(x) for x in sc.get('aim', [])}
    if not aim:
        return
    for _ in range(1 if sc['what'] == 'symbolic_over' else 6 if sc['what'] in ('over', 'first') else 3):
        fs = store.aim(rng, out, rng.choice([['kill'], ['kill'], ['err'], ['err', 'full'], ['int'], ['kill', 'err', 'full', 'int']]),
                       rng.choice([1, 1, 1, 2]), steps=aim)
        if fs:
            c = copy.deepcopy(sc)
            c['faults'] = fs
            yield c


# -------------------------------------------------------------- the reference
def numeric(spec, pt):
    out = []
    for k in ('d', 'q'):
        s = spec[k]
        t = np.zeros((3,) * s['rank'], complex)
        cplx = any(o[0] == 'complex' for o in s.get('ops', []))
        for ix, terms in s['entries']:
            for c, n in terms:
                t[tuple(ix)] += c * (value('real_' + n, pt) + 1j * value('imag_' + n, pt) if cplx else value(n, pt))
        out.append(t)
    return out


def optics(theta):
    s, c = np.sin(theta), np.cos(theta)
    kin, kout = np.array([-s, 0, c]), np.array([-s, 0, -c])
    proj = np.eye(3) - np.outer(kout, kout)
    rows = {'P': np.array([proj[0], 0 * proj[1], proj[2]]), 'S': np.array([0 * proj[0], proj[1], 0 * proj[2]])}
    return kin, rows, {'P': np.array([c, 0, s]), 'S': np.array([0, -1, 0])}


def whole(theta, d, q, pc, M):
    """Fourier components of the intensity itself."""
    kin, rows, F = optics(theta)
    N = 64
    g = []
    for j in range(N):
        c, s = np.cos(2 * np.pi * j / N), np.sin(2 * np.pi * j / N)
        R = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])
        f, k, o = R.T @ F[pc[0]], R.T @ kin, rows[pc[1]] @ R
        A = np.einsum('il,lbc,b,c->i', o, d, f, f) + 1j * np.einsum('il,lfbc,f,b,c->i', o, q, k, f, f)
        g.append((np.abs(A) ** 2).sum())
    z = np.fft.fft(g) / N
    return np.array([z[m % N] for m in range(-M, M + 1)])


def conv(a, b, spec, M):
    out = None
    for n in range(-M, M + 1):
        for m in range(-M, M + 1):
            if -M <= n - m <= M:
                p = np.einsum(spec, a[m + M], b[n - m + M])
                if out is None:
                    out = np.zeros((2 * M + 1,) + p.shape, complex)
                out[n + M] += p
    return out


def clipped(theta, d, q, pc, M):
    """The same with every product cut to frequencies up to M."""
    kin, rows, F = optics(theta)
    rR = np.zeros((2 * M + 1, 3, 3), complex)
    rR[M] = np.diag([0, 0, 1])
    rR[M - 1] = np.array([[0.5, -0.5j, 0], [0.5j, 0.5, 0], [0, 0, 0]])
    rR[M + 1] = rR[M - 1].conj()
    h1 = np.einsum('ij,mjl->mil', rows[pc[1]], rR)
    h = conv(h1, h1, 'il,iL->lL', M)
    f = np.einsum('mab,a->mb', rR, F[pc[0]])
    for _ in range(4):
        h = conv(h, f, '...,b->...b', M)
    k = np.einsum('mab,a->mb', rR, -1j * kin)
    hk = conv(h, k, '...,b->...b', M)
    hkk = conv(hk, -k, '...,b->...b', M)
    dc, qc = d.conj(), q.conj()
    return (np.einsum('mlLbcde,lbc,Lde->m', h, d, dc, optimize=True)
            + np.einsum('mlLbcdef,lbc,Lfde->m', hk, d, qc, optimize=True)
            - np.einsum('mlLbcdef,lfbc,Lde->m', hk, q, dc, optimize=True)
            + np.einsum('mlLbcdefg,lfbc,Lgde->m', hkk, q, qc, optimize=True))


def references(st, val, which):
    """val: (aoi, M of the set).  {pc: [points][components]}"""
    aoi, Ms = val
    M = Ms if st['M'] is None else st['M']
    out = {}
    for pc in PCS:
        out[pc] = []
        for pt in range(NPTS):
            th = value('theta', pt) if aoi == 'sym' else aoi
            d, q = numeric(st['tensors'], pt)
            if which == 'whole':
                out[pc].append(whole(th, d, q, pc, M))
            else:
                z = clipped(th, d, q, pc, Ms)
                out[pc].append(z[Ms - M:Ms + M + 1])
    return out


def names(st, val):
    ns = set()
    for k in ('d', 'q'):
        s = st['tensors'][k]
        cplx = any(o[0] == 'complex' for o in s.get('ops', []))
        for _, terms in s['entries']:
            for _, n in terms:
                ns |= {'real_' + n, 'imag_' + n} if cplx else {n}
    return ns | ({'theta'} if val[0] == 'sym' else set())


def same(v, st, val, which):
    M = val[1] if st['M'] is None else st['M']
    if v['M'] != M or v['keys'] != PCS:
        return False
    if not {n for n, _ in v['syms']} <= names(st, val) or any(['real', True] not in k for _, k in v['syms']):
        return False
    tol = 1e-9 if st['nd'] is None else 400 * 10.0 ** -st['nd']
    ref = references(st, val, which)
    for pc in PCS:
        for pt in range(NPTS):
            g = np.array([complex(*x) for x in v['vals'][pc][pt]])
            r = ref[pc][pt]
            if g.shape != r.shape or not np.all(np.abs(g - r) <= tol * (1 + np.abs(r).max())):
                return False
    return True


CACHE = {}


def matches(v, st, val, which):
    import json
    k = json.dumps([v, st['tensors'], st['M'], st['nd'], val, which])
    if k not in CACHE:
        if len(CACHE) > 500:
            CACHE.clear()
        CACHE[k] = same(v, st, val, which)
    return CACHE[k]


def right(v, st, val):
    return matches(v, st, val, 'whole') or (val[1] < 8 and matches(v, st, val, 'clipped'))


def runs(sc, out):
    """Steps in the order they ran; None for one that a kill cut off."""
    for ph, phase in enumerate(sc['phases']):
        for a in phase['actors']:
            for ti, th in enumerate(a['threads']):
                tid = '%s.%d' % (a['id'], ti)
                res = out.results[ph].get(tid, [])
                infl = out.inflight[ph].get(tid)
                for i, st in enumerate(th):
                    if i < len(res):
                        yield (ph, tid, i), st, res[i]
                    elif infl and infl['i'] == i and infl['started']:
                        yield (ph, tid, i), st, None


def judge(sc, out):
    vs = store.judge_deaths(sc, out)
    sets, files = {}, {}        # what may be there; None: nothing usable

    def bad(cls, msg):
        vs.append({'cls': cls, 'fp': cls, 'msg': msg})

    for where, st, r in runs(sc, out):
        ok = r is not None and r['ok']
        hit = where in out.hit or r is None
        how = 'killed' if r is None else 'ok' if ok else '%s: %s' % (r['exc'], r['msg'][:150])
        if st['do'] == 'uft':
            p = st['prefix']['p']
            v = (st['aoi'], 16 if st['M'] is None else st['M'])
            old = sets.get(p, {None})
            sets[p] = {v} if ok else old | {v, None}
            if not ok and not hit:
                bad('generation-failed', 'generating %s failed with nothing wrong underneath: %s' % (p, how))
        elif st['do'] == 'tear':
            sets[st['path'].rsplit('_', 1)[0]] = {None}
        elif st['do'] == 'cft':
            may = sets.get(st['prefix']['p'], {None})
            M = 16 if st['M'] is None else st['M']
            st = dict(st, M=M)
            new = {(st['prefix']['p'], s) for s in may if s is not None and M <= s[1] and not st.get('refuse')}
            must = None in may or st.get('refuse') or any(s is not None and M > s[1] for s in may)
            f = ppath = store.ppath(st['path'])
            old = files.get(f, [None])
            now = [(st, s) for _, s in sorted(new, key=str)]
            if ok:
                if not now:
                    bad('not-refused', 'contracting %s with M=%s succeeded although %s' % (
                        st['prefix']['p'], M, 'its tensors have parameters not known to be real' if st.get('refuse') else
                        'the set there is missing or torn' if may == {None} else 'the set has fewer frequencies'))
                    now = [('?', None)]
                files[f] = now
            else:
                files[f] = old + now
                if not hit and not must:
                    bad('contraction-failed', 'contracting %s failed with nothing wrong underneath: %s (%s)' % (
                        st['prefix']['p'], how, r.get('tb')))
        elif st['do'] == 'rdf':
            f = store.ppath(st['path'])
            may = files.get(f, [None])
            if any(m and m[0] == '?' for m in may):
                continue
            if ok:
                fit = [m for m in may if m and right(r['v'], m[0], m[1])]
                if not fit:
                    bad('wrong-formula', 'the formula loaded from %s is none of those of %s: %s' % (
                        f, [(m[1], m[0]['M']) for m in may if m], str(r['v']['vals'])[:300]))
                elif sc['what'] in ('few', 'exact') and not matches(r['v'], fit[0][0], fit[0][1], 'whole'):
                    bad('few-frequencies', 'the formula of a set with M=%d is not the Fourier series of the intensity' % fit[0][1][1])
            elif not hit and None not in may:
                bad('lost-formula', 'loading %s failed although a contraction completed: %s' % (f, how))
    return vs


def probes(sc, out):
    p = {'what-' + sc['what']: 1}
    gens = []
    for where, st, r in runs(sc, out):
        if st['do'] == 'uft':
            gens.append(r)
            if r is None:
                p['killed-generation'] = 1
            elif not r['ok']:
                p['failed-generation'] = 1
        elif st['do'] == 'cft' and r is not None:
            if not r['ok'] and where not in out.hit:
                p['refused'] = 1
            if r['ok'] and sc['what'] == 'over':
                bad = gens[-1] is None or not gens[-1]['ok']
                p['old-set-used' if bad else 'new-set-used'] = 1
    return p
