"""Generated formulas do not depend on process, hash seed or history."""
import copy
import itertools

import numpy as np

from sim import store
from sim.forms import value

TRIALS = {'quick': 44, 'thorough': 6000}
RULE = ('Each trial derives formulas for 1-3 tensors or sets of tensors (every tabulated point group, dipole, magnetic '
        'dipole and quadrupole, and generated tensors with floating, rational, redundant and plain-number entries), '
        'made real or complex with default or own names, particularized (with exclusions, or over all indices), '
        'transformed, for numeric, exact and symbolic angles of incidence, then expanded, simplified, merged, Fourier '
        'transformed (M 1..16) and transformed back: alone; under other hash seeds; in other orders and after other '
        'generations, fits and failed calls in the same process; after an interrupted generation; and in threads '
        'switched between lines of the package.')
ASSUME = ['formulas are compared with the reference at two seeded points each, to 1e-8 of their size']
MUST = ['other-hash-seed', 'after-history', 'interrupted-before', 'threads', 'formgen', 'gen_S', 'just', 'dq', 'P', 'PQ',
        'fform', 'back', 'particularized', 'all-indices', 'complex', 'real', 'transformed', 'symbolic-theta', 'quadrupole',
        'magnetic', 'merged', 'simplified']
GROUPS = ['C_1', 'C_1h', 'C_2', 'C_2v', 'C_3', 'C_3h', 'C_3v', 'C_4', 'C_4v', 'C_6', 'C_6v', 'D_2', 'D_2d', 'D_3', 'D_3h',
          'D_4', 'D_6', 'O', 'S_4', 'T', 'T_d', 'O_h', 'C_2h']
QGROUPS = ['C_2v', 'D_2h', 'D_4', 'D_4h', 'Isotropic', 'O', 'O_h', 'T', 'T_d', 'D_3d', 'C_3v', 'D_6h']
NAMES = ['a', 'b', 'xxx', 'xyz', 'beta', 'S', 'lambda', 'chi_{1,2}', 'N', 'zzz']
NPTS = 2


def rotation(rng):
    q, _ = np.linalg.qr(np.array([[rng.gauss(0, 1) for _ in range(3)] for _ in range(3)]))
    return [[round(float(x), 6) for x in r] for r in q]


def tensor(rng, rank, size=2):
    """size: 0 few terms, 1 more, 2 everything"""
    t = {'rank': rank}
    ops = []
    if rng.random() < (0.5 if rank == 3 else 0.6):
        t['group'] = rng.choice(['C_2v', 'T_d', 'C_3h', 'D_3', 'D_3h', 'O', 'T', 'O_h'][:None if size else 3] if size < 2 else GROUPS) \
            if rank == 3 else rng.choice(QGROUPS)
        few = t['group'] in ('C_2v', 'T_d', 'C_3h', 'D_3', 'D_3h', 'O', 'T', 'O_h')
    else:
        names = rng.sample(NAMES, rng.choice([1, 2, 3]))
        t['entries'] = []
        base = rng.sample(list(itertools.product(range(3), repeat=rank)), rng.choice([1, 2, 2] if size == 0 or rank == 4 else [2, 3, 4]))
        seen = set()
        for ix in base:
            for jx in sorted({ix, ix[:-2] + (ix[-1], ix[-2])}) if rng.random() < 0.6 else [ix]:
                if jx in seen:
                    continue
                seen.add(jx)
                t['entries'].append([list(jx), [[rng.choice([1, -1, 2, 0.5, round(rng.uniform(-2, 2), 3)]), x]
                                                for x in rng.sample(names, min(rng.choice([1, 1, 2]), len(names)))]])
        t['entries'].sort()
        t['floats'] = rng.random() < 0.5
        if rng.random() < 0.3 and (0, 0, 0) not in seen and rank == 3:
            t['plain'] = 2
        few = len(seen) < 5
    u = rng.random()
    if u < 0.4 and not t.get('plain'):
        ops.append(['part', False, rng.choice([[], [], ['xxy', 'yxz', 'a'], ['b', 'xyz']])])
    elif u < 0.6 and rank == 3:
        ops.append(['part', True, []])
    v = rng.random()
    if v < 0.5 or rank == 4 or not few or size == 0:
        ops.append(['real'])
    elif v < 0.75:
        ops.append(['complex', ['r_', 'i_'], ['', '_1']])
    else:
        ops.append(['complex'])
    t['ops'] = ops
    return t


def job(rng, i, tag):
    u = (i + 3 * tag) % 10
    th = rng.choice([0.2, 0.0, 0.35, round(rng.uniform(0, 1.4), 3)])
    st = {'do': 'fgen', 'tag': tag, 'npts': NPTS}
    ts = {}
    if u < 2 or u == 9:
        st['gen'] = rng.choice(['formgen', 'formgen', 'gen_S', 'just'])
        ts['t_eee'] = tensor(rng, 3)
    elif u == 2:
        # exact and symbolic angles of incidence
        st['gen'] = rng.choice(['formgen', 'just', 'gen_S', 'P'])
        ts['t_eee'] = tensor(rng, 3, 0)
        th = rng.choice(['sym', 'sym', 'pi/18'])
    elif u == 3:
        st['gen'] = 'formgen'
        ts['t_mee'] = tensor(rng, 3, 0)
        if rng.random() < 0.5:
            ts['t_eee'] = tensor(rng, 3, 0)
    elif u == 4:
        st['gen'] = rng.choice(['formgen', 'gen_S'])
        ts['t_qee'] = tensor(rng, 4)
        if rng.random() < 0.4:
            ts['t_eee'] = tensor(rng, 3, 0)
    elif u == 5:
        st['gen'] = 'just'
        ts['t_eee'] = tensor(rng, 3, 1)
        if rng.random() < 0.4:
            ts['t_eee'] = {'rank': 3, 'entries': [[[0, 0, 1], [[1, 'a']]], [[2, 2, 2], [[-1, 'b']]]], 'floats': rng.random() < 0.5,
                           'ops': [['real']]}
    elif u == 6:
        st['gen'] = rng.choice(['dq', 'PQ'])
        ts['t_eee'], ts['t_qee'] = tensor(rng, 3, 0), tensor(rng, 4)
    elif u == 7:
        st['gen'] = 'P'
        ts['t_eee'] = tensor(rng, 3)
    else:
        st['gen'] = rng.choice(['gen_S', 'P', 'just'])
        ts['t_eee'] = tensor(rng, 3, 0)
        ts['t_eee']['ops'].append(['transform', rotation(rng)])
    st['theta'] = th
    st['tensors'] = ts
    if st['gen'] in ('formgen', 'just', 'dq', 'PQ'):
        st['post'] = rng.sample(['expand', 'merge'], rng.choice([0, 1]))
        if st['gen'] == 'just' and isinstance(th, float) and 'entries' in ts['t_eee'] and len(ts['t_eee']['entries']) < 3 and \
                len(ts['t_eee']['ops']) == 1 and rng.random() < 0.5:
            st['post'] = ['simplify']
        if rng.random() < 0.7 and u != 8:
            st['M'] = rng.choice([1, 4, 6, 8, 16])
            st['back'] = rng.random() < 0.5
    return st


def noise(rng):
    return {'do': 'call', 'what': rng.choice(['tensors', 'formgen', 'conversions', 'particularize_all', 'cost', 'fit', 'subs',
                                              'merge', 'scale_formula', 'phase_formula', 'load_form']),
            'rs': rng.getrandbits(40), 'noise': True}


def gen(rng, i, tier):
    jobs = [job(rng, i, n) for n in range(rng.choice([1, 2, 2]))]
    light = [j for j in jobs if 't_qee' not in j['tensors'] and 't_mee' not in j['tensors']]
    phases = [{'actors': [store.actor(rng, 'ref', copy.deepcopy(jobs), z=0)]}]
    for n in range(1, 3):
        steps = []
        js = copy.deepcopy(jobs)
        rng.shuffle(js)
        for j in js:
            for _ in range(rng.choice([0, 1, 2])):
                steps.append(noise(rng))
            if j in light and rng.random() < 0.5:
                steps.append(dict(copy.deepcopy(j), cut=True, lines=sorted(rng.sample(range(200), 8))))
            steps.append(j)
        phases.append({'actors': [store.actor(rng, 'h%d' % n, steps, z=n)]})
    if light and rng.random() < 0.5:
        th = [[dict(copy.deepcopy(j), lines=sorted(rng.sample(range(200), 15))) for j in light] for _ in range(2)]
        rng.shuffle(th[1])
        a = store.actor(rng, 't', [])
        a['threads'] = th
        phases.append({'actors': [a], 'sched': {'seed': rng.getrandbits(32), 'p': 0.4}})
    files = {'work/junk': 'junk'}
    return {'phases': phases, 'dirs': [], 'files': files, 'extra': {'vals': []}, 'forms': [], 'dats': []}


def variants(rng, sc, out, tier):
    cut = {(ph, 'h%d.0' % ph, i) for ph in (1, 2) for i, st in enumerate(sc['phases'][ph]['actors'][0]['threads'][0])
           if st.get('cut')} if len(sc['phases']) > 2 else set()
    fs = []
    for w in sorted(cut):
        fs += store.aim(rng, out, ['int'], 1, steps={w}, prefer=lambda e: e[4] == 'line')
    if fs:
        c = copy.deepcopy(sc)
        # only the processes with the interruptions
        c['faults'] = fs
        yield c


# ----------------------------------------------------------------- reference
EPS = np.zeros((3, 3, 3))
for _p, _s in (((0, 1, 2), 1), ((1, 2, 0), 1), ((2, 0, 1), 1), ((1, 0, 2), -1), ((0, 2, 1), -1), ((2, 1, 0), -1)):
    EPS[_p] = _s


def matrix(l):
    z = np.array([complex(*x) for x in l['zero']])
    return z, (np.array([[complex(*x) for x in c] for c in l['cols']]).reshape(len(l['names']), len(z)) - z).T


def check_part(rank, everything, before, after):
    """Is the result the part of the tensor that has the symmetry?"""
    n = 3 ** rank
    z, A = matrix(before)
    z2, B = matrix(after)
    if not set(after['names']) <= set(before['names']):
        return 'it has parameters %s the tensor has not' % (set(after['names']) - set(before['names']))
    idx = np.arange(n).reshape((3,) * rank)
    perms = [p for p in itertools.permutations(range(rank))] if everything else [tuple(range(rank - 2)) + (rank - 1, rank - 2)]
    D = np.concatenate([np.eye(n)[idx.transpose(p).ravel()] - np.eye(n) for p in perms])
    if np.abs(D @ z2).max() > 1e-9 or (B.size and np.abs(D @ B).max() > 1e-9 * (1 + np.abs(B).max())):
        return 'it is not symmetric'
    if np.abs(z2 - z).max() > 1e-9:
        return 'its constants changed'
    if A.shape[1]:
        u, s, vh = np.linalg.svd(D @ A)
        r = int((s > 1e-9).sum())
        S = A @ vh[r:].conj().T
    else:
        S = np.zeros((n, 0))
    rk = lambda m: int(np.linalg.matrix_rank(m, tol=1e-8)) if m.size else 0
    if not rk(B) == rk(S) == rk(np.concatenate([B, S], axis=1)):
        return 'it has %d independent parts, the symmetric part of the tensor %d' % (rk(B), rk(S))


def expected(sp, v, pt):
    """The tensor after its preparation, at a point."""
    l = v['part'][-1][2] if v['part'] else v['lin']
    z, A = matrix(l)
    ops = [o for o in sp['ops'] if o[0] != 'part']
    val = lambda n: value(n, pt)
    for o in ops:
        if o[0] == 'complex':
            pre, suf = (o[1], o[2]) if len(o) > 1 else (['real_', 'imag_'], ['', ''])
            val = lambda n: value(pre[0] + n + suf[0], pt) + 1j * value(pre[1] + n + suf[1], pt)
    t = (z + A @ np.array([val(n) for n in l['names']])).reshape((3,) * sp['rank'])
    for o in ops:
        if o[0] == 'transform':
            R = np.array(o[1])
            t = np.einsum('ai,bj,ck,ijk->abc', R, R, R, t)
    return t


def vectors(ts, theta, phi):
    """P and Q parts of the emitted field for P and S polarized light."""
    c, s = np.cos(theta), np.sin(theta)
    kin, kout = np.array([s, 0, c]), np.array([s, 0, -c])
    R = np.array([[np.cos(phi), -np.sin(phi), 0], [np.sin(phi), np.cos(phi), 0], [0, 0, 1]])
    out = []
    for F in (np.array([-c, 0, s]), np.array([0, 1, 0])):
        P, Q = np.zeros(3, complex), np.zeros(3, complex)
        if 't_eee' in ts:
            P += np.einsum('ia,jb,kc,abc,j,k->i', R, R, R, ts['t_eee'], F, F, optimize=True)
        if 't_mee' in ts:
            r = np.einsum('ia,jb,kc,abc->ijk', R, R, R, ts['t_mee'], optimize=True)
            P += np.einsum('ijk,j,klm,l,m->i', EPS, kin, r, F, F, optimize=True)
        if 't_qee' in ts:
            Q += np.einsum('ia,jb,kc,ld,abcd,j,k,l->i', R, R, R, R, ts['t_qee'], kin, F, F, optimize=True)
        out.append((P - kout.dot(P) * kout, Q - kout.dot(Q) * kout))
    return out


def intensities(ts, theta, phi):
    (Pp, Qp), (Ps, Qs) = vectors(ts, theta, phi)
    Sp, Ss = Pp + 1j * Qp, Ps + 1j * Qs
    a = lambda z: abs(z) ** 2
    return {'PP': a(Sp[0]) + a(Sp[2]), 'PS': a(Sp[1]), 'SP': a(Ss[0]) + a(Ss[2]), 'SS': a(Ss[1])}


def off(got, ref, scale, tol=1e-8):
    g = np.array([complex(*x) for x in got])
    r = np.asarray(ref)
    return g.shape != r.shape or not np.all(np.abs(g - r) <= tol * (1 + scale))


def check_job(st, v):
    ts = st['tensors']
    syms = {n for p in v['pre'].values() for n, _ in p['syms']}
    for name, p in v['pre'].items():
        for everything, before, after in p['part']:
            m = check_part(ts[name]['rank'], everything, before, after)
            if m:
                return 'particularize %s: %s' % (name, m)
        for pt in range(NPTS):
            t = expected(ts[name], p, pt)
            if off(p['vals'][pt], t.ravel(), np.abs(t).max()):
                return 'the prepared tensor %s is wrong: %s' % (name, p['syms'])
        if any(['real', True] not in k for n, k in p['syms']):
            return 'the prepared tensor %s has parameters that are not real: %s' % (name, p['syms'])
    allowed = syms | {'phi'} | ({'theta'} if st['theta'] == 'sym' else set())
    for k in ('form', 'fform', 'back'):
        if k in v:
            if not {n for n, _ in v[k]['syms']} <= allowed - ({'phi'} if k == 'fform' else set()):
                return 'the %s has other symbols, %s, than its tensors, %s' % (k, v[k]['syms'], sorted(allowed))
            if sorted(n for n, _ in v[k]['syms']) != v[k]['free']:
                return 'get_free_symbols of the %s gives %s, it has %s' % (k, v[k]['free'], v[k]['syms'])
    keys = ['PP', 'PS', 'SP', 'SS']
    if 'merge' in st.get('post', []):
        keys = keys + ['PPPP', 'PSPS', 'SPSP', 'SSSS']
    for pt in range(NPTS):
        T = {n: expected(ts[n], p, pt) for n, p in v['pre'].items()}
        th = value('theta', pt) if st['theta'] == 'sym' else np.pi / 18 if st['theta'] == 'pi/18' else st['theta']
        phi = value('phi', pt)
        scale = (1 + sum(np.abs(t).sum() for t in T.values())) ** 2
        if 'vec' in v:
            vv = vectors(T, th, phi)
            for a, (P, Q) in zip(v['vec'], vv):
                if off(a['vals'][pt], P + 1j * Q, scale):
                    return '%s gives %s, reference %s' % (st['gen'], a['vals'][pt], P + 1j * Q)
        if 'PQ' in v:
            (Pp, Qp), (Ps, Qs) = vectors(T, th, phi)
            for a, r in zip(v['PQ'], (Pp, Ps, Qp, Qs)):
                if off(a['vals'][pt], r, scale):
                    return '%s gives %s, reference %s' % (st['gen'], a['vals'][pt], r)
        if 'form' not in v:
            continue
        ref = intensities(T, th, phi)
        if sorted(v['form']['keys']) != sorted(keys):
            return 'the formula has the keys %s' % v['form']['keys']
        for k in keys:
            if off(v['form']['vals'][k][pt], [ref[k[:2]]], scale):
                return 'the %s formula of %s gives %s, reference %s' % (k, st['gen'], v['form']['vals'][k][pt], ref[k[:2]])
        if 'fform' in v:
            M, N = st['M'], 64
            grid = [intensities(T, th, 2 * np.pi * q / N) for q in range(N)]
            if v['M'] != M or sorted(v['fform']['keys']) != sorted(keys):
                return 'the Fourier formula has M %s and keys %s' % (v['M'], v['fform']['keys'])
            for k in keys:
                c = np.fft.fft([g[k[:2]] for g in grid]) / N
                c = np.array([c[n % N] for n in range(-M, M + 1)])
                if off(v['fform']['vals'][k][pt], c, scale, 1e-6):
                    return 'the %s Fourier formula gives %s, reference %s' % (k, v['fform']['vals'][k][pt], c)
                if 'back' in v:
                    b = sum(c[n + M] * np.exp(1j * n * phi) for n in range(-M, M + 1))
                    if off(v['back']['vals'][k][pt], [b], scale * (M + 1), 1e-6):
                        return 'the %s formula transformed back gives %s, reference %s' % (k, v['back']['vals'][k][pt], b)


def judge(sc, out):
    vs = store.judge_deaths(sc, out)
    first = {}
    for ph, phase in enumerate(sc['phases']):
        for a in phase['actors']:
            for ti, th in enumerate(a['threads']):
                tid = '%s.%d' % (a['id'], ti)
                for i, (st, r) in enumerate(zip(th, out.results[ph].get(tid, []))):
                    if st['do'] != 'fgen' or r.get('skip'):
                        continue
                    where = 'step %d of %s, phase %d, hash seed %s' % (i, tid, ph, a['z'])
                    if not r['ok']:
                        if (ph, tid, i) not in out.hit:
                            vs.append({'cls': 'failed', 'fp': 'failed-' + st['gen'], 'msg': '%s failed (%s): %s: %s (%s)' % (
                                st['gen'], where, r['exc'], r['msg'][:300], r.get('tb'))})
                        continue
                    m = check_job(st, r['v'])
                    if m:
                        vs.append({'cls': 'wrong', 'fp': 'wrong-' + st['gen'], 'msg': '%s (%s)' % (m[:700], where)})
                    s = {k: r['v'][k]['syms'] for k in ('form', 'fform', 'back') if k in r['v']}
                    if first.setdefault(st['tag'], (s, where))[0] != s:
                        vs.append({'cls': 'symbols', 'fp': 'symbols-' + st['gen'], 'msg': '%s has the symbols %s (%s) but %s (%s)'
                                   % (st['gen'], s, where, *first[st['tag']])})
    return vs


def probes(sc, out):
    p = {}
    for ph, phase in enumerate(sc['phases']):
        for a in phase['actors']:
            for ti, th in enumerate(a['threads']):
                tid = '%s.%d' % (a['id'], ti)
                seen = cut = False
                for i, (st, r) in enumerate(zip(th, out.results[ph].get(tid, []))):
                    if st.get('cut') and not r['ok']:
                        cut = True
                    if st['do'] == 'fgen' and r['ok']:
                        p[st['gen']] = 1
                        for k in ('fform', 'back'):
                            if k in r['v']:
                                p[k] = 1
                        if a['z']:
                            p['other-hash-seed'] = 1
                        if seen:
                            p['after-history'] = 1
                        if cut:
                            p['interrupted-before'] = 1
                        if len(a['threads']) > 1 and out.switches[ph]:
                            p['threads'] = 1
                        if st['theta'] == 'sym':
                            p['symbolic-theta'] = 1
                        for q, n in (('merge', 'merged'), ('simplify', 'simplified')):
                            if q in st.get('post', []):
                                p[n] = 1
                        for n, t in st['tensors'].items():
                            if n == 't_mee':
                                p['magnetic'] = 1
                            if n == 't_qee':
                                p['quadrupole'] = 1
                            for o in t['ops']:
                                p[{'part': 'particularized', 'transform': 'transformed'}.get(o[0], o[0])] = 1
                                if o[0] == 'part' and o[1]:
                                    p['all-indices'] = 1
                    seen = True
    return p
