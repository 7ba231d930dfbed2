"""Steps on the in-memory containers, each reporting what is observable of
every container the process holds."""
import copy
import pickle

import numpy as np
import sympy as sp


class Boom(Exception):
    pass


class Fuse:
    """Lets n uses pass, then fails.  n None: never."""

    def __init__(self, n):
        self.n = n

    def burn(self):
        if self.n is not None:
            if self.n <= 0:
                raise Boom('injected')
            self.n -= 1


class BoomSeq(list):
    """A list of pairs whose iteration can fail."""

    def __init__(self, items, fuse):
        super().__init__(items)
        self.fuse = fuse

    def __iter__(self):
        self.fuse.burn()
        return super().__iter__()


class BoomFactor:
    """A factor whose multiplication can fail."""

    def __init__(self, v, fuse):
        self.v, self.fuse = v, fuse

    def __mul__(self, o):
        self.fuse.burn()
        return self.v * o

    def __rmul__(self, o):
        self.fuse.burn()
        return o * self.v

    __array_priority__ = 1e9
    __array_ufunc__ = None


def sym(n):
    from shgpy import shg_symbols as S
    return S.phi if n == 'phi' else sp.Symbol(n, real=True)


def expr(terms):
    """[[re, im, {name: power}, [[fn, name, mult], ...]], ...]"""
    e = sp.S.Zero
    for re, im, pw, fns in terms:
        t = sp.sympify(re) + (sp.I * sp.sympify(im) if im else 0)
        for n, p in pw.items():
            t = t * sym(n) ** p
        for fn, n, k, p in fns:
            t = t * getattr(sp, fn)(k * sym(n)) ** p
        e = e + t
    return e


def new(st):
    import shgpy
    k = st['kind']
    if k == 'dat':
        it = {}
        for pc, (x, y) in st['data'].items():
            a = np.array([x, y], dtype=st.get('dtype', 'float64'))
            if st.get('cols'):
                b = np.zeros((2, 2 * a.shape[1]), dtype=a.dtype)
                b[:, ::2] = a
                a = b[:, ::2]
            it[pc] = a
        kw = {'normal_to_oblique': True} if st.get('oblique') else {}
        src = it if not st.get('pairs') else list(it.items())
        return shgpy.DataContainer(src, st['units'], **kw), it
    if k == 'fdat':
        it = {pc: np.array([complex(*z) for z in v], dtype=st.get('dtype', 'complex128'))
              for pc, v in st['data'].items()}
        return shgpy.fDataContainer(it if not st.get('pairs') else list(it.items()), M=st['M']), it
    if k == 'fform':
        it = {}
        for pc, comps in st['data'].items():
            a = np.empty(len(comps), dtype=object)
            for i, t in enumerate(comps):
                a[i] = expr(t)
            it[pc] = a
        return shgpy.fFormContainer(it if not st.get('pairs') else list(it.items()), M=st['M']), it
    it = {pc: expr(t) for pc, t in st['data'].items()}
    return shgpy.FormContainer(it if not st.get('pairs') else list(it.items())), it


def poke(o):
    """Scribble over everything the getters hand out."""
    import shgpy
    outs = []
    if isinstance(o, shgpy.DataContainer):
        for u in ('radians', 'degrees'):
            outs += [o.get_pc(k, u) for k in o.get_keys()]
            outs += o.get_values(u)
            outs += [v for _, v in o.get_items(u)]
    elif isinstance(o, (shgpy.fDataContainer, shgpy.fFormContainer)):
        outs += [o.get_pc(k) for k in o.get_keys()]
        outs += o.get_values()
        outs += [v for _, v in o.get_items()]
    else:
        o.get_items().append(('ZZ', 0))
        o.get_values().append(0)
    for a in outs:
        a[...] = 77
    o.get_keys().append('ZZ')


def state(o, probes):
    """Everything the getters show, as plain data."""
    import shgpy
    if isinstance(o, shgpy.DataContainer):
        ks = o.get_keys()
        d = {'kind': 'dat', 'keys': ks, 'scale': o.get_scale(), 'offset': o.get_offset(),
             'ps': o.get_phase_shift('radians'), 'psd': o.get_phase_shift('degrees'),
             'rad': {k: o.get_pc(k, 'radians').tolist() for k in ks},
             'deg': {k: o.get_pc(k, 'degrees').tolist() for k in ks},
             'items': [[k, v.tolist()] for k, v in o.get_items('radians')],
             'ditems': [[k, v.tolist()] for k, v in o.get_items('degrees')],
             'values': [v.tolist() for v in o.get_values('radians')],
             'max': list(o.get_maxval()), 'min': list(o.get_minval()),
             'pcmax': {k: o.get_pc_maxval(k) for k in ks}, 'pcmin': {k: o.get_pc_minval(k) for k in ks}}
        df = o.as_pandas('degrees', index='none')
        d['pandas'] = [[k, df[df['POLARIZATION'] == k]['ANGLE'].tolist(),
                        df[df['POLARIZATION'] == k]['VALUE'].tolist()] for k in ks]
        mi = o.as_pandas('degrees')['VALUE']
        d['multi'] = [[k, mi[k].index.tolist(), mi[k].tolist()] for k in ks]
        return d
    if isinstance(o, shgpy.fDataContainer):
        ks = o.get_keys()
        df = o.as_pandas(index='none')
        mi = o.as_pandas()['VALUE']
        return {'multi': [[k, mi[k].index.tolist(), [complex(z) for z in mi[k]]] for k in ks], 'kind': 'fdat', 'keys': ks, 'M': o.get_M(), 'scale': o.get_scale(),
                'ps': o.get_phase_shift('radians'), 'psd': o.get_phase_shift('degrees'),
                'v': {k: [complex(z) for z in o.get_pc(k)] for k in ks},
                'items': [[k, [complex(z) for z in v]] for k, v in o.get_items()],
                'values': [[complex(z) for z in v] for v in o.get_values()],
                'max': [o.get_maxval()[0], float(o.get_maxval()[1])],
                'pcmax': {k: float(o.get_pc_maxval(k)) for k in ks},
                'pandas': [[k, df[df['POLARIZATION'] == k]['N'].tolist(),
                            [complex(z) for z in df[df['POLARIZATION'] == k]['VALUE']]] for k in ks]}

    def ev(e, pr):
        return complex(sp.sympify(e).xreplace({sym(n): sp.Float(v) for n, v in pr.items()}))
    ks = o.get_keys()
    d = {'keys': ks, 'syms': [str(s) for s in o.get_free_symbols()],
         'reals': [bool(s.is_real) for s in o.get_free_symbols()]}
    if isinstance(o, shgpy.fFormContainer):
        d.update(kind='fform', M=o.get_M(),
                 v={k: [[ev(e, pr) for e in o.get_pc(k)] for pr in probes] for k in ks},
                 items=[k for k, v in o.get_items()], nvalues=len(o.get_values()),
                 same=all(len(v) == len(o.get_pc(k)) and all(a == b for a, b in zip(v, o.get_pc(k)))
                          for k, v in o.get_items())
                 and all(all(a == b for a, b in zip(v, o.get_pc(k))) for k, v in zip(ks, o.get_values()))
                 and frames(o, {k: o.get_pc(k).tolist() for k in ks}, list(range(-o.get_M(), o.get_M() + 1))))
    else:
        d.update(kind='form', v={k: [ev(o.get_pc(k), pr) for pr in probes] for k in ks},
                 items=[k for k, v in o.get_items()], nvalues=len(o.get_values()),
                 same=all(v == o.get_pc(k) for k, v in o.get_items())
                 and all(v == o.get_pc(k) for k, v in zip(ks, o.get_values()))
                 and frames(o, {k: [o.get_pc(k)] for k in ks}, None))
    return d


def frames(o, want, ns):
    """Do both kinds of pandas frame hold what the getters show?"""
    a, b = o.as_pandas()['EXPRESSION'], o.as_pandas(index='none')
    if ns is None:
        return a.index.tolist() == list(want) and [[v] for v in a] == list(want.values()) \
            and b['POLARIZATION'].tolist() == list(want) and [[v] for v in b['EXPRESSION']] == list(want.values())
    return [k for k in a.index] == [(k, n) for k in want for n in ns] \
        and a.tolist() == sum(want.values(), []) and b['POLARIZATION'].tolist() == [k for k in want for n in ns] \
        and b['N'].tolist() == ns * len(want) and b['EXPRESSION'].tolist() == sum(want.values(), [])


def subs_dict(st):
    return {sym(n): v for n, v in st['subs'].items()}


def apply(s, st):
    import shgpy
    from shgpy.core import data_handler as dh
    op = st['op']
    V = s.vars
    fuse = Fuse(st.get('fuse'))
    if op == 'new':
        o, src = new(st)
        V[st['out']] = o
        if st.get('scribble'):
            for k in list(src):
                if isinstance(src[k], np.ndarray):
                    src[k][...] = 55
                else:
                    src[k] = sp.Integer(55)
            if isinstance(src, dict):
                src['ZZ'] = 1
        return
    if op == 'merge':
        def mapping(k, i):
            fuse.burn()
            return k + st['suffix'][i]
        V[st['out']] = shgpy.merge_containers([V[n] for n in st['from']], mapping)
        return
    if op in ('dat_add', 'dat_subtract'):
        V[st['out']] = getattr(shgpy, op)(V[st['from'][0]], V[st['from'][1]])
        return
    if op == 'drop':
        V.pop(st['on'], None)
        return
    o = V[st['on']]
    if op == 'copy':
        how = st['how']
        V[st['out']] = (o.copy() if how == 'copy' else copy.deepcopy(o) if how == 'deepcopy'
                        else pickle.loads(pickle.dumps(o)))
    elif op == 'poke':
        poke(o)
    elif op in ('scale_data', 'scale_fdata', 'normalize_data', 'normalize_fdata'):
        getattr(o, op)(st['by'])
    elif op == 'subtract_min':
        o.subtract_min()
    elif op in ('phase_shift_data', 'phase_shift_fdata'):
        getattr(o, op)(st['angle'], st['units'])
    elif op == 'filter':
        def flt(y, *a, **kw):
            if st.get('inplace'):
                y *= a[0]
                y += kw['c']
                fuse.burn()
                return y
            fuse.burn()
            r = a[0] * y + kw['c']
            if st.get('short'):
                r = r[:-1]
            return r
        o.filter(flt, st['b'], c=st['c'])
    elif op == 'subs':
        pairs = [(sym(n), expr(t)) for n, t in st['pairs']]
        if st.get('bad'):
            pairs.append((sym('bad'),))
        o.subs(BoomSeq(pairs, fuse) if st.get('fuse') is not None else pairs)
    elif op == 'apply_phase_shift':
        e = expr(st['by'])
        if st.get('fuse') is not None:
            e = BoomFactor(e, fuse)
        if st['kind'] == 'fform':
            o.apply_phase_shift(e)
        else:
            o.apply_phase_shift(expr(st['by']), sym('phi'))
    elif op == 'apply_arbitrary_scale':
        e = expr(st['by'])
        o.apply_arbitrary_scale(BoomFactor(e, fuse) if st.get('fuse') is not None else e)
    elif op == 'expand':
        o.expand()
    elif op == 'simplify':
        o.simplify()
    elif op in ('fform_to_fdat',):
        V[st['out']] = dh.fform_to_fdat(o, subs_dict(st))
    elif op == 'form_to_fdat':
        V[st['out']] = dh.form_to_fdat(o, subs_dict(st), M=st['M'])
    elif op == 'fdat_to_dat':
        V[st['out']] = dh.fdat_to_dat(o, st['n'])
    elif op in ('fform_to_dat', 'form_to_dat'):
        V[st['out']] = getattr(dh, op)(o, subs_dict(st), st['n'])
    elif op == 'dat_to_fdat':
        V[st['out']] = dh.dat_to_fdat(o, M=st['M'], interp_kind=st['interp'])
    elif op == 'fform_to_form':
        V[st['out']] = dh.fform_to_form(o)
    elif op == 'form_to_fform':
        V[st['out']] = dh.form_to_fform(o, M=st['M'])
    else:
        raise KeyError('op ' + op)


def do_cont(s, st):
    """One container operation; its own failure is part of the answer."""
    out = {}
    try:
        apply(s, st)
    except Exception as e:
        out['exc'] = type(e).__name__
        out['msg'] = str(e)[:200]
        e.__traceback__ = None
    names = st['show']
    out['state'] = {}
    for n in names:
        if n in s.vars:
            try:
                out['state'][n] = state(s.vars[n], s.prog['extra']['probes'])
            except Exception as e:
                out['state'][n] = {'kind': 'broken', 'exc': '%s: %s' % (type(e).__name__, str(e)[:200])}
    return out


# ------------------------------------------------------------- loading data
def prep_load(s, st):
    from sim.steps import path_of

    def names(d):
        return {k: path_of(s, p) for k, p in d.items()}
    kw = {}
    if st.get('oblique'):
        kw['normal_to_oblique'] = True
    a = [names(st['data']), st['units']]
    if st['fn'] == 'load_data_and_dark_subtract':
        a += [names(st['dark']), st['dunits']]
    if st['fn'] == 'load_data_and_fourier_transform':
        if st.get('dark'):
            kw.update(dark_filenames_dict=names(st['dark']), dark_angle_units=st['dunits'])
        for k in ('M', 'interp_kind', 'min_subtract', 'scale'):
            if k in st:
                kw[k] = st[k]
    if st['fn'] == 'read_csv':
        a = [list(a[0].values())[0]]
        kw = {'delimiter': st['delim']} if st.get('delim') else {}
    return a, kw


def do_load(s, st, p):
    import shgpy
    a, kw = p
    before = repr((a, sorted(kw.items(), key=str)))
    r = getattr(shgpy, st['fn'])(*a, **kw)
    out = {'same_args': repr((a, sorted(kw.items(), key=str))) == before}
    if st['fn'] == 'read_csv':
        out['csv'] = r.tolist()
    elif st['fn'] == 'load_data_and_fourier_transform':
        out['dat'], out['fdat'] = state(r[0], []), state(r[1], [])
    else:
        out['dat'] = state(r, [])
    return out
