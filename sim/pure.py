"""Calls of every public function with watched arguments and process state."""
import decimal
import functools
import gc
import inspect
import io
import itertools
import locale
import logging
import os
import random
import re
import resource
import signal
import sys
import threading
import types
import warnings
from pathlib import Path, PurePath

import numpy as np
import sympy as sp

from sim.cont import Boom, Fuse


# ------------------------------------------------------------- fingerprints
_memo = {}


def srepr(e):
    k = id(e)
    if k not in _memo or _memo[k][0] is not e:
        _memo[k] = (e, sp.srepr(e) + (repr(sorted(e.assumptions0.items())) if e.is_Symbol else ''))
    return _memo[k][1]


def fp(o, deep=0):
    if deep > 12:
        return '...'
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ['nd', 'O', o.shape, bool(o.flags.writeable), [fp(x, deep + 1) for x in o.flat]]
        return ['nd', o.dtype.str, o.shape, o.strides, bool(o.flags.writeable), o.tobytes().hex()]
    if isinstance(o, sp.Basic):
        return srepr(o)
    if isinstance(o, dict):
        return [type(o).__name__, [[fp(k, deep + 1), fp(v, deep + 1)] for k, v in o.items()]]
    if isinstance(o, (list, tuple)):
        return [type(o).__name__, [fp(v, deep + 1) for v in o]]
    if isinstance(o, (set, frozenset)):
        return [type(o).__name__, sorted(repr(fp(v, deep + 1)) for v in o)]
    if isinstance(o, (str, bytes, int, float, complex, bool, type(None), np.generic, PurePath)):
        return [type(o).__name__, repr(o)]
    if isinstance(o, (types.FunctionType, types.MethodType, types.BuiltinFunctionType, type, functools.partial)):
        return ['fn', id(o)]
    if isinstance(o, np.random.RandomState):
        return ['rs', fp(o.get_state(), deep + 1)]
    if hasattr(o, '__dict__'):
        return [type(o).__name__, fp(dict(o.__dict__), deep + 1)]
    return [type(o).__name__, id(o)]


def tables():
    """Module-level state of the package that its users read."""
    import shgpy
    import shgpy.fformfit
    import shgpy.fformgen
    import shgpy.formgen
    import shgpy.plotter
    import shgpy.shg_symbols
    import shgpy.tensor_definitions
    from shgpy.core import _fourier_transform, data_handler, utilities
    out = {}
    for m in (shgpy, shgpy.core, utilities, data_handler, _fourier_transform, shgpy.fformfit, shgpy.fformgen, shgpy.formgen,
              shgpy.plotter, shgpy.shg_symbols, shgpy.tensor_definitions):
        for n, v in list(vars(m).items()):
            if n.startswith('__'):
                continue
            k = m.__name__ + '.' + n
            if isinstance(v, types.FunctionType):
                if getattr(v, '__module__', '').startswith('shgpy'):
                    try:
                        u = inspect.unwrap(v)
                    except ValueError:
                        u = v
                    out[k] = [id(v), fp(u.__defaults__), fp(u.__kwdefaults__)]
            elif isinstance(v, types.ModuleType) or isinstance(v, type):
                out[k] = id(v)
            elif not n.startswith('_'):
                out[k] = fp(v)
    return out


_seeds = []


def reseeds():
    """sympy draws from the generator of the random module, so that its state moves; nobody may set it."""
    if not _seeds:
        _seeds.append(0)
        for n in ('seed', 'setstate'):
            def wrap(*a, _f=getattr(random, n), **k):
                _seeds[0] += 1
                return _f(*a, **k)
            setattr(random, n, wrap)
    return _seeds[0]


def umask():
    with open('/proc/self/status') as fh:
        for l in fh:
            if l.startswith('Umask'):
                return l.split()[1]


def process():
    """What everything else in the process relies on."""
    d = {
        'cwd': os.getcwd(), 'environ': dict(os.environ), 'umask': umask(), 'path': list(sys.path),
        'recursionlimit': sys.getrecursionlimit(), 'switchinterval': sys.getswitchinterval(),
        'streams': [id(sys.stdin), id(sys.stdout), id(sys.stderr)],
        'hooks': [id(sys.excepthook), id(threading.excepthook), id(sys.displayhook)],
        'meta': [id(x) for x in sys.meta_path] + [id(x) for x in sys.path_hooks],
        'geterr': np.geterr(), 'geterrcall': repr(np.geterrcall()),
        'print': {k: v for k, v in np.get_printoptions().items() if k != 'formatter'},
        'filters': [repr(f) for f in warnings.filters], 'showwarning': id(warnings.showwarning),
        'random': reseeds(), 'nprandom': fp(np.random.get_state()),
        'locale': locale.setlocale(locale.LC_ALL), 'decimal': repr(decimal.getcontext()),
        'gc': [gc.isenabled(), gc.get_threshold()], 'threads': sorted(t.name for t in threading.enumerate() if 'body' not in t.name),
        'limits': [resource.getrlimit(r) for r in (resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_AS, resource.RLIMIT_CPU)],
        'nice': os.nice(0), 'timer': signal.getitimer(signal.ITIMER_REAL)[1],
        'logging': {**{n: [l.level, l.disabled, l.propagate, len(l.handlers), len(l.filters)] for n, l in
                       list(logging.root.manager.loggerDict.items()) + [('', logging.root)] if isinstance(l, logging.Logger)},
                    'disable ': logging.root.manager.disable},
        'sympy': [sp.core.parameters.global_parameters.evaluate, sp.core.parameters.global_parameters.distribute],
        'children': children(),
    }
    for s in sorted(signal.valid_signals()):
        d['sig%d' % s] = repr(signal.getsignal(s))
    return d


def children():
    try:
        pid, st = os.waitpid(-1, os.WNOHANG | getattr(os, '__WALL', 0))
        return 'left a child process'
    except ChildProcessError:
        return ''


def same_log(a, b):
    # loggers that appear are no change of what was there
    return all(b.get(n) == v for n, v in a.items())


def differ(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k) and not (k == 'logging' and same_log(a[k], b[k])))


# ------------------------------------------------------------------ workload
def pick_sym(r, n=1, real=True):
    names = r.sample(['a', 'b', 'cc', 'psi', 'zz', 'X', 'k1', 'delta'], n)
    return [sp.Symbol(x, **({'real': True} if real else {})) for x in names]


def num(r):
    return round(r.uniform(-2, 2), 3)


def rexpr(r, syms):
    e = sp.S.Zero
    for _ in range(r.choice([1, 2, 3])):
        t = sp.Float(num(r)) + (sp.I * sp.Float(num(r)) if r.random() < 0.5 else 0)
        for s in syms:
            t = t * s ** r.choice([0, 0, 1, 2])
        e = e + t
    return e


KS = [['PP'], ['PP', 'PS'], ['PP', 'PS', 'SP', 'SS']]


def mk_fform(r, M=None, syms=None, keys=None):
    import shgpy
    M = r.choice([0, 1, 2]) if M is None else M
    syms = syms or pick_sym(r, r.choice([1, 2]))
    it = {}
    for k in keys or r.choice(KS):
        a = np.empty(2 * M + 1, dtype=object)
        for i in range(2 * M + 1):
            a[i] = rexpr(r, syms)
        a[M] = a[M] + syms[0]
        it[k] = a
    return shgpy.fFormContainer(it, M=M)


def mk_fdat(r, f=None, M=None, keys=None):
    import shgpy
    M = f.get_M() if f is not None else (M if M is not None else 1)
    keys = f.get_keys() if f is not None else (keys or r.choice(KS))
    return shgpy.fDataContainer({k: np.array([complex(num(r), num(r)) for _ in range(2 * M + 1)]) for k in keys}, M=M)


def mk_dat(r, keys=None, n=None):
    import shgpy
    n = n or r.choice([8, 16])
    x = np.arange(n) * 2 * np.pi / n
    return shgpy.DataContainer({k: np.array([x, [num(r) for _ in x]]) for k in (keys or r.choice(KS))}, 'radians')


def mk_form(r, syms=None, keys=None):
    import shgpy
    from shgpy import shg_symbols as S
    syms = syms or pick_sym(r, r.choice([1, 2]))
    it = {}
    for k in keys or r.choice(KS):
        it[k] = sp.expand(sum(rexpr(r, syms) * sp.cos(m * S.phi) + rexpr(r, syms) * sp.sin(m * S.phi) for m in range(3)))
    return shgpy.FormContainer(it)


def tensor(r, real=True, rank=3):
    import shgpy
    from shgpy import tensor_definitions as td
    t = (td.dipole if rank == 3 else td.quadrupole)[r.choice(['C_2v', 'T_d', 'C_3v'])]
    if real:
        t = shgpy.make_tensor_real(t) if r.random() < 0.5 else shgpy.make_tensor_complex(t)
    return t


def fuse(r):
    return Fuse(r.choice([None, None, 0, 1, 2, 5]))


class Calls:
    """name(r, P) -> (thunk, watched arguments).  P(name) gives a path."""

    # containers
    def new_dat(r, P):
        import shgpy
        a = {k: np.array([[0., 90., 180., 270.], [num(r) for _ in range(4)]]) for k in r.choice(KS)}
        if r.random() < 0.3:
            k = list(a)[-1]
            a[k] = a[k][:1]
        src = a if r.random() < 0.5 else list(a.items())
        kw = {'normal_to_oblique': r.random() < 0.5}
        return lambda: shgpy.DataContainer(src, r.choice(['degrees', 'radians', 'gons']), **kw), [src, a, kw]

    def new_fdat(r, P):
        import shgpy
        a = {k: np.array([complex(num(r), 1) for _ in range(3)]) for k in r.choice(KS)}
        src = a if r.random() < 0.5 else list(a.items())
        M = r.choice([1, 1, 2])
        return lambda: shgpy.fDataContainer(src, M=M), [src, a]

    def new_fform(r, P):
        import shgpy
        f = mk_fform(r, M=1)
        a = {k: f.get_pc(k) for k in f.get_keys()}
        src = a if r.random() < 0.5 else list(a.items())
        M = r.choice([1, 1, 2])
        return lambda: shgpy.fFormContainer(src, M=M), [src, a]

    def new_form(r, P):
        import shgpy
        f = mk_form(r)
        src = {k: f.get_pc(k) for k in f.get_keys()}
        return lambda: shgpy.FormContainer(src), [src]

    def subs(r, P):
        f = mk_fform(r) if r.random() < 0.6 else mk_form(r)
        s = f.get_free_symbols()
        src = [(x, r.choice([1, 2.5, sp.Symbol('new', real=True), x ** 2])) for x in s]
        if r.random() < 0.2:
            src.append((s[0],))
        return lambda: f.subs(src), [src, s]

    def phase_formula(r, P):
        from shgpy import shg_symbols as S
        psi = sp.Symbol('psi', real=True)
        if r.random() < 0.5:
            f = mk_fform(r)
            return lambda: f.apply_phase_shift(psi), [psi]
        g = mk_form(r)
        return lambda: g.apply_phase_shift(psi, S.phi), [psi, S.phi]

    def scale_formula(r, P):
        f = mk_fform(r) if r.random() < 0.6 else mk_form(r)
        e = sp.Symbol('A', real=True) * 2
        return lambda: f.apply_arbitrary_scale(e), [e]

    def filter(r, P):
        d, z = mk_dat(r), fuse(r)
        w = np.ones(3) / 3
        kw = {'mode': 'same', 'extra': [1, 2]}

        def flt(y, w, mode=None, extra=None):
            z.burn()
            return np.convolve(y, w, mode=mode)
        return lambda: d.filter(flt, w, **kw), [w, kw]

    def merge(r, P):
        import shgpy
        k = r.randrange(4)
        cs = [[mk_dat, mk_fdat, mk_fform, mk_form][k](r, keys=['PP']) for _ in range(2)]
        if k in (1, 2):
            cs = [cs[0], cs[0].copy()] if hasattr(cs[0], 'copy') else [cs[0], cs[0]]
        z = fuse(r)

        def m(key, i):
            z.burn()
            return key + str(i)
        return lambda: shgpy.merge_containers(cs, m), [cs]

    def dat_ops(r, P):
        import shgpy
        a, b = mk_dat(r, ['PP', 'PS'], 8), mk_dat(r, ['PP', 'PS'], r.choice([8, 8, 8, 16]))
        if r.random() < 0.2:
            b = mk_dat(r, ['PP'], 8)
        f = r.choice([shgpy.dat_add, shgpy.dat_subtract])
        return lambda: f(a, b), [a, b]

    def conversions(r, P):
        import shgpy
        from shgpy.core import data_handler as dh
        w = r.randrange(8)
        if w == 0:
            f = mk_fform(r)
            s = {x: num(r) for x in f.get_free_symbols()}
            if r.random() < 0.3:
                s.popitem()
            return lambda: dh.fform_to_fdat(f, s), [f, s]
        if w == 1:
            f = mk_fform(r)
            s = {x: num(r) for x in f.get_free_symbols()}
            return lambda: dh.fform_to_dat(f, s, 12), [f, s]
        if w == 2:
            f = mk_form(r)
            s = {x: num(r) for x in f.get_free_symbols() if str(x) != 'phi'}
            return lambda: dh.form_to_dat(f, s, 12), [f, s]
        if w == 3:
            f = mk_form(r, keys=['PP'])
            s = {x: num(r) for x in f.get_free_symbols() if str(x) != 'phi'}
            return lambda: dh.form_to_fdat(f, s, M=2), [f, s]
        if w == 4:
            f = mk_form(r, keys=['PP'])
            return lambda: dh.form_to_fform(f, M=2), [f]
        if w == 5:
            f = mk_fform(r)
            return lambda: dh.fform_to_form(f), [f]
        if w == 6:
            d = mk_dat(r)
            k = r.choice(['cubic', 'linear', 'nonsense'])
            return lambda: dh.dat_to_fdat(d, interp_kind=k, M=2), [d]
        d = mk_fdat(r)
        return lambda: dh.fdat_to_dat(d, 12), [d]

    def getters(r, P):
        o = r.choice([mk_dat, mk_fdat, mk_fform, mk_form])(r)
        import shgpy

        def go():
            for k in o.get_keys():
                if isinstance(o, shgpy.DataContainer):
                    o.get_pc(k, 'degrees'), o.get_items('radians'), o.get_values('degrees'), o.as_pandas('degrees')
                    o.get_maxval(), o.get_pc_maxval(k), o.get_minval(), o.get_pc_minval(k), o.get_offset()
                    o.get_scale(), o.get_phase_shift('degrees'), o.copy()
                else:
                    o.get_pc(k), o.get_items(), o.get_values(), o.as_pandas(), o.copy()
                if isinstance(o, shgpy.fDataContainer):
                    o.get_maxval(), o.get_pc_maxval(k), o.get_scale(), o.get_phase_shift('radians')
                if not isinstance(o, (shgpy.DataContainer, shgpy.FormContainer)):
                    o.get_M()
                if hasattr(o, 'get_free_symbols'):
                    o.get_free_symbols()
            repr(o), o == o
            o.get_pc('nonsense')
        return go, [o]

    # files
    def save_form(r, P):
        import shgpy
        f = mk_fform(r)
        p = P(r.choice(['f.p', 'nodir/f.p']))
        return lambda: shgpy.save_fform(f, p), [f, p]

    def load_form(r, P):
        import shgpy
        p = P(r.choice(['f.p', 'f.p', 'junk']))
        return lambda: shgpy.load_fform(p), [p]

    def load_data(r, P):
        import shgpy
        d = {'PP': P('d.csv'), 'PS': P(r.choice(['d.csv', 'd.csv', 'none.csv', 'junk']))}
        k = {'PP': P('d.csv'), 'PS': P('d.csv')}
        kw = {'normal_to_oblique': r.random() < 0.3}
        w = r.randrange(4)
        if w == 0:
            return lambda: shgpy.load_data(d, 'degrees', **kw), [d, kw]
        if w == 1:
            return lambda: shgpy.load_data_and_dark_subtract(d, 'degrees', k, 'degrees', **kw), [d, k, kw]
        if w == 2:
            return lambda: shgpy.load_data_and_fourier_transform(d, 'degrees', k, 'degrees', M=2, min_subtract=True, scale=2,
                                                                 **kw), [d, k, kw]
        return lambda: shgpy.read_csv(d['PS']), [d]

    # compiled functions
    def cost(r, P):
        import shgpy.fformfit as ff
        f = mk_fform(r, M=r.choice([0, 1]))
        d = mk_fdat(r, f)
        al = f.get_free_symbols()[::-1]
        if r.random() < 0.15:
            al = al[1:]
        kw = dict(argument_list=r.choice([None, al]), chunk=r.random() < 0.5, save_filename=r.choice([None, P('c.so'), P('nodir/c')]))
        if r.random() < 0.1:
            kw['method'] = 'no-such-compiler'
        x = np.array([num(r) for _ in f.get_free_symbols()])
        xs = [x, list(x), tuple(x), x.astype(np.float32), np.repeat(x, 2)[::2], x.astype(object)]
        ro = x.copy()
        ro.setflags(write=False)
        xs.append(ro)

        def go():
            fn = ff.gen_cost_func(f, d, **kw)
            for y in xs:
                fn(y)
        return go, [f, d, kw, al, xs]

    def load_cost(r, P):
        import shgpy.fformfit as ff
        p = P(r.choice(['c.so', 'c.so', 'junk', 'none']))
        m = r.random() < 0.4
        x = np.array([num(r) for _ in range(4)])

        def go():
            fn = ff.load_func(p, multiprocessing=m)
            fn(x)
        return go, [p, x]

    def model(r, P):
        import shgpy.fformfit as ff
        f = mk_fform(r, M=0)
        p = P(r.choice(['m', 'm', 'nodir/m', 'junk']))
        x = np.array([num(r) for _ in f.get_free_symbols()])

        def go():
            fn = ff.gen_model_func(f, p, max_terms_per_file=r.choice([1, 10]))
            fn(x, 'PP', 0)
            gn = ff.load_model_func(f, p)
            gn(x, 'PP', 0)
            gn(x, 'nonsense', 0)
        return go, [f, p, x]

    def fit(r, P):
        import shgpy.fformfit as ff
        f = mk_fform(r, M=0, keys=['PP'])
        d = mk_fdat(r, f)
        s = f.get_free_symbols()
        g = {x: num(r) for x in s}
        b = {x: r.choice([tuple, list])((g[x] - 1.0, g[x] + 1.0)) for x in s}
        g[sp.Symbol('unused', real=True)] = 1.0
        if r.random() < 0.15:
            g.pop(s[0])
        kind = r.choice(['ls', 'lsb', 'bh', 'bhb', 'bhj', 'bhjb', 'da'])
        z = fuse(r)

        def cb(*a):
            z.burn()
        kw = {'chunk_cost_func': r.random() < 0.5}
        if r.random() < 0.3:
            kw['save_cost_func_filename'] = P('fc.so')
        seed = r.choice([3, np.random.RandomState(5)])
        if kind in ('bhj', 'bhjb'):
            kw.pop('chunk_cost_func')
        if kind.startswith('bh'):
            mk = {'options': {'maxiter': 4}, 'tol': 1e-6}
            bk = {'seed': r.choice([3, 4]), 'T': 0.5, 'callback': cb}
            if r.random() < 0.7:
                bk['minimizer_kwargs'] = mk
            kw['basinhopping_kwargs'] = bk
            if r.random() < 0.3:
                kw['method'] = 'L-BFGS-B'
            extra = [mk, bk, mk['options']]
        elif kind == 'da':
            lo = {'method': 'L-BFGS-B', 'options': {'maxiter': 3}}
            kw.update(local_search_options=lo, maxiter=2, seed=r.choice([3, 4]), callback=cb, no_local_search=r.random() < 0.5)
            extra = [lo, lo['options']]
        else:
            lk = {'max_nfev': 5, 'x_scale': np.ones(len(s))}
            kw['least_sq_kwargs'] = lk
            extra = [lk]

        def go():
            if kind == 'ls':
                ff.least_squares_fit(f, d, g, **kw)
            elif kind == 'lsb':
                ff.least_squares_fit_with_bounds(f, d, g, b, **kw)
            elif kind == 'bh':
                ff.basinhopping_fit(f, d, g, 1, **kw)
            elif kind == 'bhb':
                ff.basinhopping_fit_with_bounds(f, d, g, b, 1, **kw)
            elif kind == 'bhj':
                ff.basinhopping_fit_jac(f, d, g, 1, **kw)
            elif kind == 'bhjb':
                ff.basinhopping_fit_jac_with_bounds(f, d, g, b, 1, **kw)
            else:
                ff.dual_annealing_fit_with_bounds(f, d, g, b, **kw)
        return go, [f, d, g, b, kw, extra]

    # tensors and formulas
    def tensors(r, P):
        import shgpy
        from shgpy.core import utilities as U
        t = tensor(r, r.random() < 0.5)
        w = r.randrange(9)
        if w == 0:
            ex = [sp.Symbol('xxx', real=True)] if r.random() < 0.5 else []
            return lambda: shgpy.particularize(t, exclude=ex), [t, ex]
        if w == 1:
            return lambda: shgpy.make_tensor_real(t), [t]
        if w == 2:
            pre, suf = ('re_', 'im_'), ('', '_1')
            return lambda: shgpy.make_tensor_complex(t, prefix=pre, suffix=suf), [t, pre, suf]
        if w == 3:
            op = np.array(shgpy.rotation_matrix3(np.array([0, 0, 1]), 0.3))
            return lambda: shgpy.transform(t, op), [t, op]
        if w == 4:
            n = r.choice([np.array([1., 2., 3.]), [1, 0, 2], np.array([0, 0, 2]), (1.0, 1.0, 1.0)])
            return lambda: (shgpy.rotation_matrix3(n, 0.4), shgpy.rotation_matrix3symb(n, sp.Symbol('t', real=True))), [n]
        if w == 5:
            a, b = np.array([1., 2., 0.]), r.choice([np.array([0., 1., 5.]), np.array([1., 2., 0.]), np.array([-1., -2., 0.]),
                                                     np.array([0, 1, 3])])
            return lambda: shgpy.rotation_matrix_from_two_vectors(a, b), [a, b]
        if w == 6:
            ps = r.choice([[[0, 2]], [[0, 1]], [(1, 2)], [[0, 7]]])
            return lambda: shgpy.tensor_contract(t, ps), [t, ps]
        if w == 7:
            a, b = np.eye(3), np.arange(3.)
            return lambda: shgpy.tensor_product(a, b, t), [a, b, t]
        a, b = [1, 2, 3], [3, 4]
        return lambda: shgpy.union(a, b), [a, b]

    def particularize_all(r, P):
        import shgpy
        t = np.empty((2, 2, 2), dtype=object)
        for i in itertools.product(range(2), repeat=3):
            t[i] = sp.Symbol('t%d%d%d' % i, real=True)
        return lambda: shgpy.particularize(t, permute_all_indices=True), [t]

    def formgen(r, P):
        from shgpy import formgen as fo
        t = tensor(r, r.random() < 0.9)
        th = r.choice([0.2, sp.pi / 18, sp.Symbol('theta', real=True)])
        w = r.randrange(5)
        if w == 0:
            return lambda: fo.formgen(th, t_eee=t), [t]
        if w == 1:
            return lambda: fo.formgen_just_dipole(t, th), [t]
        if w == 2:
            return lambda: fo.gen_P_just_dipole(t, th), [t]
        if w == 3:
            a = np.array([sp.Symbol('p%d' % i, real=True) for i in range(3)], dtype=object)
            b, c, d = a * 2, a + 1, a * 3
            return lambda: fo.make_form_from_P_and_Q(a, b, c, d), [a, b, c, d]
        return lambda: fo.gen_S(th, t_mee=t), [t]

    def quadrupole(r, P):
        import shgpy
        from shgpy import formgen as fo, tensor_definitions as td
        t, q = tensor(r), shgpy.make_tensor_real(td.quadrupole[r.choice(['T_d', 'T_d', 'C_2v'])])
        w = r.randrange(3)
        if w == 0:
            return lambda: fo.formgen_dipole_quadrupole(t, q, 0.2), [t, q]
        if w == 1:
            return lambda: fo.gen_P_dipole_quadrupole(t, q, 0.2), [t, q]
        return lambda: fo.gen_S(0.2, t_eee=t, t_mee=t, t_qee=q), [t, q]

    def own_state(r, P):
        # methods that change the container they belong to, and nothing else
        import shgpy
        from shgpy import shg_symbols as S
        w = r.randrange(4)
        o = [mk_dat, mk_fdat, mk_fform, mk_form][w](r)
        o2 = o.copy()
        psi, A = sp.Symbol('psi', real=True), sp.Symbol('A', real=True)
        u = r.choice(['degrees', 'radians', 'gons'])

        def go():
            if w == 0:
                o.scale_data(2.5), o.normalize_data(3), o.subtract_min(), o.phase_shift_data(0.3, u)
            elif w == 1:
                o.scale_fdata(2.5), o.normalize_fdata(3), o.phase_shift_fdata(0.3, u)
            elif w == 2:
                o.apply_phase_shift(psi), o.apply_arbitrary_scale(A)
            else:
                o.apply_phase_shift(psi, S.phi), o.apply_arbitrary_scale(A), o.expand(), o.simplify()
        return go, [o2, psi, A, S.phi]

    def small(r, P):
        from shgpy.core import utilities as U, data_handler as dh
        from shgpy import formgen as fo
        s = sp.Symbol('q')
        return lambda: (U.map_to_real(s), dh.n2i(2, M=4), fo.gen_levi_civita(), dh.n2i(7, M=4)), [s]

    def plot(r, P):
        import matplotlib
        from shgpy import plotter
        ds = [mk_dat(r, ['PP', 'PS'])]
        ps = [{'linestyle': '-', 'color': 'blue'}]
        pc = r.choice([['PP', 'PS'], ['PP'], ['SS'], ['PP'] * 5])
        f = r.choice([plotter.easy_plot, plotter.easy_polar_plot])

        def go():
            import matplotlib.pyplot as plt
            try:
                f(ds, ps, pc, show_plot=False)
            finally:
                plt.close('all')
        return go, [ds, ps, pc, dict(matplotlib.rcParams)]


def names():
    return [n for n in vars(Calls) if not n.startswith('_')]


def prep_call(s, st):
    from sim.steps import path_of
    r = random.Random(st['rs'])

    def P(n):
        return path_of(s, {'p': 'work/' + n, 'as': r.choice(['str', 'str', 'path', 'rel'])})
    return getattr(Calls, st['what'])(r, P)


def cut(a, b):
    x, y = (re.sub(r'\b\d{12,}\b', '#', repr(v)) for v in (a, b))
    k = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), 0)
    return [x[max(0, k - 60):k + 100], y[max(0, k - 60):k + 100]]


def do_call(s, st, a):
    thunk, watch = a
    w0, p0 = [fp(x) for x in watch], process()
    t0 = tables() if st.get('tables') else None
    out = {}
    try:
        thunk()
    except Exception as e:
        out['exc'] = type(e).__name__
        out['msg'] = str(e)[:200]
        e.__traceback__ = None
    except KeyboardInterrupt:
        out['exc'] = 'KeyboardInterrupt'
        out['msg'] = ''
    p1, w1 = process(), [fp(x) for x in watch]
    out['process'] = [[k] + cut(p0.get(k), p1.get(k)) for k in differ(p0, p1)]
    out['args'] = [i for i, (x, y) in enumerate(zip(w0, w1)) if x != y]
    if out['args']:
        i = out['args'][0]
        out['how'] = cut(w0[i], w1[i])
    if t0 is not None:
        out['tables'] = differ(t0, tables())
    return out


def do_watch(s, st):
    """Another thread of the program, which looks around while calls run."""
    from sim import actor
    keys = ('cwd', 'environ', 'umask', 'path', 'recursionlimit', 'streams', 'hooks', 'locale', 'limits', 'nice', 'timer',
            'random', 'nprandom')

    def look():
        d = process_part()
        return {k: d[k] for k in keys}
    first = look()
    for _ in range(st['n']):
        actor.SHIM.sim_point(b'line')
        now = look()
        if now != first:
            return {'process': [[k] + cut(first[k], now[k]) for k in differ(first, now)]}
    return {'process': []}


def process_part():
    return {
        'cwd': os.getcwd(), 'environ': dict(os.environ), 'umask': umask(), 'path': list(sys.path),
        'recursionlimit': sys.getrecursionlimit(), 'streams': [id(sys.stdin), id(sys.stdout), id(sys.stderr)],
        'hooks': [id(sys.excepthook), id(threading.excepthook), id(sys.displayhook)],
        'locale': locale.setlocale(locale.LC_ALL), 'nice': os.nice(0), 'timer': signal.getitimer(signal.ITIMER_REAL)[1],
        'limits': [resource.getrlimit(r) for r in (resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_AS)],
        'random': reseeds(), 'nprandom': fp(np.random.get_state()),
    }


def warm():
    """What is imported and built on the first use only."""
    import matplotlib.pyplot as plt
    r = random.Random(0)
    for n in ('plot', 'merge', 'conversions', 'fit', 'tensors', 'formgen'):
        for _ in range(1 if n == 'fit' else 3):
            if n == 'plot':
                import shgpy.plotter as pl
                for f in (pl.easy_plot, pl.easy_polar_plot):
                    try:
                        f([mk_dat(r, ['PP', 'PS'])], [{}], ['PP', 'PS'], show_plot=False)
                    except Exception:
                        pass
                    plt.close('all')
                continue
            if n == 'fit':
                import scipy.optimize as so
                so.basinhopping(lambda x: float(x[0] ** 2), [1.0], niter=1, seed=1)
                so.dual_annealing(lambda x: float(x[0] ** 2), [(-1, 1)], maxiter=2, seed=1)
                so.least_squares(lambda x: x ** 2, [1.0])
                continue
            try:
                getattr(Calls, n)(r, lambda n: '/nonexistent/' + n)[0]()
            except Exception:
                pass
