"""The step vocabulary: what a simulated user does with shgpy."""
import os
import time
from pathlib import Path

import numpy as np
import sympy as sp


def warm():
    """Exercise the code paths once so lazily imported modules are loaded and
    caches are filled before the actors fork (no files are left behind)."""
    import shgpy
    from shgpy import fformfit
    a = sp.Symbol('warm_a', real=True)
    f = shgpy.fFormContainer({'PP': np.array([a, a * sp.I, a**2], dtype=object)}, M=1)
    d = shgpy.fDataContainer({'PP': np.array([1, 2, 3j], dtype=complex)}, M=1)
    try:
        fformfit.least_squares_fit(f, d, {a: 1.0})
    except Exception:
        pass
    try:
        import csv, shutil, scipy.optimize, pickle, subprocess  # noqa
        fformfit.dual_annealing_fit_with_bounds(f, d, {a: 1.0}, {a: (0, 2)}, maxiter=2, seed=1)
        fformfit.basinhopping_fit_jac_with_bounds(f, d, {a: 1.0}, {a: (0, 2)}, 1)
        fformfit.basinhopping_fit(f, d, {a: 1.0}, 1)
    except Exception:
        pass


# ------------------------------------------------------------------ builders
IRR = {'pi': sp.pi, 'sqrt2': sp.sqrt(2), 'exp1': sp.E}


def coef(re, im):
    def one(c):
        if isinstance(c, str):
            if c in IRR:
                return IRR[c]
            p, q = c.split('/')
            return sp.Rational(int(p), int(q))
        return sp.sympify(c)
    out = sp.S.Zero
    if re:
        out = out + one(re)
    if im:
        out = out + one(im) * sp.I
    return out


def build_expr(spec, terms, syms):
    e = sp.S.Zero
    for re, im, pw, fn in terms:
        t = coef(re, im)
        for i, p in pw:
            t = t * syms[i] ** p
        if fn:
            t = t * getattr(sp, fn[0])(fn[2] * syms[fn[1]])
        e = e + t
    return e


def build_syms(spec):
    return [sp.Symbol(n, **a) for n, a in spec['syms']]


def build_form(spec, syms=None):
    import shgpy
    syms = syms or build_syms(spec)
    it = {}
    for k, comps in spec['keys'].items():
        arr = np.empty(len(comps), dtype=object)
        for j, terms in enumerate(comps):
            arr[j] = build_expr(spec, terms, syms)
        it[k] = arr
    return shgpy.fFormContainer(it, M=spec['M'])


def build_dat(spec):
    import shgpy
    dt = np.complex64 if spec.get('dt') == 'c64' else complex
    it = {k: np.array([complex(*v) for v in vs], dtype=dt)
          for k, vs in spec['keys'].items()}
    return shgpy.fDataContainer(it, M=spec['M'])


def path_of(s, p):
    """p: {'p': path relative to the root, 'as': how the user spells it}."""
    if p is None:
        return None
    if isinstance(p, str):
        p = {'p': p, 'as': 'str'}
    full = os.path.join(s.prog['root'], p['p'])
    kind = p.get('as', 'str')
    if kind == 'str':
        return full
    if kind == 'path':
        return Path(full)
    if kind == 'link':          # through a symlinked folder
        return os.path.join(s.prog['root'], 'lnk', os.path.relpath(full, os.path.join(s.prog['root'], 'work')))
    if kind == 'dotdot':
        return os.path.join(s.prog['root'], 'by', '..', p['p'])
    rel = os.path.relpath(full, os.getcwd())
    if kind == 'rel':
        return rel
    if kind == 'relpath':
        return Path(rel)
    raise ValueError(kind)


def form_of(s, st):
    return build_form(s.prog['forms'][st['form']])


def dat_of(s, st):
    return build_dat(s.prog['dats'][st['dat']])


# ------------------------------------------------------------- comparisons
def same_expr(a, b):
    if a == b:
        return True
    a, b = sp.sympify(a), sp.sympify(b)
    fa = a.free_symbols
    if fa != b.free_symbols:
        return False
    subs = {x: sp.Rational(17 + 6 * i, 13) for i, x in enumerate(sorted(fa, key=lambda z: sp.srepr(z)))}
    try:
        va = complex(a.xreplace(subs).evalf(30))
        d = (a - b).xreplace(subs).evalf(30)
        return abs(complex(d)) <= 1e-25 * (1 + abs(va))
    except Exception:
        return False


def match_form(f, spec):
    """'' when the container is exactly the formula of spec, else a reason."""
    g = build_form(spec)
    if f.get_M() != spec['M']:
        return 'M %r' % f.get_M()
    if list(f.get_keys()) != list(spec['keys']):
        if set(f.get_keys()) != set(spec['keys']):
            return 'keys %r' % (f.get_keys(),)
        return 'key order %r' % (f.get_keys(),)
    for k in spec['keys']:
        u, v = f.get_pc(k), g.get_pc(k)
        if len(u) != len(v):
            return 'length of %s' % k
        for j in range(len(u)):
            if not same_expr(u[j], v[j]):
                return 'component %s[%d]' % (k, j)
    if [sp.srepr(x) for x in f.get_free_symbols()] != [sp.srepr(x) for x in g.get_free_symbols()]:
        return 'free symbols'
    return ''


# -------------------------------------------------------------------- steps
def prep_save_fform(s, st):
    return form_of(s, st), path_of(s, st['path'])


def do_save_fform(s, st, a):
    import shgpy
    shgpy.save_fform(*a)


def do_load_fform(s, st):
    """Loads and says which of the candidate formulas it is."""
    import shgpy
    f = shgpy.load_fform(path_of(s, st['path']))
    if st.get('var'):
        s.vars[st['var']] = f
    out = {'match': [], 'why': {}}
    for c in st['cands']:
        w = match_form(f, s.prog['forms'][c])
        if w:
            out['why'][c] = w
        else:
            out['match'].append(c)
    return out


def prep_gen_cost(s, st):
    f, d = form_of(s, st), dat_of(s, st)
    kw = {}
    if st.get('chunk') is not None:
        kw['chunk'] = st['chunk']
    if st.get('save') is not None:
        kw['save_filename'] = path_of(s, st['save'])
    if st.get('perm') is not None:
        syms = build_syms(s.prog['forms'][st['form']])
        kw['argument_list'] = [syms[i] for i in st['perm']]
    if st.get('method'):
        kw['method'] = st['method']
    return f, d, kw


def do_gen_cost(s, st, a):
    import shgpy.fformfit as ff
    f, d, kw = a
    s.vars.pop(st.get('var'), None)
    fn = ff.gen_cost_func(f, d, **kw)
    if st.get('var'):
        s.vars[st['var']] = fn


def do_load_cost(s, st):
    import shgpy.fformfit as ff
    kw = {'multiprocessing': True} if st.get('mp') else {}
    s.vars.pop(st['var'], None)
    s.vars[st['var']] = ff.load_func(path_of(s, st['path']), **kw)


def layout(x, kind):
    x = np.array(x, dtype=float)
    if kind == 'f8' or kind is None:
        return x
    if kind == 'strided':
        b = np.full(2 * len(x) + 1, 77.0)
        b[1::2][:len(x)] = x
        return b[1::2][:len(x)]
    if kind == 'reversed':
        return np.ascontiguousarray(x[::-1])[::-1]
    if kind == 'int':
        return x.astype(np.int64)
    if kind == 'f4':
        return x.astype(np.float32)
    if kind == 'readonly':
        x.setflags(write=False)
        return x
    if kind == 'column':
        m = np.full((len(x), 3), 55.0)
        m[:, 1] = x
        return m[:, 1]
    if kind == 'big':
        return np.concatenate([x, [9.0]])[:len(x)]
    raise ValueError(kind)


def do_eval(s, st):
    f = s.vars[st['var']]
    out = []
    for x in st['xs']:
        v = f(layout(x, st.get('layout')))
        out.append(float(v))
    return out


def prep_gen_model(s, st):
    kw = {}
    if st.get('mtpf'):
        kw['max_terms_per_file'] = st['mtpf']
    if st.get('method'):
        kw['method'] = st['method']
    return form_of(s, st), path_of(s, st.get('save')), kw


def do_gen_model(s, st, a):
    import shgpy.fformfit as ff
    s.vars.pop(st.get('var'), None)
    fn = ff.gen_model_func(a[0], a[1], **a[2])
    if st.get('var'):
        s.vars[st['var']] = fn


def do_load_model(s, st):
    import shgpy.fformfit as ff
    kw = {'multiprocessing': True} if st.get('mp') else {}
    s.vars.pop(st['var'], None)
    s.vars[st['var']] = ff.load_model_func(form_of(s, st), path_of(s, st['path']), **kw)


def do_eval_model(s, st):
    f = s.vars[st['var']]
    spec = s.prog['forms'][st['form']]
    M = spec['M']
    out = []
    for x in st['xs']:
        row = {}
        for k in spec['keys']:
            row[k] = [complex(f(layout(x, st.get('layout')), k, m)) for m in range(-M, M + 1)]
        out.append(row)
    return out


def do_del(s, st):
    s.vars.pop(st['var'], None)


def do_chdir(s, st):
    os.chdir(os.path.join(s.prog['root'], st['to']))


def do_sleep(s, st):
    time.sleep(st['s'])


def do_consume(s, st):
    """An unrelated user of the global random generators."""
    import random
    np.random.rand(st['n'])
    [random.random() for _ in range(st['n'])]


def do_unlink(s, st):
    os.unlink(os.path.join(s.prog['root'], st['path']))


# --------------------------------------------------------------------- fits
class Tap:
    """A scipy `method=` callable that records the objective at given points
    instead of minimising: the public way to look at what is being fitted."""

    def __init__(self, xs):
        self.xs = xs
        self.seen = []

    def __call__(self, fun, x0, args=(), **kw):
        from scipy.optimize import OptimizeResult
        jac = kw.get('jac')
        for x in self.xs:
            x = np.array(x, dtype=float)
            f = fun(x)
            g = jac(x) if callable(jac) else None
            self.seen.append([float(f), None if g is None else [float(v) for v in g]])
        return OptimizeResult(x=np.asarray(x0, dtype=float), fun=float(fun(np.asarray(x0, dtype=float))),
                              success=True, nfev=len(self.xs) + 1, njev=1, nit=1, status=0, message='tap')


def seed_of(st):
    t = st.get('seedtype')
    if t == 'RandomState':
        return np.random.RandomState(st['seed'])
    if t == 'Generator':
        return np.random.default_rng(st['seed'])
    return st['seed']


def prep_fit(s, st):
    spec = s.prog['forms'][st['form']]
    syms = build_syms(spec)
    f, d = build_form(spec), dat_of(s, st)
    o = st.get('gorder') or list(range(len(syms)))
    guess = {syms[i]: st['guess'][i] for i in o}
    for n in st.get('extra_guess', []):
        guess[sp.Symbol(n, real=True)] = 3.0
    bounds = {syms[i]: (list if st.get('blist') else tuple)(st['bounds'][i]) for i in reversed(o)} if st.get('bounds') else None
    if bounds:
        for n in st.get('extra_guess', []):
            bounds[sp.Symbol(n, real=True)] = (4.0, 5.0)
    kw = {}
    for a, b in (('save', 'save_cost_func_filename'), ('load', 'load_cost_func_filename'),
                 ('gsave', 'grad_save_cost_func_filename_prefix'),
                 ('gload', 'load_grad_cost_func_filename_prefix')):
        if st.get(a) is not None:
            kw[b] = path_of(s, st[a])
    if st.get('chunk') is not None:
        kw['chunk_cost_func'] = st['chunk']
    tap = None
    kind = st['kind']
    ukw = {}
    if kind.startswith('bh'):
        if st.get('seed') is not None:
            ukw['seed'] = seed_of(st)
        mk = {}
        if st.get('mk'):
            mk.update(st['mk'])
        if st.get('tap') is not None:
            tap = Tap(st['tap'])
            mk['method'] = tap
        if mk:
            ukw['minimizer_kwargs'] = mk
        kw['basinhopping_kwargs'] = ukw
    elif kind.startswith('ls'):
        if st.get('lskw'):
            ukw.update(st['lskw'])
            kw['least_sq_kwargs'] = ukw
    elif kind == 'da':
        if st.get('seed') is not None:
            kw['seed'] = seed_of(st)
        kw['maxiter'] = st.get('maxiter', 10)
        if st.get('local') is not None:
            kw['no_local_search'] = not st['local']
    return f, d, guess, bounds, kw, tap, syms, ukw


def do_fit(s, st, a):
    import shgpy.fformfit as ff
    f, d, guess, bounds, kw, tap, syms, ukw = a
    g0, b0 = dict(guess), dict(bounds or {})
    kind = st['kind']
    niter = st.get('niter', 2)
    if kind == 'ls':
        r = ff.least_squares_fit(f, d, guess, **kw)
    elif kind == 'lsb':
        r = ff.least_squares_fit_with_bounds(f, d, guess, bounds, **kw)
    elif kind == 'bh':
        r = ff.basinhopping_fit(f, d, guess, niter, **kw)
    elif kind == 'bhb':
        r = ff.basinhopping_fit_with_bounds(f, d, guess, bounds, niter, **kw)
    elif kind == 'bhj':
        r = ff.basinhopping_fit_jac(f, d, guess, niter, **kw)
    elif kind == 'bhjb':
        r = ff.basinhopping_fit_jac_with_bounds(f, d, guess, bounds, niter, **kw)
    elif kind == 'da':
        r = ff.dual_annealing_fit_with_bounds(f, d, guess, bounds, **kw)
    else:
        raise ValueError(kind)
    out = {'x': [float(v).hex() for v in np.asarray(r.x, dtype=float)],
           'fun': [float(v) for v in np.atleast_1d(r.fun)] if 'fun' in r else None,
           'success': bool(r.success) if 'success' in r else None,
           'xdict': {k.name: float(v) for k, v in r.xdict.items()},
           'xdict_syms': [sp.srepr(k) for k in r.xdict],
           'nfev': int(r.nfev) if 'nfev' in r else None,
           'time': float(r.time) if 'time' in r else None,
           'guess_kept': guess == g0, 'bounds_kept': (bounds or {}) == b0,
           'kw': sorted(ukw)}
    if kind.startswith('bh') and 'lowest_optimization_result' in r:
        out['lowest'] = float(r.lowest_optimization_result.fun)
    if tap:
        out['tap'] = tap.seen
    return out


# ------------------------------------------------- artifacts as registers
def val_of(s, st):
    return s.prog['extra']['vals'][st['val']]


def prep_save_form(s, st):
    v = val_of(s, st)
    if st.get('src'):
        return s.vars[st['src']], path_of(s, st['path'])
    return build_form(s.prog['forms'][v['form']]), path_of(s, st['path'])


def do_save_form(s, st, a):
    import shgpy
    shgpy.save_fform(*a)


def do_read_form(s, st):
    """Index of the value found, or -1 with the reasons."""
    import shgpy
    f = shgpy.load_fform(path_of(s, st['path']))
    if st.get('var'):
        s.vars[st['var']] = f
    why = {}
    for j in st['cands']:
        w = match_form(f, s.prog['forms'][s.prog['extra']['vals'][j]['form']])
        if not w:
            return {'val': j}
        why[j] = w
    return {'val': -1, 'why': why}


def _cost_args(s, v):
    spec = s.prog['forms'][v['form']]
    syms = build_syms(spec)
    kw = {}
    if v.get('perm') is not None:
        kw['argument_list'] = [syms[i] for i in v['perm']]
    return build_form(spec, syms), build_dat(s.prog['dats'][v['dat']]), kw


def prep_save_cost(s, st):
    v = val_of(s, st)
    f, d, kw = _cost_args(s, v)
    if st.get('chunk') is not None:
        kw['chunk'] = st['chunk']
    if st.get('path') is not None:
        kw['save_filename'] = path_of(s, st['path'])
    if st.get('method'):
        kw['method'] = st['method']
    return f, d, kw


def do_save_cost(s, st, a):
    import shgpy.fformfit as ff
    fn = ff.gen_cost_func(a[0], a[1], **a[2])
    if st.get('var'):
        s.vars[st['var']] = fn
    return [float(fn(layout(x, st.get('layout')))) for x in st['xs']]


def do_read_cost(s, st):
    import shgpy.fformfit as ff
    kw = {'multiprocessing': True} if st.get('mp') else {}
    fn = ff.load_func(path_of(s, st['path']), **kw)
    if st.get('var'):
        s.vars[st['var']] = fn
    return [float(fn(layout(x, st.get('layout')))) for x in st['xs']]


def do_recheck(s, st):
    """Evaluate a cost function obtained earlier in this process."""
    fn = s.vars[st['use']]
    return [float(fn(layout(x, st.get('layout')))) for x in st['xs']]


def _model_eval(fn, spec, xs, lay):
    M = spec['M']
    return [{k: [complex(fn(layout(x, lay), k, m)) for m in range(-M, M + 1)]
             for k in spec['keys']} for x in xs]


def prep_save_model(s, st):
    v = val_of(s, st)
    kw = {}
    if st.get('mtpf'):
        kw['max_terms_per_file'] = st['mtpf']
    if st.get('method'):
        kw['method'] = st['method']
    return build_form(s.prog['forms'][v['form']]), path_of(s, st.get('path')), kw


def do_save_model(s, st, a):
    import shgpy.fformfit as ff
    fn = ff.gen_model_func(a[0], a[1], **a[2])
    if st.get('var'):
        s.vars[st['var']] = fn
    return _model_eval(fn, s.prog['forms'][val_of(s, st)['form']], st['xs'], st.get('layout'))


def prep_read_model(s, st):
    v = val_of(s, st)
    return build_form(s.prog['forms'][v['form']]), path_of(s, st['path'])


def do_read_model(s, st, a):
    """st['val'] names the formula whose keys and M the reader expects."""
    import shgpy.fformfit as ff
    kw = {'multiprocessing': True} if st.get('mp') else {}
    fn = ff.load_model_func(a[0], a[1], **kw)
    if st.get('var'):
        s.vars[st['var']] = fn
    return _model_eval(fn, s.prog['forms'][val_of(s, st)['form']], st['xs'], st.get('layout'))


def do_recheck_model(s, st):
    return _model_eval(s.vars[st['use']], s.prog['forms'][val_of(s, st)['form']], st['xs'], st.get('layout'))


def prep_grad(s, st, load):
    v = val_of(s, st)
    spec = s.prog['forms'][v['form']]
    f, d, _ = _cost_args(s, v)
    syms = build_syms(spec)
    tap = Tap(st['xs'])
    kw = {'basinhopping_kwargs': {'minimizer_kwargs': {'method': tap}, 'seed': 1}}
    if st.get('path') is not None:
        p = st['path'] if isinstance(st['path'], dict) else {'p': st['path']}
        c, g = path_of(s, p), path_of(s, dict(p, p=p['p'] + '_g'))
        if load:
            kw['load_cost_func_filename'] = c
            kw['load_grad_cost_func_filename_prefix'] = g
        else:
            kw['save_cost_func_filename'] = c
            kw['grad_save_cost_func_filename_prefix'] = g
    guess = {x: 0.5 for x in syms}
    bounds = {x: (-100.0, 100.0) for x in syms}
    return f, d, guess, bounds, kw, tap


def prep_save_grad(s, st):
    return prep_grad(s, st, False)


def prep_read_grad(s, st):
    return prep_grad(s, st, True)


def do_save_grad(s, st, a):
    import shgpy.fformfit as ff
    f, d, guess, bounds, kw, tap = a
    if st.get('bounded'):
        ff.basinhopping_fit_jac_with_bounds(f, d, guess, bounds, 0, **kw)
    else:
        ff.basinhopping_fit_jac(f, d, guess, 0, **kw)
    return tap.seen


do_read_grad = do_save_grad


from sim.cont import *  # noqa: E402,F401,F403
from sim.odd import do_odd, prep_odd  # noqa: E402,F401
from sim.pure import do_call, do_watch, prep_call  # noqa: E402,F401
from sim.forms import do_fgen, prep_fgen  # noqa: E402,F401
from sim.ufts import do_uft, prep_uft, do_cft, prep_cft, do_rdf, prep_rdf, do_tear, prep_tear  # noqa: E402,F401
