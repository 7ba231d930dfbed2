"""Calls that must fail on their own: unusable paths, files and arguments."""
import os

import numpy as np
import sympy as sp


class Angry(Exception):
    pass


def prep_odd(s, st):
    from sim.steps import build_dat, build_form, build_syms, path_of
    w = st['what']
    p = path_of(s, st.get('path'))
    v = s.prog['extra']['vals'][st['val']] if 'val' in st else None
    f = d = syms = None
    if v:
        spec = s.prog['forms'][v['form']]
        syms = build_syms(spec)
        f = build_form(spec, syms)
        if 'dat' in v:
            d = build_dat(s.prog['dats'][v['dat']])
    return w, p, f, d, syms


def do_odd(s, st, a):
    import shgpy
    import shgpy.fformfit as ff
    from shgpy import fformgen as fg
    w, p, f, d, syms = a
    real = {x: 0.5 for x in f.get_free_symbols()} if f is not None else None
    if w == 'save_form':
        shgpy.save_fform(f, p)
    elif w == 'save_form_type':
        shgpy.save_fform({'PP': 1}, p)
    elif w == 'load_form':
        shgpy.load_fform(p)
    elif w == 'save_cost':
        ff.gen_cost_func(f, d, save_filename=p)
    elif w == 'cost_missing_key':
        keys = d.get_keys()
        d = shgpy.fDataContainer([(k + 'x', d.get_pc(k)) for k in keys], M=d.get_M())
        ff.gen_cost_func(f, d, save_filename=p)
    elif w == 'cost_arguments':
        ff.gen_cost_func(f, d, argument_list=[sp.Symbol('nowhere', real=True)], save_filename=p, chunk=st['flag'])
    elif w == 'cost_compiler':
        ff.gen_cost_func(f, d, save_filename=p, method='no-such-compiler', chunk=st['flag'])
    elif w == 'cost_codegen':
        x = sp.Symbol('x', real=True)
        g = shgpy.fFormContainer([(k, np.array([sp.Function('mystery')(x)] * len(f.get_pc(k)), dtype=object))
                                  for k in f.get_keys()], M=f.get_M())
        ff.gen_cost_func(g, d, save_filename=p, chunk=st['flag'])
    elif w == 'model_compiler':
        ff.gen_model_func(f, p, method='no-such-compiler')
    elif w == 'model_codegen':
        x = sp.Symbol('x', real=True)
        g = shgpy.fFormContainer([(k, np.array([sp.Function('mystery')(x)] * len(f.get_pc(k)), dtype=object))
                                  for k in f.get_keys()], M=f.get_M())
        ff.gen_model_func(g, p)
    elif w == 'load_cost':
        ff.load_func(p, **({'multiprocessing': True} if st['flag'] else {}))
    elif w == 'load_model':
        ff.load_model_func(f, p, **({'multiprocessing': True} if st['flag'] else {}))
    elif w == 'fit_guess':
        ff.basinhopping_fit(f, d, {}, 1, save_cost_func_filename=p)
    elif w == 'fit_minimiser':
        def angry(fun, x0, args=(), **kw):
            fun(x0)
            raise Angry('no')
        (ff.basinhopping_fit_jac if st['flag'] else ff.basinhopping_fit)(
            f, d, real, 1, basinhopping_kwargs={'minimizer_kwargs': {'method': angry}})
    elif w == 'fit_bounds':
        b = {k: (2.0, 1.0) for k in real}
        ff.dual_annealing_fit_with_bounds(f, d, real, b, maxiter=1, save_cost_func_filename=p)
    elif w == 'contract_missing':
        t = np.zeros((3, 3, 3), dtype=object)
        fg.generate_contracted_fourier_transforms(p, os.path.join(s.prog['root'], 'work', 'nothing'), t,
                                                  np.zeros((3, 3, 3, 3), dtype=object), M=1)
    elif w == 'contract_complex':
        t = np.zeros((3, 3, 3), dtype=object)
        t[0, 0, 0] = sp.Symbol('z')
        fg.generate_contracted_fourier_transforms(p, os.path.join(s.prog['root'], 'work', 'nothing'), t,
                                                  np.zeros((3, 3, 3, 3), dtype=object), M=1)
    elif w == 'load_data':
        shgpy.load_data({'PP': p}, 'degrees')
    else:
        raise KeyError(w)
