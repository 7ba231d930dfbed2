"""Formula generation: tensors, generators, conversions, evaluated at points.

Results leave the process as numbers: every expression is written with srepr
and evaluated with plain Python arithmetic, symbols taking values that follow
from their names.
"""
import cmath
import hashlib
import itertools

CONST = {'I': 1j, 'pi': cmath.pi, 'E': cmath.e}


def value(name, pt):
    h = hashlib.sha256(('%d:%s' % (pt, name)).encode()).digest()
    return int.from_bytes(h[:6], 'big') / 2**48 * 3 - 1.5


class Evaluator:
    def __init__(self, val):
        self.val = val
        self.syms = set()

    def Symbol(self, name, **kw):
        self.syms.add((name, tuple(sorted(kw.items()))))
        return self.val(name)

    def run(self, text):
        def mul(*a):
            r = 1
            for x in a:
                r = r * x
            return r
        ns = dict(CONST, Symbol=self.Symbol, Dummy=self.Symbol, Add=lambda *a: sum(a), Mul=mul, Pow=lambda a, b: a ** b,
                  Integer=int, Rational=lambda a, b: a / b, Float=lambda s, **k: float(s),
                  cos=cmath.cos, sin=cmath.sin, tan=cmath.tan, exp=cmath.exp, sqrt=cmath.sqrt,
                  conjugate=lambda x: complex(x).conjugate(), re=lambda x: complex(x).real, im=lambda x: complex(x).imag,
                  Abs=abs, __builtins__={})
        return complex(eval(text, ns))


def evaluate(expr, val):
    """(value, symbols) of a sympy expression or number."""
    import sympy as sp
    if not isinstance(expr, sp.Basic):
        return complex(expr), set()
    ev = Evaluator(val)
    return ev.run(sp.srepr(expr)), ev.syms


def num(z):
    return [z.real, z.imag]


def digest_array(a, npts, kinds=('p',)):
    """Values of every entry at the points, and the symbols."""
    syms = set()
    rows = []
    for pt in range(npts):
        row = []
        for e in a.flatten():
            v, s = evaluate(e, lambda n: value(n, pt))
            syms |= s
            row.append(num(v))
        rows.append(row)
    return {'vals': rows, 'syms': sorted([n, list(map(list, k))] for n, k in syms)}


def digest_form(f, npts, get):
    out = {'keys': list(f.get_keys()), 'vals': {}, 'syms': []}
    syms = set()
    for k in out['keys']:
        out['vals'][k] = []
        for pt in range(npts):
            row = []
            for e in get(f.get_pc(k)):
                v, s = evaluate(e, lambda n: value(n, pt))
                syms |= s
                row.append(num(v))
            out['vals'][k].append(row)
    out['syms'] = sorted([n, list(map(list, k))] for n, k in syms)
    out['free'] = sorted(str(s) for s in f.get_free_symbols())
    return out


# ------------------------------------------------------------------- tensors
def make_tensor(sp_):
    import numpy as np
    import sympy as sp
    from shgpy import tensor_definitions as td
    if 'group' in sp_:
        return (td.dipole if sp_['rank'] == 3 else td.quadrupole)[sp_['group']].copy()
    a = np.zeros((3,) * sp_['rank'], dtype=object)
    kw = {'real': True} if sp_.get('real') else {}
    for ix, terms in sp_['entries']:
        e = 0
        for c, n in terms:
            e = e + (sp.Float(c) if sp_.get('floats') else sp.Rational(str(c))) * sp.Symbol(n, **kw)
        a[tuple(ix)] = e
    if sp_.get('plain'):
        a[0, 0, 0] = sp_['plain']
    return a


def linear(a, order=None):
    """Entries of a homogeneous linear tensor as a matrix over its symbols."""
    import sympy as sp
    names = set()
    for e in a.flatten():
        if isinstance(e, sp.Basic):
            names |= {str(s) for s in e.free_symbols}
    names = sorted(names)
    cols = []
    for n in [None] + names:
        cols.append([num(evaluate(e, lambda m: 1.0 if m == n else 0.0)[0]) for e in a.flatten()])
    return {'names': names, 'zero': cols[0], 'cols': cols[1:]}


def feasible(l, rank, ex):
    """Can the conditions be solved for the other parameters?"""
    import numpy as np
    A = np.array([[complex(*x) for x in c] for c in l['cols']]).T
    idx = np.arange(3 ** rank).reshape((3,) * rank)
    D = A[np.swapaxes(idx, rank - 2, rank - 1).ravel()] - A
    rest = [i for i, n in enumerate(l['names']) if n not in ex]
    rk = lambda m: int(np.linalg.matrix_rank(m, tol=1e-9)) if m.size else 0
    return rk(D) == rk(D[:, rest])


def prep_fgen(s, st):
    return {k: make_tensor(v) for k, v in st['tensors'].items()}


def do_fgen(s, st, ts):
    import numpy as np
    import shgpy
    import sympy as sp
    from shgpy import formgen as fo
    from shgpy.core import data_handler as dh
    npts = st.get('npts', 2)
    out = {'pre': {}}
    for name in sorted(ts):
        t = ts[name]
        log = []
        lin = linear(t)
        for op in st['tensors'][name].get('ops', []):
            before = t
            if op[0] == 'real':
                t = shgpy.make_tensor_real(t)
            elif op[0] == 'complex':
                t = shgpy.make_tensor_complex(t, **({'prefix': tuple(op[1]), 'suffix': tuple(op[2])} if len(op) > 1 else {}))
            elif op[0] == 'part':
                ex = [x for x in shgpy.core.utilities._free_symbols_of_array(t) if str(x) in op[2]] if op[2] else []
                kw = {'exclude': ex} if ex and feasible(linear(t), len(t.shape), {str(x) for x in ex}) else {}
                t = shgpy.particularize(t, permute_all_indices=op[1], **kw)
                log.append([op[1], linear(before), linear(t)])
            elif op[0] == 'transform':
                t = shgpy.transform(t, np.array(op[1]))
        ts[name] = t
        d = digest_array(t, npts)
        out['pre'][name] = {'lin': lin, 'part': log, 'vals': d['vals'], 'syms': d['syms']}
    th = sp.Symbol('theta', real=True) if st['theta'] == 'sym' else sp.pi / 18 if st['theta'] == 'pi/18' else st['theta']
    g = st['gen']
    form = None
    if g == 'formgen':
        form = fo.formgen(th, **ts)
    elif g == 'gen_S':
        v = fo.gen_S(th, **ts)
        out['vec'] = [digest_array(np.asarray(x), npts) for x in v]
    elif g == 'just':
        form = fo.formgen_just_dipole(ts['t_eee'], th)
    elif g == 'dq':
        form = fo.formgen_dipole_quadrupole(ts['t_eee'], ts['t_qee'], th)
    elif g == 'P':
        v = fo.gen_P_just_dipole(ts['t_eee'], th)
        out['vec'] = [digest_array(np.asarray(x), npts) for x in v[:2]]
    elif g == 'PQ':
        v = fo.gen_P_dipole_quadrupole(ts['t_eee'], ts['t_qee'], th)
        out['PQ'] = [digest_array(np.asarray(x), npts) for x in v]
        form = fo.make_form_from_P_and_Q(*v)
    if form is not None:
        for op in st.get('post', []):
            if op == 'expand':
                form.expand()
            elif op == 'simplify':
                form.simplify()
            elif op == 'merge':
                form = shgpy.merge_containers([form, form], lambda k, i: k if i == 0 else k + k)
        out['form'] = digest_form(form, npts, lambda e: [e])
        if 'M' in st:
            ff = shgpy.form_to_fform(form, M=st['M'])
            out['fform'] = digest_form(ff, npts, list)
            out['M'] = ff.get_M()
            if st.get('back'):
                out['back'] = digest_form(shgpy.fform_to_form(ff), npts, lambda e: [e])
    return out
