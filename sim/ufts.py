"""Fourier-space formula generation: uncontracted sets and contractions.

One generation takes the better part of a minute, nearly all of it in pure
functions of arrays of expressions.  The zygote runs each generation and
contraction the scenarios use once and keeps what those functions returned;
the forked actors then repeat the real calls - every line of the generators,
all of their I/O - on top of that memory.
"""
import hashlib
import os
import pickle

PURE = ['tensor_product', 'tensor_contract', '_substitute_into_array', '_convolve_ftensors', '_conjugate_tensor',
        '_round_complex_tensor']
AOI = [0.3, 0.7]
TENSORS = {
    'real': {'d': {'rank': 3, 'real': True, 'entries': [[[0, 1, 2], [[1, 'a']]], [[2, 2, 2], [[1, 'b']]],
                                                        [[2, 0, 0], [[-2, 'a'], [1, 'b']]]]},
             'q': {'rank': 4, 'real': True, 'entries': [[[0, 1, 2, 2], [[1, 'g']]], [[2, 2, 0, 1], [[3, 'b']]]]}},
    'complex': {'d': {'rank': 3, 'ops': [['complex']], 'entries': [[[1, 0, 2], [[1, 'u']]], [[0, 0, 0], [[1, 'u']]],
                                                                   [[2, 1, 1], [[0.5, 'v']]]]},
                'q': {'rank': 4, 'ops': [['complex']], 'entries': [[[1, 1, 0, 2], [[2, 'v']]], [[0, 2, 0, 0], [[1, 'u']]]]}},
}


def remember(mod):
    memo = {}

    def wrap(name, f):
        def g(*a, **k):
            try:
                q = (name, hashlib.blake2b(pickle.dumps((a, sorted(k.items())), protocol=5)).digest())
            except Exception:
                return f(*a, **k)
            if q not in memo:
                memo[q] = f(*a, **k)
            r = memo[q]
            return r.copy() if hasattr(r, 'copy') else r
        return g
    for n in PURE:
        if callable(getattr(mod, n, None)):
            setattr(mod, n, wrap(n, getattr(mod, n)))


def tensors(spec):
    import shgpy
    from sim.forms import make_tensor
    out = []
    for k in ('d', 'q'):
        t = make_tensor(spec[k])
        for op in spec[k].get('ops', []):
            t = shgpy.make_tensor_complex(t) if op[0] == 'complex' else shgpy.make_tensor_real(t)
        out.append(t)
    return out


def warm(root):
    from shgpy import fformgen as fg
    remember(fg)
    root = os.path.join(root, 'warm%d' % os.getpid())
    os.mkdir(root)
    for aoi in AOI:
        try:
            p = os.path.join(root, 'u%s' % aoi)
            generate(p, aoi, 1)
            fg.generate_contracted_fourier_transforms(p + '.p', p, *tensors(TENSORS['real']), M=1)
        except Exception:
            pass
    import shutil
    assert '/shgpysim-' in root
    shutil.rmtree(root)


def generate(prefix, aoi, M):
    from shgpy import fformgen as fg
    if aoi == 'sym':
        fg.generate_uncontracted_fourier_transforms_symb(prefix, **({} if M is None else {'M': M}))
    else:
        fg.generate_uncontracted_fourier_transforms(aoi, prefix, **({} if M is None else {'M': M}))


def prep_uft(s, st):
    from sim.steps import path_of
    return path_of(s, st['prefix'])


def do_uft(s, st, p):
    generate(p, st['aoi'], st['M'])


def digest(path):
    import shgpy
    from sim.forms import digest_form
    f = shgpy.load_fform(path)
    return dict(digest_form(f, 2, list), M=f.get_M())


def prep_cft(s, st):
    from sim.steps import path_of
    return path_of(s, st['prefix']), path_of(s, st['path']), tensors(st['tensors'])


def do_cft(s, st, a):
    from shgpy import fformgen as fg
    kw = {'M': st['M']} if st['M'] is not None else {}
    if st.get('nd') is not None:
        kw['ndigits'] = st['nd']
    fg.generate_contracted_fourier_transforms(a[1], a[0], *a[2], **kw)


def prep_rdf(s, st):
    from sim.steps import path_of
    return path_of(s, st['path'])


def do_rdf(s, st, p):
    return digest(p)


def prep_tear(s, st):
    from sim.steps import path_of
    return path_of(s, st['path'])


def do_tear(s, st, p):
    """Loses a file, or the end of it, behind the library's back."""
    if st['keep'] is None:
        os.unlink(p)
    else:
        os.truncate(p, int(os.path.getsize(p) * st['keep']))
