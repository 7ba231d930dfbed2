"""Formula / data specifications, their generator and an evaluator that shares
no code with shgpy or sympy."""
import math
import struct

IRR = {'pi': math.pi, 'sqrt2': math.sqrt(2), 'exp1': math.e}


def eval_terms(terms, x):
    """Value of one Fourier component; x: list of parameter values."""
    tot = 0j
    for re, im, pw, fn in terms:
        v = complex(num(re), num(im))
        for i, p in pw:
            v *= x[i] ** p
        if fn:
            v *= getattr(math, fn[0])(fn[2] * x[fn[1]])
        tot += v
    return tot


def scale_terms(terms, x):
    """Magnitude scale of the summands, for a rounding-error bound."""
    tot = 0.0
    for re, im, pw, fn in terms:
        v = abs(complex(num(re), num(im)))
        for i, p in pw:
            v *= abs(x[i]) ** p
        tot += v
    return tot


def num(c):
    if isinstance(c, str):
        if c in IRR:
            return IRR[c]
        a, b = c.split('/')
        return int(a) / int(b)
    return c


def used_syms(fspec):
    s = set()
    for comps in fspec['keys'].values():
        for terms in comps:
            for re, im, pw, fn in terms:
                if num(re) == 0 and num(im) == 0:
                    continue
                s.update(i for i, p in pw if p)
                if fn:
                    s.add(fn[1])
    return s


def order(fspec):
    """Indices of the parameters in the documented order."""
    return sorted(used_syms(fspec), key=lambda i: fspec['syms'][i][0])


def full(fspec, xs, perm=None):
    """Parameter vector by symbol index from a call vector xs."""
    o = order(fspec) if perm is None else perm
    x = [0.0] * len(fspec['syms'])
    for i, v in zip(o, xs):
        x[i] = v
    return x


def cost(fspec, dspec, xs, perm=None):
    x = full(fspec, xs, perm)
    tot = 0.0
    bound = 0.0
    for k, comps in fspec['keys'].items():
        for j, terms in enumerate(comps):
            d = dval(dspec, k, j)
            tot += abs(eval_terms(terms, x) - d) ** 2
            bound += (scale_terms(terms, x) + abs(d)) ** 2
    return tot, bound


def model(fspec, xs, k, j, perm=None):
    x = full(fspec, xs, perm)
    return eval_terms(fspec['keys'][k][j], x), scale_terms(fspec['keys'][k][j], x)


def grad(fspec, dspec, xs, perm=None):
    """Exact gradient of the cost (polynomial / sin / cos terms)."""
    x = full(fspec, xs, perm)
    o = order(fspec) if perm is None else perm
    g = [0.0] * len(o)
    bound = [0.0] * len(o)
    for k, comps in fspec['keys'].items():
        for j, terms in enumerate(comps):
            d = dval(dspec, k, j)
            r = eval_terms(terms, x) - d
            rb = scale_terms(terms, x) + abs(d)
            for q, i in enumerate(o):
                dv = 0j
                db = 0.0
                for re, im, pw, fn in terms:
                    pws = dict((a, p) for a, p in pw)
                    c = complex(num(re), num(im))
                    base = c
                    for a, p in pw:
                        if a != i:
                            base *= x[a] ** p
                    p = pws.get(i, 0)
                    f = getattr(math, fn[0])(fn[2] * x[fn[1]]) if fn else 1.0
                    t = 0j
                    if p:
                        t += base * p * x[i] ** (p - 1) * f
                    if fn and fn[1] == i:
                        df = (math.cos if fn[0] == 'sin' else math.sin)(fn[2] * x[i]) * fn[2]
                        if fn[0] == 'cos':
                            df = -df
                        t += base * (x[i] ** p) * df
                    dv += t
                    db += abs(base) * (abs(p) * abs(x[i]) ** max(p - 1, 0)
                                       + (abs(fn[2]) * abs(x[i]) ** p if fn else 0))
                g[q] += 2 * (r.conjugate() * dv).real
                bound[q] += 2 * rb * db
    return g, bound


NAMES = ['xxx', 'xyz', 'zxx', 'zzz', 'psi', 'theta', 'a', 'b', 'c', 'Fx',
         'real_xyz', 'imag_xyz', 'real_zzz', 'imag_zzz', 'x1', 'x2', 'x10',
         'xxxx', 'yyyz', 'A', 'B', 'alpha', 'q0', 'q1', 'lambda_', 'kx',
         'beta', 'gamma', 'S', 'N', 'E', 'zeta', 'phi', 'I0', 'X', 'Xx']
KEYSETS = [['PP'], ['SS'], ['PP', 'PS'], ['PP', 'PS', 'SP', 'SS'],
           ['SP', 'PP1'], ['PP0', 'PP1', 'PS0'], ['PP', 'PP_1'], ['S', 'SP', 'SS']]
COEFS = [1.0, -1.0, 0.5, -0.25, 2.0, 3.0, 0.1, 1 / 3, -2.7182818284590451, 1e-3,
         123.456, 0.125, -0.75, 1.5]


def rcoef(rng, ints=True):
    u = rng.random()
    if u < 0.5:
        return rng.choice(COEFS)
    if u < 0.6 and ints:
        return rng.randint(-3, 3) or 1
    if u < 0.62 and ints:
        return rng.choice(sorted(IRR))
    if u < 0.67 and ints:
        return '%d/%d' % (rng.choice([1, 2, -1, 3]), rng.choice([3, 7, 4]))
    return round(rng.uniform(-2, 2), rng.choice([1, 3, 17]))


def gen_term(rng, nsym, maxdeg=2, fns=False):
    pw = {}
    for _ in range(rng.randint(1, maxdeg)):
        i = rng.randrange(nsym)
        pw[i] = pw.get(i, 0) + 1
    style = rng.random()
    re = rcoef(rng) if style < 0.75 else 0
    im = rcoef(rng) if style > 0.45 else 0
    if not num(re) and not num(im):
        re = 1.0
    fn = None
    if fns and rng.random() < 0.25:
        fn = [rng.choice(['sin', 'cos']), rng.randrange(nsym), rng.choice([1, 2, 3])]
    return [re, im, sorted([k, v] for k, v in pw.items()), fn]


def gen_form(rng, M=None, nsym=None, keys=None, nterms=None, fns=False,
             assume='real', maxdeg=2, zero=0.25, const=0.1):
    M = M if M is not None else rng.choice([0, 1, 1, 1, 2, 2, 3])
    nsym = nsym or rng.choice([1, 2, 3, 4])
    names = rng.sample(NAMES, nsym)
    syms = []
    for n in names:
        if assume == 'real':
            a = {'real': True}
        elif assume == 'mixed':
            a = rng.choice([{'real': True}, {}, {'positive': True},
                            {'real': True, 'nonnegative': True}, {'integer': True}])
        syms.append([n, a])
    keys = keys or rng.choice(KEYSETS)
    ks = {}
    for k in keys:
        comps = []
        for m in range(-M, M + 1):
            u = rng.random()
            if u < zero:
                comps.append([])
            elif u < zero + const:
                comps.append([[rcoef(rng), rng.choice([0, rcoef(rng)]), [], None]])
            else:
                n = nterms or rng.choice([1, 1, 2, 3, 5])
                seen, ts = set(), []
                for _ in range(n):
                    t = gen_term(rng, nsym, maxdeg, fns)
                    key = repr(t[2:])
                    if key not in seen:
                        seen.add(key)
                        ts.append(t)
                comps.append(ts)
        ks[k] = comps
    u = rng.random()
    if u < 0.15:
        # the transform of something real: component -m is conjugate to m
        for k in keys:
            for m in range(1, M + 1):
                ks[k][M - m] = [[re, conj(im), pw, fn] for re, im, pw, fn in ks[k][M + m]]
            ks[k][M] = [[re if num(re) else 1.0, 0, pw, fn] for re, im, pw, fn in ks[k][M]]
    elif u < 0.25 and len(keys) > 1:
        # two polarizations with the same formula
        ks[keys[-1]] = [[list(t) for t in c] for c in ks[keys[0]]]
    f = {'M': M, 'syms': syms, 'keys': ks}
    # every parameter occurs
    miss = [i for i in range(nsym) if i not in used_syms(f)]
    k0 = list(ks)[0]
    for i in miss:
        ks[k0][rng.randrange(2 * M + 1)].append([1.0 + i, 0, [[i, 1]], None])
    return f


def twin(rng, f):
    """Another formula whose text is as long and has the same parameters."""
    import copy
    f = copy.deepcopy(f)
    old = repr(f['keys'])
    if rng.random() < 0.3:
        k = rng.choice(list(f['keys']))
        f['keys'][k] = f['keys'][k][1:] + f['keys'][k][:1]
    ts = [(t, q) for c in f['keys'].values() for comp in c for t in comp for q in (0, 1)
          if not isinstance(t[q], str) and t[q]]
    if repr(f['keys']) == old and ts:
        t, q = rng.choice(ts)
        r = repr(t[q])
        at = [i for i, ch in enumerate(r.split('e')[0]) if ch in '123456789'][:5]
        i = at[0] if rng.random() < 0.5 else rng.choice(at)
        r = r[:i] + rng.choice([ch for ch in '123456789' if ch != r[i]]) + r[i + 1:]
        t[q] = int(r) if isinstance(t[q], int) else float(r)
    return f


def conj(im):
    if isinstance(im, str):
        return '-1/1' if im in IRR else im[1:] if im[0] == '-' else '-' + im
    return -im


def gen_dat(rng, fspec, complex_=True, odd=False):
    """odd: single precision, other key order, more keys than the formula."""
    nd = rng.choice([3, 3, 17])

    def v():
        return [round(rng.uniform(-3, 3), nd),
                round(rng.uniform(-3, 3), nd) if complex_ and rng.random() < 0.8 else 0.0]
    d = {'M': fspec['M'],
         'keys': {k: [v() for _ in c] for k, c in fspec['keys'].items()}}
    u = rng.random()
    if u < 0.2:
        for c in d['keys'].values():
            for m in range(1, fspec['M'] + 1):
                re, im = c[fspec['M'] + m]
                c[fspec['M'] - m] = [re, -im]
            c[fspec['M']][1] = 0.0
    if 0.1 < u < 0.3:
        # where the formulas agree, the data do
        seen = {}
        for k, c in fspec['keys'].items():
            seen.setdefault(repr(c), k)
            d['keys'][k] = [list(z) for z in d['keys'][seen[repr(c)]]]
    if 0.3 < u < 0.35:
        for c in d['keys'].values():
            c[rng.randrange(len(c))] = [0.0, 0.0]
    if odd:
        if rng.random() < 0.4:
            d['dt'] = 'c64'
        ks = list(d['keys'])
        if rng.random() < 0.5:
            rng.shuffle(ks)
        d['keys'] = {k: d['keys'][k] for k in ks}
        if rng.random() < 0.3:
            d['keys']['EXTRA'] = [v() for _ in range(2 * fspec['M'] + 1)]
    return d


def dval(dspec, k, j):
    re, im = dspec['keys'][k][j]
    if dspec.get('dt') == 'c64':
        re, im = struct.unpack('ff', struct.pack('ff', re, im))
    return complex(re, im)


def gen_xs(rng, n, count=3):
    out = []
    for _ in range(count):
        out.append([rng.choice([0.0, 1.0, -1.0, round(rng.uniform(-2, 2), 4),
                                round(rng.uniform(-2, 2), 4),
                                round(rng.uniform(-2, 2), 4)]) for _ in range(n)])
    return out
