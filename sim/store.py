"""Saved artifacts as registers: workloads, reference model, checker.

A *value* is what a saved artifact stands for (a formula; the cost function of
a formula and data; its gradient; a model function).  A *path* holds one value
at a time.  Histories are judged by a linearizability search in which a failed
or killed save may or may not have taken effect, and nothing else is allowed.
"""
import copy
import json

from sim import specs
from sim.world import REMOVALS

RTOL = 1e-12


def close(v, ref, bound):
    return v is not None and abs(v - ref) <= RTOL * bound + 1e-12


def cx(o):
    return complex(o['re'], o['im']) if isinstance(o, dict) else complex(o)


def match_cost(sc, j, xs, vals):
    v = sc['extra']['vals'][j]
    f, d = sc['forms'][v['form']], sc['dats'][v['dat']]
    n = len(v['perm']) if v.get('perm') is not None else len(specs.order(f))
    for x, got in zip(xs, vals):
        ref, b = specs.cost(f, d, x[:n], v.get('perm'))
        if not isinstance(got, (int, float)) or not close(got, ref, b):
            return False
    return len(vals) == len(xs)


def match_model(sc, j, xs, rows):
    v = sc['extra']['vals'][j]
    f = sc['forms'][v['form']]
    n = len(specs.order(f))
    for x, row in zip(xs, rows):
        if set(row) != set(f['keys']):
            return False
        for k in f['keys']:
            if len(row[k]) != len(f['keys'][k]):
                return False
            for i, got in enumerate(row[k]):
                ref, b = specs.model(f, x[:n], k, i)
                if not close(cx(got), ref, b + 1e-6):
                    return False
    return len(rows) == len(xs)


def match_grad(sc, j, xs, seen):
    v = sc['extra']['vals'][j]
    f, d = sc['forms'][v['form']], sc['dats'][v['dat']]
    n = len(specs.order(f))
    if len(seen) != len(xs):
        return False
    for x, (fv, g) in zip(xs, seen):
        ref, b = specs.cost(f, d, x[:n])
        if not close(fv, ref, b):
            return False
        gr, gb = specs.grad(f, d, x[:n])
        if g is None or len(g) != n:
            return False
        if not all(close(u, w, z + 1e-6) for u, w, z in zip(g, gr, gb)):
            return False
    return True


MATCH = {'cost': match_cost, 'model': match_model, 'grad': match_grad}


def identify(sc, kind, st, res):
    """Index of the value a successful read returned, or -1."""
    if kind == 'form':
        return res['v']['val']
    for j in st['cands']:
        if MATCH[kind](sc, j, st['xs'], res['v']):
            return j
    return -1


def reference(sc, kind, j, xs):
    """What a perfect implementation would return for value j at xs."""
    v = sc['extra']['vals'][j]
    f = sc['forms'][v['form']]
    if kind == 'model':
        n = len(specs.order(f))
        return [{k: [{'re': z.real, 'im': z.imag} for z in
                     (specs.model(f, x[:n], k, i)[0] for i in range(len(c)))]
                 for k, c in f['keys'].items()} for x in xs]
    d = sc['dats'][v['dat']]
    n = len(v['perm']) if v.get('perm') is not None else len(specs.order(f))
    if kind == 'cost':
        return [specs.cost(f, d, x[:n], v.get('perm'))[0] for x in xs]
    return [[specs.cost(f, d, x[:n])[0], specs.grad(f, d, x[:n])[0]] for x in xs]


def named(f):
    """A formula as plain data, whatever the order of its terms."""
    nm = [json.dumps(x) for x in f['syms']]
    return [f['M'], [[k, [sorted(json.dumps([re, im, sorted([nm[i], p] for i, p in pw),
                                             fn and [fn[0], nm[fn[1]], fn[2]]]) for re, im, pw, fn in t)
                          for t in c]] for k, c in f['keys'].items()]]


def canon(sc, kind, cands, j, xs):
    """The first of cands that cannot be told from value j."""
    if kind == 'form':
        me = named(sc['forms'][sc['extra']['vals'][j]['form']])
        for c in cands:
            if named(sc['forms'][sc['extra']['vals'][c]['form']]) == me:
                return c
        return j
    ref = reference(sc, kind, j, xs)
    for c in cands:
        if MATCH[kind](sc, c, xs, ref):
            return c
    return j


def sk(st):
    d = st['do']
    if d.startswith('save_'):
        return 'w', d[5:]
    if d.startswith('read_'):
        return 'r', d[5:]
    return None, None


def ppath(p):
    return p['p'] if isinstance(p, dict) else p


class Op:
    __slots__ = ('typ', 'kind', 'path', 'val', 'ok', 'b', 'e', 'faulted', 'where', 'res', 'st', 'killed')


def history(sc, out):
    """Every save / read with its interval and outcome."""
    ops = []
    cands = {}
    for phase in sc['phases']:
        for a in phase['actors']:
            for th in a['threads']:
                for st in th:
                    typ, kind = sk(st)
                    if typ == 'r':
                        cands[(kind, ppath(st['path']))] = st
    for ph, phase in enumerate(sc['phases']):
        for a in phase['actors']:
            for ti, th in enumerate(a['threads']):
                tid = '%s.%d' % (a['id'], ti)
                res = out.results[ph].get(tid, [])
                infl = out.inflight[ph].get(tid)
                got = {}
                for i, st in enumerate(th):
                    typ, kind = sk(st)
                    if typ is None or st.get('path') is None:
                        continue
                    o = Op()
                    o.typ, o.kind, o.path, o.st = typ, kind, ppath(st['path']), st
                    o.where = (ph, tid, i)
                    o.faulted = (ph, tid, i) in out.hit
                    o.killed = False
                    if i < len(res) and res[i].get('skip'):
                        continue
                    if i < len(res):
                        o.res, o.ok = res[i], res[i]['ok']
                        o.b, o.e = res[i]['b'], res[i]['e']
                    elif infl and infl['i'] == i and infl['started']:
                        o.res, o.ok, o.killed = None, False, True
                        o.b, o.e = infl['b'], infl['e']
                    else:
                        continue
                    o.val = st.get('val') if typ == 'w' else None
                    if typ == 'r' and o.ok:
                        o.val = identify(sc, kind, st, o.res)
                        if st.get('var'):
                            got[st['var']] = o.val
                    if typ == 'w' and st.get('src'):
                        o.val = got.get(st['src'], o.val)
                    if typ == 'w' and (kind, o.path) in cands:
                        rd = cands[(kind, o.path)]
                        o.val = canon(sc, kind, rd['cands'], o.val, rd.get('xs'))
                    ops.append(o)
    return ops


def linearizable(ops, loose, count_lost=True):
    """Is there a sequential order of one path's operations that explains what
    every read saw?  loose: an unfinished save may also leave nothing."""
    todo = []
    for o in ops:
        if o.typ == 'r':
            if o.ok:
                todo.append(('r', o.val, o.b, o.e, True))
            elif not o.killed and not o.faulted and count_lost:
                todo.append(('r', None, o.b, o.e, True))
        else:
            todo.append(('w', o.val, o.b, o.e, o.ok))
    n = len(todo)
    seen = set()

    def rec(done, state):
        if done == (1 << n) - 1:
            return True
        if (done, state) in seen:
            return False
        seen.add((done, state))
        first_end = min(todo[i][3] for i in range(n) if not done >> i & 1)
        for i in range(n):
            if done >> i & 1:
                continue
            t, v, b, e, must = todo[i]
            if b > first_end:
                continue
            nd = done | 1 << i
            if t == 'r':
                if state == v and rec(nd, state):
                    return True
            else:
                if rec(nd, v):
                    return True
                if not must:
                    if rec(nd, state):
                        return True
                    if loose and rec(nd, None):
                        return True
        return False

    return rec(0, None)


def describe(o):
    r = 'killed' if o.killed else ('ok' if o.ok else o.res['exc'] + ': ' + o.res['msg'][:120])
    if o.typ == 'r' and o.ok:
        r = 'value %s' % o.val
    return '%s %s%s at %s -> %s' % ('save' if o.typ == 'w' else 'load', o.kind,
                                    ' value %s' % o.val if o.typ == 'w' else '', o.where, r)


def judge_registers(sc, out, loose_kinds=('model', 'grad')):
    vs = []
    by = {}
    for o in history(sc, out):
        by.setdefault((o.kind, o.path), []).append(o)
    for (kind, path), ops in by.items():
        loose = kind in loose_kinds
        for o in ops:
            if o.typ == 'r' and o.ok and o.val == -1:
                vs.append({'cls': 'garbage-' + kind, 'fp': 'garbage-' + kind, 'msg':
                           'loading %s %s returned something that was never saved there (%s); history: %s' % (
                               kind, path, str(o.res.get('v'))[:200], '; '.join(map(describe, ops)))})
                break
        else:
            if not linearizable(ops, loose):
                cls = 'lost-' if linearizable(ops, loose, False) else 'stale-'
                vs.append({'cls': cls + kind, 'fp': cls + kind, 'msg':
                           '%s %s: no order of the completed saves explains the loads: %s' % (
                               kind, path, '; '.join(map(describe, ops)))})
    return vs


def judge_returned(sc, out):
    """What a completed save step handed back computes the value it saved."""
    vs = []
    for ph, phase in enumerate(sc['phases']):
        for a in phase['actors']:
            for ti, th in enumerate(a['threads']):
                tid = '%s.%d' % (a['id'], ti)
                for st, r in zip(th, out.results[ph].get(tid, [])):
                    typ, kind = sk(st)
                    if typ == 'w' and r['ok'] and kind in MATCH:
                        if not MATCH[kind](sc, st['val'], st['xs'], r['v']):
                            vs.append({'cls': 'returned-' + kind, 'fp': 'returned-' + kind, 'msg':
                                       'the %s function returned by step %s of %s is wrong: %s' % (
                                           kind, r['i'], tid, str(r['v'])[:300])})
    return vs


def judge_held(sc, out):
    """A function obtained earlier still computes the value it stood for.
    Variable names are unique within a process (its threads share them)."""
    vs = []
    for ph, phase in enumerate(sc['phases']):
        for a in phase['actors']:
            held = {}
            steps = []
            for ti, th in enumerate(a['threads']):
                tid = '%s.%d' % (a['id'], ti)
                for st, r in zip(th, out.results[ph].get(tid, [])):
                    if r.get('skip'):
                        continue
                    steps.append((tid, st, r))
                    typ, kind = sk(st)
                    if st.get('var') and typ and r['ok']:
                        held[st['var']] = st['val'] if typ == 'w' else identify(sc, kind, st, r)
            for tid, st, r in steps:
                if st['do'] in ('recheck', 'recheck_model'):
                    j = held.get(st['use'])
                    if j is None or j == -1:
                        continue
                    if not r['ok']:
                        if (ph, tid, r['i']) in out.hit:
                            continue
                        vs.append({'cls': 'held-' + st['kind'], 'fp': 'held-' + st['kind'], 'msg':
                                   'evaluating a held %s function failed: %s: %s (%s)' % (
                                       st['kind'], r['exc'], r['msg'][:200], r.get('tb'))})
                    elif not MATCH[st['kind']](sc, j, st['xs'], r['v']):
                        vs.append({'cls': 'held-' + st['kind'], 'fp': 'held-' + st['kind'], 'msg':
                                   'a held %s function of value %s computes something else at step %s of %s '
                                   '(%s layout) for %s: %s' % (st['kind'], j, r['i'], tid, st.get('layout'),
                                                              st['xs'], str(r['v'])[:300])})
    return vs


def judge_clean_failures(sc, out):
    """A step may only fail if something failed under it."""
    vs = []
    for ph, phase in enumerate(sc['phases']):
        for a in phase['actors']:
            for ti, th in enumerate(a['threads']):
                tid = '%s.%d' % (a['id'], ti)
                for i, (st, r) in enumerate(zip(th, out.results[ph].get(tid, []))):
                    if r['ok'] or r.get('skip') or (ph, tid, i) in out.hit:
                        continue
                    if sk(st)[0] == 'r' or st.get('mayfail'):
                        continue        # judged against the register model
                    vs.append({'cls': 'spurious-' + st['do'], 'fp': 'spurious-' + st['do'], 'msg':
                               '%s failed with nothing wrong underneath: %s: %s (%s)' % (
                                   st['do'], r['exc'], r['msg'][:200], r.get('tb'))})
    return vs


def judge_deaths(sc, out):
    vs = []
    for ph, d in enumerate(out.deaths):
        for a, how in d.items():
            if how.startswith('signal'):
                vs.append({'cls': 'died', 'fp': 'died', 'msg': 'process %s of phase %d died: %s' % (a, ph, how)})
            elif how in ('deadlock', 'livelock', 'hang'):
                vs.append({'cls': how, 'fp': how, 'msg': 'process %s of phase %d: %s' % (a, ph, how)})
    return vs


# ------------------------------------------------------------- workload parts
def path_spec(rng, p, spell=True):
    return {'p': p, 'as': rng.choice(['str', 'path', 'rel', 'relpath', 'link', 'dotdot']) if spell else 'str'}


def small_form(rng, **kw):
    kw.setdefault('M', rng.choice([0, 1, 1]))
    kw.setdefault('nsym', rng.choice([1, 2, 2, 3]))
    kw.setdefault('keys', rng.choice([['PP'], ['SS'], ['PP', 'PS'], ['SP', 'SS']]))
    kw.setdefault('nterms', rng.choice([1, 2, 3]))
    return specs.gen_form(rng, **kw)


class Bench:
    """Collects forms, data, values, and per-path candidates."""

    def __init__(self, rng):
        self.rng = rng
        self.forms, self.dats, self.vals = [], [], []
        self.cands = {}
        self.n = {}

    def value(self, kind, like=None, odd=False, **kw):
        """A new value; like: keep keys and M of this one (model folders).
        odd: unusual data containers and argument lists."""
        rng = self.rng
        if like is not None:
            f0 = self.forms[self.vals[like]['form']]
            kw['M'] = f0['M']
            kw['keys'] = list(f0['keys'])
            if kind == 'model':
                kw['nsym'] = len(f0['syms'])
        near = [v for v in self.vals if v['kind'] == kind and self.forms[v['form']]['M'] == kw.get('M')
                and list(self.forms[v['form']]['keys']) == kw.get('keys')]
        if near and not odd and rng.random() < 0.3:
            # as like an earlier one as can be: same names, same sizes
            v = copy.deepcopy(near[-1])
            self.forms.append(specs.twin(rng, self.forms[v['form']]))
            v['form'] = len(self.forms) - 1
            self.vals.append(v)
            return len(self.vals) - 1
        f = small_form(rng, **kw)
        self.forms.append(f)
        v = {'kind': kind, 'form': len(self.forms) - 1}
        if kind in ('cost', 'grad'):
            self.dats.append(specs.gen_dat(rng, f, odd=odd))
            v['dat'] = len(self.dats) - 1
        if kind == 'cost' and rng.random() < 0.3:
            p = specs.order(f)
            if odd and rng.random() < 0.3:
                free = [n for n in specs.NAMES if n not in [x[0] for x in f['syms']]]
                f['syms'].append([rng.choice(free), {'real': True}])
                p.append(len(f['syms']) - 1)
            rng.shuffle(p)
            v['perm'] = p
        self.vals.append(v)
        return len(self.vals) - 1

    def save(self, kind, path, val, spell=True, srcpath=None, **kw):
        """srcpath: what is saved was read there (and may be older than val)."""
        p = ppath(path)
        if p is not None:
            c = self.cands.setdefault((kind, p), [])
            for v in [val] + (self.cands[(kind, srcpath)] if srcpath else []):
                if v not in c:
                    c.append(v)
        st = {'do': 'save_' + kind, 'val': val,
              'path': path if isinstance(path, dict) or path is None else path_spec(self.rng, path, spell)}
        if kind == 'grad':
            st['bounded'] = self.rng.random() < 0.5
        if kind == 'cost':
            st['chunk'] = self.rng.choice([None, True, False])
        if kind == 'model':
            st['mtpf'] = self.rng.choice([None, 1, 2, 3])
        st.update(kw)
        return st

    def read(self, kind, path, spell=True, **kw):
        st = {'do': 'read_' + kind,
              'path': path if isinstance(path, dict) else path_spec(self.rng, path, spell)}
        if kind == 'grad':
            st['bounded'] = self.rng.random() < 0.5
        if kind in ('cost', 'model') and self.rng.random() < 0.25:
            st['mp'] = True
        st.update(kw)
        return st

    def fit(self, kind, val=None, quick=True, **kw):
        """A seeded fit.  kind: ls lsb bh bhb bhj bhjb da"""
        rng = self.rng
        if val is None:
            M, keys = rng.choice([(0, ['PP']), (0, ['PP']), (1, ['PP']), (0, ['SS', 'PP', 'PS']), (1, ['SP', 'PP']),
                                  (0, ['PP', 'PS', 'SP', 'SS'])])
            val = self.value('grad', M=M, keys=keys, nsym=rng.choice([1, 2, 3]),
                             nterms=rng.choice([1, 2]), const=0.0)
        v = self.vals[val]
        f = self.forms[v['form']]
        n = len(f['syms'])
        st = {'do': 'fit', 'kind': kind, 'form': v['form'], 'dat': v['dat'],
              'guess': [round(rng.uniform(-1, 1), 3) for _ in range(n)]}
        if kind in ('lsb', 'bhb', 'bhjb', 'da'):
            st['bounds'] = [sorted([round(g - rng.uniform(0.1, 2), 3), round(g + rng.uniform(0.1, 2), 3)])
                            for g in st['guess']]
        if kind.startswith('bh') or kind == 'da':
            st['seed'] = rng.choice([0, 1, rng.randrange(1 << 30), rng.randrange(1 << 30)])
            if rng.random() < 0.15:
                st['seedtype'] = rng.choice(['RandomState', 'Generator'])
        st['niter'] = rng.choice([0, 1, 2]) if quick else rng.choice([1, 5, 20])
        st['maxiter'] = rng.choice([1, 3]) if quick else rng.choice([5, 30])
        if kind in ('ls', 'lsb', 'bh', 'bhb', 'da') and rng.random() < 0.4:
            st['chunk'] = rng.random() < 0.5
        if kind == 'da':
            st['local'] = rng.random() < 0.5
        st.update(kw)
        return st

    def recheck(self, src, **kw):
        """Evaluate again what src (a save or read step with `var`) gave."""
        kind = sk(src)[1]
        return dict({'do': 'recheck' if kind == 'cost' else 'recheck_model', 'use': src['var'],
                     'kind': kind, 'src_step': src}, **kw)

    def nparams(self, j):
        v = self.vals[j]
        return len(v['perm']) if v.get('perm') is not None else len(specs.order(self.forms[v['form']]))

    def finish(self, sc):
        """Fill in candidates and evaluation points of every step."""
        rng = self.rng
        xs = {}
        for (kind, p), c in self.cands.items():
            if kind != 'form':
                n = max(self.nparams(j) for j in c)
                xs[(kind, p)] = [[round(rng.uniform(-1.5, 1.5), 3) or 0.5 for _ in range(n)] for _ in range(2)]
        for ph in sc['phases']:
            for a in ph['actors']:
                for th in a['threads']:
                    for st in th:
                        typ, kind = sk(st)
                        if typ is None:
                            continue
                        key = (kind, ppath(st['path'])) if st.get('path') is not None else None
                        c = self.cands.get(key, [st['val']] if 'val' in st else [])
                        if typ == 'r':
                            st['cands'] = c
                            if not c and kind != 'form':
                                st['val'] = next((j for j, v in enumerate(self.vals) if v['kind'] == kind), None)
                                if st['val'] is None:
                                    st['val'] = self.value(kind)
                            if kind == 'model' and c:
                                st['val'] = c[0]
                            if kind == 'grad' and c:
                                st['val'] = max(c, key=self.nparams)
                        if kind != 'form':
                            x = xs.get(key)
                            if x is None:
                                x = [[round(rng.uniform(-1.5, 1.5), 3) or 0.5
                                      for _ in range(self.nparams(st['val']))] for _ in range(2)]
                            if kind == 'grad' and typ == 'w':
                                x = [r[:self.nparams(st['val'])] for r in x]
                            st['xs'] = x
        for ph in sc['phases']:
            for a in ph['actors']:
                for th in a['threads']:
                    for st in th:
                        src = st.pop('src_step', None)
                        if src is not None:
                            st['xs'] = [[rng.choice([0.0, 1.0, -2.0, 1e3, round(rng.uniform(-2, 2), 4)])
                                         for _ in x] for x in src['xs']]
                            st['cands'] = src.get('cands', [src.get('val')])
                            if 'val' in src:
                                st['val'] = src['val']
        sc['forms'], sc['dats'] = self.forms, self.dats
        sc.setdefault('extra', {})['vals'] = self.vals
        return sc


def actor(rng, aid, steps, **kw):
    a = {'id': aid, 'z': rng.randrange(3), 'threads': [steps], 'entropy': rng.getrandbits(48)}
    a.update(kw)
    return a


def aim(rng, out, kinds, n, phases=None, steps=None, prefer=None):
    """n single faults placed on operations the fault-free run performed."""
    from sim.world import pick_fault
    ev = [e for e in out.events if e[4] != 'blocked' and (phases is None or e[0] in phases)
          and (steps is None or (e[0], e[1], e[2]) in steps)]
    res = []
    if not ev:
        return res
    inter = [e for e in ev if e[4] not in ('stat',)]
    tries = 0
    while len(res) < n and tries < 20 * n:
        tries += 1
        pool = ev
        if rng.random() < 0.7 and inter:
            pool = inter
        if prefer and rng.random() < 0.4:
            pp = [e for e in ev if prefer(e)]
            pool = pp or pool
        e = rng.choice(pool)
        f = pick_fault(rng, e[4], kinds)
        if f:
            res.append(dict(f, ph=e[0], t=e[1], s=e[2], k=e[3]))
    return res
