"""Nothing is left behind."""
import copy
from sim import store
from sim.world import REMOVALS

TRIALS = {'quick': 170, 'thorough': 6000}
RULE = ('Each trial runs one or two processes saving, generating, loading, fitting and loading data among unrelated files, '
        'mixed with calls that must fail on their own (bad arguments, unusable paths, files that are not libraries, '
        'callbacks and compilers that fail), then again with I/O errors, full disks and compiler failures aimed at '
        'their operations. After every phase the whole file tree is compared with what was there plus the requested '
        'artifacts; descriptors and the working directory are compared around every call.')
ASSUME = ['removing a file or folder (and looking at it to do so) does not itself fail',
          'the process is not killed or interrupted']
MUST = ['raised-on-its-own', 'raised-by-fault', 'saved', 'unsaved-function', 'overwrote', 'fit', 'bystanders']

ODD = ['save_form', 'save_form_type', 'load_form', 'save_cost', 'cost_missing_key', 'cost_arguments', 'cost_compiler',
       'cost_codegen', 'model_compiler', 'model_codegen', 'load_cost', 'load_model', 'fit_guess', 'fit_minimiser',
       'fit_bounds', 'contract_missing', 'contract_complex', 'load_data']
BY = ['work/other.txt', 'work/sub/other.so', 'tmp/someone.txt', 'tmp/tmpabc/x', 'home/notes', 'work/energy.c',
      'work/wrapped_code_0.c', 'work/c.so.bak', 'work/m.old/x', 'by/z', 'work/.hidden']


def gen(rng, i, tier):
    b = store.Bench(rng)
    files = {p: 'precious %d\n' % n for n, p in enumerate(rng.sample(BY, rng.choice([4, 7, len(BY)])))}
    files['work/d.csv'] = '\n'.join('%d,%d' % (x * 30, 1 + x % 5) for x in range(12)) + '\n'
    files['work/junk'] = 'not a library'
    phases = []
    small = dict(M=0, keys=['PP'])
    for n in range(rng.choice([1, 1, 2])):
        steps = []
        for q in range(rng.choice([2, 3, 4])):
            u = rng.random()
            if u < 0.42:
                w = rng.choice(ODD)
                st = {'do': 'odd', 'what': w, 'flag': rng.random() < 0.5}
                if w in ('load_cost', 'load_model', 'load_form', 'load_data'):
                    st['path'] = store.path_spec(rng, rng.choice(['work/junk', 'work/sub', 'work/missing', 'work/d.csv' if w != 'load_data' else 'work/junk']))
                elif w in ('save_form', 'save_cost'):
                    st['path'] = store.path_spec(rng, rng.choice(['work/nodir/x', 'work/junk/x', 'work/sub']))
                elif w == 'model_compiler' or w == 'model_codegen':
                    st['path'] = store.path_spec(rng, rng.choice(['work/m', 'work/m3']))
                elif w.startswith('cost') or w in ('fit_guess', 'fit_bounds'):
                    st['path'] = store.path_spec(rng, rng.choice(['work/c.so', 'work/c3.so'])) if rng.random() < 0.7 else None
                elif w.startswith('contract'):
                    st['path'] = {'p': 'work/k.p', 'as': 'str'}
                elif w == 'save_form_type':
                    st['path'] = {'p': 'work/f.p', 'as': 'str'}
                if w not in ('load_cost', 'load_form', 'load_data', 'contract_missing', 'contract_complex', 'save_form_type'):
                    st['val'] = b.value('grad', **small)
                steps.append(st)
            elif u < 0.5:
                steps.append({'do': 'load', 'fn': rng.choice(['load_data', 'load_data_and_fourier_transform']), 'units': 'degrees',
                              'data': {'PP': store.path_spec(rng, 'work/d.csv')}, 'M': 2})
            elif u < 0.62:
                f = b.fit(rng.choice(['ls', 'lsb', 'bh', 'bhb', 'bhj', 'bhjb', 'da']), maxiter=1, niter=1)
                if rng.random() < 0.5:
                    f['save'] = store.path_spec(rng, 'work/fc.so')
                    if f['kind'].startswith('bhj'):
                        f['gsave'] = store.path_spec(rng, 'work/fg')
                steps.append(f)
            else:
                kind = rng.choice(['form', 'cost', 'cost', 'cost', 'model', 'grad' if i % 4 == 0 else 'cost'])
                p = {'form': 'work/f.p', 'cost': 'work/c.so', 'model': 'work/m', 'grad': 'work/gr.so'}[kind]
                kw = dict(small) if kind in ('model', 'grad') else dict(M=rng.choice([0, 1]))
                v = b.value(kind, **kw)
                if kind in ('cost', 'model') and rng.random() < 0.35:
                    p = None
                steps.append(b.save(kind, p, v))
                if p and rng.random() < 0.5:
                    steps.append(b.read(kind, p))
        for st in steps:
            st['probe'] = True
        phases.append({'actors': [store.actor(rng, 'r%d' % n, steps, cwd=rng.choice(['work', 'work', 'home', 'tmp']))]})
    return b.finish({'phases': phases, 'dirs': ['work/sub', 'by/deep'], 'files': files})


def variants(rng, sc, out, tier):
    for q in range(4):
        menu = rng.choice([['err', 'cc'], ['err', 'full', 'cc'], ['rerr', 'cc', 'err']])
        pref = rng.choice([lambda e: e[4] in ('write', 'openw', 'openx', 'rename', 'cc', 'mkdir'),
                           lambda e: e[4] in ('cc', 'dlopen', 'system', 'fork'),
                           lambda e: e[4] in ('read', 'openr', 'close')])
        fs = store.aim(rng, out, menu, rng.choice([1, 1, 2]), prefer=pref)
        fs = [f for f in fs if not cleanup(dict(f, op=op_at(out, f)))]
        if fs:
            c = copy.deepcopy(sc)
            c['faults'] = fs
            yield c


def op_at(out, f):
    for e in out.events:
        if (e[0], e[1], e[2], e[3]) == (f['ph'], f['t'], f['s'], f['k']):
            return e[4]


def cleanup(f):
    return f['op'] in REMOVALS or f['op'] == 'stat'


def artifacts(st, ok):
    """(exact paths, folders, prefixes) a step was asked to write."""
    ex, fo, pre = [], [], []
    do = st['do']
    p = store.ppath(st.get('path')) if st.get('path') is not None else None
    if do in ('save_form', 'save_cost') and p:
        ex.append(p)
    elif do == 'save_model' and p:
        fo.append(p)
    elif do == 'save_grad' and p:
        ex.append(p)
        pre.append(p + '_g')
    elif do == 'odd' and p and (ok or st['what'].startswith('fit')):
        ex.append(p)            # (the fit may fail after it saved its cost function)
        fo.append(p)
    elif do == 'fit':
        if st.get('save'):
            ex.append(store.ppath(st['save']))
        if st.get('gsave'):
            pre.append(store.ppath(st['gsave']))
    return ex, fo, pre


def initial(sc):
    import hashlib
    ini = {p: hashlib.sha1(c.encode('utf-8', 'surrogateescape')).hexdigest()[:16] for p, c in sc['files'].items()}
    dirs = set(['work', 'tmp', 'home', 'by', 'lnk']) | set(sc['dirs'])
    for p in list(sc['files']) + list(sc['dirs']):
        while '/' in p:
            p = p.rsplit('/', 1)[0]
            dirs.add(p)
    return ini, dirs


def judge(sc, out):
    vs = store.judge_deaths(sc, out)
    files, dirs = initial(sc)
    ex, fo, pre = set(), set(), set()
    dirty = any(cleanup(f) for f in out.fired)
    for ph, phase in enumerate(sc['phases']):
        last = ''
        for a in phase['actors']:
            tid = a['id'] + '.0'
            for st, r in zip(a['threads'][0], out.results[ph].get(tid, [])):
                name = st['do'] + ('-' + st['what'] if st['do'] == 'odd' else '')
                last += '%s%s; ' % (name, '' if r['ok'] else ' (%s: %s)' % (r['exc'], r['msg'][:60]))
                e, f, p = artifacts(st, r['ok'])
                ex.update(e)
                fo.update(f)
                pre.update(p)
                if r.get('skip'):
                    continue
                if r.get('cwd'):
                    vs.append({'cls': 'cwd', 'fp': 'cwd-' + name, 'msg': '%s moved the working directory: %s' % (name, r['cwd'])})
                if r['fd'] > 0:
                    vs.append({'cls': 'fd', 'fp': 'fd-' + name, 'msg': '%s left %d descriptors open (%s)' % (
                        name, r['fd'], 'returned' if r['ok'] else r['exc'] + ' ' + r['msg'][:100])})
        snap = out.snaps[ph]
        for p, h in files.items():
            if p in ex or any(p.startswith(x + '/') for x in fo):
                continue
            if p not in snap:
                vs.append({'cls': 'deleted', 'fp': 'deleted', 'msg': '%s was deleted by one of: %s' % (p, last)})
            elif snap[p][0] != 'f' or snap[p][2] != h:
                vs.append({'cls': 'changed', 'fp': 'changed', 'msg': '%s was changed by one of: %s' % (p, last)})
        for d in dirs:
            if d not in snap:
                vs.append({'cls': 'deleted', 'fp': 'deleted', 'msg': 'folder %s was deleted by one of: %s' % (d, last)})
        if dirty:
            continue
        for p, (k, n, h) in snap.items():
            if p in files or p in dirs or p in ex or p in fo or any(p.startswith(x + '/') for x in fo) \
                    or any(p.startswith(x) for x in pre):
                continue
            vs.append({'cls': 'residue', 'fp': 'residue', 'msg': '%s (%s, %d bytes) was left behind by one of: %s' % (
                p, {'d': 'folder', 'f': 'file'}.get(k, k), n, last)})
            break
        if any(x == p or p.startswith(x + '/.') for x in ex for p, v in snap.items() if v[0] == 'd'):
            vs.append({'cls': 'residue', 'fp': 'residue', 'msg': 'a folder stands where a file was asked for: %s' % last})
    return vs


def probes(sc, out):
    p = {}
    if len(sc['files']) > 4:
        p['bystanders'] = 1
    for ph, phase in enumerate(sc['phases']):
        for a in phase['actors']:
            tid = a['id'] + '.0'
            done = set()
            for i, (st, r) in enumerate(zip(a['threads'][0], out.results[ph].get(tid, []))):
                if not r['ok']:
                    p['raised-by-fault' if (ph, tid, i) in out.hit else 'raised-on-its-own'] = 1
                elif st['do'].startswith('save_'):
                    p['saved' if st.get('path') else 'unsaved-function'] = 1
                    if st.get('path'):
                        q = store.ppath(st['path'])
                        if q in done:
                            p['overwrote'] = 1
                        done.add(q)
                elif st['do'] == 'fit':
                    p['fit'] = 1
    return p
