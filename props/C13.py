"""Calls leave their arguments and the process as they found them."""
import copy
from sim import store

TRIALS = {'quick': 140, 'thorough': 20000}
NAMES = ['new_dat', 'new_fdat', 'new_fform', 'new_form', 'subs', 'phase_formula', 'scale_formula', 'filter', 'merge', 'dat_ops',
         'conversions', 'conversions', 'getters', 'save_form', 'load_form', 'load_data', 'cost', 'load_cost', 'model', 'fit',
         'fit', 'tensors', 'tensors', 'tensors', 'particularize_all', 'formgen', 'plot',
         'quadrupole', 'own_state', 'own_state', 'small']
RULE = ('Each trial calls 4-10 public functions (every one of the package over the trials, with valid, unusual and invalid '
        'arguments and callbacks that fail) in one process, and again with I/O errors, full disks, compiler failures '
        'and interrupts aimed at single operations. Around every call the arguments (every nested list, dictionary, '
        'array, container and symbol), the state of the process, the mutable defaults of every function and the tables '
        'of the package are fingerprinted. In a third of the trials another thread looks at the process state at '
        'seeded points during the calls.')
ASSUME = ['fits are given their seed', 'the plotting calls are not shown on a screen']
MUST = ['raised-by-fault', 'raised-on-its-own', 'returned', 'watched'] + ['call-' + n for n in sorted(set(NAMES))]


def gen(rng, i, tier):
    steps = []
    off = i * 5
    watch = i % 3 == 0
    for q in range(rng.choice([4, 7, 10])):
        n = NAMES[(off + q * 4) % len(NAMES)] if q < 5 else rng.choice(NAMES)
        if watch and n in ('plot',):
            n = 'fit'
        st = {'do': 'call', 'what': n, 'rs': rng.getrandbits(40), 'tables': q % 3 == 0}
        if watch and n in ('cost', 'model', 'fit', 'tensors', 'save_form', 'load_form', 'load_data', 'load_cost', 'merge', 'subs') \
                and rng.random() < 0.5:
            st['lines'] = sorted(rng.sample(range(300), 20))
        steps.append(st)
    a = store.actor(rng, 'p', steps, cwd=rng.choice(['work', 'home']))
    ph = {'actors': [a]}
    if watch:
        a['threads'].append([{'do': 'watch', 'n': 60}])
        ph['sched'] = {'seed': rng.getrandbits(32), 'p': 0.4}
    files = {'work/d.csv': '\n'.join('%d,%d' % (x * 45, 1 + x % 3) for x in range(8)) + '\n', 'work/junk': 'junk'}
    return {'phases': [ph], 'dirs': [], 'files': files, 'extra': {'vals': []}, 'watch': watch}


def variants(rng, sc, out, tier):
    if not out.events:
        return
    for menu in (['err', 'cc', 'full'], ['err', 'rerr', 'cc'] if sc['watch'] else ['int', 'err', 'rerr', 'cc']):
        fs = store.aim(rng, out, menu, rng.choice([2, 3, 4]))
        if fs:
            c = copy.deepcopy(sc)
            c['faults'] = fs
            yield c


def judge(sc, out):
    vs = store.judge_deaths(sc, out)
    for ph, phase in enumerate(sc['phases']):
        for a in phase['actors']:
            for ti, th in enumerate(a['threads']):
                tid = '%s.%d' % (a['id'], ti)
                for st, r in zip(th, out.results[ph].get(tid, [])):
                    n = st.get('what', 'watch')
                    if not r['ok']:
                        if r['exc'] == 'KeyboardInterrupt':
                            continue
                        vs.append({'cls': 'harness', 'fp': 'harness-' + n, 'msg': '%s: %s %s %s' % (
                            n, r['exc'], r['msg'], r.get('tb'))})
                        continue
                    v = r['v']
                    how = ' (it raised %s)' % v['exc'] if v.get('exc') else ''
                    if v.get('args'):
                        vs.append({'cls': 'argument', 'fp': 'argument-' + n, 'msg': 'step %d, %s, changed its arguments %s: '
                                   '%s%s' % (r['i'], n, v['args'], v.get('how'), how)})
                    if v.get('process'):
                        vs.append({'cls': 'process', 'fp': 'process-' + n, 'msg': 'step %d, %s, %s the process state: %s%s' % (
                            r['i'], n, 'saw a change of' if n == 'watch' else 'changed', v['process'], how)})
                    if v.get('tables'):
                        vs.append({'cls': 'tables', 'fp': 'tables-' + n, 'msg': 'step %d, %s, changed %s%s' % (
                            r['i'], n, v['tables'], how)})
    return vs


def probes(sc, out):
    p = {}
    for ph, phase in enumerate(sc['phases']):
        for a in phase['actors']:
            for ti, th in enumerate(a['threads']):
                tid = '%s.%d' % (a['id'], ti)
                for st, r in zip(th, out.results[ph].get(tid, [])):
                    if not r['ok']:
                        continue
                    if st['do'] == 'watch':
                        p['watched'] = 1
                        continue
                    p['call-' + st['what']] = 1
                    p['returned' if not r['v'].get('exc') else
                      'raised-by-fault' if (ph, tid, r['i']) in out.hit else 'raised-on-its-own'] = 1
    return p
