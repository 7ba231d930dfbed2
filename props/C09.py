"""A seeded fit gives the same answer everywhere."""
import copy
from sim import store

TRIALS = {'quick': 120, 'thorough': 4000}
KINDS = ['ls', 'lsb', 'bh', 'bhb', 'bhj', 'bhjb', 'da', 'bh', 'bhjb', 'da']
RULE = ('Each trial runs the same 1-3 seeded fits (all seven fit functions) alone; in other processes with another hash '
        'seed, entropy, clock and working folder; after unrelated generations, loads and fits in the same process; '
        'while saving the cost function and after loading it; with short reads, interrupted calls and clock jumps; '
        'and concurrently in other processes and threads under a seeded scheduler. x, fun, xdict, nfev must agree '
        'bit for bit.')
ASSUME = ['the same compiler, CPU and libraries everywhere']
MUST = ['other-hash-seed', 'after-history', 'loaded-cost', 'concurrent', 'kind-ls', 'kind-lsb', 'kind-bh', 'kind-bhb',
        'kind-bhj', 'kind-bhjb', 'kind-da']
SAME = ('x', 'fun', 'xdict', 'xdict_syms', 'nfev', 'lowest', 'success')


def noise(b, rng):
    u = rng.random()
    kw = dict(M=0, keys=['PP'])
    if u < 0.3:
        return b.fit(rng.choice(KINDS))
    if u < 0.5:
        return b.save('cost', None, b.value('cost', **kw))
    if u < 0.6:
        return b.save('model', None, b.value('model', **kw))
    if u < 0.8:
        return {'do': 'consume', 'n': rng.randrange(1, 50)}
    return b.save('form', 'work/noise.p', b.value('form', **kw))


def gen(rng, i, tier):
    b = store.Bench(rng)
    fits = []
    for q in range(rng.choice([1, 1, 2])):
        f = b.fit(KINDS[(i + q) % len(KINDS)], quick=rng.random() < 0.6, tag=q)
        fits.append(f)
    phases = [{'actors': [store.actor(rng, 'ref', copy.deepcopy(fits), z=0)]}]
    # another process, another hash seed, a history before each fit
    for n in range(rng.choice([1, 2])):
        steps = []
        for f in fits:
            for _ in range(rng.choice([0, 1, 2])):
                steps.append(noise(b, rng))
            steps.append(copy.deepcopy(f))
        phases.append({'actors': [store.actor(rng, 'h%d' % n, steps, z=1 + n, wall=1700000000 + 86400 * rng.randrange(900),
                                              cwd=rng.choice(['work', 'home', 'tmp']))]})
    # generated and saved, then loaded
    sv, ld = [], []
    for q, f in enumerate(fits):
        p = {'p': 'work/cost%d.so' % q, 'as': 'str'}
        g = {'p': 'work/grad%d_' % q, 'as': 'str'}
        extra = {'gsave': g} if f['kind'].startswith('bhj') else {}
        sv.append(dict(copy.deepcopy(f), save=p, **extra))
        extra = {'gload': g} if f['kind'].startswith('bhj') else {}
        l = dict(copy.deepcopy(f), load=p, mayfail=True, **extra)
        ld.append(l)
    phases.append({'actors': [store.actor(rng, 'sv', sv + (copy.deepcopy(ld) if rng.random() < 0.5 else []))]})
    phases.append({'actors': [store.actor(rng, 'ld', ld)]})
    # at the same time as others (cost functions only: least squares, annealing
    # and seeded hopping keep their own generators)
    if rng.random() < 0.5:
        a = store.actor(rng, 'c0', copy.deepcopy(fits))
        if rng.random() < 0.5:
            c = store.actor(rng, 'c1', copy.deepcopy(fits), entropy=a['entropy'])
            acts = [a, c]
        else:
            a['threads'] = [copy.deepcopy(fits), [dict(noise(b, rng)), copy.deepcopy(fits[0])]]
            acts = [a]
        phases.append({'actors': acts, 'sched': {'seed': rng.getrandbits(32), 'p': 0.15}})
    return b.finish({'phases': phases, 'dirs': []})


def variants(rng, sc, out, tier):
    if rng.random() < 0.4:
        fs = store.aim(rng, out, ['short', 'eintr', 'clk'], 8)
        if fs:
            c = copy.deepcopy(sc)
            c['faults'] = fs
            yield c


def judge(sc, out):
    vs = store.judge_clean_failures(sc, out) + store.judge_deaths(sc, out)
    ref, saved = {}, set()
    for ph, phase in enumerate(sc['phases']):
        for a in phase['actors']:
            for ti, th in enumerate(a['threads']):
                tid = '%s.%d' % (a['id'], ti)
                for st, r in zip(th, out.results[ph].get(tid, [])):
                    if 'tag' not in st or not r['ok']:
                        if st.get('load') and st.get('tag') in saved and (ph, tid, r['i']) not in out.hit:
                            vs.append({'cls': 'unloadable', 'fp': 'unloadable-' + st['kind'], 'msg':
                                       'fit %s fails with its saved cost function: %s %s %s' % (
                                           st['kind'], r['exc'], r['msg'][:200], r.get('tb'))})
                        continue
                    if st.get('save'):
                        saved.add(st['tag'])
                    if st['tag'] not in ref:
                        ref[st['tag']] = (r['v'], ph, tid)
                        continue
                    a0, ph0, tid0 = ref[st['tag']]
                    for k in SAME:
                        if a0.get(k) != r['v'].get(k):
                            vs.append({'cls': 'differs', 'fp': 'differs-' + st['kind'], 'msg':
                                       'fit %s: %s is %s in %s (phase %d) but %s in %s (phase %d)' % (
                                           st['kind'], k, a0.get(k), tid0, ph0, r['v'].get(k), tid, ph)})
                            break
    return vs


def probes(sc, out):
    p = {}
    if len({a['z'] for ph in sc['phases'] for a in ph['actors']}) > 1:
        p['other-hash-seed'] = 1
    for ph, phase in enumerate(sc['phases']):
        if len(phase['actors']) > 1 or len(phase['actors'][0]['threads']) > 1:
            if out.switches[ph]:
                p['concurrent'] = 1
        for a in phase['actors']:
            for ti, th in enumerate(a['threads']):
                seen = False
                for st, r in zip(th, out.results[ph].get('%s.%d' % (a['id'], ti), [])):
                    if 'tag' in st and r['ok']:
                        p['kind-' + st['kind']] = 1
                        if seen:
                            p['after-history'] = 1
                        if st.get('load'):
                            p['loaded-cost'] = 1
                    seen = True
    return p
