"""python -m sim.show ID TRIAL [faultvariants]: print what one trial does."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import driver

def main():
    pid, i = sys.argv[1], int(sys.argv[2])
    prop = driver.load_prop(pid)
    lab = driver.Lab(1)
    try:
        rig = lab.rig(0)
        rng = driver.trial_rng(pid, int(os.environ.get('VERIF_SEED', '1')), i)
        sc = prop.gen(rng, i, 'quick')
        sc.setdefault('seed', rng.getrandbits(40))
        out, vs = driver.run_one(prop, rig, sc)
        todo = [(sc, out, vs)]
        if len(sys.argv) > 3:
            for v in prop.variants(rng, sc, out, 'quick'):
                v.setdefault('seed', sc['seed'])
                o, w = driver.run_one(prop, rig, v)
                todo.append((v, o, w))
        for s, o, w in todo:
            print('=' * 70)
            for ph in s['phases']:
                print(json.dumps(ph)[:1500])
            print('faults', s.get('faults'), 'fired', o.fired)
            if '-v' in sys.argv:
                for e in o.events:
                    print('  ', e)
            for ph, r in enumerate(o.results):
                for t, x in r.items():
                    for y in x:
                        print(ph, t, json.dumps(y)[:600])
            print('deaths', o.deaths, 'inflight', o.inflight, o.status)
            for x in w:
                print('VIOL', x['cls'], x['msg'][:1500])
        print(rig.tail())
    finally:
        lab.close()
main()
