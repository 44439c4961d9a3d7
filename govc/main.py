import sys, os, json, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
from prog import Prog
from spec import Specs
import exec as X
from props import PROPS

def verify_one(prog, specs, fn, prop, opts):
    ex = X.Exec(prog, specs, prop, opts)
    t = time.time()
    err = None
    try:
        ex.verify_lemma(fn[6:]) if fn.startswith('lemma:') else ex.verify(fn, specs.contracts[fn])
    except X.Abort as e:
        err = 'abort: %s' % e
    except X.Unsupported as e:
        err = 'unsupported: %s' % e
    return ex, err, time.time() - t

if __name__ == '__main__':
    p = Prog(sys.argv[1])
    sp = Specs(); sp.load_dir('/verif/contracts')
    prop = sys.argv[2]
    for fn in sys.argv[3:]:
        cands = [f for f in sp.contracts if fn in f] + ['lemma:' + l for l in sp.lemmas if fn == 'lemma:' + l]
        for f in cands:
            ex, err, dt = verify_one(p, sp, f, prop, {**PROPS.get(prop, {}), 'verbose': 1, 'float': 'rnd' if prop.endswith('b') else 'real', 'debugloops': int(os.environ.get('DL', '0')), 'dump': os.environ.get('DUMP')})
            ok = sum(o.status == 'proved' for o in ex.obls)
            print('%s: %d/%d proved %.1fs %s' % (f, ok, len(ex.obls), dt, err or ''))
            for o in ex.obls:
                if o.time > 1: print("   slow", o.name, o.status, o.backend, round(o.time,1))
                if o.status != 'proved':
                    print('   ', o.name, o.status, o.text)
