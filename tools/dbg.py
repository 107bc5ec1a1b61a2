"""debug: run one contract symbolically in this process;  python -m tools.dbg C01 c_name"""
import sys
import traceback
sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
from pv import harness, symdsl, interp as X, prover as R
orig = symdsl.record


SEEN = set()


def rec(label, ok, detail=''):
    if not ok and label not in SEEN:
        SEEN.add(label)
        print('FAIL', label, str(detail)[:int(__import__('os').environ.get('W','500'))])
        print('   facts', R.T.FACTS, 'eq', R.T.EQFACTS, 'b', R.T.BFACTS, 'gen', R.GEN)
        if X.PATHS:
            print('   path', [(str(p)) for ctl in X.PATHS[-1:] for p in getattr(ctl, 'pc', [])])
    orig(label, ok, detail)


symdsl.record = rec
r = harness.run_symbolic(sys.argv[1], sys.argv[2], 600)
r['failed'] = [(a, str(b)[:100]) for a, b in r['failed']]
print({k: v for k, v in r.items() if k not in ('funcs',)})
