#!/opt/venv/bin/python
"""Nothing to build beforehand: checks that the simulator starts."""
import os
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from sim import env     # noqa: E402
from sim import pool as P     # noqa: E402

scratch = env.make_scratch()
pool = None
try:
    so, err = env.build_ext(scratch)
    print('extension:', 'built' if so else 'not built: ' + err)
    pool = P.Pool(scratch, so, slots=1)
    for i in range(4):
        r = pool.one(P.flavour_of(i), {'i': i, 'pid': 'C08',
                                       'seed': '0:%d' % i})
        print(r['status'], r.get('digest'))
        assert r['status'] == 'ok', r
finally:
    if pool is not None:
        pool.close()
    shutil.rmtree(scratch, ignore_errors=True)
