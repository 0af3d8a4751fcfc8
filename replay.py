#!/opt/venv/bin/python
"""Runs a replay file again:  replay.py <file>

Exit 1 and the VIOLATION line if the recorded violation happens again exactly,
0 if the execution is fine now, 3 if something else happens.
"""
import json
import os
import shutil
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

from sim import env      # noqa: E402
from sim import pool as P      # noqa: E402


def main():
    path = sys.argv[1]
    with open(path) as f:
        rec = json.load(f)
    scratch = env.make_scratch()
    pool = None
    try:
        so, err = env.build_ext(scratch)
        pool = P.Pool(scratch, so, rec['property'], slots=1)
        r = pool.one(rec['flavour'], {'i': 0, 'plan': rec['plan'],
                                      'log': True})
    finally:
        if pool is not None:
            pool.close()
        shutil.rmtree(scratch, ignore_errors=True)
    if '-v' in sys.argv:
        for line in r.get('log', []):
            print('  ', line)
        print(r.get('tb', ''))
    if r['status'] == 'ok':
        print('no violation')
        return 0
    print('%s: %s' % (r.get('kind'), r.get('msg')))
    if r.get('kind') == rec['kind'] and r.get('msg') == rec['msg'] and \
            r.get('digest') == rec['digest']:
        print('reproduced exactly')
        print('VIOLATION property=%s replay=%s' % (rec['property'], path))
        return 1
    print('not the recorded execution (%s: %s, %s)' % (
        rec['kind'], rec['msg'], rec['digest']))
    return 3


if __name__ == '__main__':
    sys.exit(main())
