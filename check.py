#!/opt/venv/bin/python
"""Checks one property by seeded simulation of the current tree.

    check.py <property> [--tier quick|thorough] [--runs N] [--seed S]

Exit 0: held in every run.  Exit 1: a line
"VIOLATION property=<id> replay=<path>".  Exit 2: no answer (the check itself
failed).
"""
import argparse
import collections
import json
import os
import shutil
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

from sim import env      # noqa: E402
from sim import known    # noqa: E402
from sim import meta     # noqa: E402
from sim import pool as P      # noqa: E402
from sim import shrink   # noqa: E402
from sim import worker   # noqa: E402

CAP = {'quick': 160, 'thorough': 6 * 3600}


def seed_of(base, i):
    return '%d:%d' % (base, i)


class Check:

    def __init__(self, pid, tier, base, runs):
        self.pid = pid
        self.tier = tier
        self.base = base
        self.n = runs or meta.RUNS[pid][tier]
        self.stats = collections.Counter()
        self.states = set()
        self.digests = set()
        self.bad = {}
        self.harness = []
        self.done = 0
        self.nontrivial = 0
        self.by_flavour = collections.Counter()
        self.faulty = 0
        self.start = time.monotonic()
        self.capped = False
        self.slowest = (0.0, 0)

    # -- search

    def jobs(self):
        for i in range(self.n):
            yield P.flavour_of(i), {
                'i': i, 'pid': self.pid, 'seed': seed_of(self.base, i)}

    def stop(self, job):
        if self.bad and job['i'] > min(self.bad):
            return True
        if time.monotonic() - self.start > CAP[self.tier]:
            self.capped = True
            return True
        return len(self.harness) > 20

    def on_result(self, r):
        self.done += 1
        if r['status'] == 'harness':
            self.harness.append(r)
            return
        if r['status'] != 'ok':
            self.bad[r['i']] = r
            return
        self.by_flavour[P.flavour_of(r['i'])] += 1
        st = r['stats']
        self.stats.update(st)
        self.slowest = max(self.slowest, (r['cpu'], r['i']))
        self.states.update(r['states'])
        if any(k.startswith('fault:') for k in st):
            self.faulty += 1
        if meta.nontrivial(self.pid, st):
            if r['digest'] not in self.digests:
                self.digests.add(r['digest'])

    def run(self):
        scratch = env.make_scratch()
        pool = None
        try:
            so, err = env.build_ext(scratch)
            pool = P.Pool(scratch, so, self.pid)
            if not so:
                print('note: the C extension does not build; running the '
                      'pure Python scorer only')
            pool.map(self.jobs(), self.on_result, self.stop,
                     chunk=4 if self.n < 2000 else 16)
            searched = time.monotonic() - self.start
            verdict = self.verdict(pool)
            if verdict == 0:
                self.repeat(pool)
                self.known_findings(pool, so)
            self.evidence(searched, so, verdict)
            return verdict
        finally:
            if pool is not None:
                pool.close()
            shutil.rmtree(scratch, ignore_errors=True)

    def verdict(self, pool):
        for i in sorted(self.bad):
            if self.confirm(pool, i):
                return 1
        if self.bad:
            print('ERROR: %d executions failed and did not fail again; '
                  'first: %s' % (len(self.bad), self.bad[min(self.bad)]))
            return 2
        if self.harness:
            print('ERROR: the simulator failed in %d runs; first: %s' % (
                len(self.harness), self.harness[0]))
            return 2
        if self.capped and self.done < self.n / 4:
            print('ERROR: only %d of %d runs within the time' % (
                self.done, self.n))
            return 2
        return 0

    def confirm(self, pool, i):
        """Run it again in a new process; minimise; write the replay file."""
        from sim import gen
        first = self.bad[i]
        fl = P.flavour_of(i)
        seed = seed_of(self.base, i)
        for _ in range(3):
            again = pool.one(fl, {'i': i, 'pid': self.pid, 'seed': seed})
            if again.get('kind') == first.get('kind'):
                break
        if again['status'] == 'ok' or again.get('kind') != first.get('kind'):
            print('note: run %s did not repeat: %s then %s' % (
                seed, first, again))
            return False
        plan = json.loads(json.dumps(gen.generate(self.pid, seed)))
        kind = again['kind']
        secs = 45 if self.tier == 'quick' else 300
        if kind == 'hang':
            small, tried = plan, 0
        else:
            sh = shrink.Shrinker(pool, fl, kind, secs)
            small = sh.run(plan, again.get('at'))
            tried = sh.tried
        final = again if kind == 'hang' else pool.one(
            fl, {'i': i, 'plan': small, 'log': True})
        if final['status'] == 'ok' or final.get('kind') != kind:
            small, final = plan, pool.one(fl, {'i': i, 'plan': plan,
                                               'log': True})
        rdir = os.environ.get('VERIF_REPLAYS') or os.path.join(
            VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s.json' % (
            self.pid, seed.replace(':', '-')))
        with open(path, 'w') as f:
            json.dump({
                'property': self.pid, 'seed': seed, 'flavour': fl,
                'kind': kind, 'msg': final.get('msg'),
                'digest': final.get('digest'), 'tb': final.get('tb'),
                'original_steps': len(plan['steps']),
                'steps': len(small['steps']),
                'shrink_runs': tried,
                'plan': small, 'log': final.get('log')}, f, indent=1,
                ensure_ascii=True)
        print('seed %s (%s): %s: %s' % (seed, fl, kind, final.get('msg')))
        print('minimised from %d to %d steps:' % (
            len(plan['steps']), len(small['steps'])))
        for s in small['steps'][:40]:
            print('   ', json.dumps(s)[:200])
        print('VIOLATION property=%s replay=%s' % (self.pid, path))
        self.replay_path = path
        return True

    def repeat(self, pool):
        """Determinism: the same seeds again, in other processes."""
        n = min(self.done, 24 if self.tier == 'quick' else 400)
        step = max(1, self.n // n)
        want = {}
        jobs = [(P.flavour_of(i), {'i': i, 'pid': self.pid, 'seed': seed_of(
            self.base, i)}) for i in range(0, self.n, step)][:n]
        results = collections.defaultdict(list)
        for _ in range(2):
            pool.map(jobs, lambda r: results[r['i']].append(
                r.get('digest')), chunk=1)
        diff = [i for i, d in results.items() if len(set(d)) != 1]
        self.repeated = {'seeds': len(results), 'times': 2,
                         'different': len(diff)}
        if diff:
            print('note: %d of %d repeated seeds took another course: %s' % (
                len(diff), len(results), diff[:5]))
        del want

    def known_findings(self, pool, so):
        self.findings = []
        for text in known.reproduce(self.pid, so):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, text))
            self.findings.append(text)

    # -- evidence

    def evidence(self, searched, so, verdict):
        from sim import gen
        samples = []
        for i in (0, 1, 2):
            plan = gen.generate(self.pid, seed_of(self.base, i))
            samples.append({
                'seed': seed_of(self.base, i),
                'indexes': [{k: v for k, v in ic.items() if k in (
                    'name', 'kind', 'lex', 'threshold', 'cutoff')}
                    for ic in plan['cfg'].get('indexes', [])],
                'config': {k: v for k, v in plan['cfg'].items() if k in (
                    'storage', 'nclients', 'leaf', 'internal', 'cache',
                    'family', 'capacity', 'prelude', 'opcodes')},
                'steps': plan['steps'][:30],
                'steps_total': len(plan['steps']),
                'switches': plan.get('switches', [])[:10],
            })
        st = self.stats
        faults = {k[6:]: v for k, v in sorted(st.items())
                  if k.startswith('fault:')}
        hours = max(searched, 1e-6) / 3600
        cov = {
            'evaluations': self.done,
            'distinct_nontrivial': len(self.digests),
            'rule': meta.rule(self.pid),
            'samples': samples,
            'seeds': '%d:0 .. %d:%d' % (self.base, self.base, self.n - 1),
            'runs_per_hour': int(self.done / hours),
            'simulated_time': {
                'steps': st['steps'], 'commits': st['commits'],
                'restarts': st['restarts'],
                'note': 'the system has no timers; simulated time is the '
                        'number of steps, each transaction taking its '
                        'timestamp from a simulated clock that ticks once '
                        'per commit'},
            'faults_injected': faults,
            'runs_with_faults': self.faulty,
            'interleavings': {
                'distinct_histories': len(self.digests),
                'measure': 'distinct sequences of (client, action, outcome)',
                'commits_merged_by_conflict_resolution': st['merged'],
                'conflicts': st['conflicts'],
                'commits_placed_out_of_commit_order': st['reordered'],
                'thread_switches': st['switches'],
                'yield_points': st['yield-points']},
            'distinct_states': len(self.states),
            'counts': {k: v for k, v in sorted(st.items())},
            'flavours': {
                'C okascore, hash seed 0': self.by_flavour['a'],
                'Python Okapi scorer, hash seed 20231': self.by_flavour['b']},
            'real_components': meta.REAL,
            'simulated_components': meta.STUBS,
            'determinism_repeats': getattr(self, 'repeated', None),
            'slowest_execution': {
                'computing_s': round(self.slowest[0], 1),
                'run': self.slowest[1], 'limit_s': worker.CPU},
            'time_capped': self.capped,
            'known_findings': getattr(self, 'findings', []),
            'extension_built': bool(so),
        }
        if verdict == 1:
            cov['replay'] = self.replay_path
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', self.pid + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump({
                'property': self.pid, 'tier': self.tier, 'seed': self.base,
                'level': 'exploration', 'coverage': cov,
                'assumptions': meta.ASSUMPTIONS,
                'wall_s': round(time.monotonic() - self.start, 2),
                'violations': 1 if verdict == 1 else 0}, f, indent=1)
        os.rename(path + '.tmp', path)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(
        os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    a = ap.parse_args()
    c = Check(a.property, a.tier, a.seed, a.runs)
    try:
        v = c.run()
    except Exception:
        traceback.print_exc(file=sys.stdout)
        v = 2
    if v == 0:
        print('property %s held in %d runs (%d distinct histories, %d faults) '
              'in %.1f s' % (
                  a.property, c.done, len(c.digests), sum(
                      n for k, n in c.stats.items()
                      if k.startswith('fault:')),
                  time.monotonic() - c.start))
    return v


if __name__ == '__main__':
    sys.exit(main())
