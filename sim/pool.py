"""Runs jobs on worker processes of both flavours, in parallel."""
import json
import os
import queue
import subprocess
import threading
import time

from sim import env

HASHSEED = {'a': '0', 'b': '20231', 'old': '77'}
# profiles with a node that runs the package of released/
UPGRADING = ('C22',)
# profiles whose C code runs on Python's checking allocator
CHECKING = ('C11', 'C21')


def fixed_addresses():
    """No address randomization in the processes started from here."""
    try:
        import ctypes
        libc = ctypes.CDLL(None)
        libc.personality(libc.personality(0xffffffff) | 0x0040000)
    except Exception:
        pass


def flavour_of(i):
    """Which implementation and hash seed run number i uses."""
    return 'b' if i % 5 in (1, 3) else 'a'


class WorkerFailed(Exception):
    pass


class Worker:

    def __init__(self, pool, flavour):
        self.pool = pool
        self.flavour = flavour
        self.p = None

    def start(self):
        e = dict(os.environ)
        e.update(PYTHONHASHSEED=HASHSEED[self.flavour], PURE_PYTHON='0',
                 PYTHONDONTWRITEBYTECODE='1', MALLOC_ARENA_MAX='2')
        e.pop('PYTHONPATH', None)
        e.pop('PYTHONMALLOC', None)
        if self.pool.pid in CHECKING and self.flavour == 'a':
            e['PYTHONMALLOC'] = 'debug'
        self.err = open(os.path.join(self.pool.scratch, 'err-%d' % id(self)),
                        'w+b')
        self.p = subprocess.Popen(
            [env.PY, '-W', 'ignore', os.path.join(
                env.VERIF, 'sim', 'worker.py'), 'run', self.pool.scratch,
             self.pool.so or '-', self.flavour,
             self.pool.pid or '-'],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
            env=e, cwd=self.pool.scratch)
        if self.p.stdout.readline().strip() != b'ready':
            self.fail()

    def fail(self):
        self.p.kill()
        self.err.seek(0)
        raise WorkerFailed(self.err.read().decode('utf-8', 'replace')[-3000:])

    def run(self, jobs):
        if self.p is None:
            self.start()
        self.p.stdin.write(json.dumps(jobs).encode() + b'\n')
        self.p.stdin.flush()
        out = []
        while True:
            line = self.p.stdout.readline()
            if not line:
                self.fail()
            if line == b'done\n':
                return out
            out.append(json.loads(line))

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()


class Pool:

    def __init__(self, scratch, so, pid=None, slots=None):
        fixed_addresses()
        self.pid = pid
        self.scratch = scratch
        self.so = so
        self.slots = slots or max(2, min(8, len(os.sched_getaffinity(0))))
        self.workers = [{f: Worker(self, f) for f in 'ab'}
                        for _ in range(self.slots)]
        self.peers = []
        flavours = ['a', 'b'] + ['old'] * (pid in UPGRADING)
        for f in flavours:
            e = dict(os.environ)
            e.update(PYTHONHASHSEED=HASHSEED[f], PURE_PYTHON='0',
                     PYTHONDONTWRITEBYTECODE='1')
            e.pop('PYTHONPATH', None)
            if f == 'old':
                e['VERIF_REPO'] = os.path.join(env.VERIF, 'released')
            self.peers.append(subprocess.Popen(
                [env.PY, '-W', 'ignore', os.path.join(
                    env.VERIF, 'sim', 'worker.py'), 'peer', scratch,
                 so if so and f != 'old' else '-', f, pid or '-'], stdin=subprocess.DEVNULL,
                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=e,
                cwd=scratch))
        end = time.monotonic() + 60
        while not all(os.path.exists(os.path.join(scratch, 'peer-' + f))
                      for f in flavours):
            if time.monotonic() > end or any(
                    p.poll() is not None for p in self.peers):
                raise WorkerFailed('peer processes do not start')
            time.sleep(0.02)

    def close(self):
        for w in self.workers:
            for x in w.values():
                x.close()
        for p in self.peers:
            p.kill()
            p.wait()

    def map(self, jobs, on_result, stop=lambda job: False, chunk=8):
        """Run (flavour, job) pairs in order; on_result gets each result.

        stop(i) says whether run i need not be started any more.
        """
        chunks = queue.Queue()
        cur = {'a': [], 'b': []}
        for f, job in jobs:
            cur[f].append(job)
            if len(cur[f]) == chunk:
                chunks.put((f, cur[f]))
                cur[f] = []
        for f in 'ab':
            if cur[f]:
                chunks.put((f, cur[f]))
        lock = threading.Lock()
        errors = []

        def work(slot):
            try:
                while not errors:
                    try:
                        f, todo = chunks.get_nowait()
                    except queue.Empty:
                        return
                    todo = [j for j in todo if not stop(j)]
                    if not todo:
                        continue
                    for r in self.workers[slot][f].run(todo):
                        with lock:
                            on_result(r)
            except BaseException as e:
                errors.append(e)
        ts = [threading.Thread(target=work, args=(i,), daemon=True)
              for i in range(self.slots)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errors:
            raise errors[0]

    def one(self, flavour, job):
        return self.workers[0][flavour].run([job])[0]

    def many(self, flavour, jobs):
        """Results of all jobs, in order of the jobs."""
        out = {}
        self.map([(flavour, dict(j, i=n)) for n, j in enumerate(jobs)],
                 lambda r: out.__setitem__(r['i'], r), chunk=1)
        return [out[n] for n in range(len(jobs))]
