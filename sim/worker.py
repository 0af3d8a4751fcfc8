"""A process that executes plans, each in a forked child of its own.

    worker.py run  <scratch> <so> <a|b> <property>   jobs on stdin, results on stdout
    worker.py peer <scratch> <so> <a|b|old> <property>   serves peer_observe on a socket

Flavour a runs the C Okapi scorer, flavour b the Python one (and is started
with another hash seed); old is the package in released/ (C22).  A job is {"i": n, "pid": p, "seed": s} or
{"i": n, "plan": {...}}; the result says how that one execution ended.
"""
import gc
import hashlib
import json
import os
import pickle
import resource
import select
import signal
import socket
import struct
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

CPU = 60            # seconds one execution may compute
WALL = 300          # and how long it may take
AS = 3 << 30


def limits(cpu=CPU):
    resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    resource.setrlimit(resource.RLIMIT_AS, (AS, AS))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class PeerClient:
    """Asks the process of the other flavour."""

    def __init__(self, path):
        self.path = path

    def __call__(self, req):
        from sim.engine import Violation
        s = socket.socket(socket.AF_UNIX)
        s.settimeout(WALL / 2)
        s.connect(self.path)
        try:
            data = pickle.dumps(req)
            s.sendall(struct.pack('>Q', len(data)) + data)
            reply = read_msg(s)
        finally:
            s.close()
        if reply is None:
            raise Violation('crash', 'the process reading the database died')
        if reply[0] == 'harness':
            raise RuntimeError(reply[1])
        return reply[1]


def read_exact(s, n):
    out = b''
    while len(out) < n:
        b = s.recv(n - len(out))
        if not b:
            return None
        out += b
    return out


def read_msg(s):
    h = read_exact(s, 8)
    if h is None:
        return None
    d = read_exact(s, struct.unpack('>Q', h)[0])
    return None if d is None else pickle.loads(d)


def execute(job, scratch, flavour):
    """Run one plan in this process; never raises."""
    from sim import classes
    from sim import engine
    from sim import gen
    from sim import runs
    out = {'i': job['i'], 'status': 'ok'}
    plan = job.get('plan')
    try:
        if plan is None:
            plan = gen.generate(job['pid'], job['seed'])
        plan = json.loads(json.dumps(plan))
        plan['cfg']['pure'] = flavour == 'b'
    except Exception:
        return {'i': job['i'], 'status': 'harness',
                'msg': traceback.format_exc()[-1500:]}
    other = os.path.join(scratch, 'peer-%s' % ('a' if flavour == 'b' else 'b'))
    peer = PeerClient(other) if os.path.exists(other) else None
    work = os.path.join(scratch, 'w%d' % os.getpid())
    run = runs.make(plan, work, peer)
    old = os.path.join(scratch, 'peer-old')
    if os.path.exists(old):
        run.old = PeerClient(old)
    try:
        run.execute()
    except engine.Violation as v:
        out.update(status='violation', kind=v.kind, msg=v.msg)
    except (engine.HarnessError, AssertionError) as e:
        if isinstance(e, AssertionError) and in_package(e.__traceback__):
            out.update(status='violation', kind='exception',
                       msg='AssertionError in zope.index: %s' % last_line(e))
        else:
            out.update(status='harness', msg=traceback.format_exc()[-1500:])
    except (classes.SimInterrupt, engine.SimCrash):
        out.update(status='harness', msg=traceback.format_exc()[-1500:])
    except Exception as e:
        # an exception nothing in the plan accounts for: the package's doing
        # if it came through the package, the simulator's otherwise
        if in_package(e.__traceback__) or in_package_chain(e):
            out.update(status='violation', kind='exception',
                       msg='unexpected %s: %s' % (type(e).__name__, e))
            out['tb'] = traceback.format_exc()[-1500:]
        else:
            out.update(status='unexpected', kind='unexpected',
                       msg='%s: %s' % (type(e).__name__, e),
                       tb=traceback.format_exc()[-1500:])
    sys.settrace(None)
    try:
        run.teardown()
    except Exception:
        pass
    out['cpu'] = time.process_time()
    log = run.log
    out['stats'] = run.stats
    out['states'] = sorted(run.states_seen)
    out['digest'] = hashlib.sha1('\n'.join(log).encode(
        'utf-8', 'backslashreplace')).hexdigest()[:16]
    out['steps'] = len(plan['steps'])
    out['at'] = run.step_no
    if job.get('log'):
        out['log'] = log
    return out


def in_package(tb):
    from sim import engine
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(engine._ZI_DIR):
            return True
        tb = tb.tb_next
    return False


def in_package_chain(e):
    seen = 0
    while e is not None and seen < 20:
        if in_package(e.__traceback__):
            return True
        e = e.__cause__ or e.__context__
        seen += 1
    return False


def last_line(e):
    tb = traceback.extract_tb(e.__traceback__)
    return '%s:%s %s' % (os.path.basename(tb[-1].filename), tb[-1].lineno,
                         tb[-1].line)


def fork_job(job, scratch, flavour):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            null = os.open(os.devnull, os.O_RDWR)
            os.dup2(null, 0)
            os.dup2(null, 1)
            if not os.environ.get('SIM_DEBUG'):
                os.dup2(null, 2)
            limits()
            out = execute(job, scratch, flavour)
            data = json.dumps(out).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
        except BaseException:
            code = 3
            try:
                os.write(w, json.dumps({
                    'i': job['i'], 'status': 'harness',
                    'msg': traceback.format_exc()[-1500:]}).encode())
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = time.monotonic() + WALL
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            os.kill(pid, signal.SIGKILL)
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    work = os.path.join(scratch, 'w%d' % pid)
    if os.path.isdir(work):
        import shutil
        shutil.rmtree(work, ignore_errors=True)
    try:
        return json.loads(b''.join(chunks))
    except ValueError:
        pass
    sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
    if timed_out or sig in (signal.SIGXCPU,) or (
            sig == signal.SIGKILL and not timed_out):
        return {'i': job['i'], 'status': 'hang',
                'kind': 'hang', 'msg': 'execution does not end (%s)' % (
                    'wall clock' if timed_out else 'more than %d s of '
                    'computing' % CPU)}
    return {'i': job['i'], 'status': 'crash', 'kind': 'crash',
            'msg': 'the process died with signal %d' % sig if sig else
            'the process died with status %d' % status}


def serve_peer(scratch, flavour):
    from sim import engine
    path = os.path.join(scratch, 'peer-%s' % flavour)
    s = socket.socket(socket.AF_UNIX)
    s.bind(path + '.tmp')
    s.listen(64)
    os.rename(path + '.tmp', path)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        c, _ = s.accept()
        if os.fork():
            c.close()
            continue
        try:
            limits()
            s.close()
            req = read_msg(c)
            try:
                serve = engine.history if 'plan' in req else \
                    engine.peer_observe
                reply = ('ok', serve(
                    req, os.path.join(scratch, 'p%d' % os.getpid())))
            except Exception as e:
                if flavour != 'old' and (in_package(e.__traceback__) or
                                         in_package_chain(e)):
                    reply = ('ok', ('exception', '%s: %s' % (
                        type(e).__name__, e)))
                else:
                    reply = ('harness', traceback.format_exc())
            data = pickle.dumps(reply)
            c.sendall(struct.pack('>Q', len(data)) + data)
            c.close()
        finally:
            os._exit(0)


def main():
    mode, scratch, so, flavour, pid = sys.argv[1:6]
    if so == '-':
        so = ''
    from sim import env
    pure = flavour in ('b', 'old') and sys.argv[6:] != ['compiled']
    broken = None
    try:
        env.load_package(so, pure)
    except Exception as e:
        if not (pure and so):
            raise
        # without the extension the package does not import: what scoring
        # is checked for reports it, the others go on with the extension
        broken = '%s: %s' % (type(e).__name__, e)
        if pid != 'C06' or mode == 'peer':
            os.execv(sys.executable, [sys.executable, '-W', 'ignore']
                     + sys.argv[:6] + ['compiled'])
    if not broken:
        from sim import storage
        storage.keep_trees_whole()
        from sim import engine  # noqa: F401
        from sim import gen     # noqa: F401
        from sim import runs    # noqa: F401
        gc.collect()
        gc.freeze()
    if mode == 'peer':
        serve_peer(scratch, flavour)
        return
    out = sys.stdout
    out.write('ready\n')
    out.flush()
    for line in sys.stdin:
        for job in json.loads(line):
            if broken:
                r = {'i': job['i'], 'status': 'violation', 'kind': 'import',
                     'digest': 'import', 'msg': 'the package does not import '
                     'without its compiled scorer: ' + broken}
            else:
                r = fork_job(job, scratch, flavour)
            out.write(json.dumps(r) + '\n')
            if r['status'] not in ('ok', 'harness'):
                break       # the later seeds are not needed any more
        out.write('done\n')
        out.flush()


if __name__ == '__main__':
    main()
