"""Cooperative scheduling of real threads at source-line granularity.

Every client is a real thread with its own connection, but only the thread
that holds the baton runs.  At each yield point (a line, or byte code, of
zope.index about to run, or a record about to be read from the storage) the
plan's switch list says whether the baton passes on, and to whom.  Nothing else
decides, so a plan is one exactly repeatable interleaving.
"""
import sys
import threading
import zlib

from sim import engine
from sim.engine import Run
from sim.engine import Violation

_ZI = engine._ZI_DIR


class Stop(BaseException):
    """Unwinds the other threads once one has found a violation."""


class Baton:

    def __init__(self, n, switches, opcodes, spots=None):
        self.n = n
        self.spots = spots
        self.inside = {}
        self.cond = threading.Condition()
        self.holder = None
        self.alive = set()
        self.atomic = [0] * n
        self.switches = switches       # [gap, step] pairs
        self.at = 0
        self.left = switches[0][0] if switches else None
        self.points = 0
        self.passed = 0
        self.stop = False
        self.progress = 0
        self.opcodes = opcodes
        self.ids = {}
        self.order = []
        self.kicked = 0

    # -- trace function of each thread

    def trace(self, frame, event, arg):
        if event == 'call' and frame.f_code.co_filename.startswith(_ZI):
            if self.spots and not self.spot(frame.f_code.co_name):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self.local
        return None

    def spot(self, name):
        """Is it a function the baton passes on in?"""
        known = self.inside
        if name not in known:
            known[name] = zlib.crc32(
                name.encode()) % self.spots[0] == self.spots[1]
        return known[name]

    def local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            self.point()
        return self.local

    def point(self, oid=None):
        me = self.ids.get(threading.get_ident())
        if me is None or self.atomic[me]:
            return
        self.progress += 1
        if self.holder != me:
            self.wait(me)      # was thought blocked, the baton moved on
        self.points += 1
        if self.left is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        step = self.switches[self.at][1]
        self.at += 1
        if self.at < len(self.switches):
            self.left = max(1, self.switches[self.at][0])
        else:
            self.left = None
        others = sorted(self.alive - {me})
        if others:
            self.passed += 1
            self.give(others[step % len(others)], me)

    def give(self, to, me):
        with self.cond:
            self.holder = to
            self.order.append(to)
            self.cond.notify_all()
            if me is not None:
                while self.holder != me and not self.stop:
                    self.cond.wait()
        if self.stop:
            raise Stop()

    def wait(self, me):
        with self.cond:
            while self.holder != me and not self.stop:
                self.cond.wait()
        if self.stop:
            raise Stop()

    def leave(self, me):
        with self.cond:
            self.alive.discard(me)
            if self.alive and self.holder == me:
                self.holder = min(self.alive)
                self.order.append(self.holder)
            self.cond.notify_all()

    def run(self, bodies):
        """Run one body per thread to completion; returns their failures."""
        failures = {}

        def start(i, body):
            self.ids[threading.get_ident()] = i
            try:
                self.wait(i)
                sys.settrace(self.trace)
                try:
                    body()
                finally:
                    sys.settrace(None)
            except Stop:
                pass
            except BaseException as e:
                failures[i] = e
                with self.cond:
                    self.stop = True
                    self.cond.notify_all()
            finally:
                self.leave(i)

        ts = [threading.Thread(target=start, args=(i, b), daemon=True)
              for i, b in enumerate(bodies)]
        self.alive = set(range(len(bodies)))
        for t in ts:
            t.start()
        with self.cond:
            self.holder = 0
            self.cond.notify_all()
            while self.alive:
                seen = self.progress
                self.cond.wait(3.0)
                if self.alive and self.progress == seen and not self.stop \
                        and self.blocked():
                    # waiting for a lock some other thread holds: let it go on
                    rest = sorted(self.alive - {self.holder})
                    if rest:
                        self.kicked += 1
                        self.holder = rest[self.kicked % len(rest)]
                        self.cond.notify_all()
        for t in ts:
            t.join()
        return failures

    def blocked(self):
        """Has the running thread stood still (not merely been slow)?"""
        ident = next((k for k, v in self.ids.items() if v == self.holder),
                     None)
        frame = sys._current_frames().get(ident)
        where = (id(frame), frame.f_lasti if frame else None)
        again = getattr(self, '_where', None)
        self._where = where
        return again == where


class _ThreadMixin:
    """Each client's steps in a thread of its own."""

    def execute(self):
        self.setup()
        try:
            pre = self.cfg['prelude']
            steps = self.plan['steps']
            self.step_no = -1
            for s in steps[:pre]:
                self.do(s)
            self.between()
            n = len(self.clients)
            programs = [[s for s in steps[pre:]
                         if s.get('c', 0) % n == i] for i in range(n)]
            self.baton = b = Baton(n, self.plan['switches'],
                                   bool(self.cfg.get('opcodes')),
                                   self.cfg.get('spots'))
            self.hooks.on_load = b.point

            def body(i):
                def run():
                    for s in programs[i]:
                        self.do(s)
                return run
            failures = b.run([body(i) for i in range(n)])
            self.hooks.on_load = None
            self.count('yield-points', b.points)
            self.count('switches', b.passed)
            if b.kicked:
                self.count('kicked', b.kicked)
            self.note('order', b.points, b.passed, b.order[-200:])
            if failures:
                for i in sorted(failures):
                    if isinstance(failures[i], Violation):
                        raise failures[i]
                raise failures[sorted(failures)[0]]
            self.step_no = len(steps)
            self.finish()
        finally:
            sys.settrace(None)
            self.hooks.on_load = None

    def between(self):
        pass

    def atomically(self, c, fn, *args, **kw):
        b = getattr(self, 'baton', None)
        if b is None:
            return fn(*args, **kw)
        b.atomic[c.n] += 1
        try:
            return fn(*args, **kw)
        finally:
            b.atomic[c.n] -= 1

    def guarded(self, rec, fn):
        # the thread's own trace function stays in place
        try:
            return 'ok', fn()
        except (Violation, engine.HarnessError, Stop):
            raise
        except Exception as e:
            return 'exc', e


class ThreadRun(_ThreadMixin, Run):
    """Threads with a database connection each."""

    def between(self):
        for c in self.clients:
            if c.active:
                self.abort(c)

    def ensure(self, c):
        return self.atomically(c, Run.ensure, self, c)

    def commit(self, c, fault=None, step=None):
        return self.atomically(c, Run.commit, self, c, fault, step)

    def abort(self, c):
        return self.atomically(c, Run.abort, self, c)

    def do_savepoint(self, c, step):
        return self.atomically(c, Run.do_savepoint, self, c, step)

    def rollback(self, c, i):
        return self.atomically(c, Run.rollback, self, c, i)

    def do_minimize(self, c, step):
        return self.atomically(c, Run.do_minimize, self, c, step)


class SharedRun(_ThreadMixin, Run):
    """Threads query the same in-memory indexes; nobody changes them."""

    def setup(self):
        cfg = self.cfg
        engine.tune_btrees(cfg.get('leaf'), cfg.get('internal'))
        self.mem = root = {}
        lexs = {}
        for name, lc in cfg.get('lexicons', {}).items():
            lexs[name] = root[name] = engine.Lexicon(
                *engine.classes.PIPELINES[lc['pipeline']]())
            self.lex[name] = engine.LexModel()
        for ic in cfg['indexes']:
            root[ic['name']] = ix = engine.make_index(cfg, ic, lexs)
            if ic.get('default'):
                root[ic['lex']] = ix.lexicon
                self.lex[ic['lex']] = engine.LexModel()
        self.shared = None

    def ensure(self, c):
        if c.active:
            return
        c.active = True
        c.root = self.mem
        c.clear = set()
        c.clearf = {n: set() for n in self.names}
        c.touched = set()
        c.ops = []
        c.begin_k = 0
        c.lexwords = {n: set() for n in self.lex}
        c.lexbase = {n: set() for n in self.lex}
        c.state = self.shared if self.shared is not None else {
            n: self.S[n][0].copy() for n in self.names}

    def between(self):
        c = self.clients[0]
        self.ensure(c)
        self.shared = c.state
        for c in self.clients:
            c.active = False

    def commit(self, c, fault=None, step=None):
        return True

    def do_minimize(self, c, step):
        pass

    def finish(self):
        c = self.clients[0]
        self.ensure(c)
        self.observe_client_mem(c)

    def observe_client_mem(self, c):
        for n in self.names:
            self.oracle.observe(c.root[n], c.state[n], n, 2)

    def do_look(self, c, step):
        self.ensure(c)
        self.observe_client_mem(c)

    def teardown(self):
        pass
