"""C21: repeating a call leaves nothing behind in memory.

A step repeats one query, or one update whose transaction is aborted each
time, with or without a fault inside, and counts the memory blocks the
interpreter holds after each round.  If every single round of two measurements
leaves more (or fewer) than the one before, the call leaks (or releases what
is not its own).

Another step makes calls that are all different (fresh words, values and
documents), to find what remembers each of them.
"""
import array
import gc
import re
import sys
from itertools import islice

import zope.index.text.okapiindex as okapiindex
from sim import classes
from sim import engine
from sim import model as M
from zope.index.text.parsetree import ParseError

try:
    import _testcapi
    set_nomemory = _testcapi.set_nomemory
    remove_mem_hooks = _testcapi.remove_mem_hooks
except (ImportError, AttributeError):
    set_nomemory = None

ROUNDS = 6


def settle():
    # the type cache keeps the names of methods called from C (persistent's
    # __setstate__ calls) alive
    getattr(sys, '_clear_type_cache', int)()
    gc.collect()


class NoMemory:
    """Makes the n-th allocation inside one call of the C scorer fail."""

    def __init__(self, n):
        self.n = n
        self.calls = 0
        self.real = None

    def possible(self):
        f = getattr(okapiindex, 'score', None)
        return set_nomemory is not None and type(f) is type(len)

    def __enter__(self):
        self.real = real = okapiindex.score
        n = self.n

        def score(*args):
            self.calls += 1
            gc.collect()            # empties the free lists
            set_nomemory(n, n + 1)
            try:
                return real(*args)
            finally:
                remove_mem_hooks()
        okapiindex.score = score
        return self

    def __exit__(self, *exc):
        okapiindex.score = self.real


class LeakRun(engine.Run):

    def bare(self, c, step):
        """The call alone, results dropped."""
        name = step['ix']
        ic = self.ic[name]
        if 'op' in step:
            op = step['op']

            def fn():
                c.fresh = False
                arg = self.make_arg(ic, op) if op[0] == 'index' else None
                self.real_op(c, name, op, arg)
            return fn
        q = step['q']
        k = q[0]
        fam = engine.FAMILY[self.cfg['family']]

        def fn():
            ix = c.root[name]
            if k == 'range':
                list(ix.apply((engine.dec(q[1]), engine.dec(q[2]))))
            elif k == 'sort':
                it = ix.sort(fam.IF.Set([d for d in q[1]]), reverse=q[3],
                             limit=q[4])
                # some callers want the first few only
                list(it if len(q[1]) % 2 else islice(it, len(q[1]) // 3))
            elif k == 'count':
                ix.documentCount()
                ix.wordCount()
            elif k == 'kw':
                list(ix.search([engine.dec(w) for w in q[1]], q[2]))
            elif k == 'topic':
                list(ix.search([f for f in q[1]
                                if ('f', f) in c.state[name].m], q[2]))
            elif k == 'text':
                try:
                    list(ix.apply(M.render_query(q[1], q[2])).items())
                except ParseError:
                    pass
            elif k == 'tree':
                try:
                    self.oracle.parse_node(
                        q[1], ic['pl']).executeQuery(ix.index)
                except AttributeError:
                    pass
            elif k == 'raw':
                inner = ix.index
                if q[1] == 'glob':
                    inner.search_glob(q[2][0])
                elif q[1] == 'weight':
                    inner.query_weight(list(q[2]))
                elif q[1] == 'phrase':
                    inner.search_phrase(list(q[2]))
                else:
                    inner.search(list(q[2]))
            elif k == 'has':
                if engine.is_text(ic):
                    if ix.index.has_doc(q[1]):
                        ix.index.get_words(q[1])
                else:
                    ix.has_doc(q[1])
        return fn

    def begin_again(self, c):
        c.tm.abort()
        c.tm.begin()

    def round(self, c, step, fn, target):
        """One repetition; returns (outcome, blocks held afterwards)."""
        fault = step.get('fault')
        if step.get('cold'):
            c.conn.cacheMinimize()
        rec = val = None
        out = 'ok'
        if fault and fault['k'] == 'mem':
            nm = NoMemory(fault['n'])
            try:
                with nm:
                    fn()
            except MemoryError:
                out = 'MemoryError'
        else:
            if fault and fault['k'] == 'load':
                if target is not None:
                    c.conn.get(target)._p_deactivate()
                fault = dict(fault, oid=target)
            rec = self.arm(c, fault)
            status, val = self.guarded(rec, fn)
            if status == 'exc':
                if rec is None or rec['fired'] is None or \
                        not engine.in_chain(val, rec['fired']):
                    raise engine.Violation(
                        'exception', '%s: %r raised %s: %s' % (
                            step['ix'], step.get('q') or step.get('op'),
                            type(val).__name__, val)) from val
                out = type(val).__name__
        rec = val = None
        if 'op' in step:
            self.begin_again(c)
        settle()
        return out, sys.getallocatedblocks()

    def control(self, c, step, hold, target):
        """What a round costs ZODB and persistent: the same loads alone."""
        if step.get('cold'):
            c.conn.cacheMinimize()
        for ob in hold:
            if ob._p_oid != target:
                ob._p_deactivate()
        for ob in hold:
            if ob._p_oid != target:
                ob._p_activate()
        if 'op' in step:
            self.begin_again(c)
        settle()
        return None, sys.getallocatedblocks()

    @staticmethod
    def diffs(one, n, warm):
        # what is counted goes where it takes no new memory
        held = array.array('q', [0] * (n + warm))
        out = None
        for i in range(n + warm):
            out, held[i] = one()
        return out, [held[i] - held[i - 1] for i in range(warm, n + warm)]

    def measure(self, c, step, fn, n):
        target = None
        load = (step.get('fault') or {}).get('k') == 'load'
        if load:
            # which record fails: the n-th read of the call on a cold cache
            c.conn.cacheMinimize()
            c.root[step['ix']]._p_activate()
            h = self.hooks
            h.seen = []
            fn()
            seen = list(dict.fromkeys(h.seen))
            h.seen = None
            if 'op' in step:
                self.begin_again(c)
            if not seen:
                return 'nothing to read', [0], [0]
            target = seen[(step['fault']['n'] - 1) % len(seen)]
            if self.class_of(target) in engine.BTREES_SETS:
                return 'set operation', [0], [0]
        hold = []
        for _ in range(3):
            # which objects every round reads again
            self.hooks.seen = []
            self.round(c, step, fn, target)
            seen = list(dict.fromkeys(self.hooks.seen))
            self.hooks.seen = None
            hold = [c.conn.get(o) for o in seen]
        out, real = self.diffs(
            lambda: self.round(c, step, fn, target), n, 2)
        _, ctrl = self.diffs(
            lambda: self.control(c, step, hold, target), n, 2)
        return out, real, ctrl

    def do_leak(self, c, step):
        if c.active:
            self.abort(c)
        self.ensure(c)
        fault = step.get('fault')
        if fault and fault['k'] == 'mem' and not NoMemory(1).possible():
            step = {k: v for k, v in step.items() if k != 'fault'}
            fault = None
        fn = self.bare(c, step)
        what = step.get('q') or step.get('op')
        stats = dict(self.stats)
        out, real, ctrl = self.measure(c, step, fn, ROUNDS)
        if self.apart(real, ctrl):
            # the same again, longer: not a cache filling up
            out, real, ctrl = self.measure(c, step, fn, ROUNDS * 4)
            if self.apart(real, ctrl):
                real.sort()
                ctrl.sort()
                raise engine.Violation(
                    'leak', '%s: each %r (%s, %s) leaves %+d memory blocks '
                    'behind' % (step['ix'], what, out, 'cold' if step.get(
                        'cold') else 'warm', real[len(real) // 2] -
                        ctrl[len(ctrl) // 2]))
        self.stats = stats
        self.count('leak-rounds', ROUNDS)
        if fault and out.endswith(('Error', 'Interrupt', 'Conflict')):
            self.count('fault:' + fault['k'], ROUNDS)
        self.note('leak', c.n, step['ix'], out)
        self.begin_again(c)
        c.conn.cacheMinimize()
        # and the answers are what they were
        self.observe_one(c, step['ix'], depth=2)

    # -- many different calls

    @staticmethod
    def other(x, i):
        """A value of the same type as x nobody asked for before."""
        if isinstance(x, str):
            return '%sq%dx' % (x, i)
        if isinstance(x, bytes):
            return x + b'q%dx' % i
        if type(x) in (int, float):
            return x + i + 1
        return x

    def varied(self, c, step):
        """fn(i): the call of the step, for other words, values, documents."""
        name, how = step['ix'], step['how']
        ic = self.ic[name]
        fam = engine.FAMILY[self.cfg['family']]
        ix = c.root[name]
        other = self.other
        if 'op' in step:
            op = step['op']

            def fn(i):
                c.fresh = False
                arg = self.make_arg(ic, op)
                docid = op[1] % 1000 + i + 1
                if isinstance(arg, classes.Obj):
                    for a, b in list(arg.__dict__.items()):
                        setattr(arg, a, other(b, i))
                elif engine.is_text(ic):
                    arg = (arg if isinstance(arg, str) else '') + \
                        ' q%dx q%dy' % (i, i)
                elif ic['kind'] == 'field':
                    arg = other(arg, i)
                else:
                    arg = [other(w, i) for w in arg or ()]
                ix.index_doc(docid, arg)
                c.tm.abort()
                c.tm.begin()
            return fn
        q = step['q']
        k = q[0]
        if k == 'text':
            text = M.render_query(q[1], q[2])

            def fn(i):
                w = {'word': 'q%dx', 'phrase': '"q%dx q%dx"' % (i + 1, i),
                     'glob': 'q%dx*'}[how]
                w = w % i if '%' in w else w
                try:
                    ix.apply('(%s) OR %s' % (text, w))
                except ParseError:
                    pass
        elif k == 'raw':
            inner = ix.index

            def fn(i):
                words = [other(w, i) for w in q[2]]
                if q[1] == 'glob':
                    inner.search_glob('q%d' % i + words[0])
                elif q[1] == 'weight':
                    inner.query_weight(words)
                elif q[1] == 'phrase':
                    inner.search_phrase(words)
                else:
                    inner.search(words)
        elif k == 'kw':
            def fn(i):
                words = [engine.dec(w) for w in q[1]]
                ix.search(words + [other(w, i) for w in words[:1]], 'or')
        elif k == 'range':
            lo, hi = engine.dec(q[1]), engine.dec(q[2])

            def fn(i):
                ix.apply((other(lo, i), other(hi, i)))
        elif k == 'sort':
            def fn(i):
                list(ix.sort(fam.IF.Set(list(q[1]) + [10 ** 6 + i]),
                             reverse=q[3], limit=q[4]))
        elif k == 'has':
            where = ix.index if engine.is_text(ic) else ix

            def fn(i):
                where.has_doc(10 ** 6 + i)
        else:
            return None
        return fn

    def do_flood(self, c, step):
        """Calls that are all different: what is remembered of them has to
        stop growing."""
        if c.active:
            self.abort(c)
        self.ensure(c)
        fn = self.varied(c, step)
        if fn is None:
            return
        c.root[step['ix']]._p_activate()
        at = 0
        # the second time longer: bounded caches are full by then
        for warm, size, n in ((300, 100, 4), (4600, 300, 5)):
            for at in range(at, at + warm):
                fn(at)
            held = array.array('q', [0] * (n + 1))
            for j in range(n + 1):
                for at in range(at, at + size):
                    fn(at)
                re.purge()
                settle()
                held[j] = sys.getallocatedblocks()
            if min(held[j + 1] - held[j] for j in range(n)) < 0.8 * size:
                break
        else:
            raise engine.Violation(
                'leak', '%s: calls like %r (%s), all different, leave %+d '
                'memory blocks behind for every %d' % (
                    step['ix'], step.get('q') or step.get('op'), step['how'],
                    held[n] - held[n - 1], size))
        self.count('flood-calls', at)
        self.note('flood', c.n, step['ix'], 'ok')
        self.begin_again(c)
        self.observe_one(c, step['ix'], depth=2)

    @staticmethod
    def apart(real, ctrl):
        return min(real) > max(ctrl) or max(real) < min(ctrl)
