"""C18: the N-best chooser fed from sources that fail part-way."""
import ZODB
import transaction
from BTrees.IFBTree import IFBTree
from ZODB.POSException import StorageError

from sim import classes
from sim.engine import Violation
from sim.engine import dec
from sim.engine import tune_btrees
from sim.storage import Hooks
from sim.storage import SimStorage
from zope.index.nbest import NBest


FAILURES = {'source': classes.SourceFailure, 'int': classes.SimInterrupt,
            'key': KeyError, 'type': TypeError}


class Source:
    """An iterator that fails after some pairs, with any exception."""

    def __init__(self, pairs, exc):
        self.pairs = list(pairs)
        self.exc = exc

    def __iter__(self):
        return self

    def __next__(self):
        if self.pairs:
            return self.pairs.pop(0)
        raise self.exc('source failed')


class Sequence:
    """Nothing but the old sequence protocol."""

    def __init__(self, pairs):
        self.pairs = list(pairs)

    def __getitem__(self, i):
        return self.pairs[i]


class NBestRun:

    def __init__(self, plan, scratch, peer=None):
        self.plan = plan
        self.stats = {}
        self.log = []
        self.states_seen = set()
        self.step_no = -1
        self.hooks = Hooks()

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def execute(self):
        cfg = self.plan['cfg']
        tune_btrees(cfg.get('leaf'), None)
        self.db = ZODB.DB(SimStorage(self.hooks))
        self.tm = transaction.TransactionManager(explicit=True)
        self.tm.begin()
        self.conn = self.db.open(self.tm)
        self.choosers = [(NBest(n), n, []) for n in cfg['capacity']]
        for i, step in enumerate(self.plan['steps']):
            self.step_no = i
            self.do(step)
            for j in range(len(self.choosers)):
                self.check(j)
            self.count('steps')
        self.step_no = len(self.plan['steps'])

    def teardown(self):
        try:
            self.tm.abort()
            self.conn.close()
            self.db.close()
        except Exception:
            pass

    # The model: a list of (score, item) pairs held.  Which of several pairs
    # with equal scores stays is the chooser's business: it is read off it.

    def held(self, j):
        return self.choosers[j][2]

    def consume(self, j, pairs):
        """Model of adding pairs one after the other."""
        nb, cap, held = self.choosers[j]
        for item, score in pairs:
            held.append((score, item))
            if len(held) > cap:
                worst = min(s for s, _ in held)
                # any one of the worst may go; keep them as alternatives
                i = next(i for i, (s, _) in enumerate(held) if s == worst)
                self.gone.append(held.pop(i))

    def check(self, j):
        nb, cap, held = self.choosers[j]
        best = nb.getbest()
        if len(nb) != len(held) or len(best) != len(held):
            raise Violation('nbest', 'len is %d and %d pairs are listed, '
                            'expected %d' % (len(nb), len(best), len(held)))
        if nb.capacity() != cap:
            raise Violation('nbest', 'capacity changed')
        scores = [s for _, s in best]
        want = sorted((s for s, _ in held), reverse=True)
        if scores != want:
            raise Violation('nbest', 'scores are %s, expected %s' % (
                scores, want))
        # items: every pair strictly above the smallest is determined
        avail = list(held) + [g for g in getattr(self, 'gone', [])]
        for item, score in best:
            if (score, item) not in avail:
                raise Violation('nbest', 'lists %r with score %r, which was '
                                'not given or was given back' % (item, score))
            avail.remove((score, item))
        low = want[-1] if want else None
        sure = sorted(((s, i) for s, i in held if s != low), key=repr)
        got = sorted(((s, i) for i, s in best if s != low), key=repr)
        if sure != got:
            raise Violation('nbest', 'holds %s above the smallest score, '
                            'expected %s' % (got, sure))
        held[:] = [(s, i) for i, s in best]
        self.states_seen.add('%d:%d:%s' % (cap, len(held), len(set(scores))))

    def do(self, step):
        v = step['v']
        j = step.get('j', 0) % len(self.choosers)
        nb, cap, held = self.choosers[j]
        self.gone = []
        if v == 'add':
            pair = (step['item'], dec(step['score']))
            self.call(nb.add, *pair)
            self.consume(j, [pair])
        elif v == 'many':
            pairs = [(i, dec(p)) for i, p in step['pairs']]
            fail = step.get('fail')
            form = step.get('form', 'list')
            if fail is not None:
                fail = min(fail, len(pairs))
                exc = FAILURES[step.get('exc', 'source')]
                self.feed(nb, Source(pairs[:fail], exc), exc)
                self.consume(j, pairs[:fail])
                self.count('fault:source')
            else:
                src = {'list': list, 'tuple': tuple, 'gen': iter,
                       'items': Sequence}[form](pairs)
                self.call(nb.addmany, src)
                self.consume(j, pairs)
        elif v == 'bad':
            # a pair that cannot be unpacked or compared
            pairs = [(i, dec(p)) for i, p in step['pairs']]
            tail = {'none': None, 'short': (1,), 'cmp': ('x', object())}[
                step['what']]
            if step['what'] == 'cmp' and not held and not pairs:
                return
            self.feed(nb, pairs + [tail], (TypeError, ValueError))
            self.consume(j, pairs)
            self.count('fault:value')
        elif v == 'tree':
            # scores read from the database, one bucket after the other
            root = self.conn.root()
            root['t'] = IFBTree({int(k): float(s) for k, s in step['pairs']})
            self.tm.commit()
            self.tm.begin()
            pairs = list(root['t'].items())
            self.conn.cacheMinimize()
            root['t']._p_activate()
            n = [0]
            seen = []

            def on_load(oid):
                n[0] += 1
                if n[0] == step['fail']:
                    raise StorageError('simulated read failure')

            def source():
                for p in root['t'].items():
                    seen.append(p)
                    yield p
            self.hooks.on_load = on_load
            try:
                if not self.feed(nb, source(), StorageError, maybe=True):
                    self.count('fault:load')
            finally:
                self.hooks.on_load = None
            if n[0] < step['fail'] and seen != pairs:
                raise Violation('nbest', 'source not consumed')
            self.consume(j, seen)
        elif v == 'pop':
            if not held:
                try:
                    r = nb.pop_smallest()
                except IndexError:
                    return
                raise Violation('nbest', 'empty chooser pops %r' % (r,))
            item, score = self.call(nb.pop_smallest)
            low = min(s for s, _ in held)
            if score != low or (score, item) not in held:
                raise Violation('nbest', 'pops %r, smallest held is %r' % (
                    (item, score), low))
            held.remove((score, item))
        self.log.append('%s %d %d' % (v, j, len(nb)))

    def call(self, fn, *args):
        try:
            return fn(*args)
        except Exception as e:
            raise Violation('exception', '%s raised %s: %s' % (
                fn.__name__, type(e).__name__, e)) from e

    def feed(self, nb, source, exc, maybe=False):
        try:
            nb.addmany(source)
        except exc:
            return False
        except Exception as e:
            raise Violation('exception', 'addmany raised %s: %s instead of '
                            'the failure of its source' % (
                                type(e).__name__, e)) from e
        if not maybe:
            raise Violation('nbest', 'addmany hides the failure of its source')
        return True
