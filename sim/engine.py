"""Deterministic executor: one plan in, one exactly repeatable execution out.

A plan is pure data (JSON).  The engine owns every source of nondeterminism
the indexes can see: which client acts next, which snapshot it has, when its
connection cache is emptied, which storage call fails and how, at which source
line of zope.index an asynchronous exception arrives, where a commit is cut by
a crash.  It never draws random numbers.
"""
import datetime
import errno
import fractions
import hashlib
import io
import os
import shutil
import sys

import BTrees
import transaction
import ZODB
import ZODB.POSException
import ZODB.utils
from BTrees.Length import Length
from ZODB.POSException import ConflictError
from ZODB.POSException import POSKeyError
from ZODB.POSException import ReadConflictError
from ZODB.POSException import StorageError

from sim import classes
from sim import model as M
from sim.storage import Hooks
from sim.storage import SimFileStorage
from sim.storage import SimStorage
from zope.index.field import FieldIndex
from zope.index.text import parsetree
from zope.index.text.cosineindex import CosineIndex
from zope.index.text.lexicon import Lexicon
from zope.index.text.okapiindex import OkapiIndex
from zope.index.text.parsetree import ParseError
from zope.index.text.textindex import TextIndex
from zope.index.topic import TopicIndex
from zope.index.topic.filter import PythonFilteredSet


import zope.index as _zi
_ZI_DIR = os.path.dirname(os.path.abspath(_zi.__file__)) + os.sep

FAMILY = {32: BTrees.family32, 64: BTrees.family64}


class Violation(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, kind, msg)
        self.kind = kind
        self.msg = msg


class HarnessError(Exception):
    pass


class SimCrash(BaseException):
    pass


# BTrees' C set operations swallow the failure to load a further bucket of an
# operand (PyErr_Clear in nextTreeSetItem/nextBTreeItem).
BTREES_SETOPS = frozenset(('multiunion', 'union', 'intersection',
                           'difference', 'weightedUnion',
                           'weightedIntersection'))
BTREES_SETS = frozenset(('IFSet', 'LFSet', 'IFBucket', 'LFBucket',
                         'OOSet'))


class CCall:
    """Profile function: the C function zope.index is calling."""

    name = None

    def __call__(self, frame, event, arg):
        if event[0] == 'c' and event[1] == '_' and \
                frame.f_code.co_filename.startswith(_ZI_DIR):
            self.name = arg.__name__ if event == 'c_call' else None


# ------------------------------------------------------------------ helpers

def dec(v):
    """Plan encoding of values: lists stand for tuples, dicts tag specials."""
    if isinstance(v, list):
        return tuple(dec(x) for x in v)
    if isinstance(v, dict):
        if 'inf' in v:
            return float('inf') if v['inf'] > 0 else float('-inf')
        if 'bomb' in v:
            return classes.Bomb(dec(v['base']), v['bomb'])
        if 'bytes' in v:
            return bytes.fromhex(v['bytes'])
        if 'day' in v:
            return datetime.date.fromordinal(v['day'])
        if 'frac' in v:
            return fractions.Fraction(*v['frac'])
        if 'rank' in v:
            return classes.Rank(v['rank'])
        raise HarnessError(v)
    return v


def tune_btrees(leaf, internal):
    """BTrees' own tuning knobs: make small containers split."""
    import BTrees.IFBTree
    import BTrees.IOBTree
    import BTrees.LFBTree
    import BTrees.LOBTree
    import BTrees.OIBTree
    import BTrees.OOBTree
    for mod, names in (
            (BTrees.IFBTree, ('IFBTree', 'IFTreeSet')),
            (BTrees.LFBTree, ('LFBTree', 'LFTreeSet')),
            (BTrees.IOBTree, ('IOBTree', 'IOTreeSet')),
            (BTrees.LOBTree, ('LOBTree', 'LOTreeSet')),
            (BTrees.OIBTree, ('OIBTree', 'OITreeSet')),
            (BTrees.OOBTree, ('OOBTree', 'OOTreeSet'))):
        for n in names:
            cls = getattr(mod, n)
            if leaf:
                cls.max_leaf_size = leaf
            if internal:
                cls.max_internal_size = internal


def make_index(cfg, ic, lexicons):
    fam = FAMILY[cfg['family']]
    k = ic['kind']
    given = (fam,)
    if cfg['family'] == 32 and not ic.get('explicit', True):
        given = ()          # the default family
    if k == 'field':
        return FieldIndex(*given)
    if k in classes.KEYWORD_CLASSES:
        ix = classes.KEYWORD_CLASSES[k](*given)
        if ic.get('threshold'):
            ix.tree_threshold = ic['threshold']
        return ix
    if k == 'topic':
        return TopicIndex(*given)
    if k in ('okapi', 'cosine'):
        if ic.get('default'):
            return TextIndex()
        lex = lexicons[ic['lex']]
        cls = OkapiIndex if k == 'okapi' else CosineIndex
        inner = cls(lex, *given)
        if ic.get('cutoff') is not None:
            inner.DICT_CUTOFF = ic['cutoff']
        return TextIndex(lex, inner)
    raise HarnessError(k)


def is_text(ic):
    return ic['kind'] in ('okapi', 'cosine')


def is_kw(ic):
    return ic['kind'] in classes.KEYWORD_CLASSES


def kw_norm(ic, words):
    k = ic['kind']
    if k == 'keyword':
        return frozenset(words)
    if k == 'ikeyword':
        return frozenset(w.lower() for w in words)
    out = set()
    for w in words:
        w = classes.strip_normalize(w)
        if w:
            out.add(w)
    return frozenset(out)


def in_chain(exc, target):
    seen = set()
    todo = [exc]
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        if e is target:
            return True
        todo.append(e.__cause__)
        todo.append(e.__context__)
    return False


def keys_of(result):
    """ids of any result collection."""
    return list(result)


def items_of(result):
    if hasattr(result, 'items'):
        return list(result.items())
    return list(result)


def close(a, b):
    return abs(a - b) <= 3e-5 * max(abs(a), abs(b)) + 1e-12


# ---------------------------------------------------------- answers checking

class Oracle:
    """Compares the answers of a real index with the reference model."""

    def __init__(self, cfg, aspects):
        self.cfg = cfg
        self.aspects = frozenset(aspects)
        self.ic = {ic['name']: ic for ic in cfg['indexes']}
        self._te = {}
        self.universe = {}      # ix name -> known query material
        self.nqueries = 0

    def pipeline(self, ic):
        if ic.get('default'):
            return 'default'
        return self.cfg['lexicons'][ic['lex']]['pipeline']

    def text_eval(self, ic, state):
        te = state._inv
        if te is None:
            te = state._inv = M.TextEval(
                ic['kind'], self.pipeline(ic), state.docs())
        return te

    def call(self, what, fn, *args):
        """Run a real call; an exception is an answer the model lacks."""
        self.nqueries += 1
        try:
            return fn(*args)
        except (Violation, HarnessError, SimCrash, classes.SimInterrupt):
            raise
        except Exception as e:
            raise Violation('exception', '%s raised %s: %s' % (
                what, type(e).__name__, e)) from e

    # -- field

    def field_range(self, ix, state, lo, hi, name):
        want = M.field_range(state.m, lo, hi)
        res = self.call('%s.apply((%r, %r))' % (name, lo, hi),
                        lambda: ix.apply((lo, hi)))
        got = list(res)
        if set(got) != want or len(got) != len(want):
            raise Violation('result', '%s: range (%r, %r) gives %s, expected '
                            '%s' % (name, lo, hi, sorted(got), sorted(want)))
        return res

    def field_sort(self, ix, state, ids, arg, reverse, limit, name):
        got = self.call('%s.sort' % name, lambda: list(
            ix.sort(arg, reverse=reverse, limit=limit)))
        err = M.check_sort(state.m, ids, got, reverse, limit)
        if err and 'sort' in self.aspects:
            raise Violation('sort', '%s: sort of %s (reverse=%r, limit=%r): %s'
                            % (name, sorted(ids), reverse, limit, err))

    # -- counts

    def counts(self, ix, state, name):
        ic = self.ic[name]
        k = ic['kind']
        if k == 'topic':
            return
        if is_text(ic):
            docs = state.docs()
            if '#doc' not in state.m:
                self._count(name, 'documentCount', ix.documentCount,
                            len(docs))
            elif not self._legacy_ok(ix.documentCount, len(docs)):
                raise Violation('count', '%s: legacy documentCount wrong'
                                % name)
            words = len(self.text_eval(ic, state).inv)
            if '#word' not in state.m:
                self._count(name, 'wordCount', ix.wordCount, words)
            elif not self._legacy_ok(ix.wordCount, words):
                raise Violation('count', '%s: legacy wordCount wrong' % name)
            return
        docs = state.m
        self._count(name, 'documentCount', ix.documentCount, len(docs))
        if k == 'field':
            n = len(M.distinct(docs.values()))
        else:
            n = len(set().union(*docs.values())) if docs else 0
        self._count(name, 'wordCount', ix.wordCount, n)

    def _count(self, name, what, fn, want):
        got = self.call('%s.%s()' % (name, what), fn)
        if got != want:
            raise Violation('count', '%s: %s() is %r, expected %r' % (
                name, what, got, want))

    def counts_agree(self, ix, name, ids):
        """Counts against what the index itself says it holds.

        Used where what it holds is wrong: that is another property's.
        """
        ic = self.ic[name]
        if ic['kind'] == 'topic':
            return
        if ic['kind'] == 'field':
            n = len(list(self.call('apply', ix.apply, (None, None))))
        elif is_text(ic):
            docs = [d for d in ids if ix.index.has_doc(d)]
            n = len(docs)
            wids = set()
            for d in docs:
                wids.update(self.call('get_words', ix.index.get_words, d))
            self._count(name, 'wordCount', ix.wordCount, len(wids))
        else:
            n = len([d for d in ids if ix.has_doc(d)])
        self._count(name, 'documentCount', ix.documentCount, n)

    def _legacy_ok(self, fn, want):
        try:
            return fn() == want
        except NotImplementedError:
            return True

    # -- keyword

    def kw_want(self, ic, state, words, op):
        ws = kw_norm(ic, words)
        if op == 'or':
            return {d for d, kws in state.m.items() if kws & ws}
        if not ws:
            return set()
        return {d for d, kws in state.m.items() if ws <= kws}

    def kw_search(self, ix, state, words, op, name, fn=None):
        want = self.kw_want(self.ic[name], state, words, op)
        if fn is None:
            def fn():
                return ix.search(list(words), op)
        res = self.call('%s search %r %s' % (name, words, op), fn)
        got = list(res)
        if set(got) != want or len(got) != len(want):
            raise Violation('result', '%s: %s search of %r gives %s, expected '
                            '%s' % (name, op, words, sorted(got),
                                    sorted(want)))
        return res

    # -- topic

    def topic_search(self, ix, state, fids, op, name, fn=None):
        sets = [state.members(f) for f in fids]
        if not sets:
            want = set()
        elif op == 'or':
            want = set().union(*sets)
        else:
            want = set.intersection(*sets)
        if fn is None:
            def fn():
                return ix.search(list(fids), op)
        res = self.call('%s search %r %s' % (name, fids, op), fn)
        got = list(res)
        if set(got) != want or len(got) != len(want):
            raise Violation('result', '%s: %s search of filters %r gives %s, '
                            'expected %s' % (name, op, fids, sorted(got),
                                             sorted(want)))
        return res

    # -- text

    def text_query(self, ix, state, node, style, name, text=None):
        ic = self.ic[name]
        te = self.text_eval(ic, state)
        if text is None:
            text = M.render_query(node, style)
        want = te.query(node)
        self.nqueries += 1
        try:
            res = ix.apply(text)
        except NotImplementedError as e:
            if '#doc' in state.m and ic['kind'] == 'okapi':
                return None       # counter not there yet: cannot rank
            raise Violation('exception', '%s: query %r raised %r' % (
                name, text, e)) from e
        except (Violation, HarnessError, SimCrash, classes.SimInterrupt):
            raise
        except ParseError as e:
            if te.eval(node) is None:
                return None
            raise Violation('exception', '%s: query %r raised %r' % (
                name, text, e)) from e
        except Exception as e:
            raise Violation('exception', '%s: query %r raised %s: %s' % (
                name, text, type(e).__name__, e)) from e
        self.compare_scores(name, text, dict(res.items()), want)
        return res

    def text_raw(self, ix, state, what, words, form, name):
        """The searches of the inner index, as the parse tree calls them."""
        ic = self.ic[name]
        te = self.text_eval(ic, state)
        want = te.raw(what, words)
        inner = ix.index
        if what == 'glob':
            arg = words[0]
            fn = inner.search_glob
        elif what == 'weight':
            arg = list(words)
            fn = inner.query_weight
        else:
            arg = list(words) if form == 'list' else ' '.join(words)
            fn = inner.search if what == 'search' else inner.search_phrase
        text = '%s(%r)' % (what, arg)
        self.nqueries += 1
        try:
            res = fn(arg)
        except (Violation, HarnessError, SimCrash, classes.SimInterrupt):
            raise
        except NotImplementedError as e:
            if '#doc' in state.m and ic['kind'] == 'okapi':
                return None
            raise Violation('exception', '%s: %s raised %r' % (
                name, text, e)) from e
        except Exception as e:
            raise Violation('exception', '%s: %s raised %s: %s' % (
                name, text, type(e).__name__, e)) from e
        if 'args' in self.aspects and isinstance(arg, list) and \
                arg != list(words):
            raise Violation('args', '%s: %s changed its argument' % (
                name, text))
        if what == 'weight':
            if 'score' in self.aspects and not close(res, want):
                raise Violation('score', '%s: query_weight of %r is %r, '
                                'expected %r' % (name, words, res, want))
            return None
        if want is None or res is None:
            if not (want is None and res is None):
                raise Violation('result', '%s: %s gives %r, expected %r' % (
                    name, text, res, want))
            return None
        self.compare_scores(name, text, dict(res.items()), want)
        return res

    def text_tree(self, ix, state, node, name):
        """A parse tree put together by the application."""
        te = self.text_eval(self.ic[name], state)
        try:
            want = te.tree(node)
        except M.Ambiguous:
            return None
        tree = self.parse_node(node, self.ic[name]['pl'])
        self.nqueries += 1
        text = 'tree %r' % (tree,)
        try:
            res = tree.executeQuery(ix.index)
        except NotImplementedError as e:
            if '#doc' in state.m and self.ic[name]['kind'] == 'okapi':
                return None
            raise Violation('exception', '%s: %s raised %r' % (
                name, text, e)) from e
        except (Violation, HarnessError, SimCrash, classes.SimInterrupt):
            raise
        except Exception as e:
            raise Violation('exception', '%s: %s raised %s: %s' % (
                name, text, type(e).__name__, e)) from e
        if want is None or res is None:
            if not (want is None and res is None):
                raise Violation('result', '%s: %s gives %r, expected %r' % (
                    name, text, res, want))
            return None
        self.compare_scores(name, text, dict(res.items()), want)
        return res

    def parse_node(self, node, pl):
        k = node[0]
        if k == 'w':
            return parsetree.AtomNode(node[1])
        if k == 'ph':
            return parsetree.PhraseNode(list(node[1]))
        if k == 'glob':
            return parsetree.GlobNode(M.glob_pattern(pl, node[1]))
        subs = [self.parse_node(n, pl) for n in node[1]]
        if k == 'or':
            return parsetree.OrNode(subs)
        nots = [parsetree.NotNode(self.parse_node(n, pl)) for n in node[2]]
        # negated nodes come anywhere
        return parsetree.AndNode(nots[:1] + subs + nots[1:])

    def compare_scores(self, name, text, got, want):
        if 'result' in self.aspects and set(got) != set(want):
            raise Violation('result', '%s: query %r gives %s, expected %s' % (
                name, text, sorted(got), sorted(want)))
        if 'score' in self.aspects:
            for d in got:
                if d in want and not close(got[d], want[d]):
                    raise Violation('score', '%s: query %r scores doc %r as '
                                    '%.7g, expected %.7g' % (
                                        name, text, d, got[d], want[d]))

    def text_words(self, ix, state, d, name):
        inner = ix.index
        want = state.m.get(d)
        got = self.call('%s.has_doc(%r)' % (name, d), inner.has_doc, d)
        if bool(got) != (want is not None):
            raise Violation('result', '%s: has_doc(%r) is %r' % (
                name, d, got))
        if want is None:
            return
        wids = self.call('%s.get_words(%r)' % (name, d), inner.get_words, d)
        lex = ix.lexicon
        words = self.call('get_word', lambda: tuple(
            lex.get_word(w) for w in wids))
        if words != want:
            raise Violation('result', '%s: words of doc %r are %r, expected '
                            '%r' % (name, d, words, want))

    # -- whole index

    def observe(self, ix, state, name, depth=2):
        """Ask everything (restricted to the profile's aspects)."""
        ic = self.ic[name]
        a = self.aspects
        k = ic['kind']
        if 'count' in a:
            self.counts(ix, state, name)
        if k == 'field':
            docs = state.m
            if 'result' in a:
                self.field_range(ix, state, None, None, name)
                if depth > 1:
                    vals = M.distinct(docs.values())
                    for v in vals[:24]:
                        if v is not None:
                            self.field_range(ix, state, v, v, name)
                    for v in self.probe(name, docs)[:6]:
                        self.field_range(ix, state, v, None, name)
                        self.field_range(ix, state, None, v, name)
            if 'sort' in a and docs:
                ids = sorted(docs)
                arg = self.set_of(ids)
                self.field_sort(ix, state, ids, arg, False, None, name)
                if depth > 1:
                    self.field_sort(ix, state, ids, arg, True, None, name)
                    self.field_sort(ix, state, ids, arg, True, 1, name)
                    self.field_sort(ix, state, ids, arg, False, 2, name)
        elif is_kw(ic):
            if 'result' in a:
                words = sorted(set().union(
                    *state.m.values(), self.universe.get(name, ())),
                    key=repr)
                words = [w for w in words if kw_norm(ic, [w])]
                for w in words[:24]:
                    self.kw_search(ix, state, [w], 'and', name)
                self.kw_search(ix, state, words, 'or', name)
                if depth > 1:
                    for d in sorted(state.m)[:8]:
                        self.kw_search(ix, state, sorted(
                            state.m[d], key=repr), 'and', name)
                    for d in sorted(set(self.docuni()) | set(state.m)):
                        got = self.call('has_doc', ix.has_doc, d)
                        if got != (d in state.m):
                            raise Violation('result', '%s: has_doc(%r) is %r'
                                            % (name, d, got))
        elif k == 'topic':
            if 'result' in a:
                fids = sorted(state.filters())
                for f in fids:
                    self.topic_search(ix, state, [f], 'and', name)
                self.topic_search(ix, state, fids, 'or', name)
                if depth > 1:
                    self.topic_search(ix, state, fids, 'and', name)
                    self.topic_search(ix, state, fids[:2], 'and', name)
        else:
            if 'result' in a or 'score' in a:
                docs = state.docs()
                te = self.text_eval(ic, state)
                words = sorted(set(te.inv) | set(self.universe.get(name, ())))
                for w in words[:14]:
                    if M.normalize_raw(te.pipeline, w) and \
                            w.lower() not in ('and', 'or', 'not'):
                        self.text_query(ix, state, ('w', w), 0, name)
                if depth > 1:
                    for d in sorted(docs)[:4]:
                        t = docs[d]
                        if len(t) > 1:
                            i = d % (len(t) - 1)
                            self.text_query(ix, state, (
                                'ph', list(t[i:i + 2 + d % 2])), 0, name)
                    if len(words) > 1:
                        ws = [w for w in words[:5] if M.normalize_raw(
                            te.pipeline, w) and w.lower() not in (
                                'and', 'or', 'not')]
                        if ws:
                            self.text_query(ix, state, (
                                'or', [('w', w) for w in ws]), 0, name)
                if 'result' in a:
                    for d in sorted(set(self.docuni()) | set(docs))[:30]:
                        self.text_words(ix, state, d, name)

    def probe(self, name, docs):
        return [v for v in self.universe.get(name, ()) if v is not None]

    def docuni(self):
        return self.universe.get('#docs', ())

    def set_of(self, ids):
        return FAMILY[self.cfg['family']].IF.Set(ids)


# ---------------------------------------------------------------- lexicon

class LexModel:
    """What is known of a vocabulary: committed word -> wid pairs."""

    def __init__(self):
        self.pairs = {}          # committed, as first observed
        self.words = set()       # committed
        self.jumped = False
        self.legacy = False


class Client:
    def __init__(self, n):
        self.n = n
        self.tm = transaction.TransactionManager(explicit=True)
        self.conn = None
        self.root = None
        self.active = False
        self.begin_k = 0
        self.state = {}
        self.base = {}
        self.clear = set()
        self.clearf = {}
        self.lexwords = {}
        self.saves = []
        self.ops = []          # steps performed in this transaction
        self.last_failed = []
        self.wrote = False
        self.all_noop = True
        self.results = []
        self.dirty_lex = set()
        self.threshold = {}


class Txn:
    __slots__ = ('begin', 'commit', 'effects')

    def __init__(self, begin, commit, effects):
        self.begin = begin
        self.commit = commit
        self.effects = effects


class Run:

    def __init__(self, plan, scratch, peer=None):
        self.plan = plan
        self.cfg = cfg = plan['cfg']
        self.scratch = scratch
        self.peer = peer            # callable(request) -> reply, other process
        self.old = None             # the same, of the older version
        self.aspects = frozenset(cfg['aspects'])
        self.oracle = Oracle(cfg, cfg['aspects'])
        self.order_oracle = Oracle(cfg, frozenset(cfg['aspects']) | {
            'result', 'count'})
        self.order_oracle.universe = self.oracle.universe = {k: [dec(x) for x in v]
                                for k, v in cfg.get('universe', {}).items()}
        self.hooks = Hooks()
        self.names = [ic['name'] for ic in cfg['indexes']]
        self.ic = self.oracle.ic
        self.stats = {}
        self.log = []
        self.states_seen = set()
        self.fileno = 0
        self.clients = [Client(i) for i in range(cfg['nclients'])]
        self.k = 0                 # commit counter
        self.S = {n: [M.State()] for n in self.names}   # S[name][k]
        self.tids = [None]
        self.txns = {n: [] for n in self.names}    # serial order per index
        self.lex = {}
        self.lexhist = []
        self.optseq = {n: 0 for n in self.names}
        self.kwmax = {n: 0 for n in self.names}
        self.thr_changed = {n: False for n in self.names}
        self.grown = {n: True for n in self.names}  # only ever added to
        self.inc = 0
        self.step_no = -1
        self.inspector = None

    # ------------------------------------------------------------- plumbing

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def note(self, *a):
        self.log.append(' '.join(str(x) for x in a))

    def setup(self):
        cfg = self.cfg
        tune_btrees(cfg.get('leaf'), cfg.get('internal'))
        if cfg['storage'] == 'file':
            os.makedirs(self.scratch, exist_ok=True)
            self.path = os.path.join(self.scratch, 'd0.fs')
            self.storage = SimFileStorage(self.path, self.hooks, create=True)
        else:
            self.storage = SimStorage(self.hooks)
        self.open_db()
        tm = transaction.TransactionManager(explicit=True)
        tm.begin()
        conn = self.db.open(tm)
        root = conn.root()
        lexs = {}
        for name, lc in cfg.get('lexicons', {}).items():
            lexs[name] = root[name] = Lexicon(
                *classes.PIPELINES[lc['pipeline']]())
            self.lex[name] = LexModel()
        for ic in cfg['indexes']:
            root[ic['name']] = ix = make_index(cfg, ic, lexs)
            if ic.get('default'):
                root[ic['lex']] = ix.lexicon
                self.lex[ic['lex']] = LexModel()
        tm.commit()
        conn.close()
        self.tids[0] = self.storage.lastTransaction()

    def open_db(self):
        self.db = ZODB.DB(self.storage, cache_size=self.cfg.get('cache', 400),
                          pool_size=100,
                          historical_cache_size=self.cfg.get('cache', 400))
        self.inspector = None

    def teardown(self):
        try:
            for c in self.clients:
                if c.conn is not None:
                    c.tm.abort() if c.active else None
                    c.conn.close()
            self.db.close()
        except Exception:
            pass
        if self.cfg['storage'] == 'file':
            shutil.rmtree(self.scratch, ignore_errors=True)

    def ensure(self, c):
        """Client has a connection and an open transaction."""
        if c.conn is None:
            c.conn = self.db.open(c.tm)
        if not c.active:
            c.tm.begin()
            c.active = True
            c.begin_k = self.k
            c.base = {n: self.S[n][self.k] for n in self.names}
            c.state = {n: self.S[n][self.k].copy() for n in self.names}
            c.clear = set()
            c.clearf = {n: set() for n in self.names}
            c.lexwords = {n: set(lm.words) for n, lm in self.lex.items()}
            c.lexbase = {n: set(lm.words) for n, lm in self.lex.items()}
            c.dirty_lex = set()
            c.saves = []
            c.ops = []
            c.wrote = False
            c.all_noop = True
            c.touched = set()
            c.root = c.conn.root()

    def end(self, c):
        c.active = False
        c.saves = []
        c.touched = set()

    def ix(self, c, name):
        return c.root[name]

    # ------------------------------------------------------------ execution

    def execute(self):
        """Returns the violation (or None)."""
        first = self.upgrade()
        if first is None:
            self.setup()
            first = 0
        try:
            for i, step in enumerate(self.plan['steps']):
                if i < first:
                    continue
                self.step_no = i
                self.do(step)
            self.step_no = len(self.plan['steps'])
            self.finish()
        finally:
            sys.settrace(None)
            self.hooks.on_load = self.hooks.on_store = None
            self.hooks.on_vote = self.hooks.on_finish = None
        return None

    def do(self, step):
        v = step['v']
        c = self.clients[step.get('c', 0) % len(self.clients)]
        getattr(self, 'do_' + v)(c, step)
        self.count('steps')

    def finish(self):
        """End of history: everything on a warm, a cold and a new view."""
        for c in self.clients:
            if c.active:
                self.abort(c)
        self.count('finals')
        for c in self.clients[:1]:
            self.ensure(c)
            self.observe_client(c, depth=2)
            c.conn.cacheMinimize()
            self.observe_client(c, depth=1)
            c.tm.abort()
            self.end(c)
        self.restart()
        self.inspect(depth=2)
        if self.cfg.get('peer') and self.peer is not None:
            self.peer_check()

    # -- faults

    def arm(self, c, fault):
        """Install the fault of a step; returns its record."""
        if not fault:
            return None
        rec = {'k': fault['k'], 'fired': None, 'n': 0}
        k = fault['k']
        if fault.get('cold') and c.conn is not None:
            c.conn.cacheMinimize()
        if k == 'load':
            kind = fault.get('exc', 'storage')

            rec['profile'] = profile = CCall()

            def on_load(oid, n=fault['n'], only=fault.get('oid')):
                if only is not None:
                    if oid != only:
                        return
                    n = 1
                rec['n'] += 1
                if rec['n'] >= n and rec['fired'] is None:
                    if profile.name in BTREES_SETOPS and \
                            self.class_of(oid) in BTREES_SETS:
                        # known finding BTREES-SETOPS (see known-findings):
                        # the failure is delivered to the next load instead
                        self.count('deferred:btrees-setops')
                        return
                    if kind == 'poskey':
                        e = POSKeyError(oid)
                    elif kind == 'readconflict':
                        e = ReadConflictError(oid=oid)
                    elif kind == 'io':
                        e = OSError(errno.EIO, 'simulated I/O error')
                    else:
                        e = StorageError('simulated read failure')
                    rec['fired'] = e
                    raise e
            self.hooks.on_load = on_load
        elif k == 'int':
            grain = 'opcode' if fault.get('g') == 'op' else 'line'

            def trace(frame, event, arg):
                if event == 'call' and frame.f_code.co_filename.startswith(
                        _ZI_DIR):
                    if grain == 'opcode':
                        frame.f_trace_opcodes = True
                    return line
                return None

            def line(frame, event, arg, n=fault['n']):
                if event == grain:
                    rec['n'] += 1
                    if rec['n'] == n and rec['fired'] is None:
                        e = classes.SimInterrupt(n)
                        rec['fired'] = e
                        sys.settrace(None)
                        raise e
                return line
            rec['trace'] = trace
        elif k == 'store':
            def on_store(oid, n=fault['n']):
                rec['n'] += 1
                if rec['n'] == n:
                    if fault.get('exc') == 'conflict':
                        e = ConflictError(oid=oid)
                    else:
                        e = StorageError('simulated write failure')
                    rec['fired'] = e
                    raise e
            self.hooks.on_store = on_store
        elif k == 'vote':
            def on_vote():
                e = OSError(errno.ENOSPC, 'simulated full disk')
                rec['fired'] = e
                raise e
            self.hooks.on_vote = on_vote
        elif k == 'pipeline':
            classes.FailingElement.fuse = True
        elif k == 'value':
            pass
        else:
            raise HarnessError(k)
        return rec

    def class_of(self, oid):
        hook, self.hooks.on_load = self.hooks.on_load, None
        try:
            data = self.storage.load(oid)[0]
        finally:
            self.hooks.on_load = hook
        return ZODB.utils.get_pickle_metadata(data)[1]

    def disarm(self, rec):
        self.hooks.on_load = self.hooks.on_store = self.hooks.on_vote = None
        classes.FailingElement.fuse = None
        sys.settrace(None)
        if rec is not None and rec['fired'] is not None:
            self.count('fault:' + rec['k'])

    def guarded(self, rec, fn):
        """Run fn under an armed fault: ('ok', value) or ('exc', exception)."""
        try:
            try:
                if rec is not None and 'trace' in rec:
                    sys.settrace(rec['trace'])
                if rec is not None and 'profile' in rec:
                    sys.setprofile(rec['profile'])
                try:
                    r = fn()
                finally:
                    sys.settrace(None)
                    sys.setprofile(None)
                return 'ok', r
            finally:
                self.disarm(rec)
        except (Violation, HarnessError, SimCrash):
            raise
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            return 'exc', e

    # -- updates

    def make_arg(self, ic, op):
        """(real value, snapshot to compare later or None)"""
        k = ic['kind']
        val = op[2]
        form = op[3] if len(op) > 3 else None
        if k == 'field':
            return dec(val)
        if is_kw(ic):
            words = [dec(w) for w in val]
            if form == 'tuple':
                return tuple(words)
            if form == 'set':
                return set(words)
            if form == 'ooset':
                return FAMILY[self.cfg['family']].OO.Set(words)
            if form == 'none' and not words:
                return None
            if form == 'frozen':
                return frozenset(words)
            if form == 'ootree':
                return FAMILY[self.cfg['family']].OO.TreeSet(words)
            if form == 'fail':
                return classes.FailingList(words, op[4])
            return list(words)
        if k == 'topic':
            return classes.Obj(**{a: dec(b) if not isinstance(b, list)
                                  else list(b) for a, b in val.items()})
        # text
        if form == 'none':
            return None
        seps = self.cfg.get('sep', ' ')
        if form == 'list':
            h = len(val) // 2
            return [seps.join(val[:h]), seps.join(val[h:])]
        return seps.join(val)

    @staticmethod
    def reuse(arg):
        """The caller goes on using what it passed, for something else."""
        if type(arg) is list:
            del arg[1:]
            arg.append('else')
        elif isinstance(arg, classes.Obj):
            arg.__dict__.clear()
        elif type(arg) is set or hasattr(arg, '_p_changed'):
            for x in sorted(arg, key=repr)[::2]:
                arg.remove(x)

    @staticmethod
    def freeze(arg):
        if isinstance(arg, classes.Obj):
            return ('Obj', repr(arg))
        if isinstance(arg, (list, tuple, set, frozenset, dict, str, int,
                            float, type(None))):
            return repr(arg) if not isinstance(arg, (set, frozenset)) else \
                repr(sorted(arg, key=repr))
        if hasattr(arg, 'keys') and not hasattr(arg, '__next__'):
            return repr(items_of(arg))
        return None

    def is_noop(self, c, name, op):
        """Does the property promise that this update writes nothing?"""
        ic = self.ic[name]
        st = c.state[name]
        if op[0] == 'unindex':
            if ic['kind'] == 'topic':
                return not any(type(k) is tuple and k[0] == 'm' and
                               k[3] == op[1] and st.m.get(('f', k[1]), (
                                   None,))[0] == k[2] for k in st.m)
            return op[1] not in st.m
        if op[0] == 'index':
            if ic['kind'] == 'field':
                return op[1] in st.m and \
                    M.vkey(st.m[op[1]]) == M.vkey(dec(op[2]))
            if is_kw(ic):
                return op[1] not in st.m and not kw_norm(
                    ic, [dec(w) for w in op[2]])
            return False
        if op[0] == 'optimize':
            return self.optimal(c, name)
        return False

    def optimal(self, c, name):
        if any(s['v'] == 'op' and s['ix'] == name and
               s['op'][0] != 'optimize' for s in c.ops):
            return False
        if c.begin_k != self.k:
            return False
        if any(s['v'] == 'op' and s['ix'] == name for s in c.ops):
            return True      # optimized earlier in this transaction
        return self.optseq[name] == 1 or (
            not self.thr_changed[name] and (
                self.grown[name] or self.kwmax[name] <
                (self.ic[name].get('threshold') or 64)))

    def apply_model(self, c, name, op):
        """Advance the client's model of the index; returns lexicon words."""
        ic = self.ic[name]
        st = c.state[name]
        o = op[0]
        k = ic['kind']
        if o == 'clear':
            st.m.clear()
            st._inv = None
            c.clear.add(name)
            c.clearf[name] = set()
            return
        if o == 'unindex':
            d = op[1]
            if k == 'topic':
                for key in [x for x in st.m if type(x) is tuple and
                            x[0] == 'm' and x[3] == d]:
                    del st.m[key]
            elif d in st.m:
                st.drop(d)
                if is_text(ic):
                    st.m.pop('#doc', None)
            return
        if o == 'index':
            d = op[1]
            if k == 'field':
                v = dec(op[2])
                if d in st.m and M.vkey(st.m[d]) == M.vkey(v):
                    return
                st.set(d, v)
            elif is_kw(ic):
                kws = kw_norm(ic, [dec(w) for w in op[2]])
                if kws:
                    st.set(d, kws)
                else:
                    st.drop(d)
            elif k == 'topic':
                for fid, (inc, e) in st.filters().items():
                    key = ('m', fid, inc, d)
                    if classes.topic_expr(e)[1](op[2]):
                        st.m[key] = True
                    else:
                        st.m.pop(key, None)
            else:
                raws = [] if len(op) > 3 and op[3] == 'none' else op[2]
                toks = M.normalize_tokens(self.oracle.pipeline(ic), raws)
                if d not in st.m:
                    st.m.pop('#doc', None)
                    st.m.pop('#word', None)
                st.set(d, toks)
                lx = ic['lex']
                c.lexwords[lx] |= set(toks)
                if self.lex[lx].legacy:
                    pass
            return
        if o == 'addf':
            self.inc += 1
            fid = op[1]
            for key in [x for x in st.m if type(x) is tuple and
                        x[0] == 'm' and x[1] == fid]:
                del st.m[key]
            st.m[('f', fid)] = (self.inc, op[2])
            return
        if o == 'delf':
            for key in [x for x in st.m if type(x) is tuple and
                        x[1] == op[1]]:
                del st.m[key]
            return
        if o == 'clearf':
            for fid, (inc, e) in st.filters().items():
                c.clearf[name].add((fid, inc))
            for key in [x for x in st.m if type(x) is tuple and
                        x[0] == 'm']:
                del st.m[key]
            return
        if o in ('optimize', 'threshold', 'lexadd', 'legacy'):
            return
        raise HarnessError(o)

    def real_op(self, c, name, op, arg):
        ic = self.ic[name]
        ix = c.root[name]
        o = op[0]
        if o == 'index':
            return ix.index_doc(op[1], arg)
        if o == 'unindex':
            return ix.unindex_doc(op[1])
        if o == 'clear':
            return ix.clear()
        if o == 'optimize':
            return ix.optimize()
        if o == 'threshold':
            ix.tree_threshold = op[1]
            return None
        if o == 'addf':
            return ix.addFilter(PythonFilteredSet(
                op[1], classes.topic_expr(op[2])[0],
                FAMILY[self.cfg['family']]))
        if o == 'delf':
            return ix.delFilter(op[1])
        if o == 'clearf':
            return ix.clearFilters()
        raise HarnessError(o, ic)

    def do_op(self, c, step):
        self.ensure(c)
        name, op = step['ix'], step['op']
        ic = self.ic[name]
        if op[0] == 'delf' and ('f', op[1]) not in c.state[name].m:
            return
        bad = step.get('bad')
        noop = not bad and self.is_noop(c, name, op)
        arg = self.make_arg(ic, op) if op[0] == 'index' else None
        frozen = self.freeze(arg)
        fault = step.get('fault')
        rec = self.arm(c, fault)
        status, val = self.guarded(
            rec, lambda: self.real_op(c, name, op, arg))
        self.count('ops')
        c.wrote = True
        self.note('op', c.n, name, op[0], status,
                  type(val).__name__ if status == 'exc' else '',
                  rec['n'] if rec else '')
        if frozen is not None and 'args' in self.aspects:
            now = self.freeze(arg)
            if now != frozen:
                raise Violation('args', '%s.%s changed its argument: %s -> %s'
                                % (name, op[0], frozen, now))
        self.reuse(arg)
        fired = rec is not None and (rec['fired'] is not None)
        if status == 'exc':
            if bad or (fault and fault['k'] in ('pipeline', 'value')):
                if isinstance(val, classes.SimInterrupt) or (
                        isinstance(val, SystemError) and not isinstance(
                            val.__cause__, classes.Injected)):
                    raise Violation('exception', '%s %r raised %r' % (
                        name, op, val))
                self.count('fault:' + (fault['k'] if fault else 'value'))
                return self.recover(c, step)
            if not fired:
                raise Violation('exception', '%s.%s%r raised %s: %s' % (
                    name, op[0], tuple(op[1:])[:2], type(val).__name__, val)
                ) from val
            if 'fault' in self.aspects and not in_chain(val, rec['fired']):
                raise Violation('fault', '%s.%s: the storage failure %r came '
                                'out as %s: %s' % (
                                    name, op[0], rec['fired'],
                                    type(val).__name__, val))
            self.recover(c, step)
            if step.get('again'):
                again = dict(step)
                again.pop('fault')
                self.do_op(c, again)
                self.observe_one(c, name, depth=2)
            return
        if bad:
            return self.recover(c, step)
        # success
        if fired and rec['k'] == 'int':
            # swallowed by the code under test: the answers below must be
            # those of a completed call
            self.count('swallowed')
        if not noop:
            c.all_noop = False
        c.ops.append(step)
        if op[0] == 'threshold':
            self.thr_changed[name] = True
        if op[0] != 'optimize':
            self.optseq[name] = 0
            if op[0] != 'index' or op[1] in c.state[name].m:
                self.grown[name] = False
        self.apply_model(c, name, op)
        c.touched.add(name)
        if is_text(ic):
            c.dirty_lex.add(ic['lex'])
        if is_kw(ic) and op[0] == 'index' and self.kwmax[name] < 64:
            st = c.state[name].m
            n = max([sum(1 for v in st.values() if w in v)
                     for w in kw_norm(ic, [dec(w) for w in op[2]])] or [0])
            self.kwmax[name] = max(self.kwmax[name], n)
        if fired:
            self.count('fault-absorbed')
            self.observe_one(c, name, depth=2)
        if c.results:
            self.check_results(c)
        if is_kw(ic) and op[0] == 'index' and isinstance(arg, list) \
                and 'args' in self.aspects:
            arg.append('zz-later')      # the caller's list is his own
            del arg[0]
        if step.get('look'):
            self.observe_one(c, name, depth=step['look'])

    def recover(self, c, step):
        """A call failed: undo as an application does, then compare all."""
        name = step.get('ix')
        how = step.get('recover', 'abort')
        if how == 'rollback' and c.saves:
            self.rollback(c, len(c.saves) - 1)
            self.count('recover:rollback')
        else:
            self.count('recover:abort')
            self.abort(c)
            self.ensure(c)
        if 'atomic' in self.aspects or 'fault' in self.aspects:
            self.observe_client(c, depth=2, first=name)
            if step.get('other'):
                self.inspect(depth=1)
        elif name:
            self.observe_one(c, name, depth=2)

    def do_bulk(self, c, step):
        for i, op in enumerate(step['ops']):
            s = {'v': 'op', 'c': step['c'], 'ix': step['ix'], 'op': op}
            self.do_op(c, s)
        if step.get('look'):
            self.observe_one(c, step['ix'], depth=step['look'])

    def do_lexadd(self, c, step):
        self.ensure(c)
        name = step['lex']
        rec = self.arm(c, step.get('fault'))
        raws = step['words']
        status, val = self.guarded(rec, lambda: c.root[
            name].sourceToWordIds(' '.join(raws)))
        self.note('lexadd', c.n, name, status)
        c.wrote = True
        if status == 'exc':
            if rec is None or rec['fired'] is None:
                raise Violation('exception', 'sourceToWordIds raised %s: %s'
                                % (type(val).__name__, val)) from val
            return self.recover(c, step)
        toks = M.normalize_tokens(self.cfg['lexicons'].get(
            name, {'pipeline': 'default'})['pipeline'], raws)
        c.all_noop = False
        c.ops.append(step)
        c.lexwords[name] |= set(toks)
        c.dirty_lex.add(name)
        lex = c.root[name]
        got = [lex.get_word(w) for w in val]
        if tuple(got) != toks:
            raise Violation('lexicon', 'ids returned for %r stand for %r' % (
                toks, got))

    def do_jump(self, c, step):
        """Application-level vocabulary import: ids continue from n."""
        self.ensure(c)
        lex = c.root[step['lex']]
        wc = lex.wordCount
        if isinstance(wc, Length) and wc() < step['n']:
            wc.set(step['n'])
            self.lex[step['lex']].jumped = True
            c.wrote = True
            c.all_noop = False
            c.dirty_lex.add(step['lex'])

    def do_legacy(self, c, step):
        """Give an index or vocabulary the stored form of older versions."""
        self.ensure(c)
        if step.get('lex'):
            lex = c.root[step['lex']]
            lex._p_activate()
            if 'wordCount' in lex.__dict__:
                del lex.wordCount
                self.lex[step['lex']].legacy = True
            c.wrote = True
            c.all_noop = False
            return
        name = step['ix']
        inner = c.root[name].index
        inner._p_activate()
        st = c.state[name]
        for what in step['what']:
            if what == 'word' and 'wordCount' in inner.__dict__:
                del inner.wordCount
                st.m['#word'] = True
            elif what == 'doc' and 'documentCount' in inner.__dict__:
                del inner.documentCount
                st.m['#doc'] = True
            elif what == 'total' and hasattr(inner, '_totaldoclen'):
                t = inner._totaldoclen
                if isinstance(t, Length):
                    inner._totaldoclen = t()
        inner._p_changed = True
        c.touched.add(name)
        c.wrote = True
        c.all_noop = False
        self.count('legacy')

    # -- queries

    def do_q(self, c, step):
        self.ensure(c)
        name, q = step['ix'], step['q']
        rec = None
        fault = step.get('fault')
        if fault:
            status, val, rec = self.query_under_fault(c, name, q, fault)
            self.count('queries')
            self.note('q!', c.n, name, q[0], status, rec['n'])
            if status == 'exc':
                if isinstance(val, Violation):
                    # the model disagreed or the call raised
                    cause = val.__cause__
                    if rec['fired'] is None or cause is None:
                        raise val
                    if not in_chain(cause, rec['fired']):
                        if 'fault' in self.aspects:
                            raise Violation(
                                'fault', '%s query %r: the failure %r came '
                                'out as %r' % (name, q, rec['fired'], cause))
                elif rec['fired'] is None or not in_chain(
                        val, rec['fired']):
                    raise Violation('exception', '%s query %r raised %r' % (
                        name, q, val)) from val
                if step.get('keep') and rec['k'] in ('load', 'int'):
                    pass     # application retries in the same transaction
                else:
                    self.recover(c, step)
            elif rec['fired'] is not None:
                self.count('fault-absorbed')
            # the same call works once the storage works again
            self.query(c, name, q)
            return
        res = self.query(c, name, q)
        self.count('queries')
        self.note('q', c.n, name, q[0])
        if res is not None and step.get('keep'):
            c.results.append((name, q, res, items_of(res)))
            del c.results[:-5]
        if res is not None and step.get('mut'):
            self.mutate(res)
            c.results = [r for r in c.results if r[2] is not res]
            self.count('mutated')
            self.observe_one(c, name, depth=2)
        if step.get('again'):
            self.query(c, name, q)

    def query_under_fault(self, c, name, q, fault):
        if fault.get('cold'):
            c.conn.cacheMinimize()
        # arm late: resolving the root is not part of the call
        c.root[name]._p_activate()
        ix = c.root[name]
        if is_text(self.ic[name]):
            ix.index._p_activate()
        f = dict(fault)
        f.pop('cold', None)
        rec = self.arm(c, f)
        status, val = None, None
        try:
            try:
                if 'trace' in rec:
                    sys.settrace(rec['trace'])
                if 'profile' in rec:
                    sys.setprofile(rec['profile'])
                try:
                    val = self.query(c, name, q)
                finally:
                    sys.settrace(None)
                    sys.setprofile(None)
                status = 'ok'
            finally:
                self.disarm(rec)
        except (HarnessError, SimCrash):
            raise
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            status, val = 'exc', e
        return status, val, rec

    def query(self, c, name, q):
        return self.query_on(c.root[name], c.state[name], name, q)

    def query_on(self, ix, st, name, q):
        o = self.oracle
        kind = q[0]
        fam = FAMILY[self.cfg['family']]
        if kind == 'range':
            return o.field_range(ix, st, dec(q[1]), dec(q[2]), name)
        if kind == 'sort':
            ids = list(q[1])
            form = q[2]
            if form == 'list':
                arg = list(ids)
            elif form == 'tuple':
                arg = tuple(ids)
            elif form == 'pyset':
                arg = set(ids)
            elif form == 'gen':
                arg = (i for i in ids)
            elif form == 'treeset':
                arg = fam.IF.TreeSet(ids)
            elif form == 'ifbtree':
                arg = fam.IF.BTree({i: 1.0 for i in ids})
            elif form == 'bucket':
                arg = fam.IF.Bucket({i: 1.0 for i in ids})
            elif form == 'dict':
                arg = {i: 1 for i in ids}
            elif form == 'keys':
                arg = fam.IF.BTree({i: 1.0 for i in ids}).keys()
            elif form == 'all':
                ids = list(st.m)
                arg = self.oracle.call('apply', lambda: ix.apply(
                    (None, None)))
            else:
                arg = fam.IF.Set(ids)
            frozen = self.freeze(arg)
            o.field_sort(ix, st, ids, arg, q[3], q[4], name)
            self.check_frozen(name, q, frozen, arg)
            return None
        if kind == 'count':
            o.counts(ix, st, name)
            return None
        if kind == 'has':
            if is_text(self.ic[name]):
                o.text_words(ix, st, q[1], name)
            else:
                got = o.call('has_doc', ix.has_doc, q[1])
                if bool(got) != (q[1] in st.m):
                    raise Violation('result', '%s: has_doc(%r) is %r' % (
                        name, q[1], got))
            return None
        if kind == 'kw':
            words = [dec(w) for w in q[1]]
            op, form = q[2], q[3]
            arg = None
            if form == 'str' and len(words) == 1 and isinstance(
                    words[0], str):
                arg = words[0]

                def fn():
                    return ix.search(arg, op)
            elif form in ('dict', 'dict2'):
                arg = {'query': list(words), 'operator': op}
                if op == 'and' and form == 'dict2':
                    del arg['operator']

                def fn():
                    return ix.apply(arg)
            elif form == 'set':
                arg = set(words)

                def fn():
                    return ix.search(arg, op)
            elif form == 'apply' and op == 'and':
                arg = list(words)

                def fn():
                    return ix.apply(arg)
            elif form == 'gen':
                def fn():
                    return ix.search((w for w in words), op)
            elif form == 'ooset':
                arg = fam.OO.Set(words)

                def fn():
                    return ix.search(arg, op)
            else:
                arg = tuple(words) if form == 'tuple' else list(words)

                def fn():
                    return ix.search(arg, op)
            frozen = self.freeze(arg)
            r = o.kw_search(ix, st, words, op, name, fn)
            self.check_frozen(name, q, frozen, arg)
            if form.startswith('dict'):
                o.kw_search(ix, st, words, op, name, fn)
            return r
        if kind == 'topic':
            fids = [f for f in q[1] if ('f', f) in st.m]
            op, form = q[2], q[3]
            if form == 'str' and len(fids) == 1:
                arg = fids[0]

                def fn():
                    return ix.search(arg, op)
            elif form in ('dict', 'dict2'):
                arg = {'query': list(fids), 'operator': op}
                if op == 'and' and form == 'dict2':
                    del arg['operator']

                def fn():
                    return ix.apply(arg)
            elif form == 'apply' and op == 'and':
                arg = list(fids)

                def fn():
                    return ix.apply(arg)
            else:
                arg = tuple(fids) if form == 'tuple' else list(fids)

                def fn():
                    return ix.search(arg, op)
            frozen = self.freeze(arg)
            r = o.topic_search(ix, st, fids, op, name, fn)
            self.check_frozen(name, q, frozen, arg)
            if form.startswith('dict'):
                o.topic_search(ix, st, fids, op, name, fn)
            return r
        if kind == 'text':
            return o.text_query(ix, st, q[1], q[2], name)
        if kind == 'tree':
            return o.text_tree(ix, st, q[1], name)
        if kind == 'raw':
            return o.text_raw(ix, st, q[1], q[2], q[3], name)
        if kind == 'all':
            o.observe(ix, st, name, depth=q[1])
            return None
        raise HarnessError(q)

    def check_frozen(self, name, q, frozen, arg):
        if frozen is not None and 'args' in self.aspects:
            now = self.freeze(arg)
            if now != frozen:
                raise Violation('args', '%s: query %r changed its argument: '
                                '%s -> %s' % (name, q[0], frozen, now))

    def mutate(self, res):
        ids = list(res)
        bogus = 7777
        if hasattr(res, 'items'):
            res[bogus] = 1.0
            for d in ids:
                del res[d]
        else:
            res.insert(bogus)
            for d in ids:
                res.remove(d)

    def check_results(self, c):
        if 'alias' not in self.aspects:
            return
        for name, q, res, items in c.results:
            try:
                now = items_of(res)
            except Exception as e:
                raise Violation('alias', '%s: an earlier result of %r can no '
                                'longer be read: %r' % (name, q, e)) from e
            if now != items:
                raise Violation('alias', '%s: an earlier result of %r changed '
                                'from %s to %s' % (name, q, items, now))

    def do_drain(self, c, step):
        """Unindex (or reindex) every hit while iterating over the result."""
        self.ensure(c)
        name, q = step['ix'], step['q']
        res = self.query(c, name, q)
        if res is None:
            return
        expect = sorted(res)
        seen = []
        c.wrote = True
        try:
            for d in res:
                seen.append(d)
                c.root[name].unindex_doc(d)
                if len(seen) > len(expect) + 5:
                    break
        except Exception as e:
            raise Violation('alias', '%s: unindexing while iterating over the '
                            'result of %r raised %s: %s' % (
                                name, q, type(e).__name__, e)) from e
        self.note('drain', c.n, name, len(seen))
        if sorted(seen) != expect:
            raise Violation('alias', '%s: unindexing while iterating over the '
                            'result of %r visited %s of %s' % (
                                name, q, seen, expect))
        for d in seen:
            self.apply_model(c, name, ['unindex', d])
            c.ops.append({'v': 'op', 'c': step['c'], 'ix': name,
                          'op': ['unindex', d]})
        if seen:
            c.all_noop = False
        c.touched.add(name)
        self.optseq[name] = 0
        self.grown[name] = False
        self.count('drained', len(seen))
        self.observe_one(c, name, depth=1)

    # -- lexicon

    def check_lexicon(self, root, name, words, known=None, committed=False):
        """words: exact expected vocabulary of this view; known: the words
        committed before it began (default: all committed words)."""
        if 'lexicon' not in self.aspects:
            return
        lex = root[name]
        lm = self.lex[name]
        o = self.oracle
        try:
            items = list(lex.items())
            ws = list(lex.words())
            wids = list(lex.wids())
        except Exception as e:
            raise Violation('exception', 'lexicon %s: listing raised %r' % (
                name, e)) from e
        pairs = dict(items)
        if set(ws) != set(words) or set(pairs) != set(words) \
                or len(ws) != len(words):
            raise Violation('lexicon', '%s knows %s, expected %s' % (
                name, sorted(ws)[:40], sorted(words)[:40]))
        if len(set(pairs.values())) != len(pairs) or \
                set(wids) != set(pairs.values()) or len(wids) != len(pairs):
            raise Violation('lexicon', '%s: ids are not unique: %r / %r' % (
                name, items, wids))
        lmpairs = lm.pairs
        if known is not None:
            lmpairs = {w: i for w, i in lm.pairs.items() if w in known}
        for w, wid in items:
            if not (isinstance(wid, int) and wid > 0):
                raise Violation('lexicon', '%s: id of %r is %r' % (
                    name, w, wid))
            if lmpairs.get(w, wid) != wid:
                raise Violation('lexicon', '%s: id of %r changed from %r to '
                                '%r' % (name, w, lmpairs[w], wid))
            back = o.call('get_word', lex.get_word, wid)
            if back != w:
                raise Violation('lexicon', '%s: id %r of %r stands for %r' % (
                    name, wid, w, back))
            if o.call('get_wid', lex.get_wid, w) != wid:
                raise Violation('lexicon', '%s: get_wid(%r)' % (name, w))
        inv = {v: k2 for k2, v in lmpairs.items()}
        for w, wid in items:
            if inv.get(wid, w) != w:
                raise Violation('lexicon', '%s: id %r of %r given to %r' % (
                    name, wid, inv[wid], w))
        for w in ('zzznever', 'q0x'):
            if w not in pairs and o.call('get_wid', lex.get_wid, w) != 0:
                raise Violation('lexicon', '%s: unknown word has an id' % name)
        if 'zzznever' not in pairs:
            t = o.call('termToWordIds', lex.termToWordIds, 'zzznever')
            if t != [0]:
                raise Violation('lexicon', '%s: unknown term gives %r' % (
                    name, t))
        if not lm.jumped:
            n = o.call('wordCount', lex.wordCount)
            if n != len(pairs):
                raise Violation('lexicon', '%s: wordCount() is %r for %d '
                                'words' % (name, n, len(pairs)))
        if committed:
            lm.pairs.update(pairs)

    # -- observation of whole views

    def observe_one(self, c, name, depth=1):
        self.oracle.observe(c.root[name], c.state[name], name, depth)

    def observe_client(self, c, depth=1, first=None):
        names = self.names
        if first in names:
            names = [first] + [n for n in names if n != first]
        for n in names:
            self.oracle.observe(c.root[n], c.state[n], n, depth)
        for n in self.lex:
            self.check_lexicon(c.root, n, c.lexwords[n], known=c.lexbase[n])

    def inspector_root(self):
        if self.inspector is None:
            tm = transaction.TransactionManager(explicit=True)
            self.inspector = (tm, self.db.open(tm))
        tm, conn = self.inspector
        tm.begin()
        return tm, conn.root()

    def inspect(self, names=None, depth=1, lexnames=None):
        tm, root = self.inspector_root()
        try:
            for n in (self.names if names is None else names):
                self.oracle.observe(root[n], self.S[n][self.k], n, depth)
            for n in (self.lex if lexnames is None else lexnames):
                self.check_lexicon(root, n, self.lex[n].words,
                                   committed=True)
        finally:
            tm.abort()

    # -- transaction boundaries

    def do_commit(self, c, step):
        self.ensure(c)
        fault = step.get('fault')
        crash = step.get('crash')
        if crash is not None and self.cfg['storage'] == 'file':
            return self.crash(c, crash)
        self.commit(c, fault, step)

    def commit(self, c, fault=None, step=None):
        self.check_results(c)
        others = self.k > c.begin_k
        before = self.storage.lastTransaction()
        rec = self.arm(c, fault)
        resolved0 = self.hooks.resolved
        status, val = self.guarded(rec, c.tm.commit)
        fired = rec is not None and rec['fired'] is not None
        if self.hooks.resolved > resolved0:
            self.count('merged', self.hooks.resolved - resolved0)
        if status == 'exc':
            c.tm.abort()
            ops = list(c.ops)
            touched = set(c.touched)
            quiet = c.all_noop
            self.end(c)
            if fired:
                if not in_chain(val, rec['fired']):
                    raise Violation('exception', 'commit raised %r' % (val,))
                self.note('commit', c.n, 'refused')
                c.last_failed = ops
                self.ensure(c)
                if 'atomic' in self.aspects:
                    self.observe_client(c, depth=2)
                    self.inspect(depth=1)
                else:
                    for n in sorted(touched):
                        self.observe_one(c, n, 1)
                return False
            if not isinstance(val, ConflictError):
                raise Violation('exception', 'commit raised %s: %s' % (
                    type(val).__name__, val)) from val
            self.count('conflicts')
            self.note('commit', c.n, 'conflict')
            if not others:
                raise Violation('conflict', 'a transaction nothing else '
                                'committed during fails with a conflict: %s'
                                % val)
            if 'noconflict' in self.aspects:
                raise Violation('conflict', 'independent additions conflict: '
                                '%s' % val)
            if quiet and ('write' in self.aspects or
                          'noop' in self.aspects):
                raise Violation('noop', 'a transaction that changed nothing '
                                'conflicts: %s' % val)
            c.last_failed = ops
            self.ensure(c)
            for n in sorted(touched):
                self.observe_one(c, n, 1)
            return False
        after = self.storage.lastTransaction()
        wrote = after != before
        self.note('commit', c.n, 'wrote' if wrote else 'nothing')
        self.count('commits')
        if wrote and not c.wrote and 'write' in self.aspects:
            raise Violation('write', 'a transaction that only asked '
                            'questions was written to the database')
        if wrote and c.all_noop and c.wrote and 'noop' in self.aspects:
            raise Violation('noop', 'updates that change nothing were '
                            'written to the database: %r' % (
                                [s.get('op') for s in c.ops][:4],))
        effects = {n: M.Effect(c.base[n], c.state[n], n in c.clear,
                               c.clearf[n]) for n in sorted(c.touched)}
        if wrote:
            self.committed(c, effects)
        else:
            lost = [n for n, e in effects.items() if e.changes]
            if lost:
                raise Violation('result', 'changes to %s were not written by '
                                'commit' % lost)
            if any(c.lexwords[n] - self.lex[n].words for n in c.dirty_lex):
                raise Violation('lexicon', 'new words were not written')
        dirty = set(c.dirty_lex)
        touched = sorted(c.touched)
        for s in c.ops:
            if s['v'] == 'op' and s['op'][0] == 'optimize':
                self.optseq[s['ix']] = 0 if others else 1
            elif s['v'] == 'op':
                self.optseq[s['ix']] = 0
        self.end(c)
        if wrote:
            self.inspect(touched, depth=self.cfg.get('depth', 1),
                         lexnames=sorted(dirty))
        self.check_results(c)
        return True

    def committed(self, c, effects):
        """Resolve the serial order by looking at the committed database."""
        T_begin = c.begin_k
        newk = self.k + 1
        self.tids.append(self.storage.lastTransaction())
        for n in c.dirty_lex:
            lm = self.lex[n]
            lm.words = lm.words | c.lexwords[n]
        tm, root = self.inspector_root()
        try:
            for n in self.names:
                cur = self.S[n][self.k]
                e = effects.get(n)
                if not e:
                    self.S[n].append(cur)
                    continue
                if T_begin != self.k:
                    self.grown[n] = False
                t = Txn(T_begin, newk, e)
                self.S[n].append(self.place(root, n, cur, t))
        finally:
            tm.abort()
        self.k = newk
        for n in effects:
            self.states_seen.add(self.digest(n, self.S[n][newk]))
            if is_kw(self.ic[n]):
                freq = {}
                for v in self.S[n][newk].m.values():
                    for w in v:
                        freq[w] = freq.get(w, 0) + 1
                self.kwmax[n] = max([self.kwmax[n]] + list(freq.values()))

    def digest(self, n, st):
        def key(v):
            return repr(sorted(v, key=repr)) if isinstance(
                v, frozenset) else repr(v)
        h = hashlib.sha1(repr((self.ic[n]['kind'], sorted(
            (repr(k), key(v)) for k, v in st.m.items()))).encode())
        return h.hexdigest()[:12]

    PROBES = ({'x': 5, 'kind': 'a', 'tags': ['t', 'u']},
              {'x': 0, 'kind': 'b', 'tags': []}, {'x': -1, 'kind': 'c'},
              {'kind': 'A', 'tags': ['t']}, {'x': 1})

    def fits(self, root, n, state):
        """Does what is committed answer like this state?  Raises if not."""
        self.order_oracle.observe(root[n], state, n, 2)
        if self.ic[n]['kind'] != 'topic':
            return
        # an empty filter answers like a missing one: try documents on them
        # in a transaction that is thrown away
        filters = state.filters()
        probes = list(self.PROBES) + [
            {'x': e - 100} for i, e in filters.values() if e >= 100]
        tm = transaction.TransactionManager(explicit=True)
        tm.begin()
        conn = self.db.open(tm)
        try:
            ix = conn.root()[n]
            for i, ob in enumerate(probes):
                self.order_oracle.call('index_doc', lambda: ix.index_doc(
                    1000000 + i, classes.Obj(**ob)))
            for fid in sorted(set(self.ic[n]['fids']) | set(filters)):
                got = {d for d in ix.search([fid])
                       if 1000000 <= d < 1001000}
                want = set()
                if fid in filters:
                    want = {1000000 + i for i, ob in enumerate(probes)
                            if classes.topic_expr(filters[fid][1])[1](ob)}
                if got != want:
                    raise Violation('serial', 'filter %s takes probes %s, '
                                    'expected %s' % (fid, sorted(got),
                                                     sorted(want)))
                try:
                    ix.delFilter(fid)
                    there = True
                except KeyError:
                    there = False
                if there != (fid in filters):
                    raise Violation('serial', 'filter %s is %sthere' % (
                        fid, '' if there else 'not '))
        finally:
            tm.abort()
            conn.cacheMinimize()
            conn.close()

    def place(self, root, n, cur, t):
        """Find a serial position for t consistent with what is there now."""
        order = self.txns[n]
        end = t.effects.apply(cur)
        overl = [x for x in order if x.commit > t.begin]
        if not overl:
            order.append(t)
            return end
        err = None
        try:
            self.fits(root, n, end)
            order.append(t)
            return end
        except Violation as e:
            err = e
        self.count('reordered-search')
        # full search over orders of the overlapping tail
        tail_from = min(order.index(x) for x in overl)
        lo = min([x.begin for x in overl] + [t.begin])
        while tail_from > 0 and order[tail_from - 1].commit > lo:
            tail_from -= 1
        head, tail = order[:tail_from], order[tail_from:] + [t]
        base = M.State()
        base0 = self.base_state(n, head)
        if base0 is not None:
            base = base0
        tried = set()
        n_tried = 0
        modes = [[x.effects for x in tail]]
        if any(x.effects.clearf for x in tail):
            modes.append([x.effects for x in tail[:-1]] + [
                t.effects.net()])
            modes.append([x.effects.net() for x in tail])
        for perm, effs in ((p, m) for m in modes
                           for p in self.linear_extensions(tail)):
            for x, e in zip(tail, effs):
                x.effects = e
            s = base
            for x in perm:
                s = x.effects.apply(s)
            key = self.digest(n, s)
            if key in tried:
                continue
            tried.add(key)
            n_tried += 1
            if n_tried > 60:
                break
            try:
                self.fits(root, n, s)
            except Violation:
                continue
            self.txns[n] = head + list(perm)
            self.count('reordered')
            return s
        for x, e in zip(tail, modes[0]):
            x.effects = e
        try:
            # nothing fits in full: another property is broken.  Go on if
            # what this profile looks at still fits the commit order.
            if 'count' in self.aspects and not any(
                    k[0] == '#' for k in end.m if isinstance(k, str)):
                self.oracle.counts_agree(root[n], n, self.all_ids(n))
            self.oracle.observe(root[n], end, n, 2)
            order.append(t)
            self.count('unexplained')
            return end
        except Violation:
            pass
        raise Violation('serial', 'no serial order of the committed '
                        'transactions explains index %s: %s' % (n, err.msg))

    def all_ids(self, n):
        """Every docid any step of the plan gives to this index."""
        ids = set()
        for step in self.plan['steps']:
            for op in [step.get('op')] + list(step.get('ops') or ()):
                if op and op[0] in ('index', 'unindex'):
                    ids.add(op[1])
        return sorted(ids)

    def base_state(self, n, head):
        s = self.init_state(n)
        for x in head:
            s = x.effects.apply(s)
        return s

    def init_state(self, n):
        return self.S[n][0]

    @staticmethod
    def linear_extensions(tail, limit=720):
        """Orders keeping real-time precedence (commit <= begin)."""
        out = []

        def rec(done, rest):
            if len(out) >= limit:
                return
            if not rest:
                out.append(done)
                return
            for x in rest:
                if any(y is not x and y.commit <= x.begin for y in rest):
                    continue
                rec(done + [x], [y for y in rest if y is not x])
        # likely order first: the new transaction moved backwards
        rec([], list(tail))
        return out

    def abort(self, c):
        self.check_results(c)
        c.tm.abort()
        self.end(c)

    def do_abort(self, c, step):
        self.ensure(c)
        self.abort(c)
        self.note('abort', c.n)
        self.count('aborts')
        if step.get('look'):
            self.ensure(c)
            self.observe_client(c, depth=step['look'])

    def do_savepoint(self, c, step):
        self.ensure(c)
        rec = self.arm(c, step.get('fault'))
        status, val = self.guarded(rec, lambda: c.tm.savepoint(
            bool(step.get('optimistic'))))
        if status == 'exc':
            if rec is None or rec['fired'] is None:
                raise Violation('exception', 'savepoint raised %s: %s' % (
                    type(val).__name__, val)) from val
            self.abort(c)
            self.ensure(c)
            self.observe_client(c, 2)
            return
        c.saves.append((val, {n: s.copy() for n, s in c.state.items()},
                        set(c.clear), {n: set(s) for n, s in
                                       c.clearf.items()},
                        {n: set(s) for n, s in c.lexwords.items()},
                        list(c.ops), c.wrote, c.all_noop, set(c.touched),
                        set(c.dirty_lex)))
        self.count('savepoints')
        self.note('savepoint', c.n)

    def rollback(self, c, i):
        i %= len(c.saves)
        (sp, state, clear, clearf, lexwords, ops, wrote, noop, touched,
         dlex) = c.saves[i]
        try:
            sp.rollback()
        except Exception as e:
            raise Violation('exception', 'rollback raised %s: %s' % (
                type(e).__name__, e)) from e
        c.saves = c.saves[:i + 1]
        c.state = {n: s.copy() for n, s in state.items()}
        c.clear = set(clear)
        c.clearf = {n: set(s) for n, s in clearf.items()}
        c.lexwords = {n: set(s) for n, s in lexwords.items()}
        c.ops = list(ops)
        # rolled-back work may leave stored copies behind: only the net
        # change counts, but the transaction is no longer known write-free
        c.touched = set(touched)
        c.dirty_lex = set(dlex)
        self.count('rollbacks')
        self.note('rollback', c.n)

    def do_rollback(self, c, step):
        self.ensure(c)
        if not c.saves:
            return
        self.rollback(c, step.get('i', 0))
        if step.get('look'):
            self.observe_client(c, depth=step['look'])

    def do_minimize(self, c, step):
        self.ensure(c)
        if step.get('how') == 'gc':
            c.conn.cacheGC()
        else:
            c.conn.cacheMinimize()
        self.count('evictions')
        self.note('minimize', c.n)

    def do_reopen(self, c, step):
        if c.active:
            self.abort(c)
        if c.conn is not None:
            c.conn.close()
            c.conn = None
        self.count('reopens')

    def do_retry(self, c, step):
        """Application retry loop after a conflict or refused commit."""
        if c.active:
            self.abort(c)
        ops, c.last_failed = c.last_failed, []
        if not ops:
            return
        self.ensure(c)
        for s in ops:
            s = {k: v for k, v in s.items() if k not in ('fault', 'look')}
            self.do(s)
        self.count('retries')
        self.commit(c)

    def do_look(self, c, step):
        self.ensure(c)
        self.observe_client(c, depth=step.get('depth', 1))
        self.note('look', c.n)

    def do_inspect(self, c, step):
        self.inspect(depth=step.get('depth', 1))

    # -- views

    def do_hist(self, c, step):
        """A historical connection answers as of its time, writes nothing."""
        k = step['k'] % (self.k + 1)
        tid = self.tids[k]
        before = self.storage.lastTransaction()
        tm = transaction.TransactionManager(explicit=True)
        tm.begin()
        conn = self.db.open(tm, at=tid)
        root = conn.root()
        try:
            if step.get('cold'):
                conn.cacheMinimize()
            for n in self.names:
                self.oracle.observe(root[n], self.S[n][k], n, 2)
            for ixq in step.get('qs', ()):
                self.query_on(root[ixq[0]], self.S[ixq[0]][k], ixq[0], ixq[1])
            try:
                tm.commit()
            except Exception as e:
                raise Violation('write', 'committing a historical query '
                                'transaction raised %s: %s' % (
                                    type(e).__name__, e)) from e
        finally:
            conn.close()
        if self.storage.lastTransaction() != before:
            raise Violation('write', 'a historical query was written')
        self.count('historical')
        self.note('hist', k)

    def do_readonly(self, c, step):
        """Queries against a storage opened read-only."""
        if self.cfg['storage'] != 'mem':
            return
        self.storage.read_only = True
        db = ZODB.DB(self.storage, cache_size=self.cfg.get('cache', 400)) \
            if step.get('newdb') else self.db
        tm = transaction.TransactionManager(explicit=True)
        try:
            tm.begin()
            conn = db.open(tm)
            root = conn.root()
            for n in self.names:
                self.oracle.observe(root[n], self.S[n][self.k], n, 2)
            for ixq in step.get('qs', ()):
                self.query_on(root[ixq[0]], self.S[ixq[0]][self.k], ixq[0],
                              ixq[1])
            try:
                tm.commit()
            except Exception as e:
                raise Violation('write', 'committing a read-only query '
                                'transaction raised %s: %s' % (
                                    type(e).__name__, e)) from e
            conn.close()
        finally:
            self.storage.read_only = False
        self.count('readonly')
        self.note('readonly')

    # -- restart and crash

    def close_clients(self):
        for c in self.clients:
            if c.conn is not None:
                if c.active:
                    c.tm.abort()
                    self.end(c)
                c.conn.close()
                c.conn = None
            c.results = []
        if self.inspector is not None:
            tm, conn = self.inspector
            conn.close()
            self.inspector = None

    def restart(self):
        self.close_clients()
        if self.cfg['storage'] == 'file':
            self.db.close()
            self.storage = SimFileStorage(self.path, self.hooks)
        else:
            old = self.storage
            self.storage = new = SimStorage(self.hooks)
            # only what was committed survives
            new._data = old._data
            new._transactions = old._transactions
            new._oid = old._oid
            new._ltid = old._ltid
        self.open_db()
        self.count('restarts')

    def do_move(self, c, step):
        """The database is packed, or its contents moved to another one."""
        if self.cfg['storage'] != 'file':
            return
        self.close_clients()
        how = step.get('how')
        if how == 'pack':
            self.db.pack()
        else:
            conn = self.db.open(transaction.TransactionManager(explicit=True))
            f = io.BytesIO()
            conn.transaction_manager.begin()
            conn.exportFile(conn.root()._p_oid, f)
            conn.transaction_manager.abort()
            conn.close()
            self.db.close()
            self.fileno += 1
            self.path = os.path.join(self.scratch, 'd%d.fs' % self.fileno)
            self.storage = SimFileStorage(self.path, self.hooks, create=True)
            self.open_db()
            conn = self.db.open(transaction.TransactionManager(explicit=True))
            conn.transaction_manager.begin()
            f.seek(0)
            conn.root().update(conn.importFile(f))
            conn.transaction_manager.commit()
            conn.close()
            self.tids = [None] * self.k + [self.storage.lastTransaction()]
        self.count('moves')
        self.note('move', how)
        if step.get('depth'):
            self.inspect(depth=step['depth'])

    def do_restart(self, c, step):
        self.restart()
        self.note('restart')
        self.inspect(depth=step.get('depth', 2))
        if step.get('peer') and self.peer is not None:
            self.peer_check()

    # what a history has come to, for another process to go on with
    STATE = ('S', 'k', 'tids', 'txns', 'lex', 'lexhist', 'optseq', 'kwmax',
             'thr_changed', 'grown', 'inc', 'fileno', 'stats', 'log',
             'states_seen')

    def upgrade(self):
        """Let the other node do its part, and take over from it.

        That is one with the older version (C22), or one with another hash
        seed and the other scorer.
        """
        at = [i for i, s in enumerate(self.plan['steps'])
              if s['v'] == 'upgrade']
        node = self.old if self.plan['sim'] == 'upgrade' else self.peer
        if not at or node is None or self.cfg['storage'] != 'file':
            return None
        rep = node({'plan': dict(self.plan,
                                 steps=self.plan['steps'][:at[-1]])})
        if isinstance(rep, tuple):
            raise Violation(*rep)
        if 'violation' in rep:
            self.stats, self.log, self.step_no = (
                rep['stats'], rep['log'], rep['at'])
            raise Violation(*rep['violation'])
        for k, v in rep['state'].items():
            setattr(self, k, v)
        self.hooks.clock = rep['clock']
        tune_btrees(self.cfg.get('leaf'), self.cfg.get('internal'))
        os.makedirs(self.scratch, exist_ok=True)
        self.path = os.path.join(self.scratch, os.path.basename(rep['path']))
        for ext in ('', '.index'):
            if os.path.exists(rep['path'] + ext):
                shutil.move(rep['path'] + ext, self.path + ext)
        shutil.rmtree(os.path.dirname(rep['path']), ignore_errors=True)
        if not self.plan['steps'][at[-1]].get('index', True) and \
                os.path.exists(self.path + '.index'):
            os.remove(self.path + '.index')
        self.storage = SimFileStorage(self.path, self.hooks)
        self.open_db()
        self.count('upgrades' if node is self.old else 'handovers')
        return at[-1]

    def do_upgrade(self, c, step):
        self.note('upgrade')
        if step.get('depth'):
            self.inspect(depth=step['depth'])

    def crash(self, c, point):
        """Commit cut by a crash; only the bytes that reached the log stay."""
        others = self.k > c.begin_k
        captured = {}
        L0 = os.path.getsize(self.path)

        def on_finish():
            with open(self.path, 'rb') as f:
                captured['data'] = f.read()
            if point != 'after':
                raise SimCrash()
        self.hooks.on_finish = on_finish
        applied = False
        try:
            try:
                c.tm.commit()
                applied = 'data' in captured
                with open(self.path, 'rb') as f:
                    captured['data'] = f.read()
            finally:
                self.hooks.on_finish = None
        except SimCrash:
            pass
        except ConflictError as e:
            if not others:
                raise Violation('conflict', 'a transaction nothing else '
                                'committed during conflicts: %s' % e)
            with open(self.path, 'rb') as f:
                captured['data'] = f.read()[:L0]
            captured['conflict'] = True
        data = captured['data']
        if applied:
            effects = {n: M.Effect(c.base[n], c.state[n], n in c.clear,
                                   c.clearf[n]) for n in sorted(c.touched)}
        elif not captured.get('conflict') and isinstance(point, float):
            # a prefix of the in-flight transaction (status byte not yet set)
            data = data[:L0 + int((len(data) - L0) * point)]
        elif not captured.get('conflict') and point == 'torn':
            # tail of the in-flight record lost in a hole of zeros
            h = L0 + (len(data) - L0) // 2
            data = data[:h]
        self.note('crash', point, applied)
        self.count('fault:crash')
        # the old process is gone
        old = [c2.conn for c2 in self.clients if c2.conn is not None]
        self.graveyard = getattr(self, 'graveyard', [])
        self.graveyard.append((self.db, self.storage, old, self.inspector))
        newpath = os.path.join(self.scratch, 'd%d.fs' % (
            self.fileno + 1))
        self.fileno += 1
        with open(newpath, 'wb') as f:
            f.write(data)
        lost = c
        begin_k = c.begin_k
        dirty = set(c.dirty_lex)
        lexwords = c.lexwords
        for c2 in self.clients:
            c2.conn = None
            c2.active = False
            c2.results = []
            c2.saves = []
            c2.tm = transaction.TransactionManager(explicit=True)
        self.inspector = None
        self.path = newpath
        self.storage = SimFileStorage(self.path, self.hooks)
        self.open_db()
        if applied:
            lost.begin_k = begin_k
            lost.dirty_lex = dirty
            lost.lexwords = lexwords
            self.committed(lost, effects)
        self.inspect(depth=2)
        if self.cfg.get('peer') and self.peer is not None:
            self.peer_check()

    def peer_check(self):
        """The same file answered by another process, other hash seed."""
        if self.cfg['storage'] != 'file':
            return
        self.close_clients()
        self.db.close()
        req = {'cfg': self.cfg, 'path': self.path,
               'clock': self.hooks.clock,
               'states': {n: self.S[n][self.k].m for n in self.names},
               'words': {n: (lm.words, lm.pairs, lm.jumped)
                         for n, lm in self.lex.items()}}
        reply = self.peer(req)
        self.count('peer')
        self.storage = SimFileStorage(self.path, self.hooks)
        self.open_db()
        if reply is not None:
            raise Violation(reply[0], 'in another process: ' + reply[1])


def history(req, scratch):
    """Runs in the process of the other node: its part of a history."""
    run = Run(req['plan'], scratch)
    run.setup()
    try:
        for i, step in enumerate(req['plan']['steps']):
            run.step_no = i
            run.do(step)
    except Violation as v:
        if req['plan']['sim'] == 'upgrade':
            raise
        return {'violation': (v.kind, v.msg), 'stats': run.stats,
                'log': run.log, 'at': run.step_no}
    finally:
        sys.settrace(None)
    run.close_clients()
    run.db.close()
    for states in run.S.values():
        for st in states:
            st._inv = None
    return {'state': {k: getattr(run, k) for k in run.STATE},
            'clock': run.hooks.clock, 'path': run.path}


def peer_observe(req, scratch):
    """Runs in the other process: open the file, compare with the model."""
    plan = {'cfg': req['cfg'], 'steps': []}
    run = Run(plan, scratch)
    tune_btrees(req['cfg'].get('leaf'), req['cfg'].get('internal'))
    run.path = req['path']
    run.hooks.clock = req['clock']
    run.storage = SimFileStorage(run.path, run.hooks)
    run.open_db()
    for n, m in req['states'].items():
        run.S[n][0] = M.State(m)
    for n, (words, pairs, jumped) in req['words'].items():
        lm = LexModel()
        lm.words, lm.pairs, lm.jumped = words, pairs, jumped
        run.lex[n] = lm
    try:
        run.inspect(depth=2)
        return None
    except Violation as v:
        return (v.kind, v.msg)
    finally:
        try:
            run.close_clients()
            run.db.close()
        except Exception:
            pass
