"""Application-side classes the simulated clients use with zope.index."""
import functools
import re

from zope.index.keyword.index import CaseInsensitiveKeywordIndex
from zope.index.keyword.index import KeywordIndex
from zope.index.text.htmlsplitter import HTMLWordSplitter
from zope.index.text.lexicon import CaseNormalizer
from zope.index.text.lexicon import Splitter
from zope.index.text.lexicon import StopWordAndSingleCharRemover
from zope.index.text.lexicon import StopWordRemover


class Injected(Exception):
    """Base of failures made up by the simulator (value/source faults)."""


class SourceFailure(Injected):
    pass


class SimInterrupt(BaseException):
    """An asynchronously delivered exception (like KeyboardInterrupt)."""


# ---------------------------------------------------------------- pipelines

class SpaceSplitter:
    """Splits on blanks, quotes and hyphens only: words may contain any other
    character."""

    _split = re.compile(r'[\s"\-]+').split

    def process(self, lst):
        result = []
        for s in lst:
            result += [w for w in self._split(s) if w]
        return result

    def processGlob(self, lst):
        return self.process(lst)


class FailingElement:
    """Pipeline element that fails while a class-level fuse is lit."""

    fuse = None

    def process(self, lst):
        f = FailingElement.fuse
        if f is not None:
            FailingElement.fuse = None
            raise SourceFailure('pipeline element failed')
        return lst


PIPELINES = {
    'default': lambda: (Splitter(), CaseNormalizer(), StopWordRemover()),
    'split': lambda: (Splitter(),),
    'splitcase': lambda: (Splitter(), CaseNormalizer()),
    'single': lambda: (Splitter(), CaseNormalizer(),
                       StopWordAndSingleCharRemover()),
    'html': lambda: (HTMLWordSplitter(), CaseNormalizer(), StopWordRemover()),
    'space': lambda: (SpaceSplitter(), CaseNormalizer()),
    'failing': lambda: (Splitter(), FailingElement(), CaseNormalizer(),
                        StopWordRemover()),
}


# ----------------------------------------------------------------- keywords

_strip = re.compile(r'[^a-z0-9]+')


class StrippingKeywordIndex(KeywordIndex):
    """Application normalizer: lower-case, alphanumerics only, drops blanks
    and folds the plural."""

    def normalize(self, seq):
        out = []
        for w in seq:
            w = _strip.sub('', w.lower())
            if w.endswith('s') and len(w) > 1:
                w = w[:-1]
            if w:
                out.append(w)
        return out


def strip_normalize(w):
    w = _strip.sub('', w.lower())
    if w.endswith('s') and len(w) > 1:
        w = w[:-1]
    return w


KEYWORD_CLASSES = {
    'keyword': KeywordIndex,
    'ikeyword': CaseInsensitiveKeywordIndex,
    'skeyword': StrippingKeywordIndex,
}


# -------------------------------------------------------------------- topic

class Obj:
    """An application object looked at by topic filters."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return 'Obj(%s)' % ', '.join(
            '%s=%r' % kv for kv in sorted(self.__dict__.items()))

    def shout(self):
        return self.kind.upper()


# expression text and its reference on the attribute dict

TOPIC_EXPRS = [
    ("context.x > 2", lambda o: isinstance(o.get('x'), int) and o['x'] > 2),
    ("context.kind == 'a'", lambda o: o.get('kind') == 'a'),
    ("'t' in context.tags", lambda o: 't' in o.get('tags', ())),
    ("context.tags", lambda o: bool(o.get('tags'))),
    ("context.nosuch", lambda o: False),
    ("10 // context.x", lambda o: isinstance(o.get('x'), int) and
        o['x'] != 0 and bool(10 // o['x'])),
    ("context.shout() == 'A' or context.x", lambda o: (
        'kind' in o and (o['kind'].upper() == 'A' or bool(o.get('x', 0)))
        and ('x' in o or o['kind'].upper() == 'A'))),
    ("not context.x", lambda o: 'x' in o and not o['x']),
    ("len(context.tags) >= 2", lambda o: len(o.get('tags', ())) >= 2),
    ("True", lambda o: True),
    ("syntax error here", lambda o: False),
    ("context.kind in ('b', 'c')", lambda o: o.get('kind') in ('b', 'c')),
]


def topic_expr(e):
    """(expression text, reference) of expression number e."""
    if e >= 100:
        return ('context.x == %d' % (e - 100), lambda o: o.get('x') == e - 100)
    return TOPIC_EXPRS[e]


# ------------------------------------------------------------- exploding args

class Bomb:
    """An orderable value whose n-th comparison fails."""

    def __init__(self, base, n):
        self.base = base
        self.n = n

    def _tick(self):
        self.n -= 1
        if self.n < 0:
            raise SourceFailure('comparison failed')

    def __lt__(self, other):
        self._tick()
        return self.base < getattr(other, 'base', other)

    def __le__(self, other):
        self._tick()
        return self.base <= getattr(other, 'base', other)

    def __gt__(self, other):
        self._tick()
        return self.base > getattr(other, 'base', other)

    def __ge__(self, other):
        self._tick()
        return self.base >= getattr(other, 'base', other)

    def __eq__(self, other):
        self._tick()
        return self.base == getattr(other, 'base', other)

    def __ne__(self, other):
        return not self == other

    __hash__ = None


@functools.total_ordering
class Rank:
    """A value of an application's own orderable kind."""

    def __init__(self, rank):
        self.rank = rank

    def __eq__(self, other):
        return isinstance(other, Rank) and self.rank == other.rank

    def __lt__(self, other):
        if not isinstance(other, Rank):
            return NotImplemented
        return self.rank < other.rank

    def __hash__(self):
        return hash(self.rank)

    def __repr__(self):
        return 'Rank(%r)' % self.rank


class FailingList(list):
    """A list whose iteration fails after n items."""

    def __init__(self, seq, n):
        list.__init__(self, seq)
        self.n = n

    def __iter__(self):
        for x in list.__getitem__(self, slice(self.n)):
            yield x
        raise SourceFailure('source failed')


