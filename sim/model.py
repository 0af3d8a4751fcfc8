"""Executable reference models: what the answers must be.

Nothing here imports zope.index.  A State maps keys to values:
  field    docid -> value
  keyword  docid -> frozenset of normalized keywords
  text     docid -> tuple of normalized words
  topic    ('f', fid) -> (incarnation, expr), ('m', fid, inc, docid) -> True
plus, for text, '#doc' / '#word' flags (counter object present).
"""
import math
import random
import re

STOP = frozenset(
    "a and are as at be but by for if in into is it no not of on or such that "
    "the their then there these they this to was will with".split())

DEL = ('<del>',)


class State:
    __slots__ = ('m', '_inv')

    def __init__(self, m=None):
        self.m = {} if m is None else m
        self._inv = None

    def copy(self):
        return State(dict(self.m))

    def __eq__(self, other):
        return self.m == other.m

    def set(self, k, v):
        self.m[k] = v
        self._inv = None

    def drop(self, k):
        if k in self.m:
            del self.m[k]
            self._inv = None

    def docs(self):
        return {k: v for k, v in self.m.items() if type(k) is int}

    # topic
    def filters(self):
        return {k[1]: v for k, v in self.m.items()
                if type(k) is tuple and k[0] == 'f'}

    def members(self, fid):
        f = self.m.get(('f', fid))
        if f is None:
            return set()
        return {k[3] for k in self.m
                if type(k) is tuple and k[0] == 'm' and k[1] == fid
                and k[2] == f[0]}


class Effect:
    """Net change of one transaction on one index."""

    __slots__ = ('clear', 'clearf', 'changes')

    def __init__(self, base, end, clear, clearf):
        self.clear = clear
        self.clearf = frozenset(clearf)
        ch = {}
        if clear:
            ch = dict(end.m)
        else:
            b, e = base.m, end.m
            for k, v in e.items():
                if k not in b or b[k] != v:
                    ch[k] = v
                elif self.clearf and type(k) is tuple and k[0] == 'm' \
                        and (k[1], k[2]) in self.clearf:
                    ch[k] = v       # cleared and added again
            for k in b:
                if k not in e:
                    ch[k] = DEL
        self.changes = ch

    def net(self):
        """Clearing filters taken as removing the documents it found."""
        if not self.clearf:
            return self
        e = Effect.__new__(Effect)
        e.clear = self.clear
        e.clearf = frozenset()
        e.changes = self.changes
        return e

    def __bool__(self):
        return bool(self.clear or self.clearf or self.changes)

    def apply(self, state):
        s = State({} if self.clear else dict(state.m))
        m = s.m
        if self.clearf:
            for k in list(m):
                if type(k) is tuple and k[0] == 'm' \
                        and (k[1], k[2]) in self.clearf:
                    del m[k]
        for k, v in self.changes.items():
            if v is DEL:
                m.pop(k, None)
                if type(k) is tuple and k[0] == 'f':
                    for k2 in [k2 for k2 in m if type(k2) is tuple
                               and k2[0] == 'm' and k2[1] == k[1]]:
                        del m[k2]
            else:
                m[k] = v
        if any(type(k) is tuple and k and k[0] in ('f', 'm')
               for k in self.changes):
            # membership of replaced or removed filters means nothing
            for k in [k for k in m if type(k) is tuple and k[0] == 'm'
                      and m.get(('f', k[1]), DEL)[0] != k[2]]:
                del m[k]
        return s


# ------------------------------------------------------------------ text

_word = re.compile(r'\w+')


def normalize_raw(pipeline, raw):
    """The word a raw token becomes, or None if the pipeline drops it."""
    if pipeline == 'html':
        if raw.startswith('<') or raw.startswith('&'):
            return None
        raw = raw.lower()
        return None if raw in STOP else raw
    if pipeline == 'split':
        return raw
    raw = raw.lower()
    if pipeline in ('default', 'failing'):
        return None if raw in STOP else raw
    if pipeline == 'single':
        if raw in STOP or (len(raw) == 1 and ord(raw) < 255):
            return None
        return raw
    return raw       # splitcase, space


def normalize_tokens(pipeline, raws):
    out = []
    for r in raws:
        w = normalize_raw(pipeline, r)
        if w is not None:
            out.append(w)
    return tuple(out)


def glob_pattern(pipeline, pattern):
    return pattern if pipeline == 'split' else pattern.lower()


def glob_re(pattern):
    out = []
    for c in pattern:
        if c == '*':
            out.append('.*')
        elif c == '?':
            out.append('.')
        else:
            out.append(re.escape(c))
    return re.compile(''.join(out), re.S)


def idf(n, N):
    return math.log(1.0 + float(N) / n)


class Ambiguous(Exception):
    pass


class TextEval:
    """Evaluates queries over a document set."""

    K1 = 1.2
    B = 0.75

    def __init__(self, kind, pipeline, docs):
        self.kind = kind          # 'okapi' | 'cosine'
        self.pipeline = pipeline
        self.docs = docs
        self.N = len(docs)
        self.total = sum(len(t) for t in docs.values())
        inv = {}
        W = {}
        for d, toks in docs.items():
            cnt = {}
            for t in toks:
                cnt[t] = cnt.get(t, 0) + 1
            for t, f in cnt.items():
                inv.setdefault(t, {})[d] = f
            if kind == 'cosine':
                W[d] = math.sqrt(sum((1 + math.log(f)) ** 2
                                     for f in cnt.values()))
        self.inv = inv
        self.W = W

    def word_scores(self, w):
        post = self.inv.get(w)
        if not post:
            return {}
        i = idf(len(post), self.N)
        out = {}
        if self.kind == 'okapi':
            mean = self.total / self.N
            for d, f in post.items():
                lw = (1.0 - self.B) + self.B * len(self.docs[d]) / mean
                out[d] = f * (self.K1 + 1.0) / (f + self.K1 * lw) * i
        else:
            for d, f in post.items():
                out[d] = (1.0 + math.log(f)) / self.W[d] * i
        return out

    def eval(self, node):
        k = node[0]
        if k == 'w':
            w = normalize_raw(self.pipeline, node[1])
            return None if w is None else self.word_scores(w)
        if k == 'ph':
            ws = list(normalize_tokens(self.pipeline, node[1]))
            if not ws:
                return None
            if len(ws) == 1:
                return self.word_scores(ws[0])
            return self.phrase(ws)
        if k == 'glob':
            rx = glob_re(glob_pattern(self.pipeline, node[1]))
            out = {}
            for w in self.inv:
                if rx.fullmatch(w):
                    for d, s in self.word_scores(w).items():
                        out[d] = out.get(d, 0.0) + s
            return out
        if k == 'and':
            rs = [r for r in map(self.eval, node[1]) if r is not None]
            if not rs:
                return None
            keep = set(rs[0])
            for r in rs[1:]:
                keep &= set(r)
            for n in node[2]:
                r = self.eval(n)
                if r is not None:
                    keep -= set(r)
            return {d: sum(r[d] for r in rs) for d in keep}
        if k == 'or':
            rs = [r for r in map(self.eval, node[1]) if r is not None]
            if not rs:
                return None
            out = {}
            for r in rs:
                for d, s in r.items():
                    out[d] = out.get(d, 0.0) + s
            return out
        raise AssertionError(k)

    def phrase(self, ws):
        rs = [self.word_scores(w) for w in ws]
        keep = None
        for r in rs:
            keep = set(r) if keep is None else keep & set(r)
        out = {}
        n = len(ws)
        ws = tuple(ws)
        for d in keep:
            t = self.docs[d]
            if any(t[i:i + n] == ws for i in range(len(t) - n + 1)):
                out[d] = sum(r[d] for r in rs)
        return out

    def terms(self, node):
        k = node[0]
        if k == 'w':
            w = normalize_raw(self.pipeline, node[1])
            return [] if w is None else [w]
        if k == 'ph':
            return list(normalize_tokens(self.pipeline, node[1]))
        if k == 'glob':
            p = glob_pattern(self.pipeline, node[1])
            if self.pipeline == 'space':
                return [p]
            return list(normalize_tokens(self.pipeline, _word.findall(p)))
        out = []
        for n in node[1]:
            out += self.terms(n)
        return out

    def query_weight(self, node):
        return self.weight(self.terms(node)) or 1.0

    def weight(self, terms):
        ws = [idf(len(self.inv[t]), self.N) for t in terms
              if t in self.inv]
        if self.kind == 'okapi':
            return sum(w * (1.0 + self.K1) for w in ws)
        return math.sqrt(sum(w * w for w in ws))

    def raw(self, what, words):
        """The index's own searches: unweighted scores, None for all."""
        if what == 'glob':
            return self.eval(('glob', words[0]))
        toks = normalize_tokens(self.pipeline, words)
        if what == 'weight':
            return self.weight(toks)
        if what == 'phrase':
            if not toks:
                return {}
            return self.phrase(list(toks))
        if not toks:
            return None
        out = {}
        for t in toks:
            for d, s in self.word_scores(t).items():
                out[d] = out.get(d, 0.0) + s
        return out

    def tree(self, node):
        """As eval, but a parse tree may have what no parsed query has."""
        k = node[0]
        if k in ('and', 'or'):
            if all(self.tree(n) is None for n in node[1]):
                raise Ambiguous
            for n in node[2:] and node[2]:
                self.tree(n)
        elif k == 'ph':
            r = self.eval(node)
            if r is None:
                raise Ambiguous
            return r
        return self.eval(node)

    def query(self, node):
        r = self.eval(node)
        if not r:
            return {}
        q = self.query_weight(node)
        return {d: s / q for d, s in r.items()}


def render_free(node, rng):
    """Text of a query tree, as freely as the grammar allows."""
    def word(w):
        return ''.join(rng.choice([c.upper(), c.lower()]) for c in w)

    def gap():
        return rng.choice([' ', ' ', ' ', '  ', '\n', '\t', ' \r\n '])

    def paren(t, p):
        if rng.random() < p:
            t = '(' + rng.choice(['', ' ']) + t + rng.choice(['', ' ']) + ')'
        return t

    def sub(n):
        t = render_free(n, rng)
        if n[0] in ('and', 'or'):
            return paren(t, 2)
        return paren(t, 0.1)
    k = node[0]
    if k in ('w', 'glob', 'ph'):
        return render_query(node)
    if k == 'or':
        out = ''
        for n in node[1]:
            # AND binds closer
            t = render_free(n, rng) if n[0] == 'and' and rng.random() < 0.5 \
                else sub(n)
            out += (gap() + word('or') + gap() if out else '') + t
        return out
    parts = [(n, False) for n in node[1]]
    leaf = all(n[0] not in ('and', 'or') for n in node[1] + node[2])
    if leaf and rng.random() < 0.5:
        # implied AND, hyphen negation, in any order
        parts += [(n, True) for n in node[2]]
        rng.shuffle(parts)
        return gap().join(('-' if no else '') + render_query(n)
                          for n, no in parts)
    rest = parts[1:] + [(n, True) for n in node[2]]
    rng.shuffle(rest)
    out = sub(parts[0][0])
    for n, no in rest:
        if no and rng.random() < 0.5:
            out += gap() + word('not') + gap() + sub(n)
        else:
            out += gap() + word('and') + gap()
            out += word('not') + gap() + sub(n) if no else sub(n)
    return paren(out, 0.1)


def render_query(node, style=0):
    """Text of a query tree.  style perturbs operator spelling."""
    if style >= 36:
        return render_free(node, random.Random(style))
    def sub(n):
        t = render_query(n, style)
        if n[0] in ('and', 'or'):
            return '(' + t + ')'
        return t
    k = node[0]
    if k == 'w' or k == 'glob':
        return node[1]
    if k == 'ph':
        if len(node) > 2 and node[2] == '-':
            return '-'.join(node[1])
        return '"' + ' '.join(node[1]) + '"'
    OR = ('OR', 'or', 'Or')[style % 3]
    AND = ('AND', 'and', 'And')[(style // 3) % 3]
    NOT = ('NOT', 'not', 'Not')[(style // 9) % 3]
    if k == 'or':
        return (' %s ' % OR).join(sub(n) for n in node[1])
    pos, nots = node[1], node[2]
    leaf = all(n[0] not in ('and', 'or') for n in list(pos) + list(nots))
    if leaf and style % 2 == 0:
        # implied AND, hyphen negation
        return ' '.join([sub(n) for n in pos] + ['-' + sub(n) for n in nots])
    out = (' %s ' % AND).join(sub(n) for n in pos)
    for i, n in enumerate(nots):
        if (style + i) % 4 < 2:
            out += ' %s %s %s' % (AND, NOT, sub(n))
        else:
            out += ' %s %s' % (NOT, sub(n))
    return out


# ------------------------------------------------------------------ field

class _Least:
    """Orders below everything (the documented order of None)."""

    def __lt__(self, other):
        return not isinstance(other, _Least)

    def __eq__(self, other):
        return isinstance(other, _Least)


def vkey(v):
    return (0,) if v is None else (1, v)


def field_range(docs, lo, hi):
    out = set()
    for d, v in docs.items():
        if lo is not None and vkey(v) < vkey(lo):
            continue
        if hi is not None and vkey(v) > vkey(hi):
            continue
        out.add(d)
    return out


def distinct(values):
    out = []
    for v in sorted(values, key=vkey):
        if not out or vkey(out[-1]) != vkey(v):
            out.append(v)
    return out


def check_sort(docs, ids, got, reverse, limit):
    """None if got is a correct answer, else a description."""
    want = sorted((docs[d] for d in set(ids) if d in docs), key=vkey,
                  reverse=bool(reverse))
    if limit is not None:
        want = want[:limit]
    if len(got) != len(want):
        return 'sort returned %d ids, expected %d' % (len(got), len(want))
    if len(set(got)) != len(got):
        return 'sort returned an id twice'
    for g in got:
        if g not in docs or g not in ids:
            return 'sort returned %r, not an indexed id of the input' % (g,)
    for g, w in zip(got, want):
        if vkey(docs[g]) != vkey(w):
            return 'sort order wrong: values %r, expected %r' % (
                [docs[x] for x in got], want)
    return None
