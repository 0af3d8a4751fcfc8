"""Plan generation: a pure function of (profile, seed)."""
import random
import zlib

from sim import model as M

PROFILES = {}

TEXT_KINDS = {'okapi': 3, 'cosine': 2}
ALL_KINDS = {'field': 3, 'keyword': 2, 'ikeyword': 1, 'skeyword': 1,
             'topic': 2, 'okapi': 3, 'cosine': 2}
ALL_ANSWERS = ('result', 'sort', 'score', 'count', 'lexicon')


def profile(pid, **kw):
    p = dict(
        pid=pid,
        kinds=ALL_KINDS,
        nindexes=(1, 2),
        aspects=ALL_ANSWERS,
        clients=(1, 3),
        steps=(14, 34),
        storage={'mem': 1},
        weights={},
        op_faults={},
        q_faults={},
        commit_faults={},
        share_lex=0.3,
        depth=1,
        wide=0.04,
        legacy=0.06,
        handover=0.03,
        sim='db',
    )
    w = dict(op=40, q=16, commit=15, abort=2, savepoint=3, rollback=2,
             minimize=4, reopen=1, restart=1, crash=0, hist=0, readonly=0,
             retry=3, look=2, inspect=0, drain=0, bulk=2, lexadd=0, jump=0,
             noop=0, overlap=3, move=0)
    w.update(kw.pop('weights', {}))
    p.update(kw)
    p['weights'] = w
    PROFILES[pid] = p
    return p


FIELD = {'field': 1}
KW = {'keyword': 3, 'ikeyword': 1, 'skeyword': 2}
LIGHT = {'load': 0.02, 'int': 0.02, 'bad': 0.02}

profile('C01', kinds=FIELD, aspects=('result', 'count'), op_faults=LIGHT,
        storage={'mem': 9, 'file': 1}, weights=dict(q=20))
profile('C02', kinds=FIELD, aspects=('sort',), op_faults=LIGHT,
        storage={'mem': 9, 'file': 1},
        weights=dict(q=45, bulk=5, op=30), steps=(10, 26))
profile('C03', kinds=KW, aspects=('result', 'count'), op_faults=LIGHT,
        storage={'mem': 9, 'file': 1}, weights=dict(q=18, bulk=4))
profile('C04', kinds={'topic': 1}, aspects=('result',), op_faults=LIGHT,
        storage={'mem': 9, 'file': 1}, nindexes=(1, 1),
        weights=dict(q=20))
profile('C05', kinds=TEXT_KINDS, aspects=('result', 'count'),
        q_faults={'int': 0.02},
        op_faults=LIGHT, storage={'mem': 9, 'file': 1},
        weights=dict(q=40, bulk=3, lexadd=1, jump=2), steps=(10, 26))
profile('C06', kinds=TEXT_KINDS, aspects=('score',), op_faults=LIGHT,
        storage={'mem': 9, 'file': 1},
        weights=dict(q=40, bulk=3), steps=(10, 26))
profile('C07', handover=0.08, kinds=TEXT_KINDS, aspects=('lexicon',), share_lex=0.6,
        storage={'mem': 3, 'file': 1}, clients=(2, 3), op_faults={
            'load': 0.03, 'int': 0.06, 'bad': 0.02},
        commit_faults={'store': 0.05, 'vote': 0.03},
        weights=dict(lexadd=22, op=28, q=2, crash=1, restart=2, savepoint=5,
                     rollback=5, abort=4, jump=2, look=4, retry=5))
profile('C08', clients=(2, 4), steps=(18, 44), share_lex=0.3,
        weights=dict(op=42, q=6, commit=22, abort=1, savepoint=2, rollback=1,
                     minimize=2, retry=7, bulk=2, overlap=10))
profile('C09', aspects=ALL_ANSWERS + ('atomic',), clients=(1, 2),
        q_faults={'int': 0.3},
        nindexes=(1, 3), storage={'mem': 7, 'file': 1},
        op_faults={'int': 0.30, 'load': 0.08, 'bad': 0.08, 'pipeline': 0.05},
        commit_faults={'store': 0.12, 'vote': 0.08},
        weights=dict(op=46, q=4, savepoint=7, rollback=5, abort=4,
                     minimize=2, bulk=1))
profile('C10', handover=0.15, storage={'file': 1}, clients=(1, 2), nindexes=(1, 3),
        steps=(10, 24), op_faults={'int': 0.02},
        weights=dict(op=46, q=4, crash=7, restart=4, move=1, minimize=6, commit=14,
                     bulk=2))
profile('C11', aspects=ALL_ANSWERS + ('fault',), clients=(1, 2),
        op_faults={'load': 0.45}, q_faults={'load': 0.6},
        weights=dict(op=40, q=30, minimize=1, bulk=2, look=0, restart=1))
profile('C12', aspects=ALL_ANSWERS + ('write',), clients=(2, 3), legacy=0.15,
        q_faults={'int': 0.08},
        nindexes=(1, 3), steps=(16, 36),
        weights=dict(op=26, q=44, commit=16, hist=5, readonly=3, minimize=5,
                     bulk=2, look=3))
profile('C13', aspects=('result', 'count', 'noop'), clients=(1, 3),
        weights=dict(op=20, noop=34, q=2, commit=26, bulk=4, minimize=3))
profile('C14', kinds={'field': 1, 'keyword': 1, 'ikeyword': 1, 'skeyword': 1,
                      'topic': 1}, wide=0, nindexes=(1, 2),
        aspects=('result', 'count', 'noconflict'), clients=(2, 4),
        sim='indep')
profile('C15', aspects=('result', 'alias', 'args'), clients=(1, 2),
        kinds={'field': 2, 'keyword': 2, 'ikeyword': 1, 'skeyword': 1,
               'topic': 3, 'okapi': 2, 'cosine': 2},
        weights=dict(op=34, q=44, drain=6, commit=10, abort=4, minimize=3,
                     bulk=2))
profile('C16', sim='threads', wide=0, legacy=0, clients=(2, 4), nindexes=(1, 3),
        kinds={'field': 2, 'keyword': 1, 'skeyword': 1, 'ikeyword': 1,
               'topic': 1, 'okapi': 4, 'cosine': 3}, share_lex=0.6,
        weights=dict(op=30, q=40, commit=14, abort=1, savepoint=1, rollback=1,
                     minimize=3, reopen=0, restart=0, retry=0, look=2,
                     bulk=0, overlap=0))
profile('C17', kinds=TEXT_KINDS, aspects=ALL_ANSWERS, clients=(1, 3),
        sim='legacy', legacy=1.1, storage={'mem': 5, 'file': 1}, op_faults=LIGHT,
        commit_faults={'store': 0.03}, weights=dict(q=20, retry=5))
profile('C18', sim='nbest')
profile('C19', kinds=TEXT_KINDS, nindexes=(2, 3), share_lex=1.0,
        clients=(1, 3), op_faults=LIGHT,
        weights=dict(op=44, q=20, lexadd=4, retry=4))
profile('C20', aspects=('count',), clients=(1, 4),
        kinds={'field': 3, 'keyword': 3, 'ikeyword': 1, 'skeyword': 2,
               'okapi': 3, 'cosine': 2}, nindexes=(1, 3),
        storage={'mem': 6, 'file': 1},
        op_faults={'int': 0.05, 'load': 0.05, 'bad': 0.05},
        commit_faults={'store': 0.04, 'vote': 0.03},
        weights=dict(op=50, q=6, commit=16, crash=1, retry=6, noop=4,
                     overlap=6))
profile('C21', sim='leak', wide=0, legacy=0, aspects=ALL_ANSWERS, clients=(1, 2),
        kinds={'field': 2, 'keyword': 2, 'ikeyword': 1, 'skeyword': 1,
               'topic': 1, 'okapi': 6, 'cosine': 2},
        storage={'mem': 1}, steps=(6, 14), weights=dict(
            op=30, q=4, leak=44, restart=0, overlap=0, look=0, bulk=4, minimize=2,
            retry=1))
profile('C22', sim='upgrade', legacy=0.15, clients=(1, 2), nindexes=(1, 3),
        storage={'file': 1}, steps=(16, 36), op_faults=LIGHT,
        weights=dict(op=44, q=20, commit=16, crash=1, retry=3, noop=4, move=2))


# ------------------------------------------------------------- vocabularies

WORDS = ['apple', 'Apple', 'apples', 'app', 'banana', 'ban', 'bandana',
         'éclair', 'straße', 'ab𝒳', '𝒳y', 'ab\uffdc', 'x', 'q9', 'under_score', 'Zed', 'zedd', '2024',
         'über', 'ox', 'oxen', 'ab', 'abc', 'abcd', 'kiwi', 'KIWI', 'lemon']
SPACE_WORDS = ['c++', 'c+', 'xc++', 'x[y', 'x.y.z', 'x.yaz', 'a[b', 'a[bc', 'q$r', 'q$rx', 'x.y', 'xay', 'foo\\d',
               'foo1', 'a|b', '^x', 'a{2}', 'aa', 'a+b', 'aab']
STOPS = ['the', 'of', 'is', 'a', 'The']

FIELD_VALUES = {
    'int': [-7, -1, 0, 1, 2, 3, 4, 10, 2**40],
    'str': ['', 'a', 'b', 'ba', 'c', 'é', 'Z', 'aa', 'zz'],
    'float': [-1.5, 0.0, 1.0, 2.25, 1e300, {'inf': 1}, -0.5],
    'num': [0, 1, 1.0, True, 2.5, 3, False, -2, 3.0],
    'bytes': [{'bytes': x} for x in ('', '00', '61', '6162', 'ff', 'c3a9')],
    'date': [{'day': x} for x in (1, 2, 730000, 735000, 735001, 3652059)],
    'frac': [{'frac': [1, 3]}, {'frac': [1, 2]}, 0, 1, {'frac': [7, 2]}, 0.5,
             {'frac': [-2, 1]}, -2, 4],
    'rank': [{'rank': x} for x in (-3, 0, 1, 2, 7, 50)],
    'tuple': [[], [1], [1, 'a'], [1, 'b'], [2], [0, 'z']],
}

KEYWORDS = ['red', 'green', 'blue', 'Red', 'RED', 'reds', 'x y', 'ключ',
            'Blue', 'a', 'aa', 'zeta', '#', '']
KEYWORDS_INT = [0, 1, 2, 3, 5, 8, -4]
KEYWORDS_TUPLE = [[1, 'a'], [1, 'b'], [2], [], [2, 'q']]

# long, alike but for the end (or the beginning)
LONG = ['w' * 40 + 'a', 'w' * 40 + 'b', 'l' * 130, 'l' * 131,
        'm' * 300 + 'a', 'm' * 300 + 'b', 'n' * 1100 + 'a', 'n' * 1100 + 'b',
        'a' + 'p' * 260, 'b' + 'p' * 260]


def choose(rng, weights):
    items = [(k, w) for k, w in weights.items() if w > 0]
    t = sum(w for _, w in items)
    x = rng.random() * t
    for k, w in items:
        x -= w
        if x < 0:
            return k
    return items[-1][0]


class Gen:

    def __init__(self, pid, seed):
        self.p = PROFILES[pid]
        self.seed = '%s:%s' % (pid, seed)
        self.rng = random.Random('zisim:' + self.seed)
        self.docs = {}       # ix -> docid -> payload (rough)
        self.steps = []
        self.focus = None    # a feature queries should have

    # -- configuration

    def config(self):
        rng, p = self.rng, self.p
        fam = 32 if rng.random() < 0.75 else 64
        cfg = {
            'family': fam,
            'storage': choose(rng, p['storage']),
            'nclients': rng.randint(*p['clients']),
            'aspects': sorted(p['aspects']),
            'leaf': rng.choice([None, None, 4, 5, 8, 16]),
            'internal': rng.choice([None, None, 3, 4]),
            'cache': rng.choice([400, 400, 60, 10, 2]),
            'depth': p['depth'],
            'pure': rng.random() < 0.4,
            'peer': p['pid'] == 'C10' or (rng.random() < 0.2),
            'indexes': [], 'lexicons': {}, 'universe': {},
        }
        pool = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]
        ids = rng.sample(pool, rng.randint(3, 9))
        if rng.random() < 0.4:
            extra = [-1, -5, 100, 1000, 2**31 - 1, -2**31]
            if fam == 64:
                extra += [2**40, -2**40, 2**63 - 1, -2**63]
            ids += rng.sample(extra, rng.randint(1, 3))
        self.ids = sorted(ids)
        cfg['universe']['#docs'] = list(self.ids)
        self.cfg = cfg
        # Failing reads only with trees of two levels: with more, BTrees itself
        # crashes (known finding BTREES-INNER).
        self.loads_fail = cfg['internal'] is None or 'fault' in p['aspects']
        if 'fault' in p['aspects']:
            cfg['internal'] = None
        n = rng.randint(*p['nindexes'])
        share = rng.random() < p['share_lex']
        for i in range(n):
            self.add_index(i, choose(rng, p['kinds']), share)
        return cfg

    def add_index(self, i, kind, share):
        rng, cfg = self.rng, self.cfg
        name = '%s%d' % (kind[0], i)
        ic = {'name': name, 'kind': kind, 'explicit': rng.random() < 0.7}
        self.docs[name] = {}
        u = []
        if kind == 'field':
            vt = rng.choice(['int', 'int', 'str', 'str', 'float', 'num',
                             'tuple', rng.choice(['bytes', 'date', 'frac',
                                                  'rank'])])
            vals = list(FIELD_VALUES[vt])
            rng.shuffle(vals)
            vals = vals[:rng.randint(2, len(vals))]
            if vt == 'str' and rng.random() < 0.15:
                vals += rng.sample(LONG, 4) + ['a\0', 'a\0b']
            ic['vt'] = vt
            if rng.random() < 0.35:
                vals.append(None)
            ic['values'] = vals
            u = list(vals)
            if vt in ('int', 'str') and rng.random() < self.p['wide']:
                n = rng.choice([20, 70, 150, 400, 1500])
                vals += ['v%03d' % j if vt == 'str' else 1000 + 3 * j
                         for j in range(n)]
                u += vals[len(u)::n // 7]
        elif kind in ('keyword', 'ikeyword', 'skeyword'):
            if kind == 'keyword' and rng.random() < 0.25:
                vals = list(rng.choice([KEYWORDS_INT, KEYWORDS_TUPLE]))
            else:
                vals = list(KEYWORDS)
            rng.shuffle(vals)
            vals = vals[:rng.randint(2, min(7, len(vals)))]
            if isinstance(vals[0], str) and rng.random() < 0.1:
                vals += rng.sample(LONG, 4) + ['a\0', 'a\0b']
            ic['values'] = vals
            u = list(vals)
            if isinstance(vals[0], str) and rng.random() < self.p['wide']:
                vals += ['k%d' % j for j in range(rng.choice([20, 70, 150]))]
                u += ['k0', 'k7', 'k19']
            r = rng.random()
            if r < 0.55:
                ic['threshold'] = rng.choice([1, 2, 3, 4, 6])
        elif kind == 'topic':
            ic['fids'] = ['f%d' % j for j in range(rng.choice(
                [1, 2, 2, 3, 3, 4, 4, rng.randint(5, 9)]))]
            ic['exprs'] = rng.sample(range(12), rng.randint(2, 6))
        else:
            lex = None
            if share and cfg['lexicons']:
                lex = sorted(cfg['lexicons'])[0]
            if lex is None and not share and kind == 'okapi' and \
                    cfg['family'] == 32 and rng.random() < 0.15:
                lex = 'L%d' % i
                ic['default'] = True
                pl = 'default'
            elif lex is None:
                lex = 'L%d' % i
                pl = rng.choice(['default', 'default', 'default', 'split',
                                 'splitcase', 'single', 'html', 'space'])
                if 'pipeline' in self.p['op_faults'] and rng.random() < 0.3:
                    pl = 'failing'
                cfg['lexicons'][lex] = {'pipeline': pl}
            else:
                pl = cfg['lexicons'][lex]['pipeline']
            ic['lex'] = lex
            ic['cutoff'] = rng.choice([None, 1, 2, 3, 5])
            ws = list(WORDS)
            if pl == 'space':
                ws = ws[:6] + SPACE_WORDS
            elif pl == 'single':
                ws = ws[:8] + ['þ', 'ÿ', 'ā', 'é', 'z']
            rng.shuffle(ws)
            ws = ws[:rng.randint(3, 9)]
            if rng.random() < 0.1:
                ws += rng.sample(LONG, 5)
            if share and cfg['indexes'] and rng.random() < 0.7:
                for o in cfg['indexes']:
                    if o.get('lex') == lex:
                        keep = rng.sample(o['values'], len(o['values']) // 2)
                        ws = keep + ws[:4]
            ic['values'] = ws
            ic['pl'] = pl
            u = sorted({w for w in (M.normalize_raw(pl, w) for w in ws) if w})
            if rng.random() < self.p['wide']:
                # more words than one-byte word ids
                ws += ['w%d' % j for j in range(rng.choice([40, 130, 260]))]
                u += ['w0', 'w13', 'w39']
        cfg['universe'][name] = u
        cfg['indexes'].append(ic)
        if 'sep' not in cfg:
            cfg['sep'] = rng.choice([' ', ' ', '\n', '  ', '\t'])

    # -- operations

    def docid(self, name, known=0.5):
        rng = self.rng
        if self.docs[name] and rng.random() < known:
            return rng.choice(sorted(self.docs[name]))
        return rng.choice(self.ids)

    def payload(self, ic):
        rng = self.rng
        k = ic['kind']
        if k == 'field':
            return rng.choice(ic['values'])
        if k in ('keyword', 'ikeyword', 'skeyword'):
            n = rng.choice([0, 1, 1, 2, 2, 3, 4])
            if len(ic['values']) > 19 and rng.random() < 0.5:
                n = rng.randint(5, 90)
            return [rng.choice(ic['values']) for _ in range(n)]
        if k == 'topic':
            o = {}
            if rng.random() < 0.8:
                o['x'] = rng.choice([0, 1, 2, 3, 5, 11, -1, 'q'])
            if rng.random() < 0.8:
                o['kind'] = rng.choice(['a', 'b', 'c', 'A'])
            if rng.random() < 0.7:
                o['tags'] = rng.sample(['t', 'u', 'v'], rng.randint(0, 3))
            return o
        r = rng.random()
        if r < 0.06:
            n = 0
        elif r < 0.9:
            n = rng.randint(1, 8)
        else:
            n = rng.randint(9, 30)
        if len(ic['values']) > 30 and rng.random() < 0.3:
            n = rng.randint(31, 300)
        ws = [rng.choice(ic['values']) for _ in range(n)]
        if rng.random() < 0.01:
            # one word very often
            i = rng.randint(0, len(ws))
            ws[i:i] = [rng.choice(ic['values'])] * rng.choice(
                [20, 100, 127, 128, 255, 256, 700, 5000])
        for _ in range(rng.choice([0, 0, 1, 2])):
            ws.insert(rng.randint(0, len(ws)), rng.choice(STOPS))
        if ic['pl'] == 'html':
            for _ in range(rng.randint(0, 3)):
                ws.insert(rng.randint(0, len(ws)), rng.choice(
                    ['<b>', '</p>', '&amp;', '<a href="apple">', '<br/>']))
        return ws

    def op(self, ic):
        rng = self.rng
        k, name = ic['kind'], ic['name']
        docs = self.docs[name]
        r = rng.random()
        if k == 'topic':
            if r < 0.62:
                d = self.docid(name)
                docs[d] = 1
                return ['index', d, self.payload(ic)]
            if r < 0.78:
                return ['unindex', self.docid(name, 0.8)]
            if r < 0.90:
                return ['addf', rng.choice(ic['fids']),
                        rng.choice(ic['exprs'])]
            if r < 0.94:
                return ['delf', rng.choice(ic['fids'])]
            if r < 0.985:
                return ['clearf']
            return ['clear']
        if r < 0.70:
            d = self.docid(name)
            v = self.payload(ic)
            op = ['index', d, v]
            if k == 'field' and d in docs and rng.random() < 0.12:
                op[2] = docs[d]
            docs[d] = op[2]
            if k in ('keyword', 'ikeyword', 'skeyword'):
                f = rng.choice(['list', 'list', 'tuple', 'set', 'ooset',
                                rng.choice(['frozen', 'ootree']), 'none'])
                if f == 'none' and op[2]:
                    f = 'list'
                if f not in ('list', 'tuple') and not op[2]:
                    f = rng.choice(['list', 'none', 'tuple'])
                op.append(f)
            elif k in ('okapi', 'cosine'):
                f = rng.choice(['str', 'str', 'str', 'list'])
                if not op[2] and rng.random() < 0.5:
                    f = 'none'
                op.append(f)
            return op
        if r < 0.93:
            d = self.docid(name, 0.8)
            docs.pop(d, None)
            return ['unindex', d]
        if k in ('keyword', 'ikeyword', 'skeyword'):
            if r < 0.96:
                return ['optimize']
            if r < 0.98:
                return ['threshold', rng.choice([1, 2, 3, 4, 6, 64])]
        if k in ('keyword', 'ikeyword', 'skeyword') or r < 0.975:
            docs.clear()
            return ['clear']
        d = self.docid(name, 0.9)
        docs.pop(d, None)
        return ['unindex', d]

    def fault(self, ic, op):
        """Maybe a fault for an update step: dict of extra step keys."""
        rng, f = self.rng, self.p['op_faults']
        out = {}
        r = rng.random()
        k = ic['kind']
        span = {'field': 14, 'topic': 26, 'okapi': 110, 'cosine': 110}.get(
            k, 34)
        if r < f.get('int', 0):
            out['fault'] = {'k': 'int', 'n': 1 + int(span * rng.random()
                                                    ** 1.3)}
            if rng.random() < 0.3:
                # between two byte codes instead of two lines
                out['fault']['g'] = 'op'
                out['fault']['n'] = out['fault']['n'] * 9 - rng.randint(0, 8)
        elif r < f.get('int', 0) + f.get('load', 0):
            if not self.loads_fail:
                return out
            out['fault'] = {
                'k': 'load', 'n': 1 + int(9 * rng.random() ** 1.5),
                'exc': rng.choice(['storage', 'poskey', 'readconflict',
                                   'io']), 'cold': True}
            if rng.random() < 0.6:
                out['again'] = True
        elif r < f.get('int', 0) + f.get('load', 0) + f.get('bad', 0):
            self.bad(ic, op, out)
        elif f.get('pipeline') and ic.get('pl') == 'failing' and \
                rng.random() < 0.2 and op[0] == 'index':
            out['fault'] = {'k': 'pipeline'}
        if out:
            if rng.random() < 0.4:
                out['recover'] = 'rollback'
            if rng.random() < 0.3:
                out['other'] = True
        return out

    def bad(self, ic, op, out):
        rng = self.rng
        k = ic['kind']
        if op[0] != 'index':
            return
        out['bad'] = True
        r = rng.random()
        if r < 0.3 and k != 'topic':
            op[1] = rng.choice(['doc', 2**70, 2.5 if False else 'x'])
        elif k == 'field':
            if rng.random() < 0.6:
                base = op[2] if not isinstance(op[2], dict) else 1
                op[2] = {'bomb': rng.randint(0, 4), 'base': base}
            else:
                op[2] = 5 if ic['vt'] in (
                    'str', 'tuple', 'bytes', 'date', 'rank') else 'bad'
        elif k in ('keyword', 'ikeyword', 'skeyword'):
            del op[3:]
            op += ['fail', rng.randint(0, 2)]
        elif k == 'topic':
            op[1] = 'doc'
        else:
            op[1] = rng.choice(['doc', 2**70])

    # -- queries

    def text_atom(self, ic, allow_glob=True):
        rng = self.rng
        r = rng.random()
        pl = ic['pl']
        words = [w for w in ic['values'] if M.normalize_raw(pl, w) and
                 w.lower() not in ('and', 'or', 'not')]
        if not words or rng.random() < 0.05:
            words = words + ['nowhere']
        if r < 0.55:
            return ['w', rng.choice(words)]
        if r < 0.82 or not allow_glob:
            docs = [t for t in self.docs[ic['name']].values() if t]
            toks = None
            if docs and rng.random() < 0.7:
                t = [w for w in rng.choice(docs)
                     if not w.startswith(('<', '&'))]
                if len(t) >= 2:
                    n = min(len(t), rng.choice([2, 2, 2, 3, 3, 4, 9, 30]))
                    i = rng.randint(0, len(t) - n)
                    toks = t[i:i + n]
                    if rng.random() < 0.25:
                        # nearly: one word is another, or two change places
                        j = rng.randrange(n)
                        m = rng.randrange(n)
                        toks[j], toks[m] = toks[m], (
                            toks[j] if rng.random() < 0.6 else
                            rng.choice(words))
            if not toks:
                toks = [rng.choice(words) for _ in range(rng.choice([2, 3]))]
            if not any(M.normalize_raw(pl, w) for w in toks):
                toks = [rng.choice(words)] + toks
            style = '"'
            if rng.random() < 0.3 and len(toks) > 1:
                style = '-'
            if toks[0].lower() in ('and', 'or', 'not') and len(toks) == 1:
                return ['w', rng.choice(words)]
            return ['ph', toks, style]
        w = rng.choice(words)
        cut = rng.randint(1, len(w))
        pre = w[:cut]
        r2 = rng.random()
        if r2 < 0.6:
            pat = pre + '*'
        elif r2 < 0.8:
            pat = pre + '?' + ('*' if rng.random() < 0.4 else '')
        else:
            i = rng.randint(1, max(1, len(w) - 1))
            pat = w[:rng.randint(1, i)] + rng.choice(['*', '*', '?']) + w[i:]
        if pl != 'space' and not pat[0].isalnum() and pat[0] != '_':
            return ['w', w]
        return ['glob', pat]

    def text_ast(self, ic, depth=0):
        rng = self.rng
        r = rng.random()
        if depth >= 2 or r < 0.45:
            return self.text_atom(ic)
        pl = ic['pl']
        if r < 0.78:
            good = [w for w in ic['values'] if M.normalize_raw(pl, w) and
                    w.lower() not in ('and', 'or', 'not')] or ['nowhere']
            first = self.text_ast(ic, depth + 1) if rng.random() < 0.4 \
                else ['w', rng.choice(good)]
            pos = [first]
            for _ in range(rng.choice([0, 1, 1, 2]) if rng.random() < 0.96
                           else rng.randint(3, 9)):
                pos.append(self.text_ast(ic, depth + 1)
                           if rng.random() < 0.5 else self.text_atom(ic))
            if rng.random() < 0.25:
                pos.append(['w', rng.choice(STOPS)])
            nots = []
            if rng.random() < 0.45 or len(pos) == 1:
                nots.append(self.text_atom(ic) if rng.random() < 0.7
                            else self.text_ast(ic, depth + 1))
                while rng.random() < 0.3:
                    nots.append(self.text_atom(ic))
            if rng.random() < 0.12:
                nots.append(['w', rng.choice(STOPS)])
            return ['and', pos, nots]
        alts = [self.text_ast(ic, depth + 1)
                for _ in range(rng.choice([2, 2, 3]) if rng.random() < 0.95
                               else rng.randint(4, 12))]
        if rng.random() < 0.15:
            alts.append(['w', rng.choice(STOPS)])
        return ['or', alts]

    def query(self, ic):
        rng = self.rng
        k, name = ic['kind'], ic['name']
        asp = self.p['aspects']
        if 'count' in asp and rng.random() < (
                1.0 if asp == ('count',) else 0.08):
            return ['count']
        if rng.random() < 0.06:
            return ['all', rng.choice([1, 2])]
        if k == 'field':
            if 'sort' in asp and (
                    'result' not in asp or rng.random() < 0.4) or \
                    'args' in asp and rng.random() < 0.25:
                return self.sort_query(ic)
            vals = list(ic['values']) + [None, None]
            if ic['vt'] in ('int', 'num'):
                vals += [-100, 2.5, 7]
            elif ic['vt'] == 'str':
                vals += ['ab', 'm', 'zzz']
            return ['range', rng.choice(vals), rng.choice(vals)]
        if k in ('keyword', 'ikeyword', 'skeyword'):
            if rng.random() < 0.08:
                return ['has', self.docid(name)]
            vals = list(ic['values'])
            if all(isinstance(v, str) for v in vals):
                vals += ['missing', vals[0].upper()]
            n = rng.choice([0, 1, 1, 1, 2, 2, 3, 3, rng.randint(4, 12)])
            return ['kw', [rng.choice(vals) for _ in range(n)],
                    rng.choice(['and', 'and', 'or']),
                    rng.choice(['list', 'tuple', 'str', 'dict', 'dict2',
                                'set', 'apply', 'gen', 'ooset'])]
        if k == 'topic':
            n = rng.choice([0, 1, 1, 2, 2, 3, 3, rng.randint(4, 12)])
            return ['topic', [rng.choice(ic['fids']) for _ in range(n)],
                    rng.choice(['and', 'and', 'or']),
                    rng.choice(['list', 'tuple', 'str', 'dict', 'dict2',
                                'apply'])]
        if rng.random() < 0.08 and 'result' in asp:
            return ['has', self.docid(name)]
        if rng.random() < 0.12:
            return self.raw_query(ic)
        if rng.random() < 0.06:
            return ['tree', self.text_ast(ic)]
        return ['text', self.text_ast(ic), rng.randint(0, 35)
                if rng.random() < 0.4 else rng.randint(36, 99999)]

    def raw_query(self, ic):
        """The inner index asked directly."""
        rng = self.rng
        what = rng.choice(['search', 'search', 'phrase', 'glob', 'weight'])
        if what == 'glob':
            if rng.random() < 0.25:
                w = M.normalize_raw(ic['pl'], rng.choice(
                    ic['values'] + ['nowhere', 'zzz']))
                if w:
                    return ['raw', 'glob', [w], 'str']
            for _ in range(8):
                a = self.text_atom(ic)
                if a[0] == 'glob':
                    return ['raw', 'glob', [M.glob_pattern(ic['pl'], a[1])],
                            'str']
            what = 'search'
        if what == 'phrase':
            for _ in range(8):
                a = self.text_atom(ic)
                if a[0] == 'ph':
                    return ['raw', what, list(a[1]),
                            rng.choice(['str', 'list'])]
        words = [rng.choice(ic['values'] + STOPS[:2])
                 for _ in range(rng.choice([1, 1, 2, 3]))]
        return ['raw', what, words, rng.choice(['str', 'list'])]

    def sort_query(self, ic):
        rng = self.rng
        known = sorted(self.docs[ic['name']])
        form = rng.choice(['list', 'tuple', 'pyset', 'set', 'treeset',
                           'ifbtree', 'bucket', 'dict', 'keys', 'all'])
        r = rng.random()
        if r < 0.25:
            ids = list(known)
        elif r < 0.5:
            ids = [d for d in known if rng.random() < 0.7]
        else:
            ids = [d for d in known if rng.random() < 0.8] + \
                [d for d in self.ids if rng.random() < 0.5]
        if rng.random() < 0.35:
            # many unknown ids: the lazy strategy
            ids += list(range(2000, 2000 + rng.randint(1, 40)))
        ids = list(dict.fromkeys(ids))
        if ids and rng.random() < 0.4:
            # the same id more than once
            ids += [rng.choice(ids) for _ in range(rng.randint(1, 6))]
        rng.shuffle(ids)
        limit = None
        r = rng.random()
        if r < 0.35:
            limit = rng.choice([1, 1, 2, 3])
        elif r < 0.55:
            limit = rng.randint(1, max(1, len(ids) + 1))
        elif r < 0.65:
            limit = max(1, len(ids) // 4)
        return ['sort', ids, form, rng.random() < 0.45, limit]

    # -- steps

    def bulk(self, ic, n=None):
        """A burst that crosses the built-in size thresholds."""
        rng = self.rng
        k, name = ic['kind'], ic['name']
        docs = self.docs[name]
        start = rng.choice([20, 50, 300])
        ops = []
        if n is None:
            if k == 'field':
                n = rng.choice([8, 12, 20, 66, 130])
            elif k in ('keyword', 'ikeyword', 'skeyword'):
                n = rng.choice([6, 10, 63, 64, 65, 70])
            elif k == 'topic':
                n = rng.choice([5, 9, 9, 35, 70, rng.choice([130, 260])])
            else:
                n = rng.choice([5, 9, 10, 11, 13])
        if len(ic['values'] if 'values' in ic else ()) > 20 and \
                rng.random() < 0.4:
            n = rng.choice([130, 260, 520, 1300])
        if n > 30 and self.big:
            n = 12
        if n > 30:
            self.big = True
        common = self.payload(ic)
        spent = 0
        r = rng.random()
        for i in range(n):
            d = start + i
            v = common if r < 0.5 else self.payload(ic)
            if n > 130 and r >= 0.75 and k == 'field':
                v = ic['values'][i % len(ic['values'])]
            if k in ('keyword', 'ikeyword', 'skeyword') and not v:
                v = [ic['values'][0]]
            if k in ('okapi', 'cosine') and (r < 0.5 and rng.random() < .5):
                v = list(common) + [rng.choice(ic['values'])]
            if k in ('okapi', 'cosine'):
                spent += len(v)
                if spent > 6000:
                    v = v[:3]
            docs[d] = v
            op = ['index', d, v]
            if k in ('keyword', 'ikeyword', 'skeyword'):
                op.append('list')
            elif k in ('okapi', 'cosine'):
                op.append('str')
            ops.append(op)
        if n < 20 and rng.random() < 0.4:
            back = [d for d in range(start, start + n) if rng.random() < 0.7]
            for d in back:
                docs.pop(d, None)
                ops.append(['unindex', d])
        return ops

    def emit(self, **kw):
        self.steps.append(kw)

    def prelude(self):
        """Starting population, committed."""
        rng = self.rng
        self.big = False
        for ic in self.cfg['indexes']:
            name = ic['name']
            if ic['kind'] == 'topic':
                for f in ic['fids']:
                    if rng.random() < 0.85:
                        self.emit(v='op', c=0, ix=name, op=[
                            'addf', f, rng.choice(ic['exprs'])])
            if self.p['weights']['jump'] and ic.get('lex') and \
                    rng.random() < 0.35:
                self.jump(ic)
            for _ in range(rng.choice([0, 2, 4, 6])):
                self.emit(v='op', c=0, ix=name, op=self.op_index(ic))
            if rng.random() < 0.12:
                self.emit(v='bulk', c=0, ix=name, ops=self.bulk(ic))
        self.emit(v='commit', c=0)

    def op_index(self, ic):
        for _ in range(20):
            op = self.op(ic)
            if op[0] == 'index':
                return op
        return op

    def jump(self, ic):
        rng = self.rng
        lex = ic['lex']
        if rng.random() < 0.35 and ic['pl'] not in ('space',):
            n = rng.choice([118, 122, 124, 126, 127, 128])
            self.emit(v='lexadd', c=0, lex=lex,
                      words=['fill%03d' % i for i in range(n)])
        else:
            self.emit(v='lexadd', c=0, lex=lex, words=rng.sample(
                [w for w in ic['values']], min(2, len(ic['values']))))
            self.emit(v='jump', c=0, lex=lex, n=rng.choice(
                [120, 125, 127, 250, 16250, 16380, 2**21 - 6, 2**14 + 5,
                 128 * 3, 2**21 + 3]))

    def generate(self):
        rng, p = self.rng, self.p
        if p['sim'] == 'nbest':
            return self.nbest()
        self.config()
        if p['sim'] == 'indep':
            return self.indep()
        for ic in self.cfg['indexes']:
            if ic.get('default'):
                self.cfg['lexicons'].pop(ic['lex'], None)
        self.prelude()
        if rng.random() < p['legacy']:
            self.legacy()
        if p['sim'] == 'threads':
            return self.threads()
        n = rng.randint(*p['steps'])
        w = dict(p['weights'])
        # swarm: drop some kinds of step altogether
        for k in ('abort', 'savepoint', 'minimize', 'reopen', 'restart',
                  'bulk', 'retry', 'lexadd', 'hist', 'readonly', 'drain',
                  'crash'):
            if rng.random() < 0.3 and w[k] < 20:
                w[k] = 0
        self.nc = self.cfg['nclients']
        hot = rng.choice(self.cfg['indexes'])['name']
        start = len(self.steps)
        up = -1
        if p['sim'] == 'upgrade':
            up = rng.randint(0, n * 2 // 3)
        for i in range(n):
            if i == up:
                self.upgrade()
            v = choose(rng, w)
            c = rng.randrange(self.nc)
            ic = rng.choice(self.cfg['indexes'])
            if rng.random() < 0.4:
                ic = next(x for x in self.cfg['indexes']
                          if x['name'] == hot)
            getattr(self, 's_' + v, self.s_plain)(v, c, ic)
        if rng.random() < 0.7:
            for c in range(self.nc):
                self.emit(v='commit', c=c)
        if p['sim'] in ('db', 'legacy'):
            self.handover(start)
        return {'sim': p['sim'], 'cfg': self.cfg, 'steps': self.steps}

    def s_plain(self, v, c, ic):
        self.emit(v=v, c=c)

    def s_op(self, v, c, ic):
        rng = self.rng
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            op = self.op(ic)
            s = dict(v='op', c=c, ix=ic['name'], op=op)
            s.update(self.fault(ic, op))
            if rng.random() < 0.12 and 'fault' not in s:
                s['look'] = rng.choice([1, 2])
            self.steps.append(s)

    def s_overlap(self, v, c, ic):
        """Transactions of several clients on one index, all overlapping."""
        rng = self.rng
        if self.nc < 2:
            return self.s_op(v, c, ic)
        cs = rng.sample(range(self.nc), rng.randint(2, self.nc))
        kw = ic['kind'] in ('keyword', 'ikeyword', 'skeyword')
        for x in cs:
            self.emit(v='commit', c=x)
        for x in cs:
            for _ in range(rng.choice([1, 1, 2])):
                if kw and rng.random() < 0.25:
                    # converts sets of docids the others insert into
                    self.emit(v='op', c=x, ix=ic['name'], op=[
                        'threshold', rng.choice([1, 2, 3, 4, 6, 64])])
                    op = ['optimize']
                elif rng.random() < 0.1:
                    op = ['clearf' if ic['kind'] == 'topic' else 'clear']
                else:
                    op = self.op(ic)
                self.emit(v='op', c=x, ix=ic['name'], op=op)
        rng.shuffle(cs)
        for x in cs:
            self.emit(v='commit', c=x)

    def s_noop(self, v, c, ic):
        """Updates that change nothing, mostly alone in their transaction."""
        rng = self.rng
        k, name = ic['kind'], ic['name']
        if rng.random() < 0.7:
            self.emit(v='commit', c=c)
        for _ in range(rng.choice([1, 1, 2, 3])):
            docs = self.docs[name]
            r = rng.random()
            unknown = [d for d in self.ids + [5555] if d not in docs]
            if r < 0.4 or k in ('topic', 'okapi', 'cosine') or not docs:
                op = ['unindex', rng.choice(unknown)]
            elif k == 'field':
                d = rng.choice(sorted(docs))
                v2 = docs[d]
                if isinstance(v2, (int, float)) and not isinstance(
                        v2, bool) and abs(v2) < 2**40 and rng.random() < .3:
                    v2 = float(v2)
                op = ['index', d, v2]
            elif r < 0.7:
                op = ['index', rng.choice(unknown), [],
                      rng.choice(['list', 'tuple', 'none'])]
                if k == 'skeyword' and rng.random() < 0.5:
                    op = ['index', op[1], ['#', ''], 'list']
            else:
                if rng.random() < 0.6:
                    self.emit(v='op', c=c, ix=name, op=['optimize'])
                    self.emit(v='commit', c=c)
                op = ['optimize']
            self.emit(v='op', c=c, ix=name, op=op)
        if rng.random() < 0.85:
            self.emit(v='commit', c=c)

    def s_q(self, v, c, ic):
        rng = self.rng
        for _ in range(rng.choice([1, 1, 2])):
            q = self.query(ic)
            if self.focus:
                for n in range(16):
                    if self.focus in features(q) and (
                            n > 7 or len(str(q)) < 60):
                        break
                    q = self.query(ic)
            s = dict(v='q', c=c, ix=ic['name'], q=q)
            f = self.p['q_faults'].get('load', 0)
            if f and rng.random() < f:
                s['fault'] = {
                    'k': 'load', 'n': 1 + int(7 * rng.random() ** 1.5),
                    'exc': rng.choice(['storage', 'poskey', 'readconflict',
                                       'io']), 'cold': True}
                if rng.random() < 0.5:
                    s['keep'] = True
            elif rng.random() < self.p['q_faults'].get('int', 0):
                s['fault'] = {'k': 'int', 'n': 1 + int(
                    60 * rng.random() ** 1.4)}
                if rng.random() < 0.4:
                    s['fault']['g'] = 'op'
                    s['fault']['n'] = s['fault']['n'] * 9 - rng.randint(0, 8)
                if rng.random() < 0.7:
                    s['keep'] = True
            elif 'alias' in self.p['aspects']:
                r = rng.random()
                if r < 0.5:
                    s['keep'] = True
                elif r < 0.8:
                    s['mut'] = True
                if rng.random() < 0.2:
                    s['again'] = True
            elif rng.random() < 0.2:
                s['again'] = True
            self.steps.append(s)

    def s_commit(self, v, c, ic):
        rng = self.rng
        s = dict(v='commit', c=c)
        f = self.p['commit_faults']
        r = rng.random()
        if r < f.get('store', 0):
            s['fault'] = {'k': 'store', 'n': rng.randint(1, 6)}
        elif r < f.get('store', 0) + f.get('vote', 0):
            s['fault'] = {'k': 'vote'}
        self.steps.append(s)
        if 'fault' in s and rng.random() < 0.5:
            self.emit(v='retry', c=c)

    def s_abort(self, v, c, ic):
        self.emit(v='abort', c=c, look=self.rng.choice([0, 1, 2]))

    def s_savepoint(self, v, c, ic):
        self.emit(v='savepoint', c=c,
                  optimistic=self.rng.random() < 0.5)

    def s_rollback(self, v, c, ic):
        self.emit(v='rollback', c=c, i=self.rng.choice([0, -1, -1, 1]),
                  look=self.rng.choice([0, 1, 2]))

    def s_minimize(self, v, c, ic):
        self.emit(v='minimize', c=c,
                  how=self.rng.choice(['all', 'all', 'gc']))

    def s_bulk(self, v, c, ic):
        self.emit(v='bulk', c=c, ix=ic['name'], ops=self.bulk(ic))
        if self.rng.random() < 0.12:
            # all of it gone at once
            if self.rng.random() < 0.6:
                self.emit(v='commit', c=c)
            if ic['kind'] == 'topic' and self.rng.random() < 0.8:
                op = ['clearf']
            else:
                op = ['clear']
                self.docs[ic['name']].clear()
            self.emit(v='op', c=c, ix=ic['name'], op=op)

    def s_lexadd(self, v, c, ic):
        rng = self.rng
        if not ic.get('lex') or ic.get('default'):
            return
        ws = ['n%s%d' % (rng.choice('abc'), rng.randint(0, 9))
              for _ in range(rng.randint(1, 3))]
        ws += [w for w in rng.sample(ic['values'], min(
            2, len(ic['values'])))]
        s = dict(v='lexadd', c=c, lex=ic['lex'], words=ws)
        f = self.fault(ic, ['lexadd'])
        if f.get('fault', {}).get('k') in ('int', 'load'):
            s['fault'] = f['fault']
        self.steps.append(s)

    def s_jump(self, v, c, ic):
        if ic.get('lex') and not ic.get('default') and \
                self.rng.random() < 0.5:
            self.emit(v='jump', c=c, lex=ic['lex'], n=self.rng.choice(
                [120, 127, 16380, 2**21 - 3]))

    def s_restart(self, v, c, ic):
        self.emit(v='restart', c=c, depth=self.rng.choice([1, 2]),
                  peer=self.rng.random() < 0.3)

    def s_move(self, v, c, ic):
        rng = self.rng
        if rng.random() < 0.8:
            for x in range(self.nc):
                self.emit(v='commit', c=x)
        self.emit(v='move', c=0, how=rng.choice(['pack', 'export']),
                  depth=rng.choice([0, 1, 2]))

    def s_crash(self, v, c, ic):
        rng = self.rng
        if self.cfg['storage'] != 'file':
            return
        point = rng.choice(['after', 'c', 'c', 'torn', round(
            rng.random(), 4), round(rng.random(), 4)])
        self.emit(v='commit', c=c, crash=point)

    def hist_qs(self):
        rng = self.rng
        out = []
        for _ in range(rng.randint(1, 4)):
            ic = rng.choice(self.cfg['indexes'])
            out.append([ic['name'], self.query(ic)])
        return out

    def s_hist(self, v, c, ic):
        self.emit(v='hist', c=c, k=self.rng.randint(0, 30),
                  cold=self.rng.random() < 0.5, qs=self.hist_qs())

    def s_readonly(self, v, c, ic):
        self.emit(v='readonly', c=c, newdb=self.rng.random() < 0.5,
                  qs=self.hist_qs())

    def s_look(self, v, c, ic):
        self.emit(v='look', c=c, depth=self.rng.choice([1, 2]))

    def s_leak(self, v, c, ic):
        """The same call many times over.

        No interrupts: CPython itself leaks a generator's frame when a trace
        function raises at some of its lines.
        """
        rng = self.rng
        if rng.random() < 0.8:
            self.emit(v='commit', c=c)
        s = dict(v='leak', c=c, ix=ic['name'])
        if rng.random() < 0.04:
            return self.flood(s, ic)
        if rng.random() < 0.6:
            q = self.query(ic)
            if q[0] == 'all':
                q = ['has', self.docid(ic['name'])] if ic['kind'] not in (
                    'field', 'topic') else ['count']
            if q[0] == 'count' and ic['kind'] == 'topic':
                return
            s['q'] = q
        else:
            docs = dict(self.docs[ic['name']])
            op = self.op(ic)
            if op[0] == 'delf':
                op = ['addf', op[1], rng.choice(ic['exprs'])]
            s['op'] = op
            self.docs[ic['name']] = docs
        r = rng.random()
        if r < 0.3:
            s['cold'] = True
        elif r < 0.55 and self.loads_fail:
            s['fault'] = {'k': 'load', 'n': 1 + int(7 * rng.random() ** 1.5),
                          'exc': rng.choice(['storage', 'poskey', 'io'])}
            s['cold'] = True
        elif r < 0.85 and ic['kind'] == 'okapi' and 'q' in s:
            s['fault'] = {'k': 'mem', 'n': 1 + int(14 * rng.random() ** 1.4)}
        self.steps.append(s)

    def flood(self, s, ic):
        """Calls that are all different."""
        rng = self.rng
        s['v'] = 'flood'
        s['how'] = rng.choice(['word', 'phrase', 'glob'])
        docs = dict(self.docs[ic['name']])
        for _ in range(20):
            if rng.random() < 0.35:
                op = self.op(ic)
                if op[0] == 'index' and (len(op) < 4 or op[3] != 'fail'):
                    s['op'] = op
                    break
            else:
                q = self.query(ic)
                if q[0] in ('range', 'sort', 'kw', 'text', 'raw', 'has'):
                    s['q'] = q
                    break
        self.docs[ic['name']] = docs
        if 'op' in s or 'q' in s:
            self.steps.append(s)

    def s_drain(self, v, c, ic):
        if ic['kind'] in ('okapi', 'cosine') and self.rng.random() < 0.3:
            return
        for _ in range(5):
            q = self.query(ic)
            if q[0] in ('range', 'kw', 'topic', 'text') or (
                    q[0] == 'raw' and q[1] != 'weight'):
                self.emit(v='drain', c=c, ix=ic['name'], q=q)
                return

    # -- special shapes

    def legacy(self):
        """Stored state of older versions, then ordinary work."""
        rng = self.rng
        for ic in self.cfg['indexes']:
            if ic['kind'] not in TEXT_KINDS:
                continue
            what = [w for w in ('word', 'doc', 'total')
                    if rng.random() < 0.7]
            if what:
                self.emit(v='legacy', c=0, ix=ic['name'], what=what)
            if not ic.get('default') and rng.random() < 0.6:
                self.emit(v='legacy', c=0, lex=ic['lex'])
        self.emit(v='commit', c=0)
        if rng.random() < 0.5:
            self.emit(v='look', c=0, depth=2)

    def handover(self, start):
        """In some runs another process does the first part."""
        rng = random.Random('handover:' + self.seed)
        if rng.random() >= self.p['handover']:
            return
        self.cfg['storage'] = 'file'
        steps = self.steps
        at = rng.randint(start, len(steps))
        self.steps, rest = steps[:at], steps[at:]
        self.rng = rng
        self.upgrade()
        self.steps += rest

    def upgrade(self):
        """The node is stopped and started again with the newer version."""
        rng = self.rng
        for c in range(self.nc):
            if rng.random() < 0.9:
                self.emit(v='commit', c=c)
        self.emit(v='upgrade', c=0, depth=rng.choice([0, 0, 1, 2]),
                  index=rng.random() < 0.8)

    def switches(self, n, scale):
        """Where the baton passes on: [yield points, whom to] pairs."""
        rng = self.rng
        burst = rng.random() < 0.3
        out = []
        for _ in range(n):
            s = scale
            if burst and rng.random() < 0.1:
                s = rng.choice([1, 200, 1000])
            out.append([1 + int(rng.expovariate(1.0 / s)), rng.randrange(6)])
        return out

    def threads(self):
        """C16: a program per thread, and the baton's way through them."""
        rng, cfg = self.rng, self.cfg
        cfg['prelude'] = len(self.steps)
        cfg['opcodes'] = rng.random() < 0.25
        cfg['storage'] = 'mem'
        cfg['peer'] = False
        shared = rng.random() < 0.4
        self.nc = cfg['nclients']
        n = rng.randint(2, 6)
        if shared:
            sim = 'shared'
            for st in self.steps:
                st['c'] = 0
        else:
            sim = 'threads'
        w = dict(self.p['weights'])
        hot = rng.choice(cfg['indexes'])
        same = rng.random() < 0.3     # everybody asks the same things
        near = 0.5
        if rng.random() < 0.5:
            # or everybody asks the same kind of thing
            near = 0.85
            self.focus = rng.choice(sorted(features(self.query(hot))))
        for c in range(self.nc):
            for i in range(n):
                ic = hot if rng.random() < near else \
                    rng.choice(cfg['indexes'])
                if shared:
                    self.s_q('q', c, ic)
                else:
                    v = choose(rng, w)
                    getattr(self, 's_' + v, self.s_plain)(v, c, ic)
            if same and c == 0:
                prog = [dict(st) for st in self.steps[cfg['prelude']:]]
            elif same:
                self.steps += [dict(st, c=c) for st in prog
                               if st['v'] == 'q' or not shared
                               and rng.random() < 0.4]
        scales = [1, 2, 3, 5, 12, 40, 150]
        if rng.random() < 0.45:
            # the baton passes on inside some functions only
            cfg['spots'] = [16, zlib.crc32(rng.choice(
                FUNCTIONS['text' if hot.get('lex') else hot['kind']]
            ).encode()) % 16]
            scales = [1, 1, 2, 3, 5, 9]
        return {'sim': sim, 'cfg': cfg, 'steps': self.steps,
                'switches': self.switches(rng.choice(
                    [60, 200, 400, 400, 1200]), rng.choice(scales))}

    def nbest(self):
        """C18: adding, failing sources, giving back."""
        rng = self.rng
        caps = [rng.choice([1, 1, 2, 2, 3, 4, 5, 8])
                for _ in range(rng.choice([1, 1, 2, 3]))]
        big = rng.random() < 0.12
        if big:
            caps[0] = rng.choice([9, 10, 16, 17, 32, 33, 50, 64, 65, 100,
                                  128, 129, 200, 256])
        scores = rng.choice([[0, 1, 2], [1, 2, 3, 4, 5, 6, 7, 8, 9],
                             [-1.5, 0.0, 0.25, 3.5, 1e300],
                             [0, 0.0, 1, 1.0, True], ['a', 'b', 'ab', ''],
                             [[1, 2], [1], [0, 9], [1, 2, 3]], [7]])
        if big and rng.random() < 0.6:
            scores = [rng.randint(-50, 1000) for _ in range(
                rng.choice([20, 100, 400]))]
            scores.sort()
        number = isinstance(scores[0], (int, float))
        shape = rng.choice(['any', 'any', 'up', 'down', 'steps'])
        nid = [0]
        last = [rng.randrange(len(scores))]

        def pair():
            nid[0] += 1
            item = nid[0] if rng.random() < 0.8 else \
                'i%d' % rng.randint(0, 3)
            if shape == 'up':
                last[0] = min(last[0] + rng.randint(0, 1), len(scores) - 1)
            elif shape == 'down':
                last[0] = max(last[0] - rng.randint(0, 1), 0)
            else:
                last[0] = rng.randrange(len(scores))
            if shape != 'any' and rng.random() < 0.15:
                last[0] = rng.randrange(len(scores))
            return [item, scores[last[0]]]
        steps = []
        w = {'add': 3, 'many': 4, 'bad': 2, 'tree': 2 if number else 0,
             'pop': 3}
        for k in sorted(w):
            if rng.random() < 0.2:
                w[k] = 0
        if not any(w.values()):
            w['many'] = 1
        for _ in range(rng.randint(3, 25)):
            v = choose(rng, w)
            st = {'v': v, 'j': rng.randrange(len(caps))}
            if v == 'add':
                st['item'], st['score'] = pair()
            elif v == 'many':
                n = rng.randint(0, 12)
                if big and rng.random() < 0.5:
                    st['j'] = 0
                    n = rng.randint(caps[0] // 2, 3 * caps[0] // 2)
                st['pairs'] = [pair() for _ in range(n)]
                st['form'] = rng.choice(['list', 'tuple', 'gen', 'items'])
                if rng.random() < 0.5:
                    st['fail'] = rng.randint(0, len(st['pairs']))
                    st['exc'] = rng.choice(['source', 'type', 'int', 'key'])
            elif v == 'bad':
                st['pairs'] = [pair() for _ in range(rng.randint(0, 5))]
                st['what'] = rng.choice(['none', 'short'])
            elif v == 'tree':
                st['pairs'] = [
                    [i, rng.choice([0, 1, 2, 3, 4, 5])] for i in rng.sample(
                        range(100), rng.randint(1, 30))]
                st['fail'] = rng.randint(1, 10)
            steps.append(st)
        return {'sim': 'nbest', 'cfg': {
            'capacity': caps, 'leaf': rng.choice([2, 3, 4, 5]),
            'indexes': []}, 'steps': steps}

    def indep(self):
        """C14: concurrent additions that share nothing."""
        rng, cfg = self.rng, self.cfg
        nc = max(2, cfg['nclients'])
        cfg['nclients'] = nc
        cfg['leaf'] = cfg['internal'] = None
        steps = self.steps
        part = {}
        for ic in cfg['indexes']:
            name = ic['name']
            ic.pop('threshold', None)
            if ic['kind'] == 'field':
                vals = FIELD_VALUES[ic['vt']][:]
                # equal values are one value
                if ic['vt'] in ('num', 'frac'):
                    vals = [0, 1, 2.5, 3, -2]
                rng.shuffle(vals)
                part[name] = [vals[i::nc] for i in range(nc)]
            elif ic['kind'] == 'topic':
                ic['fids'] = ['f%d' % i for i in range(nc + 1)]
                part[name] = [[i] for i in range(nc)]
            else:
                vals = ['red', 'green', 'blue', 'kiwi', 'lime', 'plum',
                        'fig', 'oak']
                rng.shuffle(vals)
                part[name] = [vals[i::nc] for i in range(nc)]
            cfg['universe'][name] = [v for p2 in part[name] for v in p2] \
                if ic['kind'] != 'topic' else []
        nid = [0]

        def fresh():
            nid[0] += 1
            return ids[nid[0] - 1]
        ids = list(range(-2, 40))
        if rng.random() < 0.4:
            ids += [2**31 - 1, -2**31, 1000]
        rng.shuffle(ids)
        big = {}

        def obj(j):
            # true for the j-th filter only
            return {'x': j}
        # populate: every value/keyword/filter has documents
        for ic in cfg['indexes']:
            name = ic['name']
            if ic['kind'] == 'topic':
                for j, f in enumerate(ic['fids']):
                    steps.append(dict(v='op', c=0, ix=name, op=[
                        'addf', f, 100 + j]))
                for j in range(nc):
                    steps.append(dict(v='op', c=0, ix=name, op=[
                        'index', fresh(), obj(j)]))
            else:
                for j in range(nc):
                    for v in part[name][j]:
                        val = v if ic['kind'] == 'field' else [v]
                        op = ['index', fresh(), val]
                        if ic['kind'] != 'field':
                            op.append('list')
                        steps.append(dict(v='op', c=0, ix=name, op=op))
        steps.append(dict(v='commit', c=0))
        left = len(ids) - nid[0]
        rounds = rng.randint(1, 3)
        for _ in range(rounds):
            who = rng.sample(range(nc), rng.randint(2, nc))
            todo = []
            for c in who:
                acts = []
                # begin the transaction before anybody commits
                acts.append(dict(v='look', c=c, depth=1))
                for _ in range(rng.randint(1, 3)):
                    ic = rng.choice(cfg['indexes'])
                    name = ic['name']
                    if left <= 0:
                        continue
                    left -= 1
                    if ic['kind'] == 'topic':
                        acts.append(dict(v='op', c=c, ix=name, op=[
                            'index', fresh(), obj(c)]))
                    elif ic['kind'] == 'field':
                        acts.append(dict(v='op', c=c, ix=name, op=[
                            'index', fresh(), rng.choice(part[name][c])]))
                    else:
                        kws = rng.sample(part[name][c], rng.randint(
                            1, min(2, len(part[name][c]))))
                        acts.append(dict(v='op', c=c, ix=name, op=[
                            'index', fresh(), kws, 'list']))
                    if rng.random() < 0.15:
                        acts.append(dict(v='savepoint', c=c))
                    if rng.random() < 0.15:
                        acts.append(dict(v='minimize', c=c))
                todo.append(acts)
            # all begin first
            for acts in todo:
                steps.append(acts.pop(0))
            while any(todo):
                acts = rng.choice([a for a in todo if a])
                steps.append(acts.pop(0))
            rng.shuffle(who)
            for c in who:
                steps.append(dict(v='commit', c=c))
            for c in range(nc):
                if c not in who and rng.random() < 0.5:
                    steps.append(dict(v='look', c=c, depth=1))
                    steps.append(dict(v='abort', c=c))
        del big
        return {'sim': 'indep', 'cfg': cfg, 'steps': steps}


# where to let threads meet (C16)
FUNCTIONS = {
    'text': '''apply parseQuery parseTerms processGlob process termToWordIds
        globToWordIds sourceToWordIds _getWordIdCreate executeQuery terms
        _parseAtom _parseTerm _parseAndExpr _parseOrExpr _check _get
        search search_glob search_phrase _search_wids _c_search_wids
        _python_search_wids _remove_oov_wids mass_weightedUnion
        mass_weightedIntersection _trivial addmany add pop_smallest
        query_weight encode decode inverse_doc_frequency index_doc
        _reindex_doc unindex_doc _mass_add_wordinfo _add_wordinfo
        _del_wordinfo _get_frequencies'''.split(),
    'field': 'apply sort nsort getKey sort nsort index_doc '
             'unindex_doc'.split(),
    'topic': 'apply search search index_doc unindex_doc getIds '
             'clear'.split()}
for _kind in ('keyword', 'ikeyword', 'skeyword'):
    FUNCTIONS[_kind] = ('apply search search normalize index_doc unindex_doc '
                        '_insert_forward optimize').split()


def features(q):
    """What kinds of thing a query makes use of."""
    out = {q[0]}
    if q[0] == 'raw':
        out.add({'phrase': 'ph'}.get(q[1], q[1]))

    def walk(node):
        if isinstance(node, (list, tuple)) and node:
            if node[0] in ('glob', 'ph', 'not', 'and', 'or'):
                out.add(node[0])
            for x in node:
                walk(x)
    if q[0] in ('text', 'tree'):
        walk(q[1])
    elif q[0] == 'sort':
        out.add('reverse' if q[3] else 'forward')
        out.add('limit' if q[4] else 'nolimit')
    elif q[0] in ('kw', 'topic'):
        out.add(q[2])
    return out


def generate(pid, seed):
    return Gen(pid, seed).generate()
