"""Minimises a failing plan, keeping the kind of violation."""
import copy
import time


def same(result, kind):
    return result.get('kind') == kind and result['status'] != 'ok'


def with_steps(plan, keep):
    """The plan with only the steps of the given original positions."""
    p = dict(plan)
    p['steps'] = [plan['steps'][k] for k in keep]
    if 'prelude' in plan['cfg']:
        p['cfg'] = dict(plan['cfg'])
        p['cfg']['prelude'] = sum(1 for k in keep
                                  if k < plan['cfg']['prelude'])
    return p


class Shrinker:

    def __init__(self, pool, flavour, kind, seconds):
        self.pool = pool
        self.flavour = flavour
        self.kind = kind
        self.end = time.monotonic() + seconds
        self.tried = 0

    def first(self, plans):
        """Index of the first plan that still fails, or None."""
        width = self.pool.slots * 2
        for a in range(0, len(plans), width):
            if time.monotonic() > self.end:
                return None
            part = plans[a:a + width]
            self.tried += len(part)
            res = self.pool.many(self.flavour, [{'plan': p} for p in part])
            for n, r in enumerate(res):
                if same(r, self.kind):
                    return a + n
        return None

    def reduce_list(self, items, build):
        """ddmin over items; build(list) gives a plan."""
        n = 2
        while len(items) >= 1 and time.monotonic() < self.end:
            size = max(1, len(items) // n)
            cands = []
            for a in range(0, len(items), size):
                cands.append(items[:a] + items[a + size:])
            # later steps first: what follows the failure goes at once
            cands.reverse()
            i = self.first([build(c) for c in cands])
            if i is not None:
                items = cands[i]
                n = max(2, n - 1)
            elif size == 1:
                break
            else:
                n = min(len(items), n * 2)
        return items

    def run(self, plan, at=None):
        plan = copy.deepcopy(plan)
        keep = list(range(len(plan['steps'])))
        if at is not None and 0 <= at < len(keep) and \
                'switches' not in plan:
            cut = keep[:at + 1]
            if self.first([with_steps(plan, cut)]) is not None:
                keep = cut
        keep = self.reduce_list(keep, lambda ks: with_steps(plan, ks))
        plan = with_steps(plan, keep)
        if 'switches' in plan:
            def sw(items):
                return dict(plan, switches=items)
            plan = sw(self.reduce_list(plan['switches'], sw))
        # bulk steps: fewer operations
        for pos, s in enumerate(plan['steps']):
            if s['v'] == 'bulk' and len(s['ops']) > 1:
                def bulk(ops, pos=pos, s=s):
                    st = list(plan['steps'])
                    st[pos] = dict(s, ops=ops)
                    return dict(plan, steps=st)
                plan = bulk(self.reduce_list(s['ops'], bulk))
            elif s['v'] == 'many' and len(s.get('pairs', ())) > 1:
                def many(pairs, pos=pos, s=s):
                    st = list(plan['steps'])
                    st[pos] = dict(s, pairs=pairs)
                    return dict(plan, steps=st)
                plan = many(self.reduce_list(s['pairs'], many))
        # words of documents
        for pos in range(len(plan['steps'])):
            s = plan['steps'][pos]
            if s['v'] == 'op' and s['op'][0] == 'index' and isinstance(
                    s['op'][2], list) and len(s['op'][2]) > 1:
                def words(ws, pos=pos, s=s):
                    st = list(plan['steps'])
                    st[pos] = dict(s, op=s['op'][:2] + [ws] + s['op'][3:])
                    return dict(plan, steps=st)
                plan = words(self.reduce_list(s['op'][2], words))
        # indexes nothing refers to any more
        used = {s['ix'] for s in plan['steps'] if 'ix' in s}
        ixs = [ic for ic in plan['cfg'].get('indexes', [])
               if ic['name'] in used]
        if ixs and len(ixs) < len(plan['cfg']['indexes']):
            lexs = {ic.get('lex') for ic in ixs} | {
                s.get('lex') for s in plan['steps']}
            cand = dict(plan, cfg=dict(
                plan['cfg'], indexes=ixs, lexicons={
                    k: v for k, v in plan['cfg']['lexicons'].items()
                    if k in lexs}))
            if self.first([cand]) is not None:
                plan = cand
        # drop extras of steps
        for extra in ('look', 'again', 'other', 'keep', 'mut', 'recover',
                      'peer'):
            if any(extra in s for s in plan['steps']):
                cand = dict(plan, steps=[
                    {k: v for k, v in s.items() if k != extra}
                    for s in plan['steps']])
                if self.first([cand]) is not None:
                    plan = cand
        for key, val in (('nclients', 1), ('leaf', None), ('internal', None),
                         ('cache', 400), ('peer', False), ('storage', 'mem'),
                         ('spots', None), ('opcodes', False)):
            if plan['cfg'].get(key, val) != val:
                cand = dict(plan, cfg=dict(plan['cfg'], **{key: val}))
                if self.first([cand]) is not None:
                    plan = cand
        return plan
