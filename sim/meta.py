"""Per-property budgets and the words of the evidence files."""

RUNS = {
    # property: executions per tier
}
_QUICK = dict(C01=15000, C02=15000, C03=15000, C04=15000, C05=12000, C06=12000,
              C07=12000, C08=14000, C09=14000, C10=7000, C11=14000, C12=10000,
              C13=14000, C14=12000, C15=14000, C16=6000, C17=12000, C18=40000,
              C19=12000, C20=12000, C21=5000, C22=8000)
for _p, _n in _QUICK.items():
    RUNS[_p] = {'quick': _n, 'thorough': _n * 20}

_RULES = {
    'default': 'and it committed at least one change and answers were '
               'compared with the model after it',
    'C11': 'and at least one storage read failed inside a call',
    'C09': 'and at least one fault, abort, savepoint rollback or conflict '
           'undid work',
    'C10': 'and the database was restarted or cut off by a crash',
    'C08': 'and at least one commit met a concurrent one (merged or '
           'conflicted)',
    'C14': 'and at least one commit was merged with a concurrent one',
    'C16': 'and the baton passed between threads at least ten times inside '
           'the package',
    'C18': 'and at least three steps ran',
    'C22': 'and the database went from the older version to the tree under '
           'test',
    'C21': 'and at least one call was repeated while memory was measured',
}


def nontrivial(pid, st):
    if pid == 'C18':
        return st.get('steps', 0) >= 3
    if pid == 'C16':
        return st.get('switches', 0) >= 10
    if pid == 'C21':
        return st.get('leak-rounds', 0) > 0
    if not st.get('commits'):
        return False
    if pid == 'C11':
        return st.get('fault:load', 0) > 0
    if pid == 'C09':
        return any(st.get(k) for k in (
            'aborts', 'rollbacks', 'conflicts', 'fault:int', 'fault:load',
            'fault:value', 'fault:store', 'fault:vote', 'fault:pipeline'))
    if pid == 'C10':
        return bool(st.get('restarts') or st.get('fault:crash') or
                    st.get('handovers'))
    if pid == 'C08':
        return bool(st.get('merged') or st.get('conflicts'))
    if pid == 'C14':
        return bool(st.get('merged'))
    if pid == 'C22':
        return bool(st.get('upgrades') and st.get('finals'))
    return bool(st.get('queries') or st.get('finals'))


def rule(pid):
    return ('A case is one simulated execution: configuration, programs, '
            'schedule and faults drawn from one seed.  It is non-trivial if '
            'it ran to the end %s; distinct are those whose recorded history '
            '(every action with its outcome) differs.' % _RULES.get(
                pid, _RULES['default']))


REAL = [
    'zope.index (all modules, from the current working tree; okascore.c '
    'compiled from it)', 'BTrees 6 (C)', 'persistent (C)', 'transaction',
    'ZODB DB, Connection, cache, MVCC adapter, conflict resolution, '
    'savepoints', 'ZODB FileStorage (real files) or MappingStorage']
STUBS = [
    'clients: programs of calls chosen by the scheduler',
    'transaction timestamps: simulated clock',
    'storage faults: hooks in subclasses of the storages',
    'asynchronous exceptions: raised at a chosen source line by a trace '
    'function', 'crash: the database file is cut at a chosen byte',
    'thread scheduling (C16): a baton passed at chosen lines, byte codes and '
    'storage reads']
ASSUMPTIONS = [
    'ZODB, BTrees, persistent and transaction behave as the installed '
    'versions do; their node sizes and caches are varied through their own '
    'tuning knobs',
    'sampling: properties are decided for the executions run, not proved',
    'failing reads are injected only where trees have at most two levels and '
    'not inside the set operations of BTrees (known findings BTREES-INNER '
    'and BTREES-SETOPS)']
