"""Simulated storages: the seam through which faults and yields enter.

Transaction ids come from a simulated clock, loads and stores pass through
hooks owned by the simulator, nothing else differs from the shipped storages.
"""
import ZODB.ConflictResolution
import ZODB.FileStorage
import ZODB.MappingStorage
import ZODB.POSException
import ZODB.utils
from ZODB.POSException import ConflictError


class Hooks:
    """Per-world hook points; the engine replaces the callables."""

    def __init__(self):
        self.clock = 0
        self.on_load = None       # callable(oid) -> None, may raise
        self.on_store = None      # callable(oid) -> None, may raise
        self.on_vote = None       # callable() -> None, may raise
        self.on_finish = None
        self.loads = 0
        self.seen = None          # list collecting the oids read
        self.stores = 0
        self.resolved = 0
        self.commits = 0

    def next_tid(self):
        self.clock += 1
        return ZODB.utils.p64(0x0330000000000000 + self.clock * 0x100)


class _HookMixin:

    hooks = None

    def loadBefore(self, oid, tid):
        h = self.hooks
        h.loads += 1
        if h.seen is not None:
            h.seen.append(oid)
        if h.on_load is not None:
            h.on_load(oid)
        return super().loadBefore(oid, tid)

    def tpc_begin(self, transaction, tid=None, *args):
        if tid is None:
            tid = self.hooks.next_tid()
        return super().tpc_begin(transaction, tid, *args)

    def tpc_vote(self, transaction):
        h = self.hooks
        if h.on_vote is not None:
            h.on_vote()
        return super().tpc_vote(transaction)

    def tpc_finish(self, transaction, f=lambda tid: None):
        self.hooks.commits += 1
        return super().tpc_finish(transaction, f)


class SimStorage(_HookMixin,
                 ZODB.ConflictResolution.ConflictResolvingStorage,
                 ZODB.MappingStorage.MappingStorage):
    """In-memory MVCC storage with conflict resolution."""

    def __init__(self, hooks):
        self.hooks = hooks
        self.read_only = False
        ZODB.MappingStorage.MappingStorage.__init__(self, 'sim')
        self._resolved = []

    def isReadOnly(self):
        return self.read_only

    def tpc_begin(self, transaction, tid=None, *args):
        if self.read_only:
            raise ZODB.POSException.ReadOnlyError()
        r = super().tpc_begin(transaction, tid)
        self._resolved = []
        return r

    def tpc_vote(self, transaction):
        super().tpc_vote(transaction)
        return self._resolved

    def store(self, oid, serial, data, version, transaction):
        h = self.hooks
        h.stores += 1
        if h.on_store is not None:
            h.on_store(oid)
        with self._lock:
            if transaction is not self._transaction:
                raise ZODB.POSException.StorageTransactionError(
                    self, transaction)
            tid_data = self._data.get(oid)
            if tid_data:
                committed = tid_data.maxKey()
                if serial != committed:
                    data = self.tryToResolveConflict(
                        oid, committed, serial, data)
                    h.resolved += 1
                    self._resolved.append(oid)
            self._tdata[oid] = data


class SimFileStorage(_HookMixin, ZODB.FileStorage.FileStorage):

    def __init__(self, path, hooks, **kw):
        self.hooks = hooks
        ZODB.FileStorage.FileStorage.__init__(self, path, **kw)

    def store(self, oid, oldserial, data, version, transaction):
        h = self.hooks
        h.stores += 1
        if h.on_store is not None:
            h.on_store(oid)
        return super().store(oid, oldserial, data, version, transaction)

    def tryToResolveConflict(self, *args, **kw):
        r = super().tryToResolveConflict(*args, **kw)
        self.hooks.resolved += 1
        return r

    def tpc_finish(self, transaction, f=None):
        self.hooks.commits += 1
        if self.hooks.on_finish is not None:
            self.hooks.on_finish()
        return ZODB.FileStorage.FileStorage.tpc_finish(self, transaction, f)


__all__ = ['Hooks', 'SimStorage', 'SimFileStorage', 'ConflictError']


# Known finding BTREES-INLINE: a tree node with one bucket that has no oid yet
# is saved with that bucket inside it; if in the same commit another bucket,
# saved later, refers to it as its successor, the bucket gets an oid and a
# record of its own, and later changes to it go to that record, which no tree
# refers to.  Giving those buckets their oids before anything is saved is what
# happens anyway in the other order, and keeps the tree whole.

def _new_buckets(b):
    out = []
    while b is not None and b._p_oid is None:
        out.append(b)
        b = b._next
    return out


def _name_successors(conn, ob):
    if hasattr(ob, '_firstbucket'):
        new = _new_buckets(ob._firstbucket)
        if len(new) == 1 and new[0]._next is None:
            return
    elif hasattr(ob, '_next') and hasattr(ob, '_p_resolveConflict'):
        new = _new_buckets(ob._next)
    else:
        return
    for b in new:
        conn.add(b)


def keep_trees_whole():
    import ZODB.Connection
    import ZODB.serialize
    _commit = ZODB.Connection.Connection._commit
    _serialize = ZODB.serialize.ObjectWriter.serialize

    def commit(self, transaction):
        for ob in list(self._registered_objects if not self.before else ()):
            _name_successors(self, ob)
        return _commit(self, transaction)

    def serialize(self, obj):
        if self._jar is not None and hasattr(obj, '_firstbucket'):
            _name_successors(self._jar, obj)
        return _serialize(self, obj)

    ZODB.Connection.Connection._commit = commit
    ZODB.serialize.ObjectWriter.serialize = serialize
