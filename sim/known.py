"""Reproduces the known findings of known-findings.txt, one by one.

Each works on the real code and is run in a process of its own; a finding that
no longer fails is not reported.
"""
import os
import signal
import sys

from sim import env


def in_child(fn, so):
    """'yes' if fn() returns true, 'no', or 'signal N'."""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 2
        try:
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_CPU, (60, 65))
            null = os.open(os.devnull, os.O_RDWR)
            os.dup2(null, 1)
            os.dup2(null, 2)
            env.load_package(so, not so)
            code = 0 if fn() else 1
        except BaseException:
            code = 2
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        return 'signal %d' % os.WTERMSIG(status)
    return {0: 'yes', 1: 'no'}.get(os.WEXITSTATUS(status), 'error')


def stored_field_index(docs, leaf=None, internal=None):
    import transaction
    import ZODB

    from sim import engine
    from sim.storage import Hooks
    from sim.storage import SimStorage
    from zope.index.field import FieldIndex
    engine.tune_btrees(leaf, internal)
    hooks = Hooks()
    db = ZODB.DB(SimStorage(hooks))
    tm = transaction.TransactionManager()
    conn = db.open(tm)
    ix = conn.root()['f'] = FieldIndex()
    for d, v in docs:
        ix.index_doc(d, v)
    tm.commit()
    conn.cacheMinimize()
    return hooks, conn, ix


def failing_read(hooks, n, fn):
    """fn() with the n-th read failing: (result or None, failed)."""
    from ZODB.POSException import StorageError
    k = [0]

    def on_load(oid):
        k[0] += 1
        if k[0] == n:
            raise StorageError('simulated read failure')
    hooks.on_load = on_load
    try:
        return fn(), k[0] >= n
    except StorageError:
        return None, True
    finally:
        hooks.on_load = None


def setops():
    """A range search missing documents although a record was unreadable."""
    docs = [(d, d % 2) for d in range(1000)]
    hooks, conn, ix = stored_field_index(docs)
    full = len(ix.apply((None, None)))
    for n in range(1, 30):
        conn.cacheMinimize()
        res, failed = failing_read(
            hooks, n, lambda: ix.apply((None, None)))
        if failed and res is not None and len(res) != full:
            return True
    return False


def inner():
    """The process dies reading past an unreadable inner node."""
    docs = [(d, d) for d in range(400)]
    hooks, conn, ix = stored_field_index(docs, leaf=4, internal=3)
    for n in range(1, 40):
        conn.cacheMinimize()
        failing_read(hooks, n, lambda: list(ix.apply((5, 390))))
        conn.cacheMinimize()
        failing_read(hooks, n, lambda: list(ix.apply((None, None))))
    return False


def inline():
    """A committed word is found on one connection and lost to all others."""
    import transaction
    import ZODB

    from sim.storage import Hooks
    from sim.storage import SimStorage
    from zope.index.text import lexicon
    from zope.index.text.cosineindex import CosineIndex
    db = ZODB.DB(SimStorage(Hooks()))
    tm = transaction.TransactionManager()
    conn = db.open(tm)
    ix = CosineIndex(lexicon.Lexicon(lexicon.Splitter()))
    conn.root()['t'] = ix
    type(ix._wordinfo).max_leaf_size = 8
    tm.commit()
    ix.index_doc(10, 'w1 w2 w3 w4 w5')
    ix.index_doc(4, 'w6 w7 w8')
    ix.index_doc(7, 'w9 w2')
    ix.unindex_doc(4)
    ix.unindex_doc(10)
    tm.commit()
    ix.index_doc(7, 'w6 w10 w7 w3 w9 w4 w11 w1 w5')
    ix.index_doc(7, 'w11')
    tm.commit()
    ix.index_doc(7, 'w11 w5')
    tm.commit()
    here = list(ix.search('w5'))
    other = db.open(transaction.TransactionManager())
    there = list(other.root()['t'].search('w5'))
    return here == [7] and there == []


FINDINGS = {
    'C10': [
        ('BTREES-INLINE', inline, 'yes',
         'BTrees loses later changes of a tree with one bucket that was '
         'saved inside the tree while the removed bucket before it still '
         'referred to it: a word added to a CosineIndex and committed is '
         'gone for other connections and after a restart (trees of at most '
         '8 keys per bucket)'),
    ],
    'C11': [
        ('BTREES-SETOPS', setops, 'yes',
         "BTrees' C set operations drop a failing read of a further bucket "
         'of a large set of docids: FieldIndex.apply((None, None)) on 1000 '
         'documents of 2 values returns an incomplete result without an '
         'error'),
        ('BTREES-INNER', inner, 'signal %d' % signal.SIGSEGV,
         'BTrees dies with SIGSEGV when an inner node of a tree of three or '
         'more levels cannot be read while a range is set up: '
         'FieldIndex.apply on 400 values with tree nodes of 3 children'),
    ],
}


def reproduce(pid, so):
    out = []
    for fid, fn, want, text in FINDINGS.get(pid, ()):
        if in_child(fn, so) == want:
            out.append('%s: %s' % (fid, text))
    return out
