"""Which executor runs a plan."""
from sim import engine
from sim import leak
from sim import nbest
from sim import threads

CLASSES = {'threads': threads.ThreadRun, 'shared': threads.SharedRun,
           'nbest': nbest.NBestRun, 'leak': leak.LeakRun}


def make(plan, scratch, peer=None):
    return CLASSES.get(plan['sim'], engine.Run)(plan, scratch, peer)
