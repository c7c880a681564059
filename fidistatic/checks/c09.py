"""C09: parallel loops are free of data races on every configuration."""
from .. import scen, race


def run(rep):
    rep.rule('dependence analysis of every parallel, work-sharing, offloaded and concurrent construct: no two iterations or threads '
             'access one location with a write unless a barrier orders them; barriers give the phases of a region')
    tasks = [(t[0], one, t) for t in scen.scenes(rep.tier) if 'Iter' not in t[0] and 'Decomp' not in t[0] and 'wide' not in t[0]
             and 'shift' not in t[0]]
    try:
        from . import c09x
        tasks += c09x.tasks(rep.tier)
    except ImportError:
        pass
    rep.parallel(tasks)


def one(rep, t):
    for I, samples, skip in t[1](*t[2:]):
        if not race.check(rep, I, samples, t[0] + ': '):
            rep.ok(t[0] + ': executed by one thread', '', 'no parallel construct on any path')
        rep.visited(I)
