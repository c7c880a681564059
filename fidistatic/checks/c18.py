"""C18: no value is used before it has been set."""
from .. import scen, acc


def run(rep):
    rep.rule('definite initialisation: unset locations carry an undefined value through complete abstract histories of each class '
             'and program; no undefined value is branched on, used as an index, computed with or printed')
    tasks = [(t[0], one, t) for t in scen.scenes(rep.tier)]
    try:
        from . import c18x
        tasks += c18x.tasks(rep.tier)
    except ImportError:
        pass
    rep.parallel(tasks)


def one(rep, t):
    def judge(I, samples, skip):
        acc.undefs(rep, I, t[0] + ': ', samples)
    for I, samples, skip in scen.salvage(rep, t[0], lambda: t[1](*t[2:]), judge):
        n = len(rep.obs)
        judge(I, samples, skip)
        if len(rep.obs) == n:
            rep.ok(t[0] + ': no undefined value is used', '', '%d accesses' % len(I.accesses))
        rep.visited(I)
