"""C19: array accesses stay inside their arrays; allocations are released once."""
from .. import scen, acc
from .. import term as T


def run(rep):
    rep.rule('interval and remainder reasoning on every subscript recorded along complete abstract histories of each class and '
             'program: 0 <= index < extent on the path of the access; typestate of every allocation')
    tasks = [(t[0], one, t) for t in scen.scenes(rep.tier)]
    try:
        from . import c19x
        tasks += c19x.tasks(rep.tier)
    except ImportError:
        pass
    rep.parallel(tasks)


def one(rep, t):
    def judge(I, samples, skip):
        acc.bounds(rep, I, I.accesses, samples, t[0] + ': ', (), skip)
        lifetimes(rep, t[0] + ': ', I, samples)
        if hasattr(I, 'handlers') and 'main' not in t[0]:
            acc.raises(rep, I, 0, samples, t[0] + ': ')
    for I, samples, skip in scen.salvage(rep, t[0], lambda: t[1](*t[2:]), judge):
        judge(I, samples, skip)
        rep.visited(I)


def lifetimes(rep, tag, I, samples):
    """allocation status (Fortran): allocate what is not allocated, deallocate and use what is, conformable shapes, nothing left behind"""
    if not hasattr(I, 'allocs'):
        return
    seen = set()
    for what, name, cond, pc, ctx, where in I.allocs:
        if (what, name, where) in seen:
            continue
        seen.add((what, name, where))
        dom = tuple(pc) + tuple(T.lt(cx['k'], cx['n']) for cx in ctx if cx['n'] is not T.INFK)
        rep.holds('%s%s of %s' % (tag, what, name), T.lnot(cond), where, samples, dom, key='%s:%s' % (where.split(' ')[0], name))
    for a, b, pc, where in I.conform:
        if (a, b, where) in seen:
            continue
        seen.add((a, b, where))
        if len(a) != len(b):
            rep.bad(tag + 'array operands have the same rank', where, {'ranks': [len(a), len(b)]})
            continue
        for q, (x, y) in enumerate(zip(a, b)):
            if x is not y:
                rep.eq('%sarray operands have the same extent (dimension %d)' % (tag, q + 1), x, y, where, samples, tuple(pc or ()))
    for nm, w in getattr(I, 'leaked', ()):
        rep.bad('%smemory of %s is released' % (tag, nm), w, 'still allocated after the last use')
    if not seen and not getattr(I, 'leaked', ()):
        rep.ok(tag + 'allocation status and conformance', '', 'no allocation of an allocated, use of an unallocated object')
