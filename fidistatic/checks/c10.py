"""C10: one time step is the first-order upwind update of the old field, in every implementation."""
from .. import term as T
from .. import impl, acc
from ..values import Unsupported
from ..ob import equal


def run(rep):
    rep.rule('summary of the field after N steps (time loop solved as a recurrence over the whole field) compared with N '
             'reference upwind steps, from the constructed field and from an arbitrary field; every solver class and dimension')
    ims = impl.all_impls()
    rep.parallel([(nm, one, mk) for nm, mk in ims] + [(nm + ' after another', second, mk) for nm, mk in ims] + [('upwindMpi', mpi), ('python upwindMPI', pympi)])


def one(rep, mk):
    im = mk()
    tag = im.name + ': '
    dt = T.sym('dt', 'r', lo=0)
    N = T.sym('N', 'i', lo=0)
    j = T.fresh('cell', 'i', lo=0, ub=im.ntot)
    smp = impl.samples(im, j, N, dt)
    tries = 60 if rep.tier == 'quick' else 400
    # from the constructed field, any number of steps
    a = im.fork()
    whole = rep.guard(tag + 'N steps', a.steps, N, dt)
    if whole:
        good = rep.guard(tag + 'N steps', lambda: rep.eq(tag + 'field after N steps', a.cell(j), impl.ref_app('RefDelta', N, j, im, dt), a.where, smp, (), tries, prove=False))
    else:
        good = True
    if not whole:
        b = im.fork()
        for k in (1, 2, 3):
            b.steps(1, dt)
            good = rep.eq(tag + 'field after %d steps' % k, b.cell(j), impl.ref_app('RefDelta', T.num(k), j, im, dt), b.where, smp, (), tries, prove=False) and good
    a.visited(rep)
    I = im.s.I if hasattr(im, 's') else im.U.s.I
    if hasattr(I, 'handlers'):
        acc.clean(rep, I, (0, 0), smp, tag)
    # from an arbitrary field
    c = im.fork()
    c.arbitrary()
    c.steps(1, dt)
    got = c.cell(j)
    F = lambda x: T.mkapp('F', (x,), 'r')
    want = impl.spec_step(F, j, im.n, im.v, im.len, dt)
    name = tag + 'one step from an arbitrary field'
    if equal(got, want):
        rep.ok(name, c.where)
        return
    r = rep.refute([(got, impl.ref_app('RefArb', T.ONE, j, im, dt))], smp, (), tries * 2)
    if r[0] == 'agree':
        rep.add(name, 'agreed', c.where, {'valuations': r[1]})
    elif r[0] == 'bad' and not good:
        rep.bad(name, c.where, {'witness': r[1]})
    else:
        # the solver may keep an invariant between its arrays that an arbitrary field does not satisfy
        rep.unknown(name, c.where, str(r[1])[:300])


def second(rep, mk):
    """a solver that is not the first of the program"""
    im = mk(second=True)
    dt = T.sym('dt', 'r', lo=0)
    j = T.fresh('cell', 'i', lo=0, ub=im.ntot)
    smp = impl.samples(im, j, None, dt)
    for k in (1, 2):
        im.steps(1, dt)
        rep.eq('%s: field after %d steps, another solver having been used before' % (im.name, k), im.cell(j),
               impl.ref_app('RefDelta', T.num(k), j, im, dt), im.where, smp, (), 30 if rep.tier == 'quick' else 200, prove=False)
    im.visited(rep)


def mpi(rep):
    """the message-passing variant assembles the equivalent stencil (unit velocity, equal axes, a tenth of a cell per step)"""
    from .. import drv
    from .c26 import stencil
    P = drv.load('upwindMpi')
    want = {(0, 0, 0): T.num('7/10', 'r')}
    for i in range(3):
        want[tuple(-1 if q == i else 0 for q in range(3))] = T.num('1/10', 'r')
    stencil(rep, 'upwindMpi: ', P, want)
    rep.visited(P.s.I)


def pympi(rep):
    """the distributed Python solver: the local field is the part of the global one that belongs to the rank, before and after a step"""
    im = impl.PyMpi()
    dt = T.sym('dt', 'r', lo=0)
    smp = im.samples(dt)
    tries = 40 if rep.tier == 'quick' else 300
    want = impl.ref_app('RefArb', T.ONE, im.globally(im.i), im, dt)
    im.arbitrary()
    for k in ('first', 'second'):
        im.steps(1, dt)
        rep.eq('python upwindMPI: %s step from an arbitrary field' % k, im.cell(im.i), want, im.where, smp, (), tries, prove=False)
        im.arbitrary()
    acc.clean(rep, im.s.I, (0, 0), smp, 'python upwindMPI: ')
    im.visited(rep)
