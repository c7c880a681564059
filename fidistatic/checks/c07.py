"""C07: collective calls match on every rank."""
from fractions import Fraction
from .. import term as T
from .. import drive, filt, drv
from ..values import Ptr
from ..cxx import TRACE
from ..cxxlib import rank_of
from .c05 import stencils

COLL = {'MPI_Init', 'MPI_Init_thread', 'MPI_Finalize', 'MPI_Barrier', 'MPI_Win_create', 'MPI_Win_free', 'MPI_Win_fence', 'MPI_Reduce',
        'MPI_Allreduce', 'MPI_Gather', 'MPI_Bcast'}
METHODS = ('construct', 'destroy', 'apply', 'checksum', 'save')   # methods of the distributed filter that make collective calls
NAMES = {'MPI_Reduce': ('datatype', 'operation', 'count', 'root', 'communicator'),
         'MPI_Allreduce': ('datatype', 'operation', 'count', 'root', 'communicator'),
         'MPI_Gather': (None, 'count', 'datatype', None, 'receive count', 'receive datatype', 'root', 'communicator'),
         'MPI_Bcast': (None, 'count', 'datatype', 'root', 'communicator'),
         'MPI_Win_fence': (None, 'assertion'), 'MPI_Win_create': (None, None, None, None, 'communicator'), 'MPI_Barrier': ('communicator',)}


def run(rep):
    rep.rule('no condition or repetition count that controls a collective call, and none of its matching arguments, may differ between '
             'two ranks (two-rank substitution in the event summary)')
    prog = drive.program(*drive.LIB)
    tasks = []
    for d in (1, 2, 3):
        for nm, offs in stencils(d, rep.tier):
            if nm in ('star', 'wide', 'upwind'):
                tasks.append(('filter d=%d %s' % (d, nm), library, prog, d, nm, offs))
    for nm in drv.MPI_DRIVERS:
        tasks.append((nm, driver, nm))
    tasks += [('python solver', pysolver), ('python program', pyprogram)]
    rep.parallel(tasks)


def rankdep(rep, name, t, rank, nprocs, where, pc=(), samples=None):
    """the term has the same value on all ranks"""
    if not isinstance(t, T.Term):
        rep.ok(name, where)
        return True
    dep = [x for x in T.syms_of(t) if x is rank] or [x for x in T.walk(t) if x.op == 'app' and x.args[0] in ('wtime', 'nonroot')] \
        or [x for x in T.walk(t) if x.op == 'undef']
    if not dep:
        rep.ok(name, where)
        return True
    r2 = T.fresh('rank', 'i', lo=0, ub=nprocs)
    u = T.subst(t, dict([(rank, r2)] + [(x, T.undef('%s on the other rank' % (x.args[0],), x.sort)) for x in dep if x.op == 'undef']))
    return rep.eq(name, t, u, where, None if samples is None else (lambda rng, n: two(rng, n, samples, rank, r2, nprocs)), [], None)


def two(rng, n, samples, rank, r2, nprocs):
    env = samples(rng, n)
    env = dict(env[0] if isinstance(env, tuple) else env)
    p = int(T.Valuation(dict(env), 1).ev(nprocs))
    env[rank], env[r2] = rng.randrange(p), rng.randrange(p)
    if n % 3 == 0:
        return env
    # data of one rank may vanish while those of the other do not
    one = env[rank if n % 3 == 1 else r2]
    # (and the result of a reduction need not be what it is on the root)
    return env, dict([('W%d' % k, lambda r, *i: Fraction(r != one)) for k in (1, 2, 3)], nonroot=lambda r: Fraction(0))


def uniform(rep, tag, items, rank, nprocs, samples, where):
    seen = set()
    num = 0
    for it, conds, loops in drv.flat(items):
        if it.kind == 'mpi':
            nm = it.args[0]
            if nm not in COLL:
                continue
        elif it.kind in METHODS:
            nm = it.kind
        else:
            continue
        num += 1
        key = (nm, it.at, conds, loops, it.args)
        if key in seen:
            continue
        seen.add(key)
        t = '%s%s at %s' % (tag, nm, it.at.split(' ')[0].split('/')[-1])
        for c in conds:
            rankdep(rep, t + ': reached on all ranks or none', c, rank, nprocs, it.at, (), samples)
        if not conds:
            rep.ok(t + ': reached on all ranks or none', it.at)
        for k, n in loops:
            rankdep(rep, t + ': repeated equally often on all ranks', n, rank, nprocs, it.at, (), samples)
        if it.kind == 'mpi':
            for a, b in zip(NAMES.get(nm, ()), it.args[1:]):
                if a == 'communicator':
                    rep.expect(t + ': communicator', 'comm_world' in str(b), it.at, str(b))
                elif a:
                    rankdep(rep, t + ': same %s' % a, b, rank, nprocs, it.at, (), samples)
    for it, conds, loops in drv.flat(items, ('exit',)):
        for c in conds:
            rankdep(rep, tag + 'exit reached on all ranks or none', c, rank, nprocs, it.at, (), samples)
    return num


def library(rep, prog, d, nm, offs):
    tag = 'filter d=%d %s: ' % (d, nm)
    w = [T.sym('w%d' % i, 'r') for i in range(len(offs))]
    ok = T.sym('decomp_valid', 'b')
    reach = [max([abs(o[i]) for o in offs] + [1]) for i in range(d)]

    def samples(F):
        def extra(rng, n, env):
            for l, h in zip(F.L, reach):
                env[l] = max(env[l], h)
        return F.samples(extra)
    # construction and destruction, whether or not a decomposition exists
    F = filt.Filt(prog, d, list(zip(offs, w)), ok)
    for p, g in F.builds:
        rankdep(rep, tag + 'number of processes to decompose for', p, F.r, F.P, F.where, (), samples(F))
        for i in range(d):
            rankdep(rep, tag + 'grid to decompose', drive.item(g, i), F.r, F.P, F.where, (), samples(F))
    n = uniform(rep, tag + 'construction: ', F.s.st.store[TRACE].items, F.r, F.P, samples(F), F.where)
    if nm == 'star':
        F = filt.Filt(prog, d, list(zip(offs, w)), T.FALSE)
        F.s.destroy(F.obj, filt.CLS)
        uniform(rep, tag + 'without decomposition: ', F.s.st.store[TRACE].items, F.r, F.P, samples(F), F.where)
    # use
    F = filt.Filt(prog, d, list(zip(offs, w)))
    F.call('setInDataByIndices', F.func('U'))
    F.call('applyFilter')
    F.forget('output', 'W1')
    F.call('copyOutToIn')
    F.forget('input', 'W2')
    F.call('applyFilter')
    F.forget('output', 'W3')
    for which in ('input', 'output'):
        F.call('computeCheckSum', F.s.box(T.string(which)))
    F.s.I.stubs['writeVTK'] = lambda I, st, this, args, n: None
    rep.guard(tag + 'saveVTK', lambda: F.call('saveVTK', F.s.box(T.string('out.vtk'))))
    F.s.destroy(F.obj, filt.CLS)
    n += uniform(rep, tag, F.s.st.store[TRACE].items, F.r, F.P, samples(F), F.where)
    rep.expect(tag + 'collective calls are made', n > 0, F.where, 'none found')
    rep.visited(F.s.I)


def driver(rep, nm):
    P = drv.load(nm, {'-numDims': T.num(2)} if nm == 'laplacian' else None)
    I = P.s.I
    rank = rank_of(I)

    def samples(rng, n):
        p = rng.choice([2, 3, 4, 8])
        return {I.nprocs: p, rank: rng.randrange(p), T.sym('parse_ok', 'b'): True, T.sym('opt:-h', 'b'): False,
                T.sym('decomp_valid', 'b'): True, T.sym('opt:-vtk', 'b'): bool(n % 2),
                T.sym('opt:-numSteps', 'i', lo=0): 3, T.sym('opt:-numCells', 'i', lo=0): 8}
    n = 0
    for st in P.ends:
        n += uniform(rep, nm + ': ', P.trace(st=st), rank, I.nprocs, samples, P.where)
    rep.expect(nm + ': collective calls are made', n > 0, P.where, 'none found')
    rep.visited(I)


PYCOLL = ('construct', 'advect', 'checksum', 'gather', 'destroy')   # methods of the distributed Python solver that make collective calls
PYNAMES = {'MPI_Gather': ('root',), 'MPI_Reduce': ('operation', 'root'), 'MPI_Allreduce': ('operation',), 'MPI_Bcast': ('root',), 'getData': (None, 'side')}


def pyuniform(rep, tag, items, rank, nprocs, samples):
    num = 0
    for it, conds, loops in drv.flat(items):
        if it.kind == 'mpi':
            nm = it.args[0]
        elif it.kind in PYCOLL:
            nm = it.kind
        else:
            continue
        num += 1
        t = '%s%s at %s' % (tag, nm, it.at.split(' ')[0].split('/')[-1])
        for c in conds:
            rankdep(rep, t + ': reached on all ranks or none', c, rank, nprocs, it.at, (), samples)
        if not conds:
            rep.ok(t + ': reached on all ranks or none', it.at)
        for k, n in loops:
            rankdep(rep, t + ': repeated equally often on all ranks', n, rank, nprocs, it.at, (), samples)
        if it.kind == 'mpi':
            for a, b in zip(PYNAMES.get(nm, ()), it.args[1:]):
                for x in (b if isinstance(b, tuple) else (b,)) if a else ():
                    rankdep(rep, t + ': same %s' % a, x, rank, nprocs, it.at, (), samples)
    return num


def pysolver(rep):
    """the distributed Python solver: construction, steps, check sum, gathering, destruction"""
    from .. import impl
    im = impl.PyMpi()
    smp = im.samples()
    I = im.s.I
    I.exitstates = []
    im.arbitrary()
    for k in (1, 2):
        im.steps(1, T.sym('dt', 'r', lo=0))
        im.arbitrary()
    for m in ('checksum', 'gatherRoot'):
        im.result(m)
    im.destroy()
    n = pyuniform(rep, 'python upwindMPI: ', im.s.st.store[TRACE].items, im.rank, im.size, smp)
    rep.expect('python upwindMPI: collective calls are made', n > 0, im.where, 'none found')
    for st in I.exitstates:
        for c in st.pc:
            rankdep(rep, 'python upwindMPI: ends on all ranks or none', c, im.rank, im.size, im.where, (), smp)
    rep.visited(I)


def pyprogram(rep):
    from .. import pdrv
    from ..cxxlib import RANK, SIZE

    def samples(rng, n):
        p = rng.choice([2, 3, 4, 8])
        return {SIZE: p, RANK: rng.randrange(p), T.sym('decomp_valid', 'b'): bool(n % 3), pdrv.NC: 8, pdrv.NS: 3,
                pdrv.A3: rng.choice(['vtk', 'x'])}
    num = 0
    for nargs in (3, 2, 1, 0):
        P = pdrv.load('upwindMPI', nargs)
        tag = 'python upwindMPI main, %d arguments: ' % nargs
        for st in P.ends:
            num += pyuniform(rep, tag, P.trace(st=st), RANK, SIZE, samples)
            for c in st.pc:
                rankdep(rep, tag + 'ends on all ranks or none', c, RANK, SIZE, P.where, (), samples)
        rep.visited(P.s.I)
    rep.expect('python upwindMPI main: collective calls are made', num > 0, P.where, 'none found')
