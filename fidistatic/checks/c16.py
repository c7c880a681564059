"""C16: check sums and spread cover every cell exactly once; timings are reduced over all ranks."""
from .. import term as T
from .. import drv, upw, impl, fdrv, pdrv, filt, drive
from ..drv import count
from ..values import Item, Alt, Rep, State, Arr
from .c12 import OK, NS, samples as dsamples

IMPLS_WITH_STD = None


def run(rep):
    rep.rule('summary of checksum() / std() on an arbitrary field compared with the sum / root mean square deviation over all '
             'cells; distributed check sum compared with the sum over ranks of local sums; values printed by the programs')
    tasks = [(nm, solver, mk) for nm, mk in impl.all_impls()]
    prog = drive.program(*drive.LIB)
    for d in (1, 2, 3):
        tasks.append(('filter d=%d' % d, filtersum, prog, d))
    tasks += [(nm, printed, nm) for nm in drv.DRIVERS]
    tasks += [('fortran ' + nm, fprinted, nm) for nm in impl.FTN]
    tasks += [('python ' + nm, pprinted, nm) for nm in pdrv.PROGS]
    tasks.append(('python upwindMPI solver', pympi))
    rep.parallel(tasks)


def solver(rep, mk):
    im = mk()
    if not im.has('checksum'):
        return
    tag = im.name + ': '
    im.arbitrary()
    k = T.fresh('k', 'i', lo=0, ub=im.ntot)
    F = T.mkapp('F', (k,), 'r')
    tot = T.tsum(k, T.ZERO, im.ntot, F)
    base = impl.samples(im)

    for again in ('', ', asked again'):
        cs = im.result('checksum')
        rep.eq(tag + 'check sum of an arbitrary field' + again, cs, tot, im.where, base)
        if im.has('std'):
            mean = T.rdiv(tot, T.toreal(im.ntot))
            dv = T.sub(F, mean)
            var = T.rdiv(T.tsum(k, T.ZERO, im.ntot, T.mul(dv, dv)), T.toreal(im.ntot))
            rep.eq(tag + 'spread of an arbitrary field' + again, im.result('std'), T.mkapp('sqrt', (var,), 'r'), im.where, base)
    im.visited(rep)


def filtersum(rep, prog, d):
    tag = 'filter d=%d: ' % d
    off = [(0,) * d, tuple(1 if i == 0 else 0 for i in range(d))]
    F = filt.Filt(prog, d, [(o, T.sym('w%d' % i, 'r')) for i, o in enumerate(off)])
    F.call('setInDataByIndices', F.func('U'))
    F.call('applyFilter')
    f = F.s.fork()
    for which, again in (('input', ''), ('output', ''), ('input', ', asked again'), ('output', ', asked again')):
        nm, v = F.field(which)
        if nm is None:
            rep.unknown(tag + which, F.where, 'no member array holds the field')
            continue
        got = f.call(F.obj, filt.CLS + '::computeCheckSum', f.box(T.string(which)))
        from ..cxxlib import over_ranks
        want = over_ranks(F.s.I, T.tsum(v.ks[0], T.ZERO, v.shape[0], v.body), 'sum')
        pc = [T.eq(F.r, T.ZERO)]
        got0 = State({}, tuple(pc)).simp(got)

        def extra(rng, n, env):
            env[F.r] = 0
        rep.eq(tag + 'check sum of the %s field on the root%s' % (which, again), got0, State({}, tuple(pc)).simp(want), f.where_, F.samples(extra), pc)
    rep.visited(F.s.I)


def numbers(items):
    """printed values that are not text, with their conditions"""
    out = []
    for it, cond, loops in drv.flat(items, ('out',)):
        v = it.args[0]
        if isinstance(v, T.Term) and v.op != 'str':
            out.append((it, cond, loops))
    return out


def printed(rep, nm):
    P = drv.load(nm, {'-numDims': T.num(2)} if nm == 'laplacian' else None)
    tag = nm + ': '
    from ..cxxlib import rank_of
    mpi = nm in drv.MPI_DRIVERS
    pc = list(OK)
    if mpi:
        pc.append(T.eq(rank_of(P.s.I), T.ZERO))
    out = P.stream('std::cout', *pc)
    nums = numbers(out)
    N = T.num(10) if nm == 'laplacian' else NS
    if not mpi:
        cs = [x for x in nums if x[0].args[0].op == 'app' and x[0].args[0].args[0] == 'checksum']
        if rep.expect(tag + 'the check sum is printed', bool(cs) and not cs[-1][1], P.where, 'no check sum in the output'):
            rep.eq(tag + 'the check sum printed is that of the final field', cs[-1][0].args[0], T.mkapp('checksum', (N,), 'r'), cs[-1][0].at, dsamples)
        sd = [x for x in nums if x[0].args[0].op == 'app' and x[0].args[0].args[0] == 'std']
        for it, c, l in sd:
            rep.eq(tag + 'the spread printed is that of the final field', it.args[0], T.mkapp('std', (N,), 'r'), it.at, dsamples)
        rep.visited(P.s.I)
        return
    fin = [x for x in nums if not x[2]]
    for which in ('input', 'output') if nm == 'laplacian' else ('output',):
        cs = [x for x in fin if x[0].args[0].op in ('app', 'ite') and any(y.op == 'app' and y.args[0] == 'checksum:' + which for y in T.walk(x[0].args[0]))]
        if rep.expect(tag + 'the %s check sum is printed' % which, bool(cs) and not cs[-1][1], P.where, 'not printed'):
            rep.eq(tag + 'the %s check sum printed is that of the final field' % which, cs[-1][0].args[0],
                   T.mkapp('checksum:' + which, (N,), 'r'), cs[-1][0].at, dsamples, [T.lt(T.ZERO, NS)])
    # timings: three numbers around the label, reduced over the ranks
    ev = list(drv.flat(P.trace(*OK), ('mpi',)))
    wt = [it.args[1] for it, c, l in ev if it.args[0] == 'MPI_Wtime']
    if len(wt) < 2:
        rep.unknown(tag + 'timings', P.where, 'no clock readings')
        return
    r = rank_of(P.s.I)
    k = T.fresh('rk', 'i', lo=0, ub=P.s.I.nprocs)
    w = T.sub(wt[-1], wt[0])
    wk, w0 = T.subst(w, {r: k}), T.subst(w, {r: T.ZERO})
    want = [T.minover(k, P.s.I.nprocs, wk, w0, False), T.minover(k, P.s.I.nprocs, wk, w0, True),
            T.rdiv(T.tsum(k, T.ZERO, P.s.I.nprocs, wk), T.toreal(P.s.I.nprocs))]
    tm = [x for x in fin if any(y.op == 'app' and y.args[0] == 'wtime' for y in T.walk(x[0].args[0]))]
    if rep.expect(tag + 'three timings are printed', len(tm) == 3, P.where, len(tm)):
        for label, x, ref in zip(('minimum', 'maximum', 'average'), tm, want):
            rep.eq(tag + label + ' time over the ranks', x[0].args[0], ref, x[0].at, tsamples(P.s.I))
    rep.visited(P.s.I)


def fprinted(rep, nm):
    for nargs in (3, 2, 1):
        P = fdrv.load(nm, nargs)
        tag = 'fortran %s, %d arguments: ' % (nm, nargs)
        if not rep.expect(tag + 'the program runs to its end', P.st is not None, P.where, 'it stops'):
            continue
        nums = [x for x in numbers(P.stream('std::cout')) if any(y.op == 'app' and y.args[0] == 'field' for y in T.walk(x[0].args[0]))]
        if not rep.expect(tag + 'the check sum is printed', bool(nums) and not nums[-1][1], P.where, 'no value computed from the field is printed'):
            continue
        k = T.fresh('k', 'i', lo=0)
        N = T.mul(fdrv.NC, fdrv.NC, fdrv.NC)
        steps = fdrv.NS if nargs > 1 else T.num(100)
        want = T.tsum(k, T.ZERO, N, T.mkapp('field', (steps, k), 'r'))
        rep.eq(tag + 'the check sum printed is the sum over all cells of the final field', nums[-1][0].args[0], want, nums[-1][0].at, fsamples)
        rep.visited(P.s.I)


def pprinted(rep, nm):
    for nargs in (3, 2, 1):
        P = pdrv.load(nm, nargs)
        tag = 'python %s, %d arguments: ' % (nm, nargs)
        if not rep.expect(tag + 'the program runs to its end', P.st is not None, P.where, 'it stops'):
            continue
        from ..cxxlib import rank_of
        pc = (T.sym('decomp_valid', 'b'), T.eq(rank_of(P.s.I), T.ZERO))
        cs = [x for x in numbers(P.stream('std::cout', *pc)) if any(y.op == 'app' and y.args[0] in ('checksum', 'field') for y in T.walk(x[0].args[0]))]
        if rep.expect(tag + 'the check sum is printed', bool(cs) and not cs[-1][1], P.where, 'no check sum in the output'):
            N = pdrv.NS if nargs > 1 else T.num(100)
            rep.eq(tag + 'the check sum printed is that of the final field', cs[-1][0].args[0], T.mkapp('checksum', (N,), 'r'), cs[-1][0].at,
                   lambda rng, k: {pdrv.NC: rng.choice([1, 2, 3]), pdrv.NS: rng.choice([0, 1, 2, 7])})
        rep.visited(P.s.I)


def fsamples(rng, k):
    from .. import scen
    return scen.fsamples(rng, k)


def tsamples(I):
    def smp(rng, k):
        return {I.nprocs: rng.choice([1, 2, 3, 4, 5])}
    return smp


def pympi(rep):
    """distributed Python solver: the sum over all ranks, on the root"""
    from ..cxxlib import over_ranks
    im = impl.PyMpi()
    im.arbitrary()
    f = im.field()
    want = f.body
    for k, n in reversed(list(zip(f.ks, f.shape))):
        want = T.tsum(k, T.ZERO, n, want)
    want = over_ranks(im.s.I, want, 'sum')
    pc = (T.eq(im.rank, T.ZERO),)

    def extra(rng, n, env):
        env[im.rank] = 0
    S = State({}, pc)
    got = S.vsimp(im.result('checksum'))
    if not isinstance(got, T.Term):
        rep.bad('python upwindMPI: the root gets the check sum', im.where, repr(got)[:200])
        return
    rep.eq('python upwindMPI: check sum of an arbitrary field on the root', got, S.simp(want), im.where, im.samples(None, extra), pc)
    im.visited(rep)
