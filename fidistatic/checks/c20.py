"""C20: distributed output assembles every rank's block at its global position."""
from fractions import Fraction
from .. import term as T
from .. import drive, filt, vtk, impl, drv, acc
from ..values import Arr, Ptr, State, Unsupported
from ..cxx import TRACE
from .c15 import judge
from .c06 import put


def run(rep):
    rep.rule('abstract file of a distributed save on the root, with the gathered blocks resolved by rank substitution, rendered at '
             'valuations and compared with the owner of every global cell; gather arguments and writer condition')
    prog = drive.program(*drive.LIB)
    rep.parallel([('d=%d' % d, one, prog, d) for d in (3, 2, 1)] + [('python upwindMPI', python), ('python upwindMPI main', pymain)])


def one(rep, prog, d):
    tag = 'd=%d: ' % d
    F = filt.Filt(prog, d, [((0,) * d, T.sym('w0', 'r'))])
    F.call('setInDataByIndices', F.func('U'))
    fin, vin = F.field('input')
    if vin.body.op != 'app' or vin.body.args[0] != 'U':
        raise Unsupported('layout of the field not recognised')
    args = vin.body.args[1]
    F.call('applyFilter')
    # arbitrary values, a function of the global cell
    nmo, vo = F.field('output')
    put(F, nmo, Arr(vo.shape, vin.ks, T.mkapp('cell', args, 'r')))
    F.call('saveVTK', F.s.box(T.string('out.vtk')))
    where = F.s.where_
    st = F.s.st
    ss = vtk.streams(st)
    if not rep.expect(tag + 'one file is written', len(ss) == 1, where, {'files': len(ss)}):
        return
    items = ss[0][1].items
    # only the root writes
    smp0 = F.samples()

    def smp1(rng, n):
        env = smp0(rng, n)
        p = 1
        for x in F.D:
            p *= env[x]
        if p < 2:
            env[F.D[0]] *= 2
            p *= 2
        env[F.r] = rng.randrange(1, p)
        return env
    opens = list(drv.flat(st.store[TRACE].items, ('file',)))
    rep.expect(tag + 'the file is opened', len(opens) >= 1, where, {'places': [it.at for it, c, l in opens]})
    for it, conds, loops in opens:
        c = T.lnot(T.land(*conds)) if conds else T.FALSE
        rep.holds(tag + 'only the root opens the file', State({}, (T.lt(T.ZERO, F.r),)).simp(c), it.at, smp1, (T.lt(T.ZERO, F.r),))
    # the gather
    g = [(it, c, l) for it, c, l in drv.flat(st.store[TRACE].items, ('mpi',)) if it.args[0] == 'MPI_Gather']
    size = T.ONE
    for x in F.L:
        size = T.mul(size, x)
    for it, c, l in g:
        _, send, n, t1, recv, m, t2, root, comm = it.args
        rep.eq(tag + 'number of elements contributed', n, size, it.at, smp0)
        rep.eq(tag + 'number of elements received per rank', m, size, it.at, smp0)
        rep.eq(tag + 'blocks are equal on all ranks', T.subst(n, {F.r: T.fresh('rank', 'i', lo=0, ub=F.P)}), n, it.at, smp0)
        rep.expect(tag + 'element types', t1 == t2 == 'ompi_mpi_double', it.at, (t1, t2))
        rep.eq(tag + 'gathered by the root', root, T.ZERO, it.at, smp0)
    small = [1, 1, 2, 2, 3]

    def valuation(n):
        rng = rep.rng
        while True:
            D = [rng.choice(small) for _ in range(d)]
            L = [rng.choice(small) for _ in range(d)]
            p, q = 1, 1
            for a, b in zip(D, L):
                p *= a
                q *= b
            if p * q <= 150 and (n < 4 or p > 1):
                break
        env = dict(zip(F.D, D))
        env.update(zip(F.L, L))
        env[F.r] = 0
        G = [a * b for a, b in zip(D, L)]
        lo = [Fraction(rng.randrange(-3, 4)) for _ in range(d)]
        hi = [x + 1 + rng.randrange(3) for x in lo]
        env.update(zip(F.xmins, lo))
        env.update(zip(F.xmaxs, hi))

        def cell(*g):
            k = 0
            for x, m in zip(reversed(g), reversed(G)):
                k = k * 1000 + int(x)
            return impl.arbitrary(k)

        def data(k):
            g = []
            for m in G:
                g.append(k % m)
                k //= m
            return cell(*g)
        coords = [[lo[q] + (hi[q] - lo[q]) * Fraction(i, G[q]) for i in range(G[q] + 1)] for q in range(d)]
        return env, {'cell': cell}, (G + [1] * (3 - d), coords + [None] * (3 - d), data)
    judge(rep, tag, where, items, valuation, 12 if rep.tier == 'quick' else 60)
    rep.visited(F.s.I)


def python(rep):
    """gatherRoot of the distributed Python solver"""
    im = impl.PyMpi()
    im.arbitrary()
    got = im.result('gatherRoot')
    tag = 'python upwindMPI: '
    pc = (T.eq(im.rank, T.ZERO),)
    S = State(im.s.st.store, im.s.st.pc + pc)
    v = S.vsimp(got)
    if not rep.expect(tag + 'the root gets the field', type(v) is Ptr, im.where, repr(v)[:200]):
        return
    x = im.s.I.content(v, S)
    if type(x) is not Arr or len(x.ks) != 3:
        raise Unsupported('the gathered field is %s' % type(x).__name__)
    g = [T.fresh('g%d' % q, 'i', lo=0, ub=n) for q, n in enumerate(im.n)]

    def extra(rng, n, env):
        env[im.rank] = 0
        for y, a, b in zip(g, im.D, im.L):
            m = env[a] * env[b]
            env[y] = rng.choice([0, m - 1, rng.randrange(m)])
    smp = im.samples(None, extra)
    for q in range(3):
        rep.eq(tag + 'cells along axis %d' % q, x.shape[q], im.n[q], im.where, smp, pc)
    flat = T.add(*[T.mul(a, b) for a, b in zip(impl.strides(im.n), g)])
    val = S.simp(T.subst(x.body, dict(zip(x.ks, g))))
    rep.eq(tag + 'every global cell has the value of the rank that owns it', val, T.mkapp('F', (flat,), 'r'), im.where, smp, pc,
           60 if rep.tier == 'quick' else 400)
    acc.clean(rep, im.s.I, (0, 0), smp, tag)
    im.visited(rep)


def pymain(rep):
    """the file of the distributed Python program: written by the root only, from the gathered final field, with the nodes of the unit cube"""
    from .. import pdrv
    from ..cxxlib import RANK, SIZE
    tag = 'python upwindMPI main: '
    P = pdrv.load('upwindMPI', 3)
    V, OK = T.eq(pdrv.A3, T.string('vtk')), T.sym('decomp_valid', 'b')

    def smp(rng, n):
        p = rng.choice([1, 2, 4])
        return {pdrv.NC: rng.choice([1, 2, 4]), pdrv.NS: rng.choice([0, 1, 3]), SIZE: p, RANK: rng.randrange(p)}
    saves = list(drv.flat(P.trace(V, OK), ('save',)))
    if not rep.expect(tag + 'a file is written', len(saves) == 1, P.where, {'calls': len(saves)}):
        return
    it, conds, loops = saves[0]
    c = T.land(*conds) if conds else T.TRUE
    rep.eq(tag + 'exactly the root writes it', c, T.eq(RANK, T.ZERO), it.at, smp)
    rep.eq(tag + 'it holds the final field', it.args[1], pdrv.NS, it.at, smp)
    for q, x in enumerate(it.args[2:5]):
        if type(x) is Arr and len(x.ks) == 1:
            rep.eq(tag + 'number of nodes along axis %d' % q, x.shape[0], T.add(pdrv.NC, T.ONE), it.at, smp)
            rep.eq(tag + 'nodes along axis %d' % q, x.body, T.rdiv(T.toreal(x.ks[0]), T.toreal(pdrv.NC)), it.at,
                   lambda rng, n, k=x.ks[0]: dict(smp(rng, n), **{}) | {k: rng.randrange(3)})
        else:
            rep.unknown(tag + 'nodes along axis %d' % q, it.at, type(x).__name__)
    rep.visited(P.s.I)
