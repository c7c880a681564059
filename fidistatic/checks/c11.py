"""C11: derived grid quantities and initial field after construction, in every implementation."""
from .. import term as T
from .. import impl, acc


def run(rep):
    rep.rule('summary of the constructed object compared with the specified grid quantities and the unit impulse')
    rep.parallel([(nm, one, mk) for nm, mk in impl.all_impls()] + [('upwindMpi', mpi), ('python upwindMPI', pympi)])


def one(rep, mk):
    im = mk()
    tag = im.name + ': '
    d = im.d
    j = T.fresh('cell', 'i', lo=0, ub=im.ntot)
    base = impl.samples(im, j)

    def smp(rng, k):
        env, fs = base(rng, k)
        for x in im.v:
            env[x] = env[x] or 1
        return env, fs
    w = im.where
    S = impl.strides(im.n)
    spec = {'deltas': [T.mul(l, T.rdiv(T.num(1, "r"), T.toreal(n))) for l, n in zip(im.len, im.n)],
            'upDirection': [T.ite(T.lt(v, T.num(0, 'r')), T.ONE, T.num(-1)) for v in im.v],
            'dimProd': S, 'numCells': im.n, 'v': im.v, 'lengths': im.len}
    for nm, ref in spec.items():
        for i in range(d):
            got = im.member(nm, i)
            if got is not None:
                rep.eq(tag + '%s[%d]' % (nm, i), got, ref[i], w, smp)
    got = im.member('ntot')
    if got is not None:
        rep.eq(tag + 'ntot', got, im.ntot, w, smp)
    rep.eq(tag + 'number of cells of the field', im.extent(), im.ntot, w, smp)
    rep.eq(tag + 'initial field', im.cell(j), T.ite(T.eq(j, T.ZERO), T.num(1, 'r'), T.num(0, 'r')), w, smp)
    if hasattr(im, 's') and hasattr(im.s.I, 'handlers'):
        acc.clean(rep, im.s.I, (0, 0), smp, tag)
    im.visited(rep)


def mpi(rep):
    """the message-passing variant: one in the lowest-corner cell, zero elsewhere"""
    from .. import drv
    from .c12 import OK
    from ..values import Vec
    P = drv.load('upwindMpi')
    ini = list(drv.flat(P.trace(*OK), ('init',)))
    if not rep.expect('upwindMpi: the field is initialised once', len(ini) == 1 and not ini[0][1] and not ini[0][2], P.where, {'calls': len(ini)}):
        return
    it = ini[0][0]
    s = P.s.fork()
    if it.args[0] == 'setInDataByIndices':
        x = [T.sym('i%d' % i, 'i', lo=0) for i in range(3)]
        want = T.ite(T.land(*[T.eq(y, T.ZERO) for y in x]), T.num(1, 'r'), T.num(0, 'r'))

        def smp(rng, n):
            return {y: rng.choice([0, 0, 1, 2, 5]) for y in x}
        v = s.I.val(s.I.callv(it.args[1], [s.box(Vec(x))], s.st), s.st)
        rep.eq('upwindMpi: initial field', v, want, it.at, smp)
    else:
        rep.unknown('upwindMpi: initial field', it.at, 'set by position')
    order = [y[0].kind for y in drv.flat(P.trace(*OK), ('init', 'apply'))]
    rep.expect('upwindMpi: the field is set before the first step', order[:1] == ['init'], it.at, order)
    rep.visited(P.s.I)


def pympi(rep):
    """the distributed Python solver: grid quantities on every rank, one in the lowest cell of the global grid"""
    im = impl.PyMpi()
    smp = im.samples()
    tag = 'python upwindMPI: '
    spec = {'deltas': [T.mul(l, T.rdiv(T.num(1, "r"), T.toreal(n))) for l, n in zip(im.len, im.n)],
            'upDirection': [T.ite(T.lt(v, T.num(0, 'r')), T.ONE, T.num(-1)) for v in im.v],
            'numCells': im.n, 'v': im.v, 'lengths': im.len, 'nsLocal': im.L,
            'iBeg': [T.mul(im.coord(im.rank, q), im.L[q]) for q in range(3)]}
    for nm, ref in spec.items():
        for i in range(3):
            got = im.member(nm, i)
            if got is not None:
                rep.eq(tag + '%s[%d]' % (nm, i), got, ref[i], im.where, smp)
    f = im.field()
    for i in range(3):
        rep.eq(tag + 'local cells along axis %d' % i, f.shape[i], im.L[i], im.where, smp)
    j = im.globally(im.i)
    rep.eq(tag + 'initial field', im.cell(im.i), T.ite(T.eq(j, T.ZERO), T.num(1, 'r'), T.num(0, 'r')), im.where, smp)
    acc.clean(rep, im.s.I, (0, 0), smp, tag)
    im.visited(rep)
