"""C12: every driver takes the requested number of steps with the Courant-limited time step."""
from .. import term as T
from .. import drv, upw, fdrv, pdrv, impl
from ..drv import count
from ..values import Vec, Arr, vlen, step_get, Unsupported
from ..ob import equal

OK = (T.sym('parse_ok', 'b'), T.lnot(T.sym('opt:-h', 'b')), T.sym('decomp_valid', 'b'))
NC, NS = T.sym('opt:-numCells', 'i', lo=0), T.sym('opt:-numSteps', 'i', lo=0)


def samples(rng, k):
    return {NC: rng.choice([1, 2, 3, 5, 8, 128]), NS: rng.choice([0, 1, 2, 3, 7, 10])}


def run(rep):
    rep.rule('event summary of main() with the solver replaced by a recording stand-in: number of steps taken, time step of '
             'every step, cell counts and lengths handed to the solver')
    tasks = [(nm, cxx, nm) for nm in upw.VARIANTS] + [('upwindMpi', mpi)]
    tasks += [('laplacian', lap)]
    tasks += [('fortran ' + nm, fortran, fdrv, 'fortran', nm) for nm in impl.FTN]
    tasks += [('python ' + nm, fortran, pdrv, 'python', nm) for nm in pdrv.PROGS]
    rep.parallel(tasks)


def courant(v, ln, n):
    dt = None
    for a, b, c in zip(v, ln, n):
        av = T.ite(T.lt(a, T.num(0, 'r')), T.neg(a), a)
        x = T.rdiv(T.mul(T.num('1/10', 'r'), T.rdiv(b, T.toreal(c))), av)
        dt = x if dt is None else T.tmin(dt, x)
    return dt


def elems(v):
    if type(v) is Vec:
        return list(v.items)
    n = vlen(v)
    if T.is_num(n):
        return [step_get(v, ('i', T.num(i))) for i in range(int(n.args[0]))]
    raise Unsupported('vector of symbolic length')


def grid(rep, tag, P, n, ln, w, d):
    rep.expect(tag + 'number of axes', len(n) == d, w, {'axes': len(n)})
    for i, x in enumerate(n):
        rep.eq(tag + 'cells along axis %d' % i, x, NC, w, samples)
    for i, x in enumerate(ln):
        rep.eq(tag + 'length of axis %d' % i, x, T.num(1, 'r'), w, samples)


def cxx(rep, nm):
    P = drv.load(nm)
    tag = nm + ': '
    w = P.where
    tr = P.trace(*OK)
    rep.eq(tag + 'solvers constructed', count(tr, 'construct'), T.ONE, w, samples)
    c = [x for x in drv.flat(tr, ('construct',))]
    if not c:
        return
    v, ln, n = [elems(x) for x in c[0][0].args]
    w = c[0][0].at
    grid(rep, tag, P, n, ln, w, 3)
    dt = courant(v, ln, n)
    adv = list(drv.flat(tr, ('advect',)))
    rep.expect(tag + 'the solver is advanced', bool(adv), P.where, 'no call of advect')
    for it, cond, loops in adv:
        rep.eq(tag + 'time step', it.args[1], dt, it.at, samples, cond)
    rep.eq(tag + 'number of steps', count(tr, 'advect', lambda it: it.args[0]), NS, adv[0][0].at if adv else w, samples)
    rep.visited(P.s.I)


def fortran(rep, mod, lang, nm):
    """Fortran and Python programs"""
    FC, FS = fdrv.NC, fdrv.NS
    smp = lambda rng, k: {FC: rng.choice([1, 2, 3, 5, 8, 128]), FS: rng.choice([0, 1, 2, 3, 7, 10])}
    for nargs in (3, 2, 1):
        P = mod.load(nm, nargs)
        tag = '%s %s, %d arguments: ' % (lang, nm, nargs)
        if not rep.expect(tag + 'the program runs to its end', P.st is not None, P.where, 'it stops'):
            continue
        tr = P.trace(T.sym('decomp_valid', 'b'))
        rep.eq(tag + 'solvers constructed', count(tr, 'construct'), T.ONE, P.where, smp)
        c = list(drv.flat(tr, ('construct',)))
        if not c:
            continue
        v, ln, n = [elems(x) for x in c[0][0].args[:3]]
        w = c[0][0].at
        rep.expect(tag + 'number of axes', len(n) == 3, w, {'axes': len(n)})
        for i, x in enumerate(n):
            rep.eq(tag + 'cells along axis %d' % i, x, FC, w, smp)
        for i, x in enumerate(ln):
            rep.eq(tag + 'length of axis %d' % i, x, T.num(1, 'r'), w, smp)
        dt = courant(v, ln, n)
        adv = list(drv.flat(tr, ('advect',)))
        rep.expect(tag + 'the solver is advanced', bool(adv), P.where, 'no call of advect')
        for it, cond, loops in adv:
            rep.eq(tag + 'time step', it.args[1], dt, it.at, smp, cond)
        rep.eq(tag + 'number of steps', count(tr, 'advect', lambda it: it.args[0]), FS if nargs > 1 else T.num(100), adv[0][0].at if adv else w, smp)
        rep.visited(P.s.I)


def mpi(rep):
    P = drv.load('upwindMpi')
    tag = 'upwindMpi: '
    tr = P.trace(*OK)
    rep.eq(tag + 'filters constructed', count(tr, 'construct'), T.ONE, P.where, samples)
    c = [x for x in drv.flat(tr, ('construct',))]
    if not c:
        return
    n, lo, hi = [elems(x) for x in c[0][0].args[:3]]
    grid(rep, tag, P, n, [T.sub(b, a) for a, b in zip(lo, hi)], c[0][0].at, 3)
    seq(rep, tag, P, tr, NS)
    # the time step shows in the upwind weights: dt * |v| / dx = 1/10 for equal axes and unit velocity
    st = c[0][0].args[3]
    if hasattr(st, 'keys') and st.keys:
        for k, x in zip(st.keys, st.vals):
            if any(k):
                rep.eq(tag + 'Courant number of the weight of offset %s' % (tuple(int(y) for y in k),), x, T.num('1/10', 'r'), c[0][0].at, samples)
    rep.visited(P.s.I)


def seq(rep, tag, P, tr, N):
    """apply / copy alternate N times"""
    rep.eq(tag + 'number of applications', count(tr, 'apply'), N, P.where, samples)
    rep.eq(tag + 'number of copy-backs', count(tr, 'copy'), N, P.where, samples)
    k = 0
    for it, cond, loops in drv.flat(tr, ('apply', 'copy')):
        if loops:
            want = T.add(loops[-1][0], T.ONE)
        else:
            if it.kind == 'apply':
                k += 1
            want = T.num(k)
        pre = list(cond) + [T.lt(a, b) for a, b in loops]
        rep.eq(tag + '%s acts on the current step (%s)' % (it.kind, T.show(want)), it.args[0], want, it.at, samples, pre)


def lap(rep):
    for d in (1, 2, 3):
        P = drv.load('laplacian', {'-numDims': T.num(d)})
        tag = 'laplacian d=%d: ' % d
        tr = P.trace(*OK)
        rep.eq(tag + 'filters constructed', count(tr, 'construct'), T.ONE, P.where, samples)
        c = [x for x in drv.flat(tr, ('construct',))]
        if not c:
            continue
        n, lo, hi = [elems(x) for x in c[0][0].args[:3]]
        grid(rep, tag, P, n, [T.sub(b, a) for a, b in zip(lo, hi)], c[0][0].at, d)
        rep.eq(tag + 'number of applications', count(tr, 'apply'), T.num(10), P.where, samples)
        seq(rep, tag, P, tr, T.num(10))
    rep.visited(P.s.I)
