"""Complete abstract histories of every class and program: construct / use / save / destroy."""
import itertools
from . import term as T
from . import cxx, drive, filt, decomp, drv, upw, impl
from .drive import Session
from .values import Vec, Unsupported, vlen


class Scene:
    """what one history leaves behind: accesses and undefined uses of its interpreters"""

    def __init__(self, name, group, samples=None, skip=None):
        self.name, self.group, self.samples, self.skip = name, group, samples, skip
        self.parts = []


# ---------------------------------------------------------------- library
SAMPLES = [None]


def salvage(rep, name, tasks, judge):
    """run one history; when it meets an unsupported construct, what was recorded before it is still judged: only violations count"""
    del cxx.LIVE[:]
    SAMPLES[0] = None
    try:
        return list(tasks())
    except Unsupported:
        n = len(rep.obs)
        for I in list(cxx.LIVE) if SAMPLES[0] else ():
            try:
                judge(I, SAMPLES[0], None)
            except Unsupported:
                pass
        rep.obs[n:] = [o for o in rep.obs[n:] if o['status'] == 'violated']
        raise


def iterator(d):
    from .checks.c01 import CLS
    prog = drive.program(*drive.LIB)
    out = []
    for row in (True, False):
        lo = [T.sym('lo%d' % i, 'i', lo=0) for i in range(d)]
        L = [T.sym('L%d' % i, 'i', lo=1) for i in range(d)]
        k = T.fresh('k', 'i', lo=0, ub=T.mul(T.ONE, *L))

        def samples(rng, n, lo=lo, L=L, k=k):
            env, p = {}, 1
            for a, b in zip(lo, L):
                env[a] = rng.choice([0, 0, 1, 2, 3, 17])
                env[b] = rng.choice([1, 1, 2, 3, 4, 5, 7])
                p *= env[b]
            env[k] = rng.choice([0, p - 1, rng.randrange(p)])
            return env
        s = Session(prog)
        hi = [T.add(a, b) for a, b in zip(lo, L)]
        # a default constructed iterator can be asked, reset and rebuilt
        it = s.new(CLS)
        for m in ('getNumberOfTerms', 'getIndices', 'begin', 'getLBegIndices', 'getEndIndices'):
            if prog.byq.get(CLS + '::' + m):
                s.call(it, CLS + '::' + m)
        s.call(it, CLS + '::build', s.box(Vec(lo)), s.box(Vec(hi)), T.boolean(row))
        use(s, it, prog, k)
        it = s.new(CLS, s.box(Vec(lo)), s.box(Vec(hi)), T.boolean(row))
        use(s, it, prog, k)
        out.append((s.I, samples, None))
    return out


def use(s, it, prog, k):
    C = 'MultiArrayIter::'
    s.call(it, C + 'begin')
    s.call(it, C + 'getIndices')
    s.call(it, C + 'next')
    s.call(it, C + 'move', k)
    v = s.call(it, C + 'getIndices')
    for ety in ('u64', 'i32'):
        try:
            s.call(it, C + 'computeBigIndex', s.box(v), ptys=['vector<%s>' % ety])
        except Exception as e:
            if not isinstance(e, (Unsupported,)) and type(e).__name__ != 'AnalysisBroken':
                raise
    s.call(it, C + 'getNumberOfTerms')


def cube(d):
    prog = drive.program(*drive.LIB)
    S = decomp.Searched(prog, d)

    def smp0(rng, n):
        env = {S.P: rng.choice([1, 2, 3, 4, 6, 8, 12])}
        for g in S.G:
            env[g] = rng.choice([1, 2, 3, 4, 6, 8, 9])
        return env
    I0 = S.s.I
    acc0, und0 = list(I0.accesses), list(I0.undefs)
    s, D, L, P = decomp.valid(S)
    r = T.fresh('r', 'i', lo=0, ub=P)
    e = [T.fresh('e%d' % i, 'i', lo=-1, hi=1) for i in range(d)]

    def extra(rng, n, env):
        p = 1
        for x in D:
            p *= env[x]
        env[r] = rng.choice([0, p - 1, rng.randrange(p)])
        for x in e:
            env.setdefault(x, rng.choice([-1, 0, 1]))
    smp = decomp.samples_DL(D, L, extra)
    SAMPLES[0] = smp
    I0.accesses, I0.undefs = [], []
    C = decomp.CLS + '::'
    for m, a in (('getBegIndices', (r,)), ('getEndIndices', (r,)), ('getNeighborRank', (r, s.box(Vec(e)))), ('getDecomp', ()),
                 ('getNumberOfProcs', ()), ('getNumDims', ())):
        if prog.byq.get(C + m):
            try:
                s.call(S.obj, C + m, *a)
            except Unsupported:
                pass
    for dirs in itertools.product((-1, 0, 1), repeat=d):
        f = s.fork()
        f.call(S.obj, C + 'getNeighborRank', r, f.box(Vec([T.num(x) for x in dirs])))
    a1, u1 = I0.accesses, I0.undefs
    return [(Logs(I0, acc0, und0), smp0, None), (Logs(I0, a1, u1), smp, None)]


class Logs:
    """a slice of the log of an interpreter"""

    def __init__(self, I, accesses, undefs):
        self.I, self.accesses, self.undefs = I, accesses, undefs
        self.visited, self.assumed = I.visited, I.assumed


def filter_(d, nm, offs):
    prog = drive.program(*drive.LIB)
    w = [T.sym('w%d' % i, 'r') for i in range(len(offs))]
    F = filt.Filt(prog, d, list(zip(offs, w)))
    reach = [max([abs(o[i]) for o in offs] + [1]) for i in range(d)]

    def extra(rng, n, env):
        for l, h in zip(F.L, reach):
            env[l] = max(env[l], h)
    smp = F.samples(extra)
    SAMPLES[0] = smp
    F.call('setInDataByIndices', F.func('U'))
    F.call('setInData', F.func('V'))
    F.forget('input', 'A')
    F.call('applyFilter')
    F.forget('output', 'B')
    F.call('copyOutToIn')
    F.forget('input', 'C')
    F.call('applyFilter')
    for wh in ('input', 'output'):
        f = F.s.fork()
        f.call(F.obj, filt.CLS + '::computeCheckSum', f.box(T.string(wh)))
    f = F.s.fork()
    f.call(F.obj, filt.CLS + '::saveVTK', f.box(T.string('out.vtk')))
    for m in ('getRank', 'getNumProcs', 'isDecompValid', 'getDecomp', 'print', 'printInData', 'printOutData'):
        fs = [f for f in prog.byq.get(filt.CLS + '::' + m, []) if not f['params']]
        if fs:
            try:
                F.s.fork().call(F.obj, filt.CLS + '::' + m)
            except Unsupported:
                pass
    F.s.destroy(F.obj, filt.CLS)
    return [(F.s.I, smp, None)]


def solver(nm, make):
    im = make()
    n = T.fresh('numsteps', 'i', lo=0)
    dt = T.sym('dt', 'r')

    def smp(rng, k):
        env, fs = impl.samples(im, None, n, dt, 3)(rng, k)
        fs = dict(fs)
        fs['G'] = impl.arbitrary
        return env, fs
    SAMPLES[0] = smp
    im.fork().vtk()
    for m in ('checksum', 'std', 'print'):
        if im.has(m):
            try:
                im.fork().result(m)
            except Unsupported:
                pass
    im.arbitrary()
    if im.steps(n, dt) is False:
        im.steps(1, dt)
        im.arbitrary()
        im.steps(1, dt)
    im.vtk()
    for m in ('checksum', 'std', 'print'):
        if im.has(m):
            try:
                im.result(m)
            except Unsupported:
                pass
    im.destroy()
    return [(im.s.I if hasattr(im, 's') else im.U.s.I, smp, None)]


def fsolver(nm, make):
    """Fortran: the object is built, used and deleted twice"""
    out = solver(nm, make)
    im = make()
    s = im.s
    im.destroy()
    s.call(im.procs['new'], im.obj, s.box(Vec(im.v)), s.box(Vec(im.len)), s.box(Vec(im.n)))
    im.arbitrary()
    im.steps(1, T.sym('dt', 'r'))
    im.destroy()
    leaks(s)
    smp = out[0][1]
    return out + [(s.I, smp, None)]


def leaks(s):
    """pointer targets that are still allocated although nothing is left to use them"""
    from .values import UndefV
    s.I.leaked = [(nm, w) for r, nm, w in s.I.heaps if r in s.st.store and not isinstance(s.st.store[r], UndefV)]


def fmain(nm):
    """main programs with and without valid arguments; with the real solver for small numbers of steps"""
    from . import fdrv
    SAMPLES[0] = fsamples
    out = []
    for n, bad in ((3, ()), (2, ()), (1, ()), (0, ()), (3, (1,)), (3, (2,)), (1, (1,))):
        P = fdrv.load(nm, n, bad)
        out.append((P.s.I, fsamples, None))
    for k in (0, 1, 2):
        P = fdrv.FProg(nm, [fdrv.A1, fdrv.A2, T.string('vtk')], {fdrv.A1: fdrv.NC, fdrv.A2: T.num(k)}, True)
        if P.st is not None:
            P.s.st = P.st
            leaks(P.s)
        out.append((P.s.I, fsamples, None))
    return out


def pympi():
    """the distributed Python solver"""
    im = impl.PyMpi()
    dt = T.sym('dt', 'r')
    smp = im.samples(dt)
    SAMPLES[0] = smp
    im.arbitrary()
    im.steps(1, dt)
    im.arbitrary()
    im.steps(1, dt)
    im.arbitrary()
    im.result('checksum')
    im.result('gatherRoot')
    im.destroy()
    return [(im.s.I, smp, None)]


def pmain(nm):
    """Python programs with and without valid arguments; with the real solver for small numbers of steps"""
    from . import pdrv
    from .cxxlib import RANK, SIZE

    def smp(rng, k):
        env, fs = fsamples(rng, k)
        p = rng.choice([1, 2, 4])
        env.update({SIZE: p, RANK: rng.randrange(p), T.sym('decomp_valid', 'b'): True, pdrv.NC: 4})
        env.update({T.sym('D%d' % i, 'i', lo=1): [p, 1, 1][i] for i in range(3)})
        return env, dict(fs, checksum=lambda n: 1)
    SAMPLES[0] = smp
    out = []
    for n, bad in ((3, ()), (2, ()), (1, ()), (0, ()), (3, (1,)), (3, (2,)), (1, (1,))):
        P = pdrv.load(nm, n, bad)
        out.append((P.s.I, smp, None))
    if nm == 'upwind':
        for k in (0, 1, 2):
            P = pdrv.PProg(nm, [pdrv.A1, pdrv.A2, T.string('vtk')], {pdrv.A1: pdrv.NC, pdrv.A2: T.num(k)}, True)
            out.append((P.s.I, smp, None))
    return out


def matrices():
    """the matrix program: its parts for arbitrary shapes, the whole program for given and missing arguments"""
    from . import matm
    prog = matm.program()
    ini, mul = matm.procs(prog)
    out = []
    def smp(rng, k):
        env, fs = matm.samples()(rng, k)
        env.update({a: rng.choice(['x', '12', '']) for a in matm.ARGS})
        isn = lambda s: s.strip().isdigit()
        return env, dict(fs, isnumber=isn, numberof=lambda s: int(s) if isn(s) else 0, ioerror=lambda s: 5010)
    SAMPLES[0] = smp
    for u in mul:
        out.append((matm.multiply(u, prog)[0].I, matm.samples(), None))
    out.append((matm.initialise(ini, prog)[0].I, matm.samples(), None))

    for n, bad, stub in ((3, (), False), (0, (), False), (3, (), True), (2, (), True), (1, (), True), (3, (1,), True), (3, (2, 3), True)):
        P = matm.Main(n, bad, stub)
        out.append((P.s.I, smp, None))
    return out


def fsamples(rng, k):
    from . import fdrv
    from fractions import Fraction
    import zlib
    env = {fdrv.NC: rng.choice([1, 2, 2, 3]), fdrv.NS: rng.choice([0, 1, 2, 3]), fdrv.A1: rng.choice(['x', '12', '1.5']),
           fdrv.A2: rng.choice(['x', '7', '']), fdrv.A3: rng.choice(['vtk', 'x'])}
    isn = lambda s: s.strip().isdigit()
    return env, {'isnumber': isn, 'numberof': lambda s: int(s) if isn(s) else 0, 'ioerror': lambda s: 5010,
                 'field': lambda k, q: Fraction(zlib.crc32(b'%d %d' % (k, q)) % 99)}


def driver(nm):
    out = []
    for d in ((1, 2, 3) if nm == 'laplacian' else (None,)):
        P = drv.load(nm, {'-numDims': T.num(d)} if d else None)
        out.append((P.s.I, None, None))
    return out


def parser():
    from .checks import c13
    out = []
    for nm, opts in c13.SETS.items():
        P = c13.Parser(opts)
        for o, ty in P.opts:
            P.get(o, ty)
        P.s.call(P.obj, c13.CLS + '::help')
        out.append((P.s.I, parser_samples(P), None))
    return out


def parser_samples(P):
    def smp(rng, n):
        ws = P.words(rng, n, n % 3 == 0)
        argv = ['prog'] + list(ws)
        from .checks import c13

        class Short(Exception):
            pass
        fn = {'argv': lambda a: argv[a] if 0 <= a < len(argv) else '',
              'schar': lambda s, k: ord(s[k]) if 0 <= k < len(s) else 0,
              'slen': len, 'isdigit': lambda c: 48 <= c <= 57, 'atoi': c13.atoi, 'atof': c13.atof}
        return {P.argc: len(argv)}, fn
    return smp


def scenes(tier):
    from .checks.c05 import stencils
    out = []
    for d in range(1, 4):
        out.append(('MultiArrayIter d=%d' % d, iterator, d))
    for d in range(1, 4):
        out.append(('CubeDecomp d=%d' % d, cube, d))
    for d in (3, 2, 1):
        for nm, offs in stencils(d, tier):
            out.append(('Filter d=%d %s' % (d, nm), filter_, d, nm, offs))
    for nm, make in impl.cxx_tasks():
        out.append((nm, solver, nm, make))
    for nm in drv.DRIVERS:
        out.append((nm + ' main', driver, nm))
    out.append(('CmdLineArgParser', parser))
    for nm, make in impl.ftn_tasks() + impl.ftn_tasks(True):
        out.append((nm, fsolver, nm, make))
    for nm in impl.FTN:
        out.append(('fortran %s main' % nm, fmain, nm))
    out.append(('fortran matmult', matrices))
    for nm, make in impl.py_tasks():
        out.append((nm, solver, nm, make))
    out.append(('python upwindMPI', pympi))
    for nm in ('upwind', 'upwindMPI'):
        out.append(('python %s main' % nm, pmain, nm))
    return out
