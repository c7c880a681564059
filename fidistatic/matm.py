"""The matrix multiplication program."""
from fractions import Fraction
import zlib
from . import term as T
from . import fint
from .cxx import AnalysisBroken
from .drv import flat, simplified
from .values import *

REL = 'matmult/fortran/matmult.F90'
N, M, L = T.sym('n', 'i', lo=0), T.sym('m', 'i', lo=0), T.sym('l', 'i', lo=0)
ARGS = [T.sym('argv%d' % i, 's') for i in (1, 2, 3)]


def program():
    return fint.program(REL, ('HAVE_OPENMP',))


def procs(prog):
    """(initialisation, multiplications)"""
    ini, mul = None, []
    for u in prog.all():
        if u.kind not in ('subroutine', 'function'):
            continue
        mats = [a for a in u.args if u.decls.get(a) and u.decls[a]['dims'] is not None and len(u.decls[a]['dims']) == 2]
        if u.name == 'initmat':
            ini = u
        elif u.name.startswith('matmult') and len(mats) == 3 == len(u.args):
            mul.append(u)
    if ini is None or len(mul) < 2:
        raise AnalysisBroken('initmat / matmult0 / matmult1 not found in %s' % REL)
    return ini, sorted(mul, key=lambda u: u.name)


def matrix(nm, n, m):
    i, j = T.fresh('i', 'i', lo=0, ub=n), T.fresh('j', 'i', lo=0, ub=m)
    return Arr((n, m), (i, j), T.mkapp(nm, (i, j), 'r') if nm else T.undef('result', 'r'))


def value(nm):
    return lambda i, j: Fraction(zlib.crc32(('%s %d %d' % (nm, i, j)).encode()) % 19 - 9)


def samples(*idx):
    """shapes with the index symbols given as (symbol, extent)"""
    def smp(rng, k):
        env = {N: rng.choice([1, 1, 2, 3, 4, 5]), M: rng.choice([1, 2, 3, 4, 6]), L: rng.choice([1, 2, 3, 4, 7])}
        if not idx and k % 7 == 0:
            env[rng.choice([N, M, L])] = 0
        for s, n in idx:
            m = env[n]
            env[s] = rng.choice([0, m - 1, rng.randrange(m)])
        return env, {x: value(x) for x in ('A', 'B', 'C0', 'C1')}
    return smp


def multiply(u, prog):
    """session and result after one multiplication of arbitrary matrices"""
    s = fint.FSession(prog)
    c = s.box(matrix(None, N, L))
    s.call(u, s.box(matrix('A', N, M)), s.box(matrix('B', M, L)), c)
    return s, s.I.load(c, s.st, True)


def initialise(u, prog):
    s = fint.FSession(prog)
    a, b = s.box(matrix(None, N, M)), s.box(matrix(None, M, L))
    s.call(u, a, b)
    return s, s.I.load(a, s.st, True), s.I.load(b, s.st, True)


class Main:
    """the main program with the given number of arguments; multiplications replaced by arbitrary results when asked"""

    def __init__(self, nargs=3, bad=(), stub=False):
        self.prog = program()
        s = self.s = fint.FSession(self.prog)
        self.where = fint.floc(self.prog, self.prog.main())
        self.calls = []
        if stub:
            for q, u in enumerate(procs(self.prog)[1]):
                s.I.stubs[u.name] = lambda I, st, u, a, q=q: self.result(I, st, u, a, q)
        ints = {a: x for i, (a, x) in enumerate(zip(ARGS, (N, M, L)), 1) if i not in bad}
        ok = s.main([T.string('program')] + ARGS[:nargs], ints)
        self.st = s.st if ok else None
        self.ends = ([s.st] if ok else []) + list(s.I.exitstates)

    def result(self, I, st, u, a, q):
        v = [I.load(x, st, True) if how == 'p' else x for how, x in a]
        self.calls.append((u, v))
        out = a[2]
        n, m = v[2].shape
        I.store(out[1], matrix('C%d' % q, n, m), st, True)
        return VOID

    def output(self, st, pc=()):
        for r, v in st.store.items():
            if r.name == 'std::cout' and type(v) is Stream:
                return simplified(v.items, pc)
        return ()
