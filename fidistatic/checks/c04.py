"""C04: the neighbour rank is the periodic neighbour."""
import itertools
from .. import term as T
from .. import drive, decomp, acc
from ..drive import item, Session
from ..values import Vec, vlen
from .c01 import strides


def run(rep):
    prog = drive.program(*drive.LIB)
    rep.rule('summary of the neighbour query for an arbitrary factorisation, an arbitrary rank and an arbitrary '
             'displacement in {-1,0,1}^d compared with the periodic neighbour')
    rep.parallel([('d=%d' % d, one, prog, d) for d in range(1, 4 if rep.tier == 'quick' else 5)] + [('d=2 after another decomposition', one, prog, 2, True)])


def one(rep, prog, d, second=False):
    tag = 'd=%d%s: ' % (d, ' after another decomposition' if second else '')
    before, old = decomp.used(prog, d) if second else (None, ())
    S = decomp.Searched(prog, d, session=before)
    mark = len(S.s.I.accesses)
    s, D, L, P = decomp.valid(S)
    r = T.fresh('r', 'i', lo=0, ub=P)

    def extra(rng, n, env):
        p = 1
        for x in D:
            p *= env[x]
        env[r] = rng.choice([0, p - 1, rng.randrange(p)])
        for x in e:
            env.setdefault(x, rng.choice([-1, 0, 1]))
        p = 1
        for x in old[:-1]:
            env[x] = rng.choice([1, 2, 3, 4])
            p *= env[x] if x in old[:d] else 1
        for x in old[-1:]:
            env[x] = rng.randrange(p)
    e = [T.fresh('e%d' % i, 'i', lo=-1, hi=1) for i in range(d)]
    smp = decomp.samples_DL(D, L, extra)
    lo = s.fork().call(S.obj, 'CubeDecomp::getBegIndices', r)
    row = True
    for row in (True, False):
        St = strides(D, row)
        if all(T.same(item(lo, i), T.mul(T.fmod(T.fdiv(r, St[i]), D[i]), L[i])) for i in range(d)):
            break
    St = strides(D, row)

    def spec(dirs):
        return T.add(*[T.mul(St[i], T.fmod(T.add(T.fmod(T.fdiv(r, St[i]), D[i]), dirs[i]), D[i])) for i in range(d)])
    # arbitrary displacement
    nb = s.call(S.obj, 'CubeDecomp::getNeighborRank', r, s.box(Vec(e)))
    rep.eq(tag + 'neighbour at an arbitrary displacement', nb, spec(e), s.where_, smp, tries=300)
    acc.bounds(rep, s.I, [a for a in s.I.accesses[mark:]], smp, tag, (), lambda a: 'getNeighborRank' not in a[8])
    for dirs in itertools.product((-1, 0, 1), repeat=d):
        f = s.fork()
        dv = [T.num(x) for x in dirs]
        v = f.call(S.obj, 'CubeDecomp::getNeighborRank', r, f.box(Vec(dv)))
        rep.eq(tag + 'neighbour at %s' % (dirs,), v, spec(dv), f.where_, smp)
        # going back
        if isinstance(v, T.Term):
            q = T.fresh('q', 'i', lo=0, ub=P)
            b = f.call(S.obj, 'CubeDecomp::getNeighborRank', v, f.box(Vec([T.neg(x) for x in dv])))
            rep.eq(tag + 'there and back %s' % (dirs,), b, r, f.where_, smp)
    rep.visited(s.I)
