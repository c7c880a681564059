"""C03: the decomposition search is complete and returns the cheapest candidate."""
import itertools
from .. import term as T
from .. import drive, decomp
from ..drive import item
from ..values import Vec, vlen


def run(rep):
    prog = drive.program(*drive.LIB)
    rep.rule('summary of the search (divisor enumeration, candidate filter, running minimum) compared with the '
             'specification: exists a tuple of divisors with product P, first cheapest one')
    rep.parallel([('d=%d' % d, one, prog, d) for d in range(1, 4 if rep.tier == 'quick' else 5)] + [('d=2 after another decomposition', one, prog, 2, True)])


def cases(rng, d, tier):
    """process counts and grids at which the summary terms are compared"""
    out = []
    if d == 1:
        out += [(p, (g,)) for g in range(1, 25) for p in range(1, g + 2)]
    elif d == 2:
        out += [(p, (a, b)) for a in range(1, 9) for b in range(1, 9) for p in range(1, 17)]
        out += [(p, (24, 36)) for p in range(1, 40)] + [(p, (36, 10)) for p in range(1, 40)]
    elif d == 3:
        for _ in range(160):
            g = tuple(rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 12]) for _ in range(3))
            out.append((rng.choice([1, 2, 3, 4, 6, 8, 12, 24, 36, 5, 7]), g))
        out += [(8, (8, 8, 8)), (6, (6, 6, 6)), (1, (5, 5, 5)), (4, (4, 2, 2)), (4, (2, 2, 4)), (27, (3, 3, 3)), (64, (4, 4, 4))]
        out += decomp.overflow_cases()
    else:
        for _ in range(60):
            g = tuple(rng.choice([1, 2, 3, 4, 6]) for _ in range(d))
            out.append((rng.choice([1, 2, 3, 4, 6, 8, 12, 16]), g))
    # long axes, on which the costs of the candidates are close
    out += {2: [(2, (4096, 4000)), (6, (2400, 2304)), (4, (3999, 4096)), (3, (900, 897))], 3: [(2, (2048, 2025, 2000)), (6, (600, 606, 594))]}.get(d, [])
    if tier != 'quick' and d == 3:
        for _ in range(1500):
            out.append((rng.randint(1, 64), tuple(rng.randint(1, 16) for _ in range(3))))
    rng.shuffle(out)
    return out


def one(rep, prog, d, second=False):
    tag = 'd=%d%s: ' % (d, ' after another decomposition' if second else '')
    before, old = decomp.used(prog, d, True) if second else (None, ())
    S = decomp.Searched(prog, d, True, session=before)
    cs = cases(rep.rng, d, rep.tier)

    def samples(rng, n):
        if n > len(cs) and not rng.hints:
            return None
        p, g = decomp.hinted(rng, d) if rng.hints else cs[n - 1]
        env = {S.P: p}
        env.update(zip(S.G, g))
        env.update((x, 0 if x is old[-1] else rng.choice([1, 2, 3, 4])) for x in old)
        return env, decomp.FUNCS
    args = (S.P,) + tuple(S.G)
    n = len(cs)
    want = T.mkapp('decomposable', args, 'b')
    rep.eq(tag + 'a decomposition is found exactly when one exists', S.ok, want, S.where, samples, (), n, prove=False)
    v = S.dec
    rep.eq(tag + 'no entries when none exists, one per axis otherwise', vlen(v), T.ite(want, T.num(d), T.ZERO), S.where, samples, (), n, prove=False)
    for i in range(d):
        t = item(v, i)
        rep.eq(tag + 'entry %d is that of the first cheapest factorisation' % i, t, T.mkapp('best%d' % i, args, 'i'),
               S.where, samples, (want,), n, prove=False)
    rep.visited(S.s.I)
