"""C17: matrix multiplication is the matrix product for every shape."""
from fractions import Fraction
from .. import term as T
from .. import matm, fint, vtk
from ..matm import N, M, L


def run(rep):
    rep.rule('summary of every element of the result of each multiplication (loop nests solved as sums over symbolic extents) compared '
             'with the inner product; summary of both initialised factors; output of the program as a function of the two results')
    rep.parallel([('multiplication', products), ('initialisation', init), ('program', main)])


def same_shape(rep, name, v, n, m, w):
    for q, (x, y) in enumerate(zip(v.shape, (n, m))):
        rep.eq('%s: extent %d' % (name, q + 1), x, y, w, matm.samples())


def products(rep):
    prog = matm.program()
    for u in matm.procs(prog)[1]:
        s, c = matm.multiply(u, prog)
        w = fint.floc(prog, u)
        i, k = T.fresh('i', 'i', lo=0, ub=N), T.fresh('k', 'i', lo=0, ub=L)
        j = T.fresh('j', 'i', lo=0, ub=M)
        got = T.subst(c.body, {c.ks[0]: i, c.ks[1]: k})
        want = T.tsum(j, T.ZERO, M, T.mul(T.mkapp('A', (i, j), 'r'), T.mkapp('B', (j, k), 'r')))
        rep.eq(u.name + ': every element is the inner product', got, want, w, matm.samples((i, N), (k, L)))
        rep.visited(s.I)


def init(rep):
    prog = matm.program()
    u = matm.procs(prog)[0]
    s, a, b = matm.initialise(u, prog)
    w = fint.floc(prog, u)
    i, j, k = T.fresh('i', 'i', lo=0, ub=N), T.fresh('j', 'i', lo=0, ub=M), T.fresh('k', 'i', lo=0, ub=L)
    one = T.ONE
    rep.eq('first factor: consecutive numbers', T.subst(a.body, {a.ks[0]: i, a.ks[1]: j}), T.toreal(T.add(one, i, T.mul(N, j))), w,
           matm.samples((i, N), (j, M)))
    rep.eq('second factor: consecutive numbers', T.subst(b.body, {b.ks[0]: j, b.ks[1]: k}),
           T.toreal(T.add(one, T.mul(N, M), j, T.mul(M, k))), w, matm.samples((j, M), (k, L)))
    rep.visited(s.I)


def main(rep):
    P = matm.Main(3, (), True)
    names = {u.name for u in matm.procs(P.prog)[1]}
    rep.expect('each multiplication is run once', sorted(u.name for u, v in P.calls) == sorted(names), P.where, [u.name for u, v in P.calls])
    for u, v in P.calls:
        for nm, x, n, m in (('first factor', v[0], N, M), ('second factor', v[1], M, L), ('result', v[2], N, L)):
            same_shape(rep, '%s: %s' % (u.name, nm), x, n, m, P.where)
    # the verdict printed, when the results agree and when one element differs
    tries = 60 if rep.tier == 'quick' else 400
    words = {}
    for n in range(1, tries + 1):
        env, fs = matm.samples()(rep.rng, n)
        if not (env[N] and env[L]):
            continue
        c0 = matm.value('C0')
        pos = (rep.rng.randrange(env[N]), rep.rng.randrange(env[L]))
        d = rep.rng.choice([1, -1, Fraction(1, 1000), -5])
        # half of the time two elements differ, by opposite amounts
        pos2 = (rep.rng.randrange(env[N]), rep.rng.randrange(env[L]))
        pos2 = pos2 if n % 2 and pos2 != pos else None
        for case in ('equal', 'different'):
            fs = dict(fs)
            fs['C1'] = c0 if case == 'equal' else lambda i, j: c0(i, j) + (d if (i, j) == pos else -d if (i, j) == pos2 else 0)
            v = T.Valuation(dict(env), n, fs)
            txt = ''
            for st in P.ends:
                if all(v.ev(p) for p in st.pc):
                    txt = text(P.output(st), v)
                    break
            want, bad = ('SUCCESS', 'ERROR') if case == 'equal' else ('ERROR', 'SUCCESS')
            if (want not in txt or bad in txt) and case not in words:
                words[case] = {'shape': [env[N], env[M], env[L]], 'element': pos, 'opposite element': pos2, 'difference': str(d), 'printed': txt[-120:]}
    for case, nm in (('equal', 'equal results are reported as a success'), ('different', 'a difference in any element is reported as an error')):
        if case in words:
            rep.bad(nm, P.where, words[case])
        else:
            rep.add(nm, 'agreed', P.where, {'valuations': tries})
    rep.visited(P.s.I)


def text(items, v):
    return ''.join(str(p.v) if isinstance(p, vtk.Val) else p if isinstance(p, str) else '' for p in vtk.pieces(items, v))
