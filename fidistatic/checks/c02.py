"""C02: a valid decomposition tiles the grid."""
from .. import term as T
from .. import drive, decomp, acc
from ..drive import item, Session
from ..values import Vec, vlen
from .c01 import strides


def run(rep):
    prog = drive.program(*drive.LIB)
    rep.rule('the selected candidate satisfies the candidate filter (product = process count) and divides every axis; '
             'for an arbitrary factorisation the rank boxes are the mixed-radix tiles, hence disjoint and covering')
    rep.parallel([('d=%d' % d, one, prog, d) for d in range(1, 4 if rep.tier == 'quick' else 5)] + [('d=2 after another decomposition', one, prog, 2, True)])


def one(rep, prog, d, second=False):
    tag = 'd=%d%s: ' % (d, ' after another decomposition' if second else '')
    before, old = decomp.used(prog, d, True) if second else (None, ())
    S = decomp.Searched(prog, d, True, session=before)
    mark = len(S.s.I.accesses)
    from .c03 import cases
    cs = cases(rep.rng, d, 'quick')

    def samples(rng, n):
        if n > len(cs) and not rng.hints:
            return None
        p, g = decomp.hinted(rng, d) if rng.hints else cs[n - 1]
        env = {S.P: p}
        env.update(zip(S.G, g))
        env.update((x, 0 if x is old[-1] else rng.choice([1, 2, 3, 4])) for x in old)
        return env, decomp.FUNCS

    def goal_prod(v):
        return [T.eq(T.mul(*v), S.P)]

    def goal_div(v):
        return [T.eq(T.fmod(g, x), T.ZERO) for g, x in zip(S.G, v)]
    names = [('number of sub-domains is the number of processes', goal_prod), ('every axis is divided into equal blocks', goal_div)]
    for nm, goal in names:
        if decomp.prove_search(S, goal):
            rep.ok(tag + nm, S.where)
        else:
            for g in goal([item(S.dec, i) for i in range(d)]):
                rep.holds(tag + nm, g, S.where, samples, (S.ok,), len(cs))
    rep.eq(tag + 'no usable decomposition when none is reported', vlen(S.dec), T.ZERO, S.where, samples, (T.lnot(S.ok),), len(cs))
    s, D, L, P = decomp.valid(S)
    r = T.fresh('r', 'i', lo=0, ub=P)
    St = strides(D, True)

    def extra(rng, n, env):
        p = 1
        for x in D:
            p *= env[x]
        env[r] = rng.choice([0, p - 1, rng.randrange(p)])
        env.update((x, 0 if x is old[-1] else rng.choice([1, 2, 3, 4])) for x in old)
    smp = decomp.samples_DL(D, L, extra)
    # the position of the rank in the grid of sub-domains may be either storage order; the tiling must follow one of them
    lo = s.call(S.obj, 'CubeDecomp::getBegIndices', r)
    w = s.where_
    s0 = s.fork()
    hi = s.call(S.obj, 'CubeDecomp::getEndIndices', r)
    w2 = s.where_
    hi0 = s0.call(S.obj, 'CubeDecomp::getEndIndices', r)
    rep.eq(tag + 'begin indices: one per axis', vlen(lo), T.num(d), w, smp)
    rep.eq(tag + 'end indices: one per axis', vlen(hi), T.num(d), w2, smp)
    order = None
    for row in (True, False):
        St = strides(D, row)
        if all(T.same(item(lo, i), T.mul(T.fmod(T.fdiv(r, St[i]), D[i]), L[i])) for i in range(d)):
            order = row
            break
    St = strides(D, order if order is not None else True)
    for i in range(d):
        c = T.fmod(T.fdiv(r, St[i]), D[i])
        rep.eq(tag + 'begin index %d of rank r' % i, item(lo, i), T.mul(c, L[i]), w, smp)
        rep.eq(tag + 'end index %d of rank r' % i, item(hi, i), T.mul(T.add(c, T.ONE), L[i]), w2, smp)
        rep.eq(tag + 'end index %d without asking for the begin index' % i, item(hi0, i), item(hi, i), w2, smp)
    if not second:
        again(rep, prog, S, d, tag)
    acc.bounds(rep, s.I, [a for a in s.I.accesses[mark:]], None, tag, (), lambda a: 'MultiArrayIter' not in a[8] and 'IndicesX' not in a[8])
    rep.visited(s.I)


def again(rep, prog, S, d, tag):
    """building an object which already holds another decomposition gives what building a new one gives"""
    for what, d0 in (('other', d), ('lower', d - 1), ('higher', d + 1)):
        if d0 < 1 or d0 > 3 or (what != 'other' and d > 2):
            continue
        S0 = S if d0 == d else decomp.Searched(prog, d0, True)
        s, D, L, P = decomp.valid(S0)
        mp = {}
        for x in D + L:
            mp[x] = T.sym('old_' + x.args[0], 'i', lo=1)
        from ..values import Sub, State
        sub = Sub(mp)
        s.st = State({r: sub.v(v) for r, v in s.st.store.items()}, ())
        ok = s.call(S0.obj, 'CubeDecomp::build', S.P, s.box(Vec(S.G)))
        w = s.where_

        def samples(rng, n):
            env = {x: rng.choice([1, 2, 3]) for x in mp.values()}
            env[S.P] = rng.choice([1, 2, 3, 4, 5, 6, 7, 8])
            env.update((g, rng.choice([1, 2, 3, 4, 6])) for g in S.G)
            return env, decomp.FUNCS
        nm = tag + 'built again after a %s-dimensional one: ' % (('another %d' % d0) if what == 'other' else d0)
        rep.eq(nm + 'reports the same', ok, S.ok, w, samples)
        dec = s.call(S0.obj, 'CubeDecomp::getDecomp')
        rep.eq(nm + 'size of the decomposition', vlen(dec), vlen(S.dec), w, samples)
        for i in range(d):
            rep.eq(nm + 'entry %d' % i, item(dec, i), item(S.dec, i), w, samples, (S.ok,))
        r = T.sym('r_again', 'i', lo=0)

        def samples2(rng, n):
            env, fs = samples(rng, n)
            env[r] = rng.randrange(env[S.P])
            return env, fs
        s1 = S.s.fork()
        s1.st.assume(S.ok)
        s.st.assume(S.ok)
        for q in ('getBegIndices', 'getEndIndices'):
            a, b = s.call(S0.obj, 'CubeDecomp::' + q, r), s1.call(S.obj, 'CubeDecomp::' + q, r)
            for i in range(d):
                rep.eq(nm + '%s %d' % (q, i), item(a, i), item(b, i), s.where_, samples2, (S.ok, T.lt(r, S.P)))
