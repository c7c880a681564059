"""C01: the iterator's flat index and index set are inverse maps."""
from .. import term as T
from .. import drive, acc
from ..drive import Session, vec, item
from ..values import Vec, vlen

CLS = 'MultiArrayIter'


def strides(L, row):
    d = len(L)
    out = []
    for i in range(d):
        js = range(i + 1, d) if row else range(i)
        out.append(T.mul(T.ONE, *[L[j] for j in js]))
    return out


def run(rep):
    prog = drive.program(*drive.LIB)
    rep.rule('summary of every public operation of MultiArrayIter compared with the mixed-radix specification')
    dims = range(1, 5) if rep.tier == 'quick' else range(1, 7)
    for d in dims:
        for row in (True, False):
            rep.guard('d=%d' % d, box, rep, prog, d, row)
    for row in (True, False):
        rep.guard('zero dimensional', zero, rep, prog, row)
    rep.guard('default constructed', default, rep, prog)


def box(rep, prog, d, row):
    tag = 'd=%d %s: ' % (d, 'row-major' if row else 'column-major')
    lo = [T.sym('lo%d' % i, 'i', lo=0) for i in range(d)]
    L = [T.sym('L%d' % i, 'i', lo=1) for i in range(d)]
    hi = [T.add(a, b) for a, b in zip(lo, L)]
    ntot = T.mul(*L)
    k = T.fresh('k', 'i', lo=0, ub=ntot)
    S = strides(L, row)

    def samples(rng, n):
        big = n % 7 == 0
        env = {}
        p = 1
        for a, b in zip(lo, L):
            env[a] = rng.choice([0, 0, 1, 2, 3, 17]) if not big else rng.randrange(10 ** 6)
            env[b] = rng.choice([1, 1, 2, 3, 4, 5, 7]) if not big else rng.choice([1, 3, 1000, 65537])
            p *= env[b]
        env[k] = rng.choice([0, p - 1, rng.randrange(p)])
        return env

    s = Session(prog)
    it = s.new(CLS, s.box(Vec(lo)), s.box(Vec(hi)), T.boolean(row))
    w = s.where_
    rep.eq(tag + 'number of terms', s.call(it, CLS + '::getNumberOfTerms'), ntot, w, samples)
    for nm, ref in (('getLBegIndices', lo), ('getEndIndices', hi)):
        v = s.call(it, CLS + '::' + nm)
        for i in range(d):
            rep.eq(tag + '%s[%d]' % (nm, i), item(v, i), ref[i], s.where_, samples)

    def spec(kk, i):
        return T.add(lo[i], T.fmod(T.fdiv(kk, S[i]), L[i]))

    def indices(sess, what, kk, pc=()):
        v = sess.call(it, CLS + '::getIndices')
        rep.eq(tag + what + ': number of indices', vlen(v), T.num(d), sess.where_, samples)
        for i in range(d):
            rep.eq(tag + what + ': index %d' % i, item(v, i), spec(kk, i), sess.where_, samples, pc)
        return v
    indices(s, 'start', T.ZERO)
    s1 = s.fork()
    s1.call(it, CLS + '::move', k)
    v = indices(s1, 'at position k', k)
    for ety in ('u64', 'i32'):
        ptys = ['vector<%s>' % ety]
        r = s1.call(it, CLS + '::computeBigIndex', s1.box(v), ptys=ptys)
        rep.eq(tag + 'flat index <%s> of the index set at k' % ety, r, k, s1.where_, samples)
        x = [T.add(lo[i], T.fresh('x%d' % i, 'i', lo=0, ub=L[i])) for i in range(d)]
        r = s1.call(it, CLS + '::computeBigIndex', s1.box(Vec(x)), ptys=ptys)
        rep.eq(tag + 'flat index <%s> of a given index set' % ety, r,
               T.add(*[T.mul(S[i], T.sub(x[i], lo[i])) for i in range(d)]), s1.where_, samples)
    s2 = s1.fork()
    s2.call(it, CLS + '::next')
    s3 = s.fork()
    s3.call(it, CLS + '::move', T.add(k, T.ONE))
    a, b = s2.call(it, CLS + '::getIndices'), s3.call(it, CLS + '::getIndices')
    for i in range(d):
        rep.eq(tag + 'one step from k is position k+1: index %d' % i, item(a, i), item(b, i), s2.where_, samples,
               (T.lt(T.add(k, T.ONE), ntot),))
    s4 = s1.fork()
    s4.call(it, CLS + '::begin')
    indices(s4, 'restarted', T.ZERO)
    wide(rep, prog, tag, d, row, lo, hi, L, k, S, ntot)
    # re-building an existing iterator replaces everything
    s5 = s1.fork()
    lo5 = [T.sym('m%d' % i, 'i', lo=0) for i in range(d)]
    L5 = [T.sym('M%d' % i, 'i', lo=1) for i in range(d)]
    s5.call(it, CLS + '::build', s5.box(Vec(lo5)), s5.box(Vec([T.add(p, q) for p, q in zip(lo5, L5)])), T.boolean(not row))
    k5 = T.fresh('k5', 'i', lo=0, ub=T.mul(*L5))
    rep.eq(tag + 'rebuilt: number of terms', s5.call(it, CLS + '::getNumberOfTerms'), T.mul(*L5), s5.where_)
    v5 = s5.call(it, CLS + '::getIndices')
    for i in range(d):
        rep.eq(tag + 'rebuilt: start index %d' % i, item(v5, i), lo5[i], s5.where_)
    s5.call(it, CLS + '::move', k5)
    v5 = s5.call(it, CLS + '::getIndices')
    S5 = strides(L5, not row)
    for i in range(d):
        rep.eq(tag + 'rebuilt: index %d' % i, item(v5, i), T.add(lo5[i], T.fmod(T.fdiv(k5, S5[i]), L5[i])), s5.where_)
    acc.bounds(rep, s.I, s.I.accesses, samples, tag)
    acc.undefs(rep, s.I, tag, samples)
    rep.visited(s.I)


def wide(rep, prog, tag, d, row, lo, hi, L, k, S, ntot):
    """the same with every narrowing conversion kept: boxes with more terms than a 32 bit integer can count"""
    s = Session(prog, True)
    it = s.new(CLS, s.box(Vec(lo)), s.box(Vec(hi)), T.boolean(row))

    def samples(rng, n):
        while True:
            env = {}
            p = 1
            for a, b in zip(lo, L):
                env[a] = rng.choice([0, 1, 70000, 2 ** 31, 2 ** 33])
                env[b] = rng.choice([1, 3, 300, 70000, 2 ** 20 + 1, 2 ** 31 + 3]) if d < 3 else rng.choice([3, 2001, 70000, 10 ** 5])
                p *= env[b]
            if p < 2 ** 63:
                break
        env[k] = rng.choice([0, p - 1, rng.randrange(p), rng.randrange(p)])
        return env
    rep.eq(tag + 'large box: number of terms', s.call(it, CLS + '::getNumberOfTerms'), ntot, s.where_, samples)
    s.call(it, CLS + '::move', k)
    v = s.call(it, CLS + '::getIndices')
    for i in range(d):
        rep.eq(tag + 'large box: index %d at position k' % i, item(v, i), T.add(lo[i], T.fmod(T.fdiv(k, S[i]), L[i])), s.where_, samples)
    r = s.call(it, CLS + '::computeBigIndex', s.box(v), ptys=['vector<u64>'])
    rep.eq(tag + 'large box: flat index of the index set at k', r, k, s.where_, samples)


def zero(rep, prog, row):
    tag = 'd=0 %s: ' % ('row-major' if row else 'column-major')
    s = Session(prog)
    e = Vec(())
    it = s.new(CLS, s.box(e), s.box(e), T.boolean(row))
    v = s.call(it, CLS + '::getNumberOfTerms')
    rep.eq(tag + 'number of terms (empty product)', v, T.ONE, s.where_)
    g = s.call(it, CLS + '::getIndices')
    rep.eq(tag + 'empty index set', vlen(g), T.ZERO, s.where_)
    rep.eq(tag + 'flat index', s.call(it, CLS + '::computeBigIndex', s.box(e), ptys=['vector<u64>']), T.ZERO, s.where_)
    acc.bounds(rep, s.I, s.I.accesses, None, tag)
    acc.undefs(rep, s.I, tag)
    rep.visited(s.I)


def default(rep, prog):
    tag = 'default constructed: '
    s = Session(prog)
    it = s.new(CLS)
    for nm in ('getNumberOfTerms', 'getIndices', 'begin', 'getLBegIndices', 'getEndIndices'):
        v = s.call(it, CLS + '::' + nm)
        t = vlen(v) if not isinstance(v, T.Term) and nm not in ('begin',) else v
        if nm == 'begin':
            continue
        ok = isinstance(t, T.Term) and not any(x.op == 'undef' for x in T.syms_of(t))
        rep.expect(tag + nm + ' does not depend on an unset member', ok, s.where_,
                   {'computed': T.show(t) if isinstance(t, T.Term) else repr(t)})
    acc.bounds(rep, s.I, s.I.accesses, None, tag)
    acc.undefs(rep, s.I, tag)
