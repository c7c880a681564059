"""C26: the Laplacian benchmark sets up the second-difference stencil and the sine product."""
from .. import term as T
from .. import drv
from ..values import Vec, MapV
from .c12 import OK, samples


def run(rep):
    rep.rule('value of the stencil table handed to the filter and summary of the input function, per number of axes')
    rep.parallel([('laplacian d=%d' % d, lap, d) for d in (1, 2, 3, 4, 5)])


def stencil(rep, tag, P, want):
    """the stencil of the only Filter built on the successful path"""
    c = list(drv.flat(P.trace(*OK), ('construct',)))
    if not rep.expect(tag + 'the filter is constructed', len(c) == 1, P.where, {'constructions': len(c)}):
        return None
    it = c[0][0]
    st = it.args[3]
    if type(st) is not MapV:
        rep.unknown(tag + 'stencil', it.at, 'stencil of kind %s' % type(st).__name__)
        return it
    got = {tuple(int(y) for y in k): v for k, v in zip(st.keys, st.vals)}
    for k in sorted(set(got) | set(want)):
        if k not in got:
            rep.bad(tag + 'weight of offset %s' % (k,), it.at, 'missing entry')
        else:
            rep.eq(tag + 'weight of offset %s' % (k,), got[k], want.get(k, T.num(0, 'r')), it.at, samples)
    return it


def lap(rep, d):
    P = drv.load('laplacian', {'-numDims': T.num(d)})
    tag = 'laplacian d=%d: ' % d
    want = {(0,) * d: T.num(-2 * d, 'r')}
    for i in range(d):
        for s in (1, -1):
            want[tuple(s if q == i else 0 for q in range(d))] = T.num(1, 'r')
    stencil(rep, tag, P, want)
    ini = list(drv.flat(P.trace(*OK), ('init',)))
    rep.expect(tag + 'the input field is set once', len(ini) == 1 and not ini[0][2] and not ini[0][1], P.where, {'calls': len(ini)})
    ap = list(drv.flat(P.trace(*OK), ('apply',)))
    if not ini:
        return
    it = ini[0][0]
    rep.expect(tag + 'the input is a function of position', it.args[0] == 'setInData', it.at, it.args[0])
    order = [x[0].kind for x in drv.flat(P.trace(*OK), ('init', 'apply'))]
    rep.expect(tag + 'the input is set before the filter is applied', order[:1] == ['init'], it.at, order)
    x = [T.sym('x%d' % i, 'r') for i in range(d)]
    s = P.s.fork()
    v = s.I.val(s.I.callv(it.args[1], [s.box(Vec(x))], s.st), s.st)
    pi = T.num('3.14159265358979323846', 'r')
    want = T.num(1, 'r')
    for y in x:
        want = T.mul(want, T.mkapp('sin', (T.mul(T.num(2, 'r'), pi, y),), 'r'))
    import math

    def smp(rng, n):
        # a float oracle for the sine, so that equivalent spellings of the argument agree up to rounding
        return {}, {'sin': lambda t: math.sin(float(t)), 'cos': lambda t: math.cos(float(t))}
    rep.eq(tag + 'input function', v, want, it.at, smp)
    rep.visited(P.s.I)
