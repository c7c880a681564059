"""C05: the distributed stencil application equals the serial periodic stencil."""
import itertools
from .. import term as T
from .. import drive, filt, acc
from ..drive import item
from ..values import Vec, Arr, Sub, State, step_get, Unsupported


def unit(d, i, s):
    return tuple(s if j == i else 0 for j in range(d))


def stencils(d, tier):
    star = [(0,) * d] + [unit(d, i, s) for i in range(d) for s in (-1, 1)]
    out = [('star', star)]
    wide = [unit(d, i, s) for i in range(d) for s in (-2, -1, 1, 2)]
    if d <= 2 or tier != 'quick':
        out.append(('wide', wide))
    out.append(('upwind', [(0,) * d] + [unit(d, i, 1 if i % 2 else -1) for i in range(d)]))
    out.append(('shift', [unit(d, d - 1, 1)]))
    if d <= 2:
        # sides shared by halos of different width, in both orders
        out.append(('spread', [unit(d, 0, s) for s in (-3, -1, 1, 3)] + ([unit(d, 1, 1)] if d > 1 else [])))
    if tier != 'quick':
        out.append(('three', [unit(d, 0, 3), unit(d, 0, -1), unit(d, d - 1, -3)]))
    return out


def run(rep):
    prog = drive.program(*drive.LIB)
    rep.rule('summary of the field after initialise / apply / copy-back / apply on an arbitrary rank of an arbitrary '
             'factorisation compared with the serial periodic stencil on an arbitrary field and arbitrary weights')
    tasks = []
    for d in (3, 2, 1):
        for nm, offs in stencils(d, rep.tier):
            for how in ('setInDataByIndices', 'setInData') if nm in ('star',) else ('setInDataByIndices',):
                tasks.append(('d=%d %s' % (d, nm), one, prog, d, nm, offs, how))
        if d <= 2 or rep.tier != 'quick':
            nm, offs = [x for x in stencils(d, rep.tier) if x[0] == 'upwind'][0]
            tasks.append(('d=%d %s after another filter' % (d, nm), one, prog, d, nm, offs, 'setInDataByIndices', True))
    rep.parallel(tasks)


def one(rep, prog, d, nm, offs, how, second=False):
    tag = 'd=%d %s%s%s: ' % (d, nm, '' if how == 'setInDataByIndices' else ' (field of position)', ' after another filter' if second else '')
    w = [T.sym('w%d' % i, 'r') for i in range(len(offs))]
    F = filt.Filt(prog, d, list(zip(offs, w)), second=second)
    if not F.builds:
        rep.bad(tag + 'the domain is decomposed', F.where, 'no decomposition is built')
        return
    p, g = F.builds[0]
    rep.eq(tag + 'decomposed for the number of processes', p, F.P, F.where)
    for i in range(d):
        rep.eq(tag + 'decomposed grid, axis %d' % i, item(g, i), F.G[i], F.where)
    reach = [max([abs(o[i]) for o in offs] + [1]) for i in range(d)]
    pos = how == 'setInData'
    F.call(how, F.func('U'))
    iw = F.s.where_
    fin, vin = F.field('input')
    if fin is None:
        rep.unknown(tag + 'input field', F.where, 'no member array sums to the input check sum')
        return
    j = T.fresh('cell', 'i', lo=0, ub=T.mul(*F.L))

    def extra(rng, n, env):
        for l, h in zip(F.L, reach):
            env[l] = max(env[l], h)
        m = 1
        for l in F.L:
            m *= env[l]
        env[j] = rng.choice([0, m - 1, rng.randrange(m)])
    smp = F.samples(extra)
    fld = T.subst(vin.body, {vin.ks[0]: j})
    apps = [x for x in T.walk(fld) if x.op == 'app' and x.args[0] == 'U']
    if fld.op != 'app' or fld.args[0] != 'U':
        rep.eq(tag + 'the field holds the function value', fld, T.mkapp('U', tuple(T.fresh('g', 'r' if pos else 'i') for _ in range(d)), 'r'), iw, smp)
        return
    args = fld.args[1]
    # the position map is a bijection between the local cells and the rank's box (any storage order)
    bijection(rep, tag, F, args, j, smp, pos, iw)

    def S(field, gs):
        out = T.ZERO
        for o, x in zip(offs, w):
            q = [T.fmod(T.add(a, T.num(b)), G) for a, b, G in zip(gs, o, F.G)]
            out = T.add(out, T.mul(x, field(q)))
        return out

    def U0(gs):
        if pos:
            gs = [position(F, i, x) for i, x in enumerate(gs)]
        return T.mkapp('U', tuple(gs), 'r')
    gi = gindex(F, args, j, pos)
    if gi is None:
        rep.unknown(tag + 'cell position', iw, 'global index of a cell not recovered')
        return
    F.call('applyFilter')
    w1 = F.s.where_
    n = 150 if rep.tier == 'quick' else 1500

    def out(name, field, ww):
        fo, vo = F.field('output')
        if fo is None:
            rep.unknown(name, ww, 'no member array sums to the output check sum')
            return
        rep.eq(name, T.subst(vo.body, {vo.ks[0]: j}), S(field, gi), ww, smp, (), n, prove=False)
    out(tag + 'every cell after one application', U0, w1)
    fi, vi = F.field('input')
    rep.eq(tag + 'the input field is unchanged by the application', T.subst(vi.body, {vi.ks[0]: j}) if fi else T.ZERO, fld, w1, smp)
    F.call('copyOutToIn')
    fi, vi = F.field('input')
    if fi:
        rep.eq(tag + 'copy-back: new input is the old output', T.subst(vi.body, {vi.ks[0]: j}), S(U0, gi), F.s.where_, smp, (), n, prove=False)
    if not pos and (d < 3 or len(offs) < 6 or rep.tier != 'quick'):
        F.call('applyFilter')
        out(tag + 'every cell after copy-back and a second application', lambda gs: S(U0, gs), F.s.where_)
    rep.visited(F.s.I)
    rep.visited(F.decI)


def position(F, i, g):
    delta = T.rdiv(T.sub(F.xmaxs[i], F.xmins[i]), F.G[i])
    return T.add(F.xmins[i], T.mul(T.add(T.toreal(g), T.num('1/2', 'r')), delta))


def gindex(F, args, j, pos):
    if not pos:
        return list(args)
    out = []
    for i, a in enumerate(args):
        # with unit cells starting at zero the cell centre is the index plus one half
        g = T.subst(a, {F.xmins[i]: T.num(0, 'r'), F.xmaxs[i]: T.toreal(F.G[i])})
        g = clean(T.sub(g, T.num('1/2', 'r')))
        if g is None or not T.same(position(F, i, g), a):
            return None
        out.append(g)
    return out


def clean(g):
    """integer part of a real expression that is integral by construction"""
    syms = [x for x in T.walk(g) if x.op in ('inv',)]
    if syms:
        # (a - b)/(a - b) cancels when both factors are written alike
        return None
    if g.op == 'poly':
        if any(c.denominator != 1 for m, c in g.args[0]):
            return None
        return T._frompoly(dict(g.args[0]), 'i')
    return g


def bijection(rep, tag, F, args, j, smp, pos, where):
    import random
    rng = rep.rng
    st = strides_box(F)
    n = 0
    for t in range(40 if rep.tier == 'quick' else 200):
        env = smp(rng, t)
        if pos:
            for x in F.xmins:
                env[x] = rng.randint(-3, 3)
            for x, m in zip(F.xmaxs, F.xmins):
                env[x] = env[m] + rng.randint(1, 4)
        m = 1
        for l in F.L:
            m *= env[l]
        if m > 400:
            continue
        got = set()
        for k in range(m):
            e = dict(env)
            e[j] = k
            v = T.Valuation(e, 1)
            got.add(tuple(v.ev(a) for a in args))
        v = T.Valuation(dict(env), 1)
        c = [v.ev(T.fmod(T.fdiv(F.r, s), d)) for s, d in zip(st, F.D)]
        want = set()
        for x in itertools.product(*[range(env[l]) for l in F.L]):
            g = [ci * env[l] + xi for ci, xi, l in zip(c, x, F.L)]
            want.add(tuple(v.ev(position(F, i, T.num(a))) if pos else a for i, a in enumerate(g)))
        n += 1
        if got != want:
            rep.bad(tag + 'the cells of a rank are initialised from their own positions', where,
                    {'values': {str(k): str(x) for k, x in env.items()}, 'computed': str(sorted(got)[:6]), 'specified': str(sorted(want)[:6])})
            return
    rep.add(tag + 'the cells of a rank are initialised from their own positions', 'agreed', where, {'valuations': n})


def strides_box(F):
    from .c01 import strides
    lo = F.dec
    return strides(F.D, True)
