"""C28: text dumps of a field list every cell once with its index and its value."""
import re
import time
import zlib
from fractions import Fraction
from .. import term as T
from .. import drive, filt, impl, vtk
from ..ob import critical
from ..values import Stream, Item, Rep
from .c15 import terms
from .c27 import sides

NAMES = ('every cell is listed once', 'each line gives the index and the value of one cell')


def run(rep):
    rep.rule('abstract text written by the dump, rendered at valuations line by line: indices listed, value against index')
    tasks = [(nm, solver, mk) for nm, mk in impl.all_impls()]
    prog = drive.program(*drive.LIB)
    tasks += [('filter d=%d' % d, fltr, prog, d) for d in (1, 2, 3)]
    rep.parallel(tasks)


def number(w):
    if len(w) == 1 and isinstance(w[0], vtk.Val):
        return w[0].v
    if all(isinstance(p, str) for p in w):
        try:
            return Fraction(''.join(w))
        except (ValueError, ZeroDivisionError):
            return None
    return None


def console(st, before=None):
    """what has been written to the terminal (since the state before)"""
    out = []
    for r, v in st.store.items():
        if type(v) is Stream and r.name in ('std::cout', 'std::cerr', 'std::clog'):
            b = before.store.get(r) if before is not None else None
            k = len(b.items) if type(b) is Stream and v.items[:len(b.items)] == b.items else 0
            out += v.items[k:]
    return out


def table(items, d):
    """(number of lines, counter, indices, value) where the lines come from one loop that prints every turn"""
    reps = [x for x in items if type(x) is Rep]
    if len(reps) != 1 or not all(type(x) in (Item, Rep) for x in items):
        return None
    R = reps[0]
    if not all(type(x) is Item and x.args and type(x.args[0]) is T.Term for x in R.items):
        return None
    ns = [x for x in R.items if x.args[1] != 'string' and x.args[0].sort in ('i', 'r')]
    if len(ns) <= d:
        return None
    return R.n, R.k, [x.args[0] for x in ns[-1 - d:-1]], ns[-1].args[0]


def rounded(items, d):
    """the number of a cell that is printed with fewer digits than a number of cells can have"""
    prec = False
    for x in items:
        if type(x) is Rep:
            ns = [y for y in x.items if type(y) is Item and y.args and type(y.args[0]) is T.Term and y.args[1] != 'string' and y.args[0].sort in ('i', 'r')]
            for y in ns[-1 - d:-1]:
                ty = str(y.args[1])
                if ty in ('f32', 'f64') and not prec:
                    return y.at, 'printed as a floating point number, with six digits'
                if re.match(r'ftn:[iI]\d+$', ty) and 0 < int(ty[5:]) < 10:
                    return y.at, 'printed in a field of %s characters' % ty[5:]
            prec = prec or rounded(x.items, d) is None and manip(x)
        else:
            prec = prec or manip(x)
    return None


def manip(x):
    # a change of the precision of the stream, or of something else that is not a number or a text
    if type(x) is Item:
        return x.kind != 'out' or not x.args or type(x.args[0]) is not T.Term
    return True


def listed(items, v, d):
    """(indices, value) of every line with at least d + 1 numbers"""
    for l in vtk.Lexer(vtk.pieces(items, v)).lines:
        ns = [x for x in map(number, l) if x is not None]
        if len(ns) > d:
            yield tuple(ns[-1 - d:-1]), ns[-1]


def judge(rep, tag, where, items, d, valuation, proof=None, tries=None, cell=None):
    """valuation(n) -> (values of the symbols, functions, {index: value} to be listed; index None: in this order)"""
    bad, done = {}, 0
    tries = tries or (12 if rep.tier == 'quick' else 80)
    deadline = None
    rep.rng.hints = ()
    for n in range(1, 2 * tries + 1):
        if n == tries + 1:
            # sizes and values at which the program takes another decision
            sizes, T.SPECIAL[:] = critical(list(terms(items)))
            rep.rng.hints = [x for x in sizes if x <= 5000]
            deadline = time.time() + (15 if rep.tier == 'quick' else 120)
        if deadline and (not (rep.rng.hints or T.SPECIAL) or time.time() > deadline):
            break
        r = valuation(n)
        if r is None:
            continue
        env, fs, want = r
        shown = {str(k.args[0]): str(x) for k, x in env.items()}
        try:
            v = T.Valuation(dict(env), n, fs)
            want = want(v)
            got = list(listed(items, v, d))
        except T.Skip:
            continue
        except vtk.Malformed as e:
            bad[NAMES[1]] = {'witness': shown, 'why': str(e)}
            break
        except T.Undefined:
            bad[NAMES[1]] = {'witness': shown, 'why': 'undefined value printed'}
            break
        done += 1
        if isinstance(want, list):
            if len(got) != len(want):
                bad[NAMES[0]] = {'witness': shown, 'why': '%d lines for %d cells' % (len(got), len(want))}
            for k, ((_, x), y) in enumerate(zip(got, want)):
                if not vtk.close(x, y):
                    bad[NAMES[1]] = {'witness': shown, 'why': 'value %d is %s, expected %s' % (k, x, y)}
                    break
        else:
            seen = [i for i, _ in got]
            if sorted(seen) != sorted(want):
                lost = [i for i in want if i not in seen]
                bad[NAMES[0]] = {'witness': shown, 'why': '%d lines for %d cells%s' % (len(got), len(want), ', %s not listed' % (tuple(map(str, lost[0])),) if lost else '')}
            for i, x in got:
                if i in want and not vtk.close(x, want[i]):
                    bad[NAMES[1]] = {'witness': shown, 'why': 'cell %s: %s, expected %s' % (tuple(map(str, i)), x, want[i])}
                    break
        if bad:
            break
    rep.rng.hints = ()
    T.SPECIAL[:] = []
    R = table(items, d)
    few = rounded(items, d)
    if few and not bad:
        bad[NAMES[1]] = {'why': few[1]}
        where = few[0]
    if R and cell and not bad:
        # sizes that are too large to list every line: a line against the cell it is about
        goals, smp = cell(*R)
        if not all(T.same(a, b) for a, b in goals):
            def one(rng, n):
                env, fs = smp(rng, n)
                m = T.Valuation(dict(env), n, fs).ev(R[0])
                if not 1 <= m < 1 << 31:
                    return None
                env[R[1]] = rng.choice([0, m - 1, rng.randrange(m), rng.randrange(m)])
                return env, fs
            r = rep.refute(goals, one)
            if r[0] == 'bad':
                bad[NAMES[1]] = {'witness': r[1], 'computed': ' '.join(T.show(a) for a, _ in goals)[:300], 'specified': ' '.join(T.show(b) for _, b in goals)[:300]}
    proved = proof(*R) if proof and R else ()
    for nm in NAMES:
        if nm in bad:
            rep.bad(tag + nm, where, bad[nm])
        elif bad:
            pass
        elif not done:
            rep.unknown(tag + nm, where, 'no valuation could be rendered')
        elif nm in proved:
            rep.ok(tag + nm, where)
        else:
            rep.add(tag + nm, 'agreed', where, {'valuations': done})


def solver(rep, mk):
    im = mk()
    ms = [m for m in ('print', 'printOut') if im.has(m)]
    if not ms:
        return
    im.arbitrary()
    smp = impl.samples(im)
    base = 1 if isinstance(im, impl.FtnImpl) else 0
    for m in ms:
        c = im.fork()
        c.result(m)
        s = c.s if hasattr(c, 's') else c.U.s

        def valuation(n):
            env, fs = smp(rep.rng, n)
            tot = 1
            for x in im.n:
                tot *= env[x]
            return env, fs, lambda v: {(k + base,): impl.arbitrary(k) for k in range(tot)}

        def proof(n, k, inds, x):
            return [NAMES[0], NAMES[1]] if T.same(n, im.ntot) and T.same(inds[0], T.add(k, T.num(base))) and T.same(x, T.mkapp('F', (k,), 'r')) else ()

        def cell(n, k, inds, x):
            return [(n, im.ntot), (inds[0], T.add(k, T.num(base))), (x, T.mkapp('F', (k,), 'r'))], smp
        judge(rep, '%s: %s: ' % (im.name, m), c.where, console(s.st, (im.s if hasattr(im, 's') else im.U.s).st), 1, valuation, proof, cell=cell)
        c.visited(rep)


def fltr(rep, prog, d):
    reach = [tuple(1 if q == 0 else 0 for q in range(d)), tuple(-1 if q == d - 1 else 0 for q in range(d))]
    if d > 1:
        reach.append(tuple({0: 1, 1: -1}.get(q, 0) for q in range(d)))
    F = filt.Filt(prog, d, [((0,) * d, T.sym('w0', 'r'))] + [(o, T.num(0, 'r')) for o in reach])
    F.call('setInDataByIndices', F.func('U'))
    F.call('applyFilter')
    smp = F.samples()

    def U(*i):
        h = zlib.crc32(repr(tuple(int(x) for x in i)).encode())
        if T.SPECIAL and (h >> 10) % 3 == 0:
            return T.SPECIAL[(h >> 12) % len(T.SPECIAL)]
        return Fraction(h % 199 - 99, 8) if (h >> 20) % 8 else Fraction(0)

    def cells(env, r):
        """global indices of the cells of a rank, last axis fastest"""
        import itertools
        D, L = [env[x] for x in F.D], [env[x] for x in F.L]
        pos = []
        for n in reversed(D):
            pos.append(r % n)
            r //= n
        pos.reverse()
        return list(itertools.product(*[range(p * l, (p + 1) * l) for p, l in zip(pos, L)]))

    def one(m, mk, nums, *a, value=None):
        s = F.s.fork()
        s.call(F.obj, filt.CLS + '::' + m, *[s.box(x) for x in a])

        def valuation(n):
            r = smp(rep.rng, n)
            env = dict(r[0] if isinstance(r, tuple) else r)
            return env, {'U': U}, lambda v: mk(v, env)
        label = m if not a else '%s(%s)' % (m, ','.join(str(x.args[0]) for x in a[0].items))

        def proof(n, k, inds, x):
            return [NAMES[1]] if value is not None and T.same(x, value(T.mkapp('U', tuple(inds), 'r'))) else ()

        def cell(n, k, inds, x):
            def sizes(rng, n):
                r = smp(rng, n)
                return dict(r[0] if isinstance(r, tuple) else r), {'U': U}
            return [(x, value(T.mkapp('U', tuple(inds), 'r')))], sizes
        judge(rep, 'filter d=%d: %s: ' % (d, label), s.where_, console(s.st, F.s.st), nums, valuation, proof, cell=cell if value else None)

    has = lambda m: bool(prog.byq.get(filt.CLS + '::' + m))
    w0 = T.sym('w0', 'r')
    if has('printInData'):
        one('printInData', lambda v, env: {i: U(*i) for i in cells(env, env[F.r])}, d, value=lambda u: u)
    if has('printOutData'):
        one('printOutData', lambda v, env: {i: v.ev(w0) * U(*i) for i in cells(env, env[F.r])}, d, value=lambda u: T.mul(w0, u))
    for sd in sides(F):
        if not has('printSrcDataWindow'):
            break
        k = [int(x.args[0]) for x in sd.items]

        def edge(v, env):
            cs = cells(env, env[F.r])
            lo, hi = cs[0], cs[-1]
            # cells within the width of the exchange buffer (one cell here) of that side
            return {i: U(*i) for i in cs if all(x == 0 or (i[q] == hi[q] if x > 0 else i[q] == lo[q]) for q, x in enumerate(k))}

        def received(v, env):
            cs = cells(env, env[F.r])
            lo, hi = cs[0], cs[-1]
            G = [env[a] * env[b] for a, b in zip(F.D, F.L)]
            mine = [i for i in cs if all(x == 0 or (i[q] == hi[q] if x > 0 else i[q] == lo[q]) for q, x in enumerate(k))]
            # the value received into the place of a cell is the one that cell has on the neighbour
            L = [env[x] for x in F.L]
            return {i: U(*[(y - x * L[q]) % G[q] for q, (y, x) in enumerate(zip(i, k))]) for i in mine}
        one('printSrcDataWindow', edge, d, sd, value=lambda u: u)
        if has('printDstDataWindow'):
            one('printDstDataWindow', received, d, sd)
    rep.visited(F.s.I)
