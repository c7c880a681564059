"""C15: every VTK writer produces a well-formed, consistent file."""
import re
import time
from fractions import Fraction
from .. import term as T
from .. import drive, impl, vtk, acc
from ..ob import critical
from ..values import Vec, Arr, Stream, Unsupported, Item, Alt, Rep

HEAD = re.compile(r'\s*(DIMENSIONS|[XYZ]_COORDINATES|POINTS|CELL_DATA|POINT_DATA)\b')


def narrow(items, line='', exact=False):
    """a count of a header that is printed with fewer digits than counts can have: (line so far, exact, why)"""
    for x in items:
        if type(x) is Alt:
            l1, e1, why = narrow(x.a, line, exact)
            l2, e2, w2 = narrow(x.b, line, exact)
            line, exact = l1, e1 or e2
            if why or w2:
                return line, exact, why or w2
        elif type(x) is Rep:
            line, exact, why = narrow(x.items, line, exact)
            if why:
                return line, exact, why
        elif type(x) is Item and x.kind == 'out' and x.args:
            y = x.args[0]
            s = y
            if type(y) is T.Term and y.op == 'str':
                s = y.args[0]
            if isinstance(s, str):
                line = (line + s).rsplit('\n', 1)[-1][:80]
                continue
            m = HEAD.match(line)
            if not m or 'double' in line or 'float' in line or type(y) is not T.Term or y.sort not in ('i', 'r'):
                line += ' '
                continue
            ty = str(x.args[1]) if len(x.args) > 1 else ''
            if T.is_num(y):
                pass
            elif re.match(r'ftn:[iI]\d+(\.\d+)?$', ty) and 0 < int(ty[5:].split('.')[0]) < 8:
                return line, exact, '%s: a number in a field of %s characters' % (m.group(1), ty[5:])
            elif not exact and (ty in ('f32', 'f64') or re.match(r'py:[^.]*[gG]$', ty)):
                return line, exact, '%s: a number of cells printed as a floating point number, with six digits' % m.group(1)
            line += '0'
        elif type(x) is Item and x.kind == 'fmt':
            exact = True
    return line, exact, None


def run(rep):
    rep.rule('abstract output stream of every writer rendered at valuations of its symbols and matched against the grammar of legacy VTK '
             'files: header order, dimensions, coordinates of the axis listed, cell count, one separated value per cell in storage order')
    tasks = []
    for nm, mk in impl.all_impls():
        tasks.append((nm, solver, mk))
        tasks.append((nm + ' again', solver, mk, True))
    prog = drive.program(*drive.LIB)
    tasks += [('writeVTK d=%d' % d, library, prog, d) for d in (1, 2, 3)]
    tasks += [('writeVTK d=%d again' % d, library, prog, d, {1: 3, 2: 3, 3: 1}[d]) for d in (1, 2, 3)]
    try:
        from . import c15x
        tasks += c15x.tasks()
    except ImportError:
        pass
    rep.parallel(tasks)


def shapes(d, rng, n):
    fixed = {1: [(1,), (2,), (3,), (11,), (20,)], 2: [(1, 1), (1, 3), (3, 1), (2, 5), (4, 3), (5, 2)],
             3: [(1, 1, 1), (2, 3, 4), (4, 3, 2), (3, 1, 2), (1, 2, 3), (2, 2, 3), (5, 2, 1)]}[d]
    if rng.hints:
        h = rng.hint(1)
        g = [rng.choice([1, 1, 2]) for _ in range(d)]
        g[rng.randrange(d)] = -(-h // rng.choice([1, 1, 2]))
        return tuple(g)
    if n <= len(fixed):
        return fixed[n - 1]
    return tuple(rng.choice([1, 2, 3, 4, 5]) for _ in range(d))


def terms(v):
    """all terms of stream items"""
    if type(v) is T.Term:
        yield v
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from terms(x)
    else:
        for k in getattr(v, '__slots__', ()):
            yield from terms(getattr(v, k))


def judge(rep, tag, where, items, valuation, tries=None):
    """items rendered at valuations; valuation(n) -> (values of the symbols, functions, (cells per file axis,
    node coordinates per file axis or None, value of cell k))"""
    tries = tries or (14 if rep.tier == 'quick' else 80)
    names = ('the file is well formed', 'counts agree with the dimensions', 'dimensions are listed in the order in which the data vary',
             'coordinates are those of the axis they are listed under', 'the values are those of the field in storage order')
    bad = {}
    done = 0
    why = narrow(items)[2]
    if why:
        rep.bad(tag + names[0], where, {'why': why})
        return
    rep.rng.hints = ()
    deadline = None
    for n in range(1, tries + 13):
        if n == tries + 1:
            # sizes at which the program takes another decision
            sizes, T.SPECIAL[:] = critical(list(terms(items)))
            rep.rng.hints = [x for x in sizes if x <= 20000]
            deadline = time.time() + (25 if rep.tier == 'quick' else 120)
        if deadline and (not (rep.rng.hints or T.SPECIAL) or time.time() > deadline):
            break
        env, funcs, want = valuation(n)
        shown = {str(k.args[0]): str(x) for k, x in env.items()}
        try:
            v = T.Valuation(dict(env), n, funcs)
            ps = vtk.pieces(items, v)
            F = vtk.parse(ps)
        except vtk.Malformed as e:
            bad[names[0]] = {'witness': shown, 'why': str(e)}
            break
        except (T.Skip, T.Undefined) as e:
            if isinstance(e, T.Undefined):
                bad[names[0]] = {'witness': shown, 'why': 'undefined value printed'}
                break
            continue
        done += 1
        c = vtk.consistent(F)
        if c:
            bad[names[1]] = {'witness': shown, 'why': c}
            break
        cells, coords, data = want
        got = [max(x - 1, 1) for x in F.dims]
        if got != cells:
            bad[names[2]] = {'witness': shown, 'why': 'cells %s, expected %s' % (got, cells)}
            break
        for q in range(3):
            if coords[q] is not None:
                x = vtk.nodes(F, q)
                if len(x) != len(coords[q]) or not all(vtk.close(a, b) for a, b in zip(x, coords[q])):
                    bad[names[3]] = {'witness': shown, 'why': '%s: %s, expected %s' % ('XYZ'[q], [str(y) for y in x], [str(y) for y in coords[q]])}
        if F.kind == 'STRUCTURED_GRID':
            p = vtk.product_points(F)
            if p:
                bad[names[3]] = {'witness': shown, 'why': 'point %d is %s, expected %s' % p}
        for k, x in enumerate(F.data):
            if not vtk.close(x, data(k)):
                bad[names[4]] = {'witness': shown, 'why': 'value %d is %s, expected %s' % (k, x, data(k))}
                break
        if bad:
            break
    rep.rng.hints = ()
    T.SPECIAL[:] = []
    for nm in names:
        if nm in bad:
            rep.bad(tag + nm, where, bad[nm])
        elif bad:
            pass
        elif not done:
            rep.unknown(tag + nm, where, 'no valuation could be rendered')
        else:
            rep.add(tag + nm, 'agreed', where, {'valuations': done})


def solver(rep, mk, again=False):
    im = mk()
    tag = im.name + (': ' if not again else ', second file: ')
    im.arbitrary()
    I = im.s.I if hasattr(im, 's') else im.U.s.I
    mark = acc.marks(I)
    items = im.vtk(again=again) if im.has('saveVTK') else None
    if items is None:
        return
    acc.clean(rep, I, mark, impl.samples(im), tag)
    d = im.d

    def valuation(n):
        n0 = shapes(d, rep.rng, n)
        env = {s: x for s, x in zip(im.n, n0)}
        ln = [Fraction(1 + rep.rng.randrange(5), 1 + rep.rng.randrange(3)) for _ in range(d)]
        env.update(zip(im.len, ln))
        env.update((s, Fraction(rep.rng.choice([-2, -1, 1, 3]))) for s in im.v)
        # the last axis varies fastest: it is the first one of the file
        cells = list(reversed(n0)) + [1] * (3 - d)
        coords = []
        for q in range(d):
            a = d - 1 - q
            coords.append([ln[a] * Fraction(i, n0[a]) for i in range(n0[a] + 1)])
        return env, impl.funcs(d), (cells, coords, impl.arbitrary)

    def valuation2(n):
        # one- and two-dimensional grids may put the degenerate axes first
        env, fs, (cells, coords, f) = valuation(n)
        k = 3 - d
        return env, fs, ([1] * k + cells[:d], [None] * k + coords, f)
    # where a degenerate axis is listed does not matter
    pad = True
    if d < 3:
        try:
            env, fs, _ = valuation(4)
            F = vtk.parse(vtk.pieces(items, T.Valuation(dict(env), 1, fs)))
            pad = F.dims[0] != 1
        except (vtk.Malformed, T.Skip, T.Undefined):
            pass

    def v3(n):
        env, fs, (cells, coords, f) = valuation(n)
        return env, fs, (cells, coords + [None] * (3 - d), f)
    judge(rep, tag, im.where, items, v3 if pad else valuation2)
    im.visited(rep)


def library(rep, prog, d, before=None):
    tag = 'writeVTK d=%d%s: ' % (d, '' if before is None else ' after a file of a grid of %d axes' % before)
    s = drive.Session(prog)
    f = s.fn('writeVTK')
    G = [T.sym('G%d' % i, 'i', lo=1) for i in range(d)]
    lo = [T.sym('xmin%d' % i, 'r') for i in range(d)]
    hi = [T.sym('xmax%d' % i, 'r') for i in range(d)]
    if before is not None:
        H = [T.sym('H%d' % i, 'i', lo=1) for i in range(before)]
        k = T.fresh('k', 'i', lo=0)
        s.I.call(f, None, [s.box(x) for x in (T.string('first.vtk'), Vec(H), Vec([T.sym('otherxmin%d' % i, 'r') for i in range(before)]),
                                              Vec([T.sym('otherxmax%d' % i, 'r') for i in range(before)]),
                                              Arr((T.mul(*H),), (k,), T.mkapp('E', (k,), 'r')), T.string('first'))], s.st)
    old = set(s.st.store)
    k = T.fresh('k', 'i', lo=0)
    fld = Arr((T.mul(*G),), (k,), T.mkapp('F', (k,), 'r'))
    s.I.call(f, None, [s.box(x) for x in (T.string('out.vtk'), Vec(G), Vec(lo), Vec(hi), fld, T.string('field'))], s.st)
    ss = [x for x in vtk.streams(s.st) if x[0] not in old]
    where = drive.loc(f)

    def smp(rng, n):
        env = {x: rng.choice([1, 2, 3, 5]) for x in G}
        env.update((x, Fraction(0)) for x in lo)
        env.update((x, Fraction(1)) for x in hi)
        return env, impl.funcs(d)
    acc.clean(rep, s.I, (0, 0), smp, tag)
    if not rep.expect(tag + 'one file is written', len(ss) == 1, where, {'files': len(ss)}):
        return

    def valuation(n):
        n0 = shapes(d, rep.rng, n)
        a = [Fraction(rep.rng.randrange(-3, 4)) for _ in range(d)]
        b = [x + 1 + rep.rng.randrange(3) for x in a]
        env = dict(zip(G, n0))
        env.update(zip(lo, a))
        env.update(zip(hi, b))
        coords = [[a[q] + (b[q] - a[q]) * Fraction(i, n0[q]) for i in range(n0[q] + 1)] for q in range(d)]
        return env, impl.funcs(d), (list(n0) + [1] * (3 - d), coords + [None] * (3 - d), impl.arbitrary)
    judge(rep, tag, where, ss[0][1].items, valuation)
    rep.visited(s.I)
