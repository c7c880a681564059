"""C14: options are honoured, parsing failures are reported and start no computation."""
from .. import term as T
from .. import drv, upw, fdrv, pdrv, impl, matm
from ..drv import count
from ..values import Stream, Item, Alt, Rep, Choice, State
from ..cxxlib import RANK, rank_of
from .c12 import OK, NS, elems

PARSE, HELP = T.sym('parse_ok', 'b'), T.sym('opt:-h', 'b')
WORK = ('construct', 'advect', 'apply', 'copy', 'init', 'save', 'checksum', 'std')


def run(rep):
    rep.rule('def-use of the option table over the event trace of main(); value flow from each option to events and output; '
             'no solver event on any path where parsing failed or help was asked for')
    tasks = [(nm, one, nm) for nm in drv.DRIVERS]
    tasks += [('python ' + nm, fortran, pdrv, 'python', nm) for nm in pdrv.PROGS]
    tasks += [('fortran ' + nm, fortran, fdrv, 'fortran', nm) for nm in impl.FTN] + [('fortran matmult', matmult)]
    rep.parallel(tasks)


def terms(items):
    for it in items:
        if type(it) is Item:
            for a in it.args:
                yield from vterms(a)
        elif type(it) is Alt:
            yield it.c
            yield from terms(it.a)
            yield from terms(it.b)
        elif type(it) is Rep:
            yield it.n
            yield from terms(it.items)


def vterms(a):
    from ..values import vmap, VALTYPES
    out = []

    def f(t):
        out.append(t)
        return t
    if isinstance(a, VALTYPES):
        vmap(a, f)
    return out


def always(rep, name, found, where, why):
    """one of the events happens whatever the symbols are"""
    if not rep.expect(name, bool(found), where, why):
        return False
    return rep.holds(name + ' in every case', T.lor(*[T.land(*c) for it, c, l in found]), where)


def never(rep, name, found, where, why):
    if not found:
        return rep.ok(name, where)
    return rep.holds(name, T.lnot(T.lor(*[T.land(*c) for it, c, l in found])), where)


def alive(P, pc):
    """ends of the program that are consistent with pc"""
    for st in P.ends:
        cs = [st.simp(c) for c in pc]
        q = [T.FALSE if c is T.FALSE else State({}, tuple(pc)).simp(c) for c in st.pc]
        if T.FALSE not in cs and T.FALSE not in q:
            yield st


def fortran(rep, mod, lang, nm):
    """positional arguments: cells, steps (default 100), 'vtk'"""
    tag = '%s %s: ' % (lang, nm)
    FC, FS = fdrv.NC, fdrv.NS
    V = T.eq(fdrv.A3, T.string('vtk'))
    smp = fdrv_samples
    # Python message-passing program: with a decomposition, on the root
    ROOT = (T.sym('decomp_valid', 'b'), T.eq(RANK, T.ZERO)) if lang == 'python' else ()
    for nargs in (3, 2, 1):
        P = mod.load(nm, nargs)
        tg = tag + '%d arguments: ' % nargs
        if not rep.expect(tg + 'the program runs to its end', P.st is not None, P.where, 'it stops'):
            continue
        c = list(drv.flat(P.trace(*ROOT), ('construct',)))
        if rep.expect(tg + 'a solver is built', bool(c), P.where, 'no solver is built'):
            for i, x in enumerate(elems(c[0][0].args[2])):
                rep.eq(tg + 'the first argument sets the number of cells of axis %d' % i, x, FC, c[0][0].at, smp)
        if nargs > 1:
            rep.eq(tg + 'the second argument sets the number of steps', count(P.trace(*ROOT), 'advect'), FS, P.where, smp)
        if nargs < 3:
            rep.eq(tg + 'no file is written', count(P.trace(*ROOT), 'save'), T.ZERO, P.where, smp)
            rep.visited(P.s.I)
            continue
        rep.eq(tg + 'no file is written when the third is not vtk', count(P.trace(T.lnot(V), *ROOT), 'save'), T.ZERO, P.where, smp)
        saves = list(drv.flat(P.trace(V, *ROOT), ('save',)))
        if rep.expect(tg + 'a file is written when the third is vtk', bool(saves) and not saves[-1][1], P.where, 'no file is written'):
            rep.eq(tg + 'the file holds the final field', saves[-1][0].args[1], FS, saves[-1][0].at, smp)
        rep.visited(P.s.I)
    P = mod.load(nm, 0)
    quiet_stop(rep, tag + 'no arguments: ', P, list(P.ends), ())
    for q, what in ((1, 'number of cells'), (2, 'number of steps')):
        P = mod.load(nm, 2, (q,))
        A = (fdrv.A1, fdrv.A2)[q - 1]
        pc = (T.lnot(T.mkapp('isnumber', (A,), 'b')), T.lnot(T.eq(T.mkapp('ioerror', (A,), 'i'), T.ZERO)))
        quiet_stop(rep, tag + '%s is not an integer: ' % what, P, list(alive(P, pc)), pc)
        for n, p, w in getattr(P.s.I, 'badread', ()):
            rep.bad(tag + 'the %s is checked for being an integer' % what, w, 'a read without status ends the program')


def fdrv_samples(rng, k):
    from .. import scen
    env, fs = scen.fsamples(rng, k)
    return env, fs


def quiet_stop(rep, tag, P, ends, pc):
    if not rep.expect(tag + 'the program ends', bool(ends), P.where, 'it does not end'):
        return
    said, work = False, []
    for st in ends:
        work += [it for it, c, l in drv.flat(P.trace(*pc, st=st), WORK)]
        for nm in ('std::cerr', 'std::cout'):
            said = said or any(not x[1] for x in drv.flat(P.stream(nm, *pc, st=st), ('out',))
                               if x[0].args[0].op != 'str' or len(x[0].args[0].args[0].strip()) > 3)
    rep.expect(tag + 'no computation is started', not work, work[0].at if work else P.where, repr(work[:1])[:300])
    rep.expect(tag + 'it is reported', said, P.where, 'nothing is printed')
    rep.visited(P.s.I)


def matmult(rep):
    """positional arguments: rows of the first factor, inner dimension, columns of the second; others are ignored, missing ones have defaults"""
    default = {}
    for nargs in (0, 1, 2, 3):
        P = matm.Main(nargs, (), True)
        tag = 'matmult, %d arguments: ' % nargs
        if not rep.expect(tag + 'the program multiplies', bool(P.calls), P.where, 'no multiplication is run'):
            continue
        for u, v in P.calls:
            ext = (v[0].shape[0], v[0].shape[1], v[1].shape[1])
            for i, (x, a) in enumerate(zip(ext, (matm.N, matm.M, matm.L))):
                if i < nargs:
                    rep.eq(tag + '%s: argument %d sets its extent' % (u.name, i + 1), x, a, P.where, matm.samples())
                elif (u.name, i) in default:
                    rep.eq(tag + '%s: default of extent %d' % (u.name, i + 1), x, default[u.name, i], P.where, matm.samples())
                else:
                    default[u.name, i] = x
        rep.visited(P.s.I)
    for q in (1, 2, 3):
        P = matm.Main(3, (q,), True)
        for n, p, w in getattr(P.s.I, 'badread', ()):
            rep.bad('matmult: argument %d is checked for being an integer' % q, w, 'a read without status ends the program')


def one(rep, nm):
    P = drv.load(nm, {'-numDims': T.num(2)} if nm == 'laplacian' else None)
    tag = nm + ': '
    # ---- option table
    ev = [(it, conds) for it, conds, loops in drv.flat(P.trace(), ('opt_set', 'opt_get', 'parse'))]
    reg = {'-h': 'bool'}
    used = set()
    parsed = False
    for it, conds in ev:
        if it.kind == 'opt_set':
            name = it.args[1].args[0]
            rep.expect(tag + 'option %s is registered before parsing' % name, not parsed, it.at, 'registered after parse')
            rep.expect(tag + 'option %s is registered once' % name, name not in reg, it.at, 'registered twice')
            reg[name] = it.args[0]
        elif it.kind == 'parse':
            parsed = True
            rep.expect(tag + 'the argument vector of main is parsed', len(it.args) == 2 and it.args[0] is T.sym('argc', 'i', lo=1),
                       it.at, 'other arguments')
        else:
            name = it.args[1].args[0]
            used.add(name)
            rep.expect(tag + 'option %s is queried as registered' % name, reg.get(name) == it.args[0], it.at,
                       'queried as %s, registered as %s' % (it.args[0], reg.get(name)))
            rep.expect(tag + 'option %s is queried after parsing' % name, parsed, it.at, 'queried before parse')
    rep.expect(tag + 'the command line is parsed', parsed, P.where, 'parse is never called')
    for name in reg:
        rep.expect(tag + 'registered option %s is used' % name, name in used, P.where, 'never queried')
    # ---- value flow
    leaves = set()
    for src in (P.trace(), P.stream('std::cout'), P.stream('std::cerr')):
        for t in terms(src):
            leaves |= T.syms_of(t)
    have = {x.args[0] for x in leaves if x.op == 'sym'}
    for name in reg:
        if name == '-numDims':
            # followed by giving it different values
            ax = set()
            for d in (1, 2, 3):
                Q = drv.load(nm, {'-numDims': T.num(d)})
                for it, c, l in drv.flat(Q.trace(*OK), ('construct',)):
                    from ..values import vlen
                    ax.add((d, T.show(vlen(it.args[0]))))
            rep.expect(tag + 'number of axes follows -numDims', ax == {(1, '1'), (2, '2'), (3, '3')}, P.where, sorted(ax))
            continue
        rep.expect(tag + 'the value of %s has an effect' % name, 'opt:' + name in have or not used.issuperset({name}), P.where,
                   'the value reaches no solver call, output or branch')
    # ---- flags: writing a file, printing the spread
    if '-vtk' in reg:
        V = T.sym('opt:-vtk', 'b')
        for st in P.ends:
            rep.eq(tag + 'no file is written without -vtk', count(P.trace(*OK, T.lnot(V), st=st), 'save'), T.ZERO, P.where)
            saves = list(drv.flat(P.trace(*OK, V, st=st), ('save',)))
            if nm in drv.MPI_DRIVERS:
                fin = [x for x in saves if not x[2]]
            else:
                fin = saves
            if always(rep, tag + 'a file is written with -vtk', fin[-1:], P.where, 'saveVTK is not called'):
                last = fin[-1][0]
                want = T.num(10) if nm == 'laplacian' else NS
                rep.eq(tag + 'the file holds the final field', last.args[1], want, last.at, None, [T.lt(T.ZERO, NS)])
    if '-std' in reg:
        S = T.sym('opt:-std', 'b')
        root = [T.eq(rank_of(P.s.I), T.ZERO)]

        def spread(*pc):
            return [x for x in drv.flat(P.stream('std::cout', *OK, *root, *pc), ('out',))
                    if any(y.op == 'app' and y.args[0] == 'std' for a in x[0].args for z in vterms(a) for y in T.walk(z))]
        always(rep, tag + 'the spread is printed with -std', spread(S), P.where, 'not printed')
        never(rep, tag + 'the spread is not printed without -std', spread(T.lnot(S)), P.where, 'printed')
    # ---- failures
    for name, pc in (('parsing failed', (T.lnot(PARSE),)), ('help was requested', (PARSE, HELP))):
        for st in P.ends:
            tr = P.trace(*pc, st=st)
            w = [it for it, c, l in drv.flat(tr, WORK)]
            rep.expect(tag + 'no computation is started when %s' % name, not w, w[0].at if w else P.where, repr(w[:1]))
        if not P.ends:
            rep.unknown(tag + name, P.where, 'main does not end')
    pc = [T.lnot(PARSE)]
    r0 = [T.eq(rank_of(P.s.I), T.ZERO)]
    out = list(drv.flat(P.stream('std::cerr', *pc, *r0), ('out',))) + list(drv.flat(P.stream('std::cout', *pc, *r0), ('out',)))
    always(rep, tag + 'a parsing failure is reported', out, P.where, 'nothing is printed')
    hp = list(drv.flat(P.trace(PARSE, HELP), ('help',)))
    always(rep, tag + 'help is printed on request', hp, P.where, 'help() is not called')
    rep.visited(P.s.I)
