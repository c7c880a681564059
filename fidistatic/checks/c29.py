"""C29: what concerns the whole of a distributed run is printed by the root alone."""
from .. import term as T
from .. import drive, drv, pdrv, filt, impl
from ..cxxlib import RANK, rank_of
from ..drv import smap
from ..values import Item, Alt, FnV, Stream
from .c12 import OK

OUT = ('std::cout', 'std::cerr')


def run(rep):
    rep.rule('abstract terminal output of every distributed program and of the library below it, on a rank other than the root: '
             'nothing is written but lines that carry the number of the rank')
    prog = drive.program(*drive.LIB)
    tasks = [('program ' + nm, driver, nm) for nm in drv.MPI_DRIVERS]
    tasks += [('filter d=%d' % d, library, prog, d) for d in (1, 2, 3)]
    tasks += [('python upwindMPI', pymain), ('python upwindMPI solver', pysolver)]
    rep.parallel(tasks)


def text(v):
    return v.args[0] if type(v) is T.Term and v.op == 'str' else None


def lines(items, conds=()):
    """(run of items between line ends, its conditions); what a repetition or a branch writes counts as lines of its own"""
    cur = []
    for it in items:
        if type(it) is Item:
            if it.kind == 'out':
                cur.append(it)
                if ends(it):
                    yield cur, conds
                    cur = []
            continue
        closed = False
        for x, c in ((it.a, (it.c,)), (it.b, (T.lnot(it.c),))) if type(it) is Alt else ((it.items, ()),):
            ls = list(lines(x, conds + c))
            for k, (l, cs) in enumerate(ls):
                # the line goes on inside the branch
                yield (cur + l if k == 0 else l), cs
            closed = closed or any(ends(y) for y in x if type(y) is Item)
        if closed:
            cur = []
    if cur:
        yield cur, conds


def ends(it):
    t = text(it.args[0]) if it.args else None
    return t is not None and t.endswith('\n') or bool(it.args) and type(it.args[0]) is FnV


def tagged(line, rank):
    # a number of the rank, not a result that differs between ranks
    return any(type(a) is T.Term and a.sort == 'i' and rank in T.syms_of(a) for it in line for a in it.args)


def blank(line):
    return all(text(it.args[0]) is not None and not text(it.args[0]).strip() for it in line if it.args)


def silent(rep, name, where, streams, rank):
    """streams: [items] of any rank"""
    q = T.fresh('other', 'i', lo=0)
    streams = [smap(s, lambda t: T.subst(t, {rank: T.add(T.ONE, q)})) for s in streams]
    rank = q
    bad = [(l, c) for s in streams for l, c in lines(s) if not tagged(l, rank) and not blank(l)]
    for l, c in bad:
        what = ' '.join(text(i.args[0]) or T.show(i.args[0]) if type(i.args[0]) is T.Term else repr(i.args[0]) for i in l)[:150]
        if not c:
            rep.bad(name, l[0].at, 'written by ranks other than the root: ' + what)
        elif rep.holds(name, T.lnot(T.land(*c)), l[0].at, None):
            continue
        return
    rep.ok(name, where)


def driver(rep, nm):
    P = drv.load(nm, {'-numDims': T.num(2)} if nm == 'laplacian' else None)
    r = rank_of(P.s.I)
    for st in P.ends:
        streams = lambda *pc: [P.stream(o, *pc, st=st) for o in OUT]
        silent(rep, '%s: a run is reported by the root alone' % nm, P.where, streams(*OK), r)
        silent(rep, '%s: a decomposition that is not possible is reported by the root alone' % nm, P.where,
               streams(*[T.lnot(c) if 'valid' in T.show(c) else c for c in OK]), r)
        silent(rep, '%s: a command line that cannot be parsed is reported by the root alone' % nm, P.where,
               streams(T.lnot(T.sym('parse_ok', 'b'))), r)
    if not P.ends:
        rep.unknown('%s: output' % nm, P.where, 'main does not end')
    rep.visited(P.s.I)


def library(rep, prog, d):
    u = lambda q, x: tuple(x if p == q else 0 for p in range(d))
    F = filt.Filt(prog, d, [((0,) * d, T.sym('w0', 'r')), (u(0, 1), T.sym('w1', 'r')), (u(d - 1, -1), T.sym('w2', 'r')), (u(0, 2), T.sym('w3', 'r'))])

    def check(what):
        out = [v.items for k, v in F.s.st.store.items() if type(v) is Stream and k.name in OUT]
        silent(rep, 'filter d=%d: %s writes nothing on other ranks' % (d, what), F.s.where_, out, F.r)
        for k, v in list(F.s.st.store.items()):
            if type(v) is Stream and k.name in OUT:
                F.s.st.store[k] = Stream()
    check('construction')
    F.call('setInDataByIndices', F.func('U'))
    check('setInDataByIndices')
    F.call('applyFilter')
    check('applyFilter')
    F.call('copyOutToIn')
    check('copyOutToIn')
    F.call('computeCheckSum', F.s.box(T.string('output')))
    check('computeCheckSum')
    F.call('saveVTK', F.s.box(T.string('out.vtk')))
    check('saveVTK')
    rep.visited(F.s.I)


def pymain(rep):
    for n in (3, 2, 1):
        P = pdrv.load('upwindMPI', n)
        pc = (T.sym('decomp_valid', 'b'),)
        silent(rep, 'python upwindMPI, %d arguments: a run is reported by the root alone' % n, P.where, [P.stream(o, *pc) for o in OUT], RANK)
        rep.visited(P.s.I)


def pysolver(rep):
    im = impl.PyMpi()

    def check(what):
        out = [v.items for k, v in im.s.st.store.items() if type(v) is Stream and k.name in OUT]
        silent(rep, 'python upwindMPI: %s writes nothing of the whole run on other ranks' % what, im.where, out, im.rank)
        for k, v in list(im.s.st.store.items()):
            if type(v) is Stream and k.name in OUT:
                im.s.st.store[k] = Stream()
    check('construction')
    im.s.call(im.obj, 'advect', T.sym('dt', 'r', lo=0))
    check('advect')
    im.s.call(im.obj, 'checksum')
    check('checksum')
    im.s.call(im.obj, 'gatherRoot')
    check('gatherRoot')
    im.visited(rep)
