"""C27: observing a simulation leaves it unchanged."""
from .. import term as T
from .. import drive, filt, impl
from ..values import Arr, Vec, Obj, Ptr, Choice, MapV, Term, Unsupported, vlen, step_get
from .c05 import stencils

OBS = ('checksum', 'std', 'print', 'printOut', 'saveVTK', 'gatherRoot')


def run(rep):
    rep.rule('real data reachable from the object before and after each observer (check sum, spread, text dump, file output); '
             'continuation of the run from both states compared')
    tasks = [(nm, solver, mk) for nm, mk in impl.all_impls()] + [('python upwindMPI', solver, impl.PyMpi)]
    prog = drive.program(*drive.LIB)
    tasks = [('filter d=%d %d' % (d, k + 1), fltr, prog, d, k) for d in (3, 2, 1) for k in range(len(SEQ))] + tasks
    rep.parallel(tasks)


# --------------------------------------------------------------- what an object holds
def reals(st, v, path, seen, out, depth=0):
    """(path, real term or array) held by a value"""
    if depth > 8:
        return
    if isinstance(v, Term):
        if v.sort == 'r':
            out[path] = v
    elif type(v) is Arr:
        if isinstance(v.body, Term) and v.body.sort == 'r':
            out[path] = v
    elif type(v) is Vec:
        for i, x in enumerate(v.items):
            reals(st, x, path + (i,), seen, out, depth + 1)
    elif type(v) is Obj:
        for k, x in v.f.items():
            reals(st, x, path + (k,), seen, out, depth + 1)
    elif type(v) is MapV:
        for k, x in zip(v.keys, v.vals):
            reals(st, x, path + (str(k),), seen, out, depth + 1)
    elif type(v) is Ptr and v.root in st.store and v.root not in seen:
        seen.add(v.root)
        reals(st, st.store[v.root], path + ('*',), seen, out, depth + 1)


def held(s, obj):
    out = {}
    reals(s.st, obj if type(obj) is Ptr else Ptr(obj), (), set(), out)
    return out


def differences(a, b):
    """(path, before, after) of what may have changed"""
    for p, x in a.items():
        y = b.get(p)
        if y is x:
            continue
        yield p, x, y


def compare(rep, name, a, b, where, smp):
    """one obligation: no real datum differs"""
    bad = None
    todo = []
    for p, x, y in differences(a, b):
        if y is None or type(x) is not type(y):
            todo.append((p, None, None))
        elif type(x) is Arr:
            if len(x.ks) != len(y.ks):
                todo.append((p, None, None))
                continue
            q = [T.fresh('q', 'i', lo=0, ub=n) for n in x.shape]
            for n, m in zip(x.shape, y.shape):
                todo.append((p, n, m))
            todo.append((p, T.subst(x.body, dict(zip(x.ks, q))), T.subst(y.body, dict(zip(y.ks, q)))))
        else:
            todo.append((p, x, y))
    if not todo:
        rep.ok(name, where)
        return
    for p, x, y in todo:
        t = name + ': ' + '.'.join(str(z) for z in p if z != '*')
        if x is None:
            rep.unknown(t, where, 'held differently afterwards')
        else:
            rep.eq(t, y, x, where, smp)


# --------------------------------------------------------------- solvers
def observe(im, m):
    s = im.s if hasattr(im, 's') else im.U.s
    obj = im.obj if hasattr(im, 'obj') else im.U.obj
    if hasattr(s.I, 'files'):
        s.I.files = {}
    if m != 'saveVTK':
        im.result(m)
    elif isinstance(im, impl.CxxImpl):
        s.call(obj, im.cls + '::saveVTK', s.box(T.string('out.vtk')))
    elif isinstance(im, impl.FtnImpl):
        s.call(im.procs['savevtk'], obj, s.box(T.string('out.vtk')))
    else:
        s.call(obj, 'saveVTK', T.string('out.vtk'))
    im.where = s.where_
    return True


def solver(rep, mk):
    im = mk()
    tag = im.name + ': '
    dt = T.sym('dt', 'r', lo=0)
    if isinstance(im, impl.PyMpi):
        j, smp = im.i, im.samples(dt)
    else:
        j = T.fresh('cell', 'i', lo=0, ub=im.ntot)
        smp = impl.samples(im, j, None, dt)
    im.arbitrary()
    plain = im.fork()
    plain.steps(1, dt)
    # once more after a step, when scratch arrays hold something
    for when, base in (('an arbitrary state', im), ('a step', plain)):
        S = lambda x: x.s if hasattr(x, 's') else x.U.s
        O = lambda x: x.obj if hasattr(x, 'obj') else x.U.obj
        before = held(S(base), O(base))
        nxt = base.fork()
        nxt.steps(1, dt)
        for m in OBS:
            if not base.has(m):
                continue
            c = base.fork()
            if not rep.guard(tag + m, observe, c, m):
                continue
            where = c.where
            compare(rep, tag + '%s after %s leaves the data as they were' % (m, when), before, held(S(c), O(c)), where, smp)
            c.steps(1, dt)
            rep.eq(tag + 'the step after %s after %s is the same' % (m, when), c.cell(j), nxt.cell(j), where, smp, (), None, None, True)
            c.visited(rep)


# --------------------------------------------------------------- distributed filter
SEQ = ('setInDataByIndices', 'applyFilter', 'copyOutToIn', 'applyFilter')


def sides(F):
    for x in F.value().f.values():
        if type(x) is MapV and x.keys and type(x.keys[0]) is tuple and len(x.keys[0]) == F.d:
            return [Vec([T.num(int(y)) for y in k]) for k in x.keys if any(int(y) for y in k)]
    return []


def observers(F, n):
    """(name, call) of what reports about a filter"""
    s = F.s
    has = lambda m: bool(F.prog.byq.get(filt.CLS + '::' + m))
    out = []
    for w in ('input', 'output'):
        if has('computeCheckSum'):
            out.append(('computeCheckSum(%s)' % w, lambda f, w=w: f.call(F.obj, filt.CLS + '::computeCheckSum', f.box(T.string(w)))))
    for m in ('printInData', 'printOutData', 'isDecompValid', 'getRank', 'getNumRanks'):
        if has(m):
            out.append((m, lambda f, m=m: f.call(F.obj, filt.CLS + '::' + m)))
    if has('saveVTK'):
        out.append(('saveVTK', lambda f: f.call(F.obj, filt.CLS + '::saveVTK', f.box(T.string('out.vtk')))))
    for m in ('printSrcDataWindow', 'printDstDataWindow'):
        if has(m):
            for sd in sides(F)[:n]:
                nm = '%s(%s)' % (m, ','.join(str(x.args[0]) for x in sd.items))
                out.append((nm, lambda f, m=m, sd=sd: f.call(F.obj, filt.CLS + '::' + m, f.box(sd))))
    return out


def fltr(rep, prog, d, at):
    tag = 'filter d=%d: ' % d
    offs = dict(stencils(d, 'quick'))['star']
    F = filt.Filt(prog, d, [(o, T.sym('w%d' % i, 'r')) for i, o in enumerate(offs)])

    def apply(s, m, k):
        a = (F.func('U'),) if m.startswith('setIn') else ()
        s.call(F.obj, filt.CLS + '::' + m, *a)
    smp = F.samples()

    def fields(s):
        o = s.I.load(F.obj, s.st)
        for w in ('input', 'output'):
            keep, F.s = F.s, s
            try:
                nm, v = F.field(w)
            finally:
                F.s = keep
            if nm:
                yield w, v
    for k in range(at):
        apply(F.s, SEQ[k], k)
    # any values: what has been computed so far must not matter
    F.forget('output', 'Out')
    obs = observers(F, 6 if at < 2 else 2)
    rep.expect(tag + 'there is something to observe', len(obs) > 4, F.where, [n for n, _ in obs])
    for k, m in ((at, SEQ[at]),):
        base = F.s.fork()
        apply(F.s, m, k)
        want = list(fields(F.s))
        before = held(base, F.obj)
        together = base.fork()
        for nm, call in obs:
            f = base.fork()
            ok = [False]

            def go():
                call(f)
                call(together)
                ok[0] = True
            rep.guard(tag + nm, go)
            if ok[0]:
                compare(rep, tag + '%s before %s (call %d) leaves the data as they were' % (nm, m, k + 1), before, held(f, F.obj), f.where_, smp)
        apply(together, m, k)
        for (w, x), (_, y) in zip(want, fields(together)):
            q = T.fresh('q', 'i', lo=0, ub=x.shape[0])
            rep.eq(tag + '%s field after call %d (%s), observed or not' % (w, k + 1, m), T.subst(y.body, {y.ks[0]: q}),
                   T.subst(x.body, {x.ks[0]: q}), together.where_, smp)
        rep.visited(F.s.I)
