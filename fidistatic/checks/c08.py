"""C08: MPI and window resources are acquired and released exactly once, in order."""
from .. import term as T
from .. import drive, filt, drv
from ..drv import count
from ..values import Ptr, Alt, Rep, Item
from ..cxx import TRACE
from .c05 import stencils

USES = ('construct', 'destroy', 'apply', 'checksum', 'save', 'init', 'copy', 'print')


def run(rep):
    rep.rule('typestate of every window and buffer over the ordered event log of the life of a filter; initialise / finalise protocol on '
             'every exit path of the distributed programs')
    prog = drive.program(*drive.LIB)
    tasks = []
    for d in (1, 2, 3):
        for nm, offs in stencils(d, rep.tier):
            tasks.append(('filter d=%d %s' % (d, nm), library, prog, d, nm, offs))
    tasks.append(('no window needed', library, prog, 2, 'centre only', [(0, 0)]))
    tasks.append(('invalid decomposition', invalid, prog, 2))
    for nm in drv.MPI_DRIVERS:
        tasks.append((nm, driver, nm))
    tasks.append(('python upwindMPI', python))
    rep.parallel(tasks)


def sides(offs):
    return {tuple((x > 0) - (x < 0) for x in o) for o in offs if any(o)}


def root(p):
    return p.root if type(p) is Ptr else None


def library(rep, prog, d, nm, offs):
    tag = 'filter d=%d %s: ' % (d, nm)
    w = [T.sym('w%d' % i, 'r') for i in range(len(offs))]
    F = filt.Filt(prog, d, list(zip(offs, w)))
    I = F.s.I
    F.call('setInDataByIndices', F.func('U'))
    F.call('applyFilter')
    F.call('copyOutToIn')
    F.call('applyFilter')
    log = list(I.accesses)
    ev0 = [a for a in drv.flat(F.s.st.store[TRACE].items, ('mpi',))]
    F.s.destroy(F.obj, filt.CLS)
    life(rep, tag, F, I.accesses, offs)
    rep.visited(I)


CALLS = ('MPI_Alloc_mem', 'MPI_Free_mem', 'MPI_Win_create', 'MPI_Win_free', 'MPI_Win_fence', 'MPI_Get')


def life(rep, tag, F, log, offs):
    cond = [a for a in log if a[0] == 'mpi' and a[1].args[0] in CALLS and (a[6] or a[7])]
    if not cond:
        judge(rep, tag, F, log, offs)
        return
    if any(a[7] for a in cond):
        rep.unknown(tag + 'life cycle', cond[0][1].at, 'repeated acquisition / release')
        return
    # the calls depend on the configuration: follow the history on concrete ones
    reach = [max([abs(o[i]) for o in offs] + [1]) for i in range(F.d)]

    def extra(rng, n, env):
        for l, h in zip(F.L, reach):
            env[l] = max(env[l], h)
    smp = F.samples(extra)
    pcs = {a[6] for a in log if a[0] not in ('begin', 'end', 'omp')}
    done = 0
    for n in range(1, 60 if rep.tier == 'quick' else 400):
        try:
            r = smp(rep.rng, n)
            env, fs = r if isinstance(r, tuple) else (r, None)
            v = T.Valuation(dict(env), n * 17 + rep.seed, fs)
            on = {pc: all(v.ev(p) for p in pc) for pc in pcs if any(a[6] is pc for a in cond)}
            sub = [a for a in log if a[0] not in ('begin', 'end', 'omp') and on.get(a[6], True)]
        except T.Skip:
            continue
        done += 1
        q = Quiet()
        judge(q, tag, F, sub, offs)
        if q.found:
            from ..ob import show_env
            name, wh, detail = q.found[0]
            rep.bad(name, wh, {'configuration': show_env({k: x for k, x in v.env.items() if isinstance(k, T.Term)}), 'what': detail}, key=name)
            return
    if done:
        rep.add(tag + 'windows and buffers are acquired and released exactly once', 'agreed', F.where, {'valuations': done})
    else:
        rep.unknown(tag + 'life cycle', cond[0][1].at, 'no configuration could be evaluated')


class Quiet:
    """collects the violations of one concrete history"""

    def __init__(self):
        self.found, self.obs = [], []

    def bad(self, name, where, detail=None, key=None):
        self.found.append((name, where, detail))

    def unknown(self, *a):
        pass

    def ok(self, *a):
        pass

    def expect(self, name, cond, where='', detail=None, key=None):
        if not cond:
            self.bad(name, where, detail)


def judge(rep, tag, F, log, offs):
    mem, win = {}, {}
    where = F.where
    for a in log:
        if a[0] != 'mpi':
            # use of released memory
            m = mem.get(a[1])
            if m is not None and m['freed']:
                rep.bad(tag + 'memory is not used after its release', a[8], {'buffer': a[1].name, 'released at': m['freed'][0]})
            continue
        it = a[1]
        nm = it.args[0]
        if nm not in CALLS:
            continue
        r = root(it.args[1])
        if nm == 'MPI_Alloc_mem':
            mem[r] = {'at': it.at, 'freed': [], 'wins': []}
        elif nm == 'MPI_Win_create':
            b = root(it.args[2])
            win[r] = {'at': it.at, 'freed': [], 'base': b}
            if b in mem:
                mem[b]['wins'].append(r)
                if mem[b]['freed']:
                    rep.bad(tag + 'a window exposes live memory', it.at, 'memory already released')
            elif b is None:
                rep.unknown(tag + 'window memory', it.at, 'not resolved')
        elif nm == 'MPI_Win_free':
            if r in win:
                win[r]['freed'].append(it.at)
            elif r is None:
                rep.unknown(tag + 'window freed', it.at, 'handle not resolved')
            else:
                rep.bad(tag + 'only windows that were created are freed', it.at, r.name)
        elif nm == 'MPI_Free_mem':
            if r in mem:
                mem[r]['freed'].append(it.at)
                for x in mem[r]['wins']:
                    if not win[x]['freed']:
                        rep.bad(tag + 'a window is freed before its memory', it.at, {'window created at': win[x]['at']})
            elif r is None:
                rep.bad(tag + 'only allocated memory is released', it.at, 'null or unknown pointer')
        elif r in win and win[r]['freed']:
            rep.bad(tag + 'a window is not used after it has been freed', it.at, r.name)
    n = len(sides(offs))
    rep.expect(tag + 'one window per side', len(win) == n, where, {'windows': len(win), 'sides': n})
    rep.expect(tag + 'two buffers per side', len(mem) == 2 * n, where, {'buffers': len(mem), 'sides': n})
    bases = [x['base'] for x in win.values()]
    rep.expect(tag + 'every window exposes memory of its own', len(set(bases)) == len(bases), where, 'shared memory')
    for r, x in win.items():
        rep.expect('%swindow %s is freed exactly once' % (tag, r.name), len(x['freed']) == 1, x['at'], {'freed': x['freed']})
    for r, x in mem.items():
        rep.expect('%sbuffer %s is released exactly once' % (tag, r.name), len(x['freed']) == 1, x['at'], {'released': x['freed']})
    if not any(o['status'] == 'violated' and o['name'].startswith(tag) for o in rep.obs):
        rep.ok(tag + 'release order and use after release', where)


def invalid(rep, prog, d):
    """without a decomposition nothing is created and nothing is freed twice"""
    offs = dict(stencils(d, 'quick'))['star']
    tag = 'invalid decomposition: '
    F = filt.Filt(prog, d, [(o, T.sym('w', 'r')) for o in offs], T.FALSE)
    F.s.destroy(F.obj, filt.CLS)
    ev = [it for it, c, l in drv.flat(F.s.st.store[TRACE].items, ('mpi',))]
    bad = [it for it in ev if it.args[0] in ('MPI_Free_mem', 'MPI_Win_free')]
    made = {root(it.args[1]) for it in ev if it.args[0] in ('MPI_Alloc_mem', 'MPI_Win_create')}
    rel = [root(it.args[1]) for it in bad]
    rep.expect(tag + 'released exactly what was acquired', sorted(map(str, made)) == sorted(map(str, rel)), F.where,
               {'acquired': len(made), 'released': len(rel)})
    v = F.call('isDecompValid')
    rep.expect(tag + 'the filter reports it', v is T.FALSE, F.where, repr(v))
    rep.visited(F.s.I)


def driver(rep, nm):
    P = drv.load(nm, {'-numDims': T.num(2)} if nm == 'laplacian' else None)
    rep.expect(nm + ': main ends', bool(P.ends), P.where, 'no exit path found')
    smp = None
    for q, st in enumerate(P.ends):
        tag = '%s%s: ' % (nm, '' if len(P.ends) == 1 else ' exit %d' % (q + 1))
        tr = P.trace(st=st)
        fl = list(drv.flat(tr))
        if any(it.kind == 'mpi' and it.args[0] == 'MPI_Abort' for it, c, l in fl):
            continue
        pick = lambda *n: (lambda it: T.ONE if it.args[0] in n else T.ZERO)
        end = T.TRUE
        pc = st.pc
        rep.eq(tag + 'initialised exactly once', count(tr, 'mpi', pick('MPI_Init', 'MPI_Init_thread')), T.ONE, P.where, smp, pc)
        rep.eq(tag + 'finalised exactly once', count(tr, 'mpi', pick('MPI_Finalize')), T.ONE, P.where, smp, pc)
        rep.eq(tag + 'every distributed object is destroyed', T.sub(count(tr, 'construct'), count(tr, 'destroy')), T.ZERO, P.where, smp, pc)
        order(rep, tag, P, fl)
    rep.visited(P.s.I)


def order(rep, tag, P, fl):
    """nothing distributed before initialisation or after finalisation, on any path"""
    st = 'before'
    bad = 0
    for it, c, l in fl:
        use = it.kind in USES or it.kind == 'mpi'
        if not use:
            continue
        nm = it.args[0] if it.kind == 'mpi' else it.kind
        if nm in ('MPI_Init', 'MPI_Init_thread'):
            st = 'in'
        elif nm == 'MPI_Finalize':
            fin = (c, it)
            st = 'after'
        elif nm in ('MPI_Initialized', 'MPI_Finalized'):
            pass
        elif st == 'before':
            rep.bad(tag + 'nothing is used before initialisation', it.at, nm)
            bad = 1
        elif st == 'after':
            # contradictory conditions: the two are on different paths
            if not any(T.lnot(x) in c for x in fin[0]):
                r = rep.refute([(T.TRUE, T.TRUE)], None, list(c) + list(fin[0]), 40)
                if r[0] == 'agree':
                    rep.bad(tag + 'nothing is used after finalisation', it.at, {'use': nm, 'finalised at': fin[1].at})
                    bad = 1
    if not bad:
        rep.ok(tag + 'all uses are between initialisation and finalisation', P.where)


def python(rep):
    """the distributed Python solver: every array with windows is freed exactly once, by the destructor, and not used afterwards"""
    from .. import impl
    tag = 'python upwindMPI: '
    im = impl.PyMpi()
    im.arbitrary()
    for k in (1, 2):
        im.steps(1, T.sym('dt', 'r', lo=0))
        im.arbitrary()
    im.result('checksum')
    im.result('gatherRoot')
    before = len(list(drv.flat(im.s.st.store[TRACE].items, ('mpi',))))
    im.destroy()
    wins = {}
    for it, conds, loops in drv.flat(im.s.st.store[TRACE].items, ('mpi',)):
        nm = it.args[0]
        r = root(it.args[1]) if len(it.args) > 1 else None
        if nm == 'MPI_Win_create':
            wins[r] = {'at': it.at, 'freed': [], 'cond': conds, 'loop': loops}
        elif r in wins and nm == 'MPI_Win_free':
            wins[r]['freed'].append((it.at, conds, loops))
        elif r in wins and wins[r]['freed']:
            rep.bad(tag + 'no window is used after it has been freed', it.at, nm)
    rep.expect(tag + 'distributed arrays are created', bool(wins), im.where, 'none found')
    for k, w in enumerate(wins.values()):
        t = '%sthe windows of array %d are freed exactly once' % (tag, k + 1)
        if w['loop'] or any(l for a, c, l in w['freed']):
            rep.unknown(t, w['at'], 'repeated')
            continue
        n = T.add(T.ZERO, *[T.ite(T.land(*c), T.ONE, T.ZERO) for a, c, l in w['freed']])
        rep.eq(t, n, T.ite(T.land(*w['cond']), T.ONE, T.ZERO), w['at'], im.samples())
    rep.visited(im.s.I)
