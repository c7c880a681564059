"""C06: the one-sided halo exchange is correctly synchronised."""
from .. import term as T
from .. import drive, filt
from ..values import Arr, Vec, Ptr, State, Sub, step_get, Unsupported
from ..cxx import LRef
from .c05 import stencils

NOPRECEDE, NOPUT, NOSTORE, NOSUCCEED = 2, 4, 8, 16
SEQS = (('setInDataByIndices', 'applyFilter', 'copyOutToIn', 'applyFilter', 'copyOutToIn'),
        ('setInData', 'applyFilter', 'applyFilter', 'setInDataByIndices', 'applyFilter'))


def run(rep):
    prog = drive.program(*drive.LIB)
    rep.rule('epoch typestate per window over the ordered log of synchronisations, transfers, loads and stores of exposed and receive '
             'buffers; contents and extent of the exposed buffer at every transfer')
    rep.guard('assertion values', modes, rep)
    tasks = []
    for d in (1, 2, 3):
        for nm, offs in stencils(d, rep.tier):
            for k, seq in enumerate(SEQS):
                if k and nm != 'star':
                    continue
                tasks.append(('d=%d %s %d' % (d, nm, k), one, prog, d, nm, offs, k))
    rep.parallel(tasks)


def modes(rep):
    """the numeric values of the assertions in the installed message-passing library"""
    import glob
    import re
    want = {'MPI_MODE_NOPRECEDE': NOPRECEDE, 'MPI_MODE_NOPUT': NOPUT, 'MPI_MODE_NOSTORE': NOSTORE, 'MPI_MODE_NOSUCCEED': NOSUCCEED}
    for p in glob.glob('/usr/lib/*/openmpi/include/mpi.h'):
        got = {a: int(b) for a, b in re.findall(r'#define\s+(MPI_MODE_NO\w+)\s+(\d+)', open(p, errors='replace').read())}
        for k, v in want.items():
            if got.get(k) != v:
                rep.notes.append('%s has another value' % k)
                raise Unsupported('assertion values of this library')


def one(rep, prog, d, nm, offs, k):
    tag = 'd=%d %s, sequence %d: ' % (d, nm, k + 1)
    w = [T.sym('w%d' % i, 'r') for i in range(len(offs))]
    F = filt.Filt(prog, d, list(zip(offs, w)))
    I = F.s.I
    gets = []
    cur = [None]
    orig = I.event

    def event(st, kind, *args):
        orig(st, kind, *args)
        if kind == 'mpi' and args[0] == 'MPI_Get' and not I.quiet:
            gets.append((args, st.copy(), cur[0], I.where()))
    I.event = event
    reach = [max([abs(o[i]) for o in offs] + [1]) for i in range(d)]

    def extra(rng, n, env):
        for l, h in zip(F.L, reach):
            env[l] = max(env[l], h)
    smp = F.samples(extra)
    cells = None
    for q, m in enumerate(SEQS[k]):
        if m.startswith('setIn'):
            cur[0] = 'U%d' % q
            F.call(m, F.func(cur[0]))
            fin, vin = F.field('input')
            if m == 'setInDataByIndices' and vin.body.op == 'app' and vin.body.args[0] == cur[0]:
                cells = (vin.ks[0], vin.body.args[1])
        elif m == 'copyOutToIn':
            # give the result a recognisable value first
            if cells:
                nmo, vo = F.field('output')
                cur[0] = 'W%d' % q
                put(F, nmo, Arr(vo.shape, cells[:1], T.mkapp(cur[0], cells[1], 'r')))
            F.call(m)
        else:
            F.call(m)
    n0 = len(I.accesses)
    F.s.destroy(F.obj, filt.CLS)
    if not any(any(o) for o in offs):
        return
    rep.expect(tag + 'halo data are transferred', bool(gets), F.where, 'no transfer takes place')
    transfers(rep, tag, F, gets, smp)
    states(rep, tag, F, I.accesses, smp)
    rep.visited(I)


def put(F, nm, v):
    F.s.I.store(Ptr(F.obj.root, F.obj.path + (nm,)), v, F.s.st, True)


def transfers(rep, tag, F, gets, smp):
    I = F.s.I
    seen = set()
    for args, st, cur, where in gets:
        _, win, dst, n1, t1, target, disp, n2, t2 = args
        if type(win) is not Ptr or type(dst) is not Ptr:
            rep.unknown(tag + 'transfer', where, 'window or buffer not resolved')
            continue
        wo = st.store[win.root]
        base = wo.f['base']
        key = (win.root, dst.root, n1, disp, n2, cur)
        if key in seen:
            continue
        seen.add(key)
        t = '%swindow %s: ' % (tag, win.root.name)
        src = st.store[base.root]
        buf = st.store[dst.root]
        rep.eq(t + 'exposed size in bytes', T.strip_cv(wo.f['size'], 'u64'), T.mul(T.num(8), src.shape[0]), where, smp)
        rep.expect(t + 'buffers start at their first element', start(base) and start(dst), where, (repr(base), repr(dst)))
        rep.eq(t + 'transfer starts at the beginning of the exposed buffer', T.mul(T.strip_cv(wo.f['disp'], 'u64'), T.strip_cv(disp, 'u64')), T.ZERO, where, smp)
        rep.eq(t + 'number of elements read', n2, src.shape[0], where, smp)
        rep.eq(t + 'number of elements received', n1, buf.shape[0], where, smp)
        rep.expect(t + 'element types', t1 == t2 == 'ompi_mpi_double', where, (t1, t2))
        rep.eq(t + 'exposed buffer has the same size on the other rank', T.subst(src.shape[0], {I.rank: target}), src.shape[0], where, smp)
        exposed = {w2.f['base'].root for r, w2 in st.store.items() if getattr(w2, 'cls', None) == 'win' or r.ty == 'win' and hasattr(w2, 'f')}
        rep.expect(t + 'the receive buffer is not exposed', dst.root not in exposed, where, 'same memory')
        # contents
        if cur is None:
            continue
        q = T.fresh('q', 'i', lo=0, ub=src.shape[0])
        v = step_get(src, ('i', q))
        name = t + 'the exposed buffer holds the current field (%s)' % cur
        apps = [x for x in T.walk(v) if x.op == 'app']
        if v.op == 'app' and v.args[0] == cur:
            rep.ok(name, where)
        elif v.op == 'undef' or not any(x.args[0] == cur for x in apps):
            rep.bad(name, where, {'content': T.show(v)[:300]})
        else:
            def smp2(rng, n):
                env = smp(rng, n)
                ext = int(T.Valuation(dict(env), 1).ev(src.shape[0]))
                env[q] = rng.randrange(max(ext, 1))
                return env
            pred = T.mkapp('holds:' + cur, (v,), 'b')
            # every branch taken must be an application of the current field
            leaf(rep, name, v, cur, smp2, where)


def leaf(rep, name, v, cur, smp, where):
    done = 0
    for n in range(1, 80):
        try:
            env = smp(rep.rng, n)
            val = T.Valuation(dict(env), n)
            x = v
            while x.op == 'ite':
                x = x.args[1] if val.ev(x.args[0]) else x.args[2]
            if not (x.op == 'app' and x.args[0] == cur):
                rep.bad(name, where, {'content': T.show(x)[:300]})
                return
            done += 1
        except T.Skip:
            continue
    if done:
        rep.add(name, 'agreed', where)
    else:
        rep.unknown(name, where, 'not evaluated')


def start(p):
    return not p.path or p.path[-1] == ('i', T.ZERO) or p.path[-1][-1] is T.ZERO


def states(rep, tag, F, log, smp):
    """typestate per window"""
    base, dsts = {}, {}
    for a in log:
        if a[0] == 'mpi' and a[1].args[0] == 'MPI_Win_create' and type(a[1].args[2]) is Ptr:
            base.setdefault(a[1].args[2].root, []).append(a[1].args[1].root)
        if a[0] == 'mpi' and a[1].args[0] == 'MPI_Get' and type(a[1].args[2]) is Ptr:
            dsts.setdefault(a[1].args[2].root, set()).add(a[1].args[1].root)
    rel = []
    for a in log:
        if a[0] == 'mpi':
            rel.append(a)
        elif a[0] in ('r', 'w') and a[1] in base or a[1] in dsts:
            if getattr(a[10], 'get', None) and a[10] is not None and a[10].get('fn', '').startswith('MPI_'):
                continue
            rel.append(a)
    uncond = all(not a[6] for a in rel if a[0] == 'mpi')
    runs = 1 if uncond else 40
    names = ('every transfer is inside an epoch of its window', 'data are used only after the epoch has been closed',
             'an exposed buffer is not modified while an epoch is open', 'fences assert only what is true', 'no epoch is left open')
    bad = {}
    done = 0
    for n in range(1, runs + 1):
        try:
            env = smp(rep.rng, n)
            v = T.Valuation(dict(env), n)
            sel = rel if uncond else [a for a in rel if a[0] != 'mpi' or all(v.ev(p) for p in a[6])]
        except T.Skip:
            continue
        done += 1
        for kind, where, why in typestate(sel, base, dsts):
            if kind not in bad:
                bad[kind] = (where, why if uncond else {'why': why, 'values': {str(k.args[0]): str(x) for k, x in env.items()}})
        if bad:
            break
    for nm in names:
        if nm in bad:
            rep.bad(tag + nm, bad[nm][0], bad[nm][1])
        elif not done:
            rep.unknown(tag + nm, F.where, 'no valuation')
        elif uncond:
            rep.ok(tag + nm, F.where)
        else:
            rep.add(tag + nm, 'agreed', F.where, {'valuations': done})


def typestate(log, base, dsts):
    names = ('every transfer is inside an epoch of its window', 'data are used only after the epoch has been closed',
             'an exposed buffer is not modified while an epoch is open', 'fences assert only what is true', 'no epoch is left open')
    W = {}

    def w(r):
        return W.setdefault(r, {'open': False, 'got': [], 'stores': [], 'stored': False, 'pend': set(),
                                'locks': [], 'dirty': None, 'pread': None})

    def settled():
        # every rank has reached this point: what was stored before is visible after it
        for s in W.values():
            s.update(dirty=None, pread=None)
    for a in log:
        if a[0] == 'mpi':
            it = a[1]
            nm = it.args[0]
            if nm == 'MPI_Win_fence':
                win = it.args[1]
                if type(win) is not Ptr:
                    continue
                s = w(win.root)
                m = int(it.args[2].args[0]) if T.is_num(it.args[2]) else 0
                if m & NOPRECEDE and s['got']:
                    yield names[3], it.at, 'the fence asserts that no transfer precedes it'
                if m & NOSTORE and s['stored']:
                    yield names[3], it.at, 'the fence asserts that the exposed buffer was not stored to'
                if s['got'] and s['stores']:
                    yield names[2], s['stores'][0], 'stored while neighbours may read it (transfer at %s)' % s['got'][0]
                s.update(open=not (m & NOSUCCEED), got=[], stores=[], stored=False, pend=set(), dirty=None, pread=None)
            elif nm in ('MPI_Barrier', 'MPI_Allreduce'):
                settled()
            elif nm in ('MPI_Win_lock', 'MPI_Win_lock_all'):
                if type(it.args[1]) is Ptr:
                    w(it.args[1].root)['locks'].append(it.args[2])
            elif nm in ('MPI_Win_unlock', 'MPI_Win_unlock_all') or nm.startswith('MPI_Win_flush'):
                # completes what was started on that rank (all ranks: None)
                if type(it.args[1]) is Ptr:
                    s = w(it.args[1].root)
                    one = it.args[2]
                    s['pend'] = {x for x in s['pend'] if one is not None and x[1] is not one}
                    if 'unlock' in nm:
                        if one in s['locks']:
                            s['locks'].remove(one)
                        else:
                            yield names[0], it.at, 'unlocked without having been locked'
            elif nm == 'MPI_Get':
                win, dst = it.args[1], it.args[2]
                if type(win) is not Ptr or type(dst) is not Ptr:
                    continue
                s = w(win.root)
                tgt = it.args[5]
                if any(x is None or x is tgt for x in s['locks']):
                    if s['dirty']:
                        yield names[2], it.at, 'the neighbour may still be storing to its exposed buffer (stored at %s, no barrier since)' % s['dirty']
                    s['pread'] = it.at
                else:
                    if not s['open']:
                        yield names[0], it.at, 'no epoch is open on the window'
                    s['got'].append(it.at)
                s['pend'].add((dst.root, tgt))
            elif nm == 'MPI_Win_free':
                win = it.args[1]
                if type(win) is Ptr and w(win.root)['pend']:
                    yield names[4], it.at, 'window freed with a transfer pending'
            elif nm == 'MPI_Win_create' and type(it.args[1]) is Ptr:
                w(it.args[1].root)
        else:
            root = a[1]
            if root in dsts:
                for r in dsts[root]:
                    if any(x[0] == root for x in w(r)['pend']):
                        yield names[1], a[8], 'receive buffer %s while its transfer is pending' % ('read' if a[0] == 'r' else 'written')
            if root in base and a[0] == 'w':
                for r in base[root]:
                    s = w(r)
                    s['stored'] = True
                    if s['pread']:
                        yield names[2], a[8], 'stored while neighbours may read it (transfer at %s, no barrier since)' % s['pread']
                    s['dirty'] = a[8]
                    s['stores'].append(a[8])
    for r, s in W.items():
        if s['pend']:
            yield names[4], s['got'][0], 'the transfer is never completed'
