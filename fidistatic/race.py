"""Dependence analysis of parallel constructs over the recorded accesses.

Two accesses conflict when they may touch the same location, one of them writes, they are executed by
different threads (iterations) and no barrier orders them.
"""
import itertools
from . import term as T
from .values import Arr, Vec, Obj, State

LOOPDIRS = {'for', 'distribute', 'taskloop', 'simd', 'loop'}
BARRIER = {'for', 'single', 'sections', 'parallel'}


def words(reg):
    return set(reg['dir'].split())


def nowait(reg):
    return any(c['c'] == 'nowait' for c in reg['clauses'])


def is_loop(reg):
    return bool(words(reg) & LOOPDIRS)


def is_acc(reg):
    return reg['dir'].startswith('acc')


def is_team(reg):
    """executed redundantly by several threads outside work-shared loops"""
    w = words(reg)
    if is_acc(reg):
        return 'parallel' in w and 'loop' not in w
    return ('parallel' in w or 'teams' in w) and not (w & LOOPDIRS)


class Ac:
    """an access relative to a region"""
    __slots__ = ('pos', 'rw', 'root', 'path', 'loops', 'pc', 'where', 'regs', 'at')


def regions(I):
    """(region, begin entry, slice of the log)"""
    open_ = []
    for pos, a in enumerate(I.accesses):
        if a[0] == 'begin':
            open_.append((a[1], pos))
        elif a[0] == 'end':
            for q in range(len(open_) - 1, -1, -1):
                if open_[q][0] is a[1]:
                    yield a[1], I.accesses[open_[q][1]], I.accesses[open_[q][1] + 1:pos]
                    del open_[q:]
                    break


def accesses(reg, begin, log, scalars_private=False):
    """accesses to locations that outlive the region's iterations"""
    nctx = len(begin[7])
    nomp = len(begin[9])
    out = []
    for pos, a in enumerate(log):
        rw, root, path, i, n, idx, pc, ctx, where, omp, node = a
        if rw not in ('r', 'w', 'rw'):
            if rw in ('begin', 'end', 'omp', 'mpi'):
                continue
            rw = 'r'
        if root.n > reg['mark'] or getattr(root, 'shared', None) == 'private':
            continue
        if root in reg['reduction'] or root in reg['lastprivate']:
            continue
        if any(root in g['reduction'] or root in g['lastprivate'] or root.n > g['mark'] for g in omp[nomp:]):
            continue
        if i is not None and i >= 0 and any(type(s) is tuple and s[0] == 'i' for s in path[i + 1:]):
            continue
        x = Ac()
        x.pos, x.rw, x.root, x.pc, x.where = pos, rw, root, pc, where
        x.path = path[:i + 1] if i is not None and i >= 0 else path
        x.loops = ctx[nctx:]
        x.regs = omp[nomp:]
        out.append(x)
    return out


def field(x):
    out = []
    for s in x.path:
        if type(s) is tuple:
            break
        out.append(str(s))
    return (x.root, tuple(out))


def label(key):
    return '.'.join([key[0].name] + list(key[1]))


def first_index(x):
    for s in x.path:
        if type(s) is tuple and s[0] == 'i':
            return s[1:]
    return None


def assoc(x, reg):
    """work-shared loop contexts of an access that belong to reg (the associated loops)"""
    for q, c in enumerate(x.loops):
        if c['info'].get('omp') is reg:
            n = 1
            for cl in reg['clauses']:
                if cl['c'] == 'collapse' and cl.get('e'):
                    try:
                        e = cl['e']
                        while e.get('k') in ('cast', 'const', 'constant'):
                            e = e['e']
                        n = int(e['v'])
                    except (KeyError, ValueError, TypeError):
                        n = 1
            return q, x.loops[q:q + n]
    return None, ()


def worksharing(x):
    """innermost loop directive of the region's own nest an access is executed in: (region, contexts)"""
    for g in x.regs:
        if is_loop(g):
            return g
    return None


# ------------------------------------------------------------------ concrete instances
class Inst:
    __slots__ = ('a', 'rep', 'ex', 'loc', 'tid')


def shown(loc):
    return ','.join(str(x) for x in loc)


def uses_tid(x):
    ts = [t for s in x.path if type(s) is tuple for t in s[1:] if isinstance(t, T.Term)] + [p for p in x.pc]
    return any(y.op == 'sym' and y.args[0] in ('omp_tid',) for t in ts for y in T.syms_of(t))


def instances(x, env, seed, funcs, outer, exec_of, limit=4000, threads=2):
    """concrete executions of an access: loop counters enumerated; exec_of(loop values) gives the executor"""
    out = []
    tid = T.sym('omp_tid', 'i', lo=0)
    nth = T.sym('omp_nthreads', 'i', lo=1)
    tvals = range(threads) if uses_tid(x) else (None,)

    def go(q, e, vals):
        if len(out) > limit:
            return
        if q == len(x.loops):
            v = T.Valuation(dict(e), seed, funcs)
            for p in x.pc:
                if not v.ev(p):
                    return
            loc = []
            for s in x.path:
                if type(s) is tuple:
                    loc.append(tuple(v.ev(t) if isinstance(t, T.Term) else t for t in s))
                else:
                    loc.append(s)
            out.append((tuple(vals), tuple(loc), e.get(tid) if tvals != (None,) else None))
            return
        c = x.loops[q]
        k, n = c['k'], c['n']
        if T.is_num(k):
            go(q + 1, e, vals + [int(k.args[0])])
            return
        v = T.Valuation(dict(e), seed, funcs)
        m = 3 if n is None or n is T.INFK else int(v.ev(n))
        for kk in range(max(0, min(m, 200))):
            e2 = dict(e)
            e2[k] = kk
            go(q + 1, e2, vals + [kk])
    for t in tvals:
        e = dict(env)
        e[nth] = threads
        if t is not None:
            e[tid] = t
        go(0, e, [])
    return out


def overlap(a, b):
    n = min(len(a), len(b))
    return a[:n] == b[:n]


def valuations(rep, samples, begin, tries):
    done = 0
    for n in range(tries * 4):
        if done >= tries:
            return
        env, funcs = {}, None
        if samples is not None:
            r = samples(rep.rng, n + 1)
            if r is None:
                return
            env, funcs = r if isinstance(r, tuple) else (r, None)
        env = dict(env)
        seed = rep.seed * 131 + n
        try:
            # one iteration of every loop around the region
            for c in begin[7]:
                v = T.Valuation(env, seed, funcs)
                if not T.is_num(c['k']):
                    m = 3 if c['n'] is None or c['n'] is T.INFK else int(v.ev(c['n']))
                    if m <= 0:
                        raise T.Skip()
                    env = dict(v.env)
                    env[c['k']] = rep.rng.randrange(m)
            v = T.Valuation(env, seed, funcs)
            if not all(v.ev(p) for p in begin[6]):
                continue
        except T.Skip:
            continue
        done += 1
        yield env, seed, funcs


# ------------------------------------------------------------------ one loop construct
def check_loop(rep, reg, begin, log, samples, tag):
    acs = accesses(reg, begin, log)
    if is_acc(reg):
        acs = [x for x in acs if not private_scalar(x, reg)]
    groups = {}
    for x in acs:
        q, ks = assoc(x, reg)
        if q is None:
            continue
        groups.setdefault(field(x), []).append(x)
    merge_prefixes(groups)
    cnt = 0
    for key, xs in sorted(groups.items(), key=lambda kv: label(kv[0])):
        if not any(x.rw != 'r' for x in xs):
            continue
        cnt += 1
        name = '%siterations of the %s loop do not interfere through %s' % (tag, reg['dir'], label(key))
        wx = [x for x in xs if x.rw != 'r']
        if exclusive(wx, reg) and all(protected(x, reg) for x in xs):
            rep.ok(name, reg['where'])
            continue
        if separate(xs, reg):
            rep.ok(name, reg['where'])
            continue
        verdict = concrete(rep, xs, samples, begin, lambda a, b: loop_conflict(a, b, reg), name, reg)
        settle(rep, verdict, name, reg, key)
    return cnt


def protected(x, reg):
    return any(words(g) & {'critical', 'atomic', 'ordered'} for g in x.regs)


def exclusive(xs, reg):
    return all(protected(x, reg) for x in xs)


def private_scalar(x, reg):
    """scalars are private to a gang-parallel construct unless a data clause names them"""
    if field(x)[1] or any(type(s) is tuple for s in x.path):
        return False
    if 'carr' in (x.root.ty or '') or 'vector' in (x.root.ty or '') or 'array' in (x.root.ty or ''):
        return False
    return not any(m[2].get('ptr') is not None and getattr(m[2]['ptr'], 'root', None) is x.root for m in reg['maps'])


def separate(xs, reg):
    """every access of the group has, in one subscript, the iteration counter plus the same offset"""
    offs = None
    for x in xs:
        q, ks = assoc(x, reg)
        ix = first_index(x)
        if ix is None or len(ks) != 1 or T.is_num(ks[0]['k']):
            return False
        mine = {}
        for d, t in enumerate(ix):
            if isinstance(t, T.Term):
                o = T.sub(t, ks[0]['k'])
                if not T.has(o, ks[0]['k']) and not any(c['k'] is y for c in x.loops for y in T.syms_of(o)):
                    # the counters of different accesses of the same loop are the same symbol
                    mine[d] = (o, ks[0]['k'])
        offs = mine if offs is None else {d: v for d, v in offs.items() if d in mine and mine[d] == v}
        if not offs:
            return False
    return bool(offs)


def loop_conflict(a, b, reg):
    def f(ia, ib):
        qa, ka = assoc(a, reg)
        qb, kb = assoc(b, reg)
        if ia[0][qa:qa + len(ka)] == ib[0][qb:qb + len(kb)]:
            return False
        if ia[2] is not None and ib[2] is not None and ia[2] == ib[2]:
            return False
        if protected(a, reg) and protected(b, reg):
            return False
        return overlap(ia[1], ib[1])
    return f


def concrete(rep, xs, samples, begin, conflict, name, reg, tries=None, pairs=None):
    tries = tries or (6 if rep.tier == 'quick' else 30)
    done = 0
    why = None
    for env, seed, funcs in valuations(rep, samples, begin, tries):
        try:
            inst = [instances(x, env, seed, funcs, begin[7], None) for x in xs]
        except T.Skip:
            continue
        except (T.Undefined, TypeError, KeyError, ZeroDivisionError) as e:
            why = repr(e)
            continue
        for p, q in pairs if pairs is not None else pair_indices(xs):
            a, b = xs[p], xs[q]
            if a.rw == 'r' and b.rw == 'r':
                continue
            f = conflict(a, b)
            if f is None:
                continue
            by = {}
            for ib in inst[q]:
                by.setdefault(ib[1][:1] if not ib[1] else ib[1], []).append(ib)
            for ia in inst[p]:
                # same location first, then aggregates
                cands = by.get(ia[1], ())
                if len(by) and (not ia[1] or any(len(k) != len(ia[1]) for k in by)):
                    cands = inst[q]
                for ib in cands:
                    if f(ia, ib):
                        from .ob import show_env
                        return ('bad', {'values': show_env({k: v for k, v in env.items() if isinstance(k, T.Term)}),
                                        'first': '%s %s, loop counters %s' % ({'r': 'read', 'w': 'write'}.get(a.rw, a.rw), a.where, ia[0]),
                                        'second': '%s %s, loop counters %s' % ({'r': 'read', 'w': 'write'}.get(b.rw, b.rw), b.where, ib[0]),
                                        'location': shown(ia[1])})
        if any(inst):
            done += 1
    if not done:
        return ('unknown', why or 'no valuation reached the region')
    return ('agree', done)


def pair_indices(xs):
    return [(p, q) for p in range(len(xs)) for q in range(p, len(xs))]


def settle(rep, verdict, name, reg, key):
    if verdict[0] == 'bad':
        rep.bad(name, reg['where'], verdict[1], key='%s:%s' % (reg['where'].split(' ')[0], label(key)))
    elif verdict[0] == 'agree':
        rep.add(name, 'agreed', reg['where'], {'valuations': verdict[1]})
    else:
        rep.unknown(name, reg['where'], verdict[1])


def merge_prefixes(groups):
    """accesses to a whole object conflict with accesses to its parts"""
    for k in sorted(groups, key=lambda k: len(k[1])):
        for l in list(groups):
            if l != k and k in groups and l in groups and l[0] is k[0] and l[1][:len(k[1])] == k[1]:
                if any(x.rw != 'r' for x in groups[k]):
                    groups[l].extend(groups[k])
                elif any(x.rw != 'r' for x in groups[l]):
                    groups[l].extend(groups[k])


# ------------------------------------------------------------------ one team construct
def check_team(rep, reg, begin, log, samples, tag):
    acs = accesses(reg, begin, log)
    if is_acc(reg):
        acs = [x for x in acs if not private_scalar(x, reg)]
    nctx, nomp = len(begin[7]), len(begin[9])
    bars = []
    for pos, a in enumerate(log):
        if a[0] == 'end' and len(a[9]) == nomp and words(a[1]) & BARRIER and not nowait(a[1]) and not is_acc(a[1]):
            bars.append((pos, a[7][nctx:], a[6]))
        elif a[0] == 'omp' and a[1]['dir'] == 'barrier' and len(a[9]) == nomp:
            bars.append((pos, a[7][nctx:], a[6]))
    base = set(begin[6])

    def replicated(x):
        out = []
        for c in x.loops:
            if c['info'].get('omp') is not None:
                break
            out.append(c)
        return out
    groups = {}
    for x in acs:
        groups.setdefault(field(x), []).append(x)
    merge_prefixes(groups)
    cnt = 0
    for key, xs in sorted(groups.items(), key=lambda kv: label(kv[0])):
        if not any(x.rw != 'r' for x in xs):
            continue
        cnt += 1
        name = '%sthreads of the %s region do not interfere through %s' % (tag, reg['dir'], label(key))
        reps = [replicated(x) for x in xs]
        pairs, modes = [], {}
        for p, q in pair_indices(xs):
            a, b = xs[p], xs[q]
            if a.rw == 'r' and b.rw == 'r':
                continue
            m = concurrent(a, b, reps[p], reps[q], bars, base)
            if m:
                pairs.append((p, q))
                modes[(id(a), id(b))] = (m, len(common(reps[p], reps[q])))
        if not pairs:
            rep.ok(name, reg['where'], 'ordered by barriers')
            continue
        # within one work-shared loop and one iteration of the loops around it: decided by the loop rule
        rest = [(p, q) for p, q in pairs if not (modes[(id(xs[p]), id(xs[q]))][0] == ['same'] and same_ws(xs[p], xs[q]))]
        if not rest:
            rep.ok(name, reg['where'], 'one work-shared loop at a time')
            continue

        def conflict(a, b):
            m, nc = modes[(id(a), id(b))]
            wa, wb = ws_region(a), ws_region(b)
            ma, mb = single(a), single(b)

            def f(ia, ib):
                ra, rb = ia[0][:nc], ib[0][:nc]
                ok = False
                for md in m:
                    if md == 'same':
                        ok = ok or ra == rb and not (wa is wb and wa is not None)
                    else:
                        j, kind = md
                        if ra[:j] == rb[:j] and (rb[j] == ra[j] + 1 if kind == '+1' else ra[j] == rb[j] + 1 if kind == '-1' else ra[j] != rb[j]):
                            ok = True
                if not ok:
                    return False
                if protected(a, reg) and protected(b, reg):
                    return False
                if ma == mb == 'master':
                    return False
                if ma is not None and ma == mb and ra == rb:
                    return False
                if ia[2] is not None and ib[2] is not None and ia[2] == ib[2]:
                    return False
                return overlap(ia[1], ib[1])
            return f
        verdict = concrete(rep, xs, samples, begin, conflict, name, reg, None, rest)
        settle(rep, verdict, name, reg, key)
    return cnt


def common(la, lb):
    out = []
    for a, b in zip(la, lb):
        if a is b or a['info'] is b['info']:
            out.append(a)
        else:
            break
    return out


def ws_region(x):
    for g in x.regs:
        if is_loop(g):
            return g
    return None


def same_ws(a, b):
    return ws_region(a) is not None and ws_region(a) is ws_region(b)


def single(x):
    for g in x.regs:
        if words(g) & {'master', 'masked'}:
            return 'master'
        if 'single' in words(g):
            return id(g)
    return None


def concurrent(a, b, la, lb, bars, base):
    """ways in which a and b can be unordered"""
    if a.pos > b.pos:
        a, b, la, lb, swap = b, a, lb, la, True
    else:
        swap = False
    cm = common(la, lb)
    pcs = set(a.pc) | set(b.pc) | base
    infos = [id(c['info']) for c in la], [id(c['info']) for c in lb]

    def applies(bar, depth_max=None):
        pos, ctx, pc = bar
        own = [id(c['info']) for c in ctx if c['info'].get('omp') is None]
        if not (own == infos[0][:len(own)] or own == infos[1][:len(own)]):
            return False
        return all(p in pcs or guard(p, ctx) for p in pc)

    def guard(p, ctx):
        """loop entry conditions of the loops around the barrier"""
        return any(T.has(p, c['k']) for c in ctx if isinstance(c['k'], T.Term) and not T.is_num(c['k']))
    out = []
    if not any(a.pos < x[0] < b.pos and applies(x) for x in bars):
        out.append('same')
    for j, L in enumerate(cm):
        inL = [x for x in bars if any(c['info'] is L['info'] for c in x[1]) and applies(x)]
        # barriers executed on every iteration of L (not inside a further loop)
        top = [x for x in inL if [c for c in x[1] if c['info'].get('omp') is None][-1]['info'] is L['info']]
        if not inL:
            out.append((j, '*'))
            continue
        if not top and inL:
            pass
        # a at s, b at s+1: barriers after a or before b in the body
        if not any(x[0] > a.pos or x[0] < b.pos for x in inL):
            out.append((j, '+1' if not swap else '-1'))
        # b at s, a at s+1
        if not any(x[0] > b.pos or x[0] < a.pos for x in inL):
            out.append((j, '-1' if not swap else '+1'))
    return out


def check(rep, I, samples, tag):
    n = 0
    for reg, begin, log in regions(I):
        w = words(reg)
        if w & {'task', 'sections', 'section'} and not w & LOOPDIRS:
            rep.unknown('%s%s construct' % (tag, reg['dir']), reg['where'], 'tasks and sections are not modelled')
            continue
        if is_loop(reg):
            n += 1
            if not check_loop(rep, reg, begin, log, samples, tag):
                rep.ok('%sthe %s loop writes only to its own variables' % (tag, reg['dir']), reg['where'])
        elif is_team(reg):
            n += 1
            if not check_team(rep, reg, begin, log, samples, tag):
                rep.ok('%sthe %s region writes only to its own variables' % (tag, reg['dir']), reg['where'])
    return n
