"""Obligations over the recorded element accesses."""
from . import term as T
from .values import Sub, State


def simp_under(pc, t):
    s = State({}, tuple(pc))
    return s.simp(t)


def inside(idx, n, pc):
    """TRUE / residual condition: 0 <= idx < n under pc"""
    st = State({}, tuple(pc))
    a = st.simp(T.le(T.ZERO, idx))
    b = st.simp(T.lt(idx, n))
    return T.land(a, b)


def bounds(rep, I, accs, samples=None, prefix='', pre=(), skip=None, limit=4000):
    """every recorded element access is inside its array; one obligation per (place, index, extent)"""
    seen = set()
    cnt = 0
    for a in accs:
        rw, root, path, i, n, idx, pc, ctx, where, omp, node = a
        if rw in ('begin', 'end', 'omp') or i is None or i < 0 or not idx:
            continue
        if skip and skip(a):
            continue
        if n is None:
            key = (where, 'unknown extent', idx)
            if key in seen:
                continue
            seen.add(key)
            rep.unknown('%saccess to %s' % (prefix, root.name), where, 'extent not known')
            continue
        for q, (x, m) in enumerate(zip(idx, n)):
            key = (where, x, m, pc)
            if key in seen:
                continue
            seen.add(key)
            cnt += 1
            if cnt > limit:
                rep.unknown(prefix + 'accesses', where, 'too many accesses')
                return
            c = inside(x, m, tuple(pc) + tuple(pre))
            dom = [T.lt(cx['k'], cx['n']) for cx in ctx if cx['n'] is not T.INFK]
            name = '%s%s of %s is inside' % (prefix, {'r': 'read', 'w': 'write', 'f': 'front()'}.get(rw, rw), root.name)
            rep.holds(name, c, where, samples, tuple(pc) + tuple(pre) + tuple(dom), key='%s:%s' % (where.split(' ')[0], root.name))


def undefs(rep, I, prefix='', samples=None, ignore=None):
    """no undefined value decides control flow, is printed or is computed with"""
    seen = set()
    for t, pc, ctx, where in I.undefs:
        us = [x for x in T.syms_of(t) if x.op == 'undef']
        if ignore:
            us = [u for u in us if not ignore(u, where)]
        key = (where, tuple(sorted(str(u.args[0]) for u in us)))
        if not us or key in seen:
            continue
        seen.add(key)
        st = State({}, pc)
        t2 = st.simp(t)
        if not any(x.op == 'undef' for x in T.syms_of(t2)):
            continue
        name = '%svalue %s is set before it is used' % (prefix, us[0].args[0])
        if t2.op == 'undef':
            # the read value itself is unset on this path: the path must be infeasible
            r = rep.refute([(T.TRUE, T.TRUE)], samples, list(pc) + [T.lt(cx['k'], cx['n']) for cx in ctx if cx['n'] is not T.INFK])
            if r[0] == 'agree':
                rep.bad(name, where, {'undefined': str(us[0].args[0]), 'path': [T.show(p) for p in pc][:8]}, key='%s:%s' % (where.split(' ')[0], us[0].args[0]))
            else:
                rep.unknown(name, where, 'path could not be confirmed: %s' % (r[1],))
            continue
        r = undef_depends(rep, t2, pc, ctx, samples)
        if r == 'bad':
            rep.bad(name, where, {'undefined': str(us[0].args[0]), 'term': T.show(t2)[:400]}, key='%s:%s' % (where.split(' ')[0], us[0].args[0]))
        elif r == 'ok':
            rep.add(name, 'agreed', where)
        else:
            rep.unknown(name, where, 'could not be evaluated')


def undef_depends(rep, t, pc, ctx, samples):
    """is an undefined leaf reached when the term is evaluated on some admissible valuation?"""
    dom = list(pc) + [T.lt(cx['k'], cx['n']) for cx in ctx if cx['n'] is not T.INFK]
    done = 0
    for n in range(1, 120):
        try:
            env, funcs = {}, None
            if samples is not None:
                r = samples(rep.rng, n)
                if r is None:
                    break
                env, funcs = r if isinstance(r, tuple) else (r, None)
                env = dict(env)
            v = T.Valuation(env, n * 31 + rep.seed, funcs)
            if not all(v.ev(p) for p in dom):
                continue
            v2 = T.Valuation(dict(v.env), v.seed, funcs, undef_ok=False)
            try:
                v2.ev(t)
                done += 1
            except T.Undefined:
                return 'bad'
        except T.Skip:
            continue
        except (TypeError, KeyError, OverflowError):
            continue
    return 'ok' if done else 'unknown'


def raises(rep, I, start, samples, prefix):
    """Python: no exception ends the operation (paths ended since start)"""
    from .cxx import TRACE
    from .values import Item
    for st in getattr(I, 'exitstates', ())[start:]:
        its = [x for x in st.store[TRACE].items if type(x) is Item and x.kind == 'stop'] if TRACE in st.store else []
        where = its[-1].at if its else ''
        rep.holds(prefix + 'no exception is raised', T.lnot(T.land(*st.pc)) if st.pc else T.FALSE, where, samples)


def marks(I):
    return len(I.accesses), len(getattr(I, 'exitstates', ()))


def clean(rep, I, mark, samples, prefix):
    """the operation since mark stayed inside its arrays and raised no exception; violations only, with one summary"""
    n = len(rep.obs)
    bounds(rep, I, I.accesses[mark[0]:], samples, prefix)
    if hasattr(I, 'handlers'):
        raises(rep, I, mark[1], samples, prefix)
    k = len(rep.obs) - n
    bad = [o for o in rep.obs[n:] if o['status'] == 'violated']
    rep.obs[n:] = bad
    if k and not bad:
        rep.ok(prefix + 'all accesses are inside their arrays', '', '%d accesses' % k)
