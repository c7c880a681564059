"""Loop summaries: recurrences of the loop-carried values are solved in closed form.

A loop is given by three closures (cond, body, inc) over abstract states; the
same solver serves the C++, Fortran and Python front ends.
"""
from . import term as T
from .term import Term
from .values import (Vec, Arr, Obj, Ptr, Choice, MapV, MapIt, Stream, Item, Alt, Rep, Sub, Unsupported, State, UndefV,
                     vequal, iequal, vmap, merge, merge_states, step_get, step_set, vec2arr, common_prefix, VALTYPES)

UNROLL = 70


class Outcome:
    __slots__ = ('next', 'brk', 'cont', 'ret', 'exit')

    def __init__(self, next=None):
        self.next, self.brk, self.cont, self.ret, self.exit = next, None, None, [], []

    def absorb(self, o, loop=False):
        """take over the non-local outcomes of o"""
        if not loop:
            self.brk = merge_states(self.brk, o.brk)
            self.cont = merge_states(self.cont, o.cont)
        self.ret.extend(o.ret)
        self.exit.extend(o.exit)


class Marker:
    """stands for the stream contents at the start of an iteration"""

    def __repr__(self):
        return '<phi>'


def loc_get(st, root, path):
    v = st.store[root]
    for s in path:
        v = step_get(v, s)
    return v


def loc_set(st, root, path, val):
    st.store[root] = step_set(st.store[root], tuple(path), val)


# ---------------------------------------------------------------- leaves
def diff(root, path, a, b, out):
    if a is b or vequal(a, b):
        return
    if type(a) is Obj and type(b) is Obj and a.f.keys() == b.f.keys():
        for k in a.f:
            diff(root, path + (k,), a.f[k], b.f[k], out)
        return
    if type(a) is Vec and type(b) is Vec and len(a.items) == len(b.items):
        for i, (x, y) in enumerate(zip(a.items, b.items)):
            diff(root, path + (('i', T.num(i)),), x, y, out)
        return
    if type(a) is MapV and type(b) is MapV and a.keys == b.keys:
        for k, x, y in zip(a.keys, a.vals, b.vals):
            diff(root, path + (('m', k),), x, y, out)
        return
    out.setdefault((root, path), []).append((a, b))


class LV:
    """one scalar leaf variable of a loop (a scalar, or an array component)"""
    __slots__ = ('phi', 'ks', 'init', 'sort', 'name', 'shape')

    def __init__(self, phi, ks, init, sort, name, shape=()):
        self.phi, self.ks, self.init, self.sort, self.name, self.shape = phi, ks, init, sort, name, shape


def make_phi(v, name, prefix, lvs, shapes, ty=None):
    if type(v) is Term:
        if prefix:
            a = T.asym('%s#%d' % (name, T._fresh[0]), v.sort)
            T._fresh[0] += 1
            lvs.append(LV(a, tuple(prefix), v, v.sort, name, tuple(shapes)))
            return T.sel(a, *prefix)
        s = T.fresh(name, v.sort, **({'lo': 0} if ty and ty[0] == 'u' else {}))
        lvs.append(LV(s, (), v, v.sort, name))
        return s
    if type(v) is Vec:
        return Vec(make_phi(x, name, prefix, lvs, shapes) for x in v.items)
    if type(v) is Arr:
        return Arr(v.shape, v.ks, make_phi(v.body, name, list(prefix) + list(v.ks), lvs, list(shapes) + list(v.shape)))
    if type(v) is Obj:
        return Obj(v.cls, {k: make_phi(x, name + '.' + k, prefix, lvs, shapes) for k, x in v.f.items()})
    return v


def walk_next(phi, nx, lvmap, out):
    """match the next value against the phi structure"""
    if type(phi) is Term:
        if type(nx) is UndefV:
            nx = T.undef(nx.origin, phi.sort)
        if type(nx) is not Term:
            raise Unsupported('loop-carried value changes kind (%s)' % type(nx).__name__)
        if phi in lvmap:
            out[phi] = nx
        elif phi.op == 'sel':
            out[phi.args[0]] = nx
        return
    if type(phi) is Vec:
        if type(nx) is not Vec or len(nx.items) != len(phi.items):
            raise Unsupported('loop-carried vector changes length')
        for x, y in zip(phi.items, nx.items):
            walk_next(x, y, lvmap, out)
        return
    if type(phi) is Arr:
        if type(nx) is Vec:
            nx = vec2arr(nx)
        if type(nx) is not Arr or len(nx.ks) != len(phi.ks):
            raise Unsupported('loop-carried array changes kind (%s)' % type(nx).__name__)
        b = nx.body
        if nx.ks != phi.ks:
            b = Sub(dict(zip(nx.ks, phi.ks))).v(b)
        walk_next(phi.body, b, lvmap, out)
        for s, t in zip(phi.shape, nx.shape):
            if s in lvmap:
                out[s] = t
            elif s is not t:
                raise Unsupported('array is resized inside the loop')
        return
    if type(phi) is Obj:
        if type(nx) is not Obj:
            raise Unsupported('loop-carried object changes kind')
        for k in phi.f:
            walk_next(phi.f[k], nx.f[k], lvmap, out)
        return
    if not vequal(phi, nx):
        raise Unsupported('loop-carried %s changes' % type(phi).__name__)


# ---------------------------------------------------------------- ite trees
def itemap(t, f, depth=0):
    if t.op == 'ite' and depth < 40:
        return T.ite(t.args[0], itemap(t.args[1], f, depth + 1), itemap(t.args[2], f, depth + 1))
    return f(t)


def ite_leaves(t, cond=()):
    if t.op == 'ite':
        yield from ite_leaves(t.args[1], cond + (t.args[0],))
        yield from ite_leaves(t.args[2], cond + (T.lnot(t.args[0]),))
    else:
        yield cond, t


def changed_cond(t, p):
    """condition under which the ite tree t differs from p"""
    if t is p:
        return T.FALSE
    if t.op == 'ite':
        a = changed_cond(t.args[1], p)
        b = changed_cond(t.args[2], p)
        return T.lor(T.land(t.args[0], a), T.land(T.lnot(t.args[0]), b))
    return T.TRUE


def drop_p(t, p):
    """value of the tree where it differs from p (leaves equal to p removed)"""
    if t.op == 'ite':
        if t.args[1] is p:
            return drop_p(t.args[2], p)
        if t.args[2] is p:
            return drop_p(t.args[1], p)
        a, b = drop_p(t.args[1], p), drop_p(t.args[2], p)
        if a is p:
            return b
        if b is p:
            return a
        return T.ite(t.args[0], a, b)
    return t


def pin(c, k, n):
    """if c implies that k equals one value e (free of k): (e, residual condition) else None"""
    if c.op == 'or':
        e0 = None
        rs = []
        for x in c.args[0]:
            r = pin(x, k, n)
            if r is None:
                return None
            if e0 is None:
                e0 = r[0]
            elif e0 is not r[0]:
                return None
            rs.append(r[1])
        return e0, T.lor(*rs)
    v = T._fixes(c, k)
    if v is not None:
        return v, T.subst(c, {k: v})
    # regions:  0 <= x - k*W - s < W
    cs = c.args[0] if c.op == 'and' else (c,)
    for a in cs:
        if a.op != 'lt0' or a.args[0].sort != 'i':
            continue
        d = a.args[0]          # want d = k*W - x + s  (i.e.  x - s - kW > 0 ... ) as  kW - (x-s) - 1 < 0
        W, rest = linear(d, k)
        if W is None or not T.positive(W):
            continue
        y = T.sub(T.neg(rest), T.ONE)     # x - s   : d = kW - y - 1 < 0  <=>  kW <= y
        # need another conjunct  y - kW - W < 0
        want = T.lt0(T.sub(T.sub(y, T.mul(k, W)), W))
        if want in cs:
            e = T.fdiv(y, W)
            others = [x for x in cs if x is not a and x is not want]
            return e, T.land(*[T.subst(x, {k: e}) for x in others])
    return None


def linear(d, k):
    """d = W*k + rest -> (W, rest) or (None, None)"""
    p = T._poly(d)
    W, rest = T.ZERO, T.ZERO
    for m, c in p.items():
        ex = [e for a, e in m if a is k]
        if not ex:
            t = T._frompoly({m: c}, d.sort)
            if T.has(t, k):
                return None, None
            rest = T.add(rest, t)
        elif ex == [1]:
            mm = tuple(x for x in m if x[0] is not k)
            t = T._frompoly({mm: c}, d.sort)
            if T.has(t, k):
                return None, None
            W = T.add(W, t)
        else:
            return None, None
    return (None, None) if W is T.ZERO else (W, rest)


# ---------------------------------------------------------------- recurrences
class Closed:
    """closed form of one leaf variable: at(Kx) is its value at the start of iteration Kx"""

    def __init__(self, lv, fn, what):
        self.lv, self.fn, self.what = lv, fn, what

    def at(self, kx):
        return self.fn(kx)


def solve(lvs, nexts, K, given=None, lens=None):
    """returns dict phi -> Closed"""
    closed = dict(given or {})
    lens = lens or {}
    todo = [lv for lv in lvs if lv.phi not in closed]

    def mapping():
        mp, arrs = {}, {}
        for ph, c in closed.items():
            if ph.op == 'asym':
                arrs[ph] = (c.lv.ks, c.at(K))
            else:
                mp[ph] = c.at(K)
        return Sub(mp, arrs)

    nexts = flagged(todo, nexts)
    progress = True
    while todo and progress:
        progress = False
        sub = mapping()
        unsolved = frozenset(lv.phi for lv in todo)
        for lv in list(todo):
            nx = sub.t(nexts[lv.phi])
            c = classify(lv, nx, K, unsolved)
            if c is not None:
                closed[lv.phi] = c
                todo.remove(lv)
                progress = True
                break
        if not progress and todo:
            # growing arrays: element stores at the (still counted) length
            pass
    if todo:
        sub = mapping()
        for lv, c in make_rec(todo, {lv.phi: sub.t(nexts[lv.phi]) for lv in todo}, K).items():
            closed[lv.phi] = c
    return closed


def flagged(todo, nexts):
    """'first time' flags:  b' = b or c, where every p changes only under c.  While b
    is false the p have their initial values; if the update of p is the same for a
    false and a true b there, it is the update with b true."""
    for fb in todo:
        b = fb.phi
        if fb.sort != 'b' or fb.ks or fb.init not in (T.FALSE, T.TRUE):
            continue
        nb = nexts[b]
        start, after = fb.init, T.lnot(fb.init)
        c = T.subst(nb, {b: start})
        if start is T.TRUE:
            c = T.lnot(c)
        if T.subst(nb, {b: after}) is not after:
            continue
        # dependences of the flag on the p are left to the general rules
        phis = frozenset(l.phi for l in todo)
        if not T.syms_of(c).isdisjoint(phis):
            continue
        need = set(c.args[0] if c.op == 'and' else (c,))
        ps = []
        for lv in todo:
            if lv is fb:
                continue
            p = T.sel(lv.phi, *lv.ks) if lv.ks else lv.phi
            cc = changed_cond(nexts[lv.phi], p)
            if need <= set(cc.args[0] if cc.op == 'and' else (cc,)):
                ps.append(lv)
        if not any(b in T.syms_of(nexts[lv.phi]) for lv in ps):
            continue
        at0 = Sub({lv.phi: lv.init for lv in ps if not lv.ks}, {lv.phi: (lv.ks, lv.init) for lv in ps if lv.ks})
        if all(at0.t(T.subst(nexts[lv.phi], {b: start})) is at0.t(T.subst(nexts[lv.phi], {b: after})) for lv in ps):
            nexts = dict(nexts)
            for lv in ps:
                nexts[lv.phi] = T.subst(nexts[lv.phi], {b: after})
    return nexts


def classify(lv, nx, K, unsolved):
    p = T.sel(lv.phi, *lv.ks) if lv.ks else lv.phi
    init = lv.init
    own = frozenset((lv.phi,))

    def free(t):
        return T.syms_of(t).isdisjoint(unsolved)

    def atq(t, q):
        return T.subst(t, {K: q})

    if nx is p:
        return Closed(lv, lambda kx: init, 'invariant')
    if lv.ks:
        nx = own_reads(lift(nx, lv, p), lv, p, frozenset())
        cc = changed_cond(nx, p)
        if free(cc):
            r = pin(cc, K, None)
            if r is not None and not T.has(r[0], K):
                e, resid = r
                x = drop_p(nx, p)
                x = T.subst(x, {K: e})
                # the old value of the element itself
                mark = T.fresh('old', lv.sort)
                x2 = Sub({}, {}).t(x)
                x2 = replace_self(x, lv, mark)
                if x2 is not None and T.syms_of(x2).isdisjoint(unsolved):
                    g = T.land(T.le(T.ZERO, e), resid)
                    return Closed(lv, lambda kx: T.ite(T.land(g, T.lt(e, kx)), T.subst(x2, {mark: init}), init), 'store')
        d = itemap(nx, lambda l: T.sub(l, p)) if lv.sort in 'ir' else None
        if d is not None and free(d):
            return Closed(lv, lambda kx: sum_closed(init, d, K, kx), 'accumulate')
        if free(cc):
            x = drop_p(nx, p)
            if free(x):
                return Closed(lv, lambda kx: last_closed(K, kx, cc, x, init), 'laststore')
        return None
    # scalars
    if free(nx):
        def prev(kx):
            if kx is T.ZERO:
                return init
            return T.ite(T.eq(kx, T.ZERO), init, atq(nx, T.sub(kx, T.ONE)))
        return Closed(lv, prev, 'previous')
    if lv.sort in 'ir':
        d = itemap(nx, lambda l: T.sub(l, p))
        if free(d):
            if not T.has(d, K):
                return Closed(lv, lambda kx: T.add(init, T.mul(kx, d)), 'induction')
            return Closed(lv, lambda kx: sum_closed(init, d, K, kx), 'sum')
    if lv.sort == 'b':
        f1 = T.subst(nx, {p: T.TRUE})
        f0 = T.subst(nx, {p: T.FALSE})
        if free(f1) and free(f0):
            if f0 is T.FALSE:
                return Closed(lv, lambda kx: T.land(init, T.lnot(ex_closed(K, kx, T.lnot(f1)))), 'all')
            if f1 is T.TRUE:
                return Closed(lv, lambda kx: T.lor(init, ex_closed(K, kx, f0)), 'any')
            if f1 is T.lnot(f0):
                def par(kx):
                    q = T.fresh('q', lo=0)
                    s = T.tsum(q, T.ZERO, kx, T.b2i(atq(f0, q)))
                    odd = T.eq(T.fmod(s, T.num(2)), T.ONE)
                    return T.ite(odd, T.lnot(init), init)
                return Closed(lv, par, 'parity')
            # set / clear / keep
            cset, cclr = T.land(f0, f1), T.land(T.lnot(f0), T.lnot(f1))
            return Closed(lv, lambda kx: last_closed(K, kx, T.lor(cset, cclr), cset, init), 'latch') \
                if T.land(f0, T.lnot(f1)) is T.FALSE else None
    cc = changed_cond(nx, p)
    x = drop_p(nx, p)
    if free(cc) and free(x):
        return Closed(lv, lambda kx: last_closed(K, kx, cc, x, init), 'last')
    # running minimum / maximum
    if lv.sort in 'ir':
        r = minmax(nx, p, free)
        if r is not None:
            g, c, ismax = r

            def mm(kx):
                q = T.fresh('q', lo=0)
                gg = atq(g, q)
                if c is not T.TRUE:
                    gg = T.ite(atq(c, q), gg, T.neg(T.INF) if ismax else T.INF)
                return T.minover(q, kx, gg, init, ismax)
            return Closed(lv, mm, 'minmax')
        if nx.op == 'poly' and len(nx.args[0]) == 1:
            (m, c), = nx.args[0]
            if [e for a, e in m if a is p] == [1]:
                g = T._frompoly({tuple(y for y in m if y[0] is not p): c}, nx.sort)
                if free(g):
                    def pr(kx):
                        q = T.fresh('q', lo=0)
                        return T.mul(init, T.tprod(q, T.ZERO, kx, atq(g, q)))
                    return Closed(lv, pr, 'product')
    return None


def lift(nx, lv, p):
    """conditions on the element index inside sums and products moved to the top"""
    if nx is p or nx.op == 'ite':
        return nx
    ks = frozenset(lv.ks)
    conds, seen = [], set()

    def walk(t):
        if t in seen or T.syms_of(t).isdisjoint(ks):
            return
        seen.add(t)
        if t.op == 'ite' and not t.args[0].bv and not T.syms_of(t.args[0]).isdisjoint(ks):
            if t.args[0] not in conds:
                conds.append(t.args[0])
        T.rebuild(t, lambda x: walk(x) or x)
    walk(nx)
    for c in conds[:4]:
        a, b = T.subst(nx, {c: T.TRUE}), T.subst(nx, {c: T.FALSE})
        if a is p or b is p:
            return T.ite(c, a, b)
    return nx


def own_reads(t, lv, p, ctx):
    """under 'index == e' a read of element e is a read of the element itself"""
    if lv.phi not in T.syms_of(t) or t is p:
        return t
    if t.op == 'ite':
        c, a, b = t.args
        cs = frozenset(c.args[0] if c.op == 'and' else (c,))
        nc = T.lnot(c)
        ncs = frozenset(nc.args[0] if nc.op == 'and' else (nc,))
        return T.ite(own_reads(c, lv, p, ctx), own_reads(a, lv, p, ctx | cs), own_reads(b, lv, p, ctx | ncs))
    if t.op == 'sel' and t.args[0] is lv.phi:
        if all(T.same(a, b) or T.eq(a, b) in ctx for a, b in zip(t.args[1], lv.ks)):
            return p
        return t
    return T.rebuild(t, lambda x: own_reads(x, lv, p, ctx))


def replace_self(x, lv, mark):
    """replace sel(A, ks) by mark; None if another element of A is read"""
    p = T.sel(lv.phi, *lv.ks)
    bad = [False]

    def f(t):
        if t is p:
            return mark
        if lv.phi not in T.syms_of(t):
            return t
        if t.op == 'sel' and t.args[0] is lv.phi:
            if all(T.same(a, b) for a, b in zip(t.args[1], lv.ks)):
                return mark
            bad[0] = True
            return t
        return T.rebuild(t, f)
    r = f(x)
    return None if bad[0] else r


def sum_closed(init, d, K, kx):
    q = T.fresh('q', lo=0)
    return T.add(init, T.tsum(q, T.ZERO, kx, T.subst(d, {K: q})))


def last_closed(K, kx, c, g, init):
    q = T.fresh('q', lo=0)
    return T.lastval(q, kx, T.subst(c, {K: q}), T.subst(g, {K: q}), init)


def ex_closed(K, kx, c):
    q = T.fresh('q', lo=0)
    return T.exists(q, kx, T.subst(c, {K: q}))


def minmax(nx, p, free):
    """p' = min(p, g) under condition c  ->  (g, c, ismax)"""
    if nx.op in ('min', 'max') and p in nx.args:
        rest = [a for a in nx.args if a is not p]
        g = rest[0]
        for a in rest[1:]:
            g = T.tmin(g, a) if nx.op == 'min' else T.tmax(g, a)
        if free(g):
            return g, T.TRUE, nx.op == 'max'
    if nx.op == 'ite':
        c, a, b = nx.args
        for cond, g, other in ((c, a, b), (T.lnot(c), b, a)):
            if other is not p:
                continue
            if not free(g):
                r = minmax(g, p, free)
                if r is not None and free(cond):
                    return r[0], T.land(cond, r[1]), r[2]
                continue
            cs = cond.args[0] if cond.op == 'and' else (cond,)
            for x in cs:
                rest = T.land(*[y for y in cs if y is not x])
                if not free(rest):
                    continue
                if x is T.lt(g, p) or x is T.le(g, p):
                    return g, rest, False
                if x is T.lt(p, g) or x is T.le(p, g):
                    return g, rest, True
    return None


def make_rec(todo, nexts, K):
    """joint recurrence for the variables with no closed form"""
    kinds = []
    base = 0
    for lv in todo:
        for t in (lv.init, nexts[lv.phi]):
            base = max(base, t.bv)
    svs = []
    n = base + 1
    bk = T.bvar(n, 'i')
    svs.append(bk)
    mp, am = {K: bk}, {}
    for lv in todo:
        n += 1
        if lv.ks:
            if len(lv.ks) != 1:
                raise Unsupported('coupled recurrence over a multi-dimensional array %s' % lv.name)
            b = T.bvar(n, 'a')
            kinds.append('a')
            am[lv.phi] = b
        else:
            b = T.bvar(n, lv.sort)
            kinds.append('s')
            mp[lv.phi] = b
        svs.append(b)
    inits, nxts = [], []
    full = dict(mp)
    full.update(am)
    for lv in todo:
        nx = nexts[lv.phi]
        if lv.ks:
            n += 1
            bj = T.bvar(n, 'i')
            inits.append((lv.shape[0], bj, T.subst(lv.init, {lv.ks[0]: bj})))
            m2 = dict(full)
            m2[lv.ks[0]] = bj
            nxts.append((lv.shape[0], bj, T.subst(nx, m2)))
        else:
            inits.append(lv.init)
            nxts.append(T.subst(nx, full))
    out = {}
    for i, lv in enumerate(todo):
        def fn(kx, i=i, lv=lv):
            return T.mk('rec', (num_i(i), kx, tuple(inits), tuple(nxts), tuple(kinds), tuple(svs),
                                lv.ks[0] if lv.ks else T.ZERO), lv.sort)
        out[lv] = Closed(lv, fn, 'recurrence')
    return out


def num_i(i):
    return i


# ---------------------------------------------------------------- trip counts
def trip_count(c, K):
    """number of iterations of  while (c(K)), K = 0,1,..;  returns (N, exact linear?)"""
    cs = c.args[0] if c.op == 'and' else (c,)
    N = None
    other = []
    for x in cs:
        if not T.has(x, K):
            n = T.ite(x, T.INFK, T.ZERO)
            other.append(x)
            continue
        b = None
        if x.op == 'lt0':
            W, rest = linear(x.args[0], K)
            if W is not None and T.positive(W):
                if x.args[0].sort == 'i':
                    b = T.fdiv(T.add(T.neg(rest), T.sub(W, T.ONE)), W)
        elif x.op == 'not' and x.args[0].op == 'eq0':
            W, rest = linear(x.args[0].args[0], K)
            if W is not None and T.is_num(W) and abs(W.args[0]) == 1:
                b = T.mul(T.num(-W.args[0]), rest)
        if b is None:
            other.append(x)
        else:
            N = b if N is None else T.tmin(N, b)
    if N is not None:
        N = T.tmax(T.ZERO, N)
    inv = [x for x in other if not T.has(x, K)]
    var = [x for x in other if T.has(x, K)]
    if var:
        N = T.first(K, N if N is not None else T.INFK, T.lnot(T.land(*var)))
    if N is None:
        N = T.INFK
    if inv:
        N = T.ite(T.land(*inv), N, T.ZERO)
    return N


# ---------------------------------------------------------------- the driver
class SplitOn(Unsupported):
    """the loop has to be analysed separately under a condition and its negation"""

    def __init__(self, c):
        super().__init__('loop over a value that depends on a condition')
        self.c = c


def under(st, c):
    """the state restricted to a condition, values chosen by it resolved"""
    s = st.copy().assume(c)

    def deep(v):
        if type(v) is Choice:
            k = s.simp(v.c)
            if k is T.TRUE:
                return deep(v.a)
            if k is T.FALSE:
                return deep(v.b)
            return v
        if type(v) is Obj:
            f = {k: deep(x) for k, x in v.f.items()}
            return v if all(f[k] is v.f[k] for k in f) else Obj(v.cls, f)
        if type(v) is Vec:
            xs = [deep(x) for x in v.items]
            return v if all(a is b for a, b in zip(xs, v.items)) else Vec(xs)
        return v
    for r, v in s.store.items():
        s.store[r] = deep(v)
    return s


def run_loop(I, st, cond, body, inc, info=None, depth=0):
    marks = [(l, len(l)) for l in (I.accesses, I.undefs)]
    try:
        return run_loop1(I, st, cond, body, inc, info)
    except SplitOn as e:
        if depth >= 3 or not T.syms_of(e.c).isdisjoint(I.phis):
            raise Unsupported(str(e))
        for l, m in marks:
            del l[m:]
        out = Outcome()
        for c in (e.c, T.lnot(e.c)):
            s = under(st, c)
            if c is T.FALSE:
                continue
            o = run_loop(I, s, cond, body, inc, info, depth + 1)
            out.absorb(o, loop=True)
            for s2 in (o.next,):
                out.next = merge_states(out.next, s2)
        return out


def run_loop1(I, st, cond, body, inc, info=None):
    """executes a loop abstractly; returns an Outcome"""
    out = Outcome()
    cur = st.copy()
    marks = [(l, len(l)) for l in (I.accesses, I.undefs)]
    for it in range(UNROLL + 1):
        c = cur.simp(cond(cur))
        if c is T.FALSE:
            out.next = merge_states(out.next, cur)
            return out
        if c is not T.TRUE or it == UNROLL:
            if it:
                # summarise from the start rather than from the unrolled prefix
                saved = [list(l[m:]) for l, m in marks]
                for l, m in marks:
                    del l[m:]
                try:
                    return sym_loop(I, st.copy(), cond, body, inc, info)
                except Unsupported:
                    for (l, m), x in zip(marks, saved):
                        l[m:] = x
            o = sym_loop(I, cur, cond, body, inc, info)
            out.absorb(o, loop=True)
            out.next = merge_states(out.next, o.next)
            return out
        ws = info is not None and info.get('omp') is not None
        if ws:
            I.loopctx.append({'k': T.num(it), 'n': T.num(it + 1), 'info': info, 'closed': {}})
        try:
            o = body(cur)
        finally:
            if ws:
                I.loopctx.pop()
        out.absorb(o, loop=True)
        out.next = merge_states(out.next, o.brk)
        cur = merge_states(o.next, o.cont)
        if cur is None:
            return out
        r = inc(cur)
        if r is not None:
            cur = r
    return out


def all_states(o):
    r = []
    for s in (o.next, o.cont, o.brk):
        if s is not None:
            r.append(s)
    r += [s for s, _ in o.ret]
    r += list(o.exit)
    return r


def sym_loop(I, st, cond, body, inc, info):
    I.quiet += 1
    roots0 = set(st.store)
    mods = {}         # (root,path) -> spec dict
    try:
        # --- which locations change?
        for rnd in range(12):
            sk, phis, lvs, ptrs = install(st, mods)
            I.phis.update(lv.phi for lv in lvs)
            c0 = sk.simp(cond(sk))
            sb = sk.copy().assume(c0)
            pre = sk
            o = body(sb)
            nxt = merge_states(o.next, o.cont)
            if nxt is not None:
                r = inc(nxt)
                if r is not None:
                    nxt = r
            d = {}
            for s in ([nxt] if nxt is not None else []):
                for r in roots0:
                    if s.store.get(r) is not pre.store[r]:
                        diff(r, (), pre.store[r], s.store[r], d)
            new = False
            for (r, pth), pairs in d.items():
                if (r, pth) in mods and not mods[(r, pth)].get('regrow'):
                    a, b = pairs[0]
                    if type(b) is Choice and (isinstance(a, (Vec, Arr)) or mods[(r, pth)]['kind'] == 'opt'):
                        b = longest(b)
                    m = mods[(r, pth)]
                    if m['kind'] == 'opt' and isinstance(b, (Vec, Arr)) and (
                            type(b) is Arr or len(b.items) != len(m['template'].items)):
                        m['kind'] = 'grow'
                        m['template'] = b
                        new = True
                        continue
                    if m['kind'] == 'plain' and type(b) in (Arr, Vec) and needs_grow(a, b):
                        m['kind'] = 'grow'
                        m['template'] = b
                        new = True
                    continue
                if covered(mods, r, pth):
                    continue
                a, b = pairs[0]
                if type(b) is Choice and isinstance(a, (Vec, Arr)):
                    b = longest(b)
                kind = 'plain'
                if type(a) is Vec and not a.items and type(pairs[0][1]) in (Choice, Vec) and alternatives(pairs[0][1]):
                    kind = 'opt'
                elif type(a) is Stream:
                    kind = 'stream'
                elif isinstance(a, (Vec, Arr)) and isinstance(b, (Vec, Arr)) and needs_grow(a, b):
                    kind = 'grow'
                elif type(a) is Ptr:
                    kind = 'ptr'
                elif type(a) is Choice and T.syms_of(a.c).isdisjoint(frozenset(l.phi for l in lvs)):
                    raise SplitOn(a.c)
                elif not isinstance(a, (Term, Arr, Vec, UndefV)):
                    raise Unsupported('loop changes %s %s' % (r.name, type(a).__name__))
                # drop finer entries
                for key in [k for k in mods if k[0] is r and k[1][:len(pth)] == pth]:
                    del mods[key]
                mods[(r, pth)] = {'kind': kind, 'template': b}
                new = True
            if not new:
                break
        else:
            raise Unsupported('loop modification set does not stabilise')
        # --- solve
        K = T.fresh('it', lo=0)
        if nxt is None:
            # the body always leaves the loop in its first iteration
            I.quiet -= 1
            try:
                return once(st, c0, cond, body)
            finally:
                I.quiet += 1
        nexts = read_next(mods, phis, lvs, nxt, ptrs)
        given = {}
        for lv in lvs:
            if lv.ks:
                continue
            nx = nexts[lv.phi]
            d0 = T.sub(nx, lv.phi) if lv.sort == 'i' else None
            if d0 is not None and T.syms_of(d0).isdisjoint(frozenset(l.phi for l in lvs)):
                given[lv.phi] = Closed(lv, (lambda init, d0: lambda kx: T.add(init, T.mul(kx, d0)))(lv.init, d0), 'induction')
        Kb = K
        N = None
        if given:
            c1 = Sub({p: c.at(K) for p, c in given.items()}).t(c0)
            if T.syms_of(c1).isdisjoint(frozenset(l.phi for l in lvs)):
                N = trip_count(c1, K)
                Kb = T.fresh('it', lo=0, ub=N if N is not T.INFK else None)
                # refined pass with the induction variables in closed form
                sk2 = State(dict(sk.store), sk.pc)
                sb0 = Sub({p: c.at(Kb) for p, c in given.items()})
                for r in {r for r, _ in mods}:
                    sk2.store[r] = sb0.v(sk2.store[r])
                cc = sk2.simp(cond(sk2))
                o = body(sk2.copy().assume(cc) if N is None else sk2.copy())
                nxt = merge_states(o.next, o.cont)
                if nxt is None:
                    raise Unsupported('loop body never completes')
                r = inc(nxt)
                if r is not None:
                    nxt = r
                phis2 = {k: (sb0.v(v) if v is not None else None) for k, v in phis.items()}
                nexts = read_next(mods, phis, [l for l in lvs if l.phi not in given], nxt, ptrs)
        closed = solve([l for l in lvs if l.phi not in given], nexts, Kb, given, None)
        grow_fix(mods, phis, lvs, nexts, closed, given, Kb)
        # --- state at iteration Kb
        def state_at(kx, items=None):
            mp, arrs = {}, {}
            for ph, c in closed.items():
                if ph.op == 'asym':
                    arrs[ph] = (c.lv.ks, c.at(kx))
                else:
                    mp[ph] = c.at(kx)
            s = State(dict(sk.store), st.pc)
            sub = Sub(mp, arrs)
            for r in {r for r, _ in mods}:
                s.store[r] = sub.v(s.store[r])
            return s
        sK = state_at(Kb)
        cK = sK.simp(cond(sK))
        if N is None:
            N = trip_count(cK, Kb)
            K2 = T.fresh('it', lo=0, ub=N if N is not T.INFK else None)
            sm = Sub({Kb: K2})
            sK = state_at(K2)
            cK = sm.t(cK)
            Kf = K2
        else:
            Kf = Kb
    finally:
        I.quiet -= 1
    # --- final pass, with logging
    I.loopctx.append({'k': Kf, 'n': N, 'info': info, 'closed': closed})
    try:
        sF = sK.copy()
        if T.has(cK, Kf) and cK is not T.TRUE and 'first' in opset(N):
            sF.assume(cK)
        o = body(sF)
        nxtF = merge_states(o.next, o.cont)
        if nxtF is not None:
            r = inc(nxtF)
            if r is not None:
                nxtF = r
    finally:
        I.loopctx.pop()
    out = Outcome()
    leaves = []
    npc = len(st.pc)
    if o.brk is not None:
        leaves.append(('brk', o.brk, None))
    for s, v in o.ret:
        leaves.append(('ret', s, v))
    for s in o.exit:
        leaves.append(('exit', s, None))
    n1 = N
    if leaves:
        stop = T.lor(*[T.land(*s.pc[npc:]) for _, s, _ in leaves])
        n1 = T.first(Kf, N, stop)
    fin = state_at(n1)
    # streams
    streams = {k: m for k, m in mods.items() if m['kind'] == 'stream'}
    for (r, pth), m in streams.items():
        base = loc_get(st, r, pth)
        rep = ()
        if nxtF is not None:
            items = strip_phi(loc_get(nxtF, r, pth).items)
            if items:
                rep = (Rep(Kf, n1, items, info),)
        loc_set(fin, r, pth, Stream(base.items + rep))
        m['pre'] = Stream(base.items + rep)
    for r in list(fin.store):
        if r not in roots0:
            del fin.store[r]
    # heap objects created in the loop stay visible
    if nxtF is not None:
        for r, v in nxtF.store.items():
            if r not in roots0 and getattr(r, 'shared', None) == 'heap':
                fin.store[r] = v
    if leaves:
        hit = T.lt(n1, N)
        sub = Sub({Kf: n1})
        for kind, s, v in leaves:
            s2 = State({}, st.pc)
            for r, val in s.store.items():
                if r in roots0 and val is st.store.get(r):
                    s2.store[r] = val
                else:
                    s2.store[r] = sub.v(val)
            for (r, pth), m in streams.items():
                items = strip_phi(loc_get(s, r, pth).items)
                loc_set(s2, r, pth, Stream(m['pre'].items + sub.v(Stream(items)).items))
            s2.assume(hit)
            for c in s.pc[npc:]:
                s2.assume(sub.t(c))
            if kind == 'brk':
                out.next = merge_states(out.next, s2)
            elif kind == 'ret':
                out.ret.append((s2, sub.v(v) if isinstance(v, VALTYPES) else v))
            else:
                out.exit.append(s2)
        fin.assume(T.lnot(hit))
        if T.lnot(hit) is T.FALSE:
            return out
    out.next = merge_states(out.next, fin)
    return out


def opset(t):
    return {x.op for x in T.walk(t)}


def once(st, c0, cond, body):
    s = st.copy()
    c = s.simp(cond(s))
    sb = s.copy().assume(c)
    o = body(sb)
    out = Outcome()
    out.ret, out.exit = o.ret, o.exit
    rest = s.copy().assume(T.lnot(c))
    out.next = merge_states(o.brk, rest)
    return out


def longest(v):
    if type(v) is not Choice:
        return v
    a, b = longest(v.a), longest(v.b)
    if type(a) is Vec and type(b) is Vec:
        return a if len(a.items) >= len(b.items) else b
    return b if type(b) is Arr else a


def alternatives(v):
    """v is one of: empty, or a vector of one known length assigned as a whole"""
    ls = set()

    def walk(x):
        if type(x) is Choice:
            return walk(x.a) and walk(x.b)
        if type(x) is not Vec:
            return False
        ls.add(len(x.items))
        return True
    return walk(v) and len(ls - {0}) == 1 and ls != {0} and min(ls - {0}) > 0 and (len(ls) == 2)


def nonempty(v):
    if type(v) is Choice:
        return T.lor(T.land(v.c, nonempty(v.a)), T.land(T.lnot(v.c), nonempty(v.b)))
    if type(v) is not Vec:
        raise Unsupported('loop-carried vector changes kind')
    return T.TRUE if v.items else T.FALSE


def filled_alt(v, dflt):
    """the elements where the vector is not empty"""
    if type(v) is Choice:
        return merge(v.c, filled_alt(v.a, dflt), filled_alt(v.b, dflt))
    if type(v) is not Vec or v.items and len(v.items) != len(dflt.items):
        raise Unsupported('loop-carried vector changes length')
    return v if v.items else dflt


def needs_grow(a, b):
    if type(a) is Vec and type(b) is Vec:
        return len(a.items) != len(b.items)
    if type(a) is Arr and type(b) is Arr:
        return any(x is not y for x, y in zip(a.shape, b.shape))
    return type(a) is Vec and type(b) is Arr


def covered(mods, r, pth):
    for (q, p2), m in mods.items():
        if q is r and len(p2) < len(pth) and pth[:len(p2)] == p2:
            return True
    return False


def install(st, mods):
    """state at the head of an arbitrary iteration"""
    sk = st.copy()
    phis, lvs, ptrs = {}, [], {}
    for (r, pth), m in mods.items():
        v = loc_get(st, r, pth)
        name = (r.name + ''.join('.' + s if type(s) is str else '' for s in pth)) or 'v'
        if m['kind'] == 'stream':
            ph = Stream((Item('<phi>', ()),))
        elif m['kind'] == 'opt':
            fl = T.fresh(name + '.set', 'b')
            lvs.append(LV(fl, (), T.FALSE, 'b', name + '.set'))
            sub = []
            ph = Choice(fl, make_phi(Vec(vmap_undef(x) for x in m['template'].items), name, [], sub, []), v)
            lvs.extend(sub)
        elif m['kind'] == 'grow':
            a = vec2arr(v) if type(v) is Vec else v
            if type(v) is Vec and not v.items:
                t = m['template']
                el = t.items[-1] if type(t) is Vec else t.body
                a = Arr((T.ZERO,), a.ks, vmap_undef(el))
            n0 = a.shape[0]
            nphi = T.fresh(name + '.size', lo=0)
            lv0 = LV(nphi, (), n0, 'i', name + '.size')
            lvs.append(lv0)
            sub = []
            body = make_phi(a.body, name, list(a.ks), sub, [T.ZERO])
            lvs.extend(sub)
            for s in sub:
                s.shape = (nphi,)
            ph = Arr((nphi,), a.ks, body)
            m['lvs'] = (lv0, sub)
        elif m['kind'] == 'ptr':
            if not v.path or type(v.path[-1]) is not tuple or v.path[-1][0] != 'i':
                raise Unsupported('pointer %s changes in a loop' % name)
            s = T.fresh(name, 'i')
            lvs.append(LV(s, (), v.path[-1][-1], 'i', name))
            ph = Ptr(v.root, v.path[:-1] + (v.path[-1][:-1] + (s,),))
        elif type(v) is UndefV or (type(v) is Term and v.op == 'undef'):
            t = m['template']
            if type(v) is UndefV:
                v = undef_like(t, v.origin)
            ph = make_phi(v, name, [], lvs, [])
        else:
            if type(v) is Vec and type(m['template']) is Arr:
                v = vec2arr(v)
            ph = make_phi(v, name, [], lvs, [], r.ty if not pth else None)
        phis[(r, pth)] = ph
        loc_set(sk, r, pth, ph)
    return sk, phis, lvs, ptrs


def undef_like(t, origin):
    if type(t) is Term:
        return T.undef(origin, t.sort)
    return vmap(t, lambda x: T.undef(origin, x.sort))


def vmap_undef(v):
    if type(v) is Term:
        return T.undef('element past the end', v.sort)
    if type(v) is Vec:
        return Vec(vmap_undef(x) for x in v.items)
    if type(v) is Arr:
        return Arr(v.shape, v.ks, vmap_undef(v.body))
    if type(v) is Obj:
        return Obj(v.cls, {k: vmap_undef(x) for k, x in v.f.items()})
    raise Unsupported('element of kind %s' % type(v).__name__)


def read_next(mods, phis, lvs, nxt, ptrs):
    lvmap = {lv.phi for lv in lvs}
    out = {}
    for (r, pth), m in mods.items():
        b = loc_get(nxt, r, pth)
        ph = phis[(r, pth)]
        if m['kind'] == 'stream':
            continue
        if m['kind'] == 'opt':
            out[ph.c] = nonempty(b)
            walk_next(ph.a, filled_alt(b, ph.a), lvmap, out)
            continue
        if m['kind'] == 'ptr':
            if type(b) is not Ptr or b.root is not ph.root or b.path[:-1] != ph.path[:-1]:
                raise Unsupported('pointer changes target in a loop')
            if ph.path[-1][-1] in lvmap:
                out[ph.path[-1][-1]] = b.path[-1][-1]
            continue
        walk_next(ph, b, lvmap, out)
    for lv in lvs:
        if lv.phi not in out:
            out[lv.phi] = T.sel(lv.phi, *lv.ks) if lv.ks else lv.phi
    return out


def grow_fix(mods, phis, lvs, nexts, closed, given, K):
    """arrays filled by push_back:  element j is the value pushed at the j-th successful iteration"""
    for key, m in mods.items():
        if m['kind'] != 'grow':
            continue
        lv0, subs = m['lvs']
        nl = nexts.get(lv0.phi)
        if lv0.phi in given or nl is None:
            continue
        mp = Sub({p: c.at(K) for p, c in closed.items() if p.op != 'asym' and p is not lv0.phi},
                 {p: (c.lv.ks, c.at(K)) for p, c in closed.items() if p.op == 'asym' and c.lv not in subs})
        nl = mp.t(nl)
        if nl.op != 'ite':
            continue
        c, a, b = nl.args
        if T.sub(a, lv0.phi) is T.ONE and b is lv0.phi:
            pass
        elif T.sub(b, lv0.phi) is T.ONE and a is lv0.phi:
            c = T.lnot(c)
        else:
            continue
        if not T.syms_of(c).isdisjoint(frozenset(l.phi for l in lvs)):
            continue
        ok = {}
        for lv in subs:
            nx = mp.t(nexts[lv.phi])
            p = T.sel(lv.phi, *lv.ks)
            cc = changed_cond(nx, p)
            x = drop_p(nx, p)
            want = T.land(c, T.eq(lv.ks[0], lv0.phi))
            if cc is want and T.syms_of(x).isdisjoint(frozenset(l.phi for l in lvs)):
                ok[lv] = x
        if len(ok) != len(subs):
            continue
        n0 = lv0.init
        for lv, x in ok.items():
            def fn(kx, lv=lv, x=x):
                q = T.fresh('q', lo=0)
                pos = T.nth(q, kx, T.subst(c, {K: q}), T.sub(lv.ks[0], n0))
                val = T.subst(x, {K: pos})
                if n0 is T.ZERO:
                    return val
                return T.ite(T.lt(lv.ks[0], n0), lv.init, val)
            closed[lv.phi] = Closed(lv, fn, 'push')


def strip_phi(items):
    return tuple(strip_items(items))


def strip_items(items):
    for it in items:
        if type(it) is Item and it.kind == '<phi>':
            continue
        if type(it) is Alt:
            yield Alt(it.c, strip_phi(it.a), strip_phi(it.b))
        else:
            yield it
