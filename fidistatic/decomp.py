"""Abstract CubeDecomp: driving the search, and the generic valid decomposition."""
import itertools
from fractions import Fraction
from . import term as T
from . import drive
from .drive import Session, item
from .values import Vec, Sub, State, Choice, vlen, Unsupported

CLS = 'CubeDecomp'


class Searched:
    """a decomposition object after build(P, G) for arbitrary P and G"""

    def __init__(self, prog, d, precise=False, session=None, pre=''):
        """session: one in which other objects have been used before; pre: of the names of the symbols"""
        self.d = d
        self.G = [T.sym('%sG%d' % (pre, i), 'i', lo=1) for i in range(d)]
        self.P = T.sym(pre + 'P', 'i', lo=1)
        s = self.s = session or Session(prog, precise)
        self.obj = s.new(CLS)
        self.ok = s.call(self.obj, CLS + '::build', self.P, s.box(Vec(self.G)))
        self.where = s.where_
        if not isinstance(self.ok, T.Term):
            raise Unsupported('result of build')
        self.dec = s.call(self.obj, CLS + '::getDecomp')


def oracle(P, G):
    """first cheapest divisor tuple (first axis fastest) or None; independent brute force"""
    best = None
    divs = [[k for k in range(1, g + 1) if g % k == 0] for g in G]
    for rev in itertools.product(*[d for d in reversed(divs)]):
        dec = tuple(reversed(rev))
        p = 1
        for x in dec:
            p *= x
        if p != P:
            continue
        L = [g // x for g, x in zip(G, dec)]
        vol = 1
        for l in L:
            vol *= l
        c = sum(Fraction(vol, l) for l in L) / vol
        if best is None or c < best[0]:
            best = (c, dec)
    return best and best[1]


_oc = {}


def orc(*a):
    if a not in _oc:
        _oc[a] = oracle(a[0], a[1:])
    return _oc[a]


FUNCS = {'decomposable': lambda *a: orc(*a) is not None}
for _i in range(8):
    FUNCS['best%d' % _i] = (lambda i: lambda *a: (orc(*a) or (0,) * 8)[i])(_i)


def hinted(rng, d):
    """process count and grid around a constant of the program"""
    h = rng.hint(1)
    g = [rng.choice([1, 1, 2, 3]) for _ in range(d)]
    i = rng.randrange(d)
    g[i] = max(1, min(h * rng.choice([1, 2]) + rng.choice([0, 1]), 4000))
    p = 1
    for x in g:
        p *= rng.choice([k for k in range(1, x + 1) if x % k == 0])
    return rng.choice([p, h]), tuple(g)


def overflow_cases():
    """(P, grid of primes) where the product of all cells is congruent to P modulo 2**32"""
    return [(8187, (1601, 1619, 1657)), (18303, (1279, 1567, 2143))]


def valid(S, pre=''):
    """substitute the generic valid decomposition: G_i = D_i L_i, P = prod D; returns (session, obj, D, L, P, full)

    The search result is replaced by arbitrary D_i: everything that follows is
    shown for every factorisation, not only the one the search happens to pick."""
    d = S.d
    s = S.s.fork()
    s.st.assume(S.ok)
    dec = s.st.vsimp(s.call(S.obj, CLS + '::getDecomp'))
    if type(dec) is not Vec or len(dec.items) != d:
        raise Unsupported('decomposition is not a vector of %d entries' % d)
    D = [T.sym('%sD%d' % (pre, i), 'i', lo=1) for i in range(d)]
    L = [T.sym('%sL%d' % (pre, i), 'i', lo=1) for i in range(d)]
    P = T.mul(T.ONE, *D)
    mp = {}
    for i in range(d):
        t = dec.items[i]
        mp[t] = D[i]
        mp[S.G[i]] = T.mul(D[i], L[i])
    mp[S.P] = P
    mp[S.ok] = T.TRUE
    mp[T.lnot(S.ok)] = T.FALSE
    sub = Sub(mp)
    s.st = State({r: sub.v(v) for r, v in s.st.store.items()}, ())
    return s, D, L, P


def samples_DL(D, L, extra=None):
    def f(rng, n):
        env = {}
        for a, b in zip(D, L):
            env[a] = rng.choice([1, 1, 2, 3, 4, 5])
            env[b] = rng.choice([1, 1, 2, 3, 4])
        if extra:
            extra(rng, n, env)
        return env
    return f


# ------------------------------------------------------------ facts about search results
def prove_search(S, goals):
    """goals(terms of the decomposition) -> conditions; shown for every selected candidate"""
    s = S.s.fork()
    s.st.assume(S.ok)
    dec = s.st.vsimp(s.call(S.obj, CLS + '::getDecomp'))
    if type(dec) is not Vec:
        return None
    ts = list(dec.items)
    variants = [ts]
    lv = [t for t in ts if t.op == 'lastval']
    if lv:
        if len(lv) != len(ts) or any(t.args[1] is not lv[0].args[1] or T.subst(t.args[2], {t.args[0]: lv[0].args[0]}) is not lv[0].args[2] for t in lv):
            return None
        kap = T.fresh('cand', lo=0, ub=lv[0].args[1])
        variants = [[T.subst(t.args[3], {t.args[0]: kap}) for t in ts], [t.args[4] for t in ts]]
    res = []
    for v in variants:
        nths = set()
        for t in v:
            nths |= {x for x in T.walk(t) if x.op == 'nth'}
        facts = {}
        changed = True
        pend = [T.subst(x.args[2], {x.args[0]: x}) for x in nths]
        for _ in range(3):
            for c in list(pend):
                c = Sub(facts).t(c) if facts else c
                for y in (c.args[0] if c.op == 'and' else (c,)):
                    if y is not T.TRUE:
                        facts[y] = T.TRUE
        res.append((v, facts))
    ok = True
    for v, facts in res:
        # selected positions and counts become opaque symbols
        op = Opaque()
        v = [op.t(x) for x in v]
        facts = {op.t(c): T.TRUE for c in facts if closed(c)}
        for g in goals(v):
            h = prove_under(g, facts)
            ok = ok and h
    return ok


class Opaque:
    def __init__(self):
        self.mp = {}

    def t(self, x):
        if x.op in ('nth', 'sum', 'first', 'lastval', 'minover'):
            if x not in self.mp:
                self.mp[x] = T.fresh('opq', x.sort, **({'lo': 0} if x.op in ('nth', 'first') else {}))
            return self.mp[x]
        return T.rebuild(x, self.t)


def closed(c):
    return not T.Valuation({})._bvs(c)


def prove_under(g, facts, depth=0):
    """g follows from the facts, splitting on conditionals"""
    g = Sub(facts).t(g) if facts else g
    if g is T.TRUE:
        return True
    if g is T.FALSE or depth > 12:
        return False
    # equations hold when their difference vanishes after expanding the remainders
    if g.op == 'eq0':
        e = T.expand_mod(g.args[0])
        if T.is_num(e):
            return e.args[0] == 0
        for f in facts:
            if f.op == 'eq0':
                x = T.expand_mod(f.args[0])
                dd = T.sub(e, x)
                if T.is_num(dd) and dd.args[0] == 0 or T.is_num(T.add(e, x)) and T.add(e, x).args[0] == 0:
                    return True
    for x in T.walk(g):
        if x.op == 'ite':
            c = x.args[0]
            if any(y.op in ('ite', 'bv') for y in T.walk(c)):
                continue
            a = dict(facts)
            a[c] = T.TRUE
            a[T.lnot(c)] = T.FALSE
            b = dict(facts)
            b[c] = T.FALSE
            b[T.lnot(c)] = T.TRUE
            return prove_under(g, a, depth + 1) and prove_under(g, b, depth + 1)
    return False


def used(prog, d, precise=False):
    """a session in which another decomposition, of another grid, has been built and asked before"""
    S = Searched(prog, d, precise, pre='other')
    s, D, L, P = valid(S, 'other')
    r = T.fresh('otherrank', 'i', lo=0, ub=P)
    for q in ('getBegIndices', 'getEndIndices'):
        s.call(S.obj, CLS + '::' + q, r)
    s.call(S.obj, CLS + '::getNeighborRank', r, s.box(Vec([T.fresh('othere%d' % i, 'i', lo=-1, hi=1) for i in range(d)])))
    return s, list(D) + list(L) + [r]
