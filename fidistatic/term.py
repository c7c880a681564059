"""Symbolic terms: hash-consed, normalised on construction.

Integers are mathematical integers; machine conversions that are not provably
value preserving appear explicitly as 'cv' nodes.  Reals are exact.
"""
from fractions import Fraction
import hashlib
import math
import struct

_tab = {}
_next = [0]


class Term:
    __slots__ = ('op', 'args', 'sort', 'id', 'bv', 'hasite', '_syms')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, args, sort):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is not None:
        return t
    t = Term()
    t.op, t.args, t.sort = op, args, sort
    _next[0] += 1
    t.id = _next[0]
    b = 0
    if op == 'bv':
        b = args[0]
    else:
        for a in args:
            if type(a) is Term:
                if a.bv > b:
                    b = a.bv
            elif type(a) is tuple:
                for x in _flat(a):
                    if x.bv > b:
                        b = x.bv
    t.bv = b          # largest bound-variable index occurring inside
    t._syms = None
    _tab[key] = t
    return t


def _flat(a):
    for x in a:
        if type(x) is Term:
            yield x
        elif type(x) is tuple:
            yield from _flat(x)


# ---------------------------------------------------------------- constants
def num(v, sort='i'):
    if type(v) is not Fraction:
        v = Fraction(v)
    if sort == 'i' and v.denominator != 1:
        sort = 'r'
    return mk('num', (v,), sort)


TRUE = mk('true', (), 'b')
FALSE = mk('false', (), 'b')
ZERO = num(0)
ONE = num(1)


def boolean(b):
    return TRUE if b else FALSE


def string(s):
    return mk('str', (s,), 's')


INF = mk('inf', (), 'r')     # a real larger than every finite value in play

# attributes of free symbols: name -> dict(lo=int|None, hi=int|None, ub=Term|None, nn=...)
symattr = {}


def sym(name, sort='i', lo=None, hi=None, ub=None):
    t = mk('sym', (name,), sort)
    if lo is not None or hi is not None or ub is not None:
        old = symattr.get(t)
        if old is not None and old != (lo, hi, ub):
            raise ValueError('symbol %s redefined with other bounds' % name)
        symattr[t] = (lo, hi, ub)
    else:
        symattr.setdefault(t, (None, None, None))
    return t


_fresh = [0]


def fresh(prefix, sort='i', **kw):
    _fresh[0] += 1
    return sym('%s#%d' % (prefix, _fresh[0]), sort, **kw)


def is_num(t):
    return t.op == 'num'


def numval(t):
    return t.args[0]


# ---------------------------------------------------------------- polynomials
# poly args: tuple of (monomial, coef); monomial = tuple of (atom, exp) sorted by id
def _poly(t):
    """term -> dict monomial -> coef"""
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == 'poly':
        return dict(t.args[0])
    return {((t, 1),): Fraction(1)}


def _frompoly(p, sort):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return num(0, sort)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return num(c, sort)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0] if m[0][0].sort == sort or True else None
    items = tuple(sorted(p.items(), key=lambda mc: [(a.id, e) for a, e in mc[0]]))
    return mk('poly', (items,), sort)


def _sort2(a, b):
    return 'r' if a.sort == 'r' or b.sort == 'r' else 'i'


def add(*ts):
    if len(ts) == 2:
        a, b = ts
        if a.op == 'num' and a.args[0] == 0:
            return b
        if b.op == 'num' and b.args[0] == 0:
            return a
    p = {}
    sort = 'i'
    for t in ts:
        if t is INF:
            return INF
        if t.sort == 'r':
            sort = 'r'
        if t.op == 'poly':
            for m, c in t.args[0]:
                p[m] = p.get(m, 0) + c
        elif t.op == 'num':
            p[()] = p.get((), 0) + t.args[0]
        else:
            m = ((t, 1),)
            p[m] = p.get(m, 0) + 1
    return _frompoly(p, sort)


def neg(t):
    return mul(num(-1), t)


def sub(a, b):
    if a is b:
        return num(0, _sort2(a, b))
    return add(a, neg(b))


def _mulmono(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].id))


def mul(*ts):
    sort = 'i'
    for t in ts:
        if t.sort == 'r':
            sort = 'r'
    p = {(): Fraction(1)}
    for t in ts:
        q = _poly(t)
        if len(p) * len(q) > 4000:
            raise OverflowError('polynomial too large')
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = _mulmono(m1, m2)
                r[m] = r.get(m, 0) + c1 * c2
        p = r
    return _frompoly(p, sort)


def toreal(t):
    if t.sort == 'r':
        return t
    if t.op == 'num':
        return num(t.args[0], 'r')
    if t.op == 'ite':
        return ite(t.args[0], toreal(t.args[1]), toreal(t.args[2]))
    return t


def rdiv(a, b):
    """real division"""
    a, b = toreal(a), toreal(b)
    if b.op == 'num':
        if b.args[0] == 0:
            return mk('app', ('div0', (a,)), 'r')
        return mul(a, num(1 / b.args[0], 'r'))
    q = _poly(b)
    if len(q) == 1:
        (m, c), = q.items()
        inv = _frompoly({tuple((x, -e) for x, e in m): 1 / c}, 'r')
        return mul(toreal(a), inv) if a.sort == 'r' else _asreal(mul(a, inv))
    # normalise the divisor so that the leading coefficient is one
    items = sorted(q.items(), key=lambda mc: [(x.id, e) for x, e in mc[0]])
    c = items[0][1]
    prim = _frompoly({m: v / c for m, v in q.items()}, 'r')
    if a is b:
        return num(1, 'r')
    inv = mk('inv', (prim,), 'r')
    return mul(a, inv, num(1 / c, 'r'))


def _asreal(t):
    return t


# ---------------------------------------------------------------- bounds
_bcache = {}


def bounds(t, depth=0):
    """numeric (lo, hi), None = unknown"""
    r = _bcache.get(t)
    if r is not None:
        return r
    r = _bounds(t, depth)
    if t.op != 'sym':
        _bcache[t] = r
    return r


def _bounds(t, depth):
    op = t.op
    if op == 'num':
        return (t.args[0], t.args[0])
    if op == 'sym':
        lo, hi, ub = symattr.get(t, (None, None, None))
        if ub is not None and depth < 6:
            u = bounds(ub, depth + 1)[1]
            if u is not None and (hi is None or u - 1 < hi):
                hi = u - 1
        return (lo, hi)
    if op == 'poly':
        lo = hi = Fraction(0)
        for m, c in t.args[0]:
            l, h = _mbounds(m, depth)
            if c < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
        if lo is None or hi is None:
            l2, h2 = _relbounds(t, depth)
            if lo is None:
                lo = l2
            if hi is None:
                hi = h2
        return (lo, hi)
    if op == 'ite':
        a = bounds(t.args[1], depth)
        b = bounds(t.args[2], depth)
        return (None if a[0] is None or b[0] is None else min(a[0], b[0]),
                None if a[1] is None or b[1] is None else max(a[1], b[1]))
    if op == 'fmod':
        h = bounds(t.args[1], depth)
        if h[0] is not None and h[0] >= 1:
            hi = None if h[1] is None else h[1] - 1
            xh = bounds(t.args[0], depth)
            if xh[0] is not None and xh[0] >= 0 and xh[1] is not None and (hi is None or xh[1] < hi):
                hi = xh[1]
            return (Fraction(0), hi)
    if op == 'fdiv':
        a = bounds(t.args[0], depth)
        b = bounds(t.args[1], depth)
        if b[0] is not None and b[0] >= 1:
            if a[0] is not None and a[0] >= 0:
                return (Fraction(0), a[1])
            if a[0] is not None:
                return (a[0], None if a[1] is None else max(a[1], 0))
        return (None, None)
    if op == 'tmod':
        b = bounds(t.args[1], depth)
        if b[1] is not None:
            return (-(b[1] - 1), b[1] - 1)
        return (None, None)
    if op == 'max':
        l = [bounds(x, depth) for x in t.args]
        los = [x[0] for x in l if x[0] is not None]
        his = [x[1] for x in l]
        return (max(los) if los else None, None if None in his else max(his))
    if op == 'min':
        l = [bounds(x, depth) for x in t.args]
        his = [x[1] for x in l if x[1] is not None]
        los = [x[0] for x in l]
        return (None if None in los else min(los), min(his) if his else None)
    if op == 'cv':
        ty = t.args[0]
        if ty == 'u64':
            return (Fraction(0), Fraction(2**64 - 1))
        if ty == 'u32':
            return (Fraction(0), Fraction(2**32 - 1))
        if ty == 'i32':
            return (Fraction(-2**31), Fraction(2**31 - 1))
        if ty == 'i64':
            return (Fraction(-2**63), Fraction(2**63 - 1))
    if op == 'b2i':
        return (Fraction(0), Fraction(1))
    if op == 'app' and t.args[0] in _applo:
        return (Fraction(_applo[t.args[0]]), None)
    if op == 'sum':
        b = bounds(t.args[2], depth)
        if b[0] is not None and b[0] >= 0:
            return (Fraction(0), None)
    if op == 'prod':
        b = bounds(t.args[2], depth)
        if b[0] is not None and b[0] >= 1:
            return (Fraction(1), None)
        if b[0] is not None and b[0] >= 0:
            return (Fraction(0), None)
    if op in ('nth', 'first', 'argmin'):
        return (Fraction(0), None)
    if op == 'bv':
        return _bvb.get(t, (None, None))
    return (None, None)


_applo = {'slen': 0, 'len_trim': 0, 'abs': 0, 'argmin': 0}
_bvb = {}


def _mbounds(m, depth):
    lo = hi = Fraction(1)
    if m == ():
        return (lo, hi)
    if len(m) == 1 and m[0][1] == 1:
        return bounds(m[0][0], depth)
    for a, e in m:
        l, h = bounds(a, depth)
        if l is None or l < 0:
            if e % 2 == 0:
                lo, hi = Fraction(0), None
                continue
            return (None, None)
        if e > 0:
            lo = lo * l ** e
            hi = None if hi is None or h is None else hi * h ** e
        else:
            if l > 0:
                hi = None if hi is None else hi / l ** (-e)
            else:
                hi = None
            lo = lo * (Fraction(0) if h is None else (1 / h ** (-e) if h > 0 else 0))
    return (lo, hi)


def _relbounds(t, depth):
    """bounds using symbolic upper bounds: replace x by ub-1 where x has one"""
    if depth > 5:
        return (None, None)
    lo = hi = None
    for which in (0, 1):
        p = dict(t.args[0])
        changed = True
        n = 0
        cur = t
        while changed and n < 6:
            changed = False
            n += 1
            for m, c in list(_poly(cur).items()):
                if m == ():
                    continue
                cand = None
                for a, e in m:
                    if e != 1:
                        continue
                    u = _symub(a)
                    if u is None:
                        continue
                    rest = tuple(x for x in m if x[0] is not a)
                    rl, rh = _mbounds(rest, depth + 1)
                    if rl is None or rl < 0:
                        continue
                    cand = (a, u, rest)
                    break
                if cand is None:
                    continue
                a, u, rest = cand
                # want lower bound (which==0): negative coefs use the max of a
                if (which == 0 and c < 0) or (which == 1 and c > 0):
                    repl = _frompoly({rest: c}, 'i')
                    cur2 = add(sub(cur, _frompoly({m: c}, 'i')), mul(repl, sub(u, ONE)))
                    if cur2 is not cur and cur2.op in ('poly', 'num', 'sym', 'fmod', 'fdiv', 'app', 'ite'):
                        cur = cur2
                        changed = True
                        break
        b = (None, None)
        if cur is not t:
            if cur.op == 'poly':
                l = Fraction(0)
                ok = True
                for m, c in cur.args[0]:
                    bl, bh = _mbounds(m, depth + 1)
                    x = bl if (c > 0) == (which == 0) else bh
                    if x is None:
                        ok = False
                        break
                    l += c * x
                if ok:
                    b = (l, l)
            else:
                b = bounds(cur, depth + 1)
        if which == 0:
            lo = b[0]
        else:
            hi = b[1]
    return (lo, hi)


def _symub(a):
    if a.op == 'sym':
        return symattr.get(a, (None, None, None))[2]
    if a.op == 'fmod':
        if nonneg(sub_safe(a.args[1], ONE)):
            return a.args[1]
    if a.op == 'fdiv':
        # x < a*b  =>  x/a < b  for a symbol x with ub = a*b
        x, m = a.args
        u = _symub(x)
        if u is not None:
            q = exactdiv(u, m)
            if q is not None:
                return q
    return None


def sub_safe(a, b):
    return sub(a, b)


def nonneg(t):
    l = bounds(t)[0]
    return l is not None and l >= 0


def positive(t):
    l = bounds(t)[0]
    return l is not None and l > 0


def exactdiv(u, m):
    """u / m as an integer polynomial or None"""
    if u is m:
        return ONE
    if is_num(m):
        if m.args[0] == 0:
            return None
        p = _poly(u)
        if all((c / m.args[0]).denominator == 1 for c in p.values()):
            return _frompoly({k: c / m.args[0] for k, c in p.items()}, 'i')
        return None
    q = _poly(m)
    if len(q) != 1:
        # polynomial divisor: only a scalar multiple of it
        p = _poly(u)
        if set(p) == set(q):
            r = {p[k] / q[k] for k in p}
            if len(r) == 1:
                c = r.pop()
                if c.denominator == 1:
                    return num(c)
        return None
    (mm, mc), = q.items()
    md = dict(mm)
    r = {}
    for k, c in _poly(u).items():
        kd = dict(k)
        for a, e in md.items():
            if kd.get(a, 0) < e:
                return None
            kd[a] = kd[a] - e
        cc = c / mc
        if cc.denominator != 1:
            return None
        r[tuple(sorted(((a, e) for a, e in kd.items() if e), key=lambda x: x[0].id))] = cc
    return _frompoly(r, 'i')


def _split(a, m):
    """a = q*m + rest, pulling out the monomials divisible by m"""
    q, rest = ZERO, ZERO
    e = exactdiv(a, m)
    if e is not None:
        return e, ZERO
    if a.op == 'poly':
        for k, c in a.args[0]:
            t = _frompoly({k: c}, 'i')
            d = exactdiv(t, m)
            if d is not None:
                q = add(q, d)
            else:
                rest = add(rest, t)
        if is_num(m) and rest.op == 'poly':
            # numeric divisor: reduce coefficients
            mv = m.args[0]
            r2 = {}
            for k, c in rest.args[0]:
                qq = c // mv
                if qq != 0:
                    q = add(q, _frompoly({k: Fraction(qq)}, 'i'))
                r2[k] = c - qq * mv
            rest = _frompoly(r2, 'i')
        return q, rest
    return ZERO, a


def lt_known(a, b):
    """a < b provable"""
    d = sub(a, b)
    h = bounds(d)[1]
    return h is not None and h < 0


def fdiv(a, m):
    if m is ONE:
        return a
    if is_num(a) and is_num(m) and m.args[0] != 0:
        return num(a.args[0] // m.args[0])
    if a.op == 'ite' and _cheap(a):
        return ite(a.args[0], fdiv(a.args[1], m), fdiv(a.args[2], m))
    if positive(m):
        q, r = _split(a, m)
        if q is not ZERO:
            return add(q, fdiv(r, m))
        if a is ZERO:
            return ZERO
        if a.op == 'fdiv' and positive(a.args[1]):
            return fdiv(a.args[0], mul(a.args[1], m))
        if nonneg(a) and (lt_known(a, m)):
            return ZERO
        if a.op == 'sym' or a.op == 'bv':
            u = _symub(a)
            if u is not None and nonneg(a) and (u is m or nonneg(sub(m, u))):
                return ZERO
        # common monomial factor:  fdiv(c*x, c*y) = fdiv(x, y)
        g = _commonfactor(a, m)
        if g is not None:
            return fdiv(exactdiv(a, g), exactdiv(m, g))
    return mk('fdiv', (a, m), 'i')


def _commonfactor(a, m):
    ms = _poly(m)
    ps = _poly(a)
    if not ms or not ps:
        return None
    com = None
    for k in list(ms) + list(ps):
        d = dict(k)
        if com is None:
            com = d
        else:
            com = {x: min(e, d.get(x, 0)) for x, e in com.items() if d.get(x, 0) > 0}
    com = {x: e for x, e in com.items() if e > 0 and positive(x)}
    if not com:
        return None
    return _frompoly({tuple(sorted(com.items(), key=lambda x: x[0].id)): Fraction(1)}, 'i')


def fmod(a, m):
    if m is ONE:
        return ZERO
    if is_num(a) and is_num(m) and m.args[0] != 0:
        return num(a.args[0] % m.args[0])
    if a.op == 'ite' and _cheap(a):
        return ite(a.args[0], fmod(a.args[1], m), fmod(a.args[2], m))
    if positive(m):
        # nested residues of the same modulus
        p = _poly(a)
        changed = False
        r = ZERO
        for k, c in p.items():
            t = _frompoly({k: c}, 'i')
            for x, e in k:
                if e == 1 and x.op == 'fmod' and x.args[1] is m and all(y.sort == 'i' for y, _ in k):
                    rest = tuple(z for z in k if z[0] is not x)
                    t = mul(_frompoly({rest: c}, 'i'), x.args[0])
                    changed = True
                    break
            r = add(r, t)
        if changed:
            return fmod(r, m)
        q, r = _split(a, m)
        if q is not ZERO:
            return fmod(r, m)
        if nonneg(a) and lt_known(a, m):
            return a
        u = _symub(a) if a.op in ('sym', 'fdiv', 'fmod') else None
        if u is not None and nonneg(a) and (u is m or nonneg(sub(m, u))):
            return a
        g = _commonfactor(a, m)
        if g is not None:
            return mul(g, fmod(exactdiv(a, g), exactdiv(m, g)))
    return mk('fmod', (a, m), 'i')


def _cheap(t):
    return t.op == 'ite' and (is_num(t.args[1]) or is_num(t.args[2]))


def tdiv(a, m):
    if is_num(a) and is_num(m) and m.args[0] != 0:
        q = abs(a.args[0]) // abs(m.args[0])
        return num(q if (a.args[0] >= 0) == (m.args[0] > 0) else -q)
    if nonneg(a) and positive(m):
        return fdiv(a, m)
    if m is ONE:
        return a
    if a is m:
        return ONE
    e = exactdiv(a, m)
    if e is not None and is_num(e):
        return e
    return mk('tdiv', (a, m), 'i')


def tmod(a, m):
    if is_num(a) and is_num(m) and m.args[0] != 0:
        return num(a.args[0] - numval(tdiv(a, m)) * m.args[0])
    if nonneg(a) and positive(m):
        return fmod(a, m)
    return mk('tmod', (a, m), 'i')


RANGE = {'i8': (-2**7, 2**7 - 1), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1),
         'i64': (-2**63, 2**63 - 1), 'u8': (0, 2**8 - 1), 'u16': (0, 2**16 - 1),
         'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'char': (-128, 127), 'i128': (-2**127, 2**127 - 1)}


def cv(ty, t, frm=None):
    """machine integer conversion of the value t (of type frm) to ty"""
    if ty not in RANGE:
        return t
    if t.op == 'num':
        lo, hi = RANGE[ty]
        v = int(t.args[0])
        if lo <= v <= hi:
            return t
        w = (v - lo) % (hi - lo + 1) + lo
        return num(w)
    lo, hi = RANGE[ty]
    if t.op == 'cv':
        # a conversion of a conversion: the inner one may be dropped if it is wider
        l2, h2 = RANGE[t.args[0]]
        if h2 - l2 >= hi - lo:
            return cv(ty, t.args[1])
    if t.op == 'ite':
        return ite(t.args[0], cv(ty, t.args[1], frm), cv(ty, t.args[2], frm))
    b = bounds(t)
    okl = b[0] is not None and b[0] >= lo
    okh = b[1] is not None and b[1] <= hi
    if not okh and frm in RANGE and RANGE[frm][1] <= hi:
        okh = True            # values of the source type fit (no overflow in the source type)
    if not okl and frm in RANGE and RANGE[frm][0] >= lo:
        okl = True
    if okl and okh:
        return t
    return mk('cv', (ty, t), 'i')


def wrap_coef(t, ty):
    """representative modulo 2^n of an unsigned expression, with coefficients of least magnitude"""
    lo, hi = RANGE[ty]
    n = hi + 1
    if t.op == 'num':
        return cv(ty, t)
    if t.op != 'poly' or all(-n < 2 * c < n for _, c in t.args[0]):
        return t
    p = {}
    for m, c in t.args[0]:
        c = c % n
        p[m] = c - n if 2 * c >= n else c
    return _frompoly(p, 'i')


def strip_cv(t, ty):
    """remove conversions to ty inside a sum/product (valid modulo 2^n)"""
    if t.op == 'cv' and t.args[0] == ty:
        return t.args[1]
    if t.op == 'poly':
        ch = False
        r = ZERO
        for m, c in t.args[0]:
            x = _frompoly({(): c}, 'i')
            for a, e in m:
                b = a
                if a.op == 'cv' and a.args[0] == ty:
                    b = a.args[1]
                    ch = True
                for _ in range(e if e > 0 else 0):
                    x = mul(x, b)
                if e < 0:
                    return t
            r = add(r, x)
        return r if ch else t
    return t


# ---------------------------------------------------------------- booleans
def lt(a, b):
    if a is b:
        return FALSE
    if b is INF:
        return FALSE if a is INF else TRUE
    if a is INF:
        return FALSE
    if a.sort == 's' or b.sort == 's':
        if a.op == 'str' and b.op == 'str':
            return boolean(a.args[0] < b.args[0])
        return mk('slt', (a, b), 'b')
    return lt0(sub(a, b))


def lt0(d):
    if d.op == 'num':
        return boolean(d.args[0] < 0)
    if d.op == 'ite' and (_cheap(d)):
        return ite(d.args[0], lt0(d.args[1]), lt0(d.args[2]))
    lo, hi = bounds(d)
    if hi is not None and hi < 0:
        return TRUE
    if lo is not None and lo >= 0:
        return FALSE
    if d.sort == 'i' and d.op == 'poly':
        # divide by the gcd of the coefficients: c*x + k < 0
        p = dict(d.args[0])
        k = p.pop((), Fraction(0))
        from math import gcd
        g = 0
        if all(c.denominator == 1 for c in p.values()):
            for c in p.values():
                g = gcd(g, abs(int(c)))
        if g > 1:
            # sum < -k  <=> sum/g < -k/g <=> sum/g < ceil(-k/g)
            q = -((-(-k)) // g) if False else -(k // g)   # ceil(-k/g) = -floor(k/g)
            q = -(Fraction(k) / g).__floor__()
            d = _frompoly({**{m: c / g for m, c in p.items()}, (): -Fraction(q)}, 'i')
    return mk('lt0', (d,), 'b')


def le(a, b):
    if a is b:
        return TRUE
    if b is INF:
        return TRUE
    if a is INF:
        return FALSE
    if a.sort == 'i' and b.sort == 'i':
        return lt0(sub(sub(a, b), ONE))
    if a.sort == 's':
        return lnot(lt(b, a))
    return lnot(lt0(sub(b, a)))


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == 'b' and b.sort == 'b':
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return lnot(b)
        if b is FALSE:
            return lnot(a)
        x, y = (a, b) if a.id < b.id else (b, a)
        return lor(land(x, y), land(lnot(x), lnot(y)))
    if a.sort == 's' or b.sort == 's':
        if a.op == 'str' and b.op == 'str':
            return FALSE
        x, y = (a, b) if a.id < b.id else (b, a)
        return mk('seq', (x, y), 'b')
    if a is INF or b is INF:
        return FALSE
    if a.sort == 'a' or b.sort == 'a' or a.sort == 'o' or b.sort == 'o':
        x, y = (a, b) if a.id < b.id else (b, a)
        return mk('oeq', (x, y), 'b')
    d = sub(a, b)
    return eq0(d)


def eq0(d):
    if d.op == 'num':
        return boolean(d.args[0] == 0)
    if d.op == 'ite' and _cheap(d):
        return ite(d.args[0], eq0(d.args[1]), eq0(d.args[2]))
    lo, hi = bounds(d)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    if d.op == 'poly':
        p = dict(d.args[0])
        items = d.args[0]
        c0 = items[0][1] if items[0][0] != () else items[1][1] if len(items) > 1 else items[0][1]
        if c0 < 0:
            d = neg(d)
        # all coefficients integer multiples: non-divisible constant => never zero
        if d.sort == 'i':
            from math import gcd
            p = dict(d.args[0]) if d.op == 'poly' else {}
            k = p.pop((), Fraction(0))
            if p and all(c.denominator == 1 for c in p.values()):
                g = 0
                for c in p.values():
                    g = gcd(g, abs(int(c)))
                if g > 1:
                    if k % g != 0:
                        return FALSE
                    d = _frompoly({**{m: c / g for m, c in p.items()}, (): k / g}, 'i')
    return mk('eq0', (d,), 'b')


def ne(a, b):
    return lnot(eq(a, b))


def lnot(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'not':
        return t.args[0]
    if t.op == 'lt0':
        d = t.args[0]
        if d.sort == 'i':
            return lt0(sub(neg(d), ONE))
        return mk('not', (t,), 'b')
    if t.op == 'and':
        return lor(*[lnot(x) for x in t.args[0]])
    if t.op == 'or':
        return land(*[lnot(x) for x in t.args[0]])
    if t.op == 'ite':
        return ite(t.args[0], lnot(t.args[1]), lnot(t.args[2]))
    return mk('not', (t,), 'b')


def land(*ts):
    s = {}
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        for x in (t.args[0] if t.op == 'and' else (t,)):
            s[x] = 1
    if not s:
        return TRUE
    for x in s:
        if lnot_cheap(x) in s:
            return FALSE
    # absorption: x and (x or y)
    out = []
    for x in s:
        if x.op == 'or':
            if any(y in s for y in x.args[0]):
                continue
            ys = [y for y in x.args[0] if lnot_cheap(y) not in s]
            if len(ys) < len(x.args[0]):
                s2 = [z for z in s if z is not x]
                return land(lor(*ys), *s2)
        out.append(x)
    s = _prune_lt(out)
    if s is None:
        return FALSE
    if len(s) == 1:
        return s[0]
    return mk('and', (tuple(sorted(s, key=lambda x: x.id)),), 'b')


def _prune_lt(xs):
    """drop implied inequalities d<0 / d+c<0 with the same variable part"""
    best = {}
    out = []
    for x in xs:
        if x.op == 'lt0' and x.args[0].sort == 'i':
            d = x.args[0]
            p = _poly(d)
            k = p.pop((), Fraction(0))
            key = tuple(sorted(p.items(), key=lambda mc: [(a.id, e) for a, e in mc[0]]))
            nkey = tuple(sorted(((m, -c) for m, c in p.items()), key=lambda mc: [(a.id, e) for a, e in mc[0]]))
            if nkey in best:
                # -P + k2 < 0 and P + k < 0  =>  k2 < P < -k  => need k2+1 <= -k-1
                k2 = best[nkey][0]
                if k2 + 1 > -k - 1:
                    return None
            if key in best:
                if best[key][0] < k:
                    best[key] = (k, x)
            else:
                best[key] = (k, x)
        else:
            out.append(x)
    return out + [b[1] for b in best.values()]


def lnot_cheap(x):
    if x.op == 'not':
        return x.args[0]
    if x.op == 'lt0' and x.args[0].sort == 'i':
        return lnot(x)
    return mk('not', (x,), 'b')


def lor(*ts):
    s = {}
    for t in ts:
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        for x in (t.args[0] if t.op == 'or' else (t,)):
            s[x] = 1
    if not s:
        return FALSE
    for x in s:
        if lnot_cheap(x) in s:
            return TRUE
    out = []
    for x in s:
        if x.op == 'and':
            if any(y in s for y in x.args[0]):
                continue
            ys = [y for y in x.args[0] if lnot_cheap(y) not in s]
            if len(ys) < len(x.args[0]):
                s2 = [z for z in s if z is not x]
                return lor(land(*ys), *s2)
        out.append(x)
    if len(out) == 1:
        return out[0]
    return mk('or', (tuple(sorted(out, key=lambda x: x.id)),), 'b')


def b2i(t):
    if t is TRUE:
        return ONE
    if t is FALSE:
        return ZERO
    return ite(t, ONE, ZERO)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.sort == 'b':
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return lnot(c)
        if a is TRUE:
            return lor(c, b)
        if a is FALSE:
            return land(lnot(c), b)
        if b is TRUE:
            return lor(lnot(c), a)
        if b is FALSE:
            return land(c, a)
    if c.op == 'lt0' and c.args[0].sort == 'i':
        n = lnot(c)
        if n.id < c.id:
            return ite(n, b, a)
    # nested same condition
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    nc = lnot_cheap(c)
    if a.op == 'ite' and a.args[0] is nc:
        a = a.args[2]
    if b.op == 'ite' and b.args[0] is nc:
        b = b.args[1]
    if a is b:
        return a
    # min/max against infinity
    if c.op == 'eq0':
        # ite(x==e, e-valued, x-valued) is left alone
        pass
    sort = a.sort if a.sort == b.sort else ('r' if 'r' in (a.sort, b.sort) else a.sort)
    # ite(c, x, ite(d, x, y)) -> ite(c or d, x, y)
    if b.op == 'ite' and b.args[1] is a:
        return ite(lor(c, b.args[0]), a, b.args[2])
    if a.op == 'ite' and a.args[2] is b:
        return ite(land(c, a.args[0]), a.args[1], b)
    return mk('ite', (c, a, b), sort)


def tmin(a, b):
    if a is INF:
        return b
    if b is INF:
        return a
    if a is b:
        return a
    d = sub(a, b)
    lo, hi = bounds(d)
    if hi is not None and hi <= 0:
        return a
    if lo is not None and lo >= 0:
        return b
    xs = _mm('min', a) | _mm('min', b)
    return mk('min', tuple(sorted(xs, key=lambda x: x.id)), _sort2(a, b))


def tmax(a, b):
    if a is INF or b is INF:
        return INF
    if a is b:
        return a
    d = sub(a, b)
    lo, hi = bounds(d)
    if hi is not None and hi <= 0:
        return b
    if lo is not None and lo >= 0:
        return a
    xs = _mm('max', a) | _mm('max', b)
    return mk('max', tuple(sorted(xs, key=lambda x: x.id)), _sort2(a, b))


def _mm(op, t):
    return set(t.args) if t.op == op else {t}


def app(name, args, sort='r'):
    return mk('app', (name, tuple(args)), sort)


def sel(arr, *idx):
    return mk('sel', (arr, tuple(idx)), arr_sort(arr))


_asort = {}


def asym(name, esort='r'):
    t = mk('asym', (name,), 'a')
    _asort[t] = esort
    return t


def arr_sort(a):
    return _asort.get(a, 'r')


def undef(origin, sort='i'):
    return mk('undef', (origin,), sort)


# ---------------------------------------------------------------- traversal
def children(t):
    for a in t.args:
        if type(a) is Term:
            yield a
        elif type(a) is tuple:
            yield from _flat(a)


def syms_of(t):
    """set of free sym/asym/undef leaves"""
    if t._syms is not None:
        return t._syms
    stack = [t]
    order = []
    seen = set()
    while stack:
        x = stack.pop()
        if x in seen or x._syms is not None:
            continue
        seen.add(x)
        order.append(x)
        stack.extend(children(x))
    for x in reversed(order):
        pass
    # iterative post-order
    def rec(x):
        if x._syms is not None:
            return x._syms
        if x.op in ('sym', 'asym', 'undef'):
            s = frozenset((x,))
        else:
            s = frozenset()
            for c in children(x):
                s = s | rec(c)
        x._syms = s
        return s
    return rec(t)


def contains(t, leaves):
    return not syms_of(t).isdisjoint(leaves)


def walk(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


def rebuild(t, f):
    """rebuild t with children mapped through f"""
    op, a = t.op, t.args
    if op == 'poly':
        sort = t.sort
        r = {}
        allsame = True
        nm = []
        for m, c in a[0]:
            mm = [(f(x), e) for x, e in m]
            if any(y is not x for (x, _), (y, _) in zip(m, mm)):
                allsame = False
            nm.append((mm, c))
        if allsame:
            return t
        res = num(0, 'i')
        parts = []
        for mm, c in nm:
            x = num(c)
            for y, e in mm:
                if e > 0:
                    for _ in range(e):
                        x = mul(x, y)
                else:
                    for _ in range(-e):
                        x = rdiv(x, y)
            parts.append(x)
        r = add(*parts)
        if sort == 'r':
            r = toreal(r)
        return r
    if op in ('num', 'sym', 'asym', 'undef', 'true', 'false', 'str', 'inf', 'bv'):
        return t
    na = []
    ch = False
    for x in a:
        if type(x) is Term:
            y = f(x)
            ch |= y is not x
            na.append(y)
        elif type(x) is tuple:
            y = _maptuple(x, f)
            ch |= y != x
            na.append(y)
        else:
            na.append(x)
    if not ch:
        return t
    if op == 'fdiv':
        return fdiv(*na)
    if op == 'fmod':
        return fmod(*na)
    if op == 'tdiv':
        return tdiv(*na)
    if op == 'tmod':
        return tmod(*na)
    if op == 'cv':
        return cv(na[0], na[1])
    if op == 'lt0':
        return lt0(na[0])
    if op == 'eq0':
        return eq0(na[0])
    if op == 'seq':
        return eq(*na)
    if op == 'slt':
        return lt(*na)
    if op == 'oeq':
        return eq(*na)
    if op == 'not':
        return lnot(na[0])
    if op == 'and':
        return land(*na[0])
    if op == 'or':
        return lor(*na[0])
    if op == 'ite':
        return ite(*na)
    if op == 'min':
        r = na[0]
        for x in na[1:]:
            r = tmin(r, x)
        return r
    if op == 'max':
        r = na[0]
        for x in na[1:]:
            r = tmax(r, x)
        return r
    if op == 'inv':
        return rdiv(num(1, 'r'), na[0])
    if op == 'app':
        return mkapp(na[0], na[1], t.sort)
    if op in ('sum', 'prod', 'lastval', 'first', 'nth', 'argmin', 'minover', 'rec'):
        return REBUILD[op](t, na)
    return mk(op, tuple(na), t.sort)


REBUILD = {}
APPSIMP = {}


def mkapp(name, args, sort='r'):
    f = APPSIMP.get(name)
    if f:
        r = f(args)
        if r is not None:
            return r
    return mk('app', (name, tuple(args)), sort)


def _maptuple(x, f):
    return tuple(f(y) if type(y) is Term else _maptuple(y, f) if type(y) is tuple else y for y in x)


def subst(t, mp, memo=None):
    """simultaneous substitution of leaf (or arbitrary) terms"""
    if memo is None:
        memo = {}
    leaves = frozenset(k for k in mp if k.op in ('sym', 'asym', 'undef'))
    simple = len(leaves) == len(mp)
    bvs = {k.args[0] for k in mp if k.op == 'bv'}
    simple_bv = simple or all(k.op in ('sym', 'asym', 'undef', 'bv') for k in mp)
    minbv = min(bvs) if bvs else None

    def rec(x):
        r = mp.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is not None:
            return r
        if simple and syms_of(x).isdisjoint(leaves):
            memo[x] = x
            return x
        if simple_bv and not simple and syms_of(x).isdisjoint(leaves) and x.bv < minbv:
            memo[x] = x
            return x
        r = rebuild(x, rec)
        memo[x] = r
        return r
    return rec(t)


# ---------------------------------------------------------------- binders
def bvar(n, sort='i'):
    return mk('bv', (n,), sort)


def close(k, terms):
    """abstract the symbol k out of the terms: returns (bv, terms')"""
    n = max([t.bv for t in terms] + [0]) + 1
    b = bvar(n, k.sort)
    if k.op == 'sym':
        lo, hi, ub = symattr.get(k, (None, None, None))
    memo = {}
    return b, [subst(t, {k: b}, memo) for t in terms]


def open_(b, t, v):
    return subst(t, {b: v})


def has(t, x):
    if x.op in ('sym', 'asym', 'undef'):
        return x in syms_of(t)
    return any(y is x for y in walk(t))


def tsum(k, lo, hi, body):
    """sum over k in [lo,hi) of body"""
    if body.op == 'num' and body.args[0] == 0:
        return body
    if not has(body, k):
        if lo is ZERO and nonneg(hi):
            return mul(hi, body)
        return mul(tmax(sub(hi, lo), ZERO), body)
    if is_num(lo) and is_num(hi) and hi.args[0] - lo.args[0] <= 64:
        r = num(0, body.sort)
        for i in range(int(lo.args[0]), int(hi.args[0])):
            r = add(r, subst(body, {k: num(i)}))
        return r
    # factor out k-independent terms of a single monomial
    if body.op == 'poly' and len(body.args[0]) > 1:
        return add(*[tsum(k, lo, hi, _frompoly({m: c}, body.sort)) for m, c in body.args[0]])
    if body.op == 'poly':
        (m, c), = body.args[0]
        out = tuple((a, e) for a, e in m if not has(a, k))
        inn = tuple((a, e) for a, e in m if has(a, k))
        if out or c != 1:
            return mul(_frompoly({out: c}, body.sort), tsum(k, lo, hi, _frompoly({inn: Fraction(1)}, body.sort)))
    if lo is not ZERO:
        body = subst(body, {k: add(k, lo)})
        hi = sub(hi, lo)
        if body.op == 'poly' and len(body.args[0]) > 1:
            return tsum(k, ZERO, hi, body)
    b, (bd,) = close(k, [body])
    return mk('sum', (b, ZERO, bd, hi), body.sort) if False else mk('sum', (b, hi, bd), body.sort)


def tprod(k, lo, hi, body):
    if body is ONE:
        return ONE
    if is_num(lo) and is_num(hi) and hi.args[0] - lo.args[0] <= 64:
        r = num(1, body.sort)
        for i in range(int(lo.args[0]), int(hi.args[0])):
            r = mul(r, subst(body, {k: num(i)}))
        return r
    if lo is not ZERO:
        body = subst(body, {k: add(k, lo)})
        hi = sub(hi, lo)
    b, (bd,) = close(k, [body])
    return mk('prod', (b, hi, bd), body.sort)


def lastval(k, hi, c, g, init):
    """value of g at the last k in [0,hi) with c, else init"""
    if c is FALSE:
        return init
    if c is TRUE:
        return ite(lt(ZERO, hi), subst(g, {k: sub(hi, ONE)}), init)
    if is_num(hi) and hi.args[0] <= 64:
        r = init
        for i in range(int(hi.args[0])):
            r = ite(subst(c, {k: num(i)}), subst(g, {k: num(i)}), r)
        return r
    # guard fixes k to a constant
    v = _fixes(c, k)
    if v is not None:
        rest = subst(c, {k: v})
        return ite(land(rest, le(ZERO, v), lt(v, hi)), subst(g, {k: v}), init)
    if not has(c, k):
        return ite(land(c, lt(ZERO, hi)), subst(g, {k: sub(hi, ONE)}), init)
    b, (cc, gg) = close(k, [c, g])
    return mk('lastval', (b, hi, cc, gg, init), g.sort if g.sort == init.sort else ('r' if 'r' in (g.sort, init.sort) else g.sort))


def _fixes(c, k):
    """if the condition implies k == v (v free of k), return v"""
    cs = c.args[0] if c.op == 'and' else (c,)
    for x in cs:
        if x.op == 'eq0':
            d = x.args[0]
            p = _poly(d)
            m = ((k, 1),)
            if m in p and abs(p[m]) == 1:
                rest = sub(d, mul(num(p[m]), k))
                if not has(rest, k):
                    return mul(num(-p[m]), rest)
    return None


def exists(k, hi, c):
    if not has(c, k):
        return land(c, lt(ZERO, hi))
    return lastval(k, hi, c, TRUE, FALSE)


def first(k, hi, c):
    """first k in [0,hi) with c, else hi"""
    if c is FALSE:
        return hi
    if c is TRUE:
        return ZERO if nonneg(hi) else tmax(tmin(hi, ZERO), ZERO)
    if not has(c, k):
        return ite(c, ZERO, hi)
    if hi is not INFK and is_num(hi) and hi.args[0] <= 64:
        r = hi
        for i in reversed(range(int(hi.args[0]))):
            r = ite(subst(c, {k: num(i)}), num(i), r)
        return r
    b, (cc,) = close(k, [c])
    return mk('first', (b, hi, cc), 'i')


INFK = mk('infk', (), 'i')   # an unbounded iteration count


def nth(k, hi, c, n):
    """the n-th (0-based) k in [0,hi) satisfying c"""
    if c is TRUE:
        return n
    b, (cc,) = close(k, [c])
    return mk('nth', (b, hi, cc, n), 'i')


def argmin(k, hi, g, strict=True):
    b, (gg,) = close(k, [g])
    return mk('argmin', (b, hi, gg, strict), 'i')


def minover(k, hi, g, init, ismax=False):
    if not has(g, k):
        m = tmax(init, g) if ismax else tmin(init, g)
        return ite(lt(ZERO, hi), m, init)
    b, (gg,) = close(k, [g])
    return mk('minover', (b, hi, gg, init, ismax), g.sort)


def _rb_sum(t, na):
    b, hi, bd = na
    if is_num(hi) and hi.args[0] <= 64:
        k = fresh('q')
        return tsum(k, ZERO, hi, subst(bd, {b: k}))
    if not any(x is b for x in walk(bd)):
        return mul(hi if nonneg(hi) else tmax(hi, ZERO), bd)
    k = fresh('q', b.sort)
    return tsum(k, ZERO, hi, subst(bd, {b: k}))


def _rb_prod(t, na):
    b, hi, bd = na
    if is_num(hi) and hi.args[0] <= 64:
        k = fresh('q')
        return tprod(k, ZERO, hi, subst(bd, {b: k}))
    k = fresh('q', b.sort)
    return tprod(k, ZERO, hi, subst(bd, {b: k}))


def _rb_lastval(t, na):
    b, hi, c, g, init = na
    k = fresh('q')
    return lastval(k, hi, subst(c, {b: k}), subst(g, {b: k}), init)


def _rb_first(t, na):
    b, hi, c = na
    k = fresh('q')
    return first(k, hi, subst(c, {b: k}))


def _rb_nth(t, na):
    b, hi, c, n = na
    k = fresh('q')
    return nth(k, hi, subst(c, {b: k}), n)


def _rb_argmin(t, na):
    b, hi, g, s = na
    k = fresh('q')
    return argmin(k, hi, subst(g, {b: k}), s)


def _rb_minover(t, na):
    b, hi, g, init, s = na
    k = fresh('q')
    return minover(k, hi, subst(g, {b: k}), init, s)


def _rb_rec(t, na):
    return mk('rec', tuple(na), t.sort)


REBUILD.update(sum=_rb_sum, prod=_rb_prod, lastval=_rb_lastval, first=_rb_first, nth=_rb_nth,
               argmin=_rb_argmin, minover=_rb_minover, rec=_rb_rec)


# ---------------------------------------------------------------- expansion used for equality
def expand_mod(t, memo=None):
    """fmod(x,m) -> x - m*fdiv(x,m) everywhere in polynomial positions"""
    if memo is None:
        memo = {}

    def rec(x):
        r = memo.get(x)
        if r is not None:
            return r
        y = rebuild(x, rec)
        if y.op == 'fmod':
            y = sub(y.args[0], mul(y.args[1], fdiv(y.args[0], y.args[1])))
        memo[x] = y
        return y
    return rec(t)


def same(a, b):
    """provably equal by normal form"""
    if a is b:
        return True
    if a.sort in 'ir' and b.sort in 'ir':
        if a is INF or b is INF:
            return False
        try:
            d = sub(a, b)
            if d.op == 'num':
                return d.args[0] == 0
            d = sub(expand_mod(a), expand_mod(b))
            return d.op == 'num' and d.args[0] == 0
        except OverflowError:
            return False
    return False


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if d > 14:
        return '…'
    op, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if op == 'num':
        v = a[0]
        return str(v)
    if op in ('sym', 'asym'):
        return a[0]
    if op == 'undef':
        return 'UNDEF(%s)' % (a[0],)
    if op == 'bv':
        return '$%d' % a[0]
    if op == 'str':
        return repr(a[0])
    if op == 'true' or op == 'false' or op == 'inf':
        return op
    if op == 'poly':
        parts = []
        for m, c in a[0]:
            fs = []
            for x, e in m:
                y = s(x)
                if x.op in ('poly',):
                    y = '(' + y + ')'
                fs.append(y if e == 1 else '%s^%d' % (y, e))
            ms = '*'.join(fs)
            if not ms:
                parts.append(str(c))
            elif c == 1:
                parts.append(ms)
            elif c == -1:
                parts.append('-' + ms)
            else:
                parts.append('%s*%s' % (c, ms))
        return '(' + ' + '.join(parts) + ')'
    if op == 'lt0':
        return '(%s < 0)' % s(a[0])
    if op == 'eq0':
        return '(%s == 0)' % s(a[0])
    if op == 'seq':
        return '(%s == %s)' % (s(a[0]), s(a[1]))
    if op == 'not':
        return '!' + s(a[0])
    if op in ('and', 'or'):
        return '(' + (' && ' if op == 'and' else ' || ').join(s(x) for x in a[0]) + ')'
    if op == 'ite':
        return '(%s ? %s : %s)' % (s(a[0]), s(a[1]), s(a[2]))
    if op == 'app':
        return '%s(%s)' % (a[0], ', '.join(s(x) for x in a[1]))
    if op == 'sel':
        return '%s[%s]' % (s(a[0]), ', '.join(s(x) for x in a[1]))
    if op == 'fdiv':
        return '(%s div %s)' % (s(a[0]), s(a[1]))
    if op == 'fmod':
        return '(%s mod %s)' % (s(a[0]), s(a[1]))
    if op in ('sum', 'prod'):
        return '%s{%s<%s}(%s)' % (op, s(a[0]), s(a[1]), s(a[2]))
    return '%s(%s)' % (op, ', '.join(show(x, d + 1) if type(x) is Term else str(x) if type(x) is not tuple else
                                     '[' + ', '.join(show(y, d + 1) for y in _flat(x)) + ']' for x in a))


# ---------------------------------------------------------------- evaluation (identity test)
class Skip(Exception):
    """this valuation is outside the domain of the term"""


class Undefined(Exception):
    def __init__(self, t):
        self.t = t


def _h(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:6], 'big')


# real values at which the terms under examination change their form (set while sampling)
SPECIAL = []


class Valuation:
    def __init__(self, env, seed=0, funcs=None, undef_ok=True, maxloop=20000):
        self.env = env          # sym -> value ; asym -> callable(*idx)
        self.seed = seed
        self.funcs = funcs or {}
        self.memo = {}
        self.undef_ok = undef_ok
        self.steps = 0
        self.maxloop = maxloop

    def app(self, name, args, sort):
        f = self.funcs.get(name) or INTERP.get(name)
        if f:
            return f(*args)
        h = _h(self.seed, name, args)
        if sort == 'r':
            if SPECIAL and (h >> 40) % 3 == 0:
                return SPECIAL[(h >> 44) % len(SPECIAL)]
            return Fraction(0) if (h >> 30) % 11 == 0 else Fraction(h % 1999 - 999, 1 + (h >> 12) % 17)
        if sort == 'i':
            return h % 97
        if sort == 'b':
            return bool(h & 1)
        return 's%d' % (h % 5)

    def sym(self, t):
        v = self.env.get(t)
        if v is None:
            h = _h(self.seed, 'sym', t.args[0])
            if t.op == 'asym':
                so = arr_sort(t)
                return lambda *i: (Fraction(_h(self.seed, t.args[0], i) % 1999 - 999, 7) if so == 'r'
                                   else _h(self.seed, t.args[0], i) % 97 if so == 'i'
                                   else bool(_h(self.seed, t.args[0], i) & 1) if so == 'b'
                                   else 's%d' % (_h(self.seed, t.args[0], i) % 5))
            lo, hi, ub = symattr.get(t, (None, None, None))
            if t.sort == 'r':
                if lo is not None:
                    v = Fraction(lo) + Fraction(1 + h % 1000, 13)
                else:
                    v = Fraction(h % 1999 - 999, 13)
            elif t.sort == 'i':
                lo2 = 0 if lo is None else int(lo)
                if ub is not None:
                    u = int(self.ev(ub))
                    if u <= lo2:
                        raise Skip()
                    v = lo2 + h % (u - lo2)
                else:
                    hi2 = lo2 + 6 if hi is None else int(hi)
                    v = lo2 + h % (hi2 - lo2 + 1)
            elif t.sort == 'b':
                v = bool(h & 1)
            else:
                v = 'z%d' % (h % 7)
            self.env[t] = v
        return v

    def ev(self, t, be=None):
        """be: dict bv-index -> value"""
        v = self.env.get(t)
        if v is not None:
            return v
        op = t.op
        if op == 'num':
            v = t.args[0]
            return int(v) if v.denominator == 1 and t.sort == 'i' else v
        if op == 'bv':
            return be[t.args[0]]
        key = t
        if t.bv:
            key = (t, tuple(be.get(i) for i in self._bvs(t)) if be else ())
        m = self.memo.get(key)
        if m is not None:
            return m
        r = self._ev(t, be)
        if not callable(r):
            self.memo[key] = r
        return r

    _bvc = {}

    def _bvs(self, t):
        s = self._bvc.get(t)
        if s is None:
            s = set()
            own = set()
            if t.op in ('sum', 'prod', 'lastval', 'first', 'nth', 'argmin', 'minover'):
                own = {t.args[0].args[0]}
            elif t.op == 'rec':
                own = {x.args[0] for x in t.args[5]}
            for c in children(t):
                if c.op == 'bv':
                    s.add(c.args[0])
                elif c.bv:
                    s |= set(self._bvs(c))
            if t.op in ('sum', 'prod', 'lastval', 'first', 'nth', 'argmin', 'minover', 'rec'):
                s -= own
            s = tuple(sorted(s))
            self._bvc[t] = s
        return s

    def _ev(self, t, be):
        op, a = t.op, t.args
        ev = self.ev
        if op == 'poly':
            r = 0
            for m, c in a[0]:
                x = c
                for y, e in m:
                    yv = ev(y, be)
                    if isinstance(yv, float):
                        x = float(x)
                    if yv is True or yv is False:
                        yv = int(yv)
                    if e < 0 and yv == 0:
                        raise Skip()
                    x = x * (Fraction(yv) ** e if not isinstance(yv, float) else yv ** e)
                r += x
            if t.sort == 'i' and isinstance(r, Fraction):
                if r.denominator != 1:
                    return r
                return int(r)
            return r
        if op in ('sym', 'asym'):
            return self.sym(t)
        if op == 'undef':
            if not self.undef_ok:
                raise Undefined(t)
            h = _h(self.seed, 'undef', a[0])
            if t.sort == 'b':
                return bool(h & 1)
            if t.sort == 's':
                return 'undef%d' % h
            return h + 1000003 if t.sort == 'i' else Fraction(h, 3)
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'str':
            return a[0]
        if op == 'inf':
            return Fraction(10) ** 40
        if op == 'infk':
            return 10 ** 9
        if op == 'ite':
            return ev(a[1], be) if ev(a[0], be) else ev(a[2], be)
        if op == 'lt0':
            return ev(a[0], be) < 0
        if op == 'eq0':
            return ev(a[0], be) == 0
        if op in ('seq', 'oeq'):
            return ev(a[0], be) == ev(a[1], be)
        if op == 'slt':
            return ev(a[0], be) < ev(a[1], be)
        if op == 'not':
            return not ev(a[0], be)
        if op == 'and':
            for x in a[0]:
                if not ev(x, be):
                    return False
            return True
        if op == 'or':
            for x in a[0]:
                if ev(x, be):
                    return True
            return False
        if op in ('fdiv', 'fmod', 'tdiv', 'tmod'):
            x, y = ev(a[0], be), ev(a[1], be)
            if y == 0:
                raise Skip()
            if op == 'fdiv':
                return int(x // y)
            if op == 'fmod':
                return int(x % y)
            q = abs(x) // abs(y)
            q = q if (x >= 0) == (y > 0) else -q
            return int(q) if op == 'tdiv' else int(x - q * y)
        if op == 'cv':
            lo, hi = RANGE[a[0]]
            x = ev(a[1], be)
            return (int(x) - lo) % (hi - lo + 1) + lo
        if op == 'min':
            return min(ev(x, be) for x in a)
        if op == 'max':
            return max(ev(x, be) for x in a)
        if op == 'inv':
            x = ev(a[0], be)
            if x == 0:
                raise Skip()
            return 1 / Fraction(x)
        if op == 'app':
            return self.app(a[0], tuple(ev(x, be) for x in a[1]), t.sort)
        if op == 'sel':
            f = ev(a[0], be)
            idx = tuple(int(ev(x, be)) for x in a[1])
            return f(*idx)
        if op in ('sum', 'prod'):
            n = int(ev(a[1], be))
            self._chk(n)
            be2 = dict(be or {})
            i = a[0].args[0]
            r = 0 if op == 'sum' else 1
            for k in range(n):
                be2[i] = k
                x = ev(a[2], be2)
                r = r + x if op == 'sum' else r * x
            return r
        if op == 'lastval':
            n = int(ev(a[1], be))
            self._chk(n)
            be2 = dict(be or {})
            i = a[0].args[0]
            for k in reversed(range(n)):
                be2[i] = k
                if ev(a[2], be2):
                    return ev(a[3], be2)
            return ev(a[4], be)
        if op == 'first':
            n = int(ev(a[1], be))
            be2 = dict(be or {})
            i = a[0].args[0]
            k = 0
            while k < n:
                be2[i] = k
                if ev(a[2], be2):
                    return k
                k += 1
                if k > self.maxloop:
                    raise Skip()
            return n
        if op == 'nth':
            n = int(ev(a[1], be))
            self._chk(n)
            be2 = dict(be or {})
            i = a[0].args[0]
            want = int(ev(a[3], be))
            for k in range(n):
                be2[i] = k
                if ev(a[2], be2):
                    if want == 0:
                        return k
                    want -= 1
            raise Skip()
        if op == 'argmin':
            n = int(ev(a[1], be))
            self._chk(n)
            be2 = dict(be or {})
            i = a[0].args[0]
            best = None
            bk = 0
            for k in range(n):
                be2[i] = k
                x = ev(a[2], be2)
                if best is None or x < best or (not a[3] and x == best):
                    best, bk = x, k
            return bk
        if op == 'minover':
            n = int(ev(a[1], be))
            self._chk(n)
            be2 = dict(be or {})
            i = a[0].args[0]
            r = ev(a[3], be)
            for k in range(n):
                be2[i] = k
                x = ev(a[2], be2)
                if (x > r) if a[4] else (x < r):
                    r = x
            return r
        if op == 'rec':
            return self._rec(t, be)
        raise Skip('cannot evaluate ' + op)

    def _chk(self, n):
        if n > self.maxloop:
            raise Skip()

    def _rec(self, t, be):
        # args: index, kvar, n, inits(tuple), nexts(tuple), statevars(tuple of bv; first is k), lens(tuple or None)
        i, n, inits, nexts, kinds, svs, idx = t.args[0], t.args[1], t.args[2], t.args[3], t.args[4], t.args[5], t.args[6]
        cnt = int(self.ev(n, be))
        self._chk(cnt)
        key = ('rec', inits, nexts, kinds, tuple((be or {}).get(j) for j in self._bvs(t)))
        seq = self.memo.get(key)
        if seq is None:
            st = []
            for kd, ini in zip(kinds, inits):
                if kd == 's':
                    st.append(self.ev(ini, be))
                else:
                    L = int(self.ev(ini[0], be))
                    self._chk(L)
                    b2 = dict(be or {})
                    row = []
                    for q in range(L):
                        b2[ini[1].args[0]] = q
                        row.append(self.ev(ini[2], b2))
                    st.append(tuple(row))
            seq = [st]
            self.memo[key] = seq
        while len(seq) <= cnt:
            k = len(seq) - 1
            st = seq[-1]
            b2 = dict(be or {})
            b2[svs[0].args[0]] = k
            for v, x in zip(svs[1:], st):
                if isinstance(x, tuple):
                    b2[v.args[0]] = (lambda row: (lambda q: row[q] if 0 <= q < len(row) else _oob()))(x)
                else:
                    b2[v.args[0]] = x
            new = []
            sub = Valuation(self.env, self.seed, self.funcs, self.undef_ok, self.maxloop)
            for kd, nx in zip(kinds, nexts):
                if kd == 's':
                    new.append(sub.ev(nx, b2))
                else:
                    L = int(sub.ev(nx[0], b2))
                    row = []
                    b3 = dict(b2)
                    sb = Valuation(self.env, self.seed, self.funcs, self.undef_ok, self.maxloop)
                    for q in range(L):
                        b3[nx[1].args[0]] = q
                        sb.memo = {}
                        row.append(sb.ev(nx[2], b3))
                    new.append(tuple(row))
            seq.append(new)
        x = seq[cnt][i]
        if isinstance(x, tuple):
            q = int(self.ev(idx, be))
            return x[q] if 0 <= q < len(x) else _oob()
        return x


def _oob():
    raise Skip()


def _atoi(s):
    s = s.strip()
    i = 0
    sign = 1
    if i < len(s) and s[i] in '+-':
        sign = -1 if s[i] == '-' else 1
        i += 1
    v = 0
    while i < len(s) and s[i].isdigit():
        v = v * 10 + int(s[i])
        i += 1
    return sign * v


def _strtol(s, b):
    import re
    s = s.strip()
    m = re.match(r'([+-]?)(0[xX](?=[0-9a-fA-F]))?', s)
    b = int(b)
    if m.group(2) and b in (0, 16):
        b, k = 16, m.end()
    else:
        k = len(m.group(1))
        if b == 0:
            b = 8 if s[k:k + 1] == '0' else 10
    v = 0
    for c in s[k:]:
        x = int(c, 36) if c.isalnum() and c.isascii() else 99
        if x >= b:
            break
        v = v * b + x
    return -v if m.group(1) == '-' else v


def _atof(s):
    import re
    m = re.match(r'\s*[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?', s)
    return Fraction(m.group(0).strip()) if m else Fraction(0)


def _single(x):
    try:
        return Fraction(struct.unpack('f', struct.pack('f', float(x)))[0])
    except OverflowError:
        return Fraction(x)


def single(t):
    """rounding to single precision"""
    return num(_single(t.args[0]), 'r') if is_num(t) else mkapp('single', (t,), 'r')


def _fl(f):
    def g(*a):
        try:
            r = f(*[float(x) for x in a])
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Skip()
        if isinstance(r, complex) or r != r:
            raise Skip()
        return r
    return g


def _str(x):
    """what std::to_string prints"""
    if isinstance(x, int):
        return str(x)
    return '%f' % x


def _substr(s, i, n=None):
    i = int(i)
    if not 0 <= i <= len(s):
        raise Skip()
    return s[i:] if n is None else s[i:i + max(0, int(n))]


def _find(s, x, i=0):
    if isinstance(x, int):
        x = chr(x)
    r = s.find(x, int(i))
    return r if r >= 0 else 2 ** 64 - 1


def _band(f):
    def g(a, b):
        if not isinstance(a, int) or not isinstance(b, int):
            raise Skip()
        return f(int(a), int(b))
    return g


def _isnumber(s):
    try:
        int(s)
        return True
    except ValueError:
        return False


def _numberof(s):
    try:
        return int(s)
    except ValueError:
        raise Skip()


INTERP = {
    'strcmp': lambda a, b: (a > b) - (a < b),
    'to_string': _str, 'chr': lambda c: chr(int(c) & 255), 'substr': _substr, 'find': _find,
    'concat': lambda *a: ''.join(a),
    'band': _band(lambda a, b: a & b), 'bor': _band(lambda a, b: a | b), 'bxor': _band(lambda a, b: a ^ b),
    'isalpha': lambda c: 65 <= c <= 90 or 97 <= c <= 122, 'isspace': lambda c: c == 32 or 9 <= c <= 13,
    'isalnum': lambda c: 48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122,
    'isupper': lambda c: 65 <= c <= 90, 'islower': lambda c: 97 <= c <= 122,
    'cbrt': _fl(lambda x: math.copysign(abs(x) ** (1 / 3), x)), 'ceil': lambda x: math.ceil(x),
    'round': lambda x: int(math.copysign(math.floor(abs(x) + Fraction(1, 2)), x)),
    'strip': lambda s: s.strip(), 'lower': lambda s: s.lower(), 'upper': lambda s: s.upper(),
    'pi': lambda: math.pi, 'dbl_epsilon': lambda: Fraction(2) ** -52, 'dbl_min': lambda: Fraction(2) ** -1022,
    'single': _single,
    'strtol': _strtol, 'atoi': _atoi, 'atof': _atof,
    'slen': lambda s: len(s),
    'scat': lambda *a: ''.join(a),
    'schar': lambda s, i: ord(s[int(i)]) if 0 <= i < len(s) else 0,
    'isdigit': lambda c: 48 <= c <= 57,
    'abs': lambda x: abs(x),
    'len_trim': lambda s: len(s.rstrip(' ')),
    'b2i': lambda b: int(b),
    'floor': lambda x: int(x // 1),
    'trunc': lambda x: int(x),
    'xor': lambda a, b: bool(a) != bool(b),
}
for _n in ('sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sinh', 'cosh', 'tanh', 'exp', 'log', 'log2', 'log10',
           'pow', 'hypot', 'expm1', 'log1p', 'erf'):
    INTERP[_n] = _fl(getattr(math, _n))
