"""Models of the library entities the C++ sources use: containers, strings, streams, <algorithm>/<numeric>, MPI, OpenMP."""
from . import term as T
from .term import Term
from .values import (Vec, Arr, Obj, Ptr, NULL, Null, Choice, MapV, MapIt, FnV, UndefV, VOID, Item, Stream, Root, Sub,
                     Unsupported, merge, vec2arr, vlen, step_get, char_at, VALTYPES)
from .loops import run_loop

RANK = T.sym('mpi_rank', 'i', lo=0, ub=T.sym('mpi_size', 'i', lo=1))
SIZE = T.sym('mpi_size', 'i', lo=1)


def short(fn):
    """std::__cxx11::basic_string<char>::size -> size ; strips template arguments"""
    out, d = '', 0
    for ch in fn:
        if ch == '<' and not out.endswith('operator') and not out.endswith('operator<'):
            d += 1
        elif ch == '>' and d:
            d -= 1
        elif not d:
            out += ch
    return out.rsplit('::', 1)[-1]


def base(ty):
    i = ty.find('<')
    return ty if i < 0 else ty[:i]


def key_of(v):
    if type(v) is Term:
        if v.op == 'str':
            return v.args[0]
        if v.op == 'num':
            return v.args[0]
        return None
    if type(v) is Vec:
        ks = tuple(key_of(x) for x in v.items)
        return None if any(k is None for k in ks) else ks
    if type(v) is Obj and v.cls == 'pair':
        ks = (key_of(v.f['first']), key_of(v.f['second']))
        return None if None in ks else ks
    return None


def key_eq(k, v):
    """condition: key value k (abstract) equals v"""
    if type(k) is Term and type(v) is Term:
        return T.eq(k, v)
    if type(k) is Vec and type(v) is Vec:
        if len(k.items) != len(v.items):
            return T.FALSE
        return T.land(*[key_eq(a, b) for a, b in zip(k.items, v.items)])
    raise Unsupported('map key comparison')


def map_find(m, key, root, path):
    if type(m) is Choice:
        return merge(m.c, map_find(m.a, key, root, path), map_find(m.b, key, root, path))
    if type(m) is not MapV:
        raise Unsupported('find in %s' % type(m).__name__)
    if type(key) is Choice:
        return merge(key.c, map_find(m, key.a, root, path), map_find(m, key.b, root, path))
    k = key_of(key)
    if k is not None:
        return MapIt(root, path, k if k in m.keys else None)
    r = MapIt(root, path, None)
    for kk, kv in zip(reversed(m.keys), reversed(m.kvals)):
        r = merge(key_eq(kv, key), MapIt(root, path, kk), r)
    return r


def map_put(m, key, val, overwrite=True):
    if type(m) is Choice:
        return merge(m.c, map_put(m.a, key, val, overwrite), map_put(m.b, key, val, overwrite))
    if type(m) is not MapV:
        raise Unsupported('insert into %s' % type(m).__name__)
    k = key_of(key)
    if k is None:
        raise Unsupported('map insertion with a key that is not known')
    if k in m.keys:
        if not overwrite:
            return m
        i = m.keys.index(k)
        return MapV(m.keys, m.vals[:i] + (val,) + m.vals[i + 1:], m.kvals)
    try:
        ks = sorted(m.keys + (k,))
    except TypeError:
        raise Unsupported('map key kinds')
    i = ks.index(k)
    return MapV(tuple(ks), m.vals[:i] + (val,) + m.vals[i:], m.kvals[:i] + (key,) + m.kvals[i:])


def it_next(I, p, st, d=1):
    if type(p) is Choice:
        return merge(p.c, it_next(I, p.a, st, d), it_next(I, p.b, st, d))
    if type(p) is MapIt:
        m = I.load(Ptr(p.root, p.path), st, True)
        if type(m) is not MapV or p.pos is None and d > 0:
            raise Unsupported('map iterator increment at %s' % I.where())
        i = len(m.keys) if p.pos is None else m.keys.index(p.pos)
        i += d
        return MapIt(p.root, p.path, m.keys[i] if i < len(m.keys) else None)
    return I.deref_idx(p, T.num(d))


def resized(I, v, n, fill):
    """value of the vector v after resize(n, fill)"""
    if type(v) is Choice:
        return merge(v.c, resized(I, v.a, n, fill), resized(I, v.b, n, fill))
    if type(v) is UndefV:
        v = Vec(())
    if T.is_num(n) and type(v) is Vec and n.args[0] <= 256:
        k = int(n.args[0])
        if k < 0:
            raise Unsupported('negative vector size at %s' % I.where())
        return Vec(v.items[:k] + (fill,) * (k - len(v.items)))
    if type(v) is Vec:
        if not v.items:
            j = T.fresh('j', lo=0, ub=n)
            return Arr((n,), (j,), fill)
        v = vec2arr(v)
    old = v.shape[0]
    if old is n:
        return v
    j = v.ks[0]
    return Arr((n,) + v.shape[1:], v.ks, merge(T.lt(j, old), v.body, fill))


def filled(I, n, val):
    if T.is_num(n) and 0 <= n.args[0] <= 256:
        return Vec((val,) * int(n.args[0]))
    j = T.fresh('j', lo=0, ub=n)
    return Arr((n,), (j,), val)


def asize(I, v, fty, st):
    """a size argument"""
    if type(v) is not Term:
        raise Unsupported('size argument')
    return T.strip_cv(v, 'u64')


def subarr(I, a, b, st):
    """(container location, first index, length) of an iterator range"""
    if type(a) is not Ptr or type(b) is not Ptr or a.root is not b.root or len(a.path) != len(b.path):
        raise Unsupported('iterator range at %s' % I.where())
    la = a.path[-1] if a.path else None
    lb = b.path[-1] if b.path else None
    if not (type(la) is tuple and la[0] == 'i' and type(lb) is tuple and lb[0] == 'i'):
        raise Unsupported('iterator range at %s' % I.where())
    return Ptr(a.root, a.path[:-1]), la[1], T.sub(lb[1], la[1])


def elem(I, p, i):
    return Ptr(p.root, p.path + (('i', i),))


def counted(I, st, n, fn, node, name):
    """for (q = 0; q < n; ++q) fn(state, q) through the loop solver"""
    from .loops import Outcome
    ip = I.alloc(st, '#' + name, T.ZERO, 'u64')

    def cond(s):
        return T.lt(I.load(ip, s, True), n)

    def body(s):
        fn(s, I.load(ip, s, True))
        return Outcome(s)

    def inc(s):
        I.store(ip, T.add(I.load(ip, s, True), T.ONE), s, True)
        return s
    o = run_loop(I, st, cond, body, inc, {'node': node, 'omp': None, 'mark': Root.count, 'where': I.where(), 'depth': len(I.omp)})
    if o.next is None or o.ret or o.exit:
        raise Unsupported('library loop leaves')
    st.store, st.pc, st._facts = o.next.store, o.next.pc, None


def binop(op, ty):
    def f(I, st, args):
        a, b = [I.val(x, st) for x in args]
        a = I.load(a, st) if type(a) is Ptr else a
        b = I.load(b, st) if type(b) is Ptr else b
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return I.compare(op, a, b, ty, st)
        if ty in ('i32', 'u32') and I.precise and type(a) is Term and type(b) is Term:
            return T.cv(ty, I.arith(op, T.cv(ty, a), T.cv(ty, b), ty, st))
        return I.arith(op, a, b, ty, st)
    return f


FUNCTORS = {'plus': '+', 'minus': '-', 'multiplies': '*', 'divides': '/', 'modulus': '%', 'less': '<', 'greater': '>',
            'less_equal': '<=', 'greater_equal': '>=', 'equal_to': '==', 'not_equal_to': '!='}
MATH = {'sin', 'cos', 'tan', 'exp', 'log', 'sqrt', 'pow', 'atan', 'atan2', 'acos', 'asin', 'cbrt', 'log10', 'ceil', 'floor', 'round', 'hypot'}


def elemty(n, i):
    """element type of the iterator/pointer argument i"""
    from .cxx import tparts
    ty = n['args'][i].get('ty', '')
    if ty.startswith('__normal_iterator'):
        return tparts(tparts(ty)[1][0])[1][0]
    if ty.startswith('ptr<'):
        return tparts(ty)[1][0]
    return None


def common(a, b):
    """usual arithmetic conversions"""
    order = ['i32', 'u32', 'i64', 'u64', 'f32', 'f64']
    a = a if a in order else 'i32'
    b = b if b in order else 'i32'
    return order[max(order.index(a), order.index(b))]


MANIP = ('std::setprecision', 'std::setw', 'std::setfill')


def openmodes(n):
    """names of the stream constants in an open mode"""
    out = []

    def go(x):
        if isinstance(x, dict):
            g = x.get('global', '')
            if isinstance(g, str) and g.startswith('std::ios_base::'):
                out.append(g[15:])
            for y in x.values():
                go(y)
        elif isinstance(x, list):
            for y in x:
                go(y)
    go(n)
    return tuple(out)


# ------------------------------------------------------------------ free functions
def call(I, n, this, st):
    fn = n['fn']
    nm = short(fn)
    A = n['args']

    def arg(i):
        return I.rv(A[i], st)

    if fn in MANIP:
        return FnV(None, fn, env=(arg(0),))
    if fn.startswith('MPI_') or fn.startswith('PMPI_'):
        return mpi(I, n, nm, st)
    if nm.startswith('omp_'):
        return ompfn(I, n, nm, [I.rv(a, st) for a in A], st)
    if nm in ('abs', 'fabs', 'labs', 'llabs'):
        x = arg(0)
        if type(x) is Choice or type(x) is not Term:
            raise Unsupported('abs')
        return T.ite(T.lt(x, T.num(0, x.sort)), T.neg(x), x)
    if nm in MATH:
        return T.mkapp(nm, tuple(T.toreal(arg(i)) for i in range(len(A))), 'r')
    if nm in ('strtof', 'stof'):
        # a single precision number: not the one that was given, in general
        return T.mkapp('single', (T.mkapp('atof', (arg(0),), 'r'),), 'r')
    if nm in ('atof', 'stod', 'strtod'):
        return T.mkapp('atof', (arg(0),), 'r')
    if nm in ('strtol', 'strtoll', 'strtoul'):
        b = arg(2)
        if T.is_num(b) and b.args[0] == 10:
            return T.mkapp('atoi', (arg(0),), 'i')
        return T.mkapp('strtol', (arg(0), b), 'i')
    if nm in ('atoi', 'stoi', 'atol', 'stol'):
        return T.mkapp('atoi', (arg(0),), 'i')
    if nm == 'isdigit':
        return T.b2i(T.mkapp('isdigit', (arg(0),), 'b'))
    if nm in ('isalpha', 'isspace', 'isalnum', 'isupper', 'islower'):
        return T.b2i(T.mkapp(nm, (arg(0),), 'b'))
    if nm == 'strlen':
        return vlen(arg(0))
    if nm == 'strcmp':
        a, b = arg(0), arg(1)
        return T.ite(T.eq(a, b), T.ZERO, T.mkapp('strcmp', (a, b), 'i'))
    if 'numeric_limits' in fn:
        ty = n['ty']
        if ty in ('f64', 'f32'):
            if nm in ('max', 'infinity'):
                return T.INF
            if nm == 'lowest':
                return T.neg(T.INF)
            if nm in ('min', 'epsilon'):
                return T.mkapp('dbl_' + nm, (), 'r')
        elif ty in T.RANGE:
            lo, hi = T.RANGE[ty]
            return T.num(hi if nm == 'max' else lo)
        raise Unsupported(fn)
    if nm in ('min', 'max', 'fmin', 'fmax') and len(A) == 2:
        a, b = I.val(arg(0), st), I.val(arg(1), st)
        if type(a) is Term and type(b) is Term:
            if n['ty'][0] == 'u':
                a, b = I.unsigned(a, n['ty'], st), I.unsigned(b, n['ty'], st)
            return T.tmin(a, b) if 'min' in nm else T.tmax(a, b)
        raise Unsupported(nm)
    if nm in ('move', 'forward', 'ref', 'cref', 'as_const'):
        return I.ex(A[0], st)
    if nm == 'swap':
        a, b = I.lv(A[0], st), I.lv(A[1], st)
        x, y = I.load(a, st, True), I.load(b, st, True)
        I.store(a, y, st)
        I.store(b, x, st)
        return VOID
    if nm in ('begin', 'cbegin', 'end', 'cend') and len(A) == 1:
        return method_on(I, n, nm.lstrip('c'), I.lv(A[0], st), [], st)
    if nm in ('accumulate', 'reduce', 'inner_product'):
        return fold(I, n, nm, st)
    if nm in ('fill', 'fill_n', 'iota', 'copy', 'copy_n', 'transform', 'for_each'):
        return algo(I, n, nm, st)
    if nm in ('min_element', 'max_element'):
        return extreme(I, n, nm, st)
    if nm in ('count', 'count_if', 'all_of', 'any_of', 'none_of', 'find', 'find_if', 'find_if_not', 'equal', 'generate',
              'generate_n', 'replace', 'partial_sum', 'reverse', 'adjacent_difference', 'exclusive_scan', 'copy_backward',
              'reverse_copy', 'swap_ranges') and len(A) >= 2:
        return ranges(I, n, nm, st)
    if nm == 'distance':
        return subarr(I, arg(0), arg(1), st)[2]
    if nm in ('next', 'prev'):
        d = arg(1) if len(A) > 1 else T.ONE
        p = arg(0)
        if type(p) is Ptr:
            return I.deref_idx(p, d if nm == 'next' else T.neg(d))
        if T.is_num(d):
            return it_next(I, p, st, int(d.args[0]) * (1 if nm == 'next' else -1))
    if nm == 'advance':
        q = I.lv(A[0], st)
        I.store(q, I.deref_idx(I.load(q, st, True), arg(1)), st, True)
        return VOID
    if nm == 'clamp' and len(A) == 3:
        x, lo, hi = [I.val(arg(i), st) for i in range(3)]
        return T.tmin(T.tmax(x, lo), hi)
    if nm == 'copysign' and len(A) == 2:
        x, y = arg(0), arg(1)
        ax = T.ite(T.lt(x, T.num(0, x.sort)), T.neg(x), x)
        return T.ite(T.lt(y, T.num(0, y.sort)), T.neg(ax), ax)
    if nm in ('back_inserter', 'inserter') and nm == 'back_inserter':
        return Obj('back_insert', {'p': I.lv(A[0], st)})
    if nm == 'make_pair':
        return Obj('pair', {'first': arg(0), 'second': arg(1)})
    if nm in ('exit', '_exit', 'abort', 'quick_exit', 'terminate'):
        from .cxx import PathEnds
        I.event(st, 'exit', *[arg(i) for i in range(len(A))])
        raise PathEnds([st])
    if nm in ('printf', 'fprintf', 'puts'):
        I.event(st, 'printf', *[arg(i) for i in range(len(A)) if i or nm != 'fprintf'])
        return T.ZERO
    if nm == 'to_string':
        return T.mkapp('to_string', (arg(0),), 's')
    if nm in ('time', 'clock'):
        return T.fresh('clock', 'i')
    raise Unsupported('library function %s at %s' % (fn, I.where()))


def fold(I, n, nm, st):
    A = n['args']
    first, last = I.rv(A[0], st), I.rv(A[1], st)
    box, lo, ln = subarr(I, first, last, st)
    ety = elemty(n, 0)
    acct = n['ty']
    if nm == 'inner_product':
        second = I.rv(A[2], st)
        init = I.rv(A[3], st)
        rest = [I.rv(a, st) for a in A[4:]]
        ety2 = elemty(n, 2)
    else:
        init = I.rv(A[2], st) if len(A) > 2 else T.num(0, 'r' if acct.startswith('f') else 'i')
        rest = [I.rv(a, st) for a in A[3:]]
    acc = I.alloc(st, '#acc', init, acct)
    cty = None

    def body(s, q):
        a = I.load(acc, s)
        e = I.load(elem(I, box, T.add(lo, q)), s)
        if nm == 'inner_product':
            e2 = I.load(I.deref_idx(second, q), s)
            if len(rest) == 2:
                e = I.val(I.callv(rest[1], [e, e2], s), s)
            else:
                c2 = common(ety, ety2)
                e = I.arith('*', I.convert(e, ety, c2, 'x', s), I.convert(e2, ety2, c2, 'x', s), c2, s)
            ty2 = common(ety, ety2)
        else:
            ty2 = ety
        if rest:
            f = rest[0]
            r = I.val(I.callv(f, [wrap(I, a, acct, f), wrap(I, e, ty2, f)], s), s)
            rty = fret(I, f) or ty2
        else:
            c3 = common(acct, ty2)
            r = I.arith('+', I.convert(a, acct, c3, 'x', s), I.convert(e, ty2, c3, 'x', s), c3, s)
            rty = c3
        if rty != acct:
            r = I.convert(r, rty, acct, 'x', s)
        I.store(acc, r, s, True)
    counted(I, st, ln, body, n, nm)
    return I.load(acc, st, True)


def apart(c, q1, q2):
    """c(q1, q2) of the form g(q1) < g(q2):  g(q1)"""
    if c.op != 'lt0':
        return None
    p = T._poly(c.args[0])
    a, b = T.ZERO, T.ZERO
    for m, co in p.items():
        t = T._frompoly({m: co}, c.args[0].sort)
        if T.has(t, q1) and T.has(t, q2):
            return None
        if T.has(t, q1):
            a = T.add(a, t)
        elif T.has(t, q2):
            b = T.add(b, t)
        elif not (m == () and c.args[0].sort == 'i' and co == 0):
            return None
    if T.add(T.subst(a, {q1: q2}), b) is not T.num(0, a.sort):
        return None
    return a


def extreme(I, n, nm, st):
    """first smallest/largest element of a range"""
    A = n['args']
    a = [I.rv(x, st) for x in A]
    box, lo, ln = subarr(I, a[0], a[1], st)
    first = elem(I, box, lo)
    ety = elemty(n, 0)

    def less(s, x, y):
        ex, ey = I.load(x, s), I.load(y, s)
        if len(a) > 2:
            return I.val(I.callv(a[2], [x if byref(a[2], 0) else ex, y if byref(a[2], 1) else ey], s), s)
        if type(ex) is not Term or type(ey) is not Term:
            raise Unsupported(nm)
        return T.lt(ex, ey)
    big = nm == 'max_element'
    if T.is_num(ln) and ln.args[0] <= 64:
        best = T.ZERO
        for k in range(1, int(ln.args[0])):
            x, y = I.deref_idx(first, T.num(k)), I.deref_idx(first, best)
            best = T.ite(less(st, y, x) if big else less(st, x, y), T.num(k), best)
        return I.deref_idx(first, best)
    q1, q2 = T.fresh('q', lo=0, ub=ln), T.fresh('q', lo=0, ub=ln)
    s = st.copy()
    I.quiet += 1
    try:
        c = less(s, I.deref_idx(first, q1), I.deref_idx(first, q2))
    finally:
        I.quiet -= 1
    g = apart(c, q1, q2)
    if g is None:
        raise Unsupported('%s: comparison of elements' % nm)
    val = I.alloc(st, '#best', T.neg(T.INF) if big else T.INF, 'f64')
    idx = I.alloc(st, '#bestidx', T.ZERO, 'u64')

    def body(s2, q):
        less(s2, I.deref_idx(first, q), I.deref_idx(first, q))     # the reads
        gk, m = T.toreal(T.subst(g, {q1: q})), I.load(val, s2, True)
        c = T.lt(m, gk) if big else T.lt(gk, m)
        I.store(val, T.ite(c, gk, m), s2, True)
        I.store(idx, T.ite(c, q, I.load(idx, s2, True)), s2, True)
    counted(I, st, ln, body, n, nm)
    return I.deref_idx(first, I.load(idx, st, True))


def ranges(I, n, nm, st):
    A = n['args']
    a = [I.rv(x, st) for x in A]
    if type(a[0]) is Ptr and nm != 'generate_n':
        box, lo, ln = subarr(I, a[0], a[1], st)
        first = elem(I, box, lo)
    elif nm == 'generate_n':
        first, ln = a[0], a[1]
    else:
        raise Unsupported('%s over %s' % (nm, type(a[0]).__name__))
    ety = elemty(n, 0)

    def test(s, q):
        e = I.deref_idx(first, q)
        if nm in ('count', 'find'):
            v = I.val(a[2], s)
            x = I.load(e, s)
            if type(x) is Term and type(v) is Term:
                c = common(ety, A[2].get('ty'))
                return I.compare('==', I.convert(x, ety, c, 'x', s), I.convert(v, A[2].get('ty'), c, 'x', s), c, s)
            return key_eq(x, v)
        if nm == 'equal':
            x, y = I.load(e, s), I.load(I.deref_idx(a[2], q), s)
            if len(a) > 3:
                raise Unsupported('equal with a predicate')
            return T.lnot(T.eq(x, y)) if type(x) is Term else T.lnot(key_eq(x, y))
        r = I.val(I.callv(a[2], [e if byref(a[2], 0) else I.load(e, s)], s), s)
        return T.lnot(r) if nm in ('all_of', 'find_if_not') else r
    if nm in ('count', 'count_if'):
        acc = I.alloc(st, '#count', T.ZERO, 'i64')
        counted(I, st, ln, lambda s, q: I.store(acc, T.add(I.load(acc, s, True), T.b2i(test(s, q))), s, True), n, nm)
        return I.load(acc, st, True)
    if nm in ('all_of', 'any_of', 'none_of', 'equal'):
        acc = I.alloc(st, '#any', T.FALSE, 'bool')
        counted(I, st, ln, lambda s, q: I.store(acc, T.lor(I.load(acc, s, True), test(s, q)), s, True), n, nm)
        r = I.load(acc, st, True)
        return r if nm == 'any_of' else T.lnot(r)
    if nm in ('find', 'find_if', 'find_if_not'):
        q = T.fresh('q', lo=0, ub=ln)
        return I.deref_idx(first, T.first(q, ln, test(st, q)))
    if nm in ('generate', 'generate_n'):
        counted(I, st, ln, lambda s, q: I.store(I.deref_idx(first, q), I.val(I.callv(a[2], [], s), s), s), n, nm)
        return I.deref_idx(first, ln)
    if nm == 'replace':
        def rep(s, q):
            e = I.deref_idx(first, q)
            x = I.load(e, s)
            I.store(e, T.ite(T.eq(x, I.val(a[2], s)), I.val(a[3], s), x), s)
        counted(I, st, ln, rep, n, nm)
        return VOID
    if nm == 'partial_sum':
        acc = I.alloc(st, '#acc', T.num(0, 'r' if ety.startswith('f') else 'i'), ety)
        f = a[3] if len(a) > 3 else None

        def ps(s, q):
            x = I.load(I.deref_idx(first, q), s)
            m = I.load(acc, s, True)
            if f is None:
                v = I.arith('+', m, x, ety, s)
            else:
                v = merge(T.eq(q, T.ZERO), x, I.val(I.callv(f, [m, x], s), s))
            I.store(acc, v, s, True)
            I.store(I.deref_idx(a[2], q), v, s)
        counted(I, st, ln, ps, n, nm)
        return I.deref_idx(a[2], ln)
    if nm == 'reverse':
        old = I.load(box, st, True)
        if type(old) is Vec and T.is_num(lo) and T.is_num(ln):
            i0, k = int(lo.args[0]), int(ln.args[0])
            I.store(box, Vec(old.items[:i0] + tuple(reversed(old.items[i0:i0 + k])) + old.items[i0 + k:]), st)
            return VOID
    if nm == 'reverse_copy':
        counted(I, st, ln, lambda s, q: I.store(I.deref_idx(a[2], q), I.load(I.deref_idx(first, T.sub(T.sub(ln, T.ONE), q)), s), s), n, nm)
        return I.deref_idx(a[2], ln)
    raise Unsupported(nm)


def wrap(I, v, ty, f):
    """argument conversion for a functor with declared operand type"""
    if type(f) is FnV and f.name.startswith('functor:'):
        t = f.name.split(':')[2]
        if t != ty and type(v) is Term:
            return I.convert(v, ty, t, 'x', None) if t != 'void' else v
    return v


def fret(I, f):
    if type(f) is FnV:
        if f.name.startswith('functor:'):
            return f.name.split(':')[2]
        if f.node is not None:
            return f.node.get('ret')
        g = I.prog.fns.get(f.fid)
        if g:
            return g['ret']
    return None


def algo(I, n, nm, st):
    A = n['args']
    a = [I.rv(x, st) for x in A]
    if nm in ('fill_n', 'copy_n'):
        first, ln = a[0], a[1]
    else:
        box, lo, ln = subarr(I, a[0], a[1], st)
        first = elem(I, box, lo)
    ety = elemty(n, 0)
    if nm in ('fill', 'fill_n'):
        v = I.val(a[2], st)
        vty = A[2].get('ty')
        if type(v) is Term and vty != ety and ety:
            v = I.convert(v, vty, ety, 'x', st)
        counted(I, st, ln, lambda s, q: I.store(I.deref_idx(first, q), v, s), n, nm)
        return a[0]
    if nm == 'iota':
        v = I.val(a[2], st)
        counted(I, st, ln, lambda s, q: I.store(I.deref_idx(first, q), T.add(v, q), s), n, nm)
        return VOID
    out = a[-1] if nm in ('copy', 'copy_n') else a[-2] if nm == 'transform' else None
    if type(out) is Obj and out.cls == 'back_insert':
        def push(s, q):
            x = I.load(I.deref_idx(first, q), s)
            if nm == 'transform':
                xs = [x] + ([I.load(I.deref_idx(a[2], q), s)] if len(a) == 5 else [])
                x = I.val(I.callv(a[-1], xs, s), s)
            I.store(out.f['p'], pushed(I, I.load(out.f['p'], s, True), x), s, True)
        counted(I, st, ln, push, n, nm)
        return out
    if nm in ('copy', 'copy_n'):
        dst = a[2]
        counted(I, st, ln, lambda s, q: I.store(I.deref_idx(dst, q), I.load(I.deref_idx(first, q), s), s), n, nm)
        return I.deref_idx(dst, ln)
    if nm == 'for_each':
        f = a[2]
        counted(I, st, ln, lambda s, q: I.callv(f, [I.deref_idx(first, q) if byref(f, 0) else I.load(I.deref_idx(first, q), s)], s), n, nm)
        return f
    if nm == 'transform':
        if len(a) == 4:
            dst, f = a[2], a[3]
            counted(I, st, ln, lambda s, q: I.store(I.deref_idx(dst, q), I.val(I.callv(f, [I.load(I.deref_idx(first, q), s)], s), s), s), n, nm)
        else:
            src2, dst, f = a[2], a[3], a[4]
            counted(I, st, ln, lambda s, q: I.store(I.deref_idx(dst, q), I.val(I.callv(
                f, [I.load(I.deref_idx(first, q), s), I.load(I.deref_idx(src2, q), s)], s), s), s), n, nm)
        return I.deref_idx(dst, ln)
    raise Unsupported(nm)


def byref(f, i):
    return type(f) is FnV and f.node is not None and i < len(f.node['params']) and f.node['params'][i]['isref']


# ------------------------------------------------------------------ methods
def method(I, n, this, st):
    nm = short(n['fn'])
    args = [I.rv(a, st) for a in n['args']]
    I.curnode = n
    return method_on(I, n, nm, this, args, st)


def method_on(I, n, nm, this, args, st):
    from .cxx import LRef, tparts
    if type(this) is Choice:
        v = None
    v = I.load(this, st, True)
    oty = n.get('oty') or (this.root.ty if type(this) is Ptr else None) or ''
    bt = base(oty)
    if type(v) is UndefV and bt not in ('array',):
        if bt == 'vector':
            v = Vec(())
    args = [I.val(a, st) for a in args]
    if bt == 'unique_ptr':
        if nm == 'get':
            return v
        if nm == 'operator bool':
            return T.boolean(type(v) is Ptr) if type(v) is not Choice else I.compare('!=', v, NULL, 'i64', st)
        if nm in ('reset', 'release'):
            I.store(this, args[0] if args and type(args[0]) is Ptr else NULL, st, True)
            if nm == 'reset' and type(v) is Ptr:
                I.discard(v, 'carr<' in oty, st)
            return v if nm == 'release' else VOID
    if type(v) is Stream or 'stream' in bt:
        return stream_method(I, n, nm, this, v, args, st)
    if type(v) is Term and v.sort == 's' or bt in ('string', 'basic_string'):
        return string_method(I, n, nm, this, v, args, st)
    if isinstance(v, (MapV,)) or bt == 'map' or (type(v) is Choice and bt in ('map', 'set')):
        return map_method(I, n, nm, this, v, args, st)
    if isinstance(v, (Vec, Arr)) or bt in ('vector', 'array'):
        return vec_method(I, n, nm, this, v, args, st)
    if nm in ('first', 'second'):
        return LRef(I.sub_path(this, nm))
    if nm.startswith('operator') and type(v) in (Term, Ptr):
        return v
    raise Unsupported('method %s on %s at %s' % (nm, type(v).__name__, I.where()))


def vpath(this, step):
    if type(this) is Choice:
        return Choice(this.c, vpath(this.a, step), vpath(this.b, step))
    return Ptr(this.root, this.path + (step,))


def vec_method(I, n, nm, this, v, args, st):
    from .cxx import LRef, tparts
    oty = n.get('oty') or (this.root.ty if type(this) is Ptr else '') or 'vector<?>'
    et = tparts(oty)[1][0] if '<' in oty else 'f64'
    if nm in ('size', 'length'):
        return vlen(v)
    if nm == 'empty':
        return T.eq(vlen(v), T.ZERO)
    if nm in ('begin', 'cbegin', 'data'):
        return vpath(this, ('i', T.ZERO))
    if nm in ('end', 'cend'):
        return vpath(this, ('i', vlen(v)))
    if nm == 'front':
        I.note('f', vpath(this, ('i', T.ZERO)), len(this.path), v, ('i', T.ZERO), st)
        return LRef(vpath(this, ('i', T.ZERO)))
    if nm == 'back':
        return LRef(vpath(this, ('i', T.sub(vlen(v), T.ONE))))
    if nm in ('at', 'operator[]'):
        return LRef(vpath(this, ('i', asize(I, args[0], None, st))))
    if nm == 'resize':
        fill = args[1] if len(args) > 1 else I.default(et, 'element', True)
        I.store(this, resized(I, v, asize(I, args[0], None, st), fill), st, True)
        return VOID
    if nm == 'assign':
        if len(args) == 2 and type(args[0]) is Term:
            x = args[1]
            I.store(this, filled(I, asize(I, args[0], None, st), x), st, True)
            return VOID
        box, lo, ln = subarr(I, args[0], args[1], st)
        I.store(this, slice_(I, box, lo, ln, st), st, True)
        return VOID
    if nm in ('push_back', 'emplace_back'):
        x = args[0]
        I.store(this, pushed(I, v, x), st, True)
        return VOID
    if nm == 'pop_back':
        if type(v) is Vec and v.items:
            I.store(this, Vec(v.items[:-1]), st, True)
            return VOID
    if nm == 'clear':
        I.store(this, Vec(()), st, True)
        return VOID
    if nm in ('reserve', 'shrink_to_fit'):
        return VOID
    if nm == 'capacity':
        return vlen(v)
    if nm == 'fill':
        k = vlen(v)
        I.store(this, filled(I, k, args[0]), st, True)
        return VOID
    if nm == 'swap':
        o = n['args'][0] if n.get('args') else None
        if o is not None:
            q = I.lv(o, st)
            w = I.load(q, st, True)
            I.store(this, w, st)
            I.store(q, v, st)
            return VOID
    if nm == 'insert' and type(args[0]) is Ptr and len(args) == 2 and type(v) is Vec:
        i = args[0].path[-1][1]
        if T.is_num(i):
            k = int(i.args[0])
            I.store(this, Vec(v.items[:k] + (args[1],) + v.items[k:]), st, True)
            return args[0]
    if nm == 'insert' and len(args) == 3 and type(args[1]) is Ptr and args[0].path[-1][1] is vlen(v):
        box, lo, ln = subarr(I, args[1], args[2], st)
        if T.is_num(ln) and type(v) is Vec:
            x = slice_(I, box, lo, ln, st)
            I.store(this, Vec(v.items + tuple(x.items)), st, True)
            return args[0]
    raise Unsupported('vector method %s at %s' % (nm, I.where()))


def slice_(I, box, lo, ln, st):
    if T.is_num(ln) and ln.args[0] <= 256:
        return Vec(I.load(elem(I, box, T.add(lo, T.num(i))), st) for i in range(int(ln.args[0])))
    j = T.fresh('j', lo=0, ub=ln)
    return Arr((ln,), (j,), I.load(elem(I, box, T.add(lo, j)), st, True))


def pushed(I, v, x):
    if type(v) is Choice:
        return merge(v.c, pushed(I, v.a, x), pushed(I, v.b, x))
    if type(v) is Vec:
        return Vec(v.items + (x,))
    n = v.shape[0]
    j = v.ks[0]
    return Arr((T.add(n, T.ONE),) + v.shape[1:], v.ks, merge(T.eq(j, n), x, v.body))


def map_method(I, n, nm, this, v, args, st):
    from .cxx import LRef, tparts
    oty = n.get('oty') or (this.root.ty if type(this) is Ptr else '') or ''
    if type(this) is not Ptr:
        raise Unsupported('map method on one of several maps')
    if nm in ('find', 'lower_bound') and nm == 'find':
        return map_find(v, args[0], this.root, this.path)
    if nm == 'count':
        r = map_find(v, args[0], this.root, this.path)
        return pos_count(r)
    if nm in ('begin', 'cbegin'):
        return map_begin(v, this)
    if nm in ('end', 'cend'):
        return MapIt(this.root, this.path, None)
    if nm == 'size':
        return vlen(v)
    if nm == 'empty':
        return T.eq(vlen(v), T.ZERO)
    if nm == 'clear':
        I.store(this, MapV(), st, True)
        return VOID
    if nm in ('insert', 'emplace'):
        if nm == 'insert':
            p = args[0]
            if type(p) is not Obj or 'first' not in p.f:
                raise Unsupported('map insert at %s' % I.where())
            k, x = p.f['first'], p.f['second']
        else:
            k, x = args[0], args[1]
        from .loops import Outcome
        I.store(this, map_put(v, k, x, False), st, True)
        return Obj('pair', {'first': MapIt(this.root, this.path, key_of(k)), 'second': T.TRUE})
    if nm in ('at', 'operator[]'):
        r = map_find(v, args[0], this.root, this.path)
        if nm == 'operator[]' and type(r) is MapIt and r.pos is None:
            k = args[0]
            vt = tparts(oty)[1][1] if '<' in oty else 'f64'
            I.store(this, map_put(v, k, I.default(vt, 'map element', True)), st, True)
            r = MapIt(this.root, this.path, key_of(k))
        return LRef(it_second(r))
    if nm == 'erase':
        k = key_of(args[0]) if type(args[0]) is not MapIt else args[0].pos
        if type(v) is MapV and k is not None:
            if k in v.keys:
                i = v.keys.index(k)
                I.store(this, MapV(v.keys[:i] + v.keys[i + 1:], v.vals[:i] + v.vals[i + 1:], v.kvals[:i] + v.kvals[i + 1:]), st, True)
            return VOID
    raise Unsupported('map method %s at %s' % (nm, I.where()))


def pos_count(r):
    if type(r) is Choice:
        return T.ite(r.c, pos_count(r.a), pos_count(r.b))
    return T.ZERO if r.pos is None else T.ONE


def map_begin(v, this):
    if type(v) is Choice:
        return merge(v.c, map_begin(v.a, this), map_begin(v.b, this))
    if type(v) is not MapV:
        raise Unsupported('begin of %s' % type(v).__name__)
    return MapIt(this.root, this.path, v.keys[0] if v.keys else None)


def it_second(r):
    if type(r) is Choice:
        return Choice(r.c, it_second(r.a), it_second(r.b))
    if r.pos is None:
        raise Unsupported('access to an absent map element')
    return Ptr(r.root, r.path + (('m', r.pos),))


def string_method(I, n, nm, this, v, args, st):
    if nm in ('c_str', 'data'):
        return v
    if nm in ('size', 'length'):
        return vlen(v)
    if nm == 'empty':
        return T.eq(v, T.string(''))
    if nm == 'at' or nm == 'operator[]':
        return char_at(v, args[0])
    if nm == 'front':
        return char_at(v, T.ZERO)
    if nm == 'back':
        return char_at(v, T.sub(vlen(v), T.ONE))
    if nm in ('append', 'push_back', 'operator+='):
        from .cxx import LRef
        x = args[0]
        I.store(this, scat(v, x), st, True)
        return LRef(this)
    if nm == 'compare' and len(args) == 1:
        return T.ite(T.eq(v, args[0]), T.ZERO, T.mkapp('strcmp', (v, args[0]), 'i'))
    if nm == 'compare' and len(args) == 3:
        x = T.mkapp('substr', (v, args[0], args[1]), 's')
        if v.op == 'str' and T.is_num(args[0]) and T.is_num(args[1]):
            x = T.string(v.args[0][int(args[0].args[0]):][:int(args[1].args[0])])
        if x.op == 'str' and args[2].op == 'str':
            return T.num((x.args[0] > args[2].args[0]) - (x.args[0] < args[2].args[0]))
        return T.ite(T.eq(x, args[2]), T.ZERO, T.mkapp('strcmp', (x, args[2]), 'i'))
    if nm == 'clear':
        I.store(this, T.string(''), st, True)
        return VOID
    if nm == 'assign' and len(args) == 1:
        I.store(this, args[0], st, True)
        return VOID
    if nm in ('substr', 'find'):
        return T.mkapp(nm, (v,) + tuple(args), 's' if nm == 'substr' else 'i')
    raise Unsupported('string method %s at %s' % (nm, I.where()))


def scat(a, b):
    if type(a) is Choice:
        return merge(a.c, scat(a.a, b), scat(a.b, b))
    if type(a) is not Term or type(b) is not Term:
        raise Unsupported('string concatenation')
    a, b = tostr(a), tostr(b)
    xs = []
    for t in (a, b):
        xs += list(t.args[1]) if t.op == 'app' and t.args[0] == 'scat' else [t]
    out = []
    for x in xs:
        if x.op == 'str' and out and out[-1].op == 'str':
            out[-1] = T.string(out[-1].args[0] + x.args[0])
        elif x.op == 'str' and x.args[0] == '':
            continue
        else:
            out.append(x)
    if not out:
        return T.string('')
    if len(out) == 1:
        return out[0]
    return T.mkapp('scat', tuple(out), 's')


def tostr(x):
    if x.sort == 's':
        return x
    if x.op == 'num':
        return T.string(chr(int(x.args[0])))
    return T.mkapp('chr', (x,), 's')


def stream_method(I, n, nm, this, v, args, st):
    from .cxx import LRef
    if nm == 'open':
        I.event(st, 'file', args[0])
        add(I, this, st, Item('open', (args[0],) + openmodes(n['args'][1:]), I.where()))
        return VOID
    if nm == 'close':
        add(I, this, st, Item('close', (), I.where()))
        return VOID
    if nm == 'flush':
        return LRef(this)
    if nm in ('precision', 'width', 'setf', 'fill', 'unsetf', 'imbue'):
        add(I, this, st, Item('fmt', (nm,) + tuple(a for a in args if type(a) is Term), I.where()))
        return T.ZERO
    if nm in ('good', 'is_open', 'operator bool', 'fail', 'bad', 'eof', 'operator!'):
        # the environment is assumed to let the files be written (DESIGN.md, assumptions)
        ok = T.TRUE
        return T.lnot(ok) if nm in ('fail', 'bad', 'eof', 'operator!') else ok
    if nm in ('put',):
        out(I, this, args[0], 'char', st)
        return LRef(this)
    if nm == 'write':
        out(I, this, args[0], 'ptr<char>', st)
        return LRef(this)
    if nm == 'rdbuf' or nm == 'str' and not args and any(
            type(it) is not Item or it.kind != 'out' or type(it.args[0]) is not Term or it.args[0].sort != 's' for it in v.items):
        # text with computed parts: the pieces, in the order they were written
        if any(type(it) is Item and it.kind not in ('out',) for it in v.items):
            raise Unsupported('str() of a formatted stream')
        return Obj('text', {'s': v})
    if nm == 'str' and args:
        I.store(this, Stream((Item('out', (args[0], 'string'), I.where()),) if args[0] is not T.string('') else ()), st, True)
        return VOID
    if nm == 'str':
        items = v.items
        r = T.string('')
        for it in items:
            if type(it) is not Item or it.kind != 'out' or type(it.args[0]) is not Term or it.args[0].sort != 's':
                raise Unsupported('str() of a stream with computed text')
            r = scat(r, it.args[0])
        return r
    raise Unsupported('stream method %s at %s' % (nm, I.where()))


def add(I, p, st, item):
    v = I.load(p, st, True)
    if type(v) is UndefV:
        v = Stream()
    if type(v) is not Stream:
        raise Unsupported('output to %s' % type(v).__name__)
    I.store(p, Stream(v.items + (item,)), st, True)


def out(I, p, v, ty, st):
    if type(v) is Term:
        I.useterm(v, st)
        if ty == 'char':
            v = tostr(v)
            ty = 'string'
        elif v.sort == 's':
            ty = 'string'
    elif type(v) is Obj and v.cls == 'text':
        for it in v.f['s'].items:
            add(I, p, st, it)
        return
    elif type(v) is Choice:
        pass
    add(I, p, st, Item('out', (v, ty), I.where()))


# ------------------------------------------------------------------ operators
def opcall(I, n, st):
    from .cxx import LRef, tparts, is_int
    op = n['op']
    if op.startswith('operator'):
        op = op[8:]
    A = n['args']
    t0 = A[0].get('ty', '')
    b0 = base(t0)
    if op in ('|', '&', '^') and n.get('ty') == 'enum':
        return I.rv(A[0], st)       # open modes, format flags: read off the expression where they are used
    if op == '<<':
        s = I.ex(A[0], st)
        if type(s) is LRef:
            p = s.p
            if type(p) is Ptr and (type(st.store.get(p.root)) is Stream or 'stream' in b0 or type(I.load(p, st, True)) is Stream):
                v = I.rv(A[1], st)
                I.curnode = n
                if type(v) is FnV:
                    nm = short(v.name)
                    if nm == 'endl':
                        out(I, p, T.string('\n'), 'string', st)
                    elif nm in ('flush', 'ends'):
                        pass
                    else:
                        add(I, p, st, Item('fmt', (nm,) + (v.env if v.name in MANIP else ()), I.where()))
                else:
                    out(I, p, v, A[1].get('ty'), st)
                return LRef(p)
        raise Unsupported('operator<< at %s' % I.where())
    if op == '[]':
        this = I.lv(A[0], st)
        idx = I.rv(A[1], st)
        I.curnode = n
        if b0 in ('string', 'basic_string'):
            return char_at(I.load(this, st, True), asize(I, idx, None, st))
        if b0 in ('map', 'unordered_map'):
            m = dict(n)
            m['oty'] = t0
            return map_method(I, m, 'operator[]', this, I.load(this, st, True), [idx], st)
        if 'iterator' in b0 or t0.startswith('ptr') or b0 == 'unique_ptr':
            return LRef(I.deref_idx(I.load(this, st, True), idx))
        return LRef(vpath(this, ('i', asize(I, idx, A[1].get('ty'), st))))
    if op == '=':
        r = I.rv(A[1], st)
        l = I.lv(A[0], st)
        I.curnode = n
        if b0 == 'unique_ptr':
            old = I.load(l, st, True)
            if base(A[1].get('ty', '')) == 'unique_ptr':
                q = I.lv(A[1], st)
                if type(q) is Ptr:
                    I.store(q, NULL, st, True)
            elif type(r) is not Ptr:
                r = NULL
            I.store(l, r, st, True)
            if type(old) is Ptr:
                I.discard(old, 'carr<' in t0, st)
            return LRef(l)
        if b0 in ('string', 'basic_string') and type(r) is Term:
            r = tostr(r)
        if type(r) is UndefV and b0 == 'vector':
            r = Vec(())
        I.store(l, r, st)
        return LRef(l)
    if op == '()':
        f = I.rv(A[0], st)
        return I.callv(f, [I.lv(a, st) if byref(f, i) else I.rv(a, st) for i, a in enumerate(A[1:])], st, n)
    if op in ('++', '--'):
        l = I.lv(A[0], st)
        old = I.load(l, st, True)
        new = it_next(I, old, st, 1 if op == '++' else -1)
        I.store(l, new, st)
        return old if len(A) > 1 else LRef(l)
    if op == '->':
        v = I.rv(A[0], st)
        if type(v) is Ptr and v.path and type(v.path[-1]) is tuple:
            return v
        return v
    if op == '*' and len(A) == 1:
        p = I.rv(A[0], st)
        I.curnode = n
        return LRef(deref(I.live(p, st)))
    if op == '!' and len(A) == 1:
        return T.FALSE
    if op in ('==', '!=', '<', '>', '<=', '>='):
        a, b = I.rv(A[0], st), I.rv(A[1], st)
        I.curnode = n
        if type(a) is Vec and type(b) is Vec and op in ('<', '>'):
            raise Unsupported('vector comparison')
        return I.compare(op, a, b, 'i64', st)
    if op in ('+', '-', '+=', '-='):
        if b0 in ('string', 'basic_string') or base(A[1].get('ty', '')) in ('string', 'basic_string'):
            if op == '+':
                a, b = I.rv(A[0], st), I.rv(A[1], st)
                return scat(a, b)
            if op == '+=':
                r = I.rv(A[1], st)
                l = I.lv(A[0], st)
                I.store(l, scat(I.load(l, st, True), r), st, True)
                return LRef(l)
        a, b = None, I.rv(A[1], st)
        if op in ('+=', '-='):
            l = I.lv(A[0], st)
            a = I.load(l, st, True)
            I.store(l, I.deref_idx(a, b if op == '+=' else T.neg(b)), st)
            return LRef(l)
        a = I.rv(A[0], st)
        if type(a) is Ptr and type(b) is Ptr:
            return T.sub(a.path[-1][-1], b.path[-1][-1])
        if type(a) is Term:
            a, b = b, a
        return I.deref_idx(a, b if op == '+' else T.neg(b))
    raise Unsupported('operator %s on %s at %s' % (op, t0, I.where()))


def deref(p):
    if type(p) is Choice:
        return Choice(p.c, deref(p.a), deref(p.b))
    if type(p) is MapIt:
        return Ptr(p.root, p.path + (('mp', p.pos),))
    return p


# ------------------------------------------------------------------ construction
def construct(I, n, st):
    from .cxx import tparts
    ty = n['ty']
    b, targs = tparts(ty)
    A = [a for a in n['args'] if base(a.get('ty', '')) not in ('allocator', 'less')]
    if b == 'unique_ptr':
        if not A:
            return NULL
        if base(A[0].get('ty', '')) == 'unique_ptr':
            q = I.lv(A[0], st)
            v = I.load(q, st, True)
            if type(q) is Ptr:
                I.store(q, NULL, st, True)
            return v
        v = I.rv(A[0], st)
        return v if type(v) in (Ptr, Choice) else NULL
    if b in ('vector', 'deque', 'list'):
        if not A:
            return Vec(())
        t0 = A[0].get('ty', '')
        if base(t0) in ('vector', 'deque', 'list'):
            return I.rv(A[0], st)
        if 'initializer_list' in t0 or n.get('list') and A[0]['k'] == 'ilist':
            v = I.rv(A[0], st)
            return v if type(v) is Vec else Vec((v,))
        if base(t0) == '__normal_iterator' or t0.startswith('ptr<'):
            box, lo, ln = subarr(I, I.rv(A[0], st), I.rv(A[1], st), st)
            return slice_(I, box, lo, ln, st)
        k = asize(I, I.rv(A[0], st), t0, st)
        if len(A) > 1:
            v = I.rv(A[1], st)
            if type(v) is Term:
                t1 = A[1].get('ty')
                if t1 != targs[0] and t1 in T.RANGE and targs[0] in T.RANGE:
                    v = I.convert(v, t1, targs[0], 'x', st)
            return filled(I, k, v)
        return filled(I, k, I.default(targs[0], 'element', True))
    if b in ('string', 'basic_string'):
        if not A:
            return T.string('')
        v = I.rv(A[0], st)
        if len(A) == 2 and T.is_num(v) and A[1].get('ty') == 'char':
            return T.string(chr(int(I.rv(A[1], st).args[0])) * int(v.args[0]))
        if len(A) > 1:
            raise Unsupported('string constructor at %s' % I.where())
        return v
    if b in ('map', 'set', 'unordered_map'):
        if not A:
            return MapV()
        if base(A[0].get('ty', '')) == b:
            return I.rv(A[0], st)
        if A[0]['k'] == 'ilist' or 'initializer_list' in A[0].get('ty', ''):
            v = I.rv(A[0], st)
            m = MapV()
            for p in (v.items if type(v) is Vec else [v]):
                m = map_put(m, p.f['first'], p.f['second'], False)
            return m
        raise Unsupported('map constructor at %s' % I.where())
    if b == 'pair':
        if not A:
            return I.default(ty, 'pair', True)
        if len(A) == 1:
            return I.rv(A[0], st)
        return Obj('pair', {'first': cvarg(I, A[0], targs[0], st), 'second': cvarg(I, A[1], targs[1], st)})
    if b == 'array':
        return I.rv(A[0], st) if A else I.default(ty, 'array element', bool(n.get('zero')))
    if b in FUNCTORS:
        t = targs[0] if targs else 'void'
        return FnV(None, 'functor:%s:%s' % (b, t), env=binop(FUNCTORS[b], t if t in T.RANGE or t.startswith('f') else 'f64'))
    if 'stream' in b:
        items = ()
        if A and A[0].get('ty') in ('string', 'ptr<char>') and 'fstream' in b:
            nm = I.rv(A[0], st)
            I.event(st, 'file', nm)
            items = (Item('open', (nm,) + openmodes(A[1:]), I.where()),)
        return Stream(items)
    if b in ('allocator', 'less', 'char_traits', '_Ios_Openmode', 'Init'):
        return VOID
    if 'iterator' in b or b in ('function', 'reference_wrapper', 'ptr'):
        return I.rv(A[0], st) if A else UndefV(b, ty)
    if b == 'initializer_list':
        return I.rv(A[0], st) if A else Vec(())
    r = I.prog.records.get(ty)
    if r is not None:
        # implicitly defined default / copy constructor
        if A and n.get('copy'):
            return I.rv(A[0], st)
        if not A:
            return I.default(ty, ty, bool(n.get('zero')), st)
        if len(A) == 1 and A[0].get('ty') == ty:
            return I.rv(A[0], st)
    if len(A) == 1 and A[0].get('ty') == ty:
        return I.rv(A[0], st)
    raise Unsupported('construction of %s at %s' % (ty, I.where()))


def cvarg(I, a, ty, st):
    v = I.rv(a, st)
    t = a.get('ty')
    if type(v) is Term and t != ty and (ty in T.RANGE or ty.startswith('f')) and t and (t in T.RANGE or t.startswith('f')):
        return I.convert(v, t, ty, 'x', st)
    return v


# ------------------------------------------------------------------ OpenMP runtime
def ompfn(I, n, nm, args, st):
    if nm == 'omp_get_thread_num':
        return T.sym('omp_tid', 'i', lo=0)
    if nm == 'omp_get_num_threads':
        return T.sym('omp_nthreads', 'i', lo=1)
    if nm == 'omp_get_max_threads':
        return T.sym('omp_maxthreads', 'i', lo=1)
    if nm == 'omp_get_wtime':
        return T.fresh('omp_wtime', 'r')
    if nm == 'omp_is_initial_device':
        return T.sym('omp_initial_device', 'i', lo=0)
    if nm.startswith('omp_get') or nm.startswith('omp_in'):
        return T.sym(nm, 'i', lo=0)
    if nm.startswith('omp_set'):
        return VOID
    raise Unsupported(nm)


# ------------------------------------------------------------------ MPI
SIZES = {'f64': 8, 'f32': 4, 'i32': 4, 'u32': 4, 'i64': 8, 'u64': 8, 'char': 1, 'bool': 1}


def gname(v):
    """name of an MPI constant"""
    if type(v) is Ptr:
        return v.root.name
    if type(v) is Term and v.op == 'num':
        return int(v.args[0])
    return '?'


MPITYPES = {'double': 'f64', 'float': 'f32', 'int': 'i32', 'unsigned': 'i32', 'unsigned_int': 'i32', 'long': 'i64', 'unsigned_long': 'i64',
            'long_long_int': 'i64', 'unsigned_long_long': 'i64', 'int32_t': 'i32', 'int64_t': 'i64', 'uint32_t': 'i32', 'uint64_t': 'i64',
            'short': 'i16', 'unsigned_short': 'i16', 'char': 'i8', 'signed_char': 'i8', 'byte': None, 'long_double': 'f80'}


def asdeclared(n, dt):
    """the elements that the buffer argument points to are of the MPI data type"""
    while n.get('k') == 'cast' and n.get('ty') == 'ptr<void>':
        n = n['e']
    ty = n.get('ty', '')
    dt = gname(dt)
    if type(dt) is not str or not dt.startswith('ompi_mpi_') or not ty.startswith('ptr<'):
        return True
    dt, ty = dt[9:], ty[4:-1]
    if dt not in MPITYPES or ty not in SIZES:
        return True
    want = {'u64': 'i64', 'u32': 'i32', 'u16': 'i16', 'u8': 'i8', 'char': 'i8', 'bool': 'i8'}.get(ty, ty)
    return MPITYPES[dt] in (None, want)


def rank_of(I):
    if I.rank is None:
        I.rank, I.nprocs = RANK, SIZE
    return I.rank


def mpi(I, n, nm, st):
    A = n['args']
    a = [I.rv(x, st) for x in A]
    I.curnode = n
    rank = rank_of(I)
    size = I.nprocs

    def ev(*xs):
        I.event(st, 'mpi', nm, *xs)
    if nm in ('MPI_Init', 'MPI_Init_thread'):
        ev()
        if nm == 'MPI_Init_thread' and type(a[3]) is Ptr:
            I.store(a[3], T.sym('mpi_provided', 'i', lo=0), st, True)
        return T.ZERO
    if nm in ('MPI_Finalize', 'MPI_Barrier'):
        ev(*[gname(x) for x in a])
        return T.ZERO
    if nm == 'MPI_Abort':
        from .cxx import PathEnds
        ev()
        I.event(st, 'exit')
        raise PathEnds([st])
    if nm == 'MPI_Comm_rank':
        ev(gname(a[0]))
        I.store(a[1], rank, st, True)
        return T.ZERO
    if nm == 'MPI_Comm_size':
        ev(gname(a[0]))
        I.store(a[1], size, st, True)
        return T.ZERO
    if nm == 'MPI_Initialized' or nm == 'MPI_Finalized':
        I.store(a[0], T.sym(nm, 'i', lo=0, hi=1), st, True)
        return T.ZERO
    if nm == 'MPI_Wtime':
        I.nwt = getattr(I, 'nwt', 0) + 1
        t = T.mkapp('wtime', (T.num(I.nwt), rank), 'r')
        ev(t)
        return t
    if nm == 'MPI_Alloc_mem':
        ety = pointee(I, a[2])
        cnt = T.strip_cv(a[0], 'u64')
        q = T.exactdiv(cnt, T.num(SIZES.get(ety, 8)))
        if q is None:
            q = T.fdiv(cnt, T.num(SIZES.get(ety, 8)))
        I.heap += 1
        r = Root('mpimem%d' % I.heap, ety)
        r.shared = 'heap'
        j = T.fresh('j', lo=0, ub=q)
        st.store[r] = Arr((q,), (j,), I.default(ety, 'MPI_Alloc_mem', False))
        p = Ptr(r, (('i', T.ZERO),))
        I.store(a[2], p, st, True)
        ev(p, a[0])
        return T.ZERO
    if nm == 'MPI_Free_mem':
        ev(a[0])
        return T.ZERO
    if nm == 'MPI_Win_create':
        I.heap += 1
        r = Root('win%d' % I.heap, 'win')
        r.shared = 'heap'
        st.store[r] = Obj('win', {'base': a[0], 'size': a[1], 'disp': a[2]})
        I.store(a[5], Ptr(r), st, True)
        ev(Ptr(r), a[0], a[1], a[2], gname(a[4]))
        return T.ZERO
    if nm == 'MPI_Win_free':
        w = I.load(a[0], st, True)
        ev(w)
        return T.ZERO
    if nm == 'MPI_Win_fence':
        ev(a[1], a[0])
        return T.ZERO
    if nm == 'MPI_Win_lock':
        ev(a[3], a[1], gname(a[0]), a[2])
        return T.ZERO
    if nm in ('MPI_Win_unlock', 'MPI_Win_flush', 'MPI_Win_flush_local'):
        ev(a[1], a[0])
        return T.ZERO
    if nm == 'MPI_Win_lock_all':
        ev(a[1], None, 'shared', a[0])
        return T.ZERO
    if nm in ('MPI_Win_unlock_all', 'MPI_Win_flush_all', 'MPI_Win_flush_local_all', 'MPI_Win_sync'):
        ev(a[0], None)
        return T.ZERO
    if nm in ('MPI_Get', 'MPI_Put', 'MPI_Accumulate'):
        w = a[7]
        ev(w, a[0], a[1], gname(a[2]), a[3], a[4], a[5], gname(a[6]))
        if nm != 'MPI_Get':
            raise Unsupported(nm)
        if type(w) is not Ptr:
            raise Unsupported('window handle at %s' % I.where())
        wo = st.store[w.root]
        src = wo.f['base']
        if type(src) is not Ptr or type(a[0]) is not Ptr:
            raise Unsupported('window base at %s' % I.where())
        mpi_get(I, st, a[0], a[1], src, T.strip_cv(a[4], 'u64'), a[3])
        return T.ZERO
    if nm in ('MPI_Reduce', 'MPI_Allreduce'):
        al = nm == 'MPI_Allreduce'
        root = None if al else a[5]
        ev(gname(a[3]), gname(a[4]), a[2], root if root is not None else 'all', gname(a[6] if not al else a[5]), a[0])
        reduce_(I, st, a[0], a[1], a[2], gname(a[4]), root, asdeclared(n['args'][0], a[3]) and asdeclared(n['args'][1], a[3]))
        return T.ZERO
    if nm == 'MPI_Gather':
        ev(a[0], a[1], gname(a[2]), a[3], a[4], gname(a[5]), a[6], gname(a[7]))
        gather(I, st, a[0], a[1], a[3], a[4], a[6])
        return T.ZERO
    if nm == 'MPI_Bcast':
        ev(a[0], a[1], gname(a[2]), a[3], gname(a[4]))
        p, cnt, root = a[0], a[1], a[3]
        if not (T.is_num(cnt) and cnt.args[0] == 1):
            raise Unsupported('MPI_Bcast of an array')
        v = I.load(p, st, True)
        if not asdeclared(n['args'][0], a[2]) and type(v) is Term:
            v = T.undef('sent as another type', v.sort)
        I.store(p, Sub({rank: root}).v(v), st, True)
        return T.ZERO
    raise Unsupported('%s at %s' % (nm, I.where()))


def pointee(I, p):
    """element type of the pointer variable that p points to"""
    if type(p) is Ptr and p.root.ty:
        ty = p.root.ty
        if ty.startswith('ptr<'):
            return ty[4:-1]
    return 'f64'


def nophi(I, v, what):
    from .values import vmap
    bad = []

    def f(t):
        for s in T.syms_of(t):
            if s in I.phis:
                bad.append(s)
        return t
    vmap(v, f)
    if bad:
        raise Unsupported('%s of loop-carried data at %s' % (what, I.where()))


def arr_of(I, st, p):
    """(container path pointer, container value, offset)"""
    if p.path and type(p.path[-1]) is tuple and p.path[-1][0] == 'i':
        box = Ptr(p.root, p.path[:-1])
        return box, I.load(box, st, True), p.path[-1][1]
    return p, None, T.ZERO


def at(v, i):
    return step_get(v, ('i', i))


def mpi_get(I, st, dst, cnt, src, disp, target):
    sb, sv, so = arr_of(I, st, src)
    db, dv, do = arr_of(I, st, dst)
    if sv is None or dv is None:
        raise Unsupported('MPI_Get of a scalar at %s' % I.where())
    remote = Sub({I.rank: target}).v(sv)
    roff = Sub({I.rank: target}).t(so) if type(so) is Term else so
    if type(dv) is Vec:
        dv = vec2arr(dv)
    j = dv.ks[0]
    g = T.land(T.le(do, j), T.lt(j, T.add(do, cnt)))
    # reading past the end of the exposed window is an access error
    I.note('r', src, len(src.path) - 1, remote, ('i', T.add(roff, disp, T.sub(cnt, T.ONE))), st)
    I.note('w', dst, len(dst.path) - 1, dv, ('i', T.add(do, T.sub(cnt, T.ONE))), st)
    body = merge(g, at(remote, T.add(T.sub(j, do), disp, roff)), dv.body)
    if T.is_num(do) and do.args[0] == 0 and dv.shape[0] is cnt:
        body = at(remote, T.add(j, disp, roff))
    I.store(db, Arr(dv.shape, dv.ks, body), st, True)


def over_ranks(I, term, op):
    k = T.fresh('rk', lo=0, ub=I.nprocs)
    b = T.subst(term, {I.rank: k})
    if 'sum' in op:
        return T.tsum(k, T.ZERO, I.nprocs, b)
    if 'prod' in op:
        return T.tprod(k, T.ZERO, I.nprocs, b)
    if 'min' in op or 'max' in op:
        return T.minover(k, I.nprocs, b, T.subst(term, {I.rank: T.ZERO}), 'max' in op)
    raise Unsupported('reduction ' + op)


def reduce_(I, st, send, recv, cnt, op, root, typed=True):
    inplace = type(send) is Term
    c = T.TRUE if root is None else T.eq(I.rank, root)
    if type(send) is not Ptr or type(recv) is not Ptr:
        raise Unsupported('MPI_Reduce buffers at %s' % I.where())
    if T.is_num(cnt) and cnt.args[0] == 1:
        v = I.load(send, st)
        if type(v) is not Term:
            raise Unsupported('MPI_Reduce operand')
        I.useterm(v, st)
        r = over_ranks(I, v, str(op)) if typed else T.undef('reduced as elements of another type', v.sort)
        old = I.load(recv, st, True)
        if type(old) is UndefV:
            old = T.undef(old.origin, r.sort)
        I.store(recv, merge(c, r, old), st, True)
        return
    if not T.is_num(cnt):
        raise Unsupported('MPI_Reduce with a computed count')
    for i in range(int(cnt.args[0])):
        s, d = I.deref_idx(send, T.num(i)), I.deref_idx(recv, T.num(i))
        v = I.load(s, st)
        r = over_ranks(I, v, str(op)) if typed else T.undef('reduced as elements of another type', v.sort)
        I.store(d, merge(c, r, I.load(d, st, True)), st, True)


def gather(I, st, send, n, recv, m, root):
    c = T.eq(I.rank, root)
    sb, sv, so = arr_of(I, st, send)
    db, dv, do = arr_of(I, st, recv)
    if sv is None or dv is None:
        raise Unsupported('MPI_Gather of a scalar')
    k = T.fresh('j', lo=0)
    el = at(sv, T.add(so, T.fmod(k, n)))
    el = Sub({I.rank: T.fdiv(k, n)}).v(el)
    if type(dv) is Choice:
        # only the root owns a receive buffer
        x = st.copy().assume(c).vsimp(dv)
        if type(x) is Choice:
            x = pick(dv, c)
        dv2 = x
    else:
        dv2 = dv
    if type(dv2) is Vec:
        dv2 = vec2arr(dv2)
    total = T.mul(m, I.nprocs)
    s2 = st.copy().assume(c)
    I.note('w', recv, len(recv.path) - 1, dv2, ('i', T.add(do, T.sub(total, T.ONE))), s2)
    I.note('r', send, len(send.path) - 1, sv, ('i', T.add(so, T.sub(n, T.ONE))), st)
    kk = dv2.ks[0]
    el = Sub({k: T.sub(kk, do)}).v(el)
    g = T.land(T.le(do, kk), T.lt(kk, T.add(do, total)))
    new = Arr(dv2.shape, dv2.ks, el if (do is T.ZERO and T.same(dv2.shape[0], total)) else merge(g, el, dv2.body))
    I.store(db, merge(c, new, dv), st, True)


def pick(v, c):
    while type(v) is Choice:
        if v.c is c:
            v = v.a
        elif v.c is T.lnot(c):
            v = v.b
        else:
            break
    return v
