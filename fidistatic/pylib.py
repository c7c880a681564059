"""Builtins, numpy, mpi4py and mpinum for the Python front end."""
from fractions import Fraction
from . import term as T
from .term import Term
from .cxx import PathEnds
from .values import Vec, Arr, Obj, Ptr, NULL, Null, Choice, UndefV, Item, Rep, Alt, Stream, Root, Sub, FnV, Unsupported, merge, step_get
from .pyfe import Lib, Fun, Cls, mk, tup, num, sorts, isarray, islist, istuple, isseq, istext, least, greatest, ZR

INT = ('int', 'numpy.int', 'numpy.int8', 'numpy.int16', 'numpy.int32', 'numpy.int64', 'numpy.intp', 'numpy.intc', 'numpy.uint32', 'numpy.uint64', 'numpy.int_', 'numpy.uint')
REAL = ('float', 'numpy.float', 'numpy.float64', 'numpy.double', 'numpy.float_', 'numpy.longdouble')
BOOL = ('bool', 'numpy.bool_', 'numpy.bool')


def attr(I, b, nm, st):
    q = b.q + '.' + nm
    if q == 'sys.argv':
        if I.args is None:
            raise Unsupported('command line')
        p = I.gvars.get(('sys', 'argv'))
        if p is None:
            p = I.gvars[('sys', 'argv')] = Ptr(Root('argv', 'list'))
        if p.root not in st.store:
            st.store[p.root] = Vec(I.args)
        return p
    if q in ('numpy.pi', 'math.pi'):
        return T.mkapp('pi', (), 'r')
    if q in ('numpy.inf', 'math.inf', 'numpy.Inf', 'numpy.infty'):
        return T.INF
    if q == 'numpy.newaxis':
        return NULL
    if q in ('sys.maxsize',):
        return T.num(2 ** 63 - 1)
    return Lib(q)


def dtype(v):
    """sort of the elements"""
    if v is None or type(v) is Null:
        return 'r'
    if type(v) is Lib:
        if v.q in INT:
            return 'i'
        if v.q in REAL:
            return 'r'
        if v.q in BOOL:
            return 'b'
    if type(v) is Term and v.op == 'str':
        s = v.args[0]
        if s[:1] in 'iu' or s.startswith('int'):
            return 'i'
        if s in ('d', 'f8', 'float64', 'float', 'double'):
            return 'r'
    raise Unsupported('element type %r' % (v,))


def cast(I, x, so):
    if type(x) is not Term:
        return x
    if so == 'r':
        return T.toreal(T.b2i(x) if x.sort == 'b' else x)
    if so == 'i':
        return T.b2i(x) if x.sort == 'b' else I.trunc(x) if x.sort == 'r' else x
    return x if x.sort == 'b' else T.ne(x, T.num(0, x.sort))


def extents(I, v, st):
    if type(v) is Term:
        v = [v]
    elif isinstance(v, list):
        pass
    else:
        s, g = I.nd(v, st)
        if len(s) != 1 or not T.is_num(s[0]):
            raise Unsupported('shape at %s' % I.where())
        v = [g((T.num(i),)) for i in range(int(s[0].args[0]))]
    for x in v:
        if x.sort == 'r':
            I.fail('TypeError', T.TRUE, st)
        I.useterm(x, st)
    return v


def total(I, v, st):
    return T.mul(T.ONE, *I.shape(v, st)) if not type(v) is Term else T.ONE


def flat(I, v, st):
    """(size, element at flat position)"""
    s, g = I.nd(v, st)
    if len(s) == 1:
        return s[0], lambda q: g((q,))
    if not s:
        return T.ONE, lambda q: g(())
    S = [T.mul(T.ONE, *s[i + 1:]) for i in range(len(s))]

    def at(q):
        ix = []
        for i, (a, n) in enumerate(zip(S, s)):
            x = T.fdiv(q, a) if a is not T.ONE else q
            ix.append(T.fmod(x, n) if i else x)
        return g(tuple(ix))
    return T.mul(T.ONE, *s), at


def derived(I, c, st):
    p = I.alloc(st, 'array', c, 'ndarray')
    p.root.shared = 'derived'
    return p


def reshape(I, v, shp, st):
    size, at = flat(I, v, st)
    e = list(shp)
    for q, x in enumerate(e):
        if T.is_num(x) and x.args[0] == -1:
            rest = T.mul(T.ONE, *[y for j, y in enumerate(e) if j != q])
            e[q] = T.fdiv(size, rest) if rest is not T.ONE else size
    I.agree((T.mul(T.ONE, *e),), (size,))
    S = [T.mul(T.ONE, *e[i + 1:]) for i in range(len(e))]
    return derived(I, mk(e, lambda i: at(T.add(*[T.mul(a, b) for a, b in zip(i, S)]))), st)


def rows(I, v, st):
    """elements along the first axis when their number is known"""
    s, g = I.nd(v, st)
    if len(s) == 1 and T.is_num(s[0]):
        return [g((T.num(i),)) for i in range(int(s[0].args[0]))]
    return None


def total_over(I, v, st, kind):
    """sum / product / minimum / maximum of all elements"""
    s, g = I.nd(v, st)
    if all(T.is_num(n) for n in s) and T.mul(T.ONE, *s).args[0] <= 200:
        import itertools
        xs = [g(tuple(T.num(q) for q in ix)) for ix in itertools.product(*[range(int(n.args[0])) for n in s])]
        xs = sorts(*xs) if xs else []
        if kind == 'sum':
            return T.add(*xs) if xs else T.ZERO
        if kind == 'prod':
            return T.mul(*xs) if xs else T.ONE
        if not xs:
            I.fail('ValueError', T.TRUE, st)
        r = xs[0]
        for x in xs[1:]:
            r = (T.tmin if kind == 'min' else T.tmax)(r, x)
        return r
    ks = tuple(T.fresh('j', lo=0, ub=n) for n in s)
    r = g(ks)
    r = T.b2i(r) if r.sort == 'b' else r
    I.usable(r, st)
    for k, n in reversed(list(zip(ks, s))):
        if kind == 'sum':
            r = T.tsum(k, T.ZERO, n, r)
        elif kind == 'prod':
            r = T.tprod(k, T.ZERO, n, r)
        else:
            r = T.minover(k, n, r, T.subst(r, {k: T.ZERO}), kind == 'max')
    return r


def anyall(I, v, st, every):
    s, g = I.nd(v, st)
    f = lambda x: x if x.sort == 'b' else T.ne(x, T.num(0, x.sort))
    xs = rows(I, v, st)
    if xs is not None:
        return (T.land if every else T.lor)(*[f(x) for x in xs]) if xs else T.boolean(every)
    ks = tuple(T.fresh('j', lo=0, ub=n) for n in s)
    r = f(g(ks))
    r = T.lnot(r) if every else r
    for k, n in reversed(list(zip(ks, s))):
        r = T.exists(k, n, r)
    return T.lnot(r) if every else r


def axisfold(I, v, ax, st, kind):
    """reduction along one axis"""
    s, g = I.nd(v, st)
    if not T.is_num(ax):
        raise Unsupported('axis')
    a = int(ax.args[0]) % len(s)
    rest = s[:a] + s[a + 1:]

    def at(i):
        return total_over(I, mk((s[a],), lambda k: g(tuple(i[:a]) + (k[0],) + tuple(i[a:]))), st, kind)
    return mk(rest, at)


# -------------------------------------------------------------------- array attributes and methods
def arrayattr(I, b, nm, st):
    if nm == 'shape':
        return tup(I.shape(b, st))
    if nm == 'size':
        return total(I, b, st)
    if nm == 'ndim':
        return T.num(len(I.shape(b, st)))
    if nm == 'flat':
        n, at = flat(I, b, st)
        return derived(I, mk((n,), lambda i: at(i[0])), st)
    if nm == 'T':
        s, g = I.nd(b, st)
        return derived(I, mk(tuple(reversed(s)), lambda i: g(tuple(reversed(i)))), st)
    if nm == 'dtype':
        s, g = I.nd(b, st)
        x = g(tuple(T.ZERO for _ in s))
        return Lib({'i': 'numpy.int32', 'r': 'numpy.float64', 'b': 'numpy.bool_'}[x.sort])
    return None


def method(I, this, nm, args, kw, st):
    """methods of library values"""
    v = st.vsimp(this) if type(this) is Choice else this
    if type(v) is Choice and (type(v.a) is Null or type(v.b) is Null):
        I.fail('AttributeError', v.c if type(v.a) is Null else T.lnot(v.c), st)
        v = v.b if type(v.a) is Null else v.a
    if type(v) is Choice:
        raise Unsupported('method %s of one of several objects at %s' % (nm, I.where()))
    if type(v) is Null:
        I.fail('AttributeError', T.TRUE, st)
    if type(v) is Ptr and v.root.ty == 'ofstream':
        return filemethod(I, v, nm, args, kw, st)
    if type(v) is Ptr and type(st.store.get(v.root)) is Obj:
        return mpimethod(I, v, st.store[v.root], nm, args, kw, st)
    if type(v) is Ptr and v.root.ty == 'gda':
        r = gdamethod(I, v, nm, args, kw, st)
        if r is not None:
            return r
    if islist(v):
        return listmethod(I, v, nm, args, kw, st)
    if istext(v):
        return textmethod(I, v, nm, args, kw, st)
    if isarray(v):
        if nm == 'copy':
            return I.content(v, st)
        if nm in ('reshape',):
            a = args[0] if len(args) == 1 else list(args)
            return reshape(I, v, extents(I, a, st), st)
        if nm in ('ravel', 'flatten'):
            n, at = flat(I, v, st)
            c = mk((n,), lambda i: at(i[0]))
            return c if nm == 'flatten' else derived(I, c, st)
        if nm == 'fill':
            I.setitem(v, [('all',)], args[0], st)
            return NULL
        if nm == 'astype':
            so = dtype(args[0])
            return I.elem(lambda x: cast(I, x, so), st, v)
        if nm == 'tolist':
            return I.newlist(I.content(v, st), st)
        if nm == 'item':
            return I.item(v, args or [T.ZERO], st)
        if nm in ('sum', 'prod', 'min', 'max', 'mean', 'dot', 'any', 'all', 'transpose', 'take', 'cumprod', 'round', 'std'):
            return call(I, 'numpy.' + nm, [v] + args, kw, st)
    raise Unsupported('method %s at %s' % (nm, I.where()))


def listmethod(I, v, nm, args, kw, st):
    from .cxxlib import pushed
    c = I.load(v, st, True)
    if nm == 'append':
        I.store(v, pushed(I, c, I.bind(args[0], st)), st, True)
        return NULL
    if nm == 'extend':
        x = I.content(args[0].f['a'] if type(args[0]) is Obj and args[0].cls == '#items' else args[0], st)
        if type(c) is Vec and type(x) is Vec:
            I.store(v, Vec(c.items + x.items), st, True)
            return NULL
    if nm == 'copy':
        return I.newlist(c, st)
    if nm == 'reverse' and type(c) is Vec:
        I.store(v, Vec(reversed(c.items)), st, True)
        return NULL
    if nm == 'insert' and type(c) is Vec and T.is_num(args[0]):
        it = list(c.items)
        it.insert(int(args[0].args[0]), I.bind(args[1], st))
        I.store(v, Vec(it), st, True)
        return NULL
    if nm == 'pop' and type(c) is Vec and c.items and (not args or T.is_num(args[0])):
        it = list(c.items)
        r = it.pop(int(args[0].args[0]) if args else -1)
        I.store(v, Vec(it), st, True)
        return r
    raise Unsupported('list method %s at %s' % (nm, I.where()))


def textmethod(I, v, nm, args, kw, st):
    if nm == 'format' and type(v) is Term:
        return I.format(v, args, kw, st)
    if nm == 'join':
        a = args[0]
        a = a.f['a'] if type(a) is Obj and a.cls == '#items' else a
        c = I.content(a, st)
        if type(c) is Vec:
            out = []
            for q, x in enumerate(c.items):
                if q:
                    out += I.items(v, st)
                out += I.items(x, st)
            return I.text(out)
        if type(c) is Arr and len(c.ks) == 1:
            return Stream(repeated(I, c, I.items(v, st) if v is not T.string('') else [], st))
    if type(v) is Term and v.op == 'str' and all(type(a) is Term and a.op == 'str' for a in args):
        s = v.args[0]
        if nm in ('strip', 'lower', 'upper', 'rstrip', 'lstrip'):
            return T.string(getattr(s, nm)(*[a.args[0] for a in args]))
        if nm in ('startswith', 'endswith', 'isdigit'):
            return T.boolean(getattr(s, nm)(*[a.args[0] for a in args]))
    if type(v) is Term and nm == 'isdigit':
        return T.TRUE if v in I.argint else T.mkapp('isnumber', (v,), 'b')
    if type(v) is Term and nm in ('strip', 'lower'):
        return T.mkapp(nm, (v,), 's')
    raise Unsupported('string method %s at %s' % (nm, I.where()))


def repeated(I, c, sep, st):
    """output items of the elements of a sequence, with a separator between them"""
    k, n = c.ks[0], c.shape[0]
    if not sep:
        return [Rep(k, n, tuple(I.items(c.body, st)))]
    first = Sub({k: T.ZERO}).v(c.body)
    rest = Sub({k: T.add(k, T.ONE)}).v(c.body)
    return [Alt(T.lt(T.ZERO, n), tuple(I.items(first, st)), ()),
            Rep(k, T.tmax(T.ZERO, T.sub(n, T.ONE)), tuple(sep) + tuple(I.items(rest, st)))]


def filemethod(I, p, nm, args, kw, st):
    s = st.store[p.root]
    if nm == 'write':
        st.store[p.root] = Stream(s.items + tuple(I.items(args[0], st)))
        return NULL
    if nm == 'writelines':
        c = I.content(args[0].f['a'] if type(args[0]) is Obj and args[0].cls == '#items' else args[0], st)
        if type(c) is Vec:
            out = []
            for x in c.items:
                out += I.items(x, st)
            st.store[p.root] = Stream(s.items + tuple(out))
            return NULL
        if type(c) is Arr and len(c.ks) == 1:
            st.store[p.root] = Stream(s.items + tuple(repeated(I, c, [], st)))
            return NULL
    if nm == 'close':
        st.store[p.root] = Stream(s.items + (Item('close', (), I.where()),))
        return NULL
    if nm == 'flush':
        return NULL
    raise Unsupported('file method %s at %s' % (nm, I.where()))


# -------------------------------------------------------------------- functions
def kwargs(args, kw, *names):
    """values of named parameters given by position or name"""
    out = list(args[:len(names)]) + [None] * (len(names) - len(args))
    for k, v in kw.items():
        if k not in names:
            raise Unsupported('keyword %s' % k)
        out[names.index(k)] = v
    return out


def call(I, q, args, kw, st):
    if q in INT or q in REAL or q in BOOL:
        return number(I, q, args, st)
    mod, _, nm = q.rpartition('.')
    if not mod:
        f = globals().get('b_' + nm)
    elif mod == 'numpy':
        f = globals().get('n_' + nm)
        if f is None and nm in UFUNC:
            return ufunc(I, nm, args, kw, st)
    elif mod in ('math', 'operator', 'sys', 'copy', 'functools', 'time', 'os', 'itertools'):
        f = globals().get('m_%s_%s' % (mod, nm))
        if f is None and mod == 'operator':
            return m_operator(I, nm, args, st)
        if f is None and mod == 'math' and nm in UFUNC:
            return ufunc(I, nm, args, kw, st)
    elif mod.startswith('mpi4py.MPI') or mod == 'MPI':
        return mpi(I, mod, nm, args, kw, st)
    elif mod == 'mpinum':
        return mpinum(I, nm, args, kw, st)
    else:
        f = None
    if f is None:
        raise Unsupported('%s at %s' % (q, I.where()))
    return f(I, args, kw, st)


def number(I, q, args, st):
    if not args:
        return ZR if q in REAL else T.ZERO
    x = args[0]
    if type(x) is Choice:
        x = st.vsimp(x)
    if istext(x):
        if type(x) is not Term:
            raise Unsupported('number of formatted text at %s' % I.where())
        if x.op == 'str':
            s = x.args[0].strip()
            try:
                if q in REAL:
                    return T.INF if s.lower() in ('inf', 'infinity', '+inf') else T.num(Fraction(s), 'r')
                return T.num(int(s))
            except ValueError:
                I.fail('ValueError', T.TRUE, st)
        v = I.argint.get(x)
        if v is not None:
            return T.toreal(v) if q in REAL else v
        I.fail('ValueError', T.lnot(T.mkapp('isnumber', (x,), 'b')), st)
        r = T.mkapp('numberof', (x,), 'i')
        return T.toreal(r) if q in REAL else r
    if q in BOOL:
        return I.truth(x, st)
    if isarray(x):
        return I.elem(lambda y: cast(I, y, 'i' if q in INT else 'r'), st, x)
    if type(x) is not Term:
        raise Unsupported('conversion of %s at %s' % (type(x).__name__, I.where()))
    return cast(I, x, 'i' if q in INT else 'r')


def b_print(I, args, kw, st):
    sep = kw.get('sep', T.string(' '))
    end = kw.get('end', T.string('\n'))
    out = []
    for q, a in enumerate(args):
        if q:
            out += I.items(sep, st)
        out += I.items(a, st)
    out += I.items(end, st)
    f = kw.get('file')
    if f is None or f == Lib('sys.stdout'):
        I.put('std::cout', out, st)
    elif f == Lib('sys.stderr'):
        I.put('std::cerr', out, st)
    elif type(f) is Ptr and f.root.ty == 'ofstream':
        st.store[f.root] = Stream(st.store[f.root].items + tuple(out))
    else:
        raise Unsupported('print file at %s' % I.where())
    return NULL


def b_open(I, args, kw, st):
    name, mode = kwargs(args, {k: v for k, v in kw.items() if k in ('file', 'mode')}, 'file', 'mode')
    if mode is None or type(mode) is not Term or mode.op != 'str' or mode.args[0] not in ('w', 'wt', 'w+', 'x'):
        raise Unsupported('file mode at %s' % I.where())
    nm = name if type(name) is Term else T.mkapp('text', (T.string('name'),), 's')
    r = Root('file', 'ofstream')
    st.store[r] = Stream((Item('open', (nm,), I.where()),))
    return Ptr(r)


def b_len(I, args, kw, st):
    return I.length(args[0], st)


def b_range(I, args, kw, st):
    a = [st.simp(T.b2i(x) if x.sort == 'b' else x) for x in args]
    for x in a:
        if x.sort != 'i':
            I.fail('TypeError', T.TRUE, st)
        I.useterm(x, st)
    lo, hi, step = (T.ZERO, a[0], T.ONE) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else T.ONE)
    if not T.is_num(step) or step.args[0] == 0:
        raise Unsupported('range step at %s' % I.where())
    s = int(step.args[0])
    d = T.sub(hi, lo) if s > 0 else T.sub(lo, hi)
    if abs(s) != 1:
        d = T.fdiv(T.add(d, T.num(abs(s) - 1)), T.num(abs(s)))
    n = d if T.nonneg(d) else T.tmax(T.ZERO, d)
    return Obj('#range', {'lo': lo, 'n': n, 'st': step})


def b_enumerate(I, args, kw, st):
    a, lo = kwargs(args, kw, 'iterable', 'start')
    return Obj('#enum', {'a': I.bind(a, st), 'lo': lo if lo is not None else T.ZERO})


def b_zip(I, args, kw, st):
    return Obj('#zip', {'a': Vec([I.bind(a, st) for a in args])})


def b_reversed(I, args, kw, st):
    return Obj('#rev', {'a': I.bind(args[0], st)})


def listing(I, v, st):
    n, g = I.iterate(v, st)
    return mk((n,), lambda i: I.bind(g(i[0], st), st))


def b_list(I, args, kw, st):
    return I.newlist(listing(I, args[0], st) if args else Vec(()), st)


def b_tuple(I, args, kw, st):
    c = listing(I, args[0], st) if args else Vec(())
    if type(c) is not Vec:
        raise Unsupported('tuple of symbolic length at %s' % I.where())
    return tup(c.items)


def b_slice(I, args, kw, st):
    a = list(args)
    if len(a) == 1:
        a = [NULL, a[0]]
    a += [NULL] * (3 - len(a))
    return Obj('#slice', dict(zip(('lo', 'hi', 'st'), a)))


def b_str(I, args, kw, st):
    return I.text(I.items(args[0], st)) if args else T.string('')


b_repr = b_str


def b_format(I, args, kw, st):
    return I.text(I.items(args[0], st, args[1].args[0] if len(args) > 1 else ''))


def b_abs(I, args, kw, st):
    return ufunc(I, 'abs', args, {}, st)


def seqarg(I, v, st):
    if type(v) is Obj and v.cls in ('#items', '#zip', '#enum', '#rev'):
        return listing(I, v, st)
    return v


def minmax(I, args, st, kind):
    if len(args) == 1:
        return total_over(I, seqarg(I, args[0], st), st, kind)
    r = args[0]
    for x in args[1:]:
        if not num(r) or not num(x):
            raise Unsupported('%s at %s' % (kind, I.where()))
        r = (least if kind == 'min' else greatest)(r, x)
    return r


def b_min(I, args, kw, st):
    return minmax(I, args, st, 'min')


def b_max(I, args, kw, st):
    return minmax(I, args, st, 'max')


def b_sum(I, args, kw, st):
    r = total_over(I, seqarg(I, args[0], st), st, 'sum')
    return T.add(*sorts(r, args[1])) if len(args) > 1 else r


def b_any(I, args, kw, st):
    return anyall(I, seqarg(I, args[0], st), st, False)


def b_all(I, args, kw, st):
    return anyall(I, seqarg(I, args[0], st), st, True)


def b_round(I, args, kw, st):
    raise Unsupported('round at %s' % I.where())


def b_divmod(I, args, kw, st):
    import ast
    return tup([I.op(ast.FloorDiv(), args[0], args[1], st), I.op(ast.Mod(), args[0], args[1], st)])


def b_map(I, args, kw, st):
    n, g = I.iterate(args[1], st)
    if not T.is_num(n) or len(args) != 2:
        raise Unsupported('map at %s' % I.where())
    return Obj('#items', {'a': I.newlist(Vec([I.bind(I.callv_(args[0], [g(T.num(i), st)], {}, st), st) for i in range(int(n.args[0]))]), st)})


def b_isinstance(I, args, kw, st):
    raise Unsupported('isinstance at %s' % I.where())


def b_hasattr(I, args, kw, st):
    v, nm = args
    if type(v) is Ptr and type(st.store.get(v.root)) is Obj and nm.op == 'str':
        o = st.store[v.root]
        from .pyfe import undefined
        if nm.args[0] in o.f:
            return T.lnot(undefined(o.f[nm.args[0]]))
        return T.boolean(I.method(o.cls, nm.args[0]) is not None)
    raise Unsupported('hasattr at %s' % I.where())


def b_exit(I, args, kw, st):
    return m_sys_exit(I, args, kw, st)


b_quit = b_exit


def m_sys_exit(I, args, kw, st):
    x = args[0] if args else T.ZERO
    if istext(x):
        I.put('std::cerr', I.items(x, st) + [I.word('\n')], st)
        I.stop(st, T.TRUE)
    if type(x) is Null:
        I.stop(st, T.FALSE)
    I.stop(st, I.truth(x, st))


def m_time_time(I, args, kw, st):
    return T.fresh('time', 'r', lo=0)


m_time_perf_counter = m_time_process_time = m_time_time


def m_copy_copy(I, args, kw, st):
    v = args[0]
    if isarray(v):
        return I.content(v, st)
    if islist(v):
        return I.newlist(I.content(v, st), st)
    if type(v) is Term or istuple(v):
        return v
    raise Unsupported('copy at %s' % I.where())


def m_copy_deepcopy(I, args, kw, st):
    v = args[0]
    if islist(v):
        c = I.content(v, st)
        if type(c) is Arr or all(type(x) is Term for x in c.items):
            return I.newlist(c, st)
        return I.newlist(Vec([I.bind(m_copy_deepcopy(I, [x], {}, st), st) for x in c.items]), st)
    return m_copy_copy(I, args, kw, st)


def m_operator(I, nm, args, st):
    import ast
    op = {'add': ast.Add, 'mul': ast.Mult, 'sub': ast.Sub, 'truediv': ast.Div, 'floordiv': ast.FloorDiv, 'mod': ast.Mod}.get(nm)
    if op is None:
        raise Unsupported('operator.%s' % nm)
    return I.binop(op(), args[0], args[1], st, None)


def foldkind(f):
    """the reduction a binary function stands for"""
    if type(f) is Lib:
        return {'operator.add': 'sum', 'operator.mul': 'prod', 'min': 'min', 'max': 'max', 'numpy.add': 'sum', 'numpy.multiply': 'prod'}.get(f.q)
    if type(f) is FnV and f.node is not None:
        import ast
        n = f.node.node
        if len(n.args.args) == 2 and len(n.body) == 1 and isinstance(n.body[0], ast.Return):
            e = n.body[0].value
            a, b = [x.arg for x in n.args.args]
            if isinstance(e, ast.BinOp) and {ast.unparse(e.left), ast.unparse(e.right)} == {a, b}:
                return {ast.Add: 'sum', ast.Mult: 'prod'}.get(type(e.op))
    return None


def m_functools_reduce(I, args, kw, st):
    f, v = args[0], seqarg(I, args[1], st)
    c = I.content(v, st)
    if type(c) is Vec:
        xs = list(c.items)
        r = args[2] if len(args) > 2 else xs.pop(0)
        for x in xs:
            r = I.callv_(f, [r, x], {}, st)
        return r
    k = foldkind(f)
    if k is None:
        raise Unsupported('reduce at %s' % I.where())
    r = total_over(I, v, st, k)
    if len(args) > 2:
        r = I.callv_(f, [args[2], r], {}, st)
    return r


b_reduce = m_functools_reduce


def m_math_prod(I, args, kw, st):
    return total_over(I, seqarg(I, args[0], st), st, 'prod')


# -------------------------------------------------------------------- numpy
UFUNC = {'add': lambda x, y: T.add(*sorts(x, y)), 'subtract': lambda x, y: T.sub(*sorts(x, y)), 'multiply': lambda x, y: T.mul(*sorts(x, y)),
         'divide': lambda x, y: T.rdiv(T.toreal(x), T.toreal(y)), 'true_divide': lambda x, y: T.rdiv(T.toreal(x), T.toreal(y)),
         'negative': T.neg, 'minimum': least, 'maximum': greatest, 'fmin': least, 'fmax': greatest,
         'abs': lambda x: T.ite(T.lt(x, T.num(0, x.sort)), T.neg(x), x), 'sqrt': lambda x: T.mkapp('sqrt', (T.toreal(x),), 'r'),
         'sin': lambda x: T.mkapp('sin', (T.toreal(x),), 'r'), 'cos': lambda x: T.mkapp('cos', (T.toreal(x),), 'r'),
         'sign': lambda x: T.ite(T.lt(x, T.num(0, x.sort)), T.num(-1, x.sort), T.ite(T.lt(T.num(0, x.sort), x), T.num(1, x.sort), T.num(0, x.sort))),
         'square': lambda x: T.mul(x, x), 'logical_not': T.lnot, 'logical_and': T.land, 'logical_or': T.lor,
         'less': lambda x, y: T.lt(*sorts(x, y)), 'greater': lambda x, y: T.lt(*reversed(sorts(x, y))),
         'less_equal': lambda x, y: T.le(*sorts(x, y)), 'greater_equal': lambda x, y: T.le(*reversed(sorts(x, y))),
         'equal': lambda x, y: T.eq(*sorts(x, y)), 'not_equal': lambda x, y: T.ne(*sorts(x, y))}
UFUNC['absolute'] = UFUNC['fabs'] = UFUNC['abs']
INTOP = {'mod': T.fmod, 'remainder': T.fmod, 'floor_divide': T.fdiv}


def intop(f):
    def g(x, y):
        x, y = sorts(x, y)
        if x.sort != 'i':
            raise Unsupported('remainder of reals')
        return f(x, y)
    return g


for _k, _f in INTOP.items():
    UFUNC[_k] = intop(_f)


def ufunc(I, nm, args, kw, st):
    out = kw.get('out')
    n = 1 if nm in ('negative', 'abs', 'absolute', 'fabs', 'sqrt', 'sin', 'cos', 'sign', 'square', 'logical_not') else 2
    if len(args) == n + 1:
        out = args[n]
    if set(kw) - {'out'}:
        raise Unsupported('numpy.%s at %s' % (nm, I.where()))
    r = I.elem(UFUNC[nm], st, *args[:n])
    if out is not None:
        if istuple(out):
            out = out.f['a'].items[0]
        I.setitem(out, [('all',)], r, st)
        return out
    return r


def filled(I, shp, x, st):
    for e in shp:
        if not T.nonneg(e):
            I.fail('ValueError', T.lt(e, T.ZERO), st)
    return mk(shp, lambda i: x)


def n_zeros(I, args, kw, st, x=0):
    shp, ty = kwargs(args, {k: v for k, v in kw.items() if k in ('shape', 'dtype')}, 'shape', 'dtype')
    so = dtype(ty)
    return filled(I, extents(I, shp, st), T.boolean(bool(x)) if so == 'b' else T.num(x, so), st)


def n_ones(I, args, kw, st):
    return n_zeros(I, args, kw, st, 1)


def n_empty(I, args, kw, st):
    shp, ty = kwargs(args, kw, 'shape', 'dtype')
    return filled(I, extents(I, shp, st), T.undef('numpy.empty', dtype(ty)), st)


def n_full(I, args, kw, st):
    shp, x, ty = kwargs(args, kw, 'shape', 'fill_value', 'dtype')
    return filled(I, extents(I, shp, st), x if ty is None else cast(I, x, dtype(ty)), st)


def like(I, args, kw, st, x):
    v, ty = kwargs(args, kw, 'a', 'dtype')
    s, g = I.nd(v, st)
    so = dtype(ty) if ty is not None else g(tuple(T.ZERO for _ in s)).sort
    return filled(I, s, T.undef('numpy.empty_like', so) if x is None else T.num(x, so), st)


def n_zeros_like(I, args, kw, st):
    return like(I, args, kw, st, 0)


def n_ones_like(I, args, kw, st):
    return like(I, args, kw, st, 1)


def n_empty_like(I, args, kw, st):
    return like(I, args, kw, st, None)


def n_arange(I, args, kw, st):
    ty = kw.get('dtype')
    a = [x for x in args if type(x) is Term]
    if len(a) < len(args):
        ty = args[-1]
    if any(x.sort == 'r' for x in a):
        if len(a) == 1 or any(T.is_num(x) is False for x in a[2:]):
            raise Unsupported('arange of reals')
        raise Unsupported('arange of reals at %s' % I.where())
    r = b_range(I, a, {}, st)
    c = I.content(r, st)
    return I.elem(lambda x: cast(I, x, dtype(ty)), st, c) if ty is not None else c


def n_linspace(I, args, kw, st):
    a, b, n = kwargs(args, kw, 'start', 'stop', 'num')
    a, b = T.toreal(a), T.toreal(b)
    d = T.rdiv(T.sub(b, a), T.toreal(T.sub(n, T.ONE)))
    return mk((n,), lambda i: T.add(a, T.mul(T.toreal(i[0]), d)))


def n_identity(I, args, kw, st):
    n, ty = kwargs(args, kw, 'n', 'dtype')
    so = dtype(ty)
    return mk((n, n), lambda i: T.ite(T.eq(i[0], i[1]), T.num(1, so), T.num(0, so)))


def n_eye(I, args, kw, st):
    return n_identity(I, args, kw, st)


def n_outer(I, args, kw, st):
    (n, f), (m, g) = flat(I, args[0], st), flat(I, args[1], st)
    return mk((n, m), lambda i: T.mul(*sorts(f(i[0]), g(i[1]))))


def n_dot(I, args, kw, st):
    (s, f), (t, g) = I.nd(args[0], st), I.nd(args[1], st)
    if not s or not t:
        return I.elem(UFUNC['multiply'], st, args[0], args[1])
    n = s[-1]
    m = t[0] if len(t) == 1 else t[-2]
    I.agree((n,), (m,))
    k0 = n if T.is_num(n) else m

    def at(i):
        a, b = i[:len(s) - 1], i[len(s) - 1:]

        def el(k):
            return T.mul(*sorts(f(tuple(a) + (k,)), g((k,) if len(t) == 1 else tuple(b[:-1]) + (k,) + tuple(b[-1:]))))
        if T.is_num(k0) and k0.args[0] <= 64:
            xs = [el(T.num(q)) for q in range(int(k0.args[0]))]
            return T.add(*sorts(*xs)) if xs else ZR
        k = T.fresh('j', lo=0, ub=n)
        return T.tsum(k, T.ZERO, n, el(k))
    shp = s[:-1] + (t[:-2] + t[-1:] if len(t) > 1 else ())
    return mk(shp, at)


n_matmul = n_inner = n_dot


def reduction(kind):
    def f(I, args, kw, st):
        v, ax = kwargs(args, {k: x for k, x in kw.items() if k in ('a', 'axis')}, 'a', 'axis')
        if set(kw) - {'a', 'axis', 'dtype'}:
            raise Unsupported('numpy.%s at %s' % (kind, I.where()))
        v = seqarg(I, v, st)
        if ax is not None and type(ax) is not Null:
            return axisfold(I, v, ax, st, kind)
        if type(v) is Term:
            return v
        return total_over(I, v, st, kind)
    return f


n_sum = reduction('sum')
n_prod = n_product = reduction('prod')
n_min = n_amin = reduction('min')
n_max = n_amax = reduction('max')


def n_mean(I, args, kw, st):
    return T.rdiv(T.toreal(n_sum(I, args, kw, st)), T.toreal(total(I, args[0], st)))


def n_any(I, args, kw, st):
    return anyall(I, args[0], st, False)


def n_all(I, args, kw, st):
    return anyall(I, args[0], st, True)


def n_cumprod(I, args, kw, st):
    xs = rows(I, args[0], st)
    if xs is None or kw:
        raise Unsupported('cumprod at %s' % I.where())
    out, r = [], None
    for x in xs:
        r = x if r is None else T.mul(r, x)
        out.append(r)
    return Vec(out)


def n_array(I, args, kw, st):
    v, ty, cp = kwargs(args, kw, 'object', 'dtype', 'copy')
    if type(v) is Term:
        raise Unsupported('array of rank 0 at %s' % I.where())
    s, g = I.nd(seqarg(I, v, st), st)
    so = dtype(ty) if ty is not None else None
    if so is None and len(s) == 1 and T.is_num(s[0]):
        xs = [g((T.num(i),)) for i in range(int(s[0].args[0]))]
        return Vec(sorts(*xs) if xs and not all(x.sort == 'b' for x in xs) else xs)
    return mk(s, (lambda i: cast(I, g(i), so)) if so else g)


def n_asarray(I, args, kw, st):
    if isarray(args[0]) and len(args) == 1 and not kw:
        return args[0]
    return n_array(I, args, kw, st)


def n_copy(I, args, kw, st):
    return n_array(I, args[:1], {}, st)


def n_copyto(I, args, kw, st):
    I.setitem(args[0], [('all',)], args[1], st)
    return NULL


def n_roll(I, args, kw, st):
    v, sh, ax = kwargs(args, kw, 'a', 'shift', 'axis')
    s, g = I.nd(v, st)
    if type(sh) is not Term:
        raise Unsupported('roll at %s' % I.where())
    if ax is None:
        n, at = flat(I, v, st)
        if len(s) == 1:
            return mk(s, lambda i: at(T.fmod(T.sub(i[0], sh), n)))
        raise Unsupported('roll of a flattened array at %s' % I.where())
    if not T.is_num(ax):
        raise Unsupported('axis at %s' % I.where())
    a = int(ax.args[0]) % len(s)
    return mk(s, lambda i: g(tuple(T.fmod(T.sub(x, sh), n) if q == a else x for q, (x, n) in enumerate(zip(i, s)))))


def n_reshape(I, args, kw, st):
    return reshape(I, args[0], extents(I, args[1], st), st)


def n_ravel(I, args, kw, st):
    return method(I, I.bind(args[0], st), 'ravel', [], {}, st)


def n_transpose(I, args, kw, st):
    return arrayattr(I, args[0], 'T', st)


def n_clip(I, args, kw, st):
    out = kw.get('out')
    v, lo, hi = kwargs(args, {k: x for k, x in kw.items() if k != 'out'}, 'a', 'a_min', 'a_max')
    if lo is not None and lo is not NULL:
        v = ufunc(I, 'maximum', [v, lo], {}, st)
    return ufunc(I, 'minimum', [v, hi], {} if out is None else {'out': out}, st)


def n_where(I, args, kw, st):
    if len(args) != 3:
        raise Unsupported('numpy.where at %s' % I.where())
    return I.elem(lambda c, x, y: T.ite(c if c.sort == 'b' else T.ne(c, T.num(0, c.sort)), *sorts(x, y)), st, *args)


def n_take(I, args, kw, st):
    return I.item(args[0], [args[1]], st)


def n_concatenate(I, args, kw, st):
    out = []
    for x in I.content(args[0], st).items:
        xs = rows(I, x, st)
        if xs is None:
            raise Unsupported('concatenate at %s' % I.where())
        out += xs
    return Vec(sorts(*out))


def n_unravel_index(I, args, kw, st):
    v, shp = args[0], extents(I, args[1], st)
    S = [T.mul(T.ONE, *shp[i + 1:]) for i in range(len(shp))]
    out = []
    for i, (s, n) in enumerate(zip(S, shp)):
        out.append(I.bind(I.elem(lambda x: T.fmod(T.fdiv(x, s), n) if i else T.fdiv(x, s), st, v), st))
    return tup(out)


def n_ravel_multi_index(I, args, kw, st):
    shp = extents(I, args[1], st)
    S = [T.mul(T.ONE, *shp[i + 1:]) for i in range(len(shp))]
    r = None
    for q, s in enumerate(S):
        x = I.item(args[0], [T.num(q)], st)
        t = I.elem(lambda y: T.mul(y, s), st, x)
        r = t if r is None else I.elem(T.add, st, r, t)
    return r


def n_ndindex(I, args, kw, st):
    raise Unsupported('ndindex at %s' % I.where())


# -------------------------------------------------------------------- mpi4py
def ranks(I):
    from .cxxlib import rank_of
    return rank_of(I), I.nprocs


def overranks(I, v, kind):
    from .cxxlib import over_ranks
    return over_ranks(I, v, {'sum': 'sum', 'min': 'min', 'max': 'max'}[kind])


def mpi(I, mod, nm, args, kw, st):
    rank, size = ranks(I)
    if mod.endswith('COMM_WORLD'):
        if nm in ('Get_rank',):
            return rank
        if nm in ('Get_size',):
            return size
        if nm in ('Barrier', 'barrier'):
            I.event(st, 'mpi', 'MPI_Barrier', 'COMM_WORLD')
            return NULL
        if nm == 'gather':
            v, root = kwargs(args, kw, 'sendobj', 'root')
            root = root if root is not None else T.ZERO
            return gather(I, v, root, st)
        if nm in ('allreduce', 'reduce'):
            v, op, root = kwargs(args, kw, 'sendobj', 'op', 'root')
            k = {'mpi4py.MPI.SUM': 'sum', 'mpi4py.MPI.MIN': 'min', 'mpi4py.MPI.MAX': 'max'}.get(op.q if op is not None else 'mpi4py.MPI.SUM')
            if k is None or not num(v):
                raise Unsupported('reduction at %s' % I.where())
            root = root if root is not None else T.ZERO
            if nm == 'allreduce':
                I.event(st, 'mpi', 'MPI_Allreduce', k, 'COMM_WORLD')
                return overranks(I, v, k)
            I.event(st, 'mpi', 'MPI_Reduce', k, root, 'COMM_WORLD')
            return merge(T.eq(rank, root), overranks(I, v, k), NULL)
        if nm == 'bcast':
            v, root = kwargs(args, kw, 'obj', 'root')
            root = root if root is not None else T.ZERO
            I.event(st, 'mpi', 'MPI_Bcast', root, 'COMM_WORLD')
            return Sub({rank: root}).v(v)
        if nm == 'Abort':
            I.stop(st, T.TRUE)
    if nm == 'Wtime':
        return T.fresh('time', 'r', lo=0)
    if nm in ('Finalize', 'Init'):
        I.event(st, 'mpi', 'MPI_' + nm)
        return NULL
    raise Unsupported('MPI %s at %s' % (nm, I.where()))


def gather(I, v, root, st):
    rank, size = ranks(I)
    I.event(st, 'mpi', 'MPI_Gather', root, 'COMM_WORLD')
    if type(v) is Ptr and v.root.ty == 'gda':
        # the class of distributed arrays cannot be serialised
        I.fail('AttributeError', T.TRUE, st)
    k = T.fresh('rk', lo=0, ub=size)
    if num(v):
        p = I.newlist(Arr((size,), (k,), T.subst(v, {rank: k})), st)
    elif isarray(v):
        s, g = I.nd(v, st)
        ks = tuple(T.fresh('j', lo=0, ub=n) for n in s)
        body = Arr(tuple(T.subst(n, {rank: k}) for n in s), ks, T.subst(g(ks), {rank: k}))
        p = I.newlist(Arr((size,), (k,), body), st)
    else:
        raise Unsupported('gather of %s at %s' % (type(v).__name__, I.where()))
    return merge(T.eq(rank, root), p, NULL)


# -------------------------------------------------------------------- mpinum
def mpinum(I, nm, args, kw, st):
    rank, size = ranks(I)
    if nm == 'CubeDecomp':
        np_, dims, rm = kwargs(args, kw, 'nprocs', 'dims', 'rowMajor')
        n = extents(I, dims, st)
        d = len(n)
        D = [T.sym('D%d' % i, 'i', lo=1) for i in range(d)]
        if not T.same(np_, size):
            raise Unsupported('decomposition for another number of processes at %s' % I.where())
        L = []
        for i in range(d):
            if I.decomp is not None and T.same(n[i], T.mul(I.decomp[i][0], I.decomp[i][1])):
                D[i] = I.decomp[i][0]
                L.append(I.decomp[i][1])
            else:
                if I.decomp is not None:
                    D[i] = I.decomp[i][0]
                L.append(T.fdiv(n[i], D[i]))
        if rm is not None:
            raise Unsupported('column major decomposition')
        return I.alloc(st, 'decomp', Obj('mpinum.CubeDecomp', {'D': Vec(D), 'L': Vec(L)}), 'T:mpinum.CubeDecomp')
    if nm in ('gdaZeros', 'gdaOnes', 'daZeros'):
        shp, ty, g = kwargs(args, kw, 'shape', 'dtype', 'numGhosts')
        so = dtype(ty)
        p = I.alloc(st, 'gda', filled(I, extents(I, shp, st), T.num(1 if nm == 'gdaOnes' else 0, so), st), 'gda')
        I.ghosts = getattr(I, 'ghosts', {})
        I.ghosts[p.root] = (g if g is not None else T.ONE) if nm != 'daZeros' else None
        I.event(st, 'mpi', 'MPI_Win_create', p)
        return p
    raise Unsupported('mpinum.%s at %s' % (nm, I.where()))


def rstrides(D):
    return [T.mul(T.ONE, *D[i + 1:]) for i in range(len(D))]


def mpimethod(I, p, o, nm, args, kw, st):
    if o.cls != 'mpinum.CubeDecomp':
        raise Unsupported('method %s of %s at %s' % (nm, o.cls, I.where()))
    D, L = o.f['D'].items, o.f['L'].items
    valid = T.TRUE if I.decomp is not None else T.sym('decomp_valid', 'b')
    S = rstrides(D)
    if nm == 'isValid':
        return valid
    if nm == 'getDecomp':
        return merge(valid, I.newlist(Vec(D), st), NULL)
    if nm == 'getNumDims':
        return T.num(len(D))
    if nm == 'getSlab':
        r, = kwargs(args, kw, 'procId')
        out = []
        for d, l, s in zip(D, L, S):
            b = T.mul(T.fmod(T.fdiv(r, s), d), l)
            out.append(Obj('#slice', {'lo': b, 'hi': T.add(b, l), 'st': NULL}))
        return tup(out)
    if nm == 'getNeighborProc':
        r, off, per = kwargs(args, kw, 'proc', 'offset', 'periodic')
        offs = rows(I, off, st)
        pers = [I.truth(x, st) for x in I.content(per, st).items] if per is not None and type(per) is not Null else [T.FALSE] * len(D)
        q, inside = T.ZERO, T.TRUE
        for d, s, e, f in zip(D, S, offs, pers):
            x = T.add(T.fmod(T.fdiv(r, s), d), e)
            if f is T.TRUE:
                x = T.fmod(x, d)
            elif f is T.FALSE:
                inside = T.land(inside, T.le(T.ZERO, x), T.lt(x, d))
            else:
                raise Unsupported('periodic flag at %s' % I.where())
            q = T.add(q, T.mul(x, s))
        return merge(inside, q, NULL)
    raise Unsupported('CubeDecomp.%s at %s' % (nm, I.where()))


def gdamethod(I, p, nm, args, kw, st):
    rank, size = ranks(I)
    if nm == 'getData':
        pe, win = kwargs(args, kw, 'pe', 'winID')
        g = I.ghosts.get(p.root)
        side = [st.simp(x) for x in rows(I, win, st)]
        s, get = I.nd(p, st)
        if g is None or len(side) != len(s):
            I.fail('KeyError', T.TRUE, st)
        I.event(st, 'mpi', 'getData', p, tuple(side), pe)
        start, cnt = [], []
        nz = []
        for x, n in zip(side, s):
            z = T.FALSE if unit(x) else T.eq(x, T.ZERO)
            if z is T.TRUE:
                start.append(T.ZERO)
                cnt.append(n)
                continue
            nz.append(x)
            if z is not T.FALSE:
                raise Unsupported('side of a window at %s' % I.where())
            start.append(T.ite(T.lt(T.ZERO, x), T.sub(n, g), T.ZERO))
            cnt.append(g)
        if len(nz) != 1 or not T.same(T.mul(nz[0], nz[0]), T.ONE) and not unit(nz[0]):
            I.fail('KeyError', T.TRUE, st)
        if not num(pe):
            raise Unsupported('no neighbour at %s' % I.where())
        return mk(cnt, lambda i: T.subst(get(tuple(T.add(a, b) for a, b in zip(start, i))), {rank: pe}))
    if nm == 'reduce':
        op, init, root = kwargs(args, kw, 'op', 'initializer', 'rootPe')
        root = root if root is not None else T.ZERO
        k = foldkind(op)
        I.event(st, 'mpi', 'MPI_Gather', root, 'COMM_WORLD')
        if k not in ('sum', 'min', 'max'):
            raise Unsupported('reduction of a distributed array at %s' % I.where())
        return merge(T.eq(rank, root), overranks(I, total_over(I, p, st, k), k), NULL)
    if nm == 'free':
        I.event(st, 'mpi', 'MPI_Win_free', p)
        return NULL
    if nm in ('getMPIRank',):
        return rank
    if nm in ('getMPISize',):
        return size
    return None


def unit(x):
    """is every value of the term 1 or -1?"""
    if T.is_num(x):
        return abs(x.args[0]) == 1
    if x.op == 'ite':
        return unit(x.args[1]) and unit(x.args[2])
    n = T.neg(x)
    return n.op == 'ite' and unit(n)
