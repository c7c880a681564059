"""Abstract values, locations and program states (all functional / immutable values)."""
from . import term as T
from .term import Term


class Unsupported(Exception):
    """construct outside the modelled language: the obligation that needed it is undecided"""


class Vec:
    """sequence of literally known length"""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'Vec%r' % (list(self.items),)


class Arr:
    """array of symbolic shape: body is the element at index ks"""
    __slots__ = ('shape', 'ks', 'body')

    def __init__(self, shape, ks, body):
        self.shape, self.ks, self.body = tuple(shape), tuple(ks), body

    def __repr__(self):
        return 'Arr[%r](%r -> %r)' % (self.shape, self.ks, self.body)


class Obj:
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def __repr__(self):
        return '%s%r' % (self.cls, self.f)


class Ptr:
    """pointer / iterator to a location"""
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def __repr__(self):
        return '&%r%r' % (self.root, self.path)


class Null:
    def __repr__(self):
        return 'NULL'


NULL = Null()


class Choice:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return '(%r ? %r : %r)' % (self.c, self.a, self.b)


class MapV:
    """ordered map with literally known keys (python keys, kept sorted)"""
    __slots__ = ('keys', 'vals', 'kvals')

    def __init__(self, keys=(), vals=(), kvals=()):
        self.keys, self.vals, self.kvals = tuple(keys), tuple(vals), tuple(kvals)

    def __repr__(self):
        return 'Map%r' % (list(zip(self.keys, self.vals)),)


class MapIt:
    __slots__ = ('root', 'path', 'pos')

    def __init__(self, root, path, pos):
        self.root, self.path, self.pos = root, tuple(path), pos   # pos: key or None for end()

    def __repr__(self):
        return 'MapIt(%r,%r,%r)' % (self.root, self.path, self.pos)


class FnV:
    __slots__ = ('fid', 'name', 'env', 'node', 'this')

    def __init__(self, fid, name, env=None, node=None, this=None):
        self.fid, self.name, self.env, self.node, self.this = fid, name, env, node, this

    def __repr__(self):
        return 'fn:%s' % self.name


class UndefV:
    """a non scalar value that was never set"""
    __slots__ = ('origin', 'ty')

    def __init__(self, origin, ty=None):
        self.origin, self.ty = origin, ty

    def __repr__(self):
        return 'UNDEF<%s>' % (self.origin,)


class Void:
    def __repr__(self):
        return 'void'


VOID = Void()


# ------------------------------------------------------------------ streams
class Item:
    __slots__ = ('kind', 'args', 'at')

    def __init__(self, kind, args, at=None):
        self.kind, self.args, self.at = kind, tuple(args), at

    def __repr__(self):
        return '%s%r' % (self.kind, self.args)


class Alt:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, tuple(a), tuple(b)

    def __repr__(self):
        return 'Alt(%r ? %r : %r)' % (self.c, list(self.a), list(self.b))


class Rep:
    __slots__ = ('k', 'n', 'items', 'info')

    def __init__(self, k, n, items, info=None):
        self.k, self.n, self.items, self.info = k, n, tuple(items), info

    def __repr__(self):
        return 'Rep(%r<%r: %r)' % (self.k, self.n, list(self.items))


class Stream:
    __slots__ = ('items',)

    def __init__(self, items=()):
        self.items = tuple(items)

    def __repr__(self):
        return 'Stream%r' % (list(self.items),)


# ------------------------------------------------------------------ roots
class Root:
    __slots__ = ('name', 'ty', 'n', 'shared')
    count = 0

    def __init__(self, name, ty=None):
        Root.count += 1
        self.name, self.ty, self.n = name, ty, Root.count
        self.shared = None

    def __repr__(self):
        return '%s~%d' % (self.name, self.n)


# ------------------------------------------------------------------ substitution
class Sub:
    """simultaneous substitution of symbols (and array symbols) in values"""

    def __init__(self, mp=None, arrs=None, roots=None):
        self.mp = mp or {}
        self.arrs = arrs or {}      # asym -> (ks, body term)
        self.roots = roots or {}
        self.memo = {}
        self.leafonly = all(k.op in ('sym', 'asym', 'undef') for k in self.mp)
        self.leaves = frozenset(k for k in self.mp) | frozenset(self.arrs)

    def t(self, x):
        r = self.mp.get(x)
        if r is not None:
            return r
        r = self.memo.get(x)
        if r is not None:
            return r
        if self.leafonly and T.syms_of(x).isdisjoint(self.leaves):
            self.memo[x] = x
            return x
        if x.op == 'sel' and x.args[0] in self.arrs:
            ks, body = self.arrs[x.args[0]]
            idx = [self.t(i) for i in x.args[1]]
            if callable(body):
                r = body(*idx)
            else:
                r = T.subst(body, dict(zip(ks, idx)))
        else:
            r = T.rebuild(x, self.t)
        self.memo[x] = r
        return r

    def v(self, x):
        if type(x) is Term:
            return self.t(x)
        return vmap(x, self.t, self.roots)


def vmap(x, f, roots=None):
    """rebuild a value with every term mapped through f"""
    if type(x) is Term:
        return f(x)
    if type(x) is Vec:
        n = tuple(vmap(i, f, roots) for i in x.items)
        return x if all(a is b for a, b in zip(n, x.items)) else Vec(n)
    if type(x) is Arr:
        sh = tuple(f(s) for s in x.shape)
        b = vmap(x.body, f, roots)
        if b is x.body and all(p is q for p, q in zip(sh, x.shape)):
            return x
        return Arr(sh, x.ks, b)
    if type(x) is Obj:
        n = {}
        ch = False
        for k, v in x.f.items():
            w = vmap(v, f, roots)
            ch |= w is not v
            n[k] = w
        return Obj(x.cls, n) if ch else x
    if type(x) is Ptr:
        p = tuple(('i',) + tuple(f(i) for i in s[1:]) if type(s) is tuple and s[0] == 'i' else s for s in x.path)
        r = roots.get(x.root, x.root) if roots else x.root
        if r is x.root and all(a is b or a == b for a, b in zip(p, x.path)):
            return x
        return Ptr(r, p)
    if type(x) is MapIt:
        p = tuple(('i',) + tuple(f(i) for i in s[1:]) if type(s) is tuple and s[0] == 'i' else s for s in x.path)
        r = roots.get(x.root, x.root) if roots else x.root
        return MapIt(r, p, x.pos)
    if type(x) is Choice:
        return merge(f(x.c), vmap(x.a, f, roots), vmap(x.b, f, roots))
    if type(x) is MapV:
        n = tuple(vmap(i, f, roots) for i in x.vals)
        return x if all(a is b for a, b in zip(n, x.vals)) else MapV(x.keys, n, x.kvals)
    if type(x) is Stream:
        return Stream(smap(x.items, f, roots))
    return x


def smap(items, f, roots=None):
    out = []
    for it in items:
        if type(it) is Item:
            out.append(Item(it.kind, tuple(vmap(a, f, roots) if isinstance(a, VALTYPES) else a for a in it.args), it.at))
        elif type(it) is Alt:
            c = f(it.c)
            if c is T.TRUE:
                out.extend(smap(it.a, f, roots))
            elif c is T.FALSE:
                out.extend(smap(it.b, f, roots))
            else:
                out.append(Alt(c, smap(it.a, f, roots), smap(it.b, f, roots)))
        elif type(it) is Rep:
            out.append(Rep(it.k, f(it.n), smap(it.items, f, roots), it.info))
        else:
            out.append(it)
    return tuple(out)


VALTYPES = (Term, Vec, Arr, Obj, Ptr, Choice, MapV, MapIt, Stream)


# ------------------------------------------------------------------ equality (syntactic)
def vequal(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if type(a) is Term:
        return False
    if type(a) is Vec:
        return len(a.items) == len(b.items) and all(vequal(x, y) for x, y in zip(a.items, b.items))
    if type(a) is Arr:
        if len(a.shape) != len(b.shape) or any(x is not y for x, y in zip(a.shape, b.shape)):
            return False
        bb = b.body
        if a.ks != b.ks:
            bb = Sub(dict(zip(b.ks, a.ks))).v(b.body)
        return vequal(a.body, bb)
    if type(a) is Obj:
        return a.cls == b.cls and a.f.keys() == b.f.keys() and all(vequal(v, b.f[k]) for k, v in a.f.items())
    if type(a) is Ptr:
        return a.root is b.root and a.path == b.path
    if type(a) is MapIt:
        return a.root is b.root and a.path == b.path and a.pos == b.pos
    if type(a) is Choice:
        return a.c is b.c and vequal(a.a, b.a) and vequal(a.b, b.b)
    if type(a) is MapV:
        return a.keys == b.keys and all(vequal(x, y) for x, y in zip(a.vals, b.vals))
    if type(a) is Stream:
        return len(a.items) == len(b.items) and all(iequal(x, y) for x, y in zip(a.items, b.items))
    if type(a) is FnV:
        return a.fid == b.fid and a.node is b.node
    if type(a) is UndefV:
        return a.origin == b.origin
    return a == b


def iequal(x, y):
    if x is y:
        return True
    if type(x) is not type(y):
        return False
    if type(x) is Item:
        return x.kind == y.kind and len(x.args) == len(y.args) and all(
            vequal(p, q) if isinstance(p, VALTYPES) else p == q for p, q in zip(x.args, y.args))
    if type(x) is Alt:
        return x.c is y.c and len(x.a) == len(y.a) and len(x.b) == len(y.b) and \
            all(iequal(p, q) for p, q in zip(x.a, y.a)) and all(iequal(p, q) for p, q in zip(x.b, y.b))
    if type(x) is Rep:
        return x.k is y.k and x.n is y.n and len(x.items) == len(y.items) and all(iequal(p, q) for p, q in zip(x.items, y.items))
    return False


# ------------------------------------------------------------------ merging
def merge(c, a, b):
    """c ? a : b"""
    if c is T.TRUE:
        return a
    if c is T.FALSE:
        return b
    if a is b:
        return a
    ta, tb = type(a), type(b)
    if ta is Term and tb is Term:
        return T.ite(c, a, b)
    if ta is Vec and tb is Vec and len(a.items) == len(b.items):
        return Vec(merge(c, x, y) for x, y in zip(a.items, b.items))
    if ta is Arr and tb is Arr and len(a.shape) == len(b.shape):
        return Arr([T.ite(c, x, y) for x, y in zip(a.shape, b.shape)], a.ks,
                   merge(c, a.body, b.body if b.ks == a.ks else Sub(dict(zip(b.ks, a.ks))).v(b.body)))
    if ta is Obj and tb is Obj and a.cls == b.cls and a.f.keys() == b.f.keys():
        return Obj(a.cls, {k: merge(c, v, b.f[k]) for k, v in a.f.items()})
    if ta is MapV and tb is MapV and a.keys == b.keys:
        return MapV(a.keys, [merge(c, x, y) for x, y in zip(a.vals, b.vals)], a.kvals)
    if ta is Stream and tb is Stream:
        return Stream(smerge(c, a.items, b.items))
    if vequal(a, b):
        return a
    if ta is Ptr and tb is Ptr and a.root is b.root and len(a.path) == len(b.path) and a.path and \
            a.path[:-1] == b.path[:-1] and type(a.path[-1]) is tuple and type(b.path[-1]) is tuple and \
            a.path[-1][0] == 'i' and b.path[-1][0] == 'i' and len(a.path[-1]) == len(b.path[-1]):
        return Ptr(a.root, a.path[:-1] + (('i',) + tuple(T.ite(c, x, y) for x, y in zip(a.path[-1][1:], b.path[-1][1:])),))
    if ta is Choice and a.c is c:
        return merge(c, a.a, b)
    if tb is Choice and b.c is c:
        return merge(c, a, b.b)
    if c.op == 'not':
        return Choice(c.args[0], b, a)
    return Choice(c, a, b)


def smerge(c, x, y):
    n = 0
    while n < len(x) and n < len(y) and iequal(x[n], y[n]):
        n += 1
    pre = x[:n]
    x, y = x[n:], y[n:]
    m = 0
    while m < len(x) and m < len(y) and iequal(x[-1 - m], y[-1 - m]):
        m += 1
    suf = x[len(x) - m:]
    x, y = x[:len(x) - m], y[:len(y) - m]
    if not x and not y:
        return pre + suf
    return pre + (Alt(c, x, y),) + suf


# ------------------------------------------------------------------ element access
def vec2arr(v, shape=None):
    k = T.fresh('j', lo=0)
    n = len(v.items)
    if n == 0:
        return Arr((T.ZERO,), (k,), T.undef('empty'))
    body = v.items[-1]
    for i in reversed(range(n - 1)):
        body = merge(T.eq(k, T.num(i)), v.items[i], body)
    return Arr((T.num(n),), (k,), body)


def vlen(v):
    if type(v) is Vec:
        return T.num(len(v.items))
    if type(v) is Arr:
        return v.shape[0]
    if type(v) is MapV:
        return T.num(len(v.keys))
    if type(v) is Choice:
        return T.ite(v.c, vlen(v.a), vlen(v.b))
    if type(v) is Term and v.sort == 's':
        if v.op == 'str':
            return T.num(len(v.args[0]))
        return T.mkapp('slen', (v,), 'i')
    raise Unsupported('size of %s' % type(v).__name__)


class OutOfRange(Exception):
    def __init__(self, idx, n):
        self.idx, self.n = idx, n


def step_get(v, s, alloc=None):
    if type(v) is Choice:
        return merge(v.c, step_get(v.a, s), step_get(v.b, s))
    if type(s) is str:
        if type(v) is Obj:
            if s not in v.f:
                raise Unsupported('no member %s in %s' % (s, v.cls))
            return v.f[s]
        if type(v) is UndefV:
            return UndefV('%s.%s' % (v.origin, s))
        raise Unsupported('member %s of %s' % (s, type(v).__name__))
    if s[0] == 'i':
        if type(v) is Vec:
            i = s[1]
            if len(s) > 2:
                return step_get(step_get(v, s[:2]), ('i',) + s[2:])
            if T.is_num(i):
                n = int(i.args[0])
                if 0 <= n < len(v.items):
                    return v.items[n]
                return _oob_value(v, i)
            if not v.items:
                return _oob_value(v, i)
            r = v.items[-1]
            for n in reversed(range(len(v.items) - 1)):
                r = merge(T.eq(i, T.num(n)), v.items[n], r)
            return r
        if type(v) is Arr:
            if len(s) - 1 != len(v.ks):
                if len(v.ks) == 1 and len(s) - 1 > 1:
                    return step_get(step_get(v, s[:2]), ('i',) + s[2:])
                raise Unsupported('rank mismatch in element access')
            return Sub(dict(zip(v.ks, s[1:]))).v(v.body)
        if type(v) is Term and v.sort == 's':
            return char_at(v, s[1])
        if type(v) is UndefV:
            return T.undef('%s[]' % v.origin, elem_sort(v.ty))
        if type(v) is Term and T.is_num(s[1]) and s[1].args[0] == 0:
            return v              # &scalar[0]
        raise Unsupported('index into %s' % type(v).__name__)
    if s[0] == 'm':
        if type(v) is MapV and s[1] in v.keys:
            return v.vals[v.keys.index(s[1])]
        raise Unsupported('map element')
    if s[0] == 'mk':
        if type(v) is MapV:
            return v.kvals[v.keys.index(s[1])]
    raise Unsupported('step %r' % (s,))


def elem_sort(ty):
    if ty is None:
        return 'r'
    if 'f64' in ty or 'f32' in ty:
        return 'r'
    if 'bool' in ty:
        return 'b'
    return 'i'


def _oob_value(v, i):
    so = 'i'
    if v.items and type(v.items[0]) is Term:
        so = v.items[0].sort
    elif v.items:
        return UndefV('out-of-range element')
    return T.undef('out-of-range element', so)


def char_at(s, i):
    if s.op == 'str' and T.is_num(i):
        n = int(i.args[0])
        if 0 <= n < len(s.args[0]):
            return T.num(ord(s.args[0][n]))
        return T.ZERO
    return T.mkapp('schar', (s, i), 'i')


def step_set(v, path, new):
    if not path:
        return new
    s = path[0]
    rest = path[1:]
    if type(v) is Choice:
        return merge(v.c, step_set(v.a, path, new), step_set(v.b, path, new))
    if type(s) is str:
        if type(v) is Obj:
            f = dict(v.f)
            f[s] = step_set(v.f.get(s), rest, new) if rest else new
            return Obj(v.cls, f)
        raise Unsupported('store to member %s of %s' % (s, type(v).__name__))
    if s[0] == 'i':
        if type(v) is Vec:
            i = s[1]
            if len(s) > 2:
                return step_set(v, (s[:2], ('i',) + s[2:]) + rest, new)
            if T.is_num(i):
                n = int(i.args[0])
                if 0 <= n < len(v.items):
                    it = list(v.items)
                    it[n] = step_set(it[n], rest, new)
                    return Vec(it)
                return v
            return Vec(merge(T.eq(i, T.num(n)), step_set(x, rest, new), x) for n, x in enumerate(v.items))
        if type(v) is Arr:
            idx = s[1:]
            if len(idx) != len(v.ks):
                if len(v.ks) == 1:
                    return step_set(v, (s[:2], ('i',) + s[2:]) + rest, new)
                raise Unsupported('rank mismatch in element store')
            c = T.land(*[T.eq(k, i) for k, i in zip(v.ks, idx)])
            if rest:
                old = Sub(dict(zip(v.ks, idx))).v(v.body)
                new = step_set(old, rest, new)
            return Arr(v.shape, v.ks, merge(c, new, v.body))
        if type(v) is Term and T.is_num(s[1]) and s[1].args[0] == 0 and not rest:
            return new
        raise Unsupported('element store into %s' % type(v).__name__)
    if s[0] == 'm':
        i = v.keys.index(s[1])
        vals = list(v.vals)
        vals[i] = step_set(vals[i], rest, new)
        return MapV(v.keys, vals, v.kvals)
    raise Unsupported('store step %r' % (s,))


# ------------------------------------------------------------------ states
class State:
    __slots__ = ('store', 'pc', '_facts')

    def __init__(self, store=None, pc=()):
        self.store = store if store is not None else {}
        self.pc = pc
        self._facts = None

    def copy(self):
        return State(dict(self.store), self.pc)

    def assume(self, c):
        if c is T.TRUE:
            return self
        cs = c.args[0] if c.op == 'and' else (c,)
        self.pc = self.pc + tuple(x for x in cs if x not in self.pc)
        self._facts = None
        return self

    def facts(self):
        if self._facts is None:
            mp = {}
            syms = {}
            for c in self.pc:
                mp[c] = T.TRUE
                mp[T.lnot_cheap(c)] = T.FALSE
                if c.op == 'or':
                    n = T.lnot(c)
                    mp[n] = T.FALSE
                if c.op == 'eq0':
                    d = c.args[0]
                    if d.op == 'sym':
                        syms[d] = T.ZERO
                    elif d.op == 'poly':
                        p = dict(d.args[0])
                        k = p.pop((), 0)
                        if len(p) == 1:
                            (m, co), = p.items()
                            if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('sym',) and (k / co).denominator == 1:
                                syms[m[0][0]] = T.num(-k / co)
                elif c.op == 'seq':
                    a, b = c.args
                    if a.op == 'str' and b.op == 'sym':
                        syms[b] = a
                    elif b.op == 'str' and a.op == 'sym':
                        syms[a] = b
                elif c.op == 'sym':
                    syms[c] = T.TRUE
                elif c.op == 'not' and c.args[0].op == 'sym':
                    syms[c.args[0]] = T.FALSE
            mp.update(syms)
            self._facts = mp
        return self._facts

    def simp(self, t):
        """simplify a term under the path condition"""
        if not self.pc or type(t) is not Term:
            return t
        if t.op in ('num', 'str', 'true', 'false'):
            return t
        return Sub(self.facts()).t(t) if self.facts() else t

    def vsimp(self, v):
        if type(v) is Term:
            return self.simp(v)
        if type(v) is Choice:
            c = self.simp(v.c)
            if c is T.TRUE:
                return self.vsimp(v.a)
            if c is T.FALSE:
                return self.vsimp(v.b)
            a, b = self.vsimp(v.a), self.vsimp(v.b)
            return v if (a is v.a and b is v.b) else merge(v.c, a, b)
        return v

    def knows(self, c):
        """TRUE / FALSE / None"""
        r = self.simp(c)
        if r is T.TRUE:
            return True
        if r is T.FALSE:
            return False
        return None


def common_prefix(p, q):
    n = 0
    while n < len(p) and n < len(q) and p[n] is q[n]:
        n += 1
    return n


def merge_states(s1, s2):
    """join of two states reached under disjoint path conditions"""
    if s1 is None:
        return s2
    if s2 is None:
        return s1
    n = common_prefix(s1.pc, s2.pc)
    c1 = T.land(*s1.pc[n:])
    c2 = T.land(*s2.pc[n:])
    cond = c1
    neg = False
    if len(s2.pc) - n < len(s1.pc) - n:
        cond, neg = c2, True
    store = {}
    for r, v in s1.store.items():
        w = s2.store.get(r)
        if w is None:
            store[r] = v
        elif w is v:
            store[r] = v
        else:
            store[r] = merge(cond, w, v) if neg else merge(cond, v, w)
    for r, w in s2.store.items():
        if r not in s1.store:
            store[r] = w
    pc = s1.pc[:n]
    d = T.lor(c1, c2)
    st = State(store, pc)
    if d is not T.TRUE:
        st.assume(d)
    return st


def merge_cond(s1, s2):
    """the condition (term) selecting s1 among s1/s2"""
    n = common_prefix(s1.pc, s2.pc)
    return T.land(*s1.pc[n:])


class Raised(Exception):
    """an operation that ends with an exception (or ends the program) on every path"""
