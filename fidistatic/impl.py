"""Implementations of the upwind solver, driven through one interface.

Each implementation offers: name, d, v/len/n (symbols), ntot, where, cell(j) (value of the field in the
cell with row-major index j), member(name, i), steps(n, dt), arbitrary() (replace the field by F), visited(rep).
"""
from fractions import Fraction
from . import term as T
from . import drive
from .drive import item
from .values import Vec, Arr, Obj, Ptr, State, vlen, step_get, Unsupported


def strides(n):
    out = []
    for i in range(len(n)):
        out.append(T.mul(T.ONE, *n[i + 1:]))
    return out


def syms(d):
    v = [T.sym('v%d' % i, 'r') for i in range(d)]
    ln = [T.sym('len%d' % i, 'r', lo=0) for i in range(d)]
    n = [T.sym('n%d' % i, 'i', lo=1) for i in range(d)]
    return v, ln, n


def spec_step(F, j, n, v, ln, dt):
    """one upwind step of the field F (a function of the flat index) at cell j"""
    S = strides(n)
    out = F(j)
    ix = [T.fmod(T.fdiv(j, s), m) for s, m in zip(S, n)]
    for a in range(len(n)):
        up = T.ite(T.lt(v[a], T.num(0, 'r')), T.ONE, T.num(-1))
        q = T.add(*[T.mul(s, T.fmod(T.add(x, up), m) if i == a else x) for i, (s, x, m) in enumerate(zip(S, ix, n))])
        c = T.mul(dt, v[a], T.toreal(up), T.toreal(n[a]), T.rdiv(T.num(1, "r"), ln[a]))
        out = T.sub(out, T.mul(c, T.sub(F(q), F(j))))
    return out


def ref_steps(F, N, n, v, ln, dt, j):
    """value of cell j after N reference steps on concrete numbers; F(j) initial field"""
    d = len(n)
    S = [1] * d
    for i in range(d - 2, -1, -1):
        S[i] = S[i + 1] * n[i + 1]
    up = [1 if x < 0 else -1 for x in v]
    c = [Fraction(dt) * v[a] * up[a] * n[a] / Fraction(ln[a]) for a in range(d)]

    def sources(j):
        return [j + S[a] * ((j // S[a] % n[a] + up[a]) % n[a] - j // S[a] % n[a]) for a in range(d)]
    need = [{j: sources(j)}]
    for _ in range(N):
        # the cells the last level is computed from, one step earlier
        more = {}
        for x, q in need[-1].items():
            more[x] = q
        for q in need[-1].values():
            for x in q:
                if x not in more:
                    more[x] = sources(x)
        if len(more) * N > 200000:
            raise T.Skip('too many cells')
        need.append(more)
    f = {x: F(x) for x in need.pop()}
    while need:
        g = {}
        for x, q in need.pop().items():
            y = f[x]
            for a in range(d):
                y = y - c[a] * (f[q[a]] - f[x])
            g[x] = y
        f = g
    return f[j]


def delta(j):
    return Fraction(1 if j == 0 else 0)


def arbitrary(j):
    import zlib
    h = zlib.crc32(b'%d' % j)
    if T.SPECIAL and (h >> 10) % 3 == 0:
        return T.SPECIAL[(h >> 12) % len(T.SPECIAL)]
    if (h >> 20) % 8 == 0:
        return Fraction(0)
    return Fraction(h % 199 - 99, 7)


def funcs(d):
    """interpretations of the reference fields: delta and arbitrary initial condition"""
    memo = {}

    def ref(F):
        def f(N, j, *p):
            key = (F, N, j, p)
            if key not in memo:
                memo[key] = ref_steps(F, N, [int(x) for x in p[:d]], p[d:2 * d], p[2 * d:3 * d], p[3 * d], j)
            return memo[key]
        return f
    return {'RefDelta': ref(delta), 'RefArb': ref(arbitrary), 'F': arbitrary}


def ref_app(name, N, j, im, dt):
    return T.mkapp(name, (N, j) + tuple(im.n) + tuple(im.v) + tuple(im.len) + (dt,), 'r')


def samples(im, j=None, N=None, dt=None, nmax=4):
    fs = funcs(im.d)

    def smp(rng, k):
        env = {}
        p = 1
        for x in im.n:
            env[x] = rng.choice([1, 2, 2, 3, 3, 4] if nmax else [1, 2, 3, 4])
            p *= env[x]
        for x in im.v:
            env[x] = Fraction(rng.choice([-3, -2, -1, 0, 1, 1, 2, 5]), rng.choice([1, 2]))
        for x in im.len:
            env[x] = Fraction(rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2]))
        if dt is not None:
            env[dt] = Fraction(rng.choice([0, 1, 1, 2, 3]), rng.choice([1, 4, 10]))
        if N is not None:
            env[N] = rng.choice([0, 1, 1, 2, 3])
        if j is not None:
            env[j] = rng.choice([0, p - 1, rng.randrange(p)])
        return env, fs
    return smp


class CxxImpl:
    """C++ solver classes"""

    def __init__(self, variant, prog, cls, d, second=False):
        from .upw import Upw
        self.variant, self.cls, self.d = variant, cls, d
        self.name = '%s<%d>' % (variant, d)
        self.U = Upw(prog, cls, d, second)
        self.v, self.len, self.n, self.ntot = self.U.v, self.U.len, self.U.n, self.U.ntot
        self.where = self.U.where
        self.prog = prog
        self.fname = self.role()

    def role(self):
        """the member array holding the field: f, or the one whose sum is the check sum"""
        x = self.U.value().f.get('f')
        if type(x) in (Arr, Vec):
            return 'f'
        cs = self.U.s.fork().call(self.U.obj, self.cls + '::checksum')
        for nm, x in self.U.value().f.items():
            if type(x) is Arr and len(x.ks) == 1 and isinstance(x.body, T.Term) and x.body.sort == 'r':
                if T.same(T.tsum(x.ks[0], T.ZERO, x.shape[0], x.body), cs):
                    return nm
        raise Unsupported('no member array of %s sums to its check sum' % self.name)

    def field(self):
        x = self.U.value().f[self.fname]
        if type(x) is Vec:
            from .values import vec2arr
            x = vec2arr(x)
        return x

    def cell(self, j):
        x = self.field()
        return T.subst(x.body, {x.ks[0]: j})

    def extent(self):
        return vlen(self.field())

    def member(self, nm, i=None):
        x = self.U.value().f.get(nm)
        if x is None:
            return None
        if i is None:
            return x
        return step_get(x, ('i', T.num(i)))

    def arbitrary(self):
        s = self.U.s
        o = s.I.load(self.U.obj, s.st)
        k = T.fresh('j', 'i', lo=0)
        a = Arr((self.ntot,), (k,), T.mkapp('F', (k,), 'r'))
        s.I.store(Ptr(self.U.obj.root, self.U.obj.path + (self.fname,)), a, s.st, True)

    def has(self, m):
        return bool(self.prog.byq.get(self.cls + '::' + m))

    def result(self, m):
        r = self.U.call(m)
        self.where = self.U.s.where_
        return r

    def steps(self, n, dt):
        f = self.prog.byq[self.cls + '::advect'][0]
        if len(f['params']) == 2:
            self.U.call('advect', n if isinstance(n, T.Term) else T.num(n), dt)
        elif isinstance(n, T.Term):
            return False
        else:
            for _ in range(n):
                self.U.call('advect', dt)
        self.where = self.U.s.where_
        return True

    def vtk(self, name='out.vtk', again=False):
        """output stream of the file written by saveVTK"""
        from .vtk import streams
        c = self.fork()
        if again:
            c.U.call('saveVTK', c.U.s.box(T.string('first.vtk')))
        old = set(c.U.s.st.store)
        c.U.call('saveVTK', c.U.s.box(T.string(name)))
        self.where = c.U.s.where_
        ss = [x for x in streams(c.U.s.st) if not again or x[0] not in old]
        if len(ss) != 1:
            raise Unsupported('%d output streams' % len(ss))
        return ss[0][1].items

    def destroy(self):
        self.U.s.destroy(self.U.obj, self.cls)

    def fork(self):
        c = CxxImpl.__new__(CxxImpl)
        c.__dict__.update(self.__dict__)
        from .upw import Upw
        c.U = Upw.__new__(Upw)
        c.U.__dict__.update(self.U.__dict__)
        c.U.s = self.U.s.fork()
        return c

    def visited(self, rep):
        rep.visited(self.U.s.I)


def cxx_tasks():
    from . import upw
    out = []
    for var in upw.VARIANTS:
        p = upw.program(var)
        for cls, d in upw.solvers(p):
            out.append(('%s<%d>' % (var, d), lambda var=var, p=p, cls=cls, d=d, **kw: CxxImpl(var, p, cls, d, **kw)))
    return out


def all_impls():
    """(name, constructor) of every implementation"""
    return cxx_tasks() + ftn_tasks() + py_tasks()


# -------------------------------------------------------------------- Fortran
FTN = ('upwind', 'upwindF03', 'upwindF08', 'upwindF08Gpu')


def fortran_program(nm, defs=('HAVE_OPENMP',)):
    from . import fint
    return fint.program('upwind/fortran/%s.F90' % nm, defs)


def roles(prog):
    """the solver type of a Fortran program and its procedures new / advect / del / savevtk"""
    for ty, t in sorted(prog.types.items()):
        mod = prog.tmod[ty]
        out = {}
        for r in ('new', 'advect', 'del', 'savevtk', 'print'):
            b = prog.bound(ty, r)
            if b is not None:
                out[r] = b[0]
                continue
            c = [u for nm, u in mod.procs.items() if (nm == r or nm.endswith('_' + r)) and u.args and u.decls[u.args[0]]['ty'].get('cls') == ty]
            if len(c) == 1:
                out[r] = c[0]
        if 'new' in out and 'advect' in out:
            return ty, out
    raise drive.AnalysisBroken('no solver type in %s' % prog.rel)


class FtnImpl:
    """Fortran solver types"""

    def __init__(self, nm, prog, d, second=False):
        from . import fint
        from .upw import others
        self.fname, self.prog, self.d = nm, prog, d
        self.name = 'fortran %s d=%d' % (nm, d)
        self.v, self.len, self.n = syms(d)
        self.ntot = T.mul(T.ONE, *self.n)
        self.ty, self.procs = roles(prog)
        s = self.s = fint.FSession(prog)
        if second:
            # another object, of another grid, has been used before
            v, ln, n, dt = others(d)
            self.obj = s.new(self.ty)
            s.call(self.procs['new'], self.obj, s.box(Vec(v)), s.box(Vec(ln)), s.box(Vec(n)))
            self.steps(1, dt)
        self.obj = s.new(self.ty)
        s.call(self.procs['new'], self.obj, s.box(Vec(self.v)), s.box(Vec(self.len)), s.box(Vec(self.n)))
        self.where = s.where_
        self.fld = self.role()

    def value(self):
        return self.s.I.load(self.obj, self.s.st, True)

    def get(self, nm):
        x = self.value().f.get(nm)
        return self.s.I.load(x, self.s.st, True) if type(x) is Ptr else x

    def role(self):
        c = []
        for nm in self.value().f:
            x = self.get(nm)
            if type(x) is Arr and len(x.ks) == 1 and T.same(x.shape[0], self.ntot) and isinstance(x.body, T.Term) and x.body.sort == 'r':
                c.append(nm)
            elif type(x) is Vec and x.items and isinstance(x.items[0], T.Term) and x.items[0].sort == 'r' and T.same(T.num(len(x.items)), self.ntot):
                c.append(nm)
        if 'f' in c:
            return 'f'
        if len(c) != 1:
            raise Unsupported('%d components of %s could be the field' % (len(c), self.ty))
        return c[0]

    def field(self):
        x = self.get(self.fld)
        if type(x) is Vec:
            from .values import vec2arr
            x = vec2arr(x)
        if type(x) is not Arr:
            raise Unsupported('field is %s' % type(x).__name__)
        return x

    def cell(self, j):
        x = self.field()
        return T.subst(x.body, {x.ks[0]: j})

    def extent(self):
        return vlen(self.field())

    def member(self, nm, i=None):
        x = self.get(nm.lower())
        if x is None:
            return None
        if i is None:
            return x
        return step_get(x, ('i', T.num(i)))

    def arbitrary(self):
        s = self.s
        k = T.fresh('j', 'i', lo=0)
        a = Arr((self.ntot,), (k,), T.mkapp('F', (k,), 'r'))
        x = self.value().f[self.fld]
        p = x if type(x) is Ptr else Ptr(self.obj.root, self.obj.path + (self.fld,))
        s.I.store(p, a, s.st, True)

    def has(self, m):
        return m.lower() in self.procs

    def steps(self, n, dt):
        if isinstance(n, T.Term):
            return False
        for _ in range(n):
            self.s.call(self.procs['advect'], self.obj, self.s.box(dt, 'f64'))
        self.where = self.s.where_
        return True

    def vtk(self, name='out.vtk', again=False):
        from .vtk import streams
        c = self.fork()
        if again:
            c.s.I.files = {}
            c.s.call(self.procs['savevtk'], self.obj, c.s.box(T.string('first.vtk')))
        old = set(c.s.st.store)
        c.s.I.files = {}
        c.s.call(self.procs['savevtk'], self.obj, c.s.box(T.string(name)))
        self.where = c.s.where_
        ss = [x for x in streams(c.s.st) if not again or x[0] not in old]
        if len(ss) != 1:
            raise Unsupported('%d output streams' % len(ss))
        return ss[0][1].items

    def result(self, m):
        self.s.call(self.procs[m], self.obj)
        self.where = self.s.where_

    def destroy(self):
        self.s.call(self.procs['del'], self.obj)

    def fork(self):
        c = FtnImpl.__new__(FtnImpl)
        c.__dict__.update(self.__dict__)
        c.s = self.s.fork()
        return c

    def visited(self, rep):
        rep.visited(self.s.I)


# builds that offload, for the programs with directives for them
FTN_ACC = {'upwind': (('HAVE_OPENACC',),),
           'upwindF08Gpu': (('HAVE_OPENMP', 'HAVE_OPENMP_OFFLOAD'), ('HAVE_OPENACC',), ('HAVE_OPENACC', 'HAVE_OPENACC_KERNELS'))}


def ftn_tasks(configs=False):
    out = []
    for nm in FTN:
        for defs in ((('HAVE_OPENMP',),) if not configs else FTN_ACC.get(nm, ())):
            p = fortran_program(nm, defs)
            for d in (3, 2, 1):
                tag = 'fortran %s d=%d' % (nm, d) + (' ' + '+'.join(x.replace('HAVE_', '') for x in defs) if configs else '')
                out.append((tag, lambda nm=nm, p=p, d=d, **kw: FtnImpl(nm, p, d, **kw)))
    return out


# -------------------------------------------------------------------- Python
PY = 'upwind/python/upwind.py'


class PyImpl:
    """the Python solver class"""

    def __init__(self, rel, d, cls='Upwind', second=False):
        from . import pyfe
        from .upw import others
        self.rel, self.d, self.cls = rel, d, cls
        self.name = 'python %s d=%d' % (rel.split('/')[-1][:-3], d)
        self.v, self.len, self.n = syms(d)
        self.ntot = T.mul(T.ONE, *self.n)
        s = self.s = pyfe.PySession(pyfe.program(rel))
        if not s.start():
            raise drive.AnalysisBroken('%s ends when it is imported' % rel)
        if second:
            # another object, of another grid, has been used before
            v, ln, n, dt = others(d)
            self.obj = s.new(cls, s.array(v), s.array(ln), s.list(n))
            self.steps(1, dt)
        self.obj = s.new(cls, s.array(self.v), s.array(self.len), s.list(self.n))
        self.where = s.where_
        self.fld = self.role()

    def value(self):
        return self.s.st.store[self.obj.root]

    def get(self, nm):
        from .pyfe import isseq
        x = self.value().f.get(nm)
        return self.s.I.content(x, self.s.st) if isseq(x) else x

    def role(self):
        if 'f' in self.value().f:
            return 'f'
        c = []
        for nm in self.value().f:
            x = self.get(nm)
            if type(x) is Arr and len(x.ks) == 1 and T.same(x.shape[0], self.ntot) and isinstance(x.body, T.Term) and x.body.sort == 'r':
                c.append(nm)
        if len(c) != 1:
            raise Unsupported('%d members of %s could be the field' % (len(c), self.cls))
        return c[0]

    def field(self):
        x = self.get(self.fld)
        if type(x) is Vec:
            from .values import vec2arr
            x = vec2arr(x)
        if type(x) is not Arr or len(x.ks) != 1:
            raise Unsupported('field is %s' % type(x).__name__)
        return x

    def cell(self, j):
        x = self.field()
        return T.subst(x.body, {x.ks[0]: j})

    def extent(self):
        return vlen(self.field())

    def member(self, nm, i=None):
        x = self.get(nm)
        if x is None or i is None:
            return x
        return step_get(x, ('i', T.num(i)))

    def arbitrary(self):
        k = T.fresh('j', 'i', lo=0)
        self.s.st.store[self.value().f[self.fld].root] = Arr((self.ntot,), (k,), T.mkapp('F', (k,), 'r'))

    def has(self, m):
        return self.s.I.method(self.cls, m) is not None

    def steps(self, n, dt):
        if isinstance(n, T.Term):
            return False
        for _ in range(n):
            self.s.call(self.obj, 'advect', dt)
        self.where = self.s.where_
        return True

    def vtk(self, name='out.vtk', again=False):
        from .vtk import streams
        c = self.fork()
        if again:
            c.s.call(self.obj, 'saveVTK', T.string('first.vtk'))
        old = set(c.s.st.store)
        c.s.call(self.obj, 'saveVTK', T.string(name))
        self.where = c.s.where_
        ss = [x for x in streams(c.s.st) if not again or x[0] not in old]
        if len(ss) != 1:
            raise Unsupported('%d output streams' % len(ss))
        return ss[0][1].items

    def result(self, m):
        r = self.s.call(self.obj, m)
        self.where = self.s.where_
        return r

    def destroy(self):
        self.s.I.delete(self.obj, self.s.st)

    def fork(self):
        c = PyImpl.__new__(PyImpl)
        c.__dict__.update(self.__dict__)
        c.s = self.s.fork()
        return c

    def visited(self, rep):
        rep.visited(self.s.I)


def py_tasks():
    return [('python upwind d=%d' % d, lambda d=d, **kw: PyImpl(PY, d, **kw)) for d in (3, 2, 1)]


PYMPI = 'upwind/python/upwindMPI.py'


class PyMpi:
    """the distributed Python solver on a grid of n_i = D_i * L_i cells, decomposed into D_0 x D_1 x D_2 blocks of L_i cells"""
    d = 3

    def __init__(self, rel=PYMPI, cls='Upwind'):
        from . import pyfe
        from .cxxlib import RANK, SIZE
        self.rel, self.cls = rel, cls
        self.name = 'python upwindMPI'
        self.v, self.len, _ = syms(3)
        self.D = [T.sym('D%d' % i, 'i', lo=1) for i in range(3)]
        self.L = [T.sym('L%d' % i, 'i', lo=1) for i in range(3)]
        self.n = [T.mul(a, b) for a, b in zip(self.D, self.L)]
        self.rank, self.size = RANK, SIZE
        s = self.s = pyfe.PySession(pyfe.program(rel))
        s.I.decomp = list(zip(self.D, self.L))
        if not s.start():
            raise drive.AnalysisBroken('%s ends when it is imported' % rel)
        self.obj = s.new(cls, s.array(self.v), s.array(self.len), s.list(self.n))
        self.where = s.where_
        # local cell and the global one it stands for
        self.i = [T.fresh('i%d' % q, 'i', lo=0, ub=l) for q, l in enumerate(self.L)]

    def coord(self, r, q):
        return T.fmod(T.fdiv(r, T.mul(T.ONE, *self.D[q + 1:])), self.D[q])

    def globally(self, i, r=None):
        """flat global index of local cell i of rank r"""
        r = self.rank if r is None else r
        g = [T.add(T.mul(self.coord(r, q), l), x) for q, (l, x) in enumerate(zip(self.L, i))]
        return T.add(*[T.mul(s, x) for s, x in zip(strides(self.n), g)])

    def value(self):
        return self.s.st.store[self.obj.root]

    get = PyImpl.get
    member = PyImpl.member
    has = PyImpl.has
    result = PyImpl.result
    steps = PyImpl.steps
    destroy = PyImpl.destroy
    visited = PyImpl.visited

    def field(self):
        x = self.get('f')
        if type(x) is not Arr or len(x.ks) != 3:
            raise Unsupported('field is %s' % type(x).__name__)
        return x

    def cell(self, i):
        x = self.field()
        return T.subst(x.body, dict(zip(x.ks, i)))

    def arbitrary(self):
        ks = tuple(T.fresh('j', 'i', lo=0, ub=l) for l in self.L)
        self.s.st.store[self.value().f['f'].root] = Arr(tuple(self.L), ks, T.mkapp('F', (self.globally(ks),), 'r'))

    def fork(self):
        c = PyMpi.__new__(PyMpi)
        c.__dict__.update(self.__dict__)
        c.s = self.s.fork()
        return c

    def samples(self, dt=None, extra=None):
        fs = funcs(3)

        def smp(rng, k):
            env = {}
            p = 1
            for x, l, i in zip(self.D, self.L, self.i):
                env[x] = rng.choice([1, 1, 2, 2, 3])
                env[l] = rng.choice([1, 2, 2, 3])
                env[i] = rng.choice([0, env[l] - 1, rng.randrange(env[l])])
                p *= env[x]
            for x in self.v:
                env[x] = Fraction(rng.choice([-3, -2, -1, 1, 1, 2, 5]), rng.choice([1, 2]))
            for x in self.len:
                env[x] = Fraction(rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2]))
            env[self.size] = p
            env[self.rank] = rng.choice([0, p - 1, rng.randrange(p)])
            if dt is not None:
                env[dt] = Fraction(rng.choice([0, 1, 1, 2, 3]), rng.choice([1, 4, 10]))
            if extra:
                extra(rng, k, env)
            return env, fs
        return smp
