"""Abstract distributed Filter: arbitrary factorisation, arbitrary rank, arbitrary field."""
from . import term as T
from . import drive, decomp
from .drive import Session, item
from .values import Vec, Arr, MapV, FnV, Obj, Ptr, Choice, Sub, State, vlen, step_get, Unsupported
from .checks.c01 import strides

CLS = 'Filter'
_dec = {}
_roles = {}


def decomposition(prog, d):
    """value of a CubeDecomp object after a successful build, for an arbitrary factorisation"""
    if (id(prog), d) not in _dec:
        S = decomp.Searched(prog, d)
        s, D, L, P = decomp.valid(S)
        _dec[(id(prog), d)] = (s.I.load(S.obj, s.st), D, L, P, s.I)
    return _dec[(id(prog), d)]


def stencil_value(entries):
    """entries: list of (offset tuple, weight term)"""
    es = sorted(entries, key=lambda e: e[0])
    return MapV([e[0] for e in es], [e[1] for e in es], [Vec([T.num(x) for x in e[0]]) for e in es])


def another(dec, D, L):
    """the same number of processes on another grid: the axes of the process grid reversed, other local sizes"""
    M = [T.fresh('otherL%d' % i, 'i', lo=1) for i in range(len(L))]
    sub = Sub(dict(zip(list(D) + list(L), list(reversed(D)) + M)))
    return sub.v(dec), list(reversed(D)), M


class Filt:
    def __init__(self, prog, d, entries, ok=T.TRUE, second=False):
        """second: another filter, of another grid, has been used before"""
        self.d, self.entries = d, entries
        self.dec, self.D, self.L, self.P, self.decI = decomposition(prog, d)
        self.G = [T.mul(a, b) for a, b in zip(self.D, self.L)]
        s = self.s = Session(prog)
        self.prog = prog
        self.r = T.fresh('rank', 'i', lo=0, ub=self.P)
        s.I.rank, s.I.nprocs = self.r, self.P
        self.builds = []

        def build(I, st, this, args, n):
            from .drive import unref
            g = args[1]
            g = I.load(g, st) if isinstance(g, Ptr) else g
            p = args[0]
            p = I.load(p, st) if isinstance(p, Ptr) else p
            self.builds.append((p, g))
            I.store(this, built, st, True)
            return ok
        built = self.dec
        s.I.stubs['CubeDecomp::build'] = build
        self.xmins = [T.sym('xmin%d' % i, 'r') for i in range(d)]
        self.xmaxs = [T.sym('xmax%d' % i, 'r') for i in range(d)]
        self.M = []
        if second:
            built, E, self.M = another(self.dec, self.D, self.L)
            one = s.new(CLS, s.box(Vec([T.mul(a, b) for a, b in zip(E, self.M)])), s.box(Vec(self.xmaxs)), s.box(Vec(self.xmins)),
                        s.box(stencil_value([(o, T.mkapp('otherw', (w,), 'r')) for o, w in entries])))
            for m, a in (('setInDataByIndices', [self.func('V')]), ('applyFilter', []), ('copyOutToIn', []), ('applyFilter', [])):
                s.call(one, CLS + '::' + m, *a)
            built = self.dec
            self.builds.clear()
        self.obj = s.new(CLS, s.box(Vec(self.G)), s.box(Vec(self.xmins)), s.box(Vec(self.xmaxs)), s.box(stencil_value(entries)))
        self.where = s.where_

    def call(self, nm, *a):
        return self.s.call(self.obj, CLS + '::' + nm, *a)

    def func(self, name):
        """an arbitrary function of the elements of its vector argument"""
        def env(I, st, args):
            v = args[0]
            v = I.load(v, st) if isinstance(v, Ptr) else v
            return T.mkapp(name, tuple(step_get(v, ('i', T.num(i))) for i in range(self.d)), 'r')
        return FnV(None, name, env)

    def value(self):
        return self.s.I.load(self.obj, self.s.st)

    def field(self, which):
        """(name, value) of the member array holding the input / output field"""
        key = (id(self.prog), self.d)
        v = self.value().f.get({'input': 'inData', 'output': 'outData'}[which])
        if type(v) is Arr and len(v.ks) == 1 and type(v.body) is T.Term:
            return {'input': 'inData', 'output': 'outData'}[which], v
        if key not in _roles:
            F = Filt(self.prog, self.d, [((0,) * self.d, T.sym('w0', 'r'))])
            F.call('setInDataByIndices', F.func('U'))
            F.call('applyFilter')
            _roles[key] = {w: F.role(w)[0] for w in ('input', 'output')}
        nm = _roles[key][which]
        if nm is None:
            return None, None
        v = self.value().f[nm]
        if type(v) is not Arr or len(v.ks) != 1 or type(v.body) is not T.Term:
            raise Unsupported('%s field is not a flat array' % which)
        return nm, v

    def forget(self, which, name):
        """replace the values of a field by arbitrary ones"""
        nm, v = self.field(which)
        if nm is not None:
            self.s.I.store(Ptr(self.obj.root, self.obj.path + (nm,)), Arr(v.shape, v.ks, T.mkapp(name, (self.r, v.ks[0]), 'r')), self.s.st, True)

    def role(self, which):
        """name of the member array whose global sum is the check sum of `which`"""
        f = self.s.fork()
        cs = f.call(self.obj, CLS + '::computeCheckSum', f.box(T.string(which)))
        cs = State({}, (T.eq(self.r, T.ZERO),)).simp(cs)
        cands = []
        for nm, v in self.value().f.items():
            if type(v) is Arr and len(v.ks) == 1 and type(v.body) is T.Term and v.body.sort == 'r':
                cands.append((nm, v))
        from .cxxlib import over_ranks
        for nm, v in cands:
            tot = over_ranks(self.s.I, T.tsum(v.ks[0], T.ZERO, v.shape[0], v.body), 'sum')
            if T.same(tot, cs):
                return nm, v
        return None, cs

    def coords(self):
        """(mapping rank -> sub-domain position symbols, position symbols)"""
        c = [T.fresh('c%d' % i, 'i', lo=0, ub=self.D[i]) for i in range(self.d)]
        St = strides(self.D, True)
        return {self.r: T.add(*[T.mul(a, b) for a, b in zip(c, St)])}, c

    def samples(self, extra=None):
        def ex(rng, n, env):
            p = 1
            for x in self.D:
                p *= env[x]
            env[self.r] = rng.choice([0, p - 1, rng.randrange(p)])
            for x in self.M:
                env[x] = rng.choice([1, 2, 3, 4, 5])
            if extra:
                extra(rng, n, env)
        return decomp.samples_DL(self.D, self.L, ex)
