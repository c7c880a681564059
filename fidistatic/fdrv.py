"""Fortran main programs, with the solver procedures replaced by recording stand-ins."""
from . import term as T
from . import impl, fint
from .cxx import TRACE, AnalysisBroken
from .drv import simplified
from .values import *

NC, NS = T.sym('arg:1', 'i', lo=1), T.sym('arg:2', 'i', lo=0)
A1, A2, A3 = T.sym('argv1', 's'), T.sym('argv2', 's'), T.sym('argv3', 's')


class FProg:
    """one abstract run of a main program: args are string terms, argint the integers the valid ones stand for"""

    def __init__(self, nm, args, argint, real=False, defs=('HAVE_OPENMP',), prog=None):
        self.name = nm
        self.prog = prog or impl.fortran_program(nm, defs)
        s = self.s = fint.FSession(self.prog)
        I = s.I
        self.where = fint.floc(self.prog, self.prog.main())
        if not real:
            self.ty, self.procs = impl.roles(self.prog)
            for r, u in self.procs.items():
                I.stubs[u.name] = getattr(self, 'do_' + r)
        self.obj = None
        ok = s.main([T.string('program')] + list(args), argint)
        self.st = s.st if ok else None
        self.ends = ([self.st] if ok else []) + list(I.exitstates)

    def get(self, I, st, p, nm):
        return I.load(Ptr(p.root, p.path + (nm,)), st, True)

    def val(self, I, st, x):
        how, v = x
        return I.load(v, st) if how == 'p' else v

    def put(self, I, st, p, o, k, t):
        f = dict(o.f)
        n = f['#n']
        q = T.fresh('q', 'i', lo=0, ub=n)
        f['#steps'], f['#time'] = k, t
        fld = f['#field'].args[0]
        a = Arr((n,), (q,), T.mkapp('field', (k, q), 'r'))
        if type(f.get(fld)) is Ptr:
            st.store[f[fld].root] = a
        else:
            f[fld] = a
        I.store(p, Obj(o.cls, f), st, True)

    def do_new(self, I, st, u, a):
        p = a[0][1]
        v, ln, n = [self.val(I, st, x) for x in a[1:4]]
        o = I.load(p, st, True)
        # the component that holds the field, from the real constructor
        d = 3
        im = self.sample = impl.FtnImpl(self.name, self.prog, d) if not hasattr(self, 'sample') else self.sample
        f = {k: im.value().f[k] for k in o.f}
        ns = [step_get(n, ('i', T.num(i))) for i in range(int(vlen(n).args[0]))]
        m = dict(zip(im.n, ns))
        m.update(zip(im.len, [step_get(ln, ('i', T.num(i))) for i in range(d)]))
        m.update(zip(im.v, [step_get(v, ('i', T.num(i))) for i in range(d)]))
        f = {k: vmap(x, lambda t: T.subst(t, m)) if not isinstance(x, (Ptr, Null)) else x for k, x in f.items()}
        if type(f[im.fld]) is Ptr:
            r = Root('target of ' + im.fld, 'f64')
            r.shared = 'heap'
            f[im.fld] = Ptr(r)
            st.store[r] = UndefV('field')
        f['#n'] = T.mul(T.ONE, *ns)
        f['#field'] = T.string(im.fld)
        I.event(st, 'construct', v, ln, n)
        self.put(I, st, p, Obj(o.cls, f), T.ZERO, T.num(0, 'r'))
        return VOID

    def state(self, I, st, a):
        p = a[0][1]
        o = I.load(p, st, True)
        if type(o) is not Obj or '#steps' not in o.f:
            raise Unsupported('the solver is used before it is constructed')
        return p, o

    def do_advect(self, I, st, u, a):
        p, o = self.state(I, st, a)
        dt = self.val(I, st, a[1])
        I.event(st, 'advect', T.ONE, dt)
        self.put(I, st, p, o, T.add(o.f['#steps'], T.ONE), T.add(o.f['#time'], dt))
        return VOID

    def do_del(self, I, st, u, a):
        I.event(st, 'destroy')
        return VOID

    def do_savevtk(self, I, st, u, a):
        p, o = self.state(I, st, a)
        I.event(st, 'save', self.val(I, st, a[1]), o.f['#steps'])
        return VOID

    def do_print(self, I, st, u, a):
        I.event(st, 'print')
        return VOID

    def trace(self, *pc, st=None):
        return simplified((st or self.st).store[TRACE].items, pc)

    def stream(self, nm, *pc, st=None):
        st = st or self.st
        for r, v in st.store.items():
            if r.name == nm and type(v) is Stream:
                return simplified(v.items, pc)
        return ()


_cache = {}


def load(nm, n=3, bad=()):
    """run with n arguments; those listed in bad are not integers"""
    key = (nm, n, tuple(bad))
    if key not in _cache:
        names = [A1, A2, A3, T.sym('argv4', 's'), T.sym('argv5', 's')]
        ints = {a: x for i, (a, x) in enumerate(((A1, NC), (A2, NS)), 1) if i not in bad}
        _cache[key] = FProg(nm, names[:n], ints)
    return _cache[key]
