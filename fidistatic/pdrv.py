"""Python main programs, with the solver methods replaced by recording stand-ins."""
from . import term as T
from . import pyfe
from .cxx import TRACE, AnalysisBroken
from .drv import simplified
from .values import *

NC, NS = T.sym('arg:1', 'i', lo=1), T.sym('arg:2', 'i', lo=0)
A1, A2, A3 = T.sym('argv1', 's'), T.sym('argv2', 's'), T.sym('argv3', 's')
PROGS = {'upwind': 'upwind/python/upwind.py', 'upwindMPI': 'upwind/python/upwindMPI.py'}


class PProg:
    """one abstract run of a main program: args are string terms, argint the integers the valid ones stand for"""

    def __init__(self, nm, args, argint, real=False, decomp=None, cls='Upwind'):
        self.name = nm
        self.prog = pyfe.program(PROGS[nm])
        s = self.s = pyfe.PySession(self.prog)
        I = s.I
        I.decomp = decomp
        self.cls = cls
        c = self.prog.main.classes.get(cls)
        if c is None:
            raise AnalysisBroken('no class %s in %s' % (cls, self.prog.rel))
        f = self.prog.main.funs.get('main')
        self.where = '%s:%s %s' % (self.prog.rel, f.node.lineno if f else 1, 'main')
        self.init = c.funs.get('__init__') if hasattr(c, 'funs') else None
        if not real:
            I.stubs[cls + '.__init__'] = self.do_init
            for m in ('advect', 'checksum', 'saveVTK', 'gatherRoot', '__del__', 'printOut'):
                if I.method(cls, m) is not None:
                    I.stubs[cls + '.' + m] = getattr(self, 'do_' + m.strip('_'))
            I.stubs['rectilinear'] = self.do_rectilinear
        self.objs = []
        ok = s.main([T.string('program')] + list(args), argint)
        self.st = s.st if ok else None
        self.ends = ([self.st] if ok else []) + list(I.exitstates)

    def vec(self, I, x, st):
        return I.content(x, st) if pyfe.isseq(x) else x

    def do_init(self, I, st, this, args, kw):
        """the real constructor, with what it was given recorded"""
        f = I.method(self.cls, '__init__')
        names = [a.arg for a in f.node.args.args[1:]]
        got = dict(zip(names, args))
        got.update(kw)
        vals = [got.get(x) for x in names[:3]]
        I.event(st, 'construct', *[self.vec(I, x, st) for x in vals])
        stub = I.stubs.pop(self.cls + '.__init__')
        try:
            I.callfun(f, [this] + list(args), kw, st)
        finally:
            I.stubs[self.cls + '.__init__'] = stub
        self.objs.append(this)
        self.put(I, st, this, T.ZERO, T.num(0, 'r'))
        return NULL

    def put(self, I, st, p, k, t):
        o = st.store[p.root]
        f = dict(o.f)
        f['#steps'], f['#time'] = k, t
        fld = f.get('f')
        if type(fld) is Ptr and type(st.store.get(fld.root)) is Arr:
            a = st.store[fld.root]
            if a.body is not None and type(a.body) is Term:
                st.store[fld.root] = Arr(a.shape, a.ks, T.mkapp('field', (k,) + a.ks, 'r'))
        st.store[p.root] = Obj(o.cls, f)

    def state(self, st, this):
        o = st.store[this.root]
        if type(o) is not Obj or '#steps' not in o.f:
            raise Unsupported('the solver is used before it is constructed')
        return o.f['#steps'], o.f['#time']

    def arg(self, args, kw, nm, i=0):
        return args[i] if len(args) > i else next(iter(kw.values()))

    def do_advect(self, I, st, this, args, kw):
        k, t = self.state(st, this)
        dt = self.arg(args, kw, 'deltaTime')
        I.event(st, 'advect', T.ONE, dt)
        self.put(I, st, this, T.add(k, T.ONE), T.add(t, dt))
        return NULL

    def do_checksum(self, I, st, this, args, kw):
        k, t = self.state(st, this)
        I.event(st, 'checksum', k)
        v = T.mkapp('checksum', (k,), 'r')
        if self.name == 'upwindMPI':
            return merge(T.eq(I.rank, T.ZERO), v, NULL)
        return v

    def do_saveVTK(self, I, st, this, args, kw):
        k, t = self.state(st, this)
        I.event(st, 'save', self.arg(args, kw, 'fname'), k)
        return NULL

    def do_gatherRoot(self, I, st, this, args, kw):
        k, t = self.state(st, this)
        I.event(st, 'gather', k)
        return merge(T.eq(I.rank, T.ZERO), Obj('#gathered', {'k': k}), NULL)

    def do_rectilinear(self, I, st, this, args, kw):
        d = args[4] if len(args) > 4 else kw.get('data')
        d = st.vsimp(d) if type(d) is Choice else d
        if type(d) is not Obj or d.cls != '#gathered':
            raise Unsupported('data written at %s' % I.where())
        I.event(st, 'save', args[0], d.f['k'], *[self.vec(I, x, st) for x in args[1:4]])
        return NULL

    def do_del(self, I, st, this, args, kw):
        I.event(st, 'destroy')
        return NULL

    def do_printOut(self, I, st, this, args, kw):
        I.event(st, 'print')
        return NULL

    def trace(self, *pc, st=None):
        return simplified((st or self.st).store[TRACE].items, pc)

    def stream(self, nm, *pc, st=None):
        st = st or self.st
        for r, v in st.store.items():
            if r.name == nm and type(v) is Stream:
                return simplified(v.items, pc)
        return ()


_cache = {}


def load(nm, n=3, bad=()):
    """run with n arguments; those listed in bad are not integers"""
    key = (nm, n, tuple(bad))
    if key not in _cache:
        names = [A1, A2, A3, T.sym('argv4', 's'), T.sym('argv5', 's')]
        ints = {a: x for i, (a, x) in enumerate(((A1, NC), (A2, NS)), 1) if i not in bad}
        _cache[key] = PProg(nm, names[:n], ints)
    return _cache[key]
