"""Driving library code abstractly through its public interface."""
from . import term as T
from .cxx import Interp, Program, unref, AnalysisBroken, REPO, LRef, PathEnds
from .values import *
import os

_prog = {}


def program(*rel):
    key = tuple(rel)
    if key not in _prog:
        _prog[key] = Program([p if p.startswith('/') else os.path.join(REPO, p) for p in rel])
    return _prog[key]


LIB = ('cxx/MultiArrayIter.cpp', 'cxx/CubeDecomp.cpp', 'cxx/Filter.cpp', 'cxx/writeVTK.cpp')


class Session:
    """one abstract execution: objects, calls, state"""

    def __init__(self, prog, precise=False):
        self.prog = prog
        self.I = Interp(prog, precise)
        self.st = self.I.newstate()
        self.where_ = ''
        root = {'q': '<driver>', 'file': REPO + '/<driver>', 'retref': False}
        from .cxx import Frame
        self.I.frames.append(Frame(root))

    def fn(self, q, nargs=None, ptys=None):
        return self.prog.find(q, nargs, ptys)

    def new(self, cls, *args, ptys=None):
        fs = [f for f in self.prog.fns.values() if f.get('ctor') and f.get('cls') == cls and len(f['params']) == len(args)
              and not (len(args) == 1 and unref(f['params'][0]['ty']) == cls)]
        if ptys is not None:
            fs = [f for f in fs if [unref(p['ty']) for p in f['params']] == ptys]
        if not fs:
            r = self.prog.records.get(cls)
            if r is not None and not args and not r.get('userctor'):
                return self.I.alloc(self.st, cls, self.I.default(cls, cls, False, self.st), cls)
            raise AnalysisBroken('constructor %s/%d not found' % (cls, len(args)))
        p = self.I.alloc(self.st, cls, self.I.default(cls, cls), cls)
        self.where_ = loc(fs[0])
        self.I.call(fs[0], p, list(args), self.st)
        return p

    def call(self, obj, q, *args, ptys=None):
        f = self.fn(q, len(args), ptys)
        self.where_ = loc(f)
        v = self.I.call(f, obj, list(args), self.st)
        return self.I.load(v.p, self.st, True) if type(v) is LRef else v

    def destroy(self, obj, cls):
        if self.I.needs_dtor(cls):
            self.I.run_dtor(cls, obj, self.st)

    def box(self, v, ty=None):
        return self.I.alloc(self.st, 'arg', v, ty)

    def fork(self):
        s = Session.__new__(Session)
        s.__dict__.update(self.__dict__)
        s.st = self.st.copy()
        return s


def loc(f):
    return '%s:%s %s' % (f['file'].replace(REPO + '/', ''), f['ln'], f['q'])


def vec(*xs):
    return Vec(x if not isinstance(x, (int, float)) else T.num(x) for x in xs)


def item(v, i):
    return step_get(v, ('i', i if not isinstance(i, int) else T.num(i)))
