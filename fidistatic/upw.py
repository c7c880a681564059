"""The C++ upwind solvers, driven abstractly through constructor / advect / checksum."""
import hashlib
import os
import re
from . import term as T
from . import drive, cxx
from .cxx import REPO, SourceBroken, unref, Program
from .drive import Session, item
from .values import Vec, Arr, State, vlen, step_get, Unsupported

DIR = os.path.join(REPO, 'upwind/cxx')
PLAIN = ('upwind', 'upwindOMPTasks')
ACC = ('upwindAcc', 'upwindAcc2', 'upwindOMP5')
_progs = {}
# programs the default build leaves out: one that does not compile is reported by C21 and analysed by nothing else
OPTIONAL = ('upwindOMP5',)


def program(variant):
    """the translation unit of a variant, with the solver instantiated for one, two and three axes"""
    if variant in _progs:
        return _progs[variant]
    path = os.path.join(DIR, variant + '.cxx')
    if not os.path.exists(path):
        raise SourceBroken('%s is gone' % path)
    tpl = templates(path)
    last = None
    for dims in ((1, 2, 3), ()):
        insts = ''.join('template class %s<%d>;\n' % (t, d) for t in tpl for d in dims if not (variant in ACC and d != 3))
        text = '#include "%s"\n%s' % (path, insts)
        os.makedirs(cxx.BUILD, exist_ok=True)
        tu = os.path.join(cxx.BUILD, 'tu-%s-%s.cxx' % (variant, hashlib.sha256(text.encode()).hexdigest()[:8]))
        if not os.path.exists(tu):
            tmp = tu + '.%d' % os.getpid()
            with open(tmp, 'w') as f:
                f.write(text)
            os.replace(tmp, tu)
        try:
            p = Program([tu])
            break
        except SourceBroken as e:
            last = e
    else:
        raise last
    _progs[variant] = p
    return p


def broken(variant):
    """diagnostic of a program that does not compile, else None"""
    path = os.path.join(DIR, variant + '.cxx')
    if not os.path.exists(path):
        return None
    try:
        cxx.dump(path)
    except SourceBroken as e:
        return str(e)
    return None


VARIANTS = tuple(v for v in PLAIN + ACC if not (v in OPTIONAL and broken(v)))


def templates(path):
    from .cxx import dump
    return [t.split('|')[0] for t in dump(path)['class_templates'] if t.endswith('|v')]


def solvers(prog):
    """(class, number of axes) of the solver classes: those with an advect method and a three-vector constructor"""
    out = []
    for q in sorted(prog.byq):
        if not q.endswith('::advect'):
            continue
        cls = q[:-len('::advect')]
        cs = [f for f in prog.byq.get('%s::%s' % (cls, base(cls)), []) + [f for f in prog.fns.values() if f.get('ctor') and f.get('cls') == cls]
              if len(f['params']) == 3]
        if not cs:
            continue
        m = re.search(r'<\s*(\d+)', cls)
        out.append((cls, int(m.group(1)) if m else 3))
    return sorted(set(out), key=lambda x: -x[1])


def base(cls):
    return cls.split('<')[0].split('::')[-1]


def others(d):
    """velocity, lengths, cells and time step of another object"""
    return ([T.fresh('otherv%d' % i, 'r') for i in range(d)], [T.fresh('otherlen%d' % i, 'r', lo=0) for i in range(d)],
            [T.fresh('othern%d' % i, 'i', lo=1) for i in range(d)], T.fresh('otherdt', 'r', lo=0))


class Upw:
    """one constructed solver with symbolic velocity, lengths and cell counts"""

    def __init__(self, prog, cls, d, second=False):
        self.prog, self.cls, self.d = prog, cls, d
        s = self.s = Session(prog)
        self.v = [T.sym('v%d' % i, 'r') for i in range(d)]
        self.len = [T.sym('len%d' % i, 'r', lo=0) for i in range(d)]
        self.n = [T.sym('n%d' % i, 'i', lo=1) for i in range(d)]
        self.ntot = T.mul(T.ONE, *self.n)
        if second:
            # another object, of another grid, has been used before
            v, ln, n, dt = others(d)
            self.obj = s.new(cls, s.box(Vec(v)), s.box(Vec(ln)), s.box(Vec(n)))
            self.steps(1, dt)
        self.obj = s.new(cls, s.box(Vec(self.v)), s.box(Vec(self.len)), s.box(Vec(self.n)))
        self.where = s.where_

    def value(self):
        return self.s.I.load(self.obj, self.s.st)

    def call(self, nm, *a):
        return self.s.call(self.obj, self.cls + '::' + nm, *a)

    def steps(self, n, dt):
        """advance n steps: advect(numSteps, dt) or n times advect(dt)"""
        f = self.prog.byq[self.cls + '::advect'][0]
        if len(f['params']) == 2:
            self.call('advect', T.num(n), dt)
        else:
            for _ in range(n):
                self.call('advect', dt)
