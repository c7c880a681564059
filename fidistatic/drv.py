"""Benchmark programs, with the library objects they drive replaced by recording stand-ins.

The stand-ins keep the number of applications / time steps as terms, so what a program prints or
saves tells which state of the solver it refers to.
"""
import os
from . import term as T
from . import drive, upw
from .cxx import REPO, AnalysisBroken, unref, PathEnds, LRef, TRACE
from .drive import Session, item
from .values import *


class Prog:
    """one abstract run of main()"""

    def __init__(self, name, prog, solver=None, filt=None, opts=None):
        self.name, self.prog, self.opts = name, prog, dict(opts or {})
        s = self.s = Session(prog)
        I = s.I
        I.exitstates = []
        I.clsstubs['CmdLineArgParser'] = self.parser
        if solver:
            I.clsstubs[solver] = self.solver
        if filt:
            I.clsstubs[filt] = self.filter
        self.dtys = {}
        f = prog.find('main')
        self.where = drive.loc(f)
        argc = T.sym('argc', 'i', lo=1)
        a = T.fresh('a', 'i', lo=0)
        argv = Arr((argc,), (a,), T.mkapp('argv', (a,), 's'))
        args = [argc, Ptr(s.box(argv).root, (('i', T.ZERO),))][:len(f['params'])]
        self.value = None
        try:
            self.value = I.call(f, None, args, s.st)
            self.st = s.st
        except PathEnds:
            self.st = None
        self.ends = ([self.st] if self.st is not None else []) + list(I.exitstates)

    # -------------------------------------------------------------- stand-ins
    def parser(self, I, st, cls, m, this, args, n):
        if m in ('<ctor>',):
            if args:
                return NotImplemented
            I.event(st, 'parser')
            return VOID
        if m == '<dtor>' or m in ('setPurpose', 'addFootnote'):
            return VOID
        ld = [I.load(x, st) if isinstance(x, Ptr) else x for x in args]
        if m == 'set':
            f = self.prog.fns.get(n['mn'])
            ty = unref(f['params'][1]['ty']) if f else '?'
            I.event(st, 'opt_set', ty, ld[0], ld[1])
            return VOID
        if m == 'parse':
            I.event(st, 'parse', *ld)
            return T.sym('parse_ok', 'b')
        if m == 'get':
            nm = ld[0]
            if not (type(nm) is Term and nm.op == 'str'):
                raise Unsupported('option name is computed')
            ty = n['ty']
            I.event(st, 'opt_get', ty, nm)
            return self.opt(nm.args[0], ty)
        if m == 'help':
            I.event(st, 'help')
            return VOID
        raise Unsupported('parser method %s' % m)

    def opt(self, nm, ty):
        key = (nm, ty)
        if nm in self.opts and ty != 'bool':
            return self.opts[nm]
        if ty == 'bool':
            return T.sym('opt:' + nm, 'b')
        if ty == 'i32':
            return T.sym('opt:' + nm, 'i', lo=0)
        if ty == 'f64':
            return T.sym('opt:' + nm, 'r')
        if ty == 'string':
            return T.sym('opt:' + nm, 's')
        raise Unsupported('option type %s' % ty)

    def fget(self, I, st, this, nm):
        return I.load(Ptr(this.root, this.path + (nm,)), st, True)

    def fset(self, I, st, this, nm, v):
        I.store(Ptr(this.root, this.path + (nm,)), v, st, True)

    def solver(self, I, st, cls, m, this, args, n):
        ld = [I.load(x, st) if isinstance(x, Ptr) else x for x in args]
        if m == '<ctor>':
            if len(ld) != 3:
                return NotImplemented
            I.store(this, Obj(cls, {'steps': T.ZERO, 'time': T.num(0, 'r')}), st, True)
            I.event(st, 'construct', *ld)
            return VOID
        if m == '<dtor>':
            I.event(st, 'destroy')
            return VOID
        k, t = self.fget(I, st, this, 'steps'), self.fget(I, st, this, 'time')
        if m == 'advect':
            cnt, dt = (ld[0], ld[1]) if len(ld) == 2 else (T.ONE, ld[0])
            I.event(st, 'advect', cnt, dt)
            self.fset(I, st, this, 'steps', T.add(k, cnt))
            self.fset(I, st, this, 'time', T.add(t, T.mul(T.toreal(cnt), dt)))
            return VOID
        if m in ('checksum', 'std'):
            I.event(st, m, k)
            return T.mkapp(m, (k,), 'r')
        if m == 'saveVTK':
            I.event(st, 'save', ld[0], k)
            return VOID
        if m == 'print':
            I.event(st, 'print')
            return VOID
        raise Unsupported('solver method %s' % m)

    def filter(self, I, st, cls, m, this, args, n):
        ld = [I.load(x, st) if isinstance(x, Ptr) else x for x in args]
        if m == '<ctor>':
            if len(ld) != 4:
                return NotImplemented
            I.store(this, Obj(cls, {'nin': T.num(-100), 'nout': T.num(-100)}), st, True)
            I.event(st, 'construct', *ld)
            return VOID
        if m == '<dtor>':
            I.event(st, 'destroy')
            return VOID
        from .cxxlib import rank_of
        rank = rank_of(I)
        if m == 'getRank':
            return rank
        if m == 'getNumProcs':
            return I.nprocs
        if m == 'isDecompValid':
            return T.sym('decomp_valid', 'b')
        if m in ('setInData', 'setInDataByIndices'):
            I.event(st, 'init', m, ld[0])
            self.fset(I, st, this, 'nin', T.ZERO)
            return VOID
        if m == 'applyFilter':
            k = T.add(self.fget(I, st, this, 'nin'), T.ONE)
            I.event(st, 'apply', k)
            self.fset(I, st, this, 'nout', k)
            return VOID
        if m == 'copyOutToIn':
            k = self.fget(I, st, this, 'nout')
            I.event(st, 'copy', k)
            self.fset(I, st, this, 'nin', k)
            return VOID
        if m == 'computeCheckSum':
            if not (type(ld[0]) is Term and ld[0].op == 'str'):
                raise Unsupported('which check sum')
            which = ld[0].args[0]
            k = self.fget(I, st, this, 'nin' if which == 'input' else 'nout')
            I.event(st, 'checksum', ld[0], k)
            # only the root receives the reduced value
            return T.ite(T.eq(rank, T.ZERO), T.mkapp('checksum:' + which, (k,), 'r'), T.mkapp('nonroot', (rank,), 'r'))
        if m == 'saveVTK':
            I.event(st, 'save', ld[0], self.fget(I, st, this, 'nout'))
            return VOID
        if m.startswith('print'):
            I.event(st, 'print', m)
            return VOID
        raise Unsupported('filter method %s' % m)

    # -------------------------------------------------------------- results
    def trace(self, *pc, st=None):
        return simplified((st or self.st).store[TRACE].items, pc)

    def stream(self, nm, *pc, st=None):
        st = st or self.st
        for r, v in st.store.items():
            if r.name == nm and type(v) is Stream:
                return simplified(v.items, pc)
        return ()

    def events(self, *kinds, pc=(), st=None):
        return list(flat(self.trace(*pc, st=st), kinds))


def simplified(items, pc):
    if not pc:
        return items
    st = State({}, tuple(pc))
    st.assume(T.TRUE)
    return smap(items, st.simp)


def flat(items, kinds=(), conds=(), loops=()):
    """(item, conditions, enclosing repetitions) in order"""
    for it in items:
        if type(it) is Item:
            if not kinds or it.kind in kinds:
                yield it, conds, loops
        elif type(it) is Alt:
            yield from flat(it.a, kinds, conds + (it.c,), loops)
            yield from flat(it.b, kinds, conds + (T.lnot(it.c),), loops)
        elif type(it) is Rep:
            yield from flat(it.items, kinds, conds, loops + ((it.k, it.n),))


def count(items, kind, weight=None):
    """number of events of a kind on the whole run, as a term"""
    tot = T.ZERO
    for it in items:
        if type(it) is Item:
            if it.kind == kind:
                tot = T.add(tot, weight(it) if weight else T.ONE)
        elif type(it) is Alt:
            tot = T.add(tot, T.ite(it.c, count(it.a, kind, weight), count(it.b, kind, weight)))
        elif type(it) is Rep:
            tot = T.add(tot, T.tsum(it.k, T.ZERO, it.n, count(it.items, kind, weight)))
    return tot


_cache = {}
MPI_DRIVERS = {'upwindMpi': 'upwind/cxx/upwindMpi.cxx', 'laplacian': 'laplacian/cxx/laplacian.cxx'}
DRIVERS = upw.VARIANTS + tuple(MPI_DRIVERS)


def program(name):
    if name in MPI_DRIVERS:
        return drive.program(MPI_DRIVERS[name], 'cxx/CmdLineArgParser.cpp', *drive.LIB)
    return upw.program(name)


def load(name, opts=None):
    key = (name, tuple(sorted((opts or {}).items(), key=str)))
    if key not in _cache:
        p = program(name)
        if name in MPI_DRIVERS:
            _cache[key] = Prog(name, p, None, 'Filter', opts)
        else:
            sv = upw.solvers(p)
            if not sv:
                raise AnalysisBroken('no solver class in %s' % name)
            _cache[key] = Prog(name, p, sv[0][0], None, opts)
    return _cache[key]
