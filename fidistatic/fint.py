"""Abstract interpreter for the Fortran sources (nodes built by ftn.py)."""
import os
import re
from fractions import Fraction
from . import term as T
from .term import Term
from . import ftn
from .cxx import Interp, Frame, LRef, PathEnds, AnalysisBroken, REPO
from .values import (Vec, Arr, Obj, Ptr, NULL, Null, Choice, UndefV, VOID, Item, Alt, Rep, Stream, Root, Sub, Unsupported,
                     merge, merge_states, vmap, vec2arr, vlen, step_get, step_set, vequal)
from .loops import Outcome, run_loop


class FProgram:
    """units of one source file"""

    def __init__(self, rel, defs=('HAVE_OPENMP',)):
        self.rel, self.defs = rel, defs
        self.units = ftn.parse(rel, defs)
        self.path = rel if rel.startswith('/') else os.path.join(REPO, rel)
        self.fns, self.byq, self.records, self.paths = {}, {}, {}, [self.path]
        self.types, self.tmod = {}, {}
        for u in self.all():
            for nm, t in u.types.items():
                self.types[nm] = t
                self.tmod[nm] = u
            u.file = self.path
            self.fns[u.name] = self.fn(u)

    def fn(self, u):
        return {'q': u.name, 'file': self.path, 'ln': u.ln, 'retref': False, 'unit': u, 'ret': 'void'}

    def all(self):
        st = list(self.units.values())
        while st:
            u = st.pop(0)
            yield u
            st += list(u.procs.values())

    def main(self):
        for u in self.units.values():
            if u.kind == 'program':
                return u
        raise AnalysisBroken('no main program in %s' % self.rel)

    def proc(self, nm, scope=None):
        u = scope
        while u is not None:
            if nm in u.procs:
                return u.procs[nm]
            for m in u.uses:
                if m in self.units and nm in self.units[m].procs:
                    return self.units[m].procs[nm]
            u = u.host
        x = self.units.get(nm)
        if x is not None and x.kind in ('subroutine', 'function'):
            return x
        return None

    def bound(self, ty, nm):
        t = self.types.get(ty)
        if t is None or nm not in t['bound']:
            return None
        p, opts = t['bound'][nm]
        return self.proc(p, self.tmod[ty]), opts


class Sec:
    """array section: for every dimension a fixed position ('x', t) or a range ('r', start, count, stride), all from zero"""
    __slots__ = ('p', 'dims')

    def __init__(self, p, dims):
        self.p, self.dims = p, dims


def isarr(v):
    return type(v) in (Vec, Arr) or (type(v) is Choice and (isarr(v.a) or isarr(v.b)))


def shape(v):
    if type(v) is Vec:
        return (T.num(len(v.items)),)
    if type(v) is Arr:
        return v.shape
    raise Unsupported('shape of %s' % type(v).__name__)


def toarr(v):
    if type(v) is Choice:
        a, b = toarr(v.a), toarr(v.b)
        return merge(v.c, a, b)
    return vec2arr(v) if type(v) is Vec else v


def undefcopy(v, origin):
    if type(v) is Term:
        return T.undef(origin, v.sort)
    if type(v) is Vec:
        return Vec(undefcopy(x, '%s(%d)' % (origin, i + 1)) for i, x in enumerate(v.items))
    if type(v) is Arr:
        return Arr(v.shape, v.ks, undefcopy(v.body, origin))
    if type(v) is Obj:
        return Obj(v.cls, {k: (x if isinstance(x, (Ptr, Null)) else undefcopy(x, '%s%%%s' % (origin, k))) for k, x in v.f.items()})
    if type(v) is Choice:
        return merge(v.c, undefcopy(v.a, origin), undefcopy(v.b, origin))
    return v


class FInterp(Interp):
    def __init__(self, prog, precise=False):
        Interp.__init__(self, prog, precise)
        self.exitstates = []
        self.allocs = []          # (what, name, condition, pc, where): allocation typestate violations
        self.conform = []         # (shape, shape, pc, where)
        self.heaps = []           # roots of allocated pointer targets
        self.lower = {}
        self.statics = {}
        self.files = {}
        self.labels = []
        self.args = None          # command line: list of terms ('s'), [0] the program
        self.argint = {}          # string term -> integer term it stands for
        self.nopen = 0

    # -------------------------------------------------------------- types
    def kind(self, ty, st):
        if ty['kind'] is None:
            return None
        v = self.rv(ty['kind'], st)
        return int(v.args[0]) if T.is_num(v) else None

    def scalar_ty(self, ty, st):
        b = ty['base']
        if b == 'integer':
            return 'i64' if self.kind(ty, st) == 8 else 'i32'
        if b == 'real':
            k = self.kind(ty, st)
            return 'f32' if k in (None, 4) else 'f64'
        if b == 'logical':
            return 'bool'
        if b == 'character':
            return 'string'
        if b in ('type', 'class'):
            return 'T:' + ty['cls']
        raise Unsupported('type %s' % b)

    def zeroval(self, ty, origin, st):
        if ty.startswith('T:'):
            t = self.prog.types.get(ty[2:])
            if t is None:
                raise Unsupported('type %s' % ty)
            f = {}
            self.frames.append(Frame(self.prog.fn(self.prog.tmod[ty[2:]])))
            try:
                for d in t['fields']:
                    f[d['n']] = self.entity(d, '%s%%%s' % (origin, d['n']), st, comp=True)
            finally:
                self.frames.pop()
            return Obj(ty[2:], f)
        if ty == 'string':
            return T.undef(origin, 's')
        return T.undef(origin, 'b' if ty == 'bool' else 'r' if ty[0] == 'f' else 'i')

    def entity(self, d, origin, st, comp=False):
        """initial value of a declared entity"""
        at = d['attrs']
        ty = self.scalar_ty(d['ty'], st)
        if at.get('allocatable'):
            return NULL
        if at.get('pointer'):
            return NULL if d['init'] is not None else UndefV(origin, 'pointer')
        if d['dims'] is None:
            return self.convert_to(self.rv(d['init'], st), ty) if d['init'] is not None else self.zeroval(ty, origin, st)
        ext, low = [], []
        for x in d['dims']:
            if x['k'] == 'range':
                if x['hi'] is None:
                    raise Unsupported('shape of %s' % d['n'])
                lo = self.rv(x['lo'], st) if x['lo'] else T.ONE
                hi = self.rv(x['hi'], st)
                ext.append(T.tmax(T.ZERO, T.add(T.sub(hi, lo), T.ONE)))
                low.append(lo)
            elif x['k'] == 'star':
                raise Unsupported('assumed size array %s' % d['n'])
            else:
                ext.append(self.extent(self.rv(x, st)))
                low.append(T.ONE)
        if d['init'] is not None:
            v = self.rv(d['init'], st)
            if not isarr(v):
                v = self.filled(ext, self.convert_to(v, ty))
            return v
        v = self.newarray(ext, ty, origin, st)
        self._low = low if any(x is not T.ONE for x in low) else None
        return v

    def extent(self, n):
        return n if T.nonneg(n) else T.tmax(T.ZERO, n)

    def newarray(self, ext, ty, origin, st):
        if len(ext) == 1 and T.is_num(ext[0]) and 0 < ext[0].args[0] <= 64:
            return Vec(self.zeroval(ty, '%s(%d)' % (origin, i + 1), st) for i in range(int(ext[0].args[0])))
        ks = [T.fresh('j', lo=0, ub=n) for n in ext]
        return Arr(ext, ks, self.zeroval(ty, origin + '()', st))

    def filled(self, ext, x):
        if len(ext) == 1 and T.is_num(ext[0]) and 0 < ext[0].args[0] <= 64:
            return Vec([x] * int(ext[0].args[0]))
        return Arr(ext, [T.fresh('j', lo=0, ub=n) for n in ext], x)

    def private_value(self, v, p, st):
        return undefcopy(st.store[p.root], v['n'] + ' (private)')

    def default(self, ty, origin='?', zero=False, st=None):
        if ty.startswith('T:'):
            return self.zeroval(ty, origin, st)
        return Interp.default(self, ty, origin, zero, st)

    def needs_dtor(self, cls):
        return False

    # -------------------------------------------------------------- variables
    def unit(self):
        return self.frames[-1].fn.get('unit')

    def lookup(self, nm, st):
        """location of a name, or None"""
        fr = self.frames[-1]
        p = fr.env.get(nm)
        if p is not None:
            return p
        u = fr.fn.get('unit')
        while u is not None:
            for f in reversed(self.frames):
                if f.fn.get('unit') is u and nm in f.env:
                    return f.env[nm]
            d = u.decls.get(nm)
            if d is not None and (u.kind == 'module' or d['attrs'].get('parameter')):
                return self.static(u, d, st)
            for m in u.uses:
                mu = self.prog.units.get(m)
                if mu is not None and nm in mu.decls:
                    return self.static(mu, mu.decls[nm], st)
            u = u.host
        return None

    def static(self, u, d, st):
        key = (u.name, d['n'])
        p = self.statics.get(key)
        if p is None:
            p = self.statics[key] = Ptr(Root(d['n'], 'static'))
        if p.root not in st.store:
            fr = Frame(self.prog.fn(u))
            self.frames.append(fr)
            try:
                self._low = None
                st.store[p.root] = self.entity(d, d['n'], st)
                if self._low:
                    self.lower[(p.root, ())] = self._low
            finally:
                self.frames.pop()
        return p

    def is_static(self, d):
        return d['attrs'].get('save') or (d['init'] is not None and not d['attrs'].get('parameter'))

    # -------------------------------------------------------------- pointers and allocation status
    def badalloc(self, what, name, cond, st):
        if not self.quiet:
            self.allocs.append((what, name, cond, st.pc, tuple(self.loopctx), self.where()))

    def through(self, p, st, name, what='use'):
        """location of the data of an entity: pointers are followed, allocation is required"""
        for _ in range(8):
            if type(p) is Choice:
                c = st.simp(p.c)
                if c is T.TRUE:
                    p = p.a
                    continue
                if c is T.FALSE:
                    p = p.b
                    continue
                raise Unsupported('%s has several targets at %s' % (name, self.where()))
            v = self.load(p, st, True)
            if type(v) is Choice:
                v = st.vsimp(v)
            if type(v) is Ptr:
                p = v
                continue
            if type(v) is Null or (type(v) is UndefV and v.ty in ('pointer', 'freed')):
                self.badalloc('%s of %s, which is %s' % (what, name, status(v)), name, T.TRUE, st)
                raise Unsupported('%s is %s at %s' % (name, status(v), self.where()))
            if type(v) is Choice:
                c = dead(v)
                if c is not T.FALSE:
                    self.badalloc('%s of %s, which may not be allocated' % (what, name), name, c, st)
                    w = live(v)
                    if w is None:
                        raise Unsupported('%s is not allocated at %s' % (name, self.where()))
                    if type(w) is Ptr:
                        p = w
                        continue
                    st.store[p.root] = step_set(st.store[p.root], p.path, w)
            return p
        raise Unsupported('pointer chain')

    # -------------------------------------------------------------- designators
    def dsg(self, n, st, raw=False):
        """LRef / Sec / value of a designator; raw: the entity itself, pointers not followed"""
        parts = n['parts']
        nm, args = parts[0]
        p = self.lookup(nm, st)
        if p is None:
            if len(parts) > 1:
                raise Unsupported('components of a function result at %s' % self.where())
            return self.funcref(nm, args or [], n, st)
        last = len(parts) == 1
        cur = p
        cur = self.part(cur, nm, args, st, raw and last, n)
        for q, (nm, args) in enumerate(parts[1:], 1):
            last = q == len(parts) - 1
            if not isinstance(cur, LRef):
                raise Unsupported('component of an array at %s' % self.where())
            v = self.load(cur.p, st, True)
            if type(v) is not Obj:
                raise Unsupported('component %s of %s at %s' % (nm, type(v).__name__, self.where()))
            if nm in v.f:
                if type(cur.p) is not Ptr:
                    raise Unsupported('component through several targets')
                if type(v.f[nm]) is Ptr and self.omp:
                    self.curnode = n
                    self.note('r', Ptr(cur.p.root, cur.p.path + (nm,)), None, None, None, st)
                cur = self.part(Ptr(cur.p.root, cur.p.path + (nm,)), n['parts'][q][0], args, st, raw and last, n)
                continue
            b = self.prog.bound(v.cls, nm)
            if b is None:
                raise Unsupported('component %s of %s at %s' % (nm, v.cls, self.where()))
            proc, opts = b
            if not last:
                raise Unsupported('component of a function result')
            self.curnode = n
            return self.callproc(proc, args or [], st, None if 'nopass' in opts else cur.p)
        return cur

    def part(self, p, nm, args, st, raw, n):
        if raw:
            return LRef(p)
        q = self.through(p, st, nm)
        self.curnode = n
        if args is None:
            return LRef(q)
        v = self.load(q, st, True)
        if type(v) is Term and v.sort == 's':
            a = args[0]
            if a['k'] != 'range':
                raise Unsupported('substring')
            lo = self.rv(a['lo'], st) if a['lo'] else T.ONE
            hi = self.rv(a['hi'], st) if a['hi'] else vlen(v)
            if v.op == 'str' and T.is_num(lo) and T.is_num(hi):
                return T.string(v.args[0][int(lo.args[0]) - 1:int(hi.args[0])])
            return T.mkapp('substr', (v, lo, hi), 's')
        return self.index(q, v, args, st)

    def low(self, q, rank):
        return self.lower.get((q.root, q.path)) or [T.ONE] * rank

    def index(self, q, v, args, st):
        if not isarr(v):
            raise Unsupported('subscript of %s at %s' % (type(v).__name__, self.where()))
        rank = 1 if type(v) in (Vec, Choice) else len(v.ks)
        if len(args) != rank:
            raise Unsupported('%d subscripts for rank %d at %s' % (len(args), rank, self.where()))
        low = self.low(q, rank)
        ext = shape(v) if type(v) is not Choice else (vlen(v),)
        dims, section = [], False
        for a, lo, m in zip(args, low, ext):
            if a['k'] == 'range':
                section = True
                s = self.rv(a['st'], st) if a.get('st') else T.ONE
                first = T.sub(self.rv(a['lo'], st), lo) if a['lo'] else (T.ZERO if not neg(s) else T.sub(m, T.ONE))
                last = T.sub(self.rv(a['hi'], st), lo) if a['hi'] else (T.sub(m, T.ONE) if not neg(s) else T.ZERO)
                if s is T.ONE:
                    cnt = T.add(T.sub(last, first), T.ONE)
                else:
                    cnt = T.add(T.fdiv(T.sub(last, first), s), T.ONE)
                dims.append(('r', first, self.extent(cnt), s))
                continue
            x = self.rv(a, st)
            if isarr(x):
                section = True
                dims.append(('v', x, lo))
                continue
            dims.append(('x', T.sub(x, lo)))
        if not section:
            return LRef(Ptr(q.root, q.path + (('i',) + tuple(d[1] for d in dims),)))
        return Sec(q, dims)

    def section(self, s, st):
        """value of an array section"""
        v = self.load(s.p, st)
        ks, shp, idx, pos = [], [], [], []
        for d in s.dims:
            if d[0] == 'x':
                idx.append(d[1])
                pos.append((d[1], d[1]))
            elif d[0] == 'r':
                k = T.fresh('j', lo=0, ub=d[2])
                ks.append(k)
                shp.append(d[2])
                idx.append(T.add(d[1], T.mul(k, d[3])))
            else:
                w = d[1]
                n = vlen(w)
                k = T.fresh('j', lo=0, ub=n)
                ks.append(k)
                shp.append(n)
                idx.append(T.sub(step_get(w, ('i', k)), d[2]))
        ctx = [c for c in ks]
        # element accesses at a generic position
        self.elemnote('r', s.p, v, idx, ks, shp, st)
        if len(ks) == 1 and T.is_num(shp[0]) and 0 < shp[0].args[0] <= 64:
            return Vec(step_get(v, ('i',) + tuple(T.subst(i, {ks[0]: T.num(q)}) for i in idx)) for q in range(int(shp[0].args[0])))
        return Arr(shp, ks, step_get(v, ('i',) + tuple(idx)))

    def elemnote(self, rw, p, v, idx, ks, shp, st):
        if self.quiet:
            return
        for k, n in zip(ks, shp):
            self.loopctx.append({'k': k, 'n': n, 'info': {'omp': None, 'node': self.curnode, 'where': self.where(), 'depth': len(self.omp), 'mark': 0}, 'closed': {}})
        st2 = st.copy().assume(T.land(*[T.lt(T.ZERO, n) for n in shp]))
        self.note(rw, Ptr(p.root, p.path + (('i',) + tuple(idx),)), len(p.path), v, ('i',) + tuple(idx), st2)
        for _ in ks:
            self.loopctx.pop()

    def e_dsg(self, n, st):
        r = self.dsg(n, st)
        if type(r) is Sec:
            return self.section(r, st)
        return r

    def rv(self, n, st):
        v = self.ex(n, st)
        if type(v) is LRef:
            v = self.load(v.p, st)
            if n['k'] == 'dsg' and not self.quiet:
                if type(v) is Term and any(x.op == 'undef' for x in T.syms_of(v)):
                    self.undefs.append((v, st.pc, tuple(self.loopctx), self.where()))
        return v

    # -------------------------------------------------------------- expressions
    def e_fnum(self, n, st):
        return T.num(n['v'], 'r')

    def e_fparen(self, n, st):
        return self.rv(n['e'], st)

    def e_acons(self, n, st):
        items = []
        for x in n['items']:
            v = self.implied(x, st, True) if x['k'] == 'implied' else self.rv(x, st)
            if type(v) is Vec:
                items += list(v.items)
            elif isarr(v):
                if len(n['items']) > 1:
                    raise Unsupported('array constructor from an array at %s' % self.where())
                return v
            else:
                items.append(v)
        if any(type(x) is Term and x.sort == 'r' for x in items):
            items = [T.toreal(x) for x in items]
        return Vec(items)

    def implied(self, n, st, own=False):
        """values of an implied do: a Vec, or an Arr where the number of repetitions is not a constant"""
        lo, hi = self.rv(n['lo'], st), self.rv(n['hi'], st)
        step = self.rv(n['st'], st) if n['st'] else T.ONE
        if not (T.is_num(step) and step.args[0] in (1, -1)):
            raise Unsupported('implied do at %s' % self.where())
        cnt = T.add(T.mul(step, T.sub(hi, lo)), T.ONE)
        fr = self.frames[-1]
        old = fr.env.get(n['var'])
        q = fr.env[n['var']] = self.alloc(st, n['var'], lo, 'i32')
        try:
            if T.is_num(cnt) and cnt.args[0] <= 64:
                out = []
                for i in range(int(cnt.args[0])):
                    self.store(q, T.add(lo, T.mul(step, T.num(i))), st, True)
                    for x in n['items']:
                        v = self.implied(x, st) if x['k'] == 'implied' else self.rv(x, st)
                        if isarr(v) and type(v) is not Vec:
                            raise Unsupported('implied do over an array at %s' % self.where())
                        out += v.items if type(v) is Vec else [v]
                return Vec(out)
            if len(n['items']) != 1 or n['items'][0]['k'] == 'implied':
                raise Unsupported('implied do of several values at %s' % self.where())
            cnt = T.tmax(T.ZERO, cnt)
            k = T.fresh('j', lo=0, ub=cnt)
            self.store(q, T.add(lo, T.mul(step, k)), st, True)
            self.loopctx.append({'k': k, 'n': cnt, 'info': {'omp': None, 'node': self.curnode, 'where': self.where(), 'depth': len(self.omp), 'mark': 0}, 'closed': {}})
            try:
                v = self.rv(n['items'][0], st)
            finally:
                self.loopctx.pop()
            if isarr(v):
                raise Unsupported('implied do over arrays at %s' % self.where())
            return Arr([cnt], [k], v)
        finally:
            if old is not None:
                fr.env[n['var']] = old
                if not own:
                    self.store(old, T.add(lo, T.mul(step, T.tmax(T.ZERO, cnt))), st, True)
            else:
                del fr.env[n['var']]

    def elem(self, f, *vs):
        """elementwise application"""
        if not any(isarr(v) for v in vs):
            return f(*vs)
        vs = [live(v) if type(v) is Choice and isarr(v) and live(v) is not None and dead(v) is not T.FALSE else v for v in vs]
        arrs = [v for v in vs if isarr(v)]
        if all(type(v) is Vec for v in arrs):
            n = len(arrs[0].items)
            if any(len(v.items) != n for v in arrs):
                self.mismatch(arrs)
                n = min(len(v.items) for v in arrs)
            return Vec(f(*[v.items[i] if type(v) is Vec else v for v in vs]) for i in range(n))
        arrs = [toarr(v) for v in arrs]
        if any(type(a) is not Arr for a in arrs):
            raise Unsupported('array expression on one of several arrays at %s' % self.where())
        self.mismatch(arrs)
        ks, shp = arrs[0].ks, arrs[0].shape
        ks2 = [T.fresh('j', lo=0, ub=n) for n in shp]
        out = []
        for v in vs:
            if isarr(v):
                a = toarr(v)
                if len(a.ks) != len(ks2):
                    raise Unsupported('arrays of different rank at %s' % self.where())
                out.append(Sub(dict(zip(a.ks, ks2))).v(a.body))
            else:
                out.append(v)
        return Arr(shp, ks2, f(*out))

    def mismatch(self, arrs):
        s0 = shape(arrs[0])
        for a in arrs[1:]:
            s = shape(a)
            if len(s) != len(s0) or any(x is not y for x, y in zip(s, s0)):
                if not self.quiet:
                    self.conform.append((s0, s, None, self.where()))

    def e_fun(self, n, st):
        v = self.rv(n['e'], st)
        if n['op'] == '-':
            return self.elem(T.neg, v)
        if n['op'] == '.not.':
            return self.elem(T.lnot, v)
        return v

    def e_fbin(self, n, st):
        a, b = self.rv(n['l'], st), self.rv(n['r'], st)
        self.curnode = n
        return self.elem(lambda x, y: self.op(n['op'], x, y, st), a, b)

    def op(self, op, a, b, st):
        if type(a) is UndefV or type(b) is UndefV:
            raise Unsupported('operand without value at %s' % self.where())
        if op in ('.and.', '.or.', '.eqv.', '.neqv.'):
            a, b = self.tobool(a), self.tobool(b)
            return T.land(a, b) if op == '.and.' else T.lor(a, b) if op == '.or.' else \
                T.lor(T.land(a, b), T.land(T.lnot(a), T.lnot(b))) if op == '.eqv.' else T.lor(T.land(a, T.lnot(b)), T.land(T.lnot(a), b))
        if op in ('==', '/=', '<', '<=', '>', '>='):
            if a.sort == 's' or b.sort == 's':
                a, b = rstrip(a), rstrip(b)
                if a.op == 'undef' or b.op == 'undef':
                    return T.undef('comparison', 'b')
            if a.sort == 'r' or b.sort == 'r':
                a, b = T.toreal(a), T.toreal(b)
            return self.compare('!=' if op == '/=' else op, a, b, 'f64' if a.sort == 'r' else 'i32', st)
        if op == '//':
            if a.op == 'str' and b.op == 'str':
                return T.string(a.args[0] + b.args[0])
            return T.mkapp('concat', (a, b), 's')
        if op == '**':
            if T.is_num(b) and b.sort == 'i' and 0 <= b.args[0] <= 16:
                r = T.num(1, a.sort)
                for _ in range(int(b.args[0])):
                    r = T.mul(r, a)
                return r
            if T.is_num(b) and b.args[0] == Fraction(1, 2):
                return T.mkapp('sqrt', (T.toreal(a),), 'r')
            raise Unsupported('power at %s' % self.where())
        ty = 'f64' if a.sort == 'r' or b.sort == 'r' else 'i32'
        return self.arith(op, a, b, ty, st)

    # -------------------------------------------------------------- conversion on assignment
    def convert_to(self, v, ty):
        if type(v) is Choice:
            return merge(v.c, self.convert_to(v.a, ty), self.convert_to(v.b, ty))
        if isarr(v):
            return self.elem(lambda x: self.convert_to(x, ty), v)
        if type(v) is not Term:
            return v
        if ty == 'f64':
            return T.toreal(v) if v.sort != 's' else v
        if ty == 'f32':
            return T.single(T.toreal(v))
        if ty in ('i32', 'i64'):
            return self.trunc(v) if v.sort == 'r' else v
        return v

    def target_ty(self, v):
        """type the stored value is converted to, from what is there"""
        if type(v) is Term:
            return {'i': 'i32', 'r': 'f64', 'b': 'bool', 's': 'string'}[v.sort]
        if type(v) is Vec:
            return self.target_ty(v.items[0]) if v.items else None
        if type(v) is Arr:
            return self.target_ty(v.body)
        if type(v) is Choice:
            return self.target_ty(v.a) or self.target_ty(v.b)
        return None

    def decl_of(self, n, st):
        """declaration behind a designator"""
        nm = n['parts'][0][0]
        u = self.unit()
        d = None
        if nm in self.frames[-1].assoc:
            d = self.frames[-1].assoc[nm]
            u = None
        while u is not None and d is None:
            d = u.decls.get(nm)
            if d is None:
                for m in u.uses:
                    mu = self.prog.units.get(m)
                    if mu is not None and nm in mu.decls:
                        d = mu.decls[nm]
            u = u.host
        for nm, _ in n['parts'][1:]:
            if d is None:
                return None
            t = self.prog.types.get(d['ty'].get('cls'))
            if t is None:
                return None
            d = next((x for x in t['fields'] if x['n'] == nm), None)
        return d

    def s_fassign(self, n, st):
        try:
            r = self.rv(n['r'], st)
            self.curnode = n
            self.assign(n['l'], r, st)
        except PathEnds as e:
            o = Outcome(None)
            o.exit = list(e.states)
            return o
        return Outcome(st)

    def assign(self, l, r, st):
        d = self.decl_of(l, st)
        ty = self.scalar_ty(d['ty'], st) if d else None
        if ty and not ty.startswith('T:'):
            r = self.convert_to(r, ty)
        allocatable = bool(d and d['attrs'].get('allocatable')) and l['parts'][-1][1] is None
        if allocatable:
            p = self.dsg(l, st, raw=True).p
            old = self.load(p, st, True)
            if type(old) is Choice:
                old = st.vsimp(old)
            if type(old) is Null:
                if not isarr(r):
                    self.badalloc('assignment of a scalar to %s, which is not allocated' % l['n'], l['n'], T.TRUE, st)
                    raise Unsupported('%s is not allocated' % l['n'])
                self.store(p, r, st)
                return
            if isarr(r) and isarr(old):
                if type(old) is Arr and type(r) is Vec:
                    r = vec2arr(r)
                self.store(p, r, st)
                return
            t = LRef(self.through(p, st, l['n'], 'assignment'))
        else:
            t = self.dsg(l, st)
        self.curnode = l
        if type(t) is Sec:
            return self.secstore(t, r, st)
        if type(t) is not LRef:
            raise Unsupported('assignment to a function result at %s' % self.where())
        old = self.load(t.p, st, True)
        if isarr(old):
            if isarr(r):
                self.mismatch([old, r]) if type(old) is not Choice else None
                if type(old) is Vec and type(r) is Arr:
                    r = Vec(step_get(r, ('i', T.num(i))) for i in range(len(old.items)))
                elif type(old) is Arr and type(r) is Vec:
                    r = vec2arr(r)
                elif type(old) is Vec and len(r.items) != len(old.items):
                    r = Vec(r.items[i] if i < len(r.items) else x for i, x in enumerate(old.items))
                if type(old) is Arr and type(r) is Arr:
                    r = Arr(old.shape, r.ks, r.body)
                self.store(t.p, r, st)
            else:
                self.store(t.p, self.fill_like(old, r), st)
            return
        if isarr(r):
            raise Unsupported('array assigned to a scalar at %s' % self.where())
        self.store(t.p, r, st)

    def fill_like(self, old, x):
        if type(old) is Vec:
            return Vec([x] * len(old.items))
        if type(old) is Arr:
            return Arr(old.shape, old.ks, x)
        if type(old) is Choice:
            return merge(old.c, self.fill_like(old.a, x), self.fill_like(old.b, x))
        raise Unsupported('fill')

    def secstore(self, s, r, st):
        v = self.load(s.p, st, True)
        rank = len(s.dims)
        if all(d[0] in 'xr' and all(T.is_num(x) for x in d[1:]) for d in s.dims) and type(v) is Vec:
            d = s.dims[0]
            items = list(v.items)
            for q in range(int(d[2].args[0])):
                i = int(d[1].args[0] + q * d[3].args[0])
                self.note('w', Ptr(s.p.root, s.p.path + (('i', T.num(i)),)), len(s.p.path), v, ('i', T.num(i)), st)
                if 0 <= i < len(items):
                    items[i] = step_get(r, ('i', T.num(q))) if isarr(r) else r
            self.store(s.p, Vec(items), st, True)
            return
        v = toarr(v)
        if type(v) is not Arr:
            raise Unsupported('section of one of several arrays')
        conds, ridx, ks, shp, idx = [], [], [], [], []
        for d, k in zip(s.dims, v.ks):
            if d[0] == 'x':
                conds.append(T.eq(k, d[1]))
                idx.append(d[1])
            elif d[0] == 'r':
                if d[3] is not T.ONE:
                    raise Unsupported('strided section store at %s' % self.where())
                conds += [T.le(d[1], k), T.lt(k, T.add(d[1], d[2]))]
                ridx.append(T.sub(k, d[1]))
                kk = T.fresh('j', lo=0, ub=d[2])
                ks.append(kk)
                shp.append(d[2])
                idx.append(T.add(d[1], kk))
            else:
                raise Unsupported('vector subscript store at %s' % self.where())
        self.elemnote('w', s.p, v, idx, ks, shp, st)
        x = r
        if isarr(r):
            if not self.quiet and any(a is not b for a, b in zip(shape(r), shp)):
                self.conform.append((tuple(shp), shape(r), None, self.where()))
            x = step_get(toarr(r), ('i',) + tuple(ridx))
        self.store(s.p, Arr(v.shape, v.ks, merge(T.land(*conds), x, v.body)), st, True)

    def s_fptr(self, n, st):
        r = self.dsg(n['r'], st, raw=True) if n['r']['k'] == 'dsg' else None
        self.curnode = n
        l = self.dsg(n['l'], st, raw=True)
        if n['r']['k'] == 'dsg' and n['r']['n'] == 'null' and type(r) is not LRef:
            self.store(l.p, NULL, st)
            return Outcome(st)
        if type(r) is not LRef:
            raise Unsupported('pointer assignment at %s' % self.where())
        v = self.load(r.p, st, True)
        if type(v) in (Ptr, Null, Choice) or (type(v) is UndefV):
            x = v
            if type(v) is UndefV and not self.quiet:
                self.undefs.append((T.undef(v.origin), st.pc, tuple(self.loopctx), self.where()))
        else:
            x = r.p
        self.store(l.p, x, st)
        return Outcome(st)

    # -------------------------------------------------------------- allocation
    def s_fallocate(self, n, st):
        src = None
        for a in n['args']:
            if a['k'] == 'kwarg' and a['n'] in ('source', 'mold'):
                src = (a['n'], self.rv(a['e'], st))
        for a in n['args']:
            if a['k'] == 'kwarg':
                if a['n'] == 'stat':
                    self.store(self.dsg(a['e'], st).p, T.ZERO, st)
                continue
            d = self.decl_of(a, st)
            nm, dims = a['parts'][-1]
            bare = dict(a, parts=a['parts'][:-1] + [(nm, None)])
            p = self.dsg(bare, st, raw=True).p
            self.curnode = n
            ext, low = [], []
            for x in dims or []:
                if x['k'] == 'range':
                    lo, hi = self.rv(x['lo'], st), self.rv(x['hi'], st)
                    ext.append(self.extent(T.add(T.sub(hi, lo), T.ONE)))
                    low.append(lo)
                else:
                    ext.append(self.extent(self.rv(x, st)))
                    low.append(T.ONE)
            ty = self.scalar_ty(d['ty'], st)
            if not dims and src is not None:
                v = src[1] if src[0] == 'source' else undefcopy(src[1], nm)
            elif ext:
                v = self.newarray(ext, ty, nm, st)
                if src is not None and src[0] == 'source':
                    v = self.fill_like(v, src[1]) if not isarr(src[1]) else src[1]
            else:
                v = self.zeroval(ty, nm, st)
            old = self.load(p, st, True)
            if type(old) is Choice:
                old = st.vsimp(old)
            if d['attrs'].get('pointer'):
                r = Root('target of ' + nm, ty)
                r.shared = 'heap'
                st.store[r] = v
                if not self.quiet:
                    self.heaps.append((r, nm, self.where()))
                q = Ptr(r)
                self.store(p, q, st, True)
                if any(x is not T.ONE for x in low):
                    self.lower[(r, ())] = low
            else:
                c = alive(old)
                if c is not T.FALSE:
                    self.badalloc('allocation of %s, which is already allocated' % nm, nm, c, st)
                self.store(p, v, st, True)
                if any(x is not T.ONE for x in low):
                    self.lower[(p.root, p.path)] = low
                else:
                    self.lower.pop((p.root, p.path), None)
            self.event(st, 'allocate', nm)
        return Outcome(st)

    def s_fdeallocate(self, n, st):
        for a in n['args']:
            if a['k'] == 'kwarg':
                if a['n'] == 'stat':
                    self.store(self.dsg(a['e'], st).p, T.ZERO, st)
                continue
            d = self.decl_of(a, st)
            p = self.dsg(a, st, raw=True).p
            self.curnode = n
            nm = a['n']
            old = self.load(p, st, True)
            if type(old) is Choice:
                old = st.vsimp(old)
            if d['attrs'].get('pointer'):
                if type(old) is Ptr:
                    tv = st.store.get(old.root)
                    c = dead(tv)
                    if old.path or old.root.shared != 'heap':
                        self.badalloc('deallocation of %s, which was not allocated through a pointer' % nm, nm, T.TRUE, st)
                    elif c is not T.FALSE:
                        self.badalloc('deallocation of %s, whose target has been deallocated' % nm, nm, c, st)
                    st.store[old.root] = UndefV('deallocated target of ' + nm, 'freed')
                else:
                    c = dead(old)
                    self.badalloc('deallocation of %s, which is %s' % (nm, status(old)), nm, T.TRUE if c is T.FALSE else c, st)
                    if type(old) is Choice:
                        raise Unsupported('deallocation of one of several targets at %s' % self.where())
                self.store(p, NULL, st, True)
            else:
                c = dead(old)
                if c is not T.FALSE:
                    self.badalloc('deallocation of %s, which is not allocated' % nm, nm, c, st)
                self.store(p, NULL, st, True)
            self.event(st, 'deallocate', nm)
        return Outcome(st)

    def s_fnullify(self, n, st):
        for a in n['args']:
            self.store(self.dsg(a, st, raw=True).p, NULL, st, True)
        return Outcome(st)

    # -------------------------------------------------------------- procedures
    def s_fcall(self, n, st):
        d = n['d']
        try:
            if len(d['parts']) > 1:
                self.dsg(d, st)
            else:
                nm, args = d['parts'][0]
                u = self.prog.proc(nm, self.unit())
                self.curnode = n
                if u is not None:
                    self.callproc(u, args or [], st)
                else:
                    self.intrinsic_sub(nm, args or [], st)
        except PathEnds as e:
            o = Outcome(None)
            o.exit = list(e.states)
            return o
        return Outcome(st)

    def callproc(self, u, args, st, this=None, values=None):
        """call of a procedure of the program; args are nodes (or values: locations / values given directly)"""
        if len(self.frames) > 60:
            raise Unsupported('call depth')
        if u is None:
            raise Unsupported('unknown procedure at %s' % self.where())
        stub = self.stubs.get(u.name)
        self.visited[u.name] = self.prog.path
        fn = self.prog.fn(u)
        fr = Frame(fn)
        back = []
        dummies = list(u.args)
        actual = []
        if this is not None:
            actual.append((dummies[0], ('p', this)))
            dummies = dummies[1:]
        if values is not None:
            actual += list(zip(dummies, values))
        else:
            for q, a in enumerate(args):
                if a['k'] == 'kwarg':
                    nm, a = a['n'], a['e']
                else:
                    if q >= len(dummies):
                        raise Unsupported('too many arguments at %s' % self.where())
                    nm = dummies[q]
                d = u.decls.get(nm)
                if d is None:
                    raise Unsupported('dummy argument %s of %s' % (nm, u.name))
                at = d['attrs']
                if a['k'] == 'dsg' and (self.lookup(a['parts'][0][0], st) is not None):
                    raw = at.get('allocatable') or at.get('pointer')
                    r = self.dsg(a, st, raw=bool(raw))
                    if type(r) is Sec:
                        v = self.section(r, st)
                        p = self.alloc(st, nm, v)
                        if at.get('intent') != 'in':
                            back.append((r, p))
                        actual.append((nm, ('p', p)))
                        continue
                    if type(r) is LRef:
                        if d['dims'] is not None and not raw:
                            v = self.load(r.p, st, True)
                            if type(v) is Term:
                                raise Unsupported('sequence association at %s' % self.where())
                        elif at.get('intent') == 'in' and not raw and d['dims'] is None:
                            # the value is needed
                            v = self.load(r.p, st)
                            if type(v) is Term and not self.quiet and any(x.op == 'undef' for x in T.syms_of(v)):
                                self.undefs.append((v, st.pc, tuple(self.loopctx), self.where()))
                        actual.append((nm, ('p', r.p)))
                        continue
                    actual.append((nm, ('v', r)))
                    continue
                actual.append((nm, ('v', self.rv(a, st))))
        if stub is not None:
            return stub(self, st, u, [x for _, x in actual])
        for nm, (how, x) in actual:
            d = u.decls.get(nm)
            at = d['attrs'] if d else {}
            if how == 'p' and not at.get('value'):
                fr.env[nm] = x
                if at.get('intent') == 'out':
                    v = self.load(x, st, True)
                    if at.get('allocatable'):
                        self.store(x, NULL, st, True)
                    elif at.get('pointer'):
                        self.store(x, UndefV(nm, 'pointer'), st, True)
                    else:
                        v2 = undefcopy(v, nm)
                        if type(v) is Obj:
                            v2 = Obj(v.cls, {k: (NULL if type(v.f[k]) in (Vec, Arr, Null, Choice) else y) for k, y in v2.f.items()})
                        self.store(x, v2, st, True)
            else:
                if how == 'p':
                    x = self.load(x, st)
                ty = self.scalar_ty(d['ty'], st) if d else None
                fr.env[nm] = self.alloc(st, nm, x, ty)
        self.frames.append(fr)
        try:
            self.locals(u, fr, st)
            body = u.body
            if u.name not in self.visited:
                pass
        finally:
            self.frames.pop()
        saved = self.curnode
        labels, self.labels = self.labels, []
        try:
            self.run_body(fr, body, st, False)
        finally:
            self.labels = labels
        self.curnode = saved
        for r, p in back:
            self.secstore(r, self.load(p, st, True), st)
        if u.result is not None:
            v = self.load(fr.env[u.result], st, True)
            if not self.quiet and type(v) is Term and any(x.op == 'undef' for x in T.syms_of(v)):
                self.undefs.append((v, st.pc, tuple(self.loopctx), self.where()))
            return v
        return VOID

    def locals(self, u, fr, st):
        for nm in u.order:
            if nm in fr.env:
                continue
            d = u.decls[nm]
            if d['attrs'].get('parameter') or nm in u.args:
                continue
            if d['attrs'].get('external') or (d['dims'] is None and d['init'] is None and nm.startswith('omp_')) or \
                    (u.kind != 'function' or nm != u.result) and self.prog.proc(nm, u) is not None and d['dims'] is None:
                continue
            if u.kind != 'program' and self.is_static(d):
                fr.env[nm] = self.static(u, d, st)
                continue
            self._low = None
            v = self.entity(d, nm, st)
            fr.env[nm] = self.alloc(st, nm, v, self.scalar_ty(d['ty'], st))
            if self._low:
                self.lower[(fr.env[nm].root, ())] = self._low

    def funcref(self, nm, args, n, st):
        u = self.prog.proc(nm, self.unit())
        self.curnode = n
        if u is not None:
            return self.callproc(u, args, st)
        return self.intrinsic(nm, args, st)

    # -------------------------------------------------------------- intrinsics
    def intrinsic(self, nm, args, st):
        if nm in ('null',):
            return NULL
        if nm == 'present':
            return T.boolean(args[0]['parts'][0][0] in self.frames[-1].env)
        if nm in ('allocated', 'associated'):
            v = self.load(self.dsg(args[0], st, raw=True).p, st, True)
            v = st.vsimp(v) if type(v) is Choice else v
            if type(v) is UndefV and not self.quiet:
                self.undefs.append((T.undef(v.origin), st.pc, tuple(self.loopctx), self.where()))
            return alive(v)
        kw = {a['n']: a['e'] for a in args if a['k'] == 'kwarg'}
        pos = [a for a in args if a['k'] != 'kwarg']
        if nm in ('size', 'lbound', 'ubound', 'shape', 'kind', 'len', 'huge', 'tiny', 'epsilon', 'digits', 'precision', 'storage_size', 'rank'):
            return self.inquiry(nm, pos, kw, st)
        v = [self.rv(a, st) for a in pos]
        k = {x: self.rv(e, st) for x, e in kw.items()}
        f = getattr(self, 'i_' + nm, None)
        if f is None:
            if nm.startswith('omp_'):
                from .cxxlib import ompfn
                return ompfn(self, self.curnode, nm, v, st)
            if nm in ('command_argument_count', 'iargc'):
                return self.nargs()
            raise Unsupported('function %s at %s' % (nm, self.where()))
        return f(st, *v, **k)

    def inquiry(self, nm, pos, kw, st):
        a = pos[0]
        if a['k'] == 'dsg' and self.lookup(a['parts'][0][0], st) is not None:
            r = self.dsg(a, st)
            q = r.p if type(r) is LRef else None
            v = self.load(q, st, True) if q is not None else self.section(r, st) if type(r) is Sec else r
            d = self.decl_of(a, st)
        else:
            v, q, d = self.rv(a, st), None, None
        if nm == 'len':
            if d is not None and d['ty'].get('len') is not None and d['ty']['len']['k'] != 'star':
                return self.rv(d['ty']['len'], st)
            return vlen(v)
        if nm in ('huge', 'tiny', 'epsilon', 'kind', 'digits', 'precision'):
            so = v.sort if type(v) is Term else (v.body.sort if type(v) is Arr else 'r')
            kd = 8
            if d is not None:
                kd = {'f32': 4, 'i64': 8, 'i32': 4}.get(self.scalar_ty(d['ty'], st), 8)
            elif a['k'] == 'fnum':
                kd = self.litkind(a, st)
            elif so == 'i':
                kd = 4
            if nm == 'kind':
                return T.num(kd)
            if nm == 'huge':
                if so == 'i':
                    return T.num(2 ** (8 * kd - 1) - 1)
                return T.num(Fraction((2 - Fraction(1, 2 ** 52)) * 2 ** 1023 if kd == 8 else (2 - Fraction(1, 2 ** 23)) * 2 ** 127), 'r')
            if nm == 'tiny':
                return T.num(Fraction(1, 2 ** (1022 if kd == 8 else 126)), 'r')
            if nm == 'epsilon':
                return T.num(Fraction(1, 2 ** (52 if kd == 8 else 23)), 'r')
            raise Unsupported(nm)
        if type(v) is Choice:
            v = st.vsimp(v)
            if type(v) is Choice and live(v) is not None:
                v = live(v)
        shp = shape(v)
        dim = kw.get('dim') or (pos[1] if len(pos) > 1 else None)
        low = self.low(q, len(shp)) if q is not None else [T.ONE] * len(shp)
        if nm == 'rank':
            return T.num(len(shp))
        if nm == 'shape':
            return Vec(shp)
        if nm == 'size':
            if dim is None:
                return T.mul(T.ONE, *shp)
            return self.pick(shp, self.rv(dim, st))
        vals = low if nm == 'lbound' else [T.sub(T.add(l, n), T.ONE) for l, n in zip(low, shp)]
        return Vec(vals) if dim is None else self.pick(vals, self.rv(dim, st))

    def pick(self, xs, d):
        if not T.is_num(d):
            raise Unsupported('symbolic dimension')
        return xs[int(d.args[0]) - 1]

    def litkind(self, a, st):
        if a.get('kind') is None:
            return 4
        p = self.lookup(a['kind'], st) if not a['kind'].isdigit() else None
        return int(a['kind']) if a['kind'].isdigit() else int(self.load(p, st, True).args[0])

    def i_selected_real_kind(self, st, p=None, r=None, **k):
        p = int((p or T.ZERO).args[0])
        r = int((r or T.ZERO).args[0])
        return T.num(4 if p <= 6 and r <= 37 else 8 if p <= 15 and r <= 307 else 16)

    def i_selected_int_kind(self, st, r):
        return T.num(4 if r.args[0] <= 9 else 8)

    def i_modulo(self, st, a, p):
        return self.elem(lambda x, y: T.fmod(x, y) if x.sort == 'i' and y.sort == 'i' else self.realmod(x, y), a, p)

    def realmod(self, x, y):
        raise Unsupported('modulo of reals')

    def i_mod(self, st, a, p):
        return self.elem(lambda x, y: self.arith('%', x, y, 'i32', st) if x.sort == 'i' and y.sort == 'i' else self.realmod(x, y), a, p)

    def i_abs(self, st, a):
        return self.elem(lambda x: T.ite(T.lt(x, T.num(0, x.sort)), T.neg(x), x), a)

    def i_sign(self, st, a, b):
        ab = self.i_abs(st, a)
        return self.elem(lambda x, y: T.ite(T.lt(y, T.num(0, y.sort)), T.neg(x), x), ab, b)

    def nary(self, f, xs):
        def g(*ys):
            if any(y.sort == 'r' for y in ys):
                ys = [T.toreal(y) for y in ys]
            r = ys[0]
            for y in ys[1:]:
                r = f(r, y)
            return r
        return self.elem(g, *xs)

    def i_min(self, st, *xs):
        return self.nary(T.tmin, xs)

    def i_max(self, st, *xs):
        return self.nary(T.tmax, xs)

    def i_real(self, st, a, kind=None):
        k = int(kind.args[0]) if kind is not None else 4
        if kind is None:
            return self.elem(lambda x: T.single(T.toreal(x)), a)
        return self.elem(lambda x: T.toreal(x) if k == 8 else T.single(T.toreal(x)), a)

    def i_dble(self, st, a):
        return self.elem(T.toreal, a)

    def i_int(self, st, a, kind=None):
        return self.elem(lambda x: self.trunc(x) if x.sort == 'r' else x, a)

    def i_nint(self, st, a, kind=None):
        return self.elem(lambda x: self.trunc(T.add(x, T.ite(T.lt(x, T.num(0, 'r')), T.num(Fraction(-1, 2), 'r'), T.num(Fraction(1, 2), 'r')))), a)

    def i_floor(self, st, a, kind=None):
        return self.elem(lambda x: T.mkapp('floor', (x,), 'i'), a)

    def i_sqrt(self, st, a):
        return self.elem(lambda x: T.mkapp('sqrt', (x,), 'r'), a)

    def i_merge(self, st, a, b, m):
        return self.elem(lambda x, y, c: merge(c, x, y), a, b, m)

    def reduce_(self, v, f0, fsum, ffold, dim=None, mask=None):
        if dim is not None or mask is not None:
            raise Unsupported('reduction along a dimension')
        if type(v) is Vec:
            r = f0
            for x in v.items:
                r = ffold(r, x)
            return r
        if type(v) is Choice:
            return merge(v.c, self.reduce_(v.a, f0, fsum, ffold), self.reduce_(v.b, f0, fsum, ffold))
        if type(v) is not Arr:
            raise Unsupported('reduction of %s' % type(v).__name__)
        r = v.body
        for k, n in reversed(list(zip(v.ks, v.shape))):
            r = fsum(k, n, r)
        return r

    def i_sum(self, st, v, dim=None, mask=None):
        so = (v.items[0] if type(v) is Vec else v.body if type(v) is Arr else v.a.body).sort
        return self.reduce_(v, T.num(0, so), lambda k, n, b: T.tsum(k, T.ZERO, n, b), T.add, dim, mask)

    def i_product(self, st, v, dim=None, mask=None):
        so = (v.items[0] if type(v) is Vec else v.body).sort
        return self.reduce_(v, T.num(1, so), lambda k, n, b: T.tprod(k, T.ZERO, n, b), T.mul, dim, mask)

    def i_maxval(self, st, v, dim=None, mask=None):
        return self.extremum(v, False)

    def i_minval(self, st, v, dim=None, mask=None):
        return self.extremum(v, True)

    def extremum(self, v, mn):
        if type(v) is Vec:
            r = v.items[0]
            for x in v.items[1:]:
                r = (T.tmin if mn else T.tmax)(r, x)
            return r
        r = v.body
        for k, n in reversed(list(zip(v.ks, v.shape))):
            r = T.minover(k, n, r, T.subst(r, {k: T.ZERO}), not mn)
        return r

    def i_any(self, st, v, dim=None):
        if type(v) is Vec:
            return T.lor(*v.items)
        r = v.body
        for k, n in reversed(list(zip(v.ks, v.shape))):
            r = T.exists(k, n, r)
        return r

    def i_all(self, st, v, dim=None):
        return T.lnot(self.i_any(st, self.elem(T.lnot, v)))

    def i_count(self, st, v, dim=None):
        return self.i_sum(st, self.elem(T.b2i, v))

    def i_dot_product(self, st, a, b):
        return self.i_sum(st, self.elem(lambda x, y: T.mul(*( (T.toreal(x), T.toreal(y)) if 'r' in (x.sort, y.sort) else (x, y))), a, b))

    def i_matmul(self, st, a, b):
        a, b = toarr(a), toarr(b)
        if len(a.ks) != 2 or len(b.ks) != 2:
            raise Unsupported('matmul of vectors')
        i, k = T.fresh('j', lo=0, ub=a.shape[0]), T.fresh('j', lo=0, ub=b.shape[1])
        j = T.fresh('j', lo=0, ub=a.shape[1])
        if a.shape[1] is not b.shape[0] and not self.quiet:
            self.conform.append(((a.shape[1],), (b.shape[0],), None, self.where()))
        x = T.mul(T.subst(a.body, dict(zip(a.ks, (i, j)))), T.subst(b.body, dict(zip(b.ks, (j, k)))))
        return Arr((a.shape[0], b.shape[1]), (i, k), T.tsum(j, T.ZERO, a.shape[1], x))

    def i_transpose(self, st, a):
        return Arr(tuple(reversed(a.shape)), tuple(reversed(a.ks)), a.body)

    def i_trim(self, st, s):
        return rstrip(s)

    def i_adjustl(self, st, s):
        return T.string(s.args[0].lstrip()) if s.op == 'str' else s

    def i_len_trim(self, st, s):
        if s.op == 'str':
            return T.num(len(s.args[0].rstrip()))
        if self.args is not None and s in self.args:
            return T.sym('len_trim(%s)' % T.show(s), 'i', lo=1)
        return T.mkapp('slen', (s,), 'i')

    def i_c_loc(self, st, *a):
        raise Unsupported('c_loc')

    # -------------------------------------------------------------- intrinsic subroutines
    def nargs(self):
        if self.args is None:
            raise Unsupported('command line')
        return T.num(len(self.args) - 1)

    def intrinsic_sub(self, nm, args, st):
        if nm in ('get_command_argument', 'getarg'):
            kw = {a['n']: a['e'] for a in args if a['k'] == 'kwarg'}
            pos = [a for a in args if a['k'] != 'kwarg']
            names = ['number', 'value', 'length', 'status']
            for x, a in zip(names, pos):
                kw[x] = a
            k = self.rv(kw['number'], st)
            self.useterm(k, st)
            if self.args is None or not T.is_num(k):
                raise Unsupported('argument number at %s' % self.where())
            i = int(k.args[0])
            there = 0 <= i < len(self.args)
            if 'value' in kw:
                self.store(self.dsg(kw['value'], st).p, self.args[i] if there else T.string(''), st)
            if 'length' in kw:
                self.store(self.dsg(kw['length'], st).p, self.i_len_trim(st, self.args[i]) if there else T.ZERO, st)
            if 'status' in kw:
                self.store(self.dsg(kw['status'], st).p, T.ZERO if there else T.ONE, st)
            return
        if nm in ('cpu_time', 'system_clock', 'random_number', 'date_and_time'):
            for a in args:
                e = a['e'] if a['k'] == 'kwarg' else a
                p = self.dsg(e, st).p
                v = self.load(p, st, True)
                if type(v) is not Term:
                    raise Unsupported(nm)
                self.store(p, T.fresh(nm, v.sort), st)
            return
        if nm in ('omp_set_num_threads', 'flush', 'random_seed', 'omp_set_dynamic'):
            return
        if nm == 'exit':
            raise PathEnds([st])
        if nm == 'move_alloc':
            a, b = self.dsg(args[0], st, raw=True).p, self.dsg(args[1], st, raw=True).p
            self.store(b, self.load(a, st, True), st, True)
            self.store(a, NULL, st, True)
            return
        raise Unsupported('subroutine %s at %s' % (nm, self.where()))

    # -------------------------------------------------------------- control
    def s_fstop(self, n, st):
        if n['e'] is not None:
            v = self.rv(n['e'], st)
            if type(v) is Term:
                self.put(self.console('std::cerr', st), [Item('out', (v, 'ftn:a'), self.where()), nl(self)], st)
        self.event(st, 'stop', T.boolean(n['error']))
        o = Outcome(None)
        o.exit = [st]
        self.exits(st)
        return o

    def s_for(self, n, st, omp=None):
        if not n.get('do'):
            return Interp.s_for(self, n, st, omp)
        lo, hi = self.rv(n['lo'], st), self.rv(n['hi'], st)
        step = self.rv(n['st'], st) if n['st'] else T.ONE
        self.curnode = n
        for x in (lo, hi, step):
            self.useterm(x, st)
        if lo.sort == 'r' or hi.sort == 'r' or T.is_num(step) and step.args[0] == 0:
            raise Unsupported('do loop bounds at %s' % self.where())
        up = T.lt(T.ZERO, step)
        fr = self.frames[-1]
        p = self.lookup(n['var'], st)
        if p is None:
            raise Unsupported('loop variable %s' % n['var'])
        saved = None
        if self.omp and omp is None and fr.env.get(n['var']) is p and p.root.shared != 'private' and p.root.n <= self.omp[-1]['mark'] \
                and self.omp[-1].get('frame') is fr:
            # the variable of a sequential loop inside a parallel construct is private
            saved = p
            p = self.alloc(st, n['var'], undefcopy(self.load(p, st, True), n['var']), 'i32')
            p.root.shared = 'private'
            fr.env[n['var']] = p
        self.store(p, lo, st)
        info = {'node': n, 'omp': omp, 'mark': Root.count, 'where': self.where(), 'depth': len(self.omp)}
        self.labels.append(n.get('label'))

        def cond(s):
            i = self.load(p, s, True)
            return T.ite(up, T.le(i, hi), T.le(hi, i))

        def inc(s):
            self.store(p, T.add(self.load(p, s, True), step), s, True)
            return s
        try:
            o = run_loop(self, st, cond, lambda s: self.stmt(n['body'], s), inc, info)
        finally:
            self.labels.pop()
        if saved is not None:
            fr.env[n['var']] = saved
        return o

    def s_while(self, n, st):
        self.labels.append(n.get('label'))
        try:
            return Interp.s_while(self, n, st)
        finally:
            self.labels.pop()

    def s_break(self, n, st):
        self.check_label(n)
        return Interp.s_break(self, n, st)

    def s_continue(self, n, st):
        self.check_label(n)
        return Interp.s_continue(self, n, st)

    def check_label(self, n):
        if n.get('label') and (not self.labels or self.labels[-1] != n['label']):
            raise Unsupported('exit from an outer loop at %s' % self.where())

    def s_omp(self, n, st):
        # the frame of the construct decides which loop variables are private
        fr = self.frames[-1]
        orig = self.omp
        self.omp = Tagged(orig, fr)
        try:
            return Interp.s_omp(self, n, st)
        finally:
            self.omp = orig

    def s_concurrent(self, n, st):
        """iterations in any order: locals the body assigns are private to an iteration"""
        if len(n['ix']) != 1 or n['mask'] is not None:
            # nested index ranges: the first one is work-shared
            if n['mask'] is not None:
                raise Unsupported('masked do concurrent at %s' % self.where())
        v, r = n['ix'][0]
        body = n['body']
        for w, rr in reversed(n['ix'][1:]):
            body = {'k': 'block', 'ln': n['ln'], 'c': [self.doloop(w, rr, body, n['ln'])]}
        fr = self.frames[-1]
        u = fr.fn['unit']
        idx = {x for x, _ in n['ix']}
        vars_ = set(n['local']) | (idx - {v})
        for nm, whole in assigned(n['body']):
            d = u.decls.get(nm)
            if d is None or nm in u.args or d['attrs'].get('allocatable') or d['attrs'].get('pointer') or d['ty']['base'] in ('type', 'class'):
                continue
            if d['dims'] is None or whole:
                vars_.add(nm)
        vars_ -= {v}
        if v not in fr.env:
            fr.env[v] = self.alloc(st, v, T.undef(v, 'i'), 'i32')
        cl = [{'c': 'private', 'vars': [{'k': 'var', 'id': x, 'n': x, 'ty': '?'} for x in sorted(vars_)]}]
        node = {'k': 'omp', 'dir': 'for', 'clauses': cl, 'ln': n['ln'], 'body': self.doloop(v, r, body, n['ln']), 'concurrent': True}
        o = self.s_omp(node, st)
        if o.next is not None:
            for x in vars_:
                p = fr.env.get(x)
                if p is not None and p.root in o.next.store:
                    o.next.store[p.root] = undefcopy(o.next.store[p.root], x + ' (after do concurrent)')
        return o

    def doloop(self, v, r, body, ln):
        return {'k': 'for', 'do': True, 'var': v, 'lo': r['lo'], 'hi': r['hi'], 'st': r.get('st'), 'body': body, 'ln': ln,
                'init': {'k': 'bin', 'op': '=', 'l': {'k': 'var', 'id': v, 'n': v, 'ty': 'i32'}, 'r': r['lo'], 'ln': ln}}

    def s_fselect(self, n, st):
        e = self.rv(n['e'], st)
        self.useterm(e, st)
        out = Outcome()
        rest = st
        default = None
        for sel, body in n['cases']:
            if sel is None:
                default = body
                continue
            c = T.FALSE
            for x in sel:
                if x['k'] == 'range':
                    a = T.TRUE if x['lo'] is None else self.op('<=', self.rv(x['lo'], st), e, st)
                    b = T.TRUE if x['hi'] is None else self.op('<=', e, self.rv(x['hi'], st), st)
                    c = T.lor(c, T.land(a, b))
                else:
                    c = T.lor(c, self.op('==', e, self.rv(x, st), st))
            if rest is None:
                continue
            c = rest.simp(c)
            if c is T.FALSE:
                continue
            s1 = rest.copy().assume(c)
            o = self.stmt(body, s1)
            out.absorb(o)
            out.next = merge_states(out.next, o.next)
            rest = None if c is T.TRUE else rest.copy().assume(T.lnot(c))
        if rest is not None:
            if default is not None:
                o = self.stmt(default, rest)
                out.absorb(o)
                out.next = merge_states(out.next, o.next)
            else:
                out.next = merge_states(out.next, rest)
        return out

    def s_unread(self, n, st):
        raise Unsupported(n['why'])

    def s_fassociate(self, n, st):
        """names for entities or values; a section is copied in and, where the body assigns the name, out"""
        fr = self.frames[-1]
        new, back = {}, []
        done = {nm for nm, _ in assigned(n['body'])}
        for nm, e in n['binds']:
            d = None
            if e['k'] == 'dsg' and self.lookup(e['parts'][0][0], st) is not None:
                d = self.decl_of(e, st)
                if d is not None:
                    d = dict(d, n=nm, attrs={k: v for k, v in d['attrs'].items() if k not in ('allocatable', 'pointer')})
                r = self.dsg(e, st)
                if type(r) is Sec:
                    base = e['parts'][0][0]
                    if nm in done or base in done:
                        if base in done or any(b['k'] == 'dsg' and b['parts'][0][0] == base for x, b in n['binds'] if x != nm):
                            raise Unsupported('associated section assigned at %s' % self.where())
                        p = self.alloc(st, nm, self.section(r, st))
                        back.append((r, p))
                    else:
                        p = self.alloc(st, nm, self.section(r, st))
                elif type(r) is LRef:
                    p = r.p
                else:
                    p = self.alloc(st, nm, r)
            else:
                p = self.alloc(st, nm, self.rv(e, st))
            new[nm] = (p, d)
        return self.scoped(fr, {k: p for k, (p, d) in new.items()}, {k: d for k, (p, d) in new.items()}, n['body'], st, back)

    def s_fblock(self, n, st):
        fr = self.frames[-1]
        env, dec = {}, {}
        for d in n['decls']:
            if d['attrs'].get('parameter'):
                env[d['n']] = self.alloc(st, d['n'], self.entity(d, d['n'], st))
            elif self.is_static(d):
                raise Unsupported('saved variable of a block at %s' % self.where())
            else:
                self._low = None
                env[d['n']] = self.alloc(st, d['n'], self.entity(d, d['n'], st), self.scalar_ty(d['ty'], st))
                if self._low:
                    self.lower[(env[d['n']].root, ())] = self._low
            if self.omp:
                env[d['n']].root.shared = 'private'
            dec[d['n']] = d
        return self.scoped(fr, env, dec, n['body'], st, [])

    def scoped(self, fr, env, dec, body, st, back):
        olde, olda = dict(fr.env), dict(fr.assoc)
        fr.env.update(env)
        fr.assoc.update(dec)
        try:
            o = self.stmt(body, st)
        finally:
            for nm in env:
                if nm in olde:
                    fr.env[nm] = olde[nm]
                else:
                    fr.env.pop(nm, None)
            fr.assoc = olda
        if back and o.next is not None:
            for r, p in back:
                self.secstore(r, self.load(p, o.next, True), o.next)
        return o

    def s_fwhere(self, n, st):
        """every mask is evaluated once, before the assignments it controls"""
        self.wheres(n['parts'], None, st)
        return Outcome(st)

    def wheres(self, parts, pend, st):
        both = lambda a, b: self.elem(T.land, a, b)
        for mask, body in parts:
            m = pend
            if mask is not None:
                v = self.rv(mask, st)
                m = v if pend is None else both(pend, v)
                no = self.elem(T.lnot, v)
                pend = no if pend is None else both(pend, no)
            for a in body:
                if a['k'] == 'fwhere':
                    self.wheres(a['parts'], m, st)
                    continue
                if a['k'] == 'null':
                    continue
                if a['k'] != 'fassign':
                    raise Unsupported('statement of a where construct at %s' % self.where())
                q, self.quiet = self.quiet, True
                try:
                    old = self.rv(a['l'], st)
                finally:
                    self.quiet = q
                r = self.rv(a['r'], st)
                self.curnode = a
                x = self.elem(lambda c, x, y: merge(c, x, y), m, r, old) if isarr(r) else self.elem(lambda c, y: merge(c, r, y), m, old)
                self.assign(a['l'], x, st)

    # -------------------------------------------------------------- input and output
    def console(self, nm, st):
        return self.global_({'global': nm, 'n': nm, 'ty': 'ostream'}, st)

    def put(self, p, items, st):
        v = st.store[p.root]
        st.store[p.root] = Stream(v.items + tuple(items))
        if self.omp:
            self.note('w', p, -1, None, None, st)

    def unitptr(self, u, st):
        if u['k'] == 'star':
            return self.console('std::cout', st)
        v = self.rv(u, st)
        if not T.is_num(v):
            raise Unsupported('unit number at %s' % self.where())
        k = int(v.args[0])
        p = self.files.get(k)
        if p is not None:
            return p
        if k == 6:
            return self.console('std::cout', st)
        if k == 0:
            return self.console('std::cerr', st)
        raise Unsupported('unit %d is not open at %s' % (k, self.where()))

    def s_fopen(self, n, st):
        ctl = n['ctl']
        nm = self.rv(ctl['file'], st) if 'file' in ctl else T.string('')
        for x in ('status', 'action', 'form', 'access', 'position'):
            if x in ctl:
                v = self.rv(ctl[x], st)
                if x == 'status' and v.op == 'str' and v.args[0].strip().lower() == 'old':
                    raise Unsupported('existing file')
                if x == 'position' and v.op == 'str' and v.args[0].strip().lower() == 'append':
                    raise Unsupported('append')
                if x in ('form', 'access') and v.op == 'str' and v.args[0].strip().lower() not in ('formatted', 'sequential'):
                    raise Unsupported('open %s' % x)
        if 'newunit' in ctl:
            self.nopen += 1
            k = -10 - self.nopen
            self.store(self.dsg(ctl['newunit'], st).p, T.num(k), st)
        else:
            v = self.rv(ctl['unit'], st)
            if not T.is_num(v):
                raise Unsupported('unit number at %s' % self.where())
            k = int(v.args[0])
        r = Root('file', 'ofstream')
        st.store[r] = Stream((Item('open', (nm,), self.where()),))
        self.files[k] = Ptr(r)
        if 'iostat' in ctl:
            self.store(self.dsg(ctl['iostat'], st).p, T.ZERO, st)
        return Outcome(st)

    def s_fclose(self, n, st):
        p = self.unitptr(n['ctl']['unit'], st)
        self.put(p, [Item('close', (), self.where())], st)
        return Outcome(st)

    def s_fflush(self, n, st):
        return Outcome(st)

    def s_fwrite(self, n, st):
        ctl = n['ctl']
        p = self.unitptr(ctl['unit'], st) if not self.internal(ctl['unit'], st) else None
        if p is None:
            raise Unsupported('write to a string at %s' % self.where())
        fmt = ctl.get('fmt')
        adv = True
        if 'advance' in ctl:
            a = self.rv(ctl['advance'], st)
            adv = not (a.op == 'str' and a.args[0].strip().lower() == 'no')
        items = []
        if fmt is None or fmt['k'] == 'star':
            items = self.listdirected(n['items'], st)
        else:
            f = self.rv(fmt, st)
            if f.op != 'str':
                raise Unsupported('computed format at %s' % self.where())
            items = self.formatted(parse_format(f.args[0]), n['items'], st)
        if adv:
            items.append(nl(self))
        self.curnode = n
        self.put(p, items, st)
        if 'iostat' in ctl:
            self.store(self.dsg(ctl['iostat'], st).p, T.ZERO, st)
        return Outcome(st)

    def internal(self, u, st):
        if u['k'] != 'dsg':
            return False
        d = self.decl_of(u, st)
        return bool(d and d['ty']['base'] == 'character')

    def values(self, e, st):
        """values of an output item: scalars, or arrays"""
        v = self.implied(e, st) if e['k'] == 'implied' else self.rv(e, st)
        if type(v) is Term:
            self.useterm(v, st)
            return [v]
        if type(v) is Vec:
            return list(v.items)
        if type(v) is Arr:
            return [v]
        if type(v) is Choice and all(type(x) is Term for x in (v.a, v.b)):
            return [T.ite(v.c, v.a, v.b)]
        raise Unsupported('output of %s at %s' % (type(v).__name__, self.where()))

    def listdirected(self, es, st):
        out = [Item('out', (T.string(' '), 'string'), self.where())] if es else []
        prev = None
        for e in es:
            for v in self.values(e, st):
                if type(v) is Arr:
                    k = v.ks[0]
                    if len(v.ks) > 1:
                        raise Unsupported('output of a matrix')
                    out.append(Rep(k, v.shape[0], (Item('out', (T.string(' '), 'string'), self.where()), Item('out', (v.body, 'ftn:*'), self.where()))))
                    prev = 'n'
                    continue
                if v.sort != 's' or prev == 'n':
                    out.append(Item('out', (T.string(' '), 'string'), self.where()))
                prev = 's' if v.sort == 's' else 'n'
                out.append(Item('out', (v, 'ftn:*'), self.where()))
        return out

    def formatted(self, fmt, es, st):
        vals = []
        for e in es:
            vals += self.values(e, st)
        out = []
        data = [f for f in fmt if f[0] in 'ieflagdz']
        if len(vals) == 1 and type(vals[0]) is Arr and len(vals[0].ks) == 1:
            if len(data) == 1 and len(fmt) == 1:
                v = vals[0]
                sep = (nl(self), Item('out', (v.body, fdesc(data[0])), self.where()))
                # the record of the first element is the current one
                first = T.subst(v.body, {v.ks[0]: T.ZERO})
                rest = T.subst(v.body, {v.ks[0]: T.add(v.ks[0], T.ONE)})
                return [Alt(T.lt(T.ZERO, v.shape[0]), (Item('out', (first, fdesc(data[0])), self.where()),), ()),
                        Rep(v.ks[0], T.tmax(T.ZERO, T.sub(v.shape[0], T.ONE)), (nl(self), Item('out', (rest, fdesc(data[0])), self.where())))]
            raise Unsupported('array output at %s' % self.where())
        if any(type(v) is Arr for v in vals):
            raise Unsupported('array output at %s' % self.where())
        if vals and not data:
            raise Unsupported('format without data descriptor at %s' % self.where())
        q = 0
        while True:
            for f in fmt:
                if f[0] in 'ieflagdz':
                    if q >= len(vals):
                        return out
                    v = vals[q]
                    q += 1
                    if (f[0] == 'i' and v.sort != 'i') or (f[0] in 'efd' and v.sort != 'r') or (f[0] == 'a' and v.sort != 's') or (f[0] == 'l' and v.sort != 'b'):
                        out.append(Item('badfmt', (f[0], v.sort), self.where()))
                        self.badalloc('output of a value of another type with format %s' % f[0], 'format', T.TRUE, st)
                        continue
                    out.append(Item('out', (v, fdesc(f)), self.where()))
                elif f[0] == 'x':
                    out.append(Item('out', (T.string(' ' * f[1]), 'string'), self.where()))
                elif f[0] == '/':
                    out.append(nl(self))
                elif f[0] == 's':
                    out.append(Item('out', (T.string(f[1]), 'string'), self.where()))
            if q >= len(vals):
                return out
            out.append(nl(self))

    def s_fread(self, n, st):
        ctl = n['ctl']
        if not self.internal(ctl['unit'], st) or ctl.get('fmt', {}).get('k') != 'star':
            raise Unsupported('read at %s' % self.where())
        s = self.rv(ctl['unit'], st)
        ok = None
        vals = []
        if len(n['items']) != 1:
            raise Unsupported('read of several values at %s' % self.where())
        e = n['items'][0]
        p = self.dsg(e, st).p
        old = self.load(p, st, True)
        so = old.sort
        if s.op == 'str':
            w = s.args[0].strip()
            try:
                val = T.num(int(w)) if so == 'i' else T.num(Fraction(w), 'r')
                ok = T.TRUE
            except ValueError:
                ok, val = T.FALSE, old
        elif so == 'i' and s in self.argint:
            ok, val = T.TRUE, self.argint[s]
        else:
            ok = T.mkapp('isnumber', (s,), 'b')
            val = T.mkapp('numberof', (s,), so)
        self.curnode = n
        bad = T.undef('value of %s after a failed read' % e['n'], so)
        if 'iostat' in ctl:
            q = self.dsg(ctl['iostat'], st).p
            self.store(q, T.ite(ok, T.ZERO, T.mkapp('ioerror', (s,), 'i', )), st)
            # a failing read leaves the variable without a value
            self.store(p, merge(ok, val, bad), st)
        else:
            if ok is not T.TRUE:
                s2 = st.copy().assume(T.lnot(ok))
                self.event(s2, 'crash', 'read')
                o = Outcome(None)
                self.badread = getattr(self, 'badread', [])
                if not self.quiet:
                    self.badread.append((e['n'], st.pc, self.where()))
                if ok is T.FALSE:
                    o.exit = [s2]
                    return o
                st.assume(ok)
                self.store(p, val, st)
                o.next = st
                o.exit = [s2]
                return o
            self.store(p, val, st)
        return Outcome(st)


class Tagged(list):
    """stack of regions; a region pushed on it remembers its frame"""

    def __init__(self, base, fr):
        list.__init__(self, base)
        self.fr = fr

    def append(self, reg):
        reg['frame'] = self.fr
        list.append(self, reg)


def nl(I):
    return Item('out', (T.string('\n'), 'string'), I.where())


def neg(s):
    return T.is_num(s) and s.args[0] < 0


def rstrip(s):
    return T.string(s.args[0].rstrip()) if type(s) is Term and s.op == 'str' else s


def status(v):
    if type(v) is Null:
        return 'not allocated'
    if type(v) is UndefV:
        return 'deallocated' if v.ty == 'freed' else 'undefined'
    return 'not always allocated'


def dead(v):
    """condition under which there is nothing behind an entity"""
    if type(v) is Choice:
        return T.lor(T.land(v.c, dead(v.a)), T.land(T.lnot(v.c), dead(v.b)))
    if type(v) is Null or (type(v) is UndefV and v.ty in ('freed', 'pointer')):
        return T.TRUE
    return T.FALSE


def alive(v):
    return T.lnot(dead(v))


def live(v):
    if type(v) is Choice:
        a, b = live(v.a), live(v.b)
        return b if a is None else a if b is None else merge(v.c, a, b)
    return None if dead(v) is T.TRUE else v


def assigned(n):
    """(name, whole) of variables assigned in a statement tree; whole: assigned or passed as a whole"""
    st = [n]
    while st:
        x = st.pop()
        if type(x) is dict:
            if x.get('k') == 'fassign':
                nm, a = x['l']['parts'][0]
                if len(x['l']['parts']) == 1:
                    yield nm, True
            if x.get('k') == 'fcall':
                for a in x['d']['parts'][-1][1] or []:
                    if a['k'] == 'dsg' and len(a['parts']) == 1 and a['parts'][0][1] is None:
                        yield a['parts'][0][0], True
            if x.get('k') == 'for' and x.get('do'):
                yield x['var'], True
            if x.get('k') == 'fread':
                for a in x['items']:
                    if a['k'] == 'dsg':
                        yield a['parts'][0][0], True
            st.extend(x.values())
        elif type(x) in (list, tuple):
            st.extend(x)


def fdesc(f):
    return 'ftn:%s%s%s' % (f[0], f[1] if len(f) > 1 and f[1] is not None else '', '.%d' % f[2] if len(f) > 2 and f[2] is not None else '')


def parse_format(s):
    """list of edit descriptors"""
    s = s.strip()
    if not (s.startswith('(') and s.endswith(')')):
        raise Unsupported('format %s' % s)
    out, i = [], 0
    s = s[1:-1]
    while i < len(s):
        ch = s[i]
        if ch in ' ,':
            i += 1
            continue
        if ch in '\'"':
            j = s.index(ch, i + 1)
            out.append(('s', s[i + 1:j]))
            i = j + 1
            continue
        if ch == '/':
            out.append(('/',))
            i += 1
            continue
        m = re.match(r'(\d*)\s*(es|en|[ifealgdxIFEALGDX]|ES|EN)\s*(\d+)?(?:\.(\d+))?(?:[eE]\d+)?', s[i:])
        if not m:
            m2 = re.match(r'(\d*)\(', s[i:])
            if m2:
                d, j = 0, i + m2.end() - 1
                for k in range(j, len(s)):
                    d += s[k] == '('
                    d -= s[k] == ')'
                    if d == 0:
                        break
                inner = parse_format(s[j:k + 1])
                out += inner * int(m2.group(1) or 1)
                i = k + 1
                continue
            raise Unsupported('format %s' % s)
        rep = int(m.group(1) or 1)
        c = m.group(2).lower()
        c = 'e' if c in ('es', 'en', 'd') else c
        if c == 'x':
            out.append(('x', rep))
        else:
            w = int(m.group(3)) if m.group(3) else None
            d = int(m.group(4)) if m.group(4) else None
            out += [(c, w, d)] * rep
        i += m.end()
    return out


class FSession:
    """one abstract execution of Fortran code"""

    def __init__(self, prog):
        self.prog = prog
        self.I = FInterp(prog)
        self.st = self.I.newstate()
        self.where_ = ''
        self.I.frames.append(Frame({'q': '<driver>', 'file': REPO + '/<driver>', 'retref': False, 'unit': None}))

    def box(self, v, ty=None):
        return self.I.alloc(self.st, 'arg', v, ty)

    def call(self, u, *locs):
        self.where_ = floc(self.prog, u)
        return self.I.callproc(u, [], self.st, values=[('p', x) for x in locs])

    def new(self, ty):
        return self.I.alloc(self.st, ty, self.I.zeroval('T:' + ty, ty, self.st), 'T:' + ty)

    def fork(self):
        s = FSession.__new__(FSession)
        s.__dict__.update(self.__dict__)
        s.st = self.st.copy()
        return s

    def main(self, args, argint=None):
        """runs the main program with the given command line"""
        I = self.I
        I.args = args
        I.argint = argint or {}
        u = self.prog.main()
        self.where_ = floc(self.prog, u)
        fr = Frame(self.prog.fn(u))
        I.visited[u.name] = self.prog.path
        I.frames.append(fr)
        try:
            I.locals(u, fr, self.st)
        finally:
            I.frames.pop()
        self.frame = fr
        ended = False
        try:
            I.run_body(fr, u.body, self.st, False)
        except PathEnds:
            ended = True
        return not ended


def floc(prog, u):
    return '%s:%s %s' % (prog.rel, u.ln, u.name)


_progs = {}


def program(rel, defs=('HAVE_OPENMP',)):
    key = (rel, tuple(defs))
    if key not in _progs:
        _progs[key] = FProgram(rel, defs)
    return _progs[key]
