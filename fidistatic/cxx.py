"""Abstract interpreter for the C++ sources (works on the resolved trees printed by cxxdump)."""
import json
import os
import subprocess
import hashlib
from fractions import Fraction
from . import term as T
from .term import Term
from .values import (Vec, Arr, Obj, Ptr, NULL, Choice, MapV, MapIt, FnV, UndefV, VOID, Item, Alt, Rep, Stream, Root, Sub,
                     State, Unsupported, merge, merge_states, merge_cond, vequal, vmap, vec2arr, vlen, step_get, step_set,
                     VALTYPES, Null)
from .loops import Outcome, run_loop

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('FIDI_REPO', '/repo')
BUILD = os.environ.get('FIDI_BUILD', os.path.join(os.path.dirname(HERE), 'build'))


class AnalysisBroken(Exception):
    """an anchor vanished: the obligations that need it are undecided"""
    source = False


class SourceBroken(AnalysisBroken):
    """a source file is missing or does not compile: no verdict at all"""
    source = True


# ------------------------------------------------------------------ dumping
def ensure_dumper():
    exe = os.path.join(BUILD, 'cxxdump')
    src = os.path.join(HERE, 'cxxdump', 'cxxdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = '%s-%s' % (exe, h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + '.%d' % os.getpid()
    lib = '/usr/lib/llvm-18/lib'
    cmd = ['clang++', '-std=c++17', '-O1', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
           '-L' + lib, '-l:libclang-cpp.so.18.1', '-lLLVM-18']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise SourceBroken('cannot build cxxdump: ' + r.stderr[-2000:])
    os.replace(tmp, exe)
    return exe


_flags = None


def flags():
    global _flags
    if _flags is None:
        omp = subprocess.run(['g++', '-print-file-name=include/omp.h'], capture_output=True, text=True).stdout.strip()
        mpi = subprocess.run(['mpicxx', '--showme:compile'], capture_output=True, text=True).stdout.split()
        _flags = ['-std=gnu++11', '-fopenmp', '-DHAVE_OPENMP', '-DFIDI_OMP_H="%s"' % omp, '-D_THREADS_PER_TEAM=32', '-D_TEAMS=64',
                  '-w', '-I' + os.path.join(REPO, 'cxx'), '-I' + os.path.join(HERE, 'include')] + mpi
    return _flags


_dumps = {}


def dump(path):
    """resolved tree of one translation unit of the repository"""
    if path in _dumps:
        return _dumps[path]
    exe = ensure_dumper()
    r = subprocess.run([exe, REPO, path, '--'] + flags(), capture_output=True, text=True)
    if r.returncode != 0 or not r.stdout.strip():
        raise SourceBroken('cannot parse %s: %s' % (path, r.stderr[-1500:]))
    d = json.loads(r.stdout)
    _dumps[path] = d
    return d


def statics(n, f, out):
    """local variables with static storage of a function body"""
    if isinstance(n, dict):
        if n.get('static') and 'ty' in n and 'id' in n and not n.get('isref'):
            out.append((f, n))
        for x in n.values():
            if isinstance(x, (dict, list)):
                statics(x, f, out)
    elif isinstance(n, list):
        for x in n:
            statics(x, f, out)


class Program:
    """a set of translation units linked by mangled names"""

    def __init__(self, paths):
        self.fns = {}
        self.byq = {}
        self.records = {}
        self.paths = list(paths)
        self.templates = []
        for n, p in enumerate(paths):
            d = dump(p)
            self.templates += [(p, t) for t in d['class_templates']]
            for f in d['functions']:
                f['tu'] = n
                mn = f['mn']
                if mn in self.fns:
                    continue
                tag(f, n)
                self.fns[mn] = f
                self.byq.setdefault(f['q'], []).append(f)
            for r in d['records']:
                if r['n'] not in self.records:
                    for fl in r['fields']:
                        if 'init' in fl:
                            tag(fl['init'], n)
                    self.records[r['n']] = r

        self.statics = []
        for f in self.fns.values():
            statics(f['body'], f, self.statics)
        from . import pragmas
        pragmas._records.update(self.records)
        pragmas.attach(self.fns.values())

    def find(self, q, nparams=None, ptys=None):
        fs = self.byq.get(q, [])
        if nparams is not None:
            fs = [f for f in fs if len(f['params']) == nparams]
        if ptys is not None:
            fs = [f for f in fs if [unref(p['ty']) for p in f['params']] == ptys]
        if not fs:
            raise AnalysisBroken('function %s%s not found' % (q, '' if nparams is None else '/%d' % nparams))
        return fs[0]


def unref(ty):
    return ty[4:-1] if ty.startswith('ref<') else ty


def tag(n, tu):
    """make variable ids unique over translation units"""
    st = [n]
    while st:
        x = st.pop()
        if type(x) is dict:
            if x.get('__t'):
                continue
            x['__t'] = 1
            if 'id' in x and type(x['id']) is int:
                x['id'] = (tu, x['id'])
            st.extend(x.values())
        elif type(x) is list:
            st.extend(x)


# ------------------------------------------------------------------ lvalue wrapper
class LRef:
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class Frame:
    __slots__ = ('env', 'this', 'fn', 'locals', 'assoc')

    def __init__(self, fn, this=None):
        self.env, self.this, self.fn, self.assoc = {}, this, fn, {}


TRACE = Root('#trace')
INTS = ('i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64', 'char', 'enum')


def is_int(ty):
    return ty in INTS


def is_float(ty):
    return ty in ('f64', 'f32', 'f128', 'f80')


def sort_of(ty):
    if is_float(ty):
        return 'r'
    if ty == 'bool':
        return 'b'
    if ty == 'string' or ty == 'ptr<char>':
        return 's'
    return 'i'


def tparts(ty):
    """'map<a,b<c,d>>' -> ('map', ['a','b<c,d>'])"""
    i = ty.find('<')
    if i < 0:
        return ty, []
    name, rest = ty[:i], ty[i + 1:-1]
    out, d, cur = [], 0, ''
    for ch in rest:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    out.append(cur)
    return name, out


LIVE = []         # interpreters of the running obligation group (what they recorded survives an unsupported construct)


class Interp:
    def __init__(self, prog, precise=False):
        LIVE.append(self)
        self.prog = prog
        self.quiet = 0
        self.loopctx = []
        self.frames = []
        self.globals = {}
        self.statics = {}       # id -> storage of a static local variable
        self.under = []         # conditions under which the present one of several places is accessed
        self.guards = {}        # id -> storage of its "already initialised" flag, if its first value is not a constant
        self.accesses = []
        self.undefs = []
        self.visited = {}
        self.after = {}          # qualified name -> hook(interp, st, this, args, result)
        self.stubs = {}          # qualified name -> fn(interp, st, this, args) -> value
        self.clsstubs = {}       # class name -> fn(interp, st, cls, method, this, args, node)
        self.precise = precise   # keep narrowing conversions explicit
        self.omp = []            # stack of OpenMP regions
        self.ompseen = []
        self.heap = 0
        self.rank = None
        self.nprocs = None
        self.phis = set()
        self.assumed = set()     # value-range assumptions that were used
        self.steps = 0
        self.maxsteps = 400000
        self.loopseen = 0
        self.curnode = None
        self.logacc = True

    # -------------------------------------------------------------- basics
    def line(self):
        f = self.frames[-1].fn if self.frames else None
        fn = f['file'].replace(REPO + '/', '') if f else '?'
        ln = self.curnode.get('ln') if self.curnode else 0
        return '%s:%s' % (fn, ln)

    def where(self):
        return '%s (%s)' % (self.line(), ' < '.join(f.fn['q'] for f in reversed(self.frames[-3:])))

    def newstate(self):
        st = State()
        st.store[TRACE] = Stream()
        for g in ('std::cout', 'std::cerr'):
            # there from the start: what a loop writes to them first belongs to the state around the loop too
            self.global_({'global': g, 'n': g, 'ty': 'ostream'}, st)
        return st

    def event(self, st, kind, *args):
        it = Item(kind, args, self.where())
        st.store[TRACE] = Stream(st.store[TRACE].items + (it,))
        if kind == 'mpi' and not self.quiet and self.logacc:
            self.accesses.append(('mpi', it, None, None, None, (), st.pc, tuple(self.loopctx), it.at, tuple(self.omp), self.curnode))

    def alloc(self, st, name, val, ty=None):
        r = Root(name, ty)
        st.store[r] = val
        return Ptr(r)

    def default(self, ty, origin='?', zero=False, st=None):
        if is_int(ty):
            return T.ZERO if zero else T.undef(origin, 'i')
        if is_float(ty):
            return T.num(0, 'r') if zero else T.undef(origin, 'r')
        if ty == 'bool':
            return T.FALSE if zero else T.undef(origin, 'b')
        if ty == 'string':
            return T.string('')
        n, a = tparts(ty)
        if n == 'unique_ptr':
            return NULL
        if n in ('vector', 'list', 'deque'):
            return Vec(())
        if n in ('map', 'unordered_map', 'set'):
            return MapV()
        if n in ('array', 'carr'):
            if a[1] == '?':
                return UndefV(origin, ty)
            k = int(a[1])
            if k <= 64:
                return Vec(self.default(a[0], '%s[%d]' % (origin, i), zero) for i in range(k))
            j = T.fresh('j', lo=0, ub=T.num(k))
            return Arr((T.num(k),), (j,), self.default(a[0], origin + '[]', zero))
        if n == 'pair':
            return Obj('pair', {'first': self.default(a[0], origin + '.first', True),
                                'second': self.default(a[1], origin + '.second', True)})
        if n.startswith('basic_') or 'stream' in n:
            return Stream()
        if n == 'ptr':
            return NULL if zero else UndefV(origin, ty)
        r = self.prog.records.get(ty)
        if r is not None:
            f = {}
            for fl in r['fields']:
                if 'init' in fl and st is not None:
                    f[fl['n']] = self.rv(fl['init'], st)
                else:
                    f[fl['n']] = self.default(fl['ty'], '%s.%s' % (origin, fl['n']), zero, st)
            return Obj(ty, f)
        return Obj(ty, {}) if zero is None else UndefV(origin, ty)

    # -------------------------------------------------------------- memory
    def load(self, p, st, quiet=False):
        if type(p) is Choice:
            c = st.simp(p.c)
            if c is T.TRUE:
                return self.load(p.a, st, quiet)
            if c is T.FALSE:
                return self.load(p.b, st, quiet)
            return merge(c, self.within(c, self.load, p.a, st, quiet), self.within(T.lnot(c), self.load, p.b, st, quiet))
        if type(p) is not Ptr:
            if type(p) is Null:
                raise Unsupported('null pointer dereference at %s' % self.where())
            raise Unsupported('load through %s at %s' % (type(p).__name__, self.where()))
        if p.root not in st.store:
            raise Unsupported('dead location %r at %s' % (p.root, self.where()))
        v = st.store[p.root]
        if p.root.shared == 'freed':
            pass
        for i, s in enumerate(p.path):
            if type(v) is Choice:
                v = st.vsimp(v)
            if type(s) is tuple and s[0] == 'mp':
                v = Obj('pair', {'first': step_get(v, ('mk', s[1])), 'second': step_get(v, ('m', s[1]))})
                continue
            if type(s) is tuple and s[0] == 'i' and not quiet:
                self.note('r', p, i, v, s, st)
            v = step_get(v, s)
        if self.omp and not quiet and self.logacc and not self.quiet and not any(type(x) is tuple for x in p.path):
            self.note('r', p, -1, None, None, st)
        if type(v) in (Term, Choice) and st.pc:
            if type(v) is Term and v.op not in ('num', 'sym', 'str'):
                v = st.simp(v) if has_op(v, 'ite', 'lastval', 'and', 'or', 'not') or v.sort == 'b' else v
            elif type(v) is Choice:
                v = st.vsimp(v)
        return v

    def within(self, c, f, *a):
        """an access to one of the places a pointer may designate, under the condition that it does"""
        self.under.append(c)
        try:
            return f(*a)
        finally:
            self.under.pop()

    def store(self, p, val, st, quiet=False):
        if type(p) is Choice:
            c = st.simp(p.c)
            if c is T.TRUE:
                return self.store(p.a, val, st)
            if c is T.FALSE:
                return self.store(p.b, val, st)
            old = self.load(p.a, st, True)
            self.within(c, self.store, p.a, merge(c, val, old), st)
            old = self.load(p.b, st, True)
            self.within(T.lnot(c), self.store, p.b, merge(c, old, val), st)
            return
        if type(p) is not Ptr:
            raise Unsupported('store through %s at %s' % (type(p).__name__, self.where()))
        if p.root not in st.store:
            raise Unsupported('dead location %r at %s' % (p.root, self.where()))
        path = p.path
        if not quiet:
            v = st.store[p.root]
            for i, s in enumerate(path):
                if type(v) is Choice:
                    v = st.vsimp(v)
                if type(s) is tuple and s[0] == 'i':
                    self.note('w', p, i, v, s, st)
                if i < len(path) - 1:
                    v = step_get(v, s)
            if not any(type(s) is tuple and s[0] == 'i' for s in path):
                self.note('w', p, -1, None, None, st)
        if self.phi_guard(st.store[p.root]):
            pass
        st.store[p.root] = step_set(st.vsimp(st.store[p.root]) if type(st.store[p.root]) is Choice else st.store[p.root], path, val)

    def phi_guard(self, v):
        return False

    def note(self, rw, p, i, cont, s, st):
        """record an element access (only in final passes)"""
        if self.quiet or not self.logacc:
            return
        n = None
        if cont is not None:
            try:
                if type(cont) is Arr:
                    n = cont.shape
                elif type(cont) is Vec:
                    n = (T.num(len(cont.items)),)
                elif type(cont) is Term and cont.sort == 's':
                    return
                elif type(cont) is Choice:
                    n = (vlen(cont),)
                elif type(cont) is UndefV:
                    n = (T.ZERO,)
            except Unsupported:
                n = None
        self.accesses.append((rw, p.root, p.path, i, n, s[1:] if s else (), st.pc + tuple(self.under), tuple(self.loopctx), self.where(),
                              tuple(self.omp), self.curnode))

    def deref_idx(self, p, off):
        """pointer arithmetic"""
        if type(p) is Choice:
            return Choice(p.c, self.deref_idx(p.a, off), self.deref_idx(p.b, off))
        if type(p) is not Ptr:
            raise Unsupported('pointer arithmetic on %s at %s' % (type(p).__name__, self.where()))
        if p.path and type(p.path[-1]) is tuple and p.path[-1][0] == 'i':
            last = p.path[-1]
            return Ptr(p.root, p.path[:-1] + (last[:-1] + (T.add(last[-1], off),),))
        if off is T.ZERO:
            return p
        return Ptr(p.root, p.path + (('i', off),))

    def sub_path(self, p, step):
        if type(p) is Choice:
            return Choice(p.c, self.sub_path(p.a, step), self.sub_path(p.b, step))
        if type(p) is MapIt:
            if p.pos is None:
                raise Unsupported('dereference of end() at %s' % self.where())
            if step == 'second':
                return Ptr(p.root, p.path + (('m', p.pos),))
            if step == 'first':
                return Ptr(p.root, p.path + (('mk', p.pos),))
        if type(p) is not Ptr:
            raise Unsupported('member access through %s at %s' % (type(p).__name__, self.where()))
        if p.path and type(p.path[-1]) is tuple and p.path[-1][0] == 'mp':
            k = p.path[-1][1]
            if step == 'second':
                return Ptr(p.root, p.path[:-1] + (('m', k),))
            if step == 'first':
                return Ptr(p.root, p.path[:-1] + (('mk', k),))
        return Ptr(p.root, p.path + (step,))

    def live(self, p, st, pc=()):
        """the pointer value p without the end() leaves which the path condition excludes"""
        if type(p) is not Choice:
            return p
        if not self.has_end(p):
            return p
        r = self._live(p, st, ())
        return p if r is None else r

    def has_end(self, p):
        if type(p) is Choice:
            return self.has_end(p.a) or self.has_end(p.b)
        return type(p) is MapIt and p.pos is None

    def _live(self, p, st, conds):
        if type(p) is Choice:
            a = self._live(p.a, st, conds + (p.c,))
            b = self._live(p.b, st, conds + (T.lnot(p.c),))
            return b if a is None else a if b is None else Choice(p.c, a, b)
        if type(p) is MapIt and p.pos is None:
            s = State()
            for c in conds:
                s.assume(c)
            if any(s.simp(x) is T.FALSE for x in st.pc):
                return None
        return p

    # -------------------------------------------------------------- expressions
    def rv(self, n, st):
        v = self.ex(n, st)
        if type(v) is LRef:
            v = self.load(v.p, st)
        return v

    def lv(self, n, st):
        v = self.ex(n, st)
        if type(v) is LRef:
            return v.p
        return self.alloc(st, 'tmp', v)

    def ex(self, n, st):
        self.curnode = n
        m = getattr(self, 'e_' + n['k'], None)
        if m is None:
            raise Unsupported('expression %s %s at %s' % (n['k'], n.get('cls', ''), self.where()))
        return m(n, st)

    def e_int(self, n, st):
        if n.get('ty') == 'bool':
            return T.boolean(int(n['v']) != 0)
        return T.num(int(n['v']))

    def e_float(self, n, st):
        # the decimal the literal stands for
        return T.num(Fraction(repr(float(n['v']))), 'r')

    def e_bool(self, n, st):
        return T.boolean(n['v'])

    def e_char(self, n, st):
        return T.num(n['v'])

    def e_str(self, n, st):
        return T.string(n['v'])

    def e_nullptr(self, n, st):
        return NULL

    def e_this(self, n, st):
        return self.frames[-1].this

    def e_fnref(self, n, st):
        return FnV(n['mn'], n['fn'])

    def e_var(self, n, st):
        i = n['id']
        for fr in (self.frames[-1],):
            p = fr.env.get(i)
            if p is not None:
                return LRef(p)
        if 'global' in n:
            return LRef(self.global_(n, st))
        raise Unsupported('variable %s has no storage at %s' % (n['n'], self.where()))

    def global_(self, n, st):
        g = n['global']
        p = self.globals.get(g)
        if p is None:
            p = Ptr(Root(g, n['ty']))
            self.globals[g] = p
            if g in ('std::cout', 'std::cerr', 'std::clog'):
                p.root.shared = 'stream'
        if p.root not in st.store:
            if g in ('std::cout', 'std::cerr', 'std::clog'):
                st.store[p.root] = Stream()
            elif 'ginit' in n:
                st.store[p.root] = self.rv(n['ginit'], st)
            elif g in ('std::endl', 'std::flush'):
                st.store[p.root] = FnV(g, g)
            elif g.startswith('std::ios'):
                st.store[p.root] = T.sym(g)
            else:
                st.store[p.root] = FnV(g, g)
        return p

    def e_mem(self, n, st):
        if n.get('arrow'):
            p = self.rv(n['base'], st)
        else:
            p = self.lv(n['base'], st)
        self.curnode = n
        q = self.sub_path(self.live(p, st), n['n'])
        if n.get('isref'):
            return LRef(self.load(q, st, True))
        return LRef(q)

    def e_sub(self, n, st):
        p = self.rv(n['base'], st)
        i = self.rv(n['i'], st)
        self.curnode = n
        if type(p) is Term and p.sort == 's':
            from .values import char_at
            return char_at(p, i)
        return LRef(self.deref_idx(p, i))

    def e_mfn(self, n, st):
        return FnV(n['mn'], n['fn'], this=self.lv(n['base'], st) if not n['arrow'] else self.rv(n['base'], st))

    def e_zeroinit(self, n, st):
        return self.default(n['ty'], 'zero', True)

    def e_ilist(self, n, st):
        nm, a = tparts(n['ty'])
        items = [self.rv(c, st) for c in n['c']]
        if nm in ('carr', 'array'):
            if nm == 'array' and len(items) == 1 and type(items[0]) is Vec:
                return items[0]
            k = int(a[1]) if a[1] != '?' else len(items)
            while len(items) < k:
                items.append(self.default(a[0], 'zero', True))
            return Vec(items)
        r = self.prog.records.get(n['ty'])
        if r is not None:
            f = {}
            for i, fl in enumerate(r['fields']):
                f[fl['n']] = items[i] if i < len(items) else self.default(fl['ty'], 'zero', True)
            return Obj(n['ty'], f)
        if len(items) == 1:
            return items[0]
        if not items:
            return self.default(n['ty'], 'zero', True)
        return Vec(items)

    def e_cond(self, n, st):
        c = st.simp(self.rv(n['c'], st))
        if c is T.TRUE:
            return self.ex(n['a'], st)
        if c is T.FALSE:
            return self.ex(n['b'], st)
        self.useterm(c, st)
        s1, s2 = st.copy().assume(c), st.copy().assume(T.lnot(c))
        a = self.rv(n['a'], s1)
        b = self.rv(n['b'], s2)
        self.join_into(st, s1, s2)
        return merge(c, a, b)

    def join_into(self, st, s1, s2):
        m = merge_states(s1, s2)
        st.store = m.store

    def useterm(self, t, st):
        """the value decides control flow or is observable: it must be defined"""
        if self.quiet:
            return
        if type(t) is Term and any(x.op == 'undef' for x in T.syms_of(t)):
            self.undefs.append((t, st.pc, tuple(self.loopctx), self.where()))

    def e_cast(self, n, st):
        ck = n['ck']
        e = n['e']
        if ck == 'LValueToRValue':
            v = self.rv(e, st)
            if type(v) is UndefV and not self.quiet:
                self.undefs.append((T.undef(v.origin), st.pc, tuple(self.loopctx), self.where()))
            elif type(v) is Term and not self.quiet and any(x.op == 'undef' for x in T.syms_of(v)):
                self.undefs.append((v, st.pc, tuple(self.loopctx), self.where()))
            return v
        if ck == 'ArrayToPointerDecay':
            v = self.ex(e, st)
            if type(v) is LRef:
                w = self.load(v.p, st, True)
                if type(w) is Term and w.sort == 's':
                    return w
                return self.deref0(v.p)
            return v
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'NoOp', 'Dependent'):
            return self.rv(e, st)
        if ck == 'NullToPointer':
            return NULL
        if ck in ('BitCast', 'ToVoid', 'LValueBitCast'):
            v = self.ex(e, st)
            return v
        v = self.rv(e, st)
        self.curnode = n
        fty, ty = e.get('ty'), n['ty']
        return self.convert(v, fty, ty, ck, st)

    def deref0(self, p):
        if type(p) is Choice:
            return Choice(p.c, self.deref0(p.a), self.deref0(p.b))
        return Ptr(p.root, p.path + (('i', T.ZERO),))

    def convert(self, v, fty, ty, ck, st):
        if type(v) is Choice:
            return merge(v.c, self.convert(v.a, fty, ty, ck, st), self.convert(v.b, fty, ty, ck, st))
        if ck == 'PointerToBoolean' or (ty == 'bool' and type(v) is not Term):
            return T.boolean(type(v) is not Null)
        if type(v) is not Term:
            if type(v) is UndefV:
                return T.undef(v.origin, sort_of(ty))
            return v
        if ty == 'bool':
            if v.sort == 'b':
                return v
            if v.sort == 's':
                return T.TRUE
            return T.ne(v, T.ZERO)
        if is_float(ty):
            if v.sort == 'b':
                v = T.b2i(v)
            if is_int(fty or 'i32') and fty and fty[0] == 'u':
                v = self.unsigned(v, fty, st)
            return T.single(T.toreal(v)) if ty == 'f32' and fty != 'f32' else T.toreal(v)
        if is_int(ty):
            if v.sort == 'b':
                return T.b2i(v)
            if v.sort == 'r':
                return self.trunc(v)
            return self.cvt(v, fty, ty, st)
        return v

    def trunc(self, v):
        if v.op == 'num':
            return T.num(int(v.args[0]))
        return T.mkapp('trunc', (v,), 'i')

    def cvt(self, v, fty, ty, st):
        """integer conversion"""
        if fty in (None, 'enum') or ty == 'enum':
            return v
        if fty == 'bool':
            return T.b2i(v) if v.sort == 'b' else v
        if fty == ty:
            return v
        lo, hi = T.RANGE[ty]
        flo, fhi = T.RANGE[fty]
        if ty[0] == 'u':
            if fty[0] == 'u' and fhi <= hi:
                return self.unsigned(v, fty, st)
            if v.op == 'num':
                return T.cv(ty, v)
            # signed -> unsigned: keep the mathematical value; wrapped where it matters (div, mod, compare)
            if hi >= fhi:
                if T.nonneg(v) or self.known_nonneg(v, st):
                    return v
                return T.mk('cv', (ty, v), 'i') if v.op != 'cv' or v.args[0] != ty else v
            return T.cv(ty, v, fty)
        # to signed
        if hi >= fhi and lo <= flo:
            return self.unsigned(v, fty, st) if fty[0] == 'u' else v
        w = T.strip_cv(v, fty) if fty[0] == 'u' else v
        if self.precise or ty in ('i8', 'char', 'i16'):
            return T.cv(ty, w)
        self.assumed.add('%s->%s' % (fty, ty))
        return w

    def known_nonneg(self, v, st):
        if not st.pc:
            return False
        # v >= 0 or v > c recorded in the path condition
        if T.le(T.ZERO, v) in st.facts():
            return st.facts()[T.le(T.ZERO, v)] is T.TRUE
        c = T.lt0(v)
        f = st.facts()
        if f.get(c) is T.FALSE:
            return True
        for x in st.pc:
            if x.op == 'lt0' and x.args[0].sort == 'i':
                # d < 0 with d = e - v  =>  v > e ; need e >= -1
                e = T.add(x.args[0], v)
                b = T.bounds(e)[0]
                if b is not None and b >= -1:
                    return True
        return False

    def unsigned(self, v, ty, st):
        """the value of an unsigned expression, wrapped if it may be negative"""
        if v.op == 'num':
            return T.cv(ty, v)
        if v.op == 'cv' and v.args[0] == ty:
            return v
        if T.nonneg(v):
            return v
        s = T.strip_cv(v, ty)
        if T.nonneg(s) or (st is not None and self.known_nonneg(s, st)):
            return s
        if s.op == 'ite':
            return T.ite(s.args[0], self.unsigned(s.args[1], ty, st), self.unsigned(s.args[2], ty, st))
        if all_unsigned_atoms(s):
            return s
        return T.mk('cv', (ty, s), 'i')

    # -------------------------------------------------------------- operators
    def arith(self, op, a, b, ty, st):
        if type(a) is Choice:
            return merge(a.c, self.arith(op, a.a, b, ty, st), self.arith(op, a.b, b, ty, st))
        if type(b) is Choice:
            return merge(b.c, self.arith(op, a, b.a, ty, st), self.arith(op, a, b.b, ty, st))
        if type(a) is UndefV:
            a = T.undef(a.origin, sort_of(ty))
        if type(b) is UndefV:
            b = T.undef(b.origin, sort_of(ty))
        if type(a) is not Term or type(b) is not Term:
            raise Unsupported('arithmetic on %s/%s at %s' % (type(a).__name__, type(b).__name__, self.where()))
        if a.sort == 'b' and op not in ('&', '|', '^', '&&', '||'):
            a = T.b2i(a)
        if b.sort == 'b' and op not in ('&', '|', '^', '&&', '||'):
            b = T.b2i(b)
        if is_float(ty):
            a, b = T.toreal(a), T.toreal(b)
            if op == '+':
                return T.add(a, b)
            if op == '-':
                return T.sub(a, b)
            if op == '*':
                return T.mul(a, b)
            if op == '/':
                return T.rdiv(a, b)
            raise Unsupported('float op ' + op)
        uns = ty[0] == 'u'
        if op in ('+', '-', '*'):
            if uns:
                a, b = T.strip_cv(a, ty), T.strip_cv(b, ty)
            r = T.add(a, b) if op == '+' else T.sub(a, b) if op == '-' else T.mul(a, b)
            if uns:
                r = T.wrap_coef(r, ty)
            return r
        if op in ('/', '%'):
            if uns:
                a, b = self.unsigned(a, ty, st), self.unsigned(b, ty, st)
                if T.nonneg(a) or a.op == 'cv' or all_unsigned_atoms(a):
                    return T.fdiv(a, b) if op == '/' else T.fmod(a, b)
                return T.fdiv(a, b) if op == '/' else T.fmod(a, b)
            if self.known_nonneg(a, st) and T.positive(b):
                return T.fdiv(a, b) if op == '/' else T.fmod(a, b)
            return T.tdiv(a, b) if op == '/' else T.tmod(a, b)
        if op in ('&', '|', '^'):
            if a.sort == 'b' or b.sort == 'b' or ty == 'bool':
                a, b = self.tobool(a), self.tobool(b)
                r = T.land(a, b) if op == '&' else T.lor(a, b) if op == '|' else T.lor(T.land(a, T.lnot(b)), T.land(T.lnot(a), b))
                return r
            if is_bit(a) and is_bit(b):
                x, y = T.ne(a, T.ZERO), T.ne(b, T.ZERO)
                r = T.land(x, y) if op == '&' else T.lor(x, y) if op == '|' else T.lor(T.land(x, T.lnot(y)), T.land(T.lnot(x), y))
                return T.b2i(r)
            if T.is_num(a) and T.is_num(b):
                x, y = int(a.args[0]), int(b.args[0])
                return T.num(x & y if op == '&' else x | y if op == '|' else x ^ y)
            return T.mkapp({'&': 'band', '|': 'bor', '^': 'bxor'}[op], (a, b), 'i')
        if op == '<<' and T.is_num(b):
            return T.mul(a, T.num(2 ** int(b.args[0])))
        if op == '>>' and T.is_num(b):
            return T.fdiv(a, T.num(2 ** int(b.args[0])))
        raise Unsupported('operator %s at %s' % (op, self.where()))

    def tobool(self, t):
        if type(t) is Term:
            return t if t.sort == 'b' else T.ne(t, T.ZERO)
        return T.boolean(type(t) is not Null)

    def compare(self, op, a, b, ty, st):
        if type(a) is Choice:
            return T.ite(a.c, self.compare(op, a.a, b, ty, st), self.compare(op, a.b, b, ty, st))
        if type(b) is Choice:
            return T.ite(b.c, self.compare(op, a, b.a, ty, st), self.compare(op, a, b.b, ty, st))
        if type(a) is UndefV:
            a = T.undef(a.origin, sort_of(ty))
        if type(b) is UndefV:
            b = T.undef(b.origin, sort_of(ty))
        if type(a) is Term and type(b) is Term:
            if a.sort == 'b' and b.sort != 'b':
                a = T.b2i(a)
            if b.sort == 'b' and a.sort != 'b':
                b = T.b2i(b)
            if ty and ty[0] == 'u' and is_int(ty):
                a, b = self.unsigned(a, ty, st), self.unsigned(b, ty, st)
                if op in ('<', '>', '<=', '>='):
                    pass
            if op == '==':
                return T.eq(a, b)
            if op == '!=':
                return T.ne(a, b)
            if op == '<':
                return T.lt(a, b)
            if op == '>':
                return T.lt(b, a)
            if op == '<=':
                return T.le(a, b)
            if op == '>=':
                return T.le(b, a)
        if isinstance(a, (Ptr, Null, MapIt, FnV)) or isinstance(b, (Ptr, Null, MapIt, FnV)):
            if type(a) is Ptr and type(b) is Ptr and a.root is b.root and a.path[:-1] == b.path[:-1] and a.path and b.path and \
                    type(a.path[-1]) is tuple and type(b.path[-1]) is tuple and a.path[-1][:-1] == b.path[-1][:-1]:
                return self.compare(op, a.path[-1][-1], b.path[-1][-1], 'i64', st)
            e = vequal(a, b)
            if op == '==':
                return T.boolean(e)
            if op == '!=':
                return T.boolean(not e)
        if type(a) is Vec and type(b) is Vec and op in ('==', '!='):
            e = T.FALSE if len(a.items) != len(b.items) else T.land(*[self.compare('==', x, y, 'i32', st) for x, y in zip(a.items, b.items)])
            return e if op == '==' else T.lnot(e)
        raise Unsupported('comparison of %s and %s at %s' % (type(a).__name__, type(b).__name__, self.where()))

    def e_bin(self, n, st):
        op = n['op']
        if op in ('=',):
            r = self.rv(n['r'], st)
            l = self.lv(n['l'], st)
            self.curnode = n
            self.store(l, r, st)
            return LRef(l)
        if op in ('&&', '||'):
            a = st.simp(self.tobool(self.rv(n['l'], st)))
            if op == '&&':
                if a is T.FALSE:
                    return a
                s2 = st.copy().assume(a)
                b = self.tobool(self.rv(n['r'], s2))
                self.short(st, s2, a)
                return T.land(a, b)
            if a is T.TRUE:
                return a
            s2 = st.copy().assume(T.lnot(a))
            b = self.tobool(self.rv(n['r'], s2))
            self.short(st, s2, T.lnot(a))
            return T.lor(a, b)
        if op == ',':
            self.ex(n['l'], st)
            return self.ex(n['r'], st)
        a = self.rv(n['l'], st)
        b = self.rv(n['r'], st)
        self.curnode = n
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return self.compare(op, a, b, n['l'].get('ty'), st)
        if n['ty'].startswith('ptr<') and not (type(a) is Term and a.sort == 's'):
            if type(a) is Term:
                a, b = b, a
            return self.deref_idx(a, b if op == '+' else T.neg(b))
        if type(a) is Ptr and type(b) is Ptr and op == '-':
            return T.sub(a.path[-1][-1], b.path[-1][-1])
        return self.arith(op, a, b, n['ty'], st)

    def short(self, st, s2, cond):
        if all(s2.store.get(r) is v for r, v in st.store.items()):
            for r, v in s2.store.items():
                st.store.setdefault(r, v)
            return
        s1 = st.copy().assume(T.lnot(cond))
        self.join_into(st, s1, s2)

    def e_casg(self, n, st):
        r = self.rv(n['r'], st)
        l = self.lv(n['l'], st)
        old = self.load(l, st)
        self.curnode = n
        if type(old) in (Ptr,):
            new = self.deref_idx(old, r if n['op'] == '+' else T.neg(r))
        else:
            if type(old) is Term and any(x.op == 'undef' for x in T.syms_of(old)) and not self.quiet:
                self.undefs.append((old, st.pc, tuple(self.loopctx), self.where()))
            lty, cty = n['lty'], n['cty']
            x = old
            if cty != lty:
                x = self.convert(x, lty, cty, 'x', st)
            x = self.arith(n['op'], x, r, cty, st)
            if cty != lty:
                x = self.convert(x, cty, lty, 'x', st)
            new = x
        self.store(l, new, st)
        return LRef(l)

    def e_un(self, n, st):
        op = n['op']
        if op in ('++', '--'):
            l = self.lv(n['e'], st)
            old = self.load(l, st)
            d = T.ONE if op == '++' else T.num(-1)
            if type(old) is Term:
                new = self.arith('+', old, d, n['e'].get('ty', 'i32'), st)
            else:
                new = self.deref_idx(old, d)
            self.curnode = n
            self.store(l, new, st)
            return old if n['post'] else LRef(l)
        if op == '&':
            v = self.ex(n['e'], st)
            if type(v) is LRef:
                return v.p
            return v
        if op == '*':
            p = self.rv(n['e'], st)
            self.curnode = n
            if type(p) is FnV:
                return p
            if type(p) is MapIt:
                return LRef(Ptr(p.root, p.path + (('mp', p.pos),)))
            if type(p) is Term and p.sort == 's':
                from .values import char_at
                return char_at(p, T.ZERO)
            return LRef(p)
        v = self.rv(n['e'], st)
        if op == '-':
            if type(v) is Term and v.sort == 'b':
                v = T.b2i(v)
            return T.neg(v)
        if op == '+':
            return v
        if op == '!':
            return T.lnot(self.tobool(v) if type(v) is not Choice else T.ite(v.c, self.tobool(v.a), self.tobool(v.b)))
        if op == '~' and T.is_num(v):
            return T.num(~int(v.args[0]))
        raise Unsupported('unary %s at %s' % (op, self.where()))

    def e_lambda(self, n, st):
        env = {}
        fr = self.frames[-1]
        for c in n['caps']:
            if c.get('this'):
                continue
            if 'init' in c:
                env[c['id']] = self.alloc(st, 'cap', self.rv(c['init'], st))
            elif c.get('byref'):
                env[c['id']] = fr.env[c['id']]
            else:
                env[c['id']] = self.alloc(st, 'cap', self.load(fr.env[c['id']], st, True))
        return FnV(None, 'lambda', env, n, fr.this)

    # -------------------------------------------------------------- calls
    def e_call(self, n, st):
        fn = n['fn']
        if fn == '?':
            f = self.rv(n['ce'], st)
            args = [self.arg(a, st, 0) for a in n['args']]
            self.curnode = n
            return self.callv(f, args, st, n)
        return self.invoke(n, None, st)

    def arg(self, a, st, isref):
        return self.lv(a, st) if isref else self.rv(a, st)

    def args_for(self, n, st):
        pr = n.get('prefs', [])
        out = []
        for i, a in enumerate(n['args']):
            isref = pr[i] if i < len(pr) else 0
            out.append(self.lv(a, st) if isref else self.rv(a, st))
        return out

    def invoke(self, n, this, st):
        """call of a function known by name; this = object location or None"""
        from . import cxxlib
        fn, mn = n['fn'], n['mn']
        if fn in self.stubs:
            args = self.args_for(n, st)
            self.curnode = n
            return self.stubs[fn](self, st, this, args, n)
        cls = fn.rsplit('::', 1)[0] if '::' in fn else None
        if cls in self.clsstubs and this is not None:
            args = self.args_for(n, st)
            self.curnode = n
            r = self.clsstubs[cls](self, st, cls, fn.rsplit('::', 1)[1], this, args, n)
            if r is not NotImplemented:
                return r
        f = self.prog.fns.get(mn)
        if f is not None:
            args = self.args_for(n, st)
            self.curnode = n
            return self.call(f, this, args, st)
        return cxxlib.call(self, n, this, st)

    def callv(self, f, args, st, n=None):
        """call a function value"""
        if type(f) is Ptr:
            f = self.load(f, st, True)
        if type(f) is Choice:
            s1, s2 = st.copy().assume(f.c), st.copy().assume(T.lnot(f.c))
            a = self.callv(f.a, args, s1, n)
            b = self.callv(f.b, args, s2, n)
            self.join_into(st, s1, s2)
            return merge(f.c, self.val(a, s1), self.val(b, s2))
        if type(f) is not FnV:
            raise Unsupported('call of %s at %s' % (type(f).__name__, self.where()))
        if f.node is not None:
            return self.call_lambda(f, args, st)
        g = self.prog.fns.get(f.fid)
        if g is not None:
            return self.call(g, f.this, args, st)
        if callable(f.env):
            return f.env(self, st, args)
        raise Unsupported('call of unknown function value %s at %s' % (f.name, self.where()))

    def val(self, v, st):
        return self.load(v.p, st) if type(v) is LRef else v

    def call_lambda(self, f, args, st):
        fr = Frame({'q': 'lambda', 'file': self.frames[-1].fn['file'], 'retref': False}, f.this)
        fr.env.update(f.env)
        for p, a in zip(f.node['params'], args):
            if p['isref'] and isinstance(a, Ptr):
                fr.env[p['id']] = a
            else:
                fr.env[p['id']] = self.alloc(st, p['n'], a)
        return self.run_body(fr, f.node['body'], st, False)

    def enter(self, st):
        """give the static local variables their initial values"""
        for f, v in self.prog.statics:
            k = v['id']
            p = self.statics.get(k)
            if p is not None and p.root in st.store:
                continue
            x = None
            if k not in self.guards:
                self.frames.append(Frame(f, None))
                s2 = st.copy()
                try:
                    x = self.rv(v['init'], s2) if 'init' in v else self.default(v['ty'], v['n'], True, s2)
                except (Unsupported, PathEnds, KeyError, AttributeError, TypeError):
                    pass
                finally:
                    self.frames.pop()
            if p is None:
                p = self.statics[k] = Ptr(Root(v['n'], v['ty']))
            if x is None:
                # initialised when its declaration is first reached
                g = self.guards.setdefault(k, Root('initialised ' + v['n'], 'bool'))
                st.store[g] = T.FALSE
                x = self.default(v['ty'], v['n'], False, st) if is_int(v['ty']) or is_float(v['ty']) or v['ty'] == 'bool' else UndefV(v['n'], v['ty'])
            st.store[p.root] = x

    def call(self, f, this, args, st):
        if len(self.frames) > 60:
            raise Unsupported('call depth')
        if len(self.frames) <= 1:
            self.enter(st)
        self.visited[f['q']] = f['file']
        fr = Frame(f, this)
        for i, p in enumerate(f['params']):
            if i >= len(args):
                break
            a = args[i]
            if p['isref']:
                fr.env[p['id']] = a if isinstance(a, (Ptr, Choice)) and not isinstance(a, LRef) else self.alloc(st, p['n'], a, p['ty'])
            else:
                if isinstance(a, LRef):
                    a = self.load(a.p, st)
                fr.env[p['id']] = self.alloc(st, p['n'], a, p['ty'])
        if f.get('ctor'):
            self.frames.append(fr)
            try:
                self.ctor_inits(f, this, st)
            finally:
                self.frames.pop()
        r = self.run_body(fr, f['body'], st, f.get('retref'))
        h = self.after.get(f['q'])
        if h is not None and r is not None:
            r2 = h(self, st, this, args, r)
            if r2 is not None:
                r = r2
        return r

    def ctor_inits(self, f, this, st):
        rec = self.prog.records.get(f['cls'])
        done = set()
        for i in f.get('inits', []):
            if i.get('delegate'):
                v = self.rv(i['e'], st)
                self.store(this, v, st, True)
                return
            if i.get('field'):
                e = i['e']
                fl = [x for x in rec['fields'] if x['n'] == i['field']][0]
                v = self.ex(e, st)
                if type(v) is LRef:
                    v = v.p if fl['ty'].startswith('ref<') else self.load(v.p, st)
                self.store(Ptr(this.root, this.path + (i['field'],)), v, st, True)
                done.add(i['field'])
        for fl in rec['fields']:
            if fl['n'] not in done and 'init' in fl:
                self.store(Ptr(this.root, this.path + (fl['n'],)), self.rv(fl['init'], st), st, True)

    def run_body(self, fr, body, st, retref):
        """executes a function body; st is updated in place; returns the value"""
        self.frames.append(fr)
        saved = self.curnode
        base = st.copy()
        try:
            o = self.block([body] if body['k'] != 'block' else None, st.copy(), body)
        finally:
            self.frames.pop()
        self.curnode = saved
        outs = [(s, v) for s, v in o.ret]
        if o.next is not None:
            outs.append((o.next, VOID))
        for s in o.exit:
            self.exits(s)
        if not outs:
            # every path leaves the program
            st.pc = st.pc + (T.FALSE,)
            st._facts = None
            raise PathEnds(o.exit)
        cur, val = outs[0]
        for s, v in outs[1:]:
            c = merge_cond(cur, s)
            if val is VOID and v is not VOID and len(outs) > 1:
                val2 = v
                if fr.fn.get('ret') not in (None, 'void') and not self.quiet:
                    self.undefs.append((T.undef('missing return value of ' + fr.fn['q']), cur.pc, tuple(self.loopctx), self.where()))
            elif v is VOID and val is not VOID:
                val2 = val
            elif val is VOID:
                val2 = VOID
            else:
                val2 = merge(c, val, v)
            cur = merge_states(cur, s)
            val = val2
        st.store = cur.store
        # the joined path condition may be stronger than before the call (paths that exit)
        st.pc = cur.pc
        st._facts = None
        if val is VOID:
            return VOID
        if retref:
            return LRef(val)
        return val

    def exits(self, s):
        self.exitstates.append(s) if hasattr(self, 'exitstates') else None

    def e_mcall(self, n, st):
        from . import cxxlib
        fn = n['fn']
        if n.get('arrow'):
            this = self.rv(n['obj'], st)
        else:
            this = self.lv(n['obj'], st)
        self.curnode = n
        f = self.prog.fns.get(n['mn'])
        cls = fn.rsplit('::', 1)[0]
        if f is None and fn not in self.stubs and cls not in self.clsstubs:
            return cxxlib.method(self, n, this, st)
        if type(this) is Choice:
            raise Unsupported('method call on one of several objects at %s' % self.where())
        return self.invoke(n, this, st)

    def e_opcall(self, n, st):
        from . import cxxlib
        f = self.prog.fns.get(n.get('mn'))
        if f is not None:
            ismeth = 'cls' in f and not f.get('static')
            if ismeth:
                this = self.lv(n['args'][0], st)
                fv = self.load(this, st, True) if type(this) in (Ptr, Choice) else None
                if type(fv) is FnV or type(fv) is Choice and type(fv.a) is FnV:
                    self.curnode = n
                    return self.callv(fv, [self.lv(a, st) if (n['prefs'][i] if i < len(n['prefs']) else 0) else self.rv(a, st)
                                           for i, a in enumerate(n['args'][1:])], st, n)
                args = [self.lv(a, st) if (n['prefs'][i] if i < len(n['prefs']) else 0) else self.rv(a, st)
                        for i, a in enumerate(n['args'][1:])]
                return self.call(f, this, args, st)
            return self.call(f, None, self.args_for(n, st), st)
        return cxxlib.opcall(self, n, st)

    def e_ctor(self, n, st):
        from . import cxxlib
        ty = n['ty']
        f = self.prog.fns.get(n['mn'])
        cls = n['fn'].rsplit('::', 1)[0]
        if cls in self.clsstubs:
            args = self.args_for(n, st)
            self.curnode = n
            p = self.alloc(st, ty, Obj(ty, {}), ty)
            r = self.clsstubs[cls](self, st, cls, '<ctor>', p, args, n)
            if r is not NotImplemented:
                return st.store[p.root]
        if len(n['args']) == 1 and ('lambda' in n['fn'] or f is not None and f.get('cls') not in self.prog.records):
            # copy or move of a closure
            v = self.rv(n['args'][0], st)
            if type(v) is FnV:
                return v
        if f is not None:
            args = self.args_for(n, st)
            self.curnode = n
            p = self.alloc(st, ty, self.default(ty, ty), ty)
            self.call(f, p, args, st)
            return st.store[p.root]
        if n.get('copy') and not ty.startswith('unique_ptr<'):
            v = self.rv(n['args'][0], st)
            if type(v) is MapIt or type(v) is Ptr:
                return v
            return v
        return cxxlib.construct(self, n, st)

    def e_new(self, n, st):
        self.heap += 1
        r = Root('new%d' % self.heap, n['ety'])
        r.shared = 'heap'
        if n['array']:
            ln = self.rv(n['n'], st)
            j = T.fresh('j', lo=0, ub=ln)
            st.store[r] = Arr((ln,), (j,), self.default(n['ety'], 'new[]', 'init' in n))
            self.event(st, 'new[]', Ptr(r))
            return Ptr(r, (('i', T.ZERO),))
        st.store[r] = self.rv(n['init'], st) if 'init' in n else self.default(n['ety'], 'new')
        self.event(st, 'new', Ptr(r))
        return Ptr(r)

    def e_delete(self, n, st):
        p = self.rv(n['e'], st)
        self.discard(p, n['array'], st)
        return VOID

    def discard(self, p, array, st):
        """delete: the destructor of the object runs, then the memory is released"""
        if type(p) is Ptr and not array and not p.path and p.root.ty and p.root in st.store and \
                (self.needs_dtor(p.root.ty) or p.root.ty in self.clsstubs):
            self.run_dtor(p.root.ty, p, st)
        self.event(st, 'delete[]' if array else 'delete', p)

    def e_throw(self, n, st):
        raise PathEnds([st])

    # -------------------------------------------------------------- statements
    def stmt(self, n, st):
        """returns an Outcome; st may be mutated"""
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported('analysis budget exhausted')
        self.curnode = n
        m = getattr(self, 's_' + n['k'], None)
        if m is not None:
            return m(n, st)
        try:
            self.ex(n, st)
        except PathEnds as e:
            o = Outcome(None)
            o.exit = list(e.states)
            return o
        return Outcome(st)

    def block(self, stmts, st, n):
        """sequence with destructors at the end"""
        if n['k'] == 'block':
            stmts = n['c']
        out = Outcome()
        cur = st
        declared = []
        for s in stmts:
            if s is None:
                continue
            o = self.stmt(s, cur)
            out.absorb(o)
            if s['k'] == 'decl':
                declared += [v for v in s['vars']]
            cur = o.next
            if cur is None:
                break
        out.next = cur
        self.destroy(declared, out)
        return out

    def destroy(self, declared, out):
        fr = self.frames[-1]
        vs = []
        for v in declared:
            if v['isref'] or v.get('static'):
                continue
            cls = v['ty']
            if self.needs_dtor(cls) or cls in self.clsstubs:
                p = fr.env.get(v['id'])
                if p is not None:
                    vs.append((cls, p))
        if not vs:
            return
        def d(s):
            for cls, p in reversed(vs):
                if p.root in s.store:
                    self.run_dtor(cls, p, s)
        for s in (out.next, out.brk, out.cont):
            if s is not None:
                d(s)
        for s, _ in out.ret:
            d(s)

    def needs_dtor(self, cls):
        if cls.startswith('unique_ptr<'):
            return True
        r = self.prog.records.get(cls)
        if r is None:
            return False
        if r.get('hasdtor'):
            return True
        return any(self.needs_dtor(f['ty']) for f in r['fields'])

    def run_dtor(self, cls, p, s):
        if cls in self.clsstubs:
            self.clsstubs[cls](self, s, cls, '<dtor>', p, [], None)
            return
        if cls.startswith('unique_ptr<'):
            v = self.load(p, s, True)
            if v is not NULL and type(v) is not UndefV:
                self.discard(v, tparts(cls)[1][0].startswith('carr<'), s)
            return
        r = self.prog.records[cls]
        for f in self.prog.fns.values():
            if f.get('dtor') and f.get('cls') == cls:
                self.call(f, p, [], s)
                break
        for fl in r['fields']:
            if self.needs_dtor(fl['ty']):
                self.run_dtor(fl['ty'], Ptr(p.root, p.path + (fl['n'],)), s)

    def s_block(self, n, st):
        return self.block(None, st, n)

    def s_null(self, n, st):
        return Outcome(st)

    def s_decl(self, n, st):
        try:
            for v in n['vars']:
                self.declare(v, st)
        except PathEnds as e:
            o = Outcome(None)
            o.exit = list(e.states)
            return o
        return Outcome(st)

    def declare(self, v, st):
        fr = self.frames[-1]
        if v.get('static'):
            p = self.statics.get(v['id'])
            if p is not None and p.root in st.store:
                g = self.guards.get(v['id'])
                if g is not None:
                    self.first(v, p, g, st)
                fr.env[v['id']] = p
                return
        if v['isref']:
            x = self.ex(v['init'], st)
            if type(x) is LRef:
                fr.env[v['id']] = x.p
            else:
                fr.env[v['id']] = self.alloc(st, v['n'], x, v['ty'])
            return
        if 'init' in v:
            x = self.ex(v['init'], st)
            if type(x) is LRef:
                x = self.load(x.p, st)
            self.curnode = v
        else:
            x = self.default(v['ty'], v['n'], False, st)
        fr.env[v['id']] = self.alloc(st, v['n'], x, v['ty'])

    def first(self, v, p, g, st):
        """initialise a static local variable whose declaration is reached for the first time"""
        done = st.simp(st.store[g])
        if done is T.TRUE:
            return
        s2 = st if done is T.FALSE else st.copy().assume(T.lnot(done))
        x = self.ex(v['init'], s2)
        if type(x) is LRef:
            x = self.load(x.p, s2)
        s2.store[p.root] = x
        s2.store[g] = T.TRUE
        if s2 is not st:
            m = merge_states(st.copy().assume(done), s2)
            st.store, st.pc, st._facts = m.store, m.pc, None

    def s_if(self, n, st):
        try:
            if 'init' in n and n['init']:
                o = self.stmt(n['init'], st)
                st = o.next
            if 'cvar' in n:
                self.declare(n['cvar'], st)
            c = self.rv(n['cond'], st)
        except PathEnds as e:
            o = Outcome(None)
            o.exit = list(e.states)
            return o
        c = self.tobool(c) if type(c) is not Choice else T.ite(c.c, self.tobool(c.a), self.tobool(c.b))
        c = st.simp(c)
        if c is T.TRUE:
            return self.stmt(n['then'], st)
        if c is T.FALSE:
            return self.stmt(n['else'], st) if n.get('else') else Outcome(st)
        self.useterm(c, st)
        s1, s2 = st.copy().assume(c), st.copy().assume(T.lnot(c))
        o1 = self.stmt(n['then'], s1)
        o2 = self.stmt(n['else'], s2) if n.get('else') else Outcome(s2)
        out = Outcome(merge_states(o1.next, o2.next))
        out.absorb(o1)
        out.absorb(o2)
        return out

    def s_return(self, n, st):
        o = Outcome(None)
        try:
            v = VOID
            if n.get('e') is not None:
                x = self.ex(n['e'], st)
                if type(x) is LRef:
                    v = x.p if self.frames[-1].fn.get('retref') else self.load(x.p, st)
                else:
                    v = x
        except PathEnds as e:
            o.exit = list(e.states)
            return o
        o.ret = [(st, v)]
        return o

    def s_break(self, n, st):
        o = Outcome(None)
        o.brk = st
        return o

    def s_continue(self, n, st):
        o = Outcome(None)
        o.cont = st
        return o

    def s_for(self, n, st, omp=None):
        if n.get('init'):
            o = self.stmt(n['init'], st)
            st = o.next
        info = {'node': n, 'omp': omp, 'mark': Root.count, 'where': self.where(), 'depth': len(self.omp)}

        def cond(s):
            if not n.get('cond'):
                return T.TRUE
            c = self.rv(n['cond'], s)
            return self.tobool(c) if type(c) is Term else self.rvbool(c)

        def inc(s):
            if n.get('inc'):
                self.ex(n['inc'], s)
            return s
        o = run_loop(self, st, cond, lambda s: self.stmt(n['body'], s), inc, info)
        if n.get('init') and n['init']['k'] == 'decl':
            self.destroy(n['init']['vars'], o)
        return o

    def rvbool(self, c):
        if type(c) is Choice:
            return T.ite(c.c, self.rvbool(c.a), self.rvbool(c.b))
        return self.tobool(c)

    def s_while(self, n, st):
        def cond(s):
            if 'cvar' in n:
                self.declare(n['cvar'], s)
            return self.rvbool(self.rv(n['cond'], s))
        return run_loop(self, st, cond, lambda s: self.stmt(n['body'], s), lambda s: s,
                        {'node': n, 'omp': None, 'mark': Root.count, 'where': self.where(), 'depth': len(self.omp)})

    def s_do(self, n, st):
        o = self.stmt(n['body'], st)
        out = Outcome()
        out.absorb(o, loop=True)
        cur = merge_states(o.next, o.cont)
        if cur is not None:
            o2 = self.s_while(n, cur)
            out.absorb(o2)
            out.next = o2.next
        out.next = merge_states(out.next, o.brk)
        return out

    def s_rangefor(self, n, st):
        r = self.lv(n['range'], st)
        v = self.load(r, st, True)
        fr = self.frames[-1]
        var = n['var']
        info = {'node': n, 'omp': None, 'mark': Root.count, 'where': self.where(), 'depth': len(self.omp)}
        if type(v) is MapV:
            out = Outcome()
            cur = st
            for k in v.keys:
                p = Ptr(r.root, r.path + (('mp', k),))
                fr.env[var['id']] = p if var['isref'] else self.alloc(cur, var['n'], self.load(p, cur, True))
                o = self.stmt(n['body'], cur)
                out.absorb(o, loop=True)
                out.next = merge_states(out.next, o.brk)
                cur = merge_states(o.next, o.cont)
                if cur is None:
                    return out
            out.next = merge_states(out.next, cur)
            return out
        ip = self.alloc(st, '#ri', T.ZERO, 'u64')

        def cond(s):
            return T.lt(self.load(ip, s, True), vlen(self.load(r, s, True)))

        def body(s):
            p = Ptr(r.root, r.path + (('i', self.load(ip, s, True)),)) if type(r) is Ptr else self.deref_idx(self.deref0(r), self.load(ip, s, True))
            if var['isref']:
                fr.env[var['id']] = p
            else:
                fr.env[var['id']] = self.alloc(s, var['n'], self.load(p, s), var['ty'])
            return self.stmt(n['body'], s)

        def inc(s):
            self.store(ip, T.add(self.load(ip, s, True), T.ONE), s, True)
            return s
        return run_loop(self, st, cond, body, inc, info)

    def s_switch(self, n, st):
        c = self.rv(n['cond'], st)
        body = n['body']['c'] if n['body']['k'] == 'block' else [n['body']]
        # flatten case labels
        seq = []
        for s in body:
            labels = []
            while s is not None and s['k'] in ('case', 'default'):
                labels.append(s)
                s = s['body']
            seq.append((labels, s))
        out = Outcome()
        nodefault = T.TRUE
        starts = []
        hasdef = None
        for i, (ls, s) in enumerate(seq):
            for l in ls:
                if l['k'] == 'case':
                    e = self.rv(l['e'], st)
                    cc = T.land(T.eq(c, e), nodefault)
                    nodefault = T.land(nodefault, T.ne(c, e))
                    starts.append((cc, i))
                else:
                    hasdef = i
        if hasdef is not None:
            starts.append((nodefault, hasdef))
        rest = nodefault if hasdef is None else T.FALSE
        entries = {}
        for cc, i in starts:
            entries[i] = T.lor(entries.get(i, T.FALSE), cc)
        cur = None
        for i, (ls, s) in enumerate(seq):
            if i in entries:
                e = st.simp(entries[i])
                if e is not T.FALSE:
                    cur = merge_states(cur, st.copy().assume(e))
            if cur is not None and s is not None:
                o = self.stmt(s, cur)
                out.ret += o.ret
                out.exit += o.exit
                out.cont = merge_states(out.cont, o.cont)
                out.next = merge_states(out.next, o.brk)
                cur = o.next
        out.next = merge_states(out.next, cur)
        if rest is not T.FALSE and st.simp(rest) is not T.FALSE:
            out.next = merge_states(out.next, st.copy().assume(rest))
        return out

    def s_try(self, n, st):
        return self.stmt(n['body'], st)

    def s_unknown(self, n, st):
        raise Unsupported('statement %s at %s' % (n.get('cls'), self.where()))

    # -------------------------------------------------------------- OpenMP
    def s_omp(self, n, st):
        d = n['dir']
        reg = {'dir': d, 'clauses': n['clauses'], 'mark': Root.count, 'node': n, 'where': self.where(),
               'private': set(), 'firstprivate': set(), 'reduction': set(), 'lastprivate': set(),
               'id': len(self.ompseen)}
        if not self.quiet:
            self.ompseen.append(reg)
        fr = self.frames[-1]
        saved = {}
        reg['maps'] = []
        for c in n['clauses']:
            if c['c'] == 'map' and not c.get('implicit'):
                for v in c.get('vars', []):
                    reg['maps'].append((c['map'], c.get('acc') or 'map', self.mapitem(v, st)))
        b = n.get('body')
        if b and b['k'] == 'for' and b.get('init') and b['init'].get('k') == 'bin' and b['init'].get('op') == '=' and b['init']['l'].get('k') == 'var' \
                and ({'for', 'distribute', 'taskloop', 'simd', 'loop'} & set(d.split())):
            # the control variable of an associated loop is private
            v = b['init']['l']
            p = fr.env.get(v['id'])
            if type(p) is Ptr:
                q = self.alloc(st, v['n'], self.default(v['ty'], v['n'] + ' (private)'), v['ty'])
                q.root.shared = 'private'
                saved[v['id']] = p
                fr.env[v['id']] = q
        for c in n['clauses']:
            if c['c'] in ('private', 'firstprivate', 'lastprivate', 'reduction', 'linear') and not c.get('implicit'):
                for v in c.get('vars', []):
                    if v['k'] != 'var':
                        continue
                    p = fr.env.get(v['id'])
                    if p is None:
                        continue
                    if c['c'] == 'private':
                        q = self.alloc(st, v['n'], self.private_value(v, p, st), v['ty'])
                        q.root.shared = 'private'
                        saved[v['id']] = p
                        fr.env[v['id']] = q
                    elif c['c'] == 'firstprivate':
                        q = self.alloc(st, v['n'], self.load(p, st, True), v['ty'])
                        q.root.shared = 'private'
                        saved[v['id']] = p
                        fr.env[v['id']] = q
                    else:
                        reg[c['c']].add(p.root)
        if n.get('body') is None:
            if not self.quiet:
                self.accesses.append(('omp', reg, None, None, None, (), st.pc, tuple(self.loopctx), self.where(), tuple(self.omp), n))
            return Outcome(st)
        self.omp.append(reg)
        reg['mark'] = Root.count
        if not self.quiet:
            self.accesses.append(('begin', reg, None, None, None, (), st.pc, tuple(self.loopctx), self.where(), tuple(self.omp), n))
        try:
            b = n['body']
            if b['k'] == 'for' and {'for', 'distribute', 'taskloop', 'simd', 'loop'} & set(d.split()):
                o = self.s_for(b, st, reg)
            else:
                o = self.stmt(b, st)
        finally:
            self.omp.pop()
        if not self.quiet:
            self.accesses.append(('end', reg, None, None, None, (), st.pc, tuple(self.loopctx), self.where(), tuple(self.omp), n))
        fr.env.update(saved)
        return o


    def private_value(self, v, p, st):
        return self.default(v['ty'], v['n'] + ' (private)')

    def mapitem(self, v, st):
        """an item of a data clause: {'name', 'ptr' (first element or variable), 'lo', 'len'}"""
        k = v.get('k')
        fr = self.frames[-1]
        self.quiet += 1
        try:
            if k == 'badname':
                return {'name': v['n'], 'bad': True}
            if k == 'var':
                p = fr.env.get(v['id'])
                return {'name': v['n'], 'ptr': p, 'val': st.store.get(p.root) if type(p) is Ptr else None}
            if k == 'member':
                return {'name': v['n'], 'ptr': Ptr(fr.this.root, fr.this.path + (v['n'],))}
            if k == 'section':
                if 'var' in v:
                    it = self.mapitem(v['var'], st)
                    p = it.get('ptr')
                    nm = it['name']
                    if type(p) is Ptr:
                        x = self.load(p, st, True)
                        p = x if type(x) is Ptr else Ptr(p.root, p.path + (('i', T.ZERO),))
                else:
                    p = self.rv(v['base'], st)
                    b = v['base']
                    while b.get('k') == 'cast':
                        b = b['e']
                    nm = b.get('n', '?')
                return {'name': nm, 'ptr': p, 'lo': self.pexpr(v['lo'], st) if v.get('lo') else T.ZERO,
                        'len': self.pexpr(v['len'], st) if v.get('len') else None, 'ext': self.extent_of(p, st)}
        except Unsupported:
            pass
        finally:
            self.quiet -= 1
        return {'name': v.get('n', '?'), 'unknown': True}

    def extent_of(self, p, st):
        """number of elements of the array a pointer points into"""
        if type(p) is not Ptr or not p.path or type(p.path[-1]) is not tuple or p.path[-1][0] != 'i':
            return None
        x = self.load(Ptr(p.root, p.path[:-1]), st, True)
        try:
            return vlen(x)
        except Unsupported:
            return None

    def pexpr(self, e, st):
        if e['k'] == 'pbin':
            a, b = self.pexpr(e['l'], st), self.pexpr(e['r'], st)
            return {'+': T.add, '-': T.sub, '*': T.mul, '/': T.fdiv}[e['op']](a, b)
        if e['k'] == 'var':
            return self.load(self.frames[-1].env[e['id']], st, True)
        if e['k'] == 'member':
            fr = self.frames[-1]
            return self.load(Ptr(fr.this.root, fr.this.path + (e['n'],)), st, True)
        return self.rv(e, st)


class PathEnds(Exception):
    def __init__(self, states):
        self.states = states


def has_op(t, *ops):
    for x in T.walk(t):
        if x.op in ops:
            return True
    return False


def is_bit(t):
    if T.is_num(t):
        return t.args[0] in (0, 1)
    if t.op == 'ite':
        return is_bit(t.args[1]) and is_bit(t.args[2])
    return False


def all_unsigned_atoms(t):
    """a sum of products of quantities that are unsigned by type with non-negative coefficients"""
    if t.op in ('sel', 'app', 'lastval', 'sum', 'prod', 'rec', 'minover', 'nth', 'first', 'fdiv', 'fmod', 'undef'):
        return True
    return False
