"""Abstract interpreter for the Python sources (syntax trees of the ast module).

Values: numbers, booleans and strings are terms, None is NULL, formatted text is a Stream, lists and arrays are pointers to
locations holding Vec / Arr (an array that has no name yet is the bare Vec / Arr), slices of arrays are views that are
evaluated when they are used.  numpy, mpi4py and mpinum are modelled by their documented behaviour.
"""
import ast
import os
from fractions import Fraction
from . import term as T
from .term import Term
from .cxx import Interp, Frame, PathEnds, AnalysisBroken, SourceBroken, REPO, TRACE
from .values import Raised
from .values import (Vec, Arr, Obj, Ptr, NULL, Null, Choice, UndefV, VOID, Item, Rep, Stream, Root, Sub, FnV, Unsupported,
                     merge, merge_states, merge_cond, vec2arr, step_get, step_set)
from .loops import Outcome, run_loop

SMALL = 64
ZR = T.num(0, 'r')


class Lib:
    """a name of a library or a builtin"""
    __slots__ = ('q',)

    def __init__(self, q):
        self.q = q

    def __eq__(self, o):
        return type(o) is Lib and o.q == self.q

    def __hash__(self):
        return hash(self.q)

    def __repr__(self):
        return 'lib:' + self.q


class Fun:
    """a function or method of the program"""

    def __init__(self, mod, q, node, cls=None):
        self.mod, self.q, self.node, self.cls = mod, q, node, cls
        decs = [ast.unparse(d) for d in node.decorator_list]
        self.static, self.prop, self.clsm = 'staticmethod' in decs, 'property' in decs, 'classmethod' in decs
        if [d for d in decs if d not in ('staticmethod', 'property')]:
            self.bad = 'decorator %s' % decs
        else:
            self.bad = None
        self.locals = assigned(node.body)
        self.fn = {'q': q, 'file': mod.path, 'ln': node.lineno, 'retref': False, 'ret': 'py', 'py': self}


class Cls:
    def __init__(self, mod, node):
        self.mod, self.name, self.node = mod, node.name, node
        self.bases = [ast.unparse(b) for b in node.bases]
        self.methods = {}
        self.attrs = set()
        self.consts = []
        for x in node.body:
            if isinstance(x, ast.FunctionDef):
                f = self.methods[x.name] = Fun(mod, '%s.%s' % (node.name, x.name), x, self)
                if x.args.args:
                    me = x.args.args[0].arg
                    for y in ast.walk(x):
                        if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and isinstance(y.value, ast.Name) and y.value.id == me:
                            self.attrs.add(y.attr)
            elif isinstance(x, ast.Assign):
                self.consts.append(x)
            elif not (isinstance(x, ast.Pass) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)):
                raise Unsupported('%s in class %s' % (type(x).__name__, node.name))


class Mod:
    def __init__(self, prog, name, path):
        self.prog, self.name, self.path = prog, name, path
        try:
            self.tree = ast.parse(open(path).read(), path)
        except SyntaxError as e:
            raise SourceBroken('%s: %s' % (path, e))
        self.names = {}
        self.classes, self.funs = {}, {}
        self.top = []
        for x in self.tree.body:
            if isinstance(x, ast.FunctionDef):
                self.funs[x.name] = Fun(self, x.name, x)
            elif isinstance(x, ast.ClassDef):
                self.classes[x.name] = Cls(self, x)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                self.names.update(imports(prog, x, os.path.dirname(path)))
            else:
                self.top.append(x)
        self.vars = assigned(self.top)


class PyProgram:
    def __init__(self, rel):
        self.rel = rel
        self.path = rel if rel.startswith('/') else os.path.join(REPO, rel)
        if not os.path.exists(self.path):
            raise SourceBroken('%s does not exist' % self.path)
        self.mods = {}
        self.fns, self.byq, self.records, self.paths = {}, {}, {}, [self.path]
        self.main = self.module(os.path.splitext(os.path.basename(rel))[0], self.path)

    def module(self, name, path):
        if name not in self.mods:
            m = self.mods[name] = Mod(self, name, path)
            if path not in self.paths:
                self.paths.append(path)
        return self.mods[name]


def imports(prog, x, where):
    """names bound by an import statement"""
    out = {}
    if isinstance(x, ast.Import):
        for a in x.names:
            local = os.path.join(where, a.name + '.py')
            if os.path.exists(local):
                out[a.asname or a.name] = prog.module(a.name, local)
            else:
                out[a.asname or a.name.split('.')[0]] = Lib(a.name if a.asname else a.name.split('.')[0])
    else:
        local = os.path.join(where, (x.module or '') + '.py')
        for a in x.names:
            if x.module == '__future__':
                continue
            if os.path.exists(local):
                m = prog.module(x.module, local)
                if a.name == '*':
                    out.update(m.names)
                    out.update(m.funs)
                    out.update(m.classes)
                else:
                    out[a.asname or a.name] = (m, a.name)
            elif a.name == '*':
                out['*' + x.module] = Lib(x.module)
            else:
                out[a.asname or a.name] = Lib(x.module + '.' + a.name)
    return out


def assigned(body):
    """names bound in a statement list, nested functions and comprehensions excluded"""
    out, glob = {}, set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out[t.id] = True
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(ss):
        for s in ss:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    tgt(t)
            elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
                tgt(s.target)
            elif isinstance(s, ast.For):
                tgt(s.target)
                walk(s.body)
                walk(s.orelse)
            elif isinstance(s, (ast.While, ast.If)):
                walk(s.body)
                walk(s.orelse)
            elif isinstance(s, ast.With):
                for i in s.items:
                    if i.optional_vars is not None:
                        tgt(i.optional_vars)
                walk(s.body)
            elif isinstance(s, ast.Try):
                walk(s.body)
                for h in s.handlers:
                    if h.name:
                        out[h.name] = True
                    walk(h.body)
                walk(s.orelse)
                walk(s.finalbody)
            elif isinstance(s, (ast.FunctionDef,)):
                out[s.name] = True
            elif isinstance(s, ast.Global):
                glob.update(s.names)
            for e in ast.iter_child_nodes(s):
                if isinstance(e, ast.expr):
                    for y in ast.walk(e):
                        if isinstance(y, ast.NamedExpr):
                            tgt(y.target)
    walk(body)
    return [x for x in out if x not in glob]


def reads(nodes):
    out = set()
    for n in nodes:
        for y in ast.walk(n):
            if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load):
                out.add(y.id)
            elif isinstance(y, ast.AugAssign) and isinstance(y.target, ast.Name):
                out.add(y.target.id)
    return out


# -------------------------------------------------------------------- values
def tup(items):
    return Obj('#tuple', {'a': Vec(items)})


def isarray(v):
    """an ndarray (named or not)"""
    if type(v) in (Vec, Arr):
        return True
    if type(v) is Ptr:
        return v.root.ty in ('ndarray', 'gda')
    if type(v) is Obj:
        return v.cls == '#view'
    if type(v) is Choice:
        return isarray(v.a) and isarray(v.b)
    return False


def islist(v):
    return type(v) is Ptr and v.root.ty == 'list'


def istuple(v):
    return type(v) is Obj and v.cls == '#tuple'


def isseq(v):
    return isarray(v) or islist(v) or istuple(v) or type(v) is Obj and v.cls in ('#range',)


def istext(v):
    return type(v) is Stream or type(v) is Term and v.sort == 's'


def mk(shape, get):
    """array with the given extents; get(index tuple) -> element"""
    shape = tuple(shape)
    if not shape:
        return get(())
    if len(shape) == 1 and T.is_num(shape[0]) and 0 <= shape[0].args[0] <= SMALL:
        return Vec(get((T.num(i),)) for i in range(int(shape[0].args[0])))
    ks = tuple(T.fresh('j', lo=0, ub=n) for n in shape)
    return Arr(shape, ks, get(ks))


def sorts(*xs):
    """common sort of numbers"""
    xs = [T.b2i(x) if x.sort == 'b' else x for x in xs]
    if any(x.sort == 'r' for x in xs):
        xs = [T.toreal(x) for x in xs]
    return xs


def least(a, b):
    return T.tmin(*sorts(a, b))


def greatest(a, b):
    return T.tmax(*sorts(a, b))


def num(x):
    return type(x) is Term and x.sort in 'ibr'


class PyInterp(Interp):
    def __init__(self, prog):
        self.shared = {}        # objects made once, when their definition is executed
        Interp.__init__(self, prog)
        self.exitstates = []
        self.allocs, self.conform = [], []
        self.args = None
        self.argint = {}
        self.handlers = []
        self.gvars = {}
        self.decomp = None        # [(number of sub-domains, cells per sub-domain)] of the history
        self.nfile = 0
        self.name_ = 'library'

    # -------------------------------------------------------------- control
    def exits(self, s):
        if not self.quiet:
            self.exitstates.append(s)

    def at(self, n):
        if hasattr(n, 'lineno'):
            self.curnode = {'ln': n.lineno, 'k': 'py'}

    def stmts(self, body, st):
        out = Outcome()
        cur = st
        for s in body:
            o = self.pstmt(s, cur)
            out.absorb(o)
            cur = o.next
            if cur is None:
                break
        out.next = cur
        return out

    def pstmt(self, n, st):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported('analysis budget exhausted')
        self.at(n)
        m = getattr(self, 'S_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('%s at %s' % (type(n).__name__, self.where()))
        try:
            return m(n, st)
        except PathEnds as e:
            o = Outcome(None)
            o.exit = list(e.states)
            return o

    def stop(self, st, code, text=None):
        """end of the program"""
        if text is not None:
            self.put('std::cerr', [text, self.word('\n')], st)
        self.event(st, 'stop', code)
        raise PathEnds([st])

    def fail(self, exc, cond, st):
        """an exception under a condition; execution goes on under its negation"""
        c = st.simp(cond)
        if c is T.FALSE:
            return
        s = st.copy().assume(c)
        for h in reversed(self.handlers):
            if h['types'] is None or exc in h['types'] or 'Exception' in h['types']:
                h['states'].append(s)
                break
        else:
            if not self.quiet:
                self.put('std::cerr', [self.word(exc + '\n')], s)
                self.event(s, 'stop', T.TRUE)
                self.exits(s)
        if c is T.TRUE:
            raise PathEnds([])
        st.assume(T.lnot(c))

    def S_Expr(self, n, st):
        if not isinstance(n.value, ast.Constant):
            self.ev(n.value, st)
        return Outcome(st)

    def S_Pass(self, n, st):
        return Outcome(st)

    def S_Global(self, n, st):
        return Outcome(st)

    def S_Import(self, n, st):
        self.frames[-1].locals.update(imports(self.prog, n, os.path.dirname(self.frames[-1].fn['file'])))
        return Outcome(st)

    S_ImportFrom = S_Import

    def S_FunctionDef(self, n, st):
        f = Fun(self.frames[-1].fn['mod'], n.name, n)
        self.bindname(n.name, FnV(n.name, n.name, dict(self.frames[-1].env), f), st)
        return Outcome(st)

    def S_Delete(self, n, st):
        for t in n.targets:
            if not isinstance(t, ast.Name):
                raise Unsupported('del at %s' % self.where())
            v = self.load(self.frames[-1].env[t.id], st, True)
            if type(v) is Ptr and type(st.store[v.root]) is Obj:
                self.delete(v, st)
            self.store(self.frames[-1].env[t.id], UndefV(t.id), st, True)
        return Outcome(st)

    def S_Return(self, n, st):
        o = Outcome(None)
        v = self.bind(self.ev(n.value, st), st) if n.value is not None else NULL
        o.ret = [(st, v)]
        return o

    def S_Break(self, n, st):
        o = Outcome(None)
        o.brk = st
        return o

    def S_Continue(self, n, st):
        o = Outcome(None)
        o.cont = st
        return o

    def S_Assert(self, n, st):
        c = self.truth(self.ev(n.test, st), st)
        self.fail('AssertionError', T.lnot(c), st)
        return Outcome(st)

    def S_Raise(self, n, st):
        x = n.exc
        if isinstance(x, ast.Call):
            nm = ast.unparse(x.func)
            for a in x.args:
                self.ev(a, st)
        else:
            nm = ast.unparse(x) if x is not None else 'Exception'
        if nm == 'SystemExit':
            self.stop(st, T.TRUE)
        self.fail(nm, T.TRUE, st)

    def S_If(self, n, st):
        c = self.truth(self.ev(n.test, st), st)
        self.useterm(c, st)
        c = st.simp(c)
        if c is T.TRUE:
            return self.stmts(n.body, st)
        if c is T.FALSE:
            return self.stmts(n.orelse, st)
        s1, s2 = st.copy().assume(c), st.copy().assume(T.lnot(c))
        o1, o2 = self.stmts(n.body, s1), self.stmts(n.orelse, s2)
        out = Outcome(merge_states(o1.next, o2.next))
        out.absorb(o1)
        out.absorb(o2)
        return out

    def S_With(self, n, st):
        files = []
        for i in n.items:
            v = self.ev(i.context_expr, st)
            if type(v) is not Ptr or v.root.ty != 'ofstream':
                raise Unsupported('with %s at %s' % (ast.unparse(i.context_expr), self.where()))
            files.append(v)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st)
        o = self.stmts(n.body, st)
        for s in [o.next, o.brk, o.cont] + [s for s, _ in o.ret]:
            if s is not None:
                for f in files:
                    s.store[f.root] = Stream(s.store[f.root].items + (Item('close', (), self.where()),))
        return o

    def S_Try(self, n, st):
        types = []
        for h in n.handlers:
            if h.type is None:
                types.append(None)
            elif isinstance(h.type, ast.Tuple):
                types.append([ast.unparse(e) for e in h.type.elts])
            else:
                types.append([ast.unparse(h.type)])
        if len(n.handlers) > 1 or n.finalbody:
            raise Unsupported('try statement at %s' % self.where())
        depth = len(self.frames)
        h = {'types': types[0], 'states': []}
        self.handlers.append(h)
        try:
            o = self.stmts(n.body, st)
        finally:
            self.handlers.pop()
        del self.frames[depth:]
        if n.orelse and o.next is not None:
            o2 = self.stmts(n.orelse, o.next)
            o.next = o2.next
            o.absorb(o2)
        for s in h['states']:
            if n.handlers[0].name:
                self.store(self.frames[-1].env[n.handlers[0].name], Stream(()), s, True)
            o2 = self.stmts(n.handlers[0].body, s)
            o.next = merge_states(o.next, o2.next)
            o.absorb(o2)
        return o

    # -------------------------------------------------------------- loops
    def loop_locals(self, n):
        """variables bound in the loop that are not read anywhere else in the function"""
        f = self.frames[-1].fn.get('py')
        if f is None:
            return []
        inside = set(id(x) for x in ast.walk(n))
        names = assigned([n])
        other = set()
        body = f.node.body if isinstance(f, Fun) else f.top
        for b in body:
            for y in ast.walk(b):
                if id(y) in inside:
                    continue
                if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load):
                    other.add(y.id)
                elif isinstance(y, ast.AugAssign) and isinstance(y.target, ast.Name):
                    other.add(y.target.id)
        return [x for x in names if x not in other and x in self.frames[-1].env and not self.carried(n, x)]

    def carried(self, n, x):
        """may the value of the previous iteration be read?  (bound by a plain statement at the top of the body before any read)"""
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and n.target.id == x:
            return False
        if isinstance(n, ast.For) and x in assigned([ast.For(n.target, n.iter, [ast.Pass()], [])]):
            return False
        for s in n.body:
            if isinstance(s, ast.Assign) and x in assigned([s]) and x not in reads([s.value]):
                return False
            if isinstance(s, ast.For) and x in assigned([s]) and not self.carried(s, x) and isinstance(s.target, ast.Name) and s.target.id == x:
                return False
            if x in reads([s]) or x in assigned([s]):
                return True
        return True

    def S_For(self, n, st):
        it = self.ev(n.iter, st)
        self.at(n)
        cnt, get = self.iterate(it, st)
        self.useterm(cnt, st)
        p = self.alloc(st, '#count', T.ZERO)
        keep = [(self.frames[-1].env[x], None) for x in self.loop_locals(n)]
        pre = {q.root: st.store[q.root] for q, _ in keep}
        info = {'node': {'ln': n.lineno}, 'omp': None, 'mark': Root.count, 'where': self.where(), 'depth': len(self.omp)}

        def cond(s):
            return T.lt(self.load(p, s, True), cnt)

        def body(s):
            i = self.load(p, s, True)
            self.at(n)
            self.assign(n.target, get(i, s), s)
            return self.stmts(n.body, s)

        def inc(s):
            s.store[p.root] = T.add(s.store[p.root], T.ONE)
            for r, v in pre.items():
                s.store[r] = v
        return self.looped(n, st, cond, body, inc, info)

    def looped(self, n, st, cond, body, inc, info):
        if not n.orelse:
            return run_loop(self, st, cond, body, inc, info)
        if any(isinstance(x, ast.Break) for x in ast.walk(n)):
            raise Unsupported('loop with break and else at %s' % self.where())
        o = run_loop(self, st, cond, body, inc, info)
        if o.next is not None:
            o2 = self.stmts(n.orelse, o.next)
            o.next = o2.next
            o.absorb(o2)
        return o

    def S_While(self, n, st):
        keep = {self.frames[-1].env[x].root: None for x in self.loop_locals(n)}
        for r in keep:
            keep[r] = st.store[r]
        info = {'node': {'ln': n.lineno}, 'omp': None, 'mark': Root.count, 'where': self.where(), 'depth': len(self.omp)}

        def cond(s):
            self.at(n)
            return self.truth(self.ev(n.test, s), s)

        def inc(s):
            for r, v in keep.items():
                s.store[r] = v
        return self.looped(n, st, cond, lambda s: self.stmts(n.body, s), inc, info)

    def iterate(self, v, st):
        """(number of elements, element function)"""
        if type(v) is Choice:
            v = st.vsimp(v)
        if type(v) is Obj and v.cls == '#range':
            lo, cnt, step = v.f['lo'], v.f['n'], v.f['st']
            return cnt, lambda i, s: T.add(lo, T.mul(i, step))
        if type(v) is Obj and v.cls == '#enum':
            n, g = self.iterate(v.f['a'], st)
            return n, lambda i, s: tup([T.add(i, v.f['lo']), g(i, s)])
        if type(v) is Obj and v.cls == '#zip':
            gs = [self.iterate(x, st) for x in v.f['a'].items]
            n = gs[0][0]
            for m, _ in gs[1:]:
                n = T.tmin(n, m)
            return n, lambda i, s: tup([g(i, s) for _, g in gs])
        if type(v) is Obj and v.cls == '#rev':
            n, g = self.iterate(v.f['a'], st)
            return n, lambda i, s: g(T.sub(T.sub(n, T.ONE), i), s)
        if type(v) is Obj and v.cls == '#items':
            return self.iterate(v.f['a'], st)
        if isseq(v):
            return self.length(v, st), lambda i, s: self.item(v, [i], s)
        raise Unsupported('iteration over %s at %s' % (type(v).__name__, self.where()))

    # -------------------------------------------------------------- names
    def lookup(self, nm, st):
        fr = self.frames[-1]
        p = fr.env.get(nm)
        if p is not None:
            return p
        x = getattr(fr, 'locals', {}).get(nm)
        if x is not None:
            return x
        return self.global_name(fr.fn['mod'], nm)

    def global_name(self, m, nm):
        if m is None:
            raise Unsupported('name %s' % nm)
        if (m.name, nm) in self.gvars:
            return self.gvars[(m.name, nm)]
        if nm in m.funs:
            return m.funs[nm]
        if nm in m.classes:
            return m.classes[nm]
        if nm in m.names:
            x = m.names[nm]
            return self.global_name(x[0], x[1]) if type(x) is tuple else x
        return Lib(nm)

    def E_Name(self, n, st):
        p = self.lookup(n.id, st)
        if type(p) is Ptr:
            return self.defined(self.load(p, st, True), n.id, p, st)
        if type(p) is Lib and n.id == '__name__':
            return T.string(self.name_)
        return p

    def defined(self, v, nm, p, st):
        """a variable or attribute must have been bound"""
        if type(v) is Choice:
            v = st.vsimp(v)
        if type(v) is UndefV:
            if not self.quiet:
                self.undefs.append((T.undef(nm), st.pc, tuple(self.loopctx), self.where()))
            raise Unsupported('%s has no value at %s' % (nm, self.where()))
        if type(v) is Choice:
            c = undefined(v)
            if c is not T.FALSE:
                if not self.quiet:
                    self.undefs.append((T.ite(c, T.undef(nm), T.ZERO), st.pc, tuple(self.loopctx), self.where()))
                v = bound(v)
        if type(v) is Term and st.pc and v.op not in ('num', 'sym', 'str'):
            v = st.simp(v)
        return v

    def bindname(self, nm, v, st):
        fr = self.frames[-1]
        p = fr.env.get(nm)
        if p is None:
            m = fr.fn['mod']
            p = self.gvars.get((m.name, nm))
            if p is None:
                p = fr.env[nm] = self.alloc(st, nm, UndefV(nm))
        self.store(p, v, st, True)

    def bind(self, v, st):
        """a value that gets a name: an array without one gets a location"""
        if type(v) in (Vec, Arr):
            return self.alloc(st, 'array', v, 'ndarray')
        if type(v) is Choice:
            a, b = self.bind(v.a, st), self.bind(v.b, st)
            return v if a is v.a and b is v.b else merge(v.c, a, b)
        return v

    # -------------------------------------------------------------- assignment
    def S_Assign(self, n, st):
        v = self.bind(self.ev(n.value, st), st)
        for t in n.targets:
            self.at(n)
            self.assign(t, v, st)
        return Outcome(st)

    def S_AnnAssign(self, n, st):
        if n.value is not None:
            self.assign(n.target, self.bind(self.ev(n.value, st), st), st)
        return Outcome(st)

    def E_NamedExpr(self, n, st):
        v = self.bind(self.ev(n.value, st), st)
        self.assign(n.target, v, st)
        return v

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.bindname(t.id, self.bind(v, st), st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n, g = self.iterate(v, st)
            if not T.is_num(n) or int(n.args[0]) != len(t.elts):
                raise Unsupported('unpacking at %s' % self.where())
            for i, e in enumerate(t.elts):
                self.assign(e, g(T.num(i), st), st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            if type(o) is not Ptr or type(st.store.get(o.root)) is not Obj:
                raise Unsupported('attribute store at %s' % self.where())
            self.store(Ptr(o.root, o.path + (t.attr,)), self.bind(v, st), st, True)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            ix = self.index(t.slice, st)
            self.at(t)
            self.setitem(b, ix, v, st)
        else:
            raise Unsupported('assignment target at %s' % self.where())

    def S_AugAssign(self, n, st):
        t = n.target
        if isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            ix = self.index(t.slice, st)
            r = self.ev(n.value, st)
            self.at(n)
            old = self.item(b, ix, st)
            self.setitem(b, ix, self.binop(n.op, old, r, st, n), st)
            return Outcome(st)
        r = self.ev(n.value, st)
        self.at(n)
        l = ast.copy_location(type(t)(**dict({k: getattr(t, k) for k in t._fields}, ctx=ast.Load())), t)
        old = self.ev(l, st)
        if isarray(old):
            self.setitem(old, [('all',)], self.binop(n.op, old, r, st, n), st)
            return Outcome(st)
        if islist(old):
            if not isinstance(n.op, ast.Add):
                raise Unsupported('list operator at %s' % self.where())
            new = self.binop(n.op, old, r if islist(r) else self.newlist(self.content(r, st), st), st, n)
            self.store(old, self.load(new, st, True), st, True)
            return Outcome(st)
        self.assign(t, self.binop(n.op, old, r, st, n), st)
        return Outcome(st)

    # -------------------------------------------------------------- arrays
    def content(self, v, st):
        """Vec / Arr behind a list, tuple, array, range or view"""
        if type(v) is Choice:
            v = st.vsimp(v)
        if type(v) in (Vec, Arr):
            return v
        if type(v) is Ptr and v.root.ty in ('list', 'ndarray', 'gda'):
            return self.load(v, st, True)
        if type(v) is Obj:
            if v.cls == '#tuple':
                return v.f['a']
            if v.cls == '#range':
                return mk((v.f['n'],), lambda i: T.add(v.f['lo'], T.mul(i[0], v.f['st'])))
            if v.cls == '#view':
                return self.viewval(v, st)
        if type(v) is Choice:
            return merge(v.c, self.content(v.a, st), self.content(v.b, st))
        raise Unsupported('%s is not a sequence at %s' % (type(v).__name__, self.where()))

    def nd(self, v, st):
        """(extents, element function) of an array-like value"""
        if type(v) is Term:
            return (), lambda i: v
        return self.nd_(self.content(v, st), st)

    def nd_(self, c, st):
        if type(c) is Choice:
            c = st.vsimp(c)
        if type(c) is Choice:
            (s1, g1), (s2, g2) = self.nd_(c.a, st), self.nd_(c.b, st)
            if len(s1) != len(s2):
                raise Unsupported('one of two arrays of different rank at %s' % self.where())
            return tuple(T.ite(c.c, x, y) for x, y in zip(s1, s2)), lambda i: merge(c.c, g1(i), g2(i))
        if type(c) is Vec:
            if c.items and all(num(x) for x in c.items):
                return (T.num(len(c.items)),), lambda i: step_get(c, ('i', i[0]))
            if not c.items:
                return (T.ZERO,), lambda i: T.undef('empty', 'r')
            parts = [self.nd(x, st) for x in c.items]
            sh = parts[0][0]
            for s, _ in parts[1:]:
                if len(s) != len(sh):
                    raise Unsupported('ragged sequence at %s' % self.where())
                self.agree(s, sh)

            def get(i):
                r = parts[-1][1](i[1:])
                if T.is_num(i[0]) and 0 <= i[0].args[0] < len(parts):
                    return parts[int(i[0].args[0])][1](i[1:])
                for q in reversed(range(len(parts) - 1)):
                    r = merge(T.eq(i[0], T.num(q)), parts[q][1](i[1:]), r)
                return r
            return (T.num(len(parts)),) + sh, get
        if type(c) is Arr:
            if num(c.body):
                return c.shape, lambda i: Sub(dict(zip(c.ks, i))).v(c.body)
            if len(c.ks) == 1 and isseq(c.body):
                s, _ = self.nd(c.body, st)
                return c.shape + s, lambda i: self.nd(Sub({c.ks[0]: i[0]}).v(c.body), st)[1](i[1:])
        raise Unsupported('%s is not numeric at %s' % (type(c).__name__, self.where()))

    def agree(self, a, b):
        if len(a) == len(b) and all(x is y for x, y in zip(a, b)):
            return
        if not self.quiet and any(not T.same(x, y) for x, y in zip(a, b)):
            self.conform.append((tuple(a), tuple(b), None, self.where()))

    def broadcast(self, shapes):
        r = max(len(s) for s in shapes)
        out = []
        for q in range(r):
            ds = [s[q - r + len(s)] for s in shapes if q - r + len(s) >= 0]
            big = [d for d in ds if d is not T.ONE] or [T.ONE]
            for d in big[1:]:
                self.agree((d,), (big[0],))
            out.append(big[0])
        return tuple(out)

    def elem(self, f, st, *vs):
        """elementwise application with broadcasting"""
        if all(type(v) is Term for v in vs):
            return f(*vs)
        ps = [self.nd(v, st) for v in vs]
        sh = self.broadcast([s for s, _ in ps])

        def get(i):
            out = []
            for s, g in ps:
                j = i[len(i) - len(s):]
                out.append(g(tuple(T.ZERO if d is T.ONE and sh[len(i) - len(s) + q] is not T.ONE else x for q, (x, d) in enumerate(zip(j, s)))))
            return f(*out)
        return mk(sh, get)

    def shape(self, v, st):
        return self.nd(v, st)[0]

    def length(self, v, st):
        if type(v) is Choice:
            v = st.vsimp(v)
        if istext(v):
            if type(v) is Term and v.op == 'str':
                return T.num(len(v.args[0]))
            if type(v) is Term:
                return T.mkapp('slen', (v,), 'i')
            raise Unsupported('length of formatted text')
        if type(v) is Obj and v.cls == '#view':
            return self.shape(v, st)[0]
        if type(v) is Obj and v.cls == '#range':
            return v.f['n']
        c = self.content(v, st)
        return self.clen(c)

    def clen(self, c):
        if type(c) is Vec:
            return T.num(len(c.items))
        if type(c) is Arr:
            return c.shape[0]
        if type(c) is Choice:
            return T.ite(c.c, self.clen(c.a), self.clen(c.b))
        raise Unsupported('length of %s' % type(c).__name__)

    def newlist(self, c, st):
        return self.alloc(st, 'list', c, 'list')

    # -------------------------------------------------------------- subscripts
    def index(self, n, st):
        """list of index expressions"""
        if isinstance(n, ast.Tuple):
            return [self.index1(e, st) for e in n.elts]
        x = self.index1(n, st)
        if istuple(x):
            return list(x.f['a'].items)
        return [x]

    def index1(self, n, st):
        return self.ev(n, st)

    def E_Slice(self, n, st):
        f = {}
        for k, e in (('lo', n.lower), ('hi', n.upper), ('st', n.step)):
            f[k] = self.ev(e, st) if e is not None else NULL
        return Obj('#slice', f)

    def wrap(self, i, n):
        if T.nonneg(i):
            return i
        if T.is_num(i):
            return T.add(i, n)
        return T.ite(T.lt(i, T.ZERO), T.add(i, n), i)

    def clamp(self, i, n):
        i = self.wrap(i, n)
        if T.nonneg(i) and T.nonneg(T.sub(n, i)):
            return i
        return T.tmax(T.ZERO, T.tmin(i, n))

    def slice_(self, s, n, st):
        """(start, count, step) of a slice of an axis with n elements"""
        step = s.f['st']
        step = T.ONE if type(step) is Null else step
        lo, hi = s.f['lo'], s.f['hi']
        if type(step) is Term and not T.is_num(step):
            step = st.simp(step)
        if not T.is_num(step) or step.args[0] == 0:
            raise Unsupported('slice step at %s' % self.where())
        if type(lo) is Choice or type(hi) is Choice:
            return self.slice_choice(s, n, st)
        if step.args[0] > 0:
            a = T.ZERO if type(lo) is Null else self.clamp(lo, n)
            b = n if type(hi) is Null else self.clamp(hi, n)
            d = T.sub(b, a)
        else:
            a = T.sub(n, T.ONE) if type(lo) is Null else T.tmin(self.wrap(lo, n), T.sub(n, T.ONE))
            b = T.num(-1) if type(hi) is Null else T.tmax(self.wrap(hi, n), T.num(-1))
            d = T.sub(a, b)
        if abs(step.args[0]) != 1:
            k = T.num(abs(step.args[0]))
            d = T.fdiv(T.add(d, T.sub(k, T.ONE)), k)
        return a, d if T.nonneg(d) else T.tmax(T.ZERO, d), step

    def slice_choice(self, s, n, st):
        """bounds that are None on one of two paths"""
        for k in ('lo', 'hi'):
            v = s.f[k]
            if type(v) is Choice:
                v = st.vsimp(v)
                if type(v) is Choice:
                    x = self.slice_(Obj('#slice', dict(s.f, **{k: v.a})), n, st)
                    y = self.slice_(Obj('#slice', dict(s.f, **{k: v.b})), n, st)
                    return T.ite(v.c, x[0], y[0]), T.ite(v.c, x[1], y[1]), x[2]
                return self.slice_(Obj('#slice', dict(s.f, **{k: v})), n, st)

    def dims(self, ix, shape, st):
        """one entry per axis: ('x', position) / ('r', start, count, step) / ('f', index array)"""
        out = []
        ix = list(ix)
        rank = len(shape)
        if ix and ix[0] == ('all',):
            ix = []
        k = [q for q, x in enumerate(ix) if type(x) is Lib and x.q == 'Ellipsis']
        if k:
            ix[k[0]:k[0] + 1] = [Obj('#slice', {'lo': NULL, 'hi': NULL, 'st': NULL})] * (rank - len(ix) + 1)
        if len(ix) > rank:
            if not self.quiet:
                self.conform.append((tuple(shape), tuple([T.ONE] * len(ix)), None, self.where()))
            raise Unsupported('%d subscripts for rank %d at %s' % (len(ix), rank, self.where()))
        for x, n in zip(ix, shape):
            if type(x) is Choice:
                x = st.vsimp(x)
            if type(x) is Choice and type(x.a) is Obj and type(x.b) is Obj and x.a.cls == x.b.cls == '#slice':
                x = Obj('#slice', {k: merge(x.c, x.a.f[k], x.b.f[k]) for k in x.a.f})
            if type(x) is Obj and x.cls == '#slice':
                out.append(('r',) + self.slice_(x, n, st))
            elif type(x) is Term and x.sort in 'ib':
                self.useterm(x, st)
                out.append(('x', self.wrap(T.b2i(x) if x.sort == 'b' else x, n)))
            elif isseq(x):
                out.append(('f', x))
            else:
                raise Unsupported('subscript %s at %s' % (type(x).__name__, self.where()))
        for n in shape[len(ix):]:
            out.append(('r', T.ZERO, n, T.ONE))
        return out

    def noteix(self, rw, p, pos, n, st, ctx=()):
        """a subscript must be inside its axis"""
        if self.quiet or not self.logacc or (T.is_num(pos) and T.is_num(n) and 0 <= pos.args[0] < n.args[0]):
            return
        for k, m in ctx:
            self.loopctx.append({'k': k, 'n': m, 'info': {'omp': None, 'node': self.curnode, 'where': self.where(), 'depth': 0, 'mark': 0}, 'closed': {}})
        root = p.root if type(p) is Ptr else Root('array')
        self.accesses.append((rw, root, (('i', pos),), 0, (n,), (pos,), st.pc, tuple(self.loopctx), self.where(), tuple(self.omp), self.curnode))
        for _ in ctx:
            self.loopctx.pop()

    def item(self, b, ix, st):
        """b[ix]"""
        if type(b) is Choice:
            b = st.vsimp(b)
        if type(b) is Choice:
            return merge(b.c, self.item(b.a, ix, st.copy().assume(b.c)), self.item(b.b, ix, st.copy().assume(T.lnot(b.c))))
        if type(b) is Ptr and b.root.ty == 'dict':
            raise Unsupported('dict at %s' % self.where())
        if istext(b):
            raise Unsupported('characters of a string at %s' % self.where())
        if islist(b) or istuple(b) or type(b) is Obj and b.cls == '#range':
            c = self.content(b, st)
            if len(ix) != 1:
                raise Unsupported('list subscript at %s' % self.where())
            x = ix[0]
            if type(x) is Obj and x.cls == '#slice':
                n = self.clen(c)
                a, cnt, step = self.slice_(x, n, st)
                r = mk((cnt,), lambda i: step_get(c, ('i', T.add(a, T.mul(i[0], step)))))
                return tup(r.items) if istuple(b) and type(r) is Vec else self.newlist(r, st)
            if type(x) is not Term or x.sort not in 'ib':
                raise Unsupported('list subscript at %s' % self.where())
            x = T.b2i(x) if x.sort == 'b' else x
            self.useterm(x, st)
            n = self.clen(c)
            pos = self.wrap(x, n)
            self.noteix('r', b, pos, n, st)
            return self.usable(step_get(c, ('i', pos)), st)
        if type(b) is Obj and b.cls == '#view':
            sh = self.shape(b, st)
            ds = self.dims(ix, sh, st)
            if any(d[0] == 'f' for d in ds):
                return self.fancy(self.viewval(b, st), b, ds, sh, st)
            for d, n in zip(ds, sh):
                if d[0] == 'x':
                    self.noteix('r', b.f['p'], d[1], n, st)
            return self.view(b.f['p'], self.compose(b, ds), st)
        if isarray(b):
            if type(b) is not Ptr:
                sh, get = self.nd(b, st)
            else:
                sh, get = self.nd(b, st)
            ds = self.dims(ix, sh, st)
            if any(d[0] == 'f' for d in ds):
                return self.fancy(b, b, ds, sh, st)
            for d, n in zip(ds, sh):
                if d[0] == 'x':
                    self.noteix('r', b, d[1], n, st)
            if all(d[0] == 'x' for d in ds):
                return self.usable(get(tuple(d[1] for d in ds)), st)
            if type(b) is not Ptr:
                b = self.bind(b, st)
            return self.view(b, ds, st)
        raise Unsupported('subscript of %s at %s' % (type(b).__name__, self.where()))

    def usable(self, v, st):
        if type(v) is Term and not self.quiet and any(x.op == 'undef' for x in T.syms_of(v)):
            self.undefs.append((v, st.pc, tuple(self.loopctx), self.where()))
        if type(v) is Term and st.pc and v.op not in ('num', 'sym', 'str'):
            v = st.simp(v)
        return v

    def view(self, p, ds, st):
        v = Obj('#view', {'p': p, 'd': Vec([Vec((T.ZERO, d[1])) if d[0] == 'x' else Vec((T.ONE,) + tuple(d[1:])) for d in ds])})
        if all(d[0] == 'x' for d in ds):
            return self.usable(self.viewval(v, st), st)
        return v

    def viewdims(self, v):
        return [('x', d.items[1]) if d.items[0] is T.ZERO else ('r',) + tuple(d.items[1:]) for d in v.f['d'].items]

    def compose(self, v, ds):
        out, ds = [], list(ds)
        for d in self.viewdims(v):
            if d[0] == 'x':
                out.append(d)
                continue
            e = ds.pop(0)
            if e[0] == 'x':
                out.append(('x', T.add(d[1], T.mul(e[1], d[3]))))
            else:
                out.append(('r', T.add(d[1], T.mul(e[1], d[3])), e[2], T.mul(d[3], e[3])))
        return out

    def viewval(self, v, st):
        _, get = self.nd(v.f['p'], st)
        ds = self.viewdims(v)

        def g(i):
            i = list(i)
            return get(tuple(d[1] if d[0] == 'x' else T.add(d[1], T.mul(i.pop(0), d[3])) for d in ds))
        return mk([d[2] for d in ds if d[0] == 'r'], g)

    def fancy(self, a, b, ds, sh, st):
        """indexing with integer arrays"""
        _, get = self.nd(a, st)
        fs = [(q, self.nd(d[1], st)) for q, d in enumerate(ds) if d[0] == 'f']
        fsh = self.broadcast([s for _, (s, _) in fs])
        pos = [q for q, _ in fs]
        if pos != list(range(pos[0], pos[0] + len(pos))) or any(d[0] == 'x' for d in ds):
            raise Unsupported('mixed subscripts at %s' % self.where())
        r = len(fsh)
        rest = [(q, d) for q, d in enumerate(ds) if d[0] == 'r']
        shp = [d[2] for q, d in rest if q < pos[0]] + list(fsh) + [d[2] for q, d in rest if q > pos[0]]
        lead = len([1 for q, _ in rest if q < pos[0]])
        fks = tuple(T.fresh('j', lo=0, ub=n) for n in fsh)
        for q, (s, g) in fs:
            x = g(fks[len(fks) - len(s):])
            if x.sort != 'i':
                raise Unsupported('array of subscripts at %s' % self.where())
            s2 = st.copy().assume(T.land(*[T.lt(T.ZERO, n) for n in fsh]))
            if not all(T.is_num(n) for n in fsh):
                self.noteix('r', b, self.wrap(x, sh[q]), sh[q], s2, list(zip(fks, fsh)))

        def at(i):
            fi = i[lead:lead + r]
            out, j = [], list(i[:lead]) + list(i[lead + r:])
            for q, d in enumerate(ds):
                if d[0] == 'r':
                    out.append(T.add(d[1], T.mul(j.pop(0), d[3])))
                else:
                    s, g = dict(fs)[q]
                    out.append(self.wrap(g(fi[len(fi) - len(s):]), sh[q]))
            return get(tuple(out))
        return mk(shp, at)

    def convert(self, x, like):
        """value stored in an array keeps the element type of the array"""
        if type(like) is not Term or type(x) is not Term:
            return x
        if like.sort == 'r':
            return T.toreal(T.b2i(x) if x.sort == 'b' else x)
        if like.sort == 'i' and x.sort == 'r':
            return self.trunc(x)
        if like.sort == 'i' and x.sort == 'b':
            return T.b2i(x)
        return x

    def setitem(self, b, ix, v, st):
        """b[ix] = v"""
        if type(b) is Choice:
            b = st.vsimp(b)
        if type(b) is Choice:
            for c, x in ((b.c, b.a), (T.lnot(b.c), b.b)):
                if type(x) is Null:
                    self.fail('TypeError', c, st)
                    continue
                s = st.copy()
                self.setitem(x, ix, v, s)
                for r in st.store:
                    if s.store[r] is not st.store[r]:
                        st.store[r] = merge(c, s.store[r], st.store[r])
            return
        if islist(b):
            c = self.load(b, st, True)
            if len(ix) != 1 or type(ix[0]) is not Term:
                raise Unsupported('list slice assignment at %s' % self.where())
            n = self.clen(c)
            pos = self.wrap(ix[0], n)
            self.noteix('w', b, pos, n, st)
            self.store(b, step_set(c, (('i', pos),), self.bind(v, st)), st, True)
            return
        if type(b) is Obj and b.cls == '#view':
            sh = self.shape(b, st)
            ds = self.dims(ix, sh, st)
            for d, n in zip(ds, sh):
                if d[0] == 'x':
                    self.noteix('w', b.f['p'], d[1], n, st)
            return self.setdims(b.f['p'], self.compose(b, ds), v, st)
        if type(b) is Ptr and b.root.ty in ('ndarray', 'gda'):
            sh = self.shape(b, st)
            ds = self.dims(ix, sh, st)
            for d, n in zip(ds, sh):
                if d[0] == 'x':
                    self.noteix('w', b, d[1], n, st)
            return self.setdims(b, ds, v, st)
        raise Unsupported('store into %s at %s' % (type(b).__name__, self.where()))

    def notnull(self, v, st):
        """a number is needed: None raises an exception"""
        if type(v) is Choice:
            v = st.vsimp(v)
        if type(v) is Null:
            self.fail('TypeError', T.TRUE, st)
        if type(v) is Choice:
            for c, x, y in ((v.c, v.a, v.b), (T.lnot(v.c), v.b, v.a)):
                if type(x) is Null:
                    self.fail('TypeError', c, st)
                    return self.notnull(y, st)
        return v

    def setdims(self, p, ds, v, st):
        if type(p) is not Ptr:
            raise Unsupported('store into one of several arrays at %s' % self.where())
        if p.root.shared == 'derived':
            raise Unsupported('store through a reshaped array at %s' % self.where())
        v = self.notnull(v, st)
        c = self.load(p, st, True)
        sh, get = self.nd(p, st)
        masks = {}
        for q, d in enumerate(ds):
            if d[0] == 'f':
                # a truth value per position of the axis: only a scalar can be stored
                ms, mg = self.nd(d[1], st)
                if len(ms) != 1 or mg((T.fresh('j', lo=0, ub=ms[0]),)).sort != 'b' or type(v) is not Term and self.nd(v, st)[0]:
                    raise Unsupported('store with an array of subscripts at %s' % self.where())
                self.agree((ms[0],), (sh[q],))
                masks[q] = mg
        ds = [('r', T.ZERO, n, T.ONE) if q in masks else d for q, (d, n) in enumerate(zip(ds, sh))]
        vsh, vget = self.nd(v, st) if type(v) is not Term else ((), lambda i: v)
        tsh = [d[2] for d in ds if d[0] == 'r']
        if len(vsh) > len(tsh):
            if all(x is T.ONE for x in vsh[:len(vsh) - len(tsh)]):
                k = len(vsh) - len(tsh)
                g0 = vget
                vget, vsh = (lambda i: g0((T.ZERO,) * k + tuple(i))), vsh[k:]
            else:
                if not self.quiet:
                    self.conform.append((tuple(tsh), tuple(vsh), None, self.where()))
                raise Unsupported('array stored into fewer axes at %s' % self.where())
        for x, y in zip(reversed(vsh), reversed(tsh)):
            if x is not T.ONE:
                self.agree((x,), (y,))
        self.note('w', p, -1, None, None, st)

        def src(i):
            i = i[len(i) - len(vsh):]
            return vget(tuple(T.ZERO if d is T.ONE else x for x, d in zip(i, vsh)))

        def new(i):
            conds, j = [mg((i[q],)) for q, mg in masks.items()], []
            for k, d, n in zip(i, ds, sh):
                if d[0] == 'x':
                    conds.append(T.eq(k, d[1]))
                    continue
                _, a, cnt, step = d
                if a is T.ZERO and step is T.ONE and T.same(cnt, n):
                    j.append(k)
                    continue
                if step is T.ONE:
                    conds += [T.le(a, k), T.lt(k, T.add(a, cnt))]
                    j.append(T.sub(k, a))
                elif T.is_num(step) and step.args[0] == -1:
                    conds += [T.le(k, a), T.lt(T.sub(a, k), cnt)]
                    j.append(T.sub(a, k))
                elif T.is_num(step) and step.args[0] > 0:
                    q = T.fdiv(T.sub(k, a), step)
                    conds += [T.le(a, k), T.eq(T.fmod(T.sub(k, a), step), T.ZERO), T.lt(q, cnt)]
                    j.append(q)
                else:
                    raise Unsupported('strided store at %s' % self.where())
            g = T.land(*conds)
            if g is T.FALSE:
                return get(i)
            old = get(i)
            return merge(g, self.convert(src(tuple(j)), old), old)
        if type(c) is Vec and len(sh) == 1:
            self.store(p, Vec(new((T.num(q),)) for q in range(len(c.items))), st, True)
        else:
            self.store(p, mk(sh, new), st, True)

    # -------------------------------------------------------------- expressions
    def ev(self, n, st):
        m = getattr(self, 'E_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('%s at %s' % (type(n).__name__, self.where()))
        return m(n, st)

    def E_Constant(self, n, st):
        v = n.value
        if v is None:
            return NULL
        if v is Ellipsis:
            return Lib('Ellipsis')
        if isinstance(v, bool):
            return T.boolean(v)
        if isinstance(v, int):
            return T.num(v)
        if isinstance(v, float):
            if v in (float('inf'),):
                return T.INF
            return T.num(Fraction(repr(v)), 'r')
        if isinstance(v, str):
            return T.string(v)
        raise Unsupported('constant at %s' % self.where())

    def E_List(self, n, st):
        return self.newlist(Vec([self.bind(self.ev(e, st), st) for e in n.elts]), st)

    def E_Tuple(self, n, st):
        return tup([self.bind(self.ev(e, st), st) for e in n.elts])

    def E_Attribute(self, n, st):
        b = self.ev(n.value, st)
        self.at(n)
        return self.attr(b, n.attr, st)

    def attr(self, b, nm, st):
        if type(b) is Choice:
            b = st.vsimp(b)
        if type(b) is Choice and type(b.a) is Null:
            self.fail('AttributeError', b.c, st)
            b = b.b
        elif type(b) is Choice and type(b.b) is Null:
            self.fail('AttributeError', T.lnot(b.c), st)
            b = b.a
        if type(b) is Lib:
            return self.libattr(b, nm, st)
        if isinstance(b, Mod):
            x = self.global_name(b, nm)
            return self.load(x, st, True) if type(x) is Ptr else x
        if isinstance(b, Cls):
            return b.methods[nm] if nm in b.methods else Lib('?')
        if type(b) is Ptr and type(st.store.get(b.root)) is Obj:
            o = st.store[b.root]
            if nm in o.f:
                return self.defined(o.f[nm], nm, b, st)
            f = self.method(o.cls, nm)
            if f is not None:
                if f.prop:
                    return self.callfun(f, [b], {}, st)
                return FnV(nm, nm, None, f, b)
            if o.cls.startswith('mpinum.'):
                return FnV(nm, nm, None, None, b)
            if not self.quiet:
                self.undefs.append((T.undef(nm), st.pc, tuple(self.loopctx), self.where()))
            raise Unsupported('no attribute %s at %s' % (nm, self.where()))
        if type(b) is Obj and b.cls == '#slice' and nm in ('start', 'stop', 'step'):
            return b.f[{'start': 'lo', 'stop': 'hi', 'step': 'st'}[nm]]
        if isarray(b):
            r = self.arrayattr(b, nm, st)
            if r is not None:
                return r
        return FnV(nm, nm, None, None, b if type(b) is not Vec and type(b) is not Arr else self.bind(b, st))

    def method(self, cls, nm):
        c = self.cls(cls)
        seen = 0
        while c is not None and seen < 8:
            if nm in c.methods:
                return c.methods[nm]
            nxt = None
            for b in c.bases:
                if b in c.mod.classes:
                    nxt = c.mod.classes[b]
            c = nxt
            seen += 1
        return None

    def cls(self, nm):
        for m in self.prog.mods.values():
            if nm in m.classes:
                return m.classes[nm]
        return None

    def E_Subscript(self, n, st):
        b = self.ev(n.value, st)
        ix = self.index(n.slice, st)
        self.at(n)
        return self.item(b, ix, st)

    def E_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        if isinstance(n.op, ast.Not):
            return T.lnot(self.truth(v, st))
        f = {ast.USub: T.neg, ast.UAdd: lambda x: x}.get(type(n.op))
        if f is None:
            raise Unsupported('unary operator at %s' % self.where())
        if type(v) is Term and v.sort == 's':
            raise Unsupported('sign of a string')
        return self.elem(lambda x: f(T.b2i(x) if x.sort == 'b' else x), st, v)

    def E_BinOp(self, n, st):
        a = self.ev(n.left, st)
        b = self.ev(n.right, st)
        self.at(n)
        return self.binop(n.op, a, b, st, n)

    def binop(self, op, a, b, st, n):
        if type(a) is Choice:
            a = st.vsimp(a)
        if type(b) is Choice:
            b = st.vsimp(b)
        if type(a) is Choice and not isarray(a):
            return merge(a.c, self.binop(op, a.a, b, st, n), self.binop(op, a.b, b, st, n))
        if type(b) is Choice and not isarray(b):
            return merge(b.c, self.binop(op, a, b.a, st, n), self.binop(op, a, b.b, st, n))
        if istext(a):
            if isinstance(op, ast.Add) and istext(b):
                return self.cat(a, b)
            if isinstance(op, ast.Mod):
                return self.percent(a, b, st)
            if isinstance(op, ast.Mult) and type(b) is Term and T.is_num(b) and type(a) is Term and a.op == 'str':
                return T.string(a.args[0] * int(b.args[0]))
            raise Unsupported('string operator at %s' % self.where())
        if (islist(a) or istuple(a)) and (islist(b) or istuple(b)) and isinstance(op, ast.Add):
            x, y = self.content(a, st), self.content(b, st)
            if type(x) is not Vec or type(y) is not Vec:
                raise Unsupported('concatenation at %s' % self.where())
            return tup(x.items + y.items) if istuple(a) else self.newlist(Vec(x.items + y.items), st)
        if isinstance(op, ast.Mult) and (islist(a) or istuple(a) or islist(b) or istuple(b)) and not (isarray(a) or isarray(b)):
            if type(a) is Term:
                a, b = b, a
            c = self.content(a, st)
            if type(b) is not Term or b.sort != 'i' or type(c) is not Vec:
                raise Unsupported('repetition at %s' % self.where())
            if T.is_num(b):
                r = Vec(c.items * max(0, int(b.args[0])))
                return tup(r.items) if istuple(a) else self.newlist(r, st)
            if len(c.items) != 1:
                raise Unsupported('repetition at %s' % self.where())
            return self.newlist(mk((T.tmax(T.ZERO, b),), lambda i: c.items[0]), st)
        return self.elem(lambda x, y: self.op(op, x, y, st), st, a, b)

    def op(self, op, x, y, st):
        if type(x) is not Term or type(y) is not Term or x.sort == 's' or y.sort == 's':
            raise Unsupported('operator on %s and %s at %s' % (type(x).__name__, type(y).__name__, self.where()))
        k = type(op)
        if k in (ast.BitAnd, ast.BitOr) and x.sort == 'b' and y.sort == 'b':
            return (T.land if k is ast.BitAnd else T.lor)(x, y)
        x, y = sorts(x, y)
        if k is ast.Add:
            return T.add(x, y)
        if k is ast.Sub:
            return T.sub(x, y)
        if k is ast.Mult:
            return T.mul(x, y)
        if k is ast.Div:
            return T.rdiv(T.toreal(x), T.toreal(y))
        if k in (ast.FloorDiv, ast.Mod):
            if x.sort == 'i' and y.sort == 'i':
                return T.fdiv(x, y) if k is ast.FloorDiv else T.fmod(x, y)
            raise Unsupported('remainder of reals at %s' % self.where())
        if k is ast.Pow:
            if T.is_num(y) and y.args[0] == int(y.args[0]) and 0 <= y.args[0] <= 16:
                r = T.num(1, x.sort)
                for _ in range(int(y.args[0])):
                    r = T.mul(r, x)
                return r
            if T.is_num(y) and y.args[0] == Fraction(1, 2):
                return T.mkapp('sqrt', (T.toreal(x),), 'r')
        raise Unsupported('operator %s at %s' % (k.__name__, self.where()))

    def E_BoolOp(self, n, st):
        a = self.ev(n.values[0], st)
        for e in n.values[1:]:
            c = st.simp(self.truth(a, st))
            go = c if isinstance(n.op, ast.And) else T.lnot(c)
            if go is T.FALSE:
                return a
            if go is T.TRUE:
                a = self.ev(e, st)
                continue
            s2 = st.copy().assume(go)
            b = self.ev(e, s2)
            self.short(st, s2, go)
            if type(a) is Term and a.sort == 'b' and type(b) is Term and b.sort == 'b':
                a = T.land(a, b) if isinstance(n.op, ast.And) else T.lor(a, b)
            else:
                a = merge(go, b, a)
        return a

    def E_IfExp(self, n, st):
        c = st.simp(self.truth(self.ev(n.test, st), st))
        self.useterm(c, st)
        if c is T.TRUE:
            return self.ev(n.body, st)
        if c is T.FALSE:
            return self.ev(n.orelse, st)
        s1, s2 = st.copy().assume(c), st.copy().assume(T.lnot(c))
        a, b = self.ev(n.body, s1), self.ev(n.orelse, s2)
        self.join_into(st, s1, s2)
        if num(a) and num(b) and a.sort != b.sort:
            a, b = sorts(a, b)
        return merge(c, a, b)

    def E_Compare(self, n, st):
        a = self.ev(n.left, st)
        r = None
        for op, e in zip(n.ops, n.comparators):
            b = self.ev(e, st)
            self.at(n)
            x = self.cmp(op, a, b, st)
            r = x if r is None else T.land(r, x)
            a = b
        return r

    def cmp(self, op, a, b, st):
        k = type(op)
        if k in (ast.Is, ast.IsNot) or (k in (ast.Eq, ast.NotEq) and (type(a) is Null or type(b) is Null)):
            if type(b) is not Null:
                a, b = b, a
            if type(b) is not Null:
                if type(a) is Term and type(b) is Term:
                    return T.eq(a, b) if k is ast.Is else T.lnot(T.eq(a, b))
                raise Unsupported('identity at %s' % self.where())
            c = isnull(st.vsimp(a) if type(a) is Choice else a)
            return c if k in (ast.Is, ast.Eq) else T.lnot(c)
        if k in (ast.In, ast.NotIn):
            c = self.content(b, st)
            if type(c) is not Vec:
                raise Unsupported('membership at %s' % self.where())
            r = T.lor(*[self.cmp(ast.Eq(), a, x, st) for x in c.items]) if c.items else T.FALSE
            return r if k is ast.In else T.lnot(r)
        if type(a) is Choice or type(b) is Choice:
            a, b = (st.vsimp(a) if type(a) is Choice else a), (st.vsimp(b) if type(b) is Choice else b)
            if type(a) is Choice and not isarray(a):
                return T.ite(a.c, self.cmp(op, a.a, b, st), self.cmp(op, a.b, b, st))
            if type(b) is Choice and not isarray(b):
                return T.ite(b.c, self.cmp(op, a, b.a, st), self.cmp(op, a, b.b, st))
        if (islist(a) or istuple(a)) and (islist(b) or istuple(b)) and k in (ast.Eq, ast.NotEq):
            x, y = self.content(a, st), self.content(b, st)
            if type(x) is not Vec or type(y) is not Vec:
                raise Unsupported('comparison of lists at %s' % self.where())
            r = T.boolean(len(x.items) == len(y.items))
            if r is T.TRUE and x.items:
                r = T.land(*[self.cmp(ast.Eq(), p, q, st) for p, q in zip(x.items, y.items)])
            return r if k is ast.Eq else T.lnot(r)
        if istext(a) or istext(b):
            if type(a) is not Term or type(b) is not Term:
                raise Unsupported('comparison of formatted text at %s' % self.where())
            if a.sort != b.sort:
                return T.boolean(k is ast.NotEq)
            if k in (ast.Eq, ast.NotEq):
                c = T.eq(a, b)
                return c if k is ast.Eq else T.lnot(c)
            raise Unsupported('order of strings at %s' % self.where())

        def f(x, y):
            if type(x) is not Term or type(y) is not Term:
                raise Unsupported('comparison at %s' % self.where())
            if x.sort == 'b' and y.sort == 'b' and k in (ast.Eq, ast.NotEq):
                e = T.lor(T.land(x, y), T.land(T.lnot(x), T.lnot(y)))
                return e if k is ast.Eq else T.lnot(e)
            x, y = sorts(x, y)
            return {ast.Eq: lambda: T.eq(x, y), ast.NotEq: lambda: T.ne(x, y), ast.Lt: lambda: T.lt(x, y), ast.LtE: lambda: T.le(x, y),
                    ast.Gt: lambda: T.lt(y, x), ast.GtE: lambda: T.le(y, x)}[k]()
        return self.elem(f, st, a, b)

    def truth(self, v, st):
        if type(v) is Choice:
            v = st.vsimp(v)
        if type(v) is Choice:
            return T.ite(v.c, self.truth(v.a, st), self.truth(v.b, st))
        if type(v) is Term:
            if v.sort == 's':
                return T.lnot(T.eq(v, T.string('')))
            return v if v.sort == 'b' else T.ne(v, T.num(0, v.sort))
        if type(v) is Null:
            return T.FALSE
        if islist(v) or istuple(v):
            return T.lt(T.ZERO, self.length(v, st))
        if type(v) in (FnV, Lib) or isinstance(v, (Fun, Cls)) or type(v) is Ptr and type(st.store.get(v.root)) is Obj:
            return T.TRUE
        raise Unsupported('truth of %s at %s' % (type(v).__name__, self.where()))

    def E_Lambda(self, n, st):
        f = ast.FunctionDef(name='<lambda>', args=n.args, body=[ast.copy_location(ast.Return(n.body), n)], decorator_list=[], lineno=n.lineno)
        return FnV('<lambda>', '<lambda>', dict(self.frames[-1].env), Fun(self.frames[-1].fn['mod'], '<lambda>', f))

    def comp(self, n, st):
        """values of a comprehension: Vec or Arr"""
        gens = n.generators
        fr = self.frames[-1]
        saved = dict(fr.env)

        def run(q, st):
            if q == len(gens):
                v = self.bind(self.ev(n.elt, st), st)
                return Vec([v])
            g = gens[q]
            cnt, get = self.iterate(self.ev(g.iter, st), st)
            names = assigned([ast.For(g.target, g.iter, [ast.Pass()], [])])
            old = {x: fr.env.get(x) for x in names}

            def once(i):
                for x in names:
                    fr.env[x] = self.alloc(st, x, UndefV(x))
                self.assign(g.target, get(i, st), st)
                keep = T.TRUE
                for c in g.ifs:
                    keep = T.land(keep, st.simp(self.truth(self.ev(c, st), st)))
                if keep is T.FALSE:
                    return Vec(())
                if keep is not T.TRUE:
                    raise Unsupported('filtered comprehension at %s' % self.where())
                return run(q + 1, st)
            cnt = st.simp(cnt)
            if T.is_num(cnt) and cnt.args[0] <= SMALL:
                out = []
                for i in range(int(cnt.args[0])):
                    r = once(T.num(i))
                    if type(r) is not Vec:
                        raise Unsupported('nested comprehension at %s' % self.where())
                    out += list(r.items)
                r = Vec(out)
            else:
                if q + 1 != len(gens) or g.ifs:
                    raise Unsupported('comprehension at %s' % self.where())
                k = T.fresh('j', lo=0, ub=cnt)
                self.loopctx.append({'k': k, 'n': cnt, 'info': {'omp': None, 'node': self.curnode, 'where': self.where(), 'depth': 0, 'mark': 0}, 'closed': {}})
                before = {r: v for r, v in st.store.items()}
                try:
                    e = once(k)
                finally:
                    self.loopctx.pop()
                if any(st.store[r] is not v for r, v in before.items()):
                    raise Unsupported('comprehension with effects at %s' % self.where())
                e = e.items[0]
                if type(e) not in (Term, Stream):
                    raise Unsupported('comprehension of %s at %s' % (type(e).__name__, self.where()))
                r = Arr((cnt,), (k,), e)
            for x in names:
                if old[x] is None:
                    fr.env.pop(x, None)
                else:
                    fr.env[x] = old[x]
            return r
        try:
            return run(0, st)
        finally:
            fr.env.clear()
            fr.env.update(saved)

    def E_ListComp(self, n, st):
        return self.newlist(self.comp(n, st), st)

    def E_GeneratorExp(self, n, st):
        return Obj('#items', {'a': self.newlist(self.comp(n, st), st)})

    # -------------------------------------------------------------- text
    def word(self, s):
        return Item('out', (T.string(s), 'string'), self.where())

    def items(self, v, st, spec='', rep=False):
        """output items of a value"""
        if type(v) is Choice:
            v = st.vsimp(v)
        if type(v) is Stream:
            return list(v.items)
        if type(v) is Term:
            self.useterm(v, st)
            if v.sort == 's':
                if rep:
                    return [self.word("'"), Item('out', (v, 'string'), self.where()), self.word("'")]
                return [Item('out', (v, 'string'), self.where())]
            return [Item('out', (v, 'py:' + spec if spec else 'py'), self.where())]
        if type(v) is Null:
            return [self.word('None')]
        if isseq(v):
            c = self.content(v, st)
            o, s = ('(', ', ') if istuple(v) else ('[', ' ' if isarray(v) else ', ')
            out = [self.word(o)]
            if type(c) is Vec:
                for q, x in enumerate(c.items):
                    if q:
                        out.append(self.word(s))
                    out += self.items(x, st, '', True)
            elif type(c) is Arr and len(c.ks) == 1 and type(c.body) is Term:
                out.append(Rep(c.ks[0], c.shape[0], tuple([self.word(s)] + self.items(c.body, st))))
            else:
                out.append(Item('out', (T.mkapp('text', (T.num(id(c)),), 's'), 'string'), self.where()))
            return out + [self.word(')' if o == '(' else ']')]
        if type(v) is Choice:
            from .values import Alt
            return [Alt(v.c, self.items(v.a, st, spec), self.items(v.b, st, spec))]
        return [Item('out', (T.mkapp('text', (T.string(repr(type(v)))), 's'), 'string'), self.where())]

    def text(self, items):
        if all(type(i) is Item and i.kind == 'out' and type(i.args[0]) is Term and i.args[0].op == 'str' for i in items):
            return T.string(''.join(i.args[0].args[0] for i in items))
        if len(items) == 1 and type(items[0]) is Item and type(items[0].args[0]) is Term and items[0].args[0].sort == 's':
            return items[0].args[0]
        return Stream(items)

    def cat(self, a, b):
        return self.text(self.items(a, _ST) + self.items(b, _ST))

    def E_JoinedStr(self, n, st):
        out = []
        for x in n.values:
            if isinstance(x, ast.Constant):
                out.append(self.word(x.value))
            else:
                v = self.ev(x.value, st)
                spec = ''
                if x.format_spec is not None:
                    s = self.ev(x.format_spec, st)
                    if type(s) is not Term or s.op != 'str':
                        raise Unsupported('format at %s' % self.where())
                    spec = s.args[0]
                out += self.items(v, st, spec, x.conversion == 114)
        return self.text(out)

    def format(self, s, args, kw, st):
        import string
        if s.op != 'str':
            raise Unsupported('format at %s' % self.where())
        out, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(s.args[0]):
            if lit:
                out.append(self.word(lit))
            if field is None:
                continue
            if '{' in (spec or ''):
                raise Unsupported('format at %s' % self.where())
            base = field.split('[')[0].split('.')[0]
            if base == '':
                v, auto = args[auto], auto + 1
            elif base.isdigit():
                if int(base) >= len(args):
                    self.fail('IndexError', T.TRUE, st)
                v = args[int(base)]
            else:
                v = kw[base]
            rest = field[len(base):]
            if rest:
                if rest.startswith('[') and rest.endswith(']') and rest[1:-1].isdigit():
                    v = self.item(v, [T.num(int(rest[1:-1]))], st)
                else:
                    raise Unsupported('format field at %s' % self.where())
            out += self.items(v, st, spec or '', conv == 'r')
        return self.text(out)

    def percent(self, s, b, st):
        import re
        if type(s) is not Term or s.op != 'str':
            raise Unsupported('format at %s' % self.where())
        vs = list(b.f['a'].items) if istuple(b) else [b]
        out = []
        for w in re.split(r'(%[-+ 0#]*\d*(?:\.\d+)?[a-zA-Z%])', s.args[0]):
            if w == '%%':
                out.append(self.word('%'))
            elif w.startswith('%') and len(w) > 1:
                if not vs:
                    self.fail('TypeError', T.TRUE, st)
                v = vs.pop(0)
                c = w[-1]
                if c in 'di' and type(v) is Term and v.sort == 'r':
                    v = self.trunc(v)
                out += self.items(v, st, '' if c in 'disr' and len(w) == 2 else w[1:])
            elif w:
                out.append(self.word(w))
        if vs:
            self.fail('TypeError', T.TRUE, st)
        return self.text(out)

    def put(self, nm, items, st):
        p = self.global_({'global': nm, 'n': nm, 'ty': 'ostream'}, st)
        st.store[p.root] = Stream(st.store[p.root].items + tuple(items))

    # -------------------------------------------------------------- calls
    def E_Call(self, n, st):
        f = self.ev(n.func, st)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                c = self.content(v.f['a'] if type(v) is Obj and v.cls == '#items' else v, st)
                if type(c) is not Vec:
                    raise Unsupported('starred argument at %s' % self.where())
                args += list(c.items)
            else:
                args.append(self.ev(a, st))
        for k in n.keywords:
            if k.arg is None:
                raise Unsupported('keyword arguments at %s' % self.where())
            kw[k.arg] = self.ev(k.value, st)
        self.at(n)
        return self.callv_(f, args, kw, st)

    def callv_(self, f, args, kw, st):
        from . import pylib
        if isinstance(f, Fun):
            return self.callfun(f, args, kw, st)
        if isinstance(f, Cls):
            return self.instance(f, args, kw, st)
        if type(f) is Lib:
            return pylib.call(self, f.q, args, kw, st)
        if type(f) is FnV:
            if f.node is not None:
                if f.this is not None:
                    if f.node.static:
                        return self.callfun(f.node, args, kw, st)
                    return self.callfun(f.node, [f.this] + args, kw, st)
                return self.callfun(f.node, args, kw, st, f.env)
            return pylib.method(self, f.this, f.name, args, kw, st)
        if type(f) is Choice:
            raise Unsupported('call of one of several functions at %s' % self.where())
        raise Unsupported('call of %s at %s' % (type(f).__name__, self.where()))

    def instance(self, c, args, kw, st):
        k = c
        attrs = {}
        for _ in range(8):
            for a in k.attrs:
                attrs.setdefault(a, UndefV('%s.%s' % (c.name, a)))
            for x in k.consts:
                for t in x.targets:
                    attrs[t.id] = self.once(x.value, st)
            nxt = [b for b in k.bases if b in k.mod.classes]
            if not nxt:
                if [b for b in k.bases if b not in ('object',)]:
                    raise Unsupported('base class of %s' % k.name)
                break
            k = k.mod.classes[nxt[0]]
        p = self.alloc(st, c.name, Obj(c.name, attrs), 'T:' + c.name)
        q = c.name + '.__init__'
        if q in self.stubs:
            self.stubs[q](self, st, p, args, kw)
            return p
        f = self.method(c.name, '__init__')
        if f is not None:
            self.callfun(f, [p] + args, kw, st)
        return p

    def once(self, n, st):
        """value of a default argument or of a class attribute: an object that all calls and instances share"""
        v = self.shared.get(n)
        if type(v) is Ptr and v.root in st.store:
            return v
        v = self.ev(n, st)
        if type(v) is Ptr:
            self.shared[n] = v
        return v

    def delete(self, p, st):
        o = st.store[p.root]
        f = self.method(o.cls, '__del__') if type(o) is Obj else None
        if f is not None:
            self.callfun(f, [p], {}, st)
        self.event(st, 'destroy')

    def callfun(self, f, args, kw, st, env=None):
        if f.bad:
            raise Unsupported('%s of %s' % (f.bad, f.q))
        if len(self.frames) > 60:
            raise Unsupported('call depth')
        q = f.q
        stub = self.stubs.get(q)
        if stub is not None:
            return stub(self, st, args[0] if f.cls and not f.static and args else None, args[1:] if f.cls and not f.static else args, kw)
        self.visited[q] = f.mod.path
        fr = Frame(dict(f.fn, mod=f.mod))
        fr.locals = {}
        if env:
            fr.env.update(env)
        a = f.node.args
        if a.vararg or a.kwarg or a.posonlyargs:
            raise Unsupported('parameters of %s' % q)
        names = [x.arg for x in a.args]
        got = {}
        if len(args) > len(names):
            self.fail('TypeError', T.TRUE, st)
        for x, v in zip(names, args):
            got[x] = v
        for x, v in kw.items():
            if x in got or x not in names + [y.arg for y in a.kwonlyargs]:
                self.fail('TypeError', T.TRUE, st)
            got[x] = v
        self.frames.append(fr)
        try:
            for x, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(y.arg, d) for y, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
                if x not in got:
                    got[x] = self.once(d, st)
        finally:
            self.frames.pop()
        for x in names:
            if x not in got:
                self.fail('TypeError', T.TRUE, st)
            fr.env[x] = self.alloc(st, x, self.bind(got[x], st))
        for x in f.locals:
            if x not in names:
                fr.env[x] = self.alloc(st, x, UndefV(x))
        return self.run(fr, f.node.body, st)

    def run(self, fr, body, st):
        self.frames.append(fr)
        saved = self.curnode
        try:
            o = self.stmts(body, st.copy())
        finally:
            self.frames.pop()
        self.curnode = saved
        outs = list(o.ret)
        if o.next is not None:
            outs.append((o.next, NULL))
        if not outs:
            st.pc = st.pc + (T.FALSE,)
            st._facts = None
            raise PathEnds(o.exit)
        for s in o.exit:
            self.exits(s)
        cur, val = outs[0]
        for s, v in outs[1:]:
            c = merge_cond(cur, s)
            if num(val) and num(v) and val.sort != v.sort:
                val, v = sorts(val, v)
            val = merge(c, val, v)
            cur = merge_states(cur, s)
        st.store, st.pc, st._facts = cur.store, cur.pc, None
        # objects only this call knew are gone
        return val

    def libattr(self, b, nm, st):
        from . import pylib
        return pylib.attr(self, b, nm, st)

    def arrayattr(self, b, nm, st):
        from . import pylib
        return pylib.arrayattr(self, b, nm, st)


class _Empty:
    pc = ()

    def vsimp(self, v):
        return v

    def simp(self, v):
        return v


_ST = _Empty()


def undefined(v):
    if type(v) is UndefV:
        return T.TRUE
    if type(v) is Choice:
        return T.ite(v.c, undefined(v.a), undefined(v.b))
    return T.FALSE


def bound(v):
    if type(v) is Choice:
        a, b = bound(v.a), bound(v.b)
        if type(a) is UndefV:
            return b
        if type(b) is UndefV:
            return a
        return merge(v.c, a, b)
    return v


def isnull(v):
    if type(v) is Null:
        return T.TRUE
    if type(v) is Choice:
        return T.ite(v.c, isnull(v.a), isnull(v.b))
    return T.FALSE


class PySession:
    """one abstract execution of a Python program"""

    def __init__(self, prog):
        self.prog = prog
        self.I = PyInterp(prog)
        self.st = self.I.newstate()
        self.where_ = ''
        fr = Frame({'q': '<driver>', 'file': REPO + '/<driver>', 'retref': False, 'mod': prog.main})
        fr.locals = {}
        self.I.frames.append(fr)

    def start(self, name='library'):
        """module level code of the modules, imported ones first; False when the program has ended"""
        I = self.I
        ms = [m for m in self.prog.mods.values() if m is not self.prog.main] + [self.prog.main]
        for m in ms:
            I.name_ = name if m is self.prog.main else m.name
            for x in m.vars:
                I.gvars[(m.name, x)] = I.alloc(self.st, x, UndefV(x))
            fr = Frame({'q': '<module>', 'file': m.path, 'retref': False, 'mod': m, 'ln': 1, 'py': m})
            fr.locals = {}
            fr.env = {x: I.gvars[(m.name, x)] for x in m.vars}
            try:
                I.run(fr, m.top, self.st)
            except PathEnds as e:
                for s in e.states:
                    I.exits(s)
                return False
        return True

    def main(self, args, argint=None):
        self.I.args = args
        self.I.argint = argint or {}
        return self.start('__main__')

    def array(self, items):
        return self.I.alloc(self.st, 'array', Vec(items), 'ndarray')

    def list(self, items):
        return self.I.alloc(self.st, 'list', Vec(items), 'list')

    def new(self, cls, *args):
        c = self.prog.main.classes.get(cls)
        if c is None:
            raise AnalysisBroken('no class %s in %s' % (cls, self.prog.rel))
        self.where_ = '%s:%s %s' % (self.prog.rel, c.node.lineno, cls)
        return self.ended(lambda: self.I.instance(c, list(args), {}, self.st))

    def call(self, obj, nm, *args):
        o = self.st.store[obj.root]
        f = self.I.method(o.cls, nm)
        if f is None:
            raise AnalysisBroken('no method %s of %s' % (nm, o.cls))
        self.where_ = '%s:%s %s' % (self.prog.rel, f.node.lineno, f.q)
        return self.ended(lambda: self.I.callfun(f, [obj] + list(args), {}, self.st))

    def ended(self, fn):
        try:
            return fn()
        except PathEnds as e:
            at = self.where_
            for s in e.states:
                self.I.exits(s)
                its = [x for x in s.store[TRACE].items if type(x) is Item and x.kind == 'stop'] if TRACE in s.store else []
                at = its[-1].at if its else at
            raise Raised(at)

    def fork(self):
        s = PySession.__new__(PySession)
        s.__dict__.update(self.__dict__)
        s.st = self.st.copy()
        return s


_progs = {}


def program(rel):
    if rel not in _progs:
        _progs[rel] = PyProgram(rel)
    return _progs[rel]
