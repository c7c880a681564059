"""Parser for the free-form Fortran sources (statements and expressions become the node dictionaries the interpreter runs)."""
import os
import re
import subprocess
from fractions import Fraction
from .cxx import REPO, SourceBroken, AnalysisBroken


class Bad(Exception):
    pass


# ------------------------------------------------------------------ preprocessing
def preprocess(text, defs):
    """lines (number, text) that remain; conditionals are evaluated, macros substituted"""
    macros = dict(defs)
    out = []
    stack = []          # [taken now, taken before]
    for no, ln in enumerate(text.split('\n'), 1):
        m = re.match(r'\s*#\s*(\w+)\s*(.*)$', ln)
        if m:
            d, rest = m.group(1), m.group(2).strip()
            live = all(s[0] for s in stack)
            if d in ('if', 'ifdef', 'ifndef'):
                c = live and (evalcond(rest, macros) if d == 'if' else (rest.split()[0] in macros) == (d == 'ifdef'))
                stack.append([c, c])
            elif d == 'elif':
                up = all(s[0] for s in stack[:-1])
                c = up and not stack[-1][1] and evalcond(rest, macros)
                stack[-1] = [c, stack[-1][1] or c]
            elif d == 'else':
                c = all(s[0] for s in stack[:-1]) and not stack[-1][1]
                stack[-1] = [c, True]
            elif d == 'endif':
                stack.pop()
            elif live and d == 'define':
                p = rest.split(None, 1)
                macros[p[0]] = p[1] if len(p) > 1 else '1'
            elif live and d == 'undef':
                macros.pop(rest, None)
            elif live and d == 'error':
                raise Bad('#error %s' % rest)
            continue
        if all(s[0] for s in stack):
            for k, v in macros.items():
                if k in ln:
                    ln = re.sub(r'\b%s\b' % re.escape(k), lambda m, v=v: v, ln)
            out.append((no, ln))
    return out


def evalcond(s, macros):
    s = re.sub(r'/\*.*?\*/', ' ', s)
    s = re.sub(r'defined\s*\(?\s*(\w+)\s*\)?', lambda m: '1' if m.group(1) in macros else '0', s)
    s = re.sub(r'[A-Za-z_]\w*', lambda m: macros.get(m.group(0), '0'), s)
    s = s.replace('&&', ' and ').replace('||', ' or ')
    s = re.sub(r'!(?!=)', ' not ', s)
    try:
        return bool(eval(s, {'__builtins__': {}}))
    except Exception:
        raise Bad('preprocessor condition %s' % s)


SENT = re.compile(r'\s*!\$(omp|acc)\b', re.I)


def logical(lines, openmp, openacc):
    """logical lines: (number, text, kind) with kind '' / 'omp' / 'acc'"""
    out = []
    cur, cno, ckind = '', 0, ''
    for no, ln in lines:
        m = SENT.match(ln)
        kind = ''
        if m:
            kind = m.group(1).lower()
            body = ln[m.end():]
            if not (openmp if kind == 'omp' else openacc):
                continue
        elif openmp and re.match(r'\s*!\$\s', ln):
            body = re.sub(r'!\$', '', ln, count=1)
        else:
            body = ln
        body = strip_comment(body)
        if not body.strip():
            continue
        if cur:
            b = body.lstrip()
            if b.startswith('&'):
                b = b[1:]
            cur += ' ' + b
        else:
            cur, cno, ckind = body, no, kind
        if cur.rstrip().endswith('&'):
            cur = cur.rstrip()[:-1]
            continue
        for part in split_semi(cur) if not ckind else [cur]:
            if part.strip():
                out.append((cno, part.strip(), ckind))
        cur = ''
    return out


def strip_comment(s):
    q = None
    for i, ch in enumerate(s):
        if q:
            if ch == q:
                q = None
        elif ch in '\'"':
            q = ch
        elif ch == '!':
            return s[:i]
    return s


def split_semi(s):
    out, q, cur = [], None, ''
    for ch in s:
        if q:
            if ch == q:
                q = None
        elif ch in '\'"':
            q = ch
        elif ch == ';':
            out.append(cur)
            cur = ''
            continue
        cur += ch
    out.append(cur)
    return out


# ------------------------------------------------------------------ tokens
TOK = re.compile(r'''\s*(?:
    (?P<num>(?:\d+\.\d*(?![A-Za-z]*\.)|\.\d+|\d+)(?:[eEdD][+-]?\d+)?(?:_\w+)?)
  | (?P<str>'(?:[^']|'')*'|"(?:[^"]|"")*")
  | (?P<dot>\.\s*[A-Za-z]+\s*\.)
  | (?P<id>[A-Za-z_]\w*)
  | (?P<op>\*\*|==|/=|<=|>=|=>|::|//|\(/(?!/)|/\)|[-+*/()=<>,:%\[\]&])
)''', re.X)


def tokens(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m or m.end() == i:
            raise Bad('cannot read %r' % s[i:i + 30])
        k = m.lastgroup
        v = m.group(k)
        if k == 'id':
            out.append(('id', v.lower(), m.start(k)))
        elif k == 'dot':
            out.append(('op', '.' + v.strip('. ').lower().strip() + '.', m.start(k)))
        elif k == 'str':
            q = v[0]
            out.append(('str', v[1:-1].replace(q + q, q), m.start(k)))
        else:
            out.append((k, v, m.start(k)))
        i = m.end()
    return out


REL = {'.eq.': '==', '.ne.': '/=', '.lt.': '<', '.le.': '<=', '.gt.': '>', '.ge.': '>='}


class Toks:
    def __init__(self, s, ln):
        self.t = tokens(s) + [('end', '', len(s))]
        self.i = 0
        self.ln = ln
        self.s = s

    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)]

    def val(self, k=0):
        return self.peek(k)[1]

    def at(self, *vs):
        t = self.peek()
        return t[0] in ('op', 'id') and t[1] in vs

    def next(self):
        t = self.t[self.i]
        self.i += 1
        return t

    def eat(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def need(self, v):
        if not self.eat(v):
            raise Bad('%r expected in %r (line %s)' % (v, self.s[:60], self.ln))

    def ident(self):
        t = self.next()
        if t[0] != 'id':
            raise Bad('name expected in %r (line %s)' % (self.s[:60], self.ln))
        return t[1]

    def end(self):
        return self.peek()[0] == 'end'

    # -------------------------------------------------------------- expressions
    def node(self, k, **kw):
        kw['k'] = k
        kw['ln'] = self.ln
        return kw

    def expr(self):
        return self.p_eqv()

    def p_eqv(self):
        a = self.p_or()
        while self.at('.eqv.', '.neqv.'):
            o = self.next()[1]
            a = self.node('fbin', op=o, l=a, r=self.p_or())
        return a

    def p_or(self):
        a = self.p_and()
        while self.eat('.or.'):
            a = self.node('fbin', op='.or.', l=a, r=self.p_and())
        return a

    def p_and(self):
        a = self.p_not()
        while self.eat('.and.'):
            a = self.node('fbin', op='.and.', l=a, r=self.p_not())
        return a

    def p_not(self):
        if self.eat('.not.'):
            return self.node('fun', op='.not.', e=self.p_not())
        return self.p_rel()

    def p_rel(self):
        a = self.p_cat()
        t = self.peek()
        if t[0] == 'op' and (t[1] in ('==', '/=', '<', '<=', '>', '>=') or t[1] in REL):
            self.next()
            return self.node('fbin', op=REL.get(t[1], t[1]), l=a, r=self.p_cat())
        return a

    def p_cat(self):
        a = self.p_add()
        while self.eat('//'):
            a = self.node('fbin', op='//', l=a, r=self.p_add())
        return a

    def p_add(self):
        if self.at('+', '-'):
            o = self.next()[1]
            a = self.p_mul()
            a = self.node('fun', op=o, e=a)
        else:
            a = self.p_mul()
        while self.at('+', '-'):
            o = self.next()[1]
            a = self.node('fbin', op=o, l=a, r=self.p_mul())
        return a

    def p_mul(self):
        a = self.p_pow()
        while self.at('*', '/'):
            o = self.next()[1]
            a = self.node('fbin', op=o, l=a, r=self.p_pow())
        return a

    def p_pow(self):
        a = self.p_prim()
        if self.eat('**'):
            if self.at('-', '+'):
                o = self.next()[1]
                b = self.node('fun', op=o, e=self.p_pow())
            else:
                b = self.p_pow()
            return self.node('fbin', op='**', l=a, r=b)
        return a

    def p_prim(self):
        t = self.peek()
        if t[0] == 'num':
            self.next()
            return self.number(t[1])
        if t[0] == 'str':
            self.next()
            return self.node('str', v=t[1], ty='string')
        if t[0] == 'op':
            if t[1] == '(':
                self.next()
                e = self.expr()
                self.need(')')
                return self.node('fparen', e=e)
            if t[1] in ('.true.', '.false.'):
                self.next()
                return self.node('bool', v=t[1] == '.true.', ty='bool')
            if t[1] in ('(/', '['):
                self.next()
                close = '/)' if t[1] == '(/' else ']'
                items = []
                i = self.i
                try:
                    typespec(self)
                    if not self.eat('::'):
                        self.i = i
                except Bad:
                    self.i = i
                while not self.at(close):
                    items.append((self.implied() if self.at('(') else None) or self.expr())
                    if not self.eat(','):
                        break
                self.need(close)
                return self.node('acons', items=items)
            if t[1] in ('+', '-'):
                self.next()
                return self.node('fun', op=t[1], e=self.p_pow())
        if t[0] == 'id':
            return self.designator()
        raise Bad('expression expected in %r (line %s)' % (self.s[:60], self.ln))

    def number(self, s):
        kind = None
        if '_' in s:
            s, kind = s.split('_', 1)
        if re.fullmatch(r'\d+', s):
            return self.node('int', v=int(s), ty='i32')
        dbl = 'd' in s.lower()
        v = Fraction(s.lower().replace('d', 'e').rstrip('.') if s.endswith('.') else s.lower().replace('d', 'e').replace('.e', '.0e'))
        if kind is None and not dbl:
            import struct
            x = Fraction(struct.unpack('f', struct.pack('f', float(v)))[0])
            # a default-kind literal is a single precision number
            v = x if x != v else v
        return self.node('fnum', v=v, ty='f64', kind=kind)

    def designator(self):
        parts = []
        while True:
            nm = self.ident()
            args = None
            if self.at('('):
                self.next()
                args = self.arglist(')')
                # substring or second parenthesis
            parts.append((nm, args))
            if not self.eat('%'):
                break
        return self.node('dsg', parts=parts, n=parts[-1][0])

    def arglist(self, close):
        args = []
        while not self.at(close):
            args.append(self.argument())
            if not self.eat(','):
                break
        self.need(close)
        return args

    def implied(self):
        """(items, i = lo, hi [, st])"""
        i = self.i
        try:
            self.need('(')
            items = []
            while True:
                if self.peek()[0] == 'id' and self.val(1) == '=' and self.peek(1)[0] == 'op':
                    v = self.ident()
                    self.need('=')
                    lo = self.expr()
                    self.need(',')
                    hi = self.expr()
                    st = self.expr() if self.eat(',') else None
                    self.need(')')
                    return self.node('implied', items=items, var=v, lo=lo, hi=hi, st=st)
                items.append((self.implied() if self.at('(') else None) or self.expr())
                self.need(',')
        except Bad:
            self.i = i
            return None

    def argument(self):
        if self.peek()[0] == 'id' and self.val(1) == '=' and self.peek(1)[0] == 'op':
            nm = self.ident()
            self.need('=')
            if self.eat('*'):
                return self.node('kwarg', n=nm, e=self.node('star'))
            return self.node('kwarg', n=nm, e=self.expr())
        if self.at('*') and self.val(1) in (',', ')'):
            self.next()
            return self.node('star')
        lo = hi = st = None
        if not self.at(':', '::'):
            lo = self.expr()
            if not self.at(':', '::'):
                return lo
        if self.eat('::'):
            st = self.expr()
            return self.node('range', lo=lo, hi=None, st=st)
        self.need(':')
        if not self.at(',', ')', ':', '/)', ']'):
            if self.at('*'):
                self.next()
                hi = self.node('star')
            else:
                hi = self.expr()
        if self.eat(':'):
            st = self.expr()
        return self.node('range', lo=lo, hi=hi, st=st)


# ------------------------------------------------------------------ declarations
TYPEKW = ('integer', 'real', 'logical', 'character', 'double', 'type', 'class', 'complex')


def typespec(t):
    """type at the cursor: dict(base, kind expr, len expr, cls)"""
    b = t.ident()
    ty = {'base': b, 'kind': None, 'len': None}
    if b == 'double':
        t.need('precision')
        ty['base'] = 'real'
        ty['kind'] = t.node('int', v=8, ty='i32')
        return ty
    if b in ('type', 'class'):
        t.need('(')
        if t.eat('*'):
            ty['cls'] = '*'
        else:
            ty['cls'] = t.ident()
        t.need(')')
        return ty
    if t.at('(') :
        t.next()
        for a in t.arglist(')'):
            if a['k'] == 'kwarg':
                ty['kind' if a['n'] == 'kind' else 'len'] = a['e']
            elif b == 'character':
                ty['len'] = a
            else:
                ty['kind'] = a
    elif t.at('*'):
        t.next()
        x = t.next()
        if x[0] == 'num':
            ty['kind' if b != 'character' else 'len'] = t.node('int', v=int(x[1]), ty='i32')
        elif x[1] == '(':
            while not t.eat(')'):
                t.next()
    return ty


def entity_decl(t):
    """declarations of one statement"""
    ty = typespec(t)
    attrs = {}
    while t.eat(','):
        a = t.ident()
        if a == 'intent':
            t.need('(')
            w = t.ident()
            if t.at('out'):
                w += t.ident()
            t.need(')')
            attrs['intent'] = w
        elif a == 'dimension':
            t.need('(')
            attrs['dims'] = t.arglist(')')
        else:
            attrs[a] = True
            if t.at('('):
                t.next()
                t.arglist(')')
    t.eat('::')
    out = []
    while not t.end():
        nm = t.ident()
        d = {'n': nm, 'ty': ty, 'attrs': attrs, 'dims': attrs.get('dims'), 'init': None, 'ln': t.ln}
        if t.at('('):
            t.next()
            d['dims'] = t.arglist(')')
        if t.at('*') and ty['base'] == 'character':
            t.next()
            d['ty'] = dict(ty, len=t.p_prim())
        if t.eat('=>'):
            d['init'] = t.expr()
        elif t.eat('='):
            d['init'] = t.expr()
        out.append(d)
        if not t.eat(','):
            break
    if not t.end():
        raise Bad('declaration %r (line %s)' % (t.s[:60], t.ln))
    return out


def isdecl(t):
    if t.peek()[0] != 'id' or t.val() not in TYPEKW:
        return False
    w = t.val()
    n = t.peek(1)
    if w in ('type', 'class'):
        return n[1] == '('
    if w == 'double':
        return n[1] == 'precision'
    if n[0] == 'id' or n[1] in ('::', ',', '*'):
        return n[1] != 'function'
    if n[1] == '(':
        # real(8) :: x   against   real(x) = ...
        d, i = 0, t.i + 1
        while i < len(t.t):
            if t.t[i][1] == '(' and t.t[i][0] == 'op':
                d += 1
            elif t.t[i][1] == ')' and t.t[i][0] == 'op':
                d -= 1
                if d == 0:
                    nx = t.t[i + 1]
                    return (nx[0] == 'id' and nx[1] != 'function') or nx[1] in ('::', ',')
            i += 1
    return False


PREFIX = ('pure', 'elemental', 'recursive', 'impure', 'module')


def procstart(t):
    """procedure statement: (kind, name, args, result, type) or None"""
    i = t.i
    pre, ty = [], None
    while True:
        if t.at(*PREFIX) and not (t.at('module') and t.val(1) == 'procedure'):
            pre.append(t.next()[1])
            continue
        if t.peek()[0] == 'id' and t.val() in TYPEKW and ty is None:
            j = t.i
            try:
                ty = typespec(t)
            except Bad:
                t.i = i
                return None
            continue
        break
    if t.at('subroutine', 'function') and t.peek(1)[0] == 'id':
        kind = t.next()[1]
        nm = t.ident()
        args = []
        if t.eat('('):
            while not t.at(')'):
                args.append('*' if t.eat('*') else t.ident())
                if not t.eat(','):
                    break
            t.need(')')
        res = None
        while t.at('result', 'bind'):
            w = t.ident()
            t.need('(')
            if w == 'result':
                res = t.ident()
                t.need(')')
            else:
                t.arglist(')')
        if t.end():
            return kind, nm, args, res, ty, pre
    t.i = i
    return None


# ------------------------------------------------------------------ program units
class Unit:
    """module / program / procedure"""

    def __init__(self, kind, name, ln):
        self.kind, self.name, self.ln = kind, name, ln
        self.args, self.result, self.rty = [], None, None
        self.decls = {}
        self.order = []
        self.types = {}
        self.procs = {}
        self.uses = []
        self.body = None
        self.host = None
        self.pre = []
        self.file = None
        self.marks = []

    def add(self, d):
        self.decls[d['n']] = d
        self.order.append(d['n'])


class Parser:
    def __init__(self, path, defs, openmp=True, openacc=False):
        self.path = path
        with open(path) as f:
            text = f.read()
        self.lines = logical(preprocess(text, defs), openmp, openacc)
        self.i = 0
        self.units = {}
        self.labels = []

    def more(self):
        return self.i < len(self.lines)

    def cur(self):
        return self.lines[self.i]

    def tk(self):
        no, s, kind = self.cur()
        return Toks(s, no)

    def run(self):
        while self.more():
            no, s, kind = self.cur()
            if kind:
                self.i += 1
                continue
            t = self.tk()
            if t.at('module') and t.peek(1)[0] == 'id' and t.val(1) != 'procedure':
                self.unit('module', None)
            elif t.at('program'):
                self.unit('program', None)
            elif procstart(self.tk()):
                self.unit('proc', None)
            else:
                u = Unit('program', 'main', no)
                self.rest(u, None)
                self.units[u.name] = u
        return self.units

    def unit(self, kind, host):
        t = self.tk()
        no = t.ln
        if kind in ('module', 'program'):
            t.next()
            u = Unit(kind, t.ident(), no)
        else:
            k, nm, args, res, ty, pre = procstart(t)
            u = Unit(k, nm, no)
            u.args, u.pre = args, pre
            u.result = (res or nm) if k == 'function' else None
            u.rty = ty
        u.host = host
        u.file = self.path
        self.i += 1
        self.rest(u, host)
        if u.rty is not None and u.result not in u.decls:
            u.add({'n': u.result, 'ty': u.rty, 'attrs': {}, 'dims': None, 'init': None, 'ln': no})
        (host.procs if host is not None else self.units)[u.name] = u
        return u

    def rest(self, u, host):
        """specification part, execution part, contained procedures, end"""
        while self.more():
            no, s, kind = self.cur()
            if kind:
                w = s.split('(')[0].split()
                if (kind == 'omp' and w[:2] == ['declare', 'target']) or (kind == 'acc' and w and w[0] in ('routine', 'declare')) or \
                        (kind == 'omp' and w and w[0] in ('threadprivate', 'requires')):
                    u.marks.append((kind, s))
                    self.i += 1
                    continue
                break
            t = self.tk()
            if t.at('use'):
                t.next()
                if t.eat(','):
                    t.ident()
                t.eat('::')
                u.uses.append(t.ident())
            elif t.at('implicit', 'private', 'public', 'save', 'external', 'intrinsic', 'import', 'sequence') and t.val(1) != '=':
                pass
            elif t.at('parameter') and t.val(1) == '(':
                t.next()
                t.next()
                for a in t.arglist(')'):
                    d = u.decls.get(a['n'])
                    if d is None:
                        raise Bad('parameter %s' % a['n'])
                    d['init'] = a['e']
                    d['attrs'] = dict(d['attrs'], parameter=True)
            elif t.at('type') and t.val(1) != '(' and t.val(1) != '=':
                self.dtype(u, t)
                continue
            elif t.at('interface', 'abstract'):
                while not re.match(r'end\s*interface', self.cur()[1], re.I):
                    self.i += 1
            elif isdecl(t):
                if procstart(self.tk()):
                    break
                for d in entity_decl(t):
                    u.add(d)
            else:
                break
            self.i += 1
        body, stop = [], None
        if u.kind != 'module':
            body, stop = self.block(('end', 'contains'))
        u.body = {'k': 'block', 'c': body, 'ln': u.ln}
        while self.more():
            no, s, kind = self.cur()
            t = self.tk() if not kind else None
            if kind:
                self.i += 1
                continue
            if t.at('contains'):
                self.i += 1
                while self.more():
                    if self.cur()[2]:
                        self.i += 1
                        continue
                    if procstart(self.tk()):
                        self.unit('proc', u)
                    else:
                        break
                continue
            if t.at('end', 'endmodule', 'endprogram', 'endsubroutine', 'endfunction'):
                self.i += 1
                return
            raise Bad('%s:%s: %r not expected' % (self.path, no, s[:60]))

    def dtype(self, u, t):
        t.next()
        attrs = {}
        while t.eat(','):
            a = t.ident()
            if t.eat('('):
                attrs[a] = t.ident()
                t.need(')')
            else:
                attrs[a] = True
        t.eat('::')
        nm = t.ident()
        ty = {'n': nm, 'fields': [], 'bound': {}, 'attrs': attrs, 'final': []}
        self.i += 1
        inb = False
        while True:
            t = self.tk()
            if t.at('end', 'endtype') and not isdecl(t):
                self.i += 1
                break
            if t.at('contains'):
                inb = True
            elif inb:
                if t.at('procedure'):
                    t.next()
                    opts = []
                    if t.eat('('):
                        t.arglist(')')
                    while t.eat(','):
                        opts.append(t.ident())
                        if t.eat('('):
                            t.arglist(')')
                    t.eat('::')
                    while True:
                        a = t.ident()
                        b = t.ident() if t.eat('=>') else a
                        ty['bound'][a] = (b, opts)
                        if not t.eat(','):
                            break
                elif t.at('final'):
                    t.next()
                    t.eat('::')
                    ty['final'].append(t.ident())
            elif t.at('private', 'sequence', 'public'):
                pass
            else:
                ty['fields'] += entity_decl(t)
            self.i += 1
        u.types[nm] = ty

    # -------------------------------------------------------------- statements
    def block(self, stops):
        """statements up to one that starts with a word of stops; returns (nodes, stopping word)"""
        out = []
        while self.more():
            no, s, kind = self.cur()
            if kind:
                w = s.split()
                if w and w[0].lower() == 'end' and 'dir-end' in stops:
                    return out, 'dir-end'
                n = self.directive(kind)
                if n is not None:
                    out.append(n)
                continue
            t = self.tk()
            w = t.val() if t.peek()[0] == 'id' else ''
            if (w == 'else' or w == 'elseif' or w == 'elsewhere') and not (t.val(1) in ('=', '%') and t.peek(1)[0] == 'op'):
                if 'else' in stops:
                    return out, 'else'
                raise Bad('%s:%s: %r not expected' % (self.path, no, s[:60]))
            elif w in ('end', 'endif', 'enddo', 'endselect', 'endsubroutine', 'endfunction', 'endprogram', 'endmodule', 'endwhere', 'endblock', 'endassociate') \
                    and not (t.val(1) in ('=', '(', '%') and t.peek(1)[0] == 'op'):
                if 'end' in stops:
                    return out, 'end'
                raise Bad('%s:%s: %r not expected' % (self.path, no, s[:60]))
            elif w == 'case' and 'case' in stops and t.val(1) in ('(', 'default'):
                return out, 'case'
            elif w == 'contains' and t.peek(1)[0] == 'end':
                if 'contains' in stops:
                    return out, 'contains'
            n = self.statement()
            if n is not None:
                out.append(n)
        return out, None

    def statement(self):
        no, s, kind = self.cur()
        t = self.tk()
        label = None
        if t.peek()[0] == 'num':
            t.next()
        if t.peek()[0] == 'id' and t.val(1) == ':' and t.peek(2)[0] == 'id' and t.val(2) in ('do', 'if', 'select', 'block', 'associate', 'where', 'forall', 'critical'):
            label = t.ident()
            t.next()
        w = t.val() if t.peek()[0] == 'id' else ''
        nx = t.peek(1)
        assign = nx[1] in ('=', '%', '=>') and nx[0] == 'op'
        if w == 'if' and nx[1] == '(' and not self.isassign(t):
            return self.ifs(t)
        if w == 'do' and not assign:
            return self.dos(t, label)
        if w == 'dowhile' and nx[1] == '(':
            t.next()
            return self.whiles(t, label)
        if w in ('select', 'selectcase') and not assign:
            return self.select(t)
        if w == 'where' and nx[1] == '(' and not self.isassign(t):
            return self.where(t)
        if w == 'associate' and nx[1] == '(' and not self.isassign(t):
            return self.associate(t)
        if w == 'block' and nx[0] == 'end':
            return self.blockcon(t)
        if w in ('forall', 'critical') and not assign and not self.isassign(t):
            return self.skip(t, w)
        self.i += 1
        try:
            return self.simple(t)
        except Bad as e:
            # the compiler accepts it: it is this reader that does not know the statement
            return {'k': 'unread', 'why': str(e), 'ln': no}

    def skip(self, t, w):
        """a construct that is not read"""
        n = {'k': 'unread', 'why': '%s:%s: %s construct' % (self.path, t.ln, w), 'ln': t.ln}
        self.i += 1
        if w == 'forall':
            d = 0
            while not t.end():
                v = t.next()[1]
                d += (v == '(') - (v == ')')
                if v == ')' and d == 0:
                    break
            if not t.end():
                return n
        while self.more() and not re.match(r'end\s*%s' % w, self.cur()[1], re.I):
            self.i += 1
        self.i += 1
        return n

    def associate(self, t):
        ln = t.ln
        t.next()
        t.need('(')
        binds = []
        while not t.at(')'):
            nm = t.ident()
            t.need('=>')
            binds.append((nm, t.expr()))
            if not t.eat(','):
                break
        t.need(')')
        self.done(t)
        self.i += 1
        body, stop = self.block(('end',))
        self.i += 1
        return {'k': 'fassociate', 'binds': binds, 'body': {'k': 'block', 'c': body, 'ln': ln}, 'ln': ln}

    def blockcon(self, t):
        ln = t.ln
        self.i += 1
        decls = []
        while self.more():
            no, s, kind = self.cur()
            t = self.tk() if not kind else None
            if kind or not (isdecl(t) or t.at('use', 'implicit', 'import')):
                break
            if isdecl(t):
                decls += entity_decl(t)
            self.i += 1
        body, stop = self.block(('end',))
        self.i += 1
        return {'k': 'fblock', 'decls': decls, 'body': {'k': 'block', 'c': body, 'ln': ln}, 'ln': ln}

    def isassign(self, t):
        """name ( ... ) [%...] = """
        d = 0
        for i in range(t.i, len(t.t)):
            k, v, _ = t.t[i]
            if k == 'op':
                if v in ('(', '[', '(/'):
                    d += 1
                elif v in (')', ']', '/)'):
                    d -= 1
                    if d == 0:
                        n = t.t[i + 1]
                        return n[0] == 'op' and n[1] in ('=', '%', '=>')
        return False

    def simple(self, t):
        """action statement on one line"""
        w = t.val() if t.peek()[0] == 'id' else ''
        nx = t.peek(1)
        isvar = nx[0] == 'op' and nx[1] in ('=', '%', '=>')
        if not isvar and nx[1] == '(' and nx[0] == 'op':
            isvar = self.isassign(t)
        if isvar:
            l = t.designator()
            if t.eat('=>'):
                return t.node('fptr', l=l, r=t.expr())
            t.need('=')
            r = t.expr()
            self.done(t)
            return t.node('fassign', l=l, r=r)
        t.next()
        if w == 'call':
            d = t.designator()
            self.done(t)
            return t.node('fcall', d=d)
        if w == 'exit':
            return t.node('break', label=None if t.end() else t.ident())
        if w == 'cycle':
            return t.node('continue', label=None if t.end() else t.ident())
        if w == 'return':
            return t.node('return', e=None)
        if w == 'continue':
            return t.node('null')
        if w in ('stop', 'error'):
            if w == 'error':
                t.need('stop')
            return t.node('fstop', e=None if t.end() else t.expr(), error=w == 'error')
        if w in ('allocate', 'deallocate', 'nullify'):
            t.need('(')
            return t.node('f' + w, args=t.arglist(')'))
        if w == 'print':
            fmt = t.node('star') if t.eat('*') else t.expr()
            items = []
            while t.eat(','):
                items.append((t.implied() if t.at('(') else None) or t.expr())
            self.done(t)
            return t.node('fwrite', ctl={'unit': t.node('star'), 'fmt': fmt}, items=items)
        if w in ('write', 'read', 'open', 'close', 'rewind', 'flush', 'inquire', 'backspace'):
            ctl = {}
            if w == 'read' and not t.at('('):
                fmt = t.node('star') if t.eat('*') else t.expr()
                ctl = {'unit': t.node('star'), 'fmt': fmt}
                t.eat(',')
            else:
                t.need('(')
                pos = ['unit', 'fmt'] if w in ('write', 'read') else ['unit']
                for a in t.arglist(')'):
                    if a['k'] == 'kwarg':
                        ctl[a['n']] = a['e']
                    else:
                        ctl[pos.pop(0)] = a
            items = []
            while not t.end():
                if t.at('('):
                    d = t.implied()
                    items.append(d if d is not None else t.expr())
                else:
                    items.append(t.expr())
                if not t.eat(','):
                    break
            self.done(t)
            return t.node('f' + w, ctl=ctl, items=items)
        if w == 'if':
            t.i -= 1
            return self.ifs(t, True)
        raise Bad('%s:%s: statement %r' % (self.path, t.ln, t.s[:60]))

    def done(self, t):
        if not t.end():
            raise Bad('%s:%s: %r not understood' % (self.path, t.ln, t.s[:60]))

    def endof(self):
        self.i += 1

    def ifs(self, t, inline=False):
        ln = t.ln
        t.need('if')
        t.need('(')
        c = t.expr()
        t.need(')')
        if not (t.at('then') and t.peek(1)[0] in ('end', 'id') and t.val(1) != '='):
            if not inline:
                self.i += 1
            return {'k': 'if', 'cond': c, 'then': {'k': 'block', 'c': [self.simple(t)], 'ln': ln}, 'else': None, 'ln': ln}
        self.i += 1
        body, stop = self.block(('else', 'end'))
        n = {'k': 'if', 'cond': c, 'then': {'k': 'block', 'c': body, 'ln': ln}, 'else': None, 'ln': ln}
        if stop == 'else':
            t = self.tk()
            w = t.next()[1]
            if w == 'elseif' or t.at('if'):
                if w == 'elseif':
                    # normalise to "if (...) then"
                    t.i -= 1
                    t.t[t.i] = ('id', 'if', 0)
                n['else'] = {'k': 'block', 'c': [self.ifs(t)], 'ln': t.ln}
            else:
                self.i += 1
                b2, stop = self.block(('end',))
                n['else'] = {'k': 'block', 'c': b2, 'ln': t.ln}
                self.i += 1
        else:
            self.i += 1
        return n

    def dos(self, t, label):
        ln = t.ln
        t.need('do')
        t.eat(',')
        if t.at('while') and t.val(1) == '(':
            return self.whiles(t, label)
        if t.at('concurrent'):
            t.next()
            t.need('(')
            ix, mask = [], None
            if isdecl(t):
                typespec(t)
                t.eat('::')
            while True:
                if t.peek()[0] == 'id' and t.val(1) == '=':
                    v = t.ident()
                    t.need('=')
                    r = t.argument()
                    ix.append((v, r))
                else:
                    mask = t.expr()
                if not t.eat(','):
                    break
            t.need(')')
            loc = []
            while t.at('local', 'local_init', 'shared', 'default'):
                w = t.ident()
                t.need('(')
                a = t.arglist(')')
                if w in ('local', 'local_init'):
                    loc += [x['n'] for x in a]
            self.done(t)
            self.i += 1
            body, stop = self.block(('end',))
            self.i += 1
            return {'k': 'concurrent', 'ix': ix, 'mask': mask, 'local': loc, 'body': {'k': 'block', 'c': body, 'ln': ln}, 'ln': ln}
        if t.end():
            self.i += 1
            body, stop = self.block(('end',))
            self.i += 1
            return {'k': 'while', 'cond': {'k': 'bool', 'v': True, 'ln': ln}, 'body': {'k': 'block', 'c': body, 'ln': ln}, 'ln': ln, 'label': label}
        v = t.ident()
        t.need('=')
        lo = t.expr()
        t.need(',')
        hi = t.expr()
        st = t.expr() if t.eat(',') else None
        self.done(t)
        self.i += 1
        body, stop = self.block(('end',))
        self.i += 1
        return {'k': 'for', 'do': True, 'var': v, 'lo': lo, 'hi': hi, 'st': st, 'body': {'k': 'block', 'c': body, 'ln': ln}, 'ln': ln, 'label': label,
                'init': {'k': 'bin', 'op': '=', 'l': {'k': 'var', 'id': v, 'n': v, 'ty': 'i32'}, 'r': lo, 'ln': ln}}

    def whiles(self, t, label):
        ln = t.ln
        t.eat('while')
        t.need('(')
        c = t.expr()
        t.need(')')
        self.i += 1
        body, stop = self.block(('end',))
        self.i += 1
        return {'k': 'while', 'cond': c, 'body': {'k': 'block', 'c': body, 'ln': ln}, 'ln': ln, 'label': label}

    def select(self, t):
        ln = t.ln
        w = t.next()[1]
        if w == 'select':
            t.need('case')
        t.need('(')
        e = t.expr()
        t.need(')')
        self.i += 1
        cases = []
        pre, stop = self.block(('case', 'end'))
        while stop == 'case':
            t = self.tk()
            t.need('case')
            if t.eat('default'):
                sel = None
            else:
                t.need('(')
                sel = t.arglist(')')
            self.i += 1
            b, stop = self.block(('case', 'end'))
            cases.append((sel, {'k': 'block', 'c': b, 'ln': t.ln}))
        self.i += 1
        return {'k': 'fselect', 'e': e, 'cases': cases, 'ln': ln}

    def where(self, t):
        ln = t.ln
        t.need('where')
        t.need('(')
        c = t.expr()
        t.need(')')
        if not t.end():
            self.i += 1
            return {'k': 'fwhere', 'parts': [(c, [self.simple(t)])], 'ln': ln}
        self.i += 1
        parts = []
        while True:
            body, stop = self.block(('else', 'end'))
            parts.append((c, body))
            if stop != 'else':
                self.i += 1
                break
            t = self.tk()
            if t.next()[1] == 'else':
                t.need('where')
            c = None
            if t.eat('('):
                c = t.expr()
                t.need(')')
            self.i += 1
        return {'k': 'fwhere', 'parts': parts, 'ln': ln}

    # -------------------------------------------------------------- directives
    def directive(self, kind):
        no, s, _ = self.cur()
        self.i += 1
        words, clauses = split_directive(s, no)
        if not words or words[0] == 'end':
            return None
        if kind == 'omp':
            return self.omp(words, clauses, no)
        return self.acc(words, clauses, no)

    def omp(self, words, clauses, no):
        d = ' '.join('for' if w == 'do' else w for w in words)
        n = {'k': 'omp', 'dir': d, 'clauses': clauses, 'ln': no, 'body': None}
        if d in ('barrier', 'taskwait', 'flush', 'taskyield', 'declare target'):
            return n if d != 'declare target' else None
        if 'for' in d.split() or d == 'simd' or d.endswith(' loop') or 'distribute' in d.split():
            b = self.nextstmt()
            n['body'] = b
            self.eatend('omp', words)
            return n
        if d == 'atomic':
            n['body'] = {'k': 'block', 'c': [self.nextstmt()], 'ln': no}
            self.eatend('omp', words)
            return n
        if 'target' in d.split() and set(d.split()) <= {'target', 'enter', 'exit', 'data', 'update'} and ('enter' in d or 'exit' in d or 'update' in d):
            return n
        body, stop = self.block(('dir-end',))
        n['body'] = {'k': 'block', 'c': body, 'ln': no}
        # the matching end carries clauses such as nowait
        no2, s2, k2 = self.cur()
        w2, c2 = split_directive(s2, no2)
        n['clauses'] = clauses + c2
        self.i += 1
        return n

    def nextstmt(self):
        no, s, kind = self.cur()
        if kind:
            x = self.directive(kind)
            return x
        return self.statement()

    def eatend(self, kind, words):
        if self.more() and self.cur()[2] == kind:
            w, c = split_directive(self.cur()[1], 0)
            if w and w[0] == 'end' and [x for x in w[1:]] == words[:len(w) - 1]:
                self.i += 1

    def acc(self, words, clauses, no):
        d = ' '.join('acc ' + ' '.join(words) for _ in (0,))
        n = {'k': 'omp', 'dir': d, 'clauses': clauses, 'ln': no, 'body': None, 'acc': True}
        if words[0] in ('enter', 'exit', 'update', 'wait', 'routine', 'declare'):
            return n if words[0] not in ('routine', 'declare') else None
        if 'loop' in words:
            n['body'] = self.nextstmt()
            self.eatend('acc', words)
            return n
        body, stop = self.block(('dir-end',))
        n['body'] = {'k': 'block', 'c': body, 'ln': no}
        self.i += 1
        return n


CLAUSES = {'private', 'firstprivate', 'lastprivate', 'shared', 'reduction', 'map', 'default', 'schedule', 'num_threads', 'collapse', 'if', 'copyin',
           'copyout', 'copy', 'create', 'present', 'nowait', 'independent', 'gang', 'worker', 'vector', 'seq', 'thread_limit', 'num_teams', 'ordered',
           'depend', 'untied', 'linear', 'safelen', 'simdlen', 'aligned', 'proc_bind', 'final', 'mergeable', 'to', 'from', 'is_device_ptr',
           'use_device_ptr', 'nogroup', 'grainsize', 'num_tasks', 'device', 'async', 'vector_length', 'num_gangs', 'num_workers', 'pcopy', 'deviceptr',
           'attach', 'delete', 'host', 'copyprivate', 'auto', 'dist_schedule', 'hint', 'allocate', 'order', 'bind'}


def split_directive(s, no):
    """directive words and clauses"""
    t = Toks(s.replace(':', ' : '), no)
    words, clauses = [], []
    while not t.end():
        if t.eat(','):
            continue
        w = t.ident()
        if w in CLAUSES and not (w in ('simd',)):
            c = {'c': w, 'vars': []}
            if t.at('('):
                # raw argument text
                d, txt = 0, []
                while True:
                    x = t.next()
                    if x[1] == '(' and x[0] == 'op':
                        d += 1
                        if d == 1:
                            continue
                    if x[1] == ')' and x[0] == 'op':
                        d -= 1
                        if d == 0:
                            break
                    if x[0] == 'end':
                        raise Bad('clause %s (line %s)' % (w, no))
                    txt.append(x[1])
                c['txt'] = ' '.join(txt)
                inner = c['txt']
                if w == 'reduction' and ':' in inner:
                    c['op'], inner = [x.strip() for x in inner.split(':', 1)]
                if w == 'map' and ':' in inner.split('(')[0]:
                    c['map'], inner = [x.strip() for x in inner.split(':', 1)]
                if w in ('private', 'firstprivate', 'lastprivate', 'shared', 'reduction', 'copyin', 'copyout', 'copy', 'create', 'present', 'map', 'linear'):
                    dep, cur, names = 0, '', []
                    for ch in inner + ',':
                        if ch == '(':
                            dep += 1
                        elif ch == ')':
                            dep -= 1
                        if ch == ',' and dep == 0:
                            if cur.strip():
                                names.append(cur.strip())
                            cur = ''
                        else:
                            cur += ch
                    c['vars'] = [{'k': 'var', 'id': x, 'n': x, 'ty': '?'} for x in names if re.fullmatch(r'\w+', x)]
                if w == 'default':
                    c['kind'] = inner.strip()
            clauses.append(c)
        elif w == 'none':
            pass
        else:
            for p in {'paralleldo': ['parallel', 'do'], 'enddo': ['end', 'do'], 'endparallel': ['end', 'parallel']}.get(w, [w]):
                words.append(p)
            if t.at('(') and words and words[-1] in ('critical', 'flush', 'routine', 'wait'):
                t.next()
                t.arglist(')')
    return words, clauses


_parsed = {}


def parse(rel, defs=('HAVE_OPENMP',)):
    """units of a source file of the repository; directives count as in the build that defines these macros"""
    openmp, openacc = 'HAVE_OPENMP' in defs, 'HAVE_OPENACC' in defs
    path = rel if rel.startswith('/') else os.path.join(REPO, rel)
    key = (path, tuple(sorted(defs)))
    if key in _parsed:
        return _parsed[key]
    if not os.path.exists(path):
        raise SourceBroken('%s is gone' % rel)
    r = None
    if tuple(defs) == ('HAVE_OPENMP',):
        r = subprocess.run(['gfortran', '-fsyntax-only', '-cpp', '-w', '-fopenmp', '-DHAVE_OPENMP', path], capture_output=True, text=True, cwd=tempdir())
        if r.returncode != 0:
            raise SourceBroken('%s does not compile: %s' % (rel, r.stderr[:800]))
    try:
        u = Parser(path, {d: '1' for d in defs}, openmp, openacc).run()
    except (Bad, IndexError) as e:
        if r is not None:
            raise AnalysisBroken('%s is not understood: %s' % (rel, e))
        raise SourceBroken('cannot parse %s: %s' % (rel, e))
    _parsed[key] = u
    return u


_tmp = []


def tempdir():
    """private directory for the module files the compiler writes"""
    if not _tmp:
        import tempfile
        _tmp.append(tempfile.TemporaryDirectory(prefix='ftn-'))
    return _tmp[0].name
