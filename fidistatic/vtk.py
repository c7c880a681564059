"""Legacy VTK files: rendering of abstract output streams and the grammar of the files."""
import re
from fractions import Fraction
from . import term as T
from .values import Item, Alt, Rep, Stream, smap


class Malformed(Exception):
    pass


class Val:
    """a printed value"""
    __slots__ = ('v', 'ty')

    def __init__(self, v, ty):
        self.v, self.ty = v, ty

    def __repr__(self):
        return '<%s>' % (self.v,)


def pieces(items, v, out=None):
    """concrete pieces of an abstract stream at a valuation"""
    out = [] if out is None else out
    for it in items:
        if type(it) is Item:
            if it.kind == 'out':
                x = it.args[0]
                ty = it.args[1] if len(it.args) > 1 else '?'
                if isinstance(x, str):
                    out.append(x)
                    continue
                y = v.ev(x) if isinstance(x, T.Term) else x
                if isinstance(y, str):
                    out.append(y)
                elif ty.startswith('ftn:'):
                    fortran(y, ty[4:], out)
                elif ty.startswith('py:'):
                    python(y, ty[3:], out)
                elif ty == 'char' and isinstance(y, int):
                    out.append(chr(y % 256))
                else:
                    out.append(Val(y, ty))
            elif it.kind == 'badfmt':
                raise Malformed('format %s for a value of another type' % it.args[0])
            else:
                out.append((it.kind, it.args))
        elif type(it) is Alt:
            pieces(it.a if v.ev(it.c) else it.b, v, out)
        elif type(it) is Rep:
            n = int(v.ev(it.n))
            if n > v.maxloop:
                raise T.Skip()
            for k in range(n):
                pieces(smap(it.items, lambda t: T.subst(t, {it.k: T.num(k)}) if isinstance(t, T.Term) else t), v, out)
    return out


def fortran(y, fmt, out):
    """a value edited by a Fortran data descriptor: leading blanks, digits, asterisks"""
    m = re.match(r'([a-z*]+)(\d+)?(?:\.(\d+))?', fmt)
    c, w, d = m.group(1), int(m.group(2) or 0), int(m.group(3) or 0)
    if c == '*' or not w:
        out.append(Val(y, fmt))
        return
    if c == 'i':
        n = len(str(int(y)))
        x = y
    elif c == 'f':
        x = Fraction(round(Fraction(y) * 10 ** d), 10 ** d)
        n = len(str(abs(int(x)))) + 1 + d + (x < 0)
        if abs(x) < 1 and n > w:
            n -= 1
    else:
        neg = y < 0
        n = d + 6 + neg
        x = Fraction('%.*e' % (max(d - 1, 0), float(y)))
        if n + 1 <= w:
            n += 1
    if n > w:
        out.append('*' * w)
        return
    out.append(' ' * (w - n))
    out.append(Val(y if abs(Fraction(x) - Fraction(y)) <= abs(Fraction(y)) / 10000 else x, fmt))


def python(y, spec, out):
    """a value formatted by a Python format specification"""
    s = spec.replace('-', '<', 1) if spec.startswith('-') else spec
    z = int(y) if isinstance(y, int) or s[-1:] in 'dboxX' else float(y)
    try:
        t = format(z, s)
        x = Fraction(t.strip().replace(',', '').rstrip('%'))
    except (ValueError, OverflowError):
        raise Malformed('format %s for the value %s' % (spec, y))
    out.append(' ' * (len(t) - len(t.lstrip())))
    out.append(Val(y if abs(x - Fraction(y)) <= abs(Fraction(y)) / 10000 else x, 'py'))
    out.append(' ' * (len(t) - len(t.rstrip())))


def cxxprinted(p, prec, form):
    """a floating point value as a C++ stream prints it: (value, text); small rounding errors are disregarded"""
    if not p.ty.startswith('f'):
        return p, str(p.v)
    text = format(float(p.v), '.%d%s' % (prec, {'fixed': 'f', 'scientific': 'e'}.get(form, 'g')))
    x = Fraction(text)
    return (p if abs(x - Fraction(p.v)) <= abs(Fraction(p.v)) / 10000 else Val(x, p.ty)), text


class Lexer:
    def __init__(self, ps):
        """ps: pieces; words separated by white space, with the line structure kept"""
        self.open = False
        self.words = []        # (word parts, line number)
        line, cur = 0, []
        opened = closed = 0
        prec, width, form = None, 0, 'defaultfloat'
        self.lines = [[]]
        for p in ps:
            if isinstance(p, tuple):
                k = p[0]
                if k == 'open':
                    opened += 1
                    if opened > 1:
                        raise Malformed('the file is opened twice')
                    if 'app' in p[1][1:] or 'ate' in p[1][1:] and 'in' in p[1][1:]:
                        raise Malformed('what an existing file holds is kept')
                elif k == 'fmt':
                    m, x = p[1][0], p[1][1] if len(p[1]) > 1 else None
                    if m in ('precision', 'setprecision') and T.is_num(x):
                        prec = int(x.args[0])
                    elif m in ('width', 'setw') and T.is_num(x):
                        width = int(x.args[0])
                    elif m in ('fixed', 'scientific', 'defaultfloat'):
                        form = m
                elif k == 'close':
                    closed += 1
                continue
            if closed:
                raise Malformed('output after the file has been closed')
            if isinstance(p, Val):
                if width or prec is not None or form != 'defaultfloat':
                    p, text = cxxprinted(p, 6 if prec is None else prec, form)
                    if len(text) < width and cur:
                        self.emit(cur, line)
                        cur = []
                width = 0
                cur.append(p)
                continue
            if len(p) < width and cur:
                self.emit(cur, line)
                cur = []
            width = 0
            for ch in p:
                if ch in ' \t\n\r':
                    if cur:
                        self.emit(cur, line)
                        cur = []
                    if ch == '\n':
                        line += 1
                        self.lines.append([])
                else:
                    if cur and isinstance(cur[-1], str):
                        cur[-1] += ch
                    else:
                        cur.append(ch)
        if cur:
            self.emit(cur, line)
        self.pos = 0

    def emit(self, cur, line):
        self.words.append((tuple(cur), line))
        self.lines[line].append(tuple(cur))

    def text(self, line):
        return ' '.join(''.join(p if isinstance(p, str) else str(p.v) for p in w) for w in self.lines[line]) if line < len(self.lines) else ''

    # ---------------------------------------------------------------- tokens
    def skip_lines(self, n):
        while self.pos < len(self.words) and self.words[self.pos][1] < n:
            self.pos += 1

    def peek(self):
        return self.words[self.pos][0] if self.pos < len(self.words) else None

    def word(self, what):
        w = self.peek()
        if w is None:
            raise Malformed('%s expected, end of file found' % what)
        self.pos += 1
        if all(isinstance(p, str) for p in w):
            return w[0]
        raise Malformed('%s expected, %r found' % (what, w))

    def number(self, what):
        w = self.peek()
        if w is None:
            raise Malformed('%s expected, end of file found' % what)
        self.pos += 1
        if len(w) == 1 and isinstance(w[0], Val):
            return w[0].v
        if all(isinstance(p, str) for p in w):
            try:
                from fractions import Fraction
                return Fraction(w[0])
            except ValueError:
                pass
        if len(w) > 1 and sum(isinstance(p, Val) for p in w) > 1:
            raise Malformed('%s: values are not separated' % what)
        raise Malformed('%s expected, %s found' % (what, ''.join(str(p.v) if isinstance(p, Val) else p for p in w)))

    def count(self, what):
        x = self.number(what)
        if int(x) != x:
            raise Malformed('%s is not an integer: %s' % (what, x))
        return int(x)


def whole(x, ty):
    """what is declared to be of an integer type is whole"""
    if ty not in ('float', 'double') and x != int(x):
        raise Malformed('%s in data of type %s' % (x, ty))


TYPES = {'float', 'double', 'int', 'long', 'short', 'char', 'unsigned_int', 'unsigned_char', 'unsigned_long'}


class File:
    pass


def parse(ps):
    L = Lexer(ps)
    F = File()
    if not L.text(0).startswith('# vtk DataFile Version'):
        raise Malformed('first line: %s' % L.text(0)[:60])
    F.title = L.text(1)
    if L.text(2) != 'ASCII':
        raise Malformed('third line: %s' % L.text(2)[:60])
    L.skip_lines(3)
    w = L.word('DATASET')
    if w != 'DATASET':
        raise Malformed('DATASET expected, %s found' % w)
    F.kind = L.word('data set type')
    if F.kind not in ('RECTILINEAR_GRID', 'STRUCTURED_GRID', 'STRUCTURED_POINTS'):
        raise Malformed('data set type %s' % F.kind)
    F.coords, F.points, F.dims = {}, None, None
    F.cells = None
    F.data = []
    F.name = None
    while L.peek() is not None:
        w = L.word('keyword')
        if w == 'DIMENSIONS':
            F.dims = [L.count('dimension') for _ in range(3)]
        elif w in ('X_COORDINATES', 'Y_COORDINATES', 'Z_COORDINATES'):
            if F.dims is None:
                raise Malformed('%s before DIMENSIONS' % w)
            if w[0] in F.coords:
                raise Malformed('%s twice' % w)
            n = L.count(w)
            ty = L.word('type')
            if ty not in TYPES:
                raise Malformed('type %s of %s' % (ty, w))
            F.coords[w[0]] = [L.number(w) for _ in range(n)]
            for x in F.coords[w[0]]:
                whole(x, ty)
        elif w == 'POINTS':
            if F.dims is None:
                raise Malformed('POINTS before DIMENSIONS')
            n = L.count(w)
            ty = L.word('type')
            if ty not in TYPES:
                raise Malformed('type %s of POINTS' % ty)
            F.points = [tuple(L.number('coordinate of a point') for _ in range(3)) for _ in range(n)]
            for p in F.points:
                for x in p:
                    whole(x, ty)
        elif w == 'CELL_DATA':
            F.cells = L.count(w)
        elif w == 'SCALARS':
            if F.cells is None:
                raise Malformed('SCALARS before CELL_DATA')
            F.name = L.word('name')
            ty = L.word('type')
            if ty not in TYPES:
                raise Malformed('type %s of SCALARS' % ty)
            w2 = L.word('LOOKUP_TABLE')
            if w2.isdigit():
                if int(w2) != 1:
                    raise Malformed('%s components' % w2)
                w2 = L.word('LOOKUP_TABLE')
            if w2 != 'LOOKUP_TABLE' or L.word('table') != 'default':
                raise Malformed('LOOKUP_TABLE default expected, %s found' % w2)
            while L.peek() is not None and not isword(L.peek()):
                F.data.append(L.number('value'))
                whole(F.data[-1], ty)
        else:
            raise Malformed('keyword %s' % w)
    return F


def isword(w):
    if all(isinstance(p, str) for p in w):
        return w[0][0].isalpha() and w[0].lower() not in ('nan', 'inf')
    return False


def consistent(F):
    """internal consistency of a file; the first complaint"""
    if F.dims is None:
        return 'no DIMENSIONS'
    if any(x < 1 for x in F.dims):
        return 'DIMENSIONS %s' % (F.dims,)
    nc = 1
    for x in F.dims:
        nc *= max(x - 1, 1)
    if F.kind == 'RECTILINEAR_GRID':
        for q, c in enumerate('XYZ'):
            if c not in F.coords:
                return 'no %s_COORDINATES' % c
            if len(F.coords[c]) != F.dims[q]:
                return '%d %s_COORDINATES for dimension %d' % (len(F.coords[c]), c, F.dims[q])
    elif F.kind == 'STRUCTURED_GRID':
        n = F.dims[0] * F.dims[1] * F.dims[2]
        if F.points is None or len(F.points) != n:
            return '%s POINTS for dimensions %s' % (F.points and len(F.points), F.dims)
    if F.cells is None:
        return 'no CELL_DATA'
    if F.cells != nc:
        return 'CELL_DATA %d for dimensions %s' % (F.cells, F.dims)
    if F.name is None:
        return 'no SCALARS'
    if len(F.data) != F.cells:
        return '%d values for %d cells' % (len(F.data), F.cells)
    return None


def nodes(F, q):
    """coordinates of the nodes along file axis q"""
    if F.kind == 'RECTILINEAR_GRID':
        return F.coords['XYZ'[q]]
    st = [1, F.dims[0], F.dims[0] * F.dims[1]]
    return [F.points[i * st[q]][q] for i in range(F.dims[q])]


def product_points(F):
    """all points of a structured grid are the products of the axis coordinates"""
    ax = [nodes(F, q) for q in range(3)]
    k = 0
    for c in range(F.dims[2]):
        for b in range(F.dims[1]):
            for a in range(F.dims[0]):
                if not all(close(x, y) for x, y in zip(F.points[k], (ax[0][a], ax[1][b], ax[2][c]))):
                    return k, F.points[k], (ax[0][a], ax[1][b], ax[2][c])
                k += 1
    return None


def close(x, y):
    return x == y or abs(float(x) - float(y)) <= 1e-9 * max(1.0, abs(float(x)), abs(float(y)))


def streams(st, skip=('std::cout', 'std::cerr', '#trace')):
    """the streams written to, files rather than text buffers if there are any"""
    ss = [(r, v) for r, v in st.store.items() if type(v) is Stream and r.name not in skip and not r.name.startswith('std::')]
    files = [(r, v) for r, v in ss if opened(v.items)]
    return files or ss


def opened(items):
    for it in items:
        if type(it) is Item and it.kind == 'open':
            return True
        if type(it) is Alt and (opened(it.a) or opened(it.b)):
            return True
        if type(it) is Rep and opened(it.items):
            return True
    return False
