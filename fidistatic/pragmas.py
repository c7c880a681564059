"""Accelerator directives: read from the source text and attached to the statements they precede."""
import os
import re
from .cxx import REPO

_files = {}
STANDALONE = ('update', 'enter data', 'exit data', 'wait', 'init', 'shutdown', 'set', 'cache', 'routine', 'declare')
WORDS = {'parallel', 'kernels', 'serial', 'loop', 'data', 'host_data', 'atomic', 'update', 'enter', 'exit', 'wait', 'init', 'shutdown',
         'set', 'cache', 'routine', 'declare'}


class Pragma:
    def __init__(self, file, ln, end, text):
        self.file, self.ln, self.end = file, ln, end
        self.dir, self.clauses = split(text)


def split(text):
    """directive name and clauses [(name, [argument texts] or None)]"""
    toks = []
    i = 0
    text = text.strip()
    words = []
    while True:
        m = re.compile(r'[\s,]*([A-Za-z_]\w*)\s*').match(text, i)
        if not m:
            break
        w = m.group(1)
        j = m.end()
        if j < len(text) and text[j] == '(':
            d = 0
            k = j
            while k < len(text):
                d += text[k] in '([{'
                d -= text[k] in ')]}'
                if d == 0:
                    break
                k += 1
            toks.append((w, commas(text[j + 1:k])))
            i = k + 1
        else:
            if not toks and w in WORDS and (not words or words[-1] in ('parallel', 'kernels', 'serial', 'enter', 'exit')):
                words.append(w)
            else:
                toks.append((w, None))
            i = j
    return 'acc ' + ' '.join(words), toks


def commas(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '([{':
            d += 1
        elif ch in ')]}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def of_file(path):
    if path in _files:
        return _files[path]
    out = []
    try:
        with open(path) as f:
            lines = f.read().split('\n')
    except OSError:
        lines = []
    i = 0
    comment = False
    while i < len(lines):
        l = lines[i]
        s = l
        if comment:
            if '*/' in s:
                s = s.split('*/', 1)[1]
                comment = False
            else:
                i += 1
                continue
        if '/*' in s and '*/' not in s.split('/*', 1)[1]:
            comment = True
            s = s.split('/*', 1)[0]
        m = re.match(r'\s*#\s*pragma\s+acc\b(.*)', s)
        if m:
            a = i
            t = m.group(1)
            while t.rstrip().endswith('\\') and i + 1 < len(lines):
                i += 1
                t = t.rstrip()[:-1] + ' ' + lines[i]
            t = re.sub(r'//.*', '', t)
            t = re.sub(r'/\*.*?\*/', '', t)
            out.append(Pragma(path, a + 1, i + 1, t))
        i += 1
    _files[path] = out
    return out


# ------------------------------------------------------------------ attaching
def attach(fns, constants=None):
    """wrap the statements that follow accelerator directives in directive nodes (in place)"""
    for f in fns:
        if f.get('body') is None or f.get('__acc'):
            continue
        f['__acc'] = 1
        if not f['file'].startswith(REPO):
            continue
        files = set()
        collect(f['body'], files)
        files.add(f['file'])
        if not any(of_file(x) for x in files if x and x.startswith(REPO)):
            continue
        names = {}
        for p in f['params']:
            names[p["n"]] = {"k": "var", "id": p["id"], "n": p["n"], "ty": p["ty"], "isref": False, "ln": f["ln"]}
        declared(f['body'], names)
        wrap(f, f['body'], names)


def collect(n, files):
    st = [n]
    while st:
        x = st.pop()
        if type(x) is dict:
            if 'file' in x:
                files.add(x['file'])
            st.extend(x.values())
        elif type(x) is list:
            st.extend(x)


def declared(n, names):
    if type(n) is dict:
        if n.get('k') == 'decl':
            for v in n.get('vars', []):
                names[v['n']] = {'k': 'var', 'id': v['id'], 'n': v['n'], 'ty': v['ty'], 'isref': v.get('isref', False), 'ln': v.get('ln')}
        for v in n.values():
            declared(v, names)
    elif type(n) is list:
        for v in n:
            declared(v, names)


def wrap(f, n, names):
    """depth first, in source order; a directive applies to the next loop or block of its file"""
    if type(n) is dict:
        for k in list(n):
            v = n[k]
            if type(v) is dict:
                wrap(f, v, names)
            elif type(v) is list:
                wrap(f, v, names)
        if n.get('k') == 'block':
            ps = sorted([p for p in of_file(n.get('file', '')) if n['ln'] <= p.ln and p.end <= n.get('eln', 0)], key=lambda p: -p.ln)
            for p in ps:
                c = n['c']
                # the statement that follows: first child starting after the directive, of the same file
                hit = None
                inner = False
                for q, s in enumerate(c):
                    if type(s) is not dict:
                        continue
                    fl = s.get('file', n.get('file'))
                    if fl != p.file:
                        continue
                    if s.get('ln', 0) > p.end:
                        hit = q
                        break
                    if s.get('eln', s.get('ln', 0)) >= p.ln and s.get('ln', 0) < p.ln and has_block_around(s, p):
                        inner = True
                if inner:
                    continue
                d = p.dir[4:]
                node = {'k': 'omp', 'dir': p.dir, 'ln': p.ln, 'file': p.file, 'clauses': clauses(f, p, names), 'acc': True, '__t': 1}
                if d in STANDALONE:
                    c.insert(hit if hit is not None else len(c), node)
                elif hit is not None:
                    node['body'] = c[hit]
                    c[hit] = node
    elif type(n) is list:
        for v in n:
            if type(v) in (dict, list):
                wrap(f, v, names)


def has_block_around(s, p):
    st = [s]
    while st:
        x = st.pop()
        if type(x) is dict:
            if x.get('k') == 'block' and x.get('file') == p.file and x['ln'] <= p.ln and p.end <= x.get('eln', 0):
                return True
            st.extend(v for v in x.values() if type(v) in (dict, list))
        elif type(x) is list:
            st.extend(x)
    return False


DATA = {'copy': 'tofrom', 'copyin': 'to', 'copyout': 'from', 'create': 'alloc', 'present': 'present', 'delete': 'delete', 'no_create': 'present',
        'deviceptr': 'deviceptr', 'host': 'from', 'self': 'from', 'device': 'to', 'use_device': 'present', 'attach': 'present', 'detach': 'present'}
SHARING = ('private', 'firstprivate', 'reduction')


def clauses(f, p, names):
    out = []
    for nm, args in p.clauses:
        base = re.sub(r'^(present_or_|p)(?=copy|create)', '', nm)
        if args is None:
            out.append({'c': nm, 'implicit': False})
            continue
        if base in DATA:
            if args and ':' in args[0] and re.match(r'\s*(readonly|zero|always\w*|capture)\s*:', args[0]):
                args[0] = args[0].split(':', 1)[1]
            out.append({'c': 'map', 'acc': nm, 'map': DATA[base], 'implicit': False, 'vars': [ref(f, a, names) for a in args]})
        elif nm in SHARING:
            op = None
            if nm == 'reduction' and ':' in args[0]:
                op, args[0] = args[0].split(':', 1)
            vs = [ref(f, a, names) for a in args]
            vs = [v['var'] if v.get('k') == 'section' and 'var' in v else v for v in vs]
            out.append({'c': nm, 'op': op, 'implicit': False, 'vars': vs})
        elif nm == 'collapse':
            out.append({'c': nm, 'implicit': False, 'e': {'k': 'int', 'ty': 'i32', 'v': args[0], 'ln': p.ln}})
        else:
            out.append({'c': nm, 'implicit': False, 'args': args})
    return out


def ref(f, s, names):
    """an item of a clause: name, name[lo:len], this->name…"""
    s = s.strip()
    m = re.match(r'^(this\s*->\s*)?([A-Za-z_]\w*)\s*((?:\[[^\]]*\]\s*)*)$', s)
    if not m:
        return {'k': 'badname', 'n': s}
    v = name(f, m.group(2), names, bool(m.group(1)))
    if v is None:
        return {'k': 'badname', 'n': m.group(2)}
    subs = re.findall(r'\[([^\]]*)\]', m.group(3))
    if not subs:
        return v
    if len(subs) > 1:
        return {'k': 'unknownitem', 'n': s}
    lo, sep, ln = subs[0].partition(':')
    zero = {'k': 'int', 'ty': 'i32', 'v': '0', 'ln': 0}
    a = expr(f, lo, names) if lo.strip() else zero
    b = expr(f, ln, names) if ln.strip() else ({'k': 'int', 'ty': 'i32', 'v': '1', 'ln': 0} if not sep else None)
    for e in (a, b):
        if e is not None and e.get('k') == 'badname':
            return e
    return {'k': 'section', 'base': v, 'var': v, 'lo': a, 'len': b, 'n': s}


def name(f, nm, names, member=False):
    if not member and names.get(nm):
        return dict(names[nm])
    return {'k': 'member', 'n': nm} if f.get('cls') and member_of(f, nm) else None


_records = {}


def member_of(f, nm):
    r = _records.get(f.get('cls'))
    if r is None:
        return None
    for fl in r['fields']:
        if fl['n'] == nm:
            return fl
    return None


def expr(f, s, names):
    """integer expression of a clause: sums and products of names and numbers"""
    toks = re.findall(r'\d+|[A-Za-z_]\w*|->|[-+*/()]|\S', s)
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def take():
        pos[0] += 1
        return toks[pos[0] - 1]

    def atom():
        t = peek()
        if t is None:
            return {'k': 'badname', 'n': s}
        take()
        if t == '(':
            e = add()
            if peek() == ')':
                take()
            return e
        if t == '-':
            e = atom()
            return {'op': '-', 'l': {'k': 'int', 'ty': 'i32', 'v': '0'}, 'r': e, 'k': 'pbin'}
        if t.isdigit():
            return {'k': 'int', 'ty': 'i32', 'v': t, 'ln': 0}
        if t == 'this' and peek() == '->':
            take()
            t = take()
            v = name(f, t, names, True)
        else:
            v = name(f, t, names)
        if v is not None:
            return v
        tp = template_arg(f, t)
        if tp is not None:
            return {'k': 'int', 'ty': 'i32', 'v': str(tp), 'ln': 0}
        return {'k': 'badname', 'n': t}

    def mul():
        e = atom()
        while peek() in ('*', '/'):
            o = take()
            r = atom()
            e = e if e['k'] == 'badname' else r if r['k'] == 'badname' else {'k': 'pbin', 'op': o, 'l': e, 'r': r}
        return e

    def add():
        e = mul()
        while peek() in ('+', '-'):
            o = take()
            r = mul()
            e = e if e['k'] == 'badname' else r if r['k'] == 'badname' else {'k': 'pbin', 'op': o, 'l': e, 'r': r}
        return e
    e = add()
    if pos[0] != len(toks):
        return {'k': 'badname', 'n': s}
    return e


_tparams = {}


def template_arg(f, nm):
    """value of an integer template parameter named nm of the class of f"""
    cls = f.get('cls') or ''
    m = re.search(r'<(.*)>', cls)
    if not m:
        return None
    args = [a.strip() for a in m.group(1).split(',')]
    src = f['file']
    key = (src, cls.split('<')[0])
    if key not in _tparams:
        try:
            text = open(src).read()
        except OSError:
            text = ''
        mm = re.search(r'template\s*<([^>]*)>\s*(?:class|struct)\s+%s\b' % re.escape(cls.split('<')[0].split('::')[-1]), text)
        _tparams[key] = [p.strip().split()[-1].split('=')[0].strip() for p in mm.group(1).split(',')] if mm else []
    ps = _tparams[key]
    if nm in ps and ps.index(nm) < len(args) and re.match(r'^-?\d+', args[ps.index(nm)]):
        return int(re.match(r'^-?\d+', args[ps.index(nm)]).group(0))
    # macros / constants defined by an integer
    try:
        mm = re.search(r'(?:#\s*define\s+%s\s+|const(?:expr)?\s+\w+\s+%s\s*=\s*)(\d+)' % (nm, nm), open(src).read())
    except OSError:
        mm = None
    return int(mm.group(1)) if mm else None
