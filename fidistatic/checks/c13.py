"""C13: the command line parser returns what was given."""
import itertools
from .. import term as T
from .. import drive, acc
from ..cxx import unref, AnalysisBroken
from ..drive import Session
from ..values import Arr, Ptr, Stream, Item
from .. import drv

SRC = ('cxx/CmdLineArgParser.cpp',)
CLS = 'CmdLineArgParser'
SORT = {'f64': 'r', 'i32': 'i', 'string': 's', 'bool': 'b'}
# sets of registered options: (name, type)
SETS = {
    'mixed': (('-d', 'f64'), ('-i', 'i32'), ('-s', 'string'), ('-f', 'bool')),
    'several of a type': (('-i', 'i32'), ('-n', 'i32'), ('-ab', 'string'), ('-a', 'string'), ('-g', 'bool'), ('-gf', 'bool'),
                          ('-x', 'f64'), ('-xx', 'f64')),
    'help only': (),
}
VALUES = ('5', '-3', '2.5', '-1e-3', 'abc', '', '-', '0', '-7x', 'd', 'i 2', '12', '010', '007.5')
UNKNOWN = ('-q', '--d', '-dd', '-.5', '-D', '-I', '-e', '-  ', '-i2', '--', '-fx', '-help')


def atoi(s):
    s = s.strip()
    k = 1 if s[:1] in '+-' else 0
    j = k
    while j < len(s) and s[j].isdigit():
        j += 1
    return int(s[:j]) if j > k else 0


def atof(s):
    from fractions import Fraction
    for j in range(len(s), 0, -1):
        try:
            return Fraction(s[:j])
        except (ValueError, ZeroDivisionError):
            pass
    return Fraction(0)


class Parser:
    def __init__(self, opts, parse=True):
        self.prog = drive.program(*SRC)
        s = self.s = Session(self.prog)
        I = s.I
        self.obj = s.new(CLS)
        self.opts = (('-h', 'bool'),) + tuple(opts)
        self.defaults = {'-h': T.FALSE}
        for nm, ty in opts:
            self.defaults[nm] = T.sym('default' + nm, SORT[ty])
            self.method('set', ty, 1, [T.string(nm), self.defaults[nm], T.sym('help' + nm, 's')])
        self.argc = T.sym('argc', 'i', lo=1)
        a = T.fresh('a', 'i', lo=0)
        argv = Arr((self.argc,), (a,), T.mkapp('argv', (a,), 's'))
        self.argv = s.box(argv).root
        self.ret = None
        self.where = drive.loc(s.fn(CLS + '::parse', 2))
        if parse:
            self.ret = s.call(self.obj, CLS + '::parse', self.argc, Ptr(self.argv, (('i', T.ZERO),)))

    def method(self, m, ty, i, args):
        fs = [f for f in self.prog.fns.values() if f['q'] == CLS + '::' + m and len(f['params']) == len(args)
              and unref(f['params'][i]['ty']) == ty]
        if not fs:
            raise AnalysisBroken('%s::%s for %s not found' % (CLS, m, ty))
        return self.s.I.call(fs[0], self.obj, args, self.s.st)

    def get(self, nm, ty):
        fs = [f for f in self.prog.fns.values() if f['q'].split('<')[0] == CLS + '::get' and unref(f['ret']) == ty]
        if not fs:
            raise AnalysisBroken('%s::get for %s not found' % (CLS, ty))
        v = self.s.I.call(fs[0], self.obj, [T.string(nm)], self.s.st)
        return v, drive.loc(fs[0])

    # ------------------------------------------------------------ the specification on one command line
    def spec(self, words):
        ty = dict(self.opts)
        for w in words:
            if len(w) >= 2 and w[0] == '-' and not w[1].isdigit() and w not in ty:
                return None
        val, cnt = {}, {}
        for a, w in enumerate(words):
            if w in ty:
                if ty[w] == 'bool':
                    cnt[w] = cnt.get(w, 0) + 1
                elif a + 1 < len(words):
                    val[w] = words[a + 1]
        return val, cnt

    def words(self, rng, n, bad):
        """a command line: options with values, flags, positional words; unregistered options if asked for"""
        ws = []
        names = [o for o in self.opts]
        for _ in range(rng.randrange(0, 5)):
            k = rng.random()
            if k < 0.55:
                nm, ty = rng.choice(names)
                ws.append(nm)
                if ty != 'bool':
                    ws.append(rng.choice(VALUES))
            elif k < 0.75:
                ws += [x for x, ty in [rng.choice(names)] if ty == 'bool']
            else:
                ws.append(rng.choice(VALUES))
        if rng.random() < 0.25:
            nm, ty = rng.choice(names)
            ws.append(nm)           # possibly an option without a value, at the end
        if bad:
            for _ in range(rng.randrange(1, 3)):
                ws.insert(rng.randrange(len(ws) + 1), rng.choice([u for u in UNKNOWN if u not in dict(self.opts)]))
        return ws

    def valuation(self, words):
        argv = ['prog'] + list(words)
        # (terms are evaluated without short circuit; the bounds of argv are an obligation of their own)
        fn = {'argv': lambda a: argv[a] if 0 <= a < len(argv) else '',
              'schar': lambda s, k: ord(s[k]) if 0 <= k < len(s) else 0,
              'slen': len, 'isdigit': lambda c: 48 <= c <= 57, 'atoi': atoi, 'atof': atof}
        return {self.argc: len(argv)}, fn


def run(rep):
    rep.rule('closed forms (last value / parity / first rejected word over a symbolic argument vector) of parse and get, compared with '
             'the specification; token grammar of the help stream')
    rep.parallel([('options: ' + nm, options, nm) for nm in SETS] + [('help', help_, None), ('accept', accept, None)])


def options(rep, key):
    P = Parser(SETS[key])
    tag = key + ': '

    def sampler(bad, nm=None):
        def f(rng, n):
            ws = P.words(rng, n, bad)
            env, fn = P.valuation(ws)
            sp = P.spec(ws)
            ty = dict(P.opts)
            fn['spec:ok'] = lambda argc: sp is not None
            for o, t in P.opts:
                dflt = P.defaults[o]
                def val(d, o=o, t=t):
                    if t == 'bool':
                        return d ^ bool(sp[1].get(o, 0) % 2)
                    if o not in sp[0]:
                        return d
                    w = sp[0][o]
                    return atof(w) if t == 'f64' else atoi(w) if t == 'i32' else w
                fn['spec:' + o] = val
            return env, fn
        return f
    acc.bounds(rep, P.s.I, [a for a in P.s.I.accesses if a[1] is P.argv], sampler(False), tag + 'argv: ')
    N = 250 if rep.tier == 'quick' else 3000
    rep.eq(tag + 'a command line of registered options is accepted', P.ret, T.mkapp('spec:ok', (P.argc,), 'b'), P.where,
           sampler(False), tries=N)
    rep.eq(tag + 'an unregistered option is rejected', P.ret, T.mkapp('spec:ok', (P.argc,), 'b'), P.where, sampler(True), tries=N)
    for o, t in P.opts:
        v, where = P.get(o, t)
        rep.eq(tag + 'value of %s (%s)' % (o, t), v, T.mkapp('spec:' + o, (P.defaults[o],), SORT[t]), where, sampler(False), tries=N)
    # before parsing, the defaults
    Q = Parser(SETS[key], parse=False)
    for o, t in Q.opts:
        v, where = Q.get(o, t)
        rep.eq(tag + 'default of %s (%s)' % (o, t), v, Q.defaults[o], where)
    rep.visited(P.s.I)


def accept(rep, _):
    """the rejected words are reported"""
    P = Parser(SETS['mixed'])
    outs = []
    for r, v in P.s.st.store.items():
        if type(v) is Stream and r.name in ('std::cout', 'std::cerr'):
            outs += list(v.items)
    ok = 0
    bad = None
    for n in range(60 if rep.tier == 'quick' else 600):
        ws = P.words(rep.rng, n, True)
        env, fn = P.valuation(ws)
        v = T.Valuation(dict(env), n, fn)
        txt = ''.join(str(render(x, v)) for x in replay(outs, v))
        rej = [w for w in ws if len(w) >= 2 and w[0] == '-' and not w[1].isdigit() and w not in dict(P.opts)]
        if not any(w in txt for w in rej):
            bad = (ws, txt)
            break
        ok += 1
    if bad:
        rep.bad('a rejected word is reported', P.where, {'command line': bad[0], 'output': bad[1]})
    else:
        rep.add('a rejected word is reported', 'agreed', P.where, {'valuations': ok})


def replay(items, v):
    from ..values import Alt, Rep
    for it in items:
        if type(it) is Item:
            yield it.args[0]
        elif type(it) is Alt:
            yield from replay(it.a if v.ev(it.c) else it.b, v)
        elif type(it) is Rep:
            for k in range(int(v.ev(it.n))):
                sub = T.Valuation(v.env, v.seed, v.funcs)
                from ..values import smap
                yield from replay(smap(it.items, lambda t: T.subst(t, {it.k: T.num(k)})), sub)


def render(t, v):
    return v.ev(t) if isinstance(t, T.Term) else t


def help_(rep, _):
    for key in SETS:
        P = Parser(SETS[key], parse=False)
        s = P.s
        notes = [T.sym('note1', 's'), T.sym('note2', 's')]
        s.call(P.obj, CLS + '::setPurpose', T.sym('purpose', 's'))
        for x in notes:
            s.call(P.obj, CLS + '::addFootnote', x)
        where = drive.loc(s.fn(CLS + '::help', 0))
        s.call(P.obj, CLS + '::help')
        items = []
        for r, v in s.st.store.items():
            if type(v) is Stream and r.name in ('std::cout', 'std::cerr'):
                items += list(drv.flat(v.items, ('out',)))
        if any(loops for it, conds, loops in items):
            rep.unknown(key + ': help', where, 'output in a loop')
            return
        if any(conds for it, conds, loops in items):
            # output that depends on the values: what is printed for some of them
            first = {}
            for n in range(60):
                env = {y: sample(y, rep.rng) for y in {y for it, conds, _ in items for c in conds for y in T.syms_of(c)}}
                v = T.Valuation(env, n, P.valuation([])[1])
                got = [it for it, conds, _ in items if all(v.ev(c) for c in conds)]
                for nm, ok, why in listing(P, key, got, notes):
                    if nm not in first or first[nm][0] and not ok:
                        first[nm] = (ok, {'why': why, 'values': {str(k.args[0]): str(x) for k, x in env.items()}})
            for nm, (ok, why) in first.items():
                if ok:
                    rep.add(nm, 'agreed', where)
                else:
                    rep.bad(nm, where, why)
        else:
            for nm, ok, why in listing(P, key, [it for it, _, _ in items], notes):
                rep.expect(nm, ok, where, why)
        rep.visited(s.I)


def sample(y, rng):
    if y.sort == 's':
        return rng.choice(VALUES)
    if y.sort == 'b':
        return rng.random() < 0.5
    return rng.choice((0, 1, -1, 2, 7, -30))


def listing(P, key, items, notes):
    """(name, satisfied, why not) for what the help output must contain"""
    toks = []
    for it in items:
        toks += split(it.args[0])
    # lines
    lines = [[]]
    for t in toks:
        if isinstance(t, str):
            ps = t.split('\n')
            lines[-1].append(ps[0])
            for p in ps[1:]:
                lines.append([p])
        else:
            lines[-1].append(t)
    last = -1
    for o, ty in P.opts:
        h = 'Print help.' if o == '-h' else T.sym('help' + o, 's')
        dv = P.defaults[o]
        dv = False if dv is T.FALSE else dv
        hit = None
        for k, l in enumerate(lines):
            words = ' '.join(x for x in l if isinstance(x, str)).split()
            if o in words:
                hit = k
                break
        tag = '%s: help lists %s' % (key, o)
        yield tag, hit is not None, 'no line of the help output has the option'
        if hit is None:
            continue
        l = lines[hit]
        last = max(last, hit)
        if isinstance(h, str):
            yield (tag + ' with its help text', any(isinstance(x, str) and h in x for x in l), 'not on its line')
        else:
            yield (tag + ' with its help text', h in l, 'not on its line')
            yield (tag + ' with its value', any(x is dv for x in l if not isinstance(x, str)), 'not on its line')
    pos = {}
    for x in notes:
        ks = [k for k, l in enumerate(lines) if x in l]
        yield ('%s: footnote %s is printed after the options' % (key, x.args[0]), bool(ks) and ks[-1] > last,
                   'not printed after the last option')
    ks = [k for k, l in enumerate(lines) if T.sym('purpose', 's') in l]
    yield (key + ': the purpose is printed', bool(ks), 'not printed')
    tail = [k for k, l in enumerate(lines) if any(isinstance(x, str) and 'Report bugs' in x for x in l)]
    yield (key + ': the standard footnote is printed last', bool(tail) and tail[-1] > last, 'not printed')


def split(t):
    if t.op == 'str':
        return [t.args[0]]
    if t.op == 'app' and t.args[0] == 'scat':
        return [y for x in t.args[1] for y in split(x)]
    return [t]
