"""C21: data clauses make every array available on the device and bring results back."""
import bisect
from .. import scen, race, upw
from .. import term as T
from ..values import Ptr


def run(rep):
    rep.rule('every access to an older array inside a compute region is inside a section mapped by an enclosing clause; elements read on the '
             'device are copied in or written there before; elements the host reads afterwards are copied back; the host does not touch mapped '
             'sections between compute regions; clause items exist and fit')
    tasks = [(t[0], one, t) for t in scen.scenes(rep.tier) if t[1] is scen.solver or t[1] is scen.fsolver and 'upwindF08Gpu' in t[0]]
    for v in upw.OPTIONAL:
        rep.expect('%s.cxx compiles with its directives' % v, not upw.broken(v), 'upwind/cxx/%s.cxx:1' % v, upw.broken(v))
    try:
        from . import c21x
        tasks += c21x.tasks(rep.tier)
    except ImportError:
        pass
    rep.parallel(tasks)


def one(rep, t):
    for I, samples, skip in t[1](*t[2:]):
        if not check(rep, I, samples, t[0] + ': '):
            rep.ok(t[0] + ': nothing is offloaded', '', 'no compute region on any path')
        rep.visited(I)


# ------------------------------------------------------------------ classification
def is_data(reg):
    w = race.words(reg)
    return 'data' in w and 'exit' not in w and 'enter' not in w


def is_compute(reg):
    w = race.words(reg)
    if race.is_acc(reg):
        return bool(w & {'parallel', 'kernels', 'serial'})
    return 'target' in w and not w & {'data', 'update', 'enter', 'exit'}


def unstructured(reg):
    w = race.words(reg)
    return bool(w & {'enter', 'exit', 'update', 'declare'})


class M:
    """a mapped section"""

    def __init__(self, reg, kind, clause, it):
        self.reg, self.kind, self.clause, self.it = reg, kind, clause, it
        self.name = it['name']
        p = it.get('ptr')
        self.root = self.prefix = self.off = None
        if type(p) is Ptr:
            self.root = p.root
            if 'lo' in it and p.path and type(p.path[-1]) is tuple and p.path[-1][0] == 'i':
                self.prefix, self.off = p.path[:-1], T.add(p.path[-1][1], it['lo'])
                n = it['len']
                if n is None and it.get('ext') is not None:
                    n = T.sub(it['ext'], self.off)
                self.n = n
            else:
                self.prefix = p.path

    def section(self):
        return self.off is not None


def maps_of(reg):
    out = []
    for kind, clause, it in reg['maps']:
        out.append(M(reg, kind, clause, it))
    return out


def split(x):
    """(prefix, index) of an element access"""
    for q, s in enumerate(x.path):
        if type(s) is tuple and s[0] == 'i':
            return x.path[:q], s[1] if len(s) > 1 else None, len(s)
        if type(s) is tuple:
            return None, None, 0
    return None, None, 0


def scalar_root(x):
    ty = x.root.ty or ''
    return not any(type(s) is tuple for s in x.path) and not x.path and 'carr' not in ty and 'vector' not in ty and 'array' not in ty and '[' not in ty


def dominion(x, begin):
    return [T.lt(c['k'], c['n']) for c in tuple(begin[7]) + tuple(x.loops) if c['n'] is not None and c['n'] is not T.INFK]


# ------------------------------------------------------------------ one interpreter log
def check(rep, I, samples, tag):
    cnt = 0
    regs = list(race.regions(I))
    spans = {}
    open_ = []
    for pos, a in enumerate(I.accesses):
        if a[0] == 'begin':
            open_.append((a[1], pos))
        elif a[0] == 'end':
            for q in range(len(open_) - 1, -1, -1):
                if open_[q][0] is a[1]:
                    spans[id(a[1])] = (open_[q][1], pos)
                    del open_[q:]
                    break
    for a in I.accesses:
        if a[0] in ('begin', 'omp') and unstructured(a[1]):
            rep.unknown('%s%s directive' % (tag, a[1]['dir']), a[1]['where'], 'unstructured data directives are not modelled')
            return 1
    for reg, begin, log in regs:
        if is_compute(reg) or is_data(reg):
            clauses(rep, reg, begin, samples, tag)
    for reg, begin, log in regs:
        if not is_compute(reg):
            continue
        cnt += 1
        outer = [r for r in begin[9] if is_data(r) or is_compute(r)]
        if any(is_compute(r) for r in begin[9][:-1]):
            continue
        if reg not in outer:
            outer.append(reg)
        compute(rep, I, reg, begin, log, outer, samples, tag, spans)
    # the outermost construct that maps an array determines what is moved
    done = set()
    for reg, begin, log in regs:
        if not (is_compute(reg) or is_data(reg)):
            continue
        for m in maps_of(reg):
            if not m.section() or m.root is None:
                continue
            if any(covers_name(o, m) for r in begin[9] if r is not reg for o in maps_of(r)):
                if m.kind == 'present':
                    continue
                continue
            if (id(reg), m.root, m.prefix) in done:
                continue
            done.add((id(reg), m.root, m.prefix))
            transfer(rep, I, reg, begin, log, m, samples, tag, spans)
    return cnt


def covers_name(o, m):
    return o.section() and o.root is m.root and o.prefix == m.prefix


def where(reg):
    return reg['where']


def key(reg, name):
    return '%s:%s' % (reg['where'].split(' ')[0], name)


def clauses(rep, reg, begin, samples, tag):
    for c in reg['clauses']:
        if c['c'] in ('private', 'firstprivate', 'reduction'):
            for v in c.get('vars', []):
                if type(v) is dict and v.get('k') == 'badname':
                    rep.bad('%s%s clause of %s names a variable' % (tag, c['c'], reg['dir']), where(reg), {'item': v['n']}, key(reg, v['n']))
    pc = begin[6]
    dom = [T.lt(c['k'], c['n']) for c in begin[7] if c['n'] is not None and c['n'] is not T.INFK]
    for m in maps_of(reg):
        nm = '%s%s(%s) of the %s construct' % (tag, m.clause, m.name, reg['dir'])
        if m.it.get('bad'):
            rep.bad(nm + ' names a variable', where(reg), {'item': m.name}, key(reg, m.name))
            continue
        if m.it.get('unknown'):
            rep.unknown(nm, where(reg), 'item not understood')
            continue
        if m.kind == 'present':
            if not any(covers_name(o, m) for r in begin[9] if r is not reg for o in maps_of(r)):
                rep.bad(nm + ' is present', where(reg), 'no enclosing construct maps it', key(reg, m.name))
            continue
        if not m.section():
            p = m.it.get('ptr')
            v = m.it.get('val')
            if type(v) is Ptr:
                # the pointer itself is mapped, not what it points to: harmless unless it is the only clause
                rep.ok(nm + ' maps a variable', where(reg))
            else:
                rep.ok(nm + ' maps a variable', where(reg))
            continue
        ext = m.it.get('ext')
        if m.n is None or ext is None:
            rep.unknown(nm + ' fits the array', where(reg), 'extent not known')
            continue
        c = T.land(T.le(T.ZERO, m.off), T.le(T.add(m.off, m.n), ext))
        rep.holds(nm + ' fits the array', c, where(reg), samples, tuple(pc) + tuple(dom), key=key(reg, m.name))


def compute(rep, I, reg, begin, log, outer, samples, tag, spans):
    maps = [m for r in outer for m in maps_of(r)]
    outermost = spans[id(outer[0])][0]
    mark = reg['mark']
    private = set()
    acs = race.accesses(reg, begin, log)
    seen = set()
    fortran = hasattr(I, 'allocs')
    for ref in containers(reg['node'].get('body')):
        rep.bad('%sthe %s region uses plain arrays' % (tag, reg['dir']), where(reg),
                {'container': ref, 'why': 'a container holds a host address of its elements'}, key(reg, ref))
    for x in acs:
        pre, ix, dims = split(x)
        if pre is None:
            if scalar_root(x):
                if x.rw != 'r':
                    lost_scalar(rep, I, reg, x, maps, tag, spans, seen)
                continue
            k = (x.where, x.root, x.path)
            if any(type(s) is tuple for s in x.path):
                continue
            if x.root.ty and ('carr' in x.root.ty or '[' in x.root.ty):
                continue
            if k not in seen:
                seen.add(k)
                hit = [m for m in maps if m.root is x.root]
                if x.rw != 'r' or not hit:
                    object_member(rep, reg, x, hit, tag)
            continue
        if dims != 2:
            continue
        if not pre and (local_array(x) or fortran):
            # arrays with automatic storage of known size are copied implicitly
            continue
        if fortran and not race.is_acc(reg):
            # allocatable components follow their object
            continue
        ms = [m for m in maps if m.section() and m.root is x.root and m.prefix == pre]
        nm = '%s%s of %s on the device is covered by a data clause' % (tag, {'r': 'read', 'w': 'write'}.get(x.rw, x.rw), label(x, pre))
        k = (x.where, x.root, pre, ix, tuple(m.it['name'] for m in ms))
        if k in seen:
            continue
        seen.add(k)
        if not ms:
            rep.bad(nm, x.where, {'array': label(x, pre), 'region': reg['dir'] + ' at ' + reg['where'], 'clauses': [m.name for m in maps]},
                    key(reg, label(x, pre)))
            continue
        m = ms[0]
        if m.n is None or not isinstance(ix, T.Term):
            rep.unknown(nm, x.where, 'section not understood')
            continue
        c = T.land(T.le(m.off, ix), T.lt(ix, T.add(m.off, m.n)))
        rep.holds(nm, c, x.where, samples, tuple(x.pc) + tuple(dominion(x, begin)), key=key(reg, label(x, pre)))
    if not acs:
        rep.ok('%s%s touches no older data' % (tag, reg['dir']), where(reg))


def local_array(x):
    ty = x.root.ty or ''
    return 'vector' not in ty and ('carr' in ty or '[' in ty or 'array' in ty)


def label(x, pre):
    return '.'.join([x.root.name] + [str(s) for s in pre])


def object_member(rep, reg, x, hit, tag):
    if hit or not race.is_acc(reg) or x.root.shared == 'heap' and not x.path:
        return
    rep.bad('%sdevice code uses mapped variables' % tag, x.where, {'member': label(x, x.path), 'why': 'the object itself is on the host'},
            key(reg, label(x, x.path)))


def lost_scalar(rep, I, reg, x, maps, tag, spans, seen):
    k = ('lost', x.root)
    if k in seen:
        return
    seen.add(k)
    if 'kernels' in race.words(reg) or any(m.root is x.root and m.kind in ('tofrom', 'from') for m in maps):
        return
    end = spans[id(reg)][1]
    for a in I.accesses[end + 1:]:
        if a[0] in ('w',) and a[1] is x.root:
            break
        if a[0] == 'r' and a[1] is x.root:
            rep.bad('%s%s computed on the device reaches the host' % (tag, x.root.name), x.where, {'written': x.where, 'read': a[8]}, key(reg, x.root.name))
            return
    rep.ok('%s%s written on the device stays there' % (tag, x.root.name), x.where)


def containers(n):
    """member or variable references of standard container type inside a compute region"""
    out = set()
    st = [n]
    while st:
        x = st.pop()
        if type(x) is dict:
            if x.get('k') in ('var', 'member') and not x.get('decl'):
                ty = str(x.get('ty') or '')
                if ty.startswith('vector<') or ty.startswith('std::vector'):
                    out.add(str(x.get('n')))
            st.extend(v for v in x.values() if type(v) in (dict, list))
        elif type(x) is list:
            st.extend(x)
    local = set()
    race_decl(n, local)
    return sorted(out - local)


def race_decl(n, out):
    st = [n]
    while st:
        x = st.pop()
        if type(x) is dict:
            if x.get('k') == 'decl':
                for v in x.get('vars', []):
                    out.add(v['n'])
            st.extend(v for v in x.values() if type(v) in (dict, list))
        elif type(x) is list:
            st.extend(x)


# ------------------------------------------------------------------ movement of one mapped section
class E:
    __slots__ = ('pos', 'rw', 'x', 'device', 'where')


def transfer(rep, I, reg, begin, log, m, samples, tag, spans):
    nm = '%s%s mapped by %s' % (tag, m.name, reg['dir'])
    events = []
    nomp = len(begin[9])
    inside_compute = is_compute(reg)
    for pos, a in enumerate(log):
        rw, root, path, i, n, idx, pc, ctx, wh, omp, node = a
        if rw in ('begin', 'end', 'omp', 'mpi') or root is not m.root or (i is None and len(path) < len(m.prefix)):
            continue
        if path[:len(m.prefix)] != m.prefix:
            continue
        x = race.Ac()
        x.pos, x.rw, x.root, x.pc, x.where = pos, 'r' if rw not in ('r', 'w', 'rw') else rw, root, pc, wh
        x.path = path[:i + 1] if i is not None and i >= 0 else path
        x.loops, x.regs = ctx[len(begin[7]):], omp[nomp:]
        e = E()
        e.pos, e.rw, e.x, e.where = pos, x.rw, x, wh
        e.device = inside_compute or any(is_compute(r) for r in x.regs)
        if not e.device and not (len(path) > len(m.prefix)):
            # taking the address or the length of the array is no access to its elements
            continue
        events.append(e)
    dev = [e for e in events if e.device]
    host = [e for e in events if not e.device]
    touched = False
    for e in host:
        if (e.rw != 'r' and any(d.rw == 'r' or d.rw == 'rw' for d in dev)) or (e.rw == 'r' and any(d.rw != 'r' for d in dev)):
            rep.bad(nm + ' is not used by the host meanwhile', e.where, {'access': e.rw, 'array': m.name, 'why': 'the device has its own copy and no update directive moves it'},
                    key(reg, m.name + ':host'))
            touched = True
            break
    if host and not touched:
        rep.ok(nm + ' is not changed on both sides', where(reg))
    reads = [e for e in dev if e.rw in ('r', 'rw')]
    writes = [e for e in dev if e.rw in ('w', 'rw')]
    end = spans[id(reg)][1]
    if m.kind in ('alloc', 'from') and reads:
        verdict = covered(rep, begin, reads, writes, samples)
        say(rep, verdict, nm + ': elements are set on the device before they are read there', reg, m)
    later = None
    for a in I.accesses[end + 1:]:
        rw, root, path = a[:3]
        if rw in ('begin', 'end', 'omp', 'mpi') or root is not m.root or path[:len(m.prefix)] != m.prefix:
            continue
        if rw == 'r' and len(path) > len(m.prefix):
            later = a
            break
        if rw == 'w' and len(path) == len(m.prefix):
            break
    if writes and later is not None:
        rep.expect(nm + ': the result returns to the host', m.kind in ('tofrom', 'from'), where(reg),
                   {'clause': '%s(%s)' % (m.clause, m.name), 'written on the device': writes[0].where, 'read on the host': later[8]}, key(reg, m.name))
    elif writes:
        rep.ok(nm + ': the host does not need the result', where(reg))
    if m.kind == 'from' and later is not None:
        verdict = complete(rep, begin, m, writes, samples)
        say(rep, verdict, nm + ': every element copied back was set on the device', reg, m)


def say(rep, verdict, name, reg, m):
    if verdict[0] == 'bad':
        rep.bad(name, where(reg), verdict[1], key(reg, m.name))
    elif verdict[0] == 'agree':
        rep.add(name, 'agreed', where(reg), {'valuations': verdict[1]})
    else:
        rep.unknown(name, where(reg), verdict[1])


def before(w, iw, r, ir):
    """does instance iw of access w precede instance ir of access r?"""
    for q, c in enumerate(race.common(list(w.loops), list(r.loops))):
        if iw[0][q] != ir[0][q]:
            return iw[0][q] < ir[0][q] and c['info'].get('omp') is None
    return w.pos < r.pos


def covered(rep, begin, reads, writes, samples):
    done, why = 0, None
    for env, seed, funcs in race.valuations(rep, samples, begin, 5 if rep.tier == 'quick' else 25):
        try:
            wi = {}
            for w in writes:
                for i in race.instances(w.x, env, seed, funcs, begin[7], None):
                    wi.setdefault(i[1], []).append((w.x, i))
            for r in reads:
                for i in race.instances(r.x, env, seed, funcs, begin[7], None):
                    if not any(before(w, iw, r.x, i) for w, iw in wi.get(i[1], ())):
                        from ..ob import show_env
                        return 'bad', {'values': show_env({k: v for k, v in env.items() if isinstance(k, T.Term)}), 'read': r.where,
                                       'element': race.shown(i[1]), 'loop counters': str(i[0])}
            done += 1
        except T.Skip:
            continue
        except (T.Undefined, TypeError, KeyError, ZeroDivisionError) as e:
            why = repr(e)
    return ('agree', done) if done else ('unknown', why or 'no valuation reached the region')


def complete(rep, begin, m, writes, samples):
    done, why = 0, None
    for env, seed, funcs in race.valuations(rep, samples, begin, 5 if rep.tier == 'quick' else 25):
        try:
            have = set()
            for w in writes:
                for i in race.instances(w.x, env, seed, funcs, begin[7], None):
                    have.add(i[1])
            v = T.Valuation(dict(env), seed, funcs)
            lo, n = v.ev(m.off), v.ev(m.n)
            for q in range(lo, lo + n):
                if not any(h[-1][1] == q for h in have):
                    from ..ob import show_env
                    return 'bad', {'values': show_env({k: v for k, v in env.items() if isinstance(k, T.Term)}), 'element': q}
            done += 1
        except T.Skip:
            continue
        except (T.Undefined, TypeError, KeyError, ZeroDivisionError) as e:
            why = repr(e)
    return ('agree', done) if done else ('unknown', why or 'no valuation reached the region')
