"""Obligations, verdicts, evidence."""
import json
import os
import random
import signal
import sys
import time
import traceback
from fractions import Fraction
from . import term as T
from .term import Term, Valuation, Skip
from .values import Unsupported, State, Raised
from .cxx import AnalysisBroken

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')


def known(pid):
    """keys of the listed findings of a property -> text"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('finding: '):
                parts = dict(p.split('=', 1) for p in l[9:].split(' ', 2)[:2])
                if parts.get('property') == pid:
                    out[parts['key']] = l[9:].split(' ', 2)[2]
    return out


class Rng(random.Random):
    """random choices; with hints, sizes and coefficients are now and then taken from the constants the program compares with"""
    hints = ()
    signed = ()
    used = 0

    def choice(self, seq):
        if (self.hints or self.signed) and self.used < 2 and isinstance(seq, (list, tuple)) and seq and all(type(x) is int for x in seq):
            lo, hi = min(seq), max(seq)
            if self.hints and lo >= 0 and 2 in seq and len(set(seq)) > 2 and (seq[0] >= 1 or len(seq) > 3) and random.Random.random(self) < 0.4:
                self.used += 1
                return random.Random.choice(self, self.hints)
            if self.signed and lo < -1 and hi > 1 and random.Random.random(self) < 0.6:
                self.used += 1
                return random.Random.choice(self, self.signed)
        return random.Random.choice(self, seq)

    def randrange(self, a, b=None, *k):
        if self.hints and b is None and not k and a > 8 and random.Random.random(self) < 0.5:
            h = [x for x in self.hints if 0 <= x < a]
            if h:
                return random.Random.choice(self, h)
        return random.Random.randrange(self, a, b, *k) if b is not None else random.Random.randrange(self, a)

    def hint(self, default):
        return random.Random.choice(self, self.hints) if self.hints else default


def critical(terms):
    """values near those at which a condition or a remainder of the terms changes: (sizes, signed reals)"""
    ints, reals = set(), set()
    seen = set()
    for t in terms:
        for x in T.walk(t):
            if x in seen:
                continue
            seen.add(x)
            if x.op in ('lt0', 'eq0'):
                p = x.args[0]
                if p.op != 'poly':
                    continue
                cs = dict(p.args[0])
                c0 = cs.pop((), 0)
                if c0 == 0:
                    continue
                for m, c in cs.items():
                    q = abs(Fraction(c0) / Fraction(c))
                    (reals if p.sort == 'r' else ints).add(q)
                    if p.sort == 'r' and q > 1:
                        ints.add(q)
            elif x.op == 'cv' and x.args[0] in ('i8', 'char', 'i16', 'u8', 'u16'):
                ints.add(Fraction(T.RANGE[x.args[0]][1]))
            elif x.op in ('min', 'max'):
                for p in x.args:
                    if p.op == 'num':
                        (reals if p.sort == 'r' else ints).add(abs(Fraction(p.args[0])))
                    elif p.op == 'poly':
                        cs = dict(p.args[0])
                        c0 = cs.pop((), 0)
                        (reals if p.sort == 'r' else ints).update(abs(Fraction(c0) / Fraction(c)) for c in cs.values() if c0)
            elif x.op in ('fdiv', 'fmod', 'tdiv', 'tmod') and T.is_num(x.args[1]):
                ints |= {abs(Fraction(x.args[1].args[0])) * k for k in (1, 2)}
    hi = set()
    for q in ints:
        if 2 < q <= 200000:
            k = int(q)
            hi |= {k - 1, k, k + 1, k + 2, k + 3}
    hr = set()
    for q in reals:
        if 0 < q < 10 ** 6:
            hr |= {q, -q, q / 2, -q / 2, 2 * q, -2 * q}
    return sorted(hi), sorted(hr)


class Report:
    def __init__(self, pid, tier='quick', seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obs = []
        self.analysed = set()
        self.assumptions = set()
        self.notes = []
        self.rules = []
        self.broken = False
        self.rng = Rng(seed)

    # ------------------------------------------------------------ recording
    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def add(self, name, status, where='', detail=None, key=None):
        self.obs.append({'name': name, 'status': status, 'where': where, 'detail': detail, 'key': key or name})
        if os.environ.get('FIDI_VERBOSE'):
            print('   %-9s %-60s %s %s' % (status, name, where, '' if status in ('proved', 'agreed') else detail), flush=True)

    def ok(self, name, where='', detail=None):
        self.add(name, 'proved', where, detail)

    def bad(self, name, where, detail, key=None):
        self.add(name, 'violated', where, detail, key)

    def unknown(self, name, where, detail):
        self.add(name, 'undecided', where, detail)

    def expect(self, name, cond, where='', detail=None, key=None):
        if cond:
            self.ok(name, where)
        else:
            self.bad(name, where, detail, key)
        return cond

    def guard(self, name, fn, *a, **k):
        """run one obligation group; unsupported constructs leave it undecided"""
        try:
            return fn(*a, **k)
        except Unsupported as e:
            self.unknown(name, '', 'outside the modelled language: %s' % e)
        except Raised as e:
            self.bad('%s: the operation completes' % name, str(e), 'it raises an exception on every path')
        except (Skip, RecursionError, T.Undefined, ZeroDivisionError) as e:
            self.unknown(name, '', 'not evaluated: %r' % e)
        return None

    def parallel(self, tasks, workers=None):
        """tasks: (name, fn, *args); each runs in its own process on a copy of the analysis state"""
        import multiprocessing as mp
        only = os.environ.get('FIDI_ONLY')          # development aid
        tasks = [t for t in tasks if not only or only in t[0]]
        workers = workers or min(8, os.cpu_count() or 1, len(tasks))
        if workers <= 1 or os.environ.get('FIDI_SERIAL'):
            for t in tasks:
                self.guard(t[0], t[1], self, *t[2:])
            return
        ctx = mp.get_context('fork')
        global _job
        _job = (self, tasks)
        with ctx.Pool(workers, maxtasksperchild=1) as pool:
            for obs, an, asm, notes, rules, err in pool.imap(_run_job, range(len(tasks)), 1):
                if err:
                    sys.stderr.write(err[1])
                    self.unknown(err[2], '', 'analysis failed: %s' % err[0])
                    self.broken = self.broken or len(err) > 3 and err[3]
                self.obs.extend(obs)
                self.analysed |= an
                self.assumptions |= asm
                self.notes.extend(notes)
                for r in rules:
                    self.rule(r)

    def visited(self, I):
        for q, f in I.visited.items():
            self.analysed.add('%s [%s]' % (q, rel(f)))
        for a in I.assumed:
            self.assumptions.add('integer conversions %s do not lose value' % a)

    # ------------------------------------------------------------ terms
    def eq(self, name, got, want, where='', samples=None, pc=(), tries=None, key=None, prove=True):
        """two summary terms agree for all valuations satisfying pc"""
        if not isinstance(got, Term):
            self.unknown(name, where, 'value of kind %s' % type(got).__name__)
            return False
        pcs = [p for p in pc if p is not T.TRUE]
        if any(p is T.FALSE for p in pcs):
            self.ok(name, where, 'unreachable')
            return True
        alts = want if isinstance(want, (list, tuple)) else [want]
        want = alts[0]
        try:
            if prove and any(equal(got, w) for w in alts):
                self.ok(name, where)
                return True
            if prove and pcs:
                st = State({}, tuple(pcs))
                if any(equal(st.simp(got), st.simp(w)) for w in alts):
                    self.ok(name, where)
                    return True
        except (RecursionError, OverflowError):
            pass
        r = self.refute([(got, want)], samples, pcs, tries)
        if r[0] == 'bad':
            self.bad(name, where, {'witness': r[1], 'computed': short(got), 'specified': short(want)}, key)
            return False
        if r[0] == 'agree':
            self.add(name, 'agreed', where, {'valuations': r[1], 'computed': short(got, 300), 'specified': short(want, 300)})
            return True
        self.unknown(name, where, r[1])
        return False

    def holds(self, name, c, where='', samples=None, pc=(), tries=None, key=None):
        """condition c is true for all valuations satisfying pc"""
        if c is T.TRUE:
            self.ok(name, where)
            return True
        return self.eq(name, c, T.TRUE, where, samples, pc, tries, key)

    def refute(self, pairs, samples=None, pcs=(), tries=None):
        """look for a valuation of the symbols on which the terms differ"""
        tries = tries or (60 if self.tier == 'quick' else 400)
        deadline = time.time() + (20 if self.tier == 'quick' else 120)
        leaves = set()
        for a, b in pairs:
            leaves |= T.syms_of(a) | T.syms_of(b)
        for p in pcs:
            leaves |= T.syms_of(p)
        r, n, done, skipped = self.search(pairs, samples, pcs, tries, deadline, leaves, 0)
        if r is not None:
            return r
        if done == 0:
            return 'unknown', 'no valuation could be evaluated (%s)' % skipped
        if samples is not None:
            hints, signed = critical([x for p in pairs for x in p] + list(pcs))
            if hints or signed:
                self.rng.hints, self.rng.signed = hints, signed
                T.SPECIAL[:] = signed
                try:
                    deadline = time.time() + (6 if self.tier == 'quick' else 60)
                    r, n, more, skipped = self.search(pairs, samples, pcs, 3 * min(60, 12 + 3 * len(hints) + len(signed)), deadline, leaves, n)
                finally:
                    self.rng.hints = self.rng.signed = ()
                    T.SPECIAL[:] = []
                if r is not None:
                    return r
                done += more
        return 'agree', done

    def search(self, pairs, samples, pcs, tries, deadline, leaves, n):
        done, skipped, last = 0, None, n + tries * 4
        while n < last and done < tries and time.time() < deadline:
            n += 1
            self.rng.used = 0
            try:
                env = {}
                funcs = None
                seed = self.seed * 7919 + n
                if samples is not None:
                    r = samples(self.rng, n)
                    if r is None:
                        break
                    env, funcs = r if isinstance(r, tuple) else (r, None)
                    env = dict(env)
                v = Valuation(env, seed, funcs)
                if not all(v.ev(p) for p in pcs):
                    continue
                for a, b in pairs:
                    x, y = v.ev(a), v.ev(b)
                    if differ(x, y):
                        return ('bad', {'values': show_env(v.env, leaves), 'computed': str(x), 'specified': str(y)}), n, done, skipped
                done += 1
            except Skip as e:
                skipped = str(e) or 'outside the domain'
            except T.Undefined as e:
                return ('bad', {'values': show_env(env, leaves), 'computed': 'undefined value %s' % (e.t.args[0],)}), n, done, skipped
            except (TypeError, KeyError, OverflowError, RecursionError) as e:
                skipped = '%s: %s' % (type(e).__name__, e)
        return None, n, done, skipped

    # ------------------------------------------------------------ finishing
    def finish(self, level='other', extra=None):
        kf = known(self.pid)
        viol = [o for o in self.obs if o['status'] == 'violated']
        newv = [o for o in viol if o['key'] not in kf]
        old = [o for o in viol if o['key'] in kf]
        cnt = {}
        for o in self.obs:
            cnt[o['status']] = cnt.get(o['status'], 0) + 1
        decided = cnt.get('proved', 0) + cnt.get('agreed', 0) + cnt.get('violated', 0)
        os.makedirs(EVID, exist_ok=True)
        cov = {
            'explanation': 'static analysis of the current sources: %d obligations (%s); %s'
                           % (len(self.obs), ', '.join('%d %s' % (v, k) for k, v in sorted(cnt.items())), '; '.join(self.rules)),
            'obligations': len(self.obs), 'proved': cnt.get('proved', 0),
            'agreed_on_all_valuations_of_the_summary': cnt.get('agreed', 0),
            'violated': cnt.get('violated', 0), 'undecided': cnt.get('undecided', 0),
            'known_findings': len(old),
            'functions_analysed': sorted(self.analysed), 'assumptions': sorted(self.assumptions), 'rules': self.rules,
            'undecided_list': [{'name': o['name'], 'why': str(o['detail'])[:300]} for o in self.obs if o['status'] == 'undecided'][:60],
            'obligation_list': [{'name': o['name'], 'status': o['status'], 'where': o['where']} for o in self.obs][:600],
        }
        cov.update(extra or {})
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': sorted(self.assumptions), 'wall_s': round(time.time() - self.t0, 2)}
        p = os.path.join(EVID, self.pid + '.json')
        with open(p, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for o in self.obs:
            if o['status'] == 'undecided':
                print('UNDECIDED %s: %s (%s)' % (self.pid, o['name'], str(o['detail'])[:200]))
        for k in sorted({o['key'] for o in old}):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, kf[k]))
        print('%s: %d obligations, %s; %.1fs' % (self.pid, len(self.obs), ', '.join('%d %s' % (v, k) for k, v in sorted(cnt.items())),
                                               time.time() - self.t0))
        if newv:
            rp = os.path.join(EVID, self.pid + '.violations.json')
            with open(rp, 'w') as f:
                json.dump(newv, f, indent=1, default=str)
            for o in newv[:20]:
                print('  %s at %s: %s' % (o['name'], o['where'], json.dumps(o['detail'], default=str)[:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if decided == 0:
            print('WARNING %s: no obligation could be decided, nothing is known about this tree' % self.pid)
            return 2 if self.broken else 0
        return 0


_job = None


class TimeUp(BaseException):
    pass


def _alarm(*a):
    raise TimeUp()


def _run_job(i):
    rep, tasks = _job
    t = tasks[i]
    rep.obs, rep.analysed, rep.assumptions, rep.notes, rep.rules = [], set(), set(), [], []
    rep.rng = Rng(rep.seed * 1000 + i)
    err = None
    total, each = (650, 300) if rep.tier == 'quick' else (5400, 2400)
    left = int(min(each, total - (time.time() - rep.t0)))
    try:
        if left < 5:
            raise TimeUp()
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(left)
        rep.guard(t[0], t[1], rep, *t[2:])
    except AnalysisBroken as e:
        err = (str(e), '', t[0], e.source)
    except TimeUp:
        err = ('time limit', '', t[0])
    except Exception as e:
        err = ('%s: %s' % (type(e).__name__, e), traceback.format_exc(), t[0])
    finally:
        signal.alarm(0)
    for o in rep.obs:
        if o['detail'] is not None:
            o['detail'] = json.loads(json.dumps(o['detail'], default=str))
    return rep.obs, rep.analysed, rep.assumptions, rep.notes, rep.rules, err


def rel(p):
    from .cxx import REPO
    return p.replace(REPO + '/', '')


def short(t, n=700):
    s = T.show(t) if isinstance(t, Term) else repr(t)
    return s if len(s) <= n else s[:n] + '…'


def differ(x, y):
    if isinstance(x, float) or isinstance(y, float):
        return abs(float(x) - float(y)) > 1e-9 * max(1.0, abs(float(x)), abs(float(y)))
    return x != y


def show_env(env, leaves=None):
    out = {}
    for k, v in sorted(env.items(), key=lambda kv: str(kv[0].args[0])):
        if callable(v) or (leaves is not None and k not in leaves):
            continue
        out[str(k.args[0])] = str(v)
    return out


def equal(a, b):
    if a is b:
        return True
    if a.sort == 'b' and b.sort == 'b':
        return False
    return T.same(a, b)
