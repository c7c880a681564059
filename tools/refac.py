#!/usr/bin/env python3
"""Behaviour-preserving edits, on which the checks have to stay quiet.

    tools/refac.py [--bugs] [-c C01,C02] [id-substring ...]

tools/refacs/*.py list the edits (REFACS: dict(id, checks, edits=[(file, old,
new), ...])). Each is applied to a scratch copy of /repo, compiled, and the
named checks run on it; an edit for which a check does not exit 0 is reported,
and so is the number of obligations left undecided. With --bugs the edits are
those of tools/bugs/*.py, which break a property, and one the named check does
not report is a miss.
"""
import glob, os, runpy, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
INC = '-I/usr/lib/x86_64-linux-gnu/openmpi/include'


def compile_ok(repo, f):
    p = os.path.join(repo, f)
    d = os.path.dirname(p)
    if f.endswith(('.cxx', '.cpp')):
        inc = ['-I', os.path.join(repo, 'cxx'), INC]
        cmds = [['mpicxx', '-std=c++11', '-fsyntax-only', '-fopenmp', '-w', *inc, p]]
        env = dict(os.environ)
        cmds = [['g++', '-std=c++11', '-fsyntax-only', '-fopenmp', '-w', *inc, *subprocess.run(
            ['mpicxx', '--showme:compile'], capture_output=True, text=True).stdout.split(), p]]
    elif f.endswith('.F90'):
        cmds = [['gfortran', '-cpp', '-ffree-line-length-none', '-fsyntax-only', '-fopenmp', '-w', p]]
    elif f.endswith('.py'):
        cmds = [[sys.executable, '-c', 'import ast,sys;ast.parse(open(sys.argv[1]).read())', p]]
    else:
        return True
    for c in cmds:
        r = subprocess.run(c, capture_output=True, text=True, cwd=tempfile.gettempdir())
        if r.returncode:
            print(r.stderr[:1500])
            return False
    return True


def main():
    a = sys.argv[1:]
    only = None
    bugs = bool(a) and a[0] == '--bugs'
    if bugs:
        a = a[1:]
    if a and a[0] == '-c':
        only = a[1].split(',')
        a = a[2:]
    bad = 0
    for src in sorted(glob.glob(os.path.join(HERE, 'bugs' if bugs else 'refacs', '*.py'))):
        for r in runpy.run_path(src)['REFACS']:
            if a and not any(s in r['id'] for s in a):
                continue
            d = tempfile.mkdtemp(prefix='refac.')
            try:
                subprocess.run('git -C /repo archive HEAD | tar x -C ' + d, shell=True, check=True)
                ok = True
                for f, old, new in r['edits']:
                    p = os.path.join(d, f)
                    t = open(p).read()
                    if old not in t:
                        print('%s: not in %s: %r' % (r['id'], f, old[:60]))
                        ok = False
                        break
                    open(p, 'w').write(t.replace(old, new))
                if not ok:
                    bad += 1
                    continue
                for f in {e[0] for e in r['edits']}:
                    if not compile_ok(d, f):
                        print('%s: %s does not compile' % (r['id'], f))
                        ok = False
                if not ok:
                    bad += 1
                    continue
                for c in (only or r['checks'].split()):
                    t0 = time.time()
                    x = subprocess.run([sys.executable, '-m', 'fidistatic.check', c], cwd=os.path.dirname(HERE),
                                       env=dict(os.environ, FIDI_REPO=d), capture_output=True, text=True)
                    out = (x.stdout + x.stderr).splitlines()
                    und = [l for l in out if l.startswith('UNDECIDED')]
                    print('%s %s rc=%d %.0fs undecided=%d' % (r['id'], c, x.returncode, time.time() - t0, len(und)),
                          flush=True)
                    for l in und[:3]:
                        print('    ' + l[:260])
                    if bugs:
                        v = [l for l in out if l.startswith('VIOLATION')]
                        if x.returncode != 1 or not v:
                            bad += 1
                            print('    %s' % ('NOT REPORTED' if r.get('expect', 1) else 'not reported'))
                        continue
                    if x.returncode:
                        bad += 1
                        for l in [l for l in out if 'VIOLATION' in l or 'Error' in l or 'roken' in l][:4] or out[-3:]:
                            print('    ' + l[:300])
            finally:
                shutil.rmtree(d)
    print('alarms or failures: %d' % bad)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
