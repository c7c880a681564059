"""Create seeded/<id>/ from the tables in tools/seeds/*.py: python3 tools/mkseed.py [id…]

Each entry: id, property, file, edits [(old, new)…] (each old text occurs once), needs, breaks, demo (text of
demo.sh after the prologue), files {name: text}.
"""
import glob, json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRO = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=yes
export OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none
export OMPI_MCA_pml=ob1 OMPI_MCA_osc=pt2pt OMPI_MCA_plm=isolated OMPI_MCA_mpi_yield_when_idle=1
'''
LIB = 'mpicxx -std=gnu++11 -I cxx "$here/demo.cpp" cxx/*.cpp -o "$t/demo" || exit 98\ncd "$t" && '
def main(ids):
    entries = {}
    for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
        ns = {'LIB': LIB}
        exec(open(f).read(), ns)
        for e in ns['SEEDS']:
            assert e['id'] not in entries, e['id']
            entries[e['id']] = e
    for i, e in entries.items():
        if ids and i not in ids:
            continue
        tmp = tempfile.mkdtemp()
        edits = e['edits'] if isinstance(e['edits'], dict) else {e['file']: e['edits']}
        subprocess.run(['git', 'init', '-q', tmp], check=True)
        for f in edits:
            os.makedirs(os.path.dirname(tmp + '/' + f), exist_ok=True)
            shutil.copy('/repo/' + f, tmp + '/' + f)
        subprocess.run('git add -A; git -c user.name=x -c user.email=x commit -qm x', shell=True, cwd=tmp, check=True)
        for f, es in edits.items():
            s = open(tmp + '/' + f).read()
            for old, new in es:
                assert s.count(old) == 1, (i, f, s.count(old), old)
                s = s.replace(old, new)
            open(tmp + '/' + f, 'w').write(s)
        d = V + '/seeded/' + i
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(subprocess.run(['git', 'diff'], cwd=tmp, capture_output=True, text=True, check=True).stdout)
        open(d + '/demo.sh', 'w').write(PRO + e['demo'] + '\n')
        os.chmod(d + '/demo.sh', 0o755)
        for n, t in e.get('files', {}).items():
            open(d + '/' + n, 'w').write(t)
        json.dump({'property': e['property'], 'needs': e['needs'], 'what_it_breaks': e['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        shutil.rmtree(tmp)
        print(i)
main(sys.argv[1:])
