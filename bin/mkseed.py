#!/usr/bin/env python3
"""Author a planted bug: mkseed.py FILE.py, which defines ID, PROP, EDITS [(file, old, new)], NEEDS,
BREAKS, DEMO (C source) and optionally CHECKS. Everything happens in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0: the property holds, nonzero: it is broken. Run in the repository after its build.
set -u
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
gcc -std=gnu11 -g -D_GNU_SOURCE %s -I"$PWD/include" -I"$PWD/_build/include" "$D/demo.c" -o "$T/demo" \\
  -L"$PWD/_build" -lrcutils -Wl,-rpath,"$PWD/_build" -lpthread -ldl || exit 9
cd "$T" && timeout 120 "$T/demo"
'''
def lib(copy):
    src = [s for s in glob.glob(copy + '/src/*.c') + glob.glob(copy + '/src/testing/*.c') if 'win32' not in s]
    cmd = ['gcc', '-std=gnu11', '-g', '-w', '-shared', '-fPIC', '-D_GNU_SOURCE', '-DRCUTILS_ENABLE_FAULT_INJECTION', '-I' + copy + '/include',
           '-I' + copy + '/_build/include', '-I' + copy + '/src'] + src + ['-o', copy + '/_build/librcutils.so', '-ldl', '-lpthread']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        print(r.stderr); sys.exit('does not compile')
def headers(copy):
    out = copy + '/_build/include/rcutils/logging_macros.h'
    assert os.path.exists(out), out
    subprocess.run(['/usr/bin/python3', '-B', '-c', "import em; em.invoke(['-o', %r, '-D', 'rcutils_module_path=\"%s\"', %r])"
                    % (out, copy, copy + '/resource/logging_macros.h.em')], check=True)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    quick = len(sys.argv) < 3
    d = os.path.join(V, 'seeded', ns['ID'])
    os.makedirs(d, exist_ok=True)
    copy = '/tmp/sd_' + ns['ID']
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', copy], check=True)
    try:
        open(d + '/demo.c', 'w').write(ns['DEMO'])
        sh = ns.get('SH') or SH % ns.get('FLAGS', '')
        open(d + '/demo.sh', 'w').write(sh)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        lib(copy)
        a = subprocess.run(['bash', d + '/demo.sh'], cwd=copy, capture_output=True, text=True)
        for f, old, new in ns['EDITS']:
            p = os.path.join(copy, f)
            t = open(p).read()
            if t.count(old) != 1:
                sys.exit('%s: %d occurrences of %r' % (f, t.count(old), old))
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', '-C', copy, 'diff'], capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
        headers(copy)
        lib(copy)
        b = subprocess.run(['bash', d + '/demo.sh'], cwd=copy, capture_output=True, text=True)
        print('unchanged: %d   changed: %d   %s' % (a.returncode, b.returncode, 'OK' if a.returncode == 0 and b.returncode not in (0, 9) else 'BAD'))
        if a.returncode: print(a.stdout[-2000:], a.stderr[-2000:])
        if b.returncode in (0,9): print(b.stdout[-2000:], b.stderr[-2000:])
        for c in () if not quick else ns.get('CHECKS', [ns['PROP']]):
            r = subprocess.run(['python3', V + '/bin/check.py', c, 'quick'], env=dict(os.environ, VERIF_REPO=copy, VERIF_SEED='1'), capture_output=True, text=True)
            print(c, '->', r.returncode, '\n  '.join(r.stdout.strip().split('\n')[-4:])[:900], r.stderr[-500:])
    finally:
        shutil.rmtree(copy, ignore_errors=True)
main()
