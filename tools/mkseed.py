#!/usr/bin/env python3
"""Development tool: mkseed(id, property, [(file, old, new)...], demo_cpp, needs, breaks, np=0, san=False) writes seeded/<id>/."""
import os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def mkseed(sid, prop, edits, demo, needs, breaks, np=0, san=False, run=None):
    W = tempfile.mkdtemp(prefix='mkseed'); R = W + '/r'
    subprocess.run(['git', 'clone', '-q', '/repo', R], check=True)
    for f, old, new in edits:
        s = open(R + '/' + f, newline='').read(); n = s.count(old)
        if n != 1: print(sid, 'pattern occurs', n, 'times in', f, ':', old[:60]); shutil.rmtree(W); return
        open(R + '/' + f, 'w', newline='').write(s.replace(old, new))
    d = os.path.join(V, 'seeded', sid); os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w', newline='').write(subprocess.run(['git', '-C', R, 'diff'], capture_output=True).stdout.decode())
    shutil.rmtree(W)
    open(d + '/demo.cpp', 'w').write(demo)
    cmd = run or ('timeout 120 mpirun --allow-run-as-root --oversubscribe -n %d ./demo' % np if np else 'timeout 120 ./demo')
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: behaves as specified; nonzero: broken
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
O=/usr/lib/x86_64-linux-gnu
g++ -std=c++17 -O1 -w %s-DOMPI_SKIP_MPICXX -DKOKKOS_DEPENDENCE -I/repo/src -I$O/openmpi/include -I$O/openmpi/include/openmpi -I/usr/include/hdf5/openmpi -isystem /usr/include/trilinos \\
  -isystem /repo/_build/src/grid -isystem /repo/_build/src/grid/iteration "$D/demo.cpp" -o "$W/demo" \\
  -L/repo/_build -lschnek -Wl,-rpath,/repo/_build $O/openmpi/lib/libmpi.so $O/hdf5/openmpi/libhdf5.so $O/libtrilinos_kokkoscore.so.13.2 -ldl -lpthread || exit 3
cd "$W" || exit 3
%s
''' % ('-fsanitize=address ' if san else '', cmd))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print('wrote', sid)
