"""mkseed.py SPEC.py : SPEC defines ID, PROP, LIB, EDITS [(file, old, new)], DEMO (C source), NEEDS, BREAKS"""
import sys, os, json, difflib
g = {}
exec(open(sys.argv[1]).read(), g)
D = '/verif/seeded/' + g['ID']
os.makedirs(D, exist_ok=True)
files = {}
for f, a, b in g['EDITS']:
    s = files.get(f) or open('/repo/' + f).read()
    assert s.count(a) == 1, (s.count(a), a)
    files[f] = s.replace(a, b)
with open(D + '/patch.diff', 'w') as o:
    for f, t in files.items():
        s = open('/repo/' + f).read()
        o.write(''.join(difflib.unified_diff(s.splitlines(1), t.splitlines(1), 'a/' + f, 'b/' + f)))
open(D + '/demo.c', 'w').write(g['DEMO'].lstrip())
open(D + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd = repository root after the build
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
gcc -w -DUSE_SCOTCH -DUSE_VTK -I_build/include -I_build/include/mmg/common -I_build/include/mmg/%s -Isrc/common -Isrc/%s -I_build/src/common "$D/demo.c" -o "$T/demo" _build/lib/lib%s.a \\
  -Wl,--as-needed $(ls /usr/lib/x86_64-linux-gnu/libvtk*-9.1.so | grep -v Python) -lscotch -lscotcherr -lscotcherrexit -lstdc++ -lm -no-pie -Wl,--unresolved-symbols=ignore-all
cd "$T"
timeout 250 "$T/demo" > "$T/out" 2>&1 || { r=$?; tail -5 "$T/out"; exit $r; }
''' % (g['LIB'], g['LIB'], g['LIB']))
os.chmod(D + '/demo.sh', 0o755)
json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(D + '/meta.json', 'w'))
