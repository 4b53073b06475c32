#!/usr/bin/env python3
"""Plant a bug: seed.py SPEC.py ...   (spec: ID, PROP, FILE, OLD, NEW, DEMO, NEEDS, BREAKS)
Makes the change in a scratch copy of the headers, confirms that the
demonstration passes without and fails with it, and writes /verif/seeded/ID."""
import sys, os, subprocess, shutil, tempfile, json
SH = '''#!/bin/sh
# run in the repository root: compiles demo.cpp against the headers there
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 2
g++ -std=c++17 -O1 -w -include cstdint -I include "$d/demo.cpp" -o "$t/demo" -lpthread && (cd "$t" && timeout 120 ./demo); r=$?
rm -rf "$t"; exit $r
'''
def demo(d, cwd): return subprocess.run(['sh', d + '/demo.sh'], cwd=cwd, capture_output=True, text=True)
for spec in sys.argv[1:]:
    for block in open(spec).read().split('\n#====\n'):
        g = {}; exec(block, g)
        edits = g.get('EDITS') or [(g['FILE'], g['OLD'], g['NEW'])]
        out = '/verif/seeded/' + g['ID']; t = tempfile.mkdtemp(dir='/tmp')
        try:
            subprocess.check_call(['git', 'clone', '-q', '/repo', t + '/r'])
            for f, old, new in edits:
                p = t + '/r/' + f; s = open(p).read(); assert s.count(old) == g.get('COUNT', 1), (g['ID'], f, s.count(old))
                open(p, 'w').write(s.replace(old, new))
            diff = subprocess.check_output(['git', 'diff'], cwd=t + '/r', text=True)
            os.makedirs(out, exist_ok=True)
            open(out + '/patch.diff', 'w').write(diff); open(out + '/demo.sh', 'w').write(SH); open(out + '/demo.cpp', 'w').write(g['DEMO'])
            json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
            a = demo(out, '/repo'); b = demo(out, t + '/r')
            ok = a.returncode == 0 and b.returncode != 0
            print(g['ID'], 'OK' if ok else 'BAD', 'clean', a.returncode, 'patched', b.returncode, '' if ok else (a.stdout + a.stderr + b.stdout + b.stderr)[-1500:])
            if not ok: shutil.rmtree(out)
        finally: shutil.rmtree(t)
