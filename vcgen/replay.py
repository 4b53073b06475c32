#!/usr/bin/env python3-vt
"""replay.py FILE : run the failing input recorded in a replay file against the real code of /repo"""
import sys, json, os, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
d = json.load(open(sys.argv[1]))
print('property %s, contract %s, obligation: %s' % (d['property'], d['contract'], d['obligation']))
print('verifier:', json.dumps(d['verifier'])[:3000])
if not d.get('inputs'):
    print('no failing input was found by the verifier'); sys.exit(1)
t = tempfile.mkdtemp(prefix='vcreplay_')
try:
    src = run.ROOT + '/contracts/' + os.path.basename(d['contract_file'])
    err = run.build_native(src, t + '/bin', ' '.join(run.meta_of(src).get('flags', [])).split())
    if err: print(err); sys.exit(2)
    rc, o = run.replay(t + '/bin', d['contract'], d['inputs'])
    print(o); print('exit', rc)
finally: shutil.rmtree(t)
sys.exit(rc)
