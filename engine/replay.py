"""replay.py FILE: rebuilds the harness from /repo's current tree and runs the failing test natively on the recorded values"""
import json, os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B, vp

d = json.load(open(sys.argv[1]))
b = B.build(os.path.join(vp.VERIF, 'harness', d['property'] + '.cpp'))
try:
    tier = 'thorough' if len(sys.argv) > 2 else 'quick'
    rc, out = vp.Native(b, tier).run(d['test'], d['failing_values'], d['mode'], nan=d['kind'] == 'domain', valgrind=d['kind'] == 'memory', f32=d.get('single_precision', False))
    print('test %s, assertion "%s"' % (d['test'], d['assertion']))
    for k, v in d['failing_values'].items(): print('  %s = %s' % (k, v))
    print(out); print('exit', rc)
    sys.exit(1 if rc not in (0, 77) else 0)
finally:
    shutil.rmtree(b['dir'], ignore_errors=True)
