#!/usr/bin/env python3
"""mkseed.py <id> <property> <needs> <what it breaks>: take /tmp/wt's diff as patch.diff, lay the demo kit beside demo.cc, and verify
the demonstration: passes on HEAD, fails with the patch, which keeps the stable tests passing.  mkseed.py verify <id> only verifies."""
import json, os, shutil, subprocess, sys, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, errors='replace', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
sid = sys.argv[1] if sys.argv[1] != 'verify' else sys.argv[2]
d = '%s/seeded/%s' % (HERE, sid)
os.makedirs(d, exist_ok=True)
WT = '/tmp/wt'
if sys.argv[1] != 'verify':
    _, _, prop, needs, what = sys.argv
    p = sh('git -C %s diff' % WT).stdout
    assert p.strip(), 'no change in ' + WT
    open(d + '/patch.diff', 'w').write(p)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
    if os.path.exists(d + '/demo.cc'):
        k = d + '/kit'
        os.makedirs(k + '/a', exist_ok=True)
        shutil.copytree(HERE + '/sim/include', k + '/include', dirs_exist_ok=True)
        shutil.copy(HERE + '/sim/simcore.h', k)
        for x in ('dns.h', 'model.h', 'model.cc', 'mtbl_sim.h', 'mtbl_sim.cc', 'wdns_sim.cc', 'wraps.cc'):
            shutil.copy(HERE + '/sim/a/' + x, k + '/a')
        shutil.copy(HERE + '/tools/demokit/kit.h', k)
        if 'cli.h' in open(d + '/demo.cc').read():
            shutil.copy(HERE + '/tools/demokit/cli.h', k)
        shutil.copy(HERE + '/tools/demokit/demo.sh', d)
    if os.path.exists(d + '/demo.c'):
        shutil.copy(HERE + '/tools/demokit/libmy.sh', d + '/demo.sh')
T = '/tmp/seedverify'
shutil.rmtree(T, ignore_errors=True)
shutil.copytree(d, T)
for f in glob.glob(T + '/*.diff') + [T + '/meta.json']:
    os.unlink(f)
sh('git -C %s checkout -q -- . && git -C %s checkout -q --detach $(git -C /repo rev-parse HEAD)' % (WT, WT))
a = sh('bash %s/demo.sh' % T, cwd=WT)
r = sh('git -C %s apply %s/patch.diff' % (WT, d))
assert r.returncode == 0, r.stdout
b = sh('bash %s/demo.sh' % T, cwd=WT)
sh('git -C %s checkout -q -- .' % WT)
shutil.rmtree(T, ignore_errors=True)
print('unchanged rc=%d, patched rc=%d' % (a.returncode, b.returncode))
print(a.stdout[-600:] if a.returncode else '')
print(b.stdout[-900:])
ok = a.returncode == 0 and b.returncode not in (0, 3)
print('KEEP' if ok else 'NOT VALID')
sys.exit(0 if ok else 1)
