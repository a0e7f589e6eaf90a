"""Runs inside the private namespace of plant.sh: plant one bug, confirm it, keep it in OUTDIR/ID."""
import json
import os
import runpy
import subprocess
import sys

seeds, sid, out = sys.argv[1:]
s = [x for x in runpy.run_path(seeds)['SEEDS'] if x['id'] == sid][0]
d = os.path.join(out, sid)
os.makedirs(d, exist_ok=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def done(word):
    print('%s %s %s' % (sid, s['prop'], word))
    sys.exit()


with open(d + '/demo.sh', 'w') as f:
    f.write('#!/bin/sh\nexec python3 "$(dirname "$0")/demo.py"\n')
with open(d + '/demo.py', 'w') as f:
    f.write('import os, sys\nsys.path.insert(0, os.getcwd())\n'
            'sys.dont_write_bytecode = True\n' + s['demo'].lstrip('\n'))
json.dump({'property': s['prop'], 'needs': s['needs'],
           'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'),
          indent=1)
os.chdir('/repo')
print(sh('bash /opt/vp/build.sh').stdout[-300:])
r = sh('sh %s/demo.sh' % d)
if r.returncode:
    print(r.stdout)
    done('DEMO-FAILS-ON-CLEAN')
for fn, old, new in s['edits']:
    t = open(fn).read()
    if t.count(old) != 1:
        done('EDIT-NOT-UNIQUE %d %r' % (t.count(old), old[:60]))
    open(fn, 'w').write(t.replace(old, new))
patch = sh('git diff').stdout
open(d + '/patch.diff', 'w').write(patch)
r = sh('bash /opt/vp/build.sh')
if r.returncode:
    print(r.stdout)
    done('BUILD-FAILS')
r = sh('sh %s/demo.sh' % d)
print('demo with patch:', r.returncode, r.stdout[-600:])
if not r.returncode:
    done('DEMO-PASSES-WITH-PATCH')
r = sh('bash /opt/vp/test.sh /tmp/plant-%s.json' % sid)
last = r.stdout.strip().split('\n')[-1]
res = json.load(open('/tmp/plant-%s.json' % sid))
os.remove('/tmp/plant-%s.json' % sid)
print(last)
if ' 0 failed' not in last or '4373 passed' not in last:
    print([k for k in res.get('failed', [])][:10])
    done('TESTS-FAIL')
caught = []
for p in [s['prop']] + s.get('also', []):
    r = sh('VERIF_SEED=1 VERIF_TIER=quick bash /verif/run.sh %s quick' % p)
    print(r.stdout[-2500:])
    if r.returncode == 1 and 'VIOLATION property=%s' % p in r.stdout:
        caught.append(p)
if s['prop'] in caught:
    done('CAUGHT ' + ' '.join(caught))
done('MISSED ' + ' '.join(caught))
