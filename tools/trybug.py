#!/usr/bin/env python3
"""trybug.py [--no-check] [--slot N] [--checks C01,C02] ID...: plants seeded bugs in copies of /repo and /verif,
in a mount namespace of their own, and tells whether each counts and which checks catch it."""
import json, os, subprocess, sys, time
a = sys.argv[1:]
slot, checks, nocheck, ids = '0', None, False, []
while a:
    x = a.pop(0)
    if x == '--slot': slot = a.pop(0)
    elif x == '--checks': checks = a.pop(0).split(',')
    elif x == '--no-check': nocheck = True
    else: ids.append(x)
W = '/tmp/w' + slot
os.makedirs(W, exist_ok=True)
def sh(c, **k): return subprocess.run(['bash', '-c', c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def ns(c, timeout=1000):
    try:
        p = subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /repo && %s' % (W, W, c)],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 'timeout', ''
if not os.path.isdir(W + '/repo'): sh('cp -a /repo %s/repo' % W)
sh('mkdir -p %s/verif && rsync -a --delete --exclude=/build --exclude=/out --exclude=/evidence --exclude=/.git --exclude=/seeded /verif/ %s/verif/ || '
   '(cd /verif && tar cf - --exclude=./build --exclude=./out --exclude=./evidence --exclude=./.git --exclude=./seeded . | tar xf - -C %s/verif)' % (W, W, W))
G = 'git -C %s/repo ' % W
def restore(): sh(G + 'fetch -q /repo HEAD && ' + G + 'reset -q --hard FETCH_HEAD && ' + G + 'clean -fdq -e _build')
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for i in ids:
    d = '/verif/seeded/' + i
    meta = json.load(open(d + '/meta.json'))
    restore()
    sh('rm -rf %s/demo; cp -a %s %s/demo' % (W, d, W))
    line = [i, meta['property']]
    rc, o = ns('bash /opt/vp/build.sh'); 
    if rc: print(o[-2000:]); line.append('BASE-BUILD-FAILS')
    rc, o = ns('bash %s/demo/demo.sh' % W, 300)
    line.append('demo:clean=%s' % rc)
    if rc: print(o[-1500:])
    p = sh(G + 'apply %s/patch.diff' % d)
    if p.returncode: print(i, 'PATCH DOES NOT APPLY', p.stdout); continue
    rc, o = ns('bash /opt/vp/test.sh /repo/_build/t.json')
    t = json.load(open(W + '/repo/_build/t.json')) if os.path.exists(W + '/repo/_build/t.json') else {'passed': []}
    bad = sorted(base - set(t['passed']))
    line.append('tests:' + ('ok' if not bad else 'FAIL ' + ','.join(bad[:3])))
    rc, o = ns('bash %s/demo/demo.sh' % W, 300)
    line.append('demo:planted=%s' % rc)
    if not nocheck:
        for c in checks or [meta['property']]:
            t0 = time.time()
            rc, o = ns('cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 check.py %s quick' % c)
            line.append('%s:%s(%ds)' % (c, 'CAUGHT' if rc == 1 and 'VIOLATION property=%s ' % c in o else 'quiet' if rc == 0 else 'rc=%s' % rc, time.time() - t0))
            if rc not in (0, 1): print(o[-1500:])
            elif rc == 1: print(o[-700:])
    print(' '.join(line), flush=True)
restore()
