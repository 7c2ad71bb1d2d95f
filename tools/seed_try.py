#!/usr/bin/env python3
"""seed_try.py ID...: in a scratch copy of /repo, confirms that a planted bug builds, passes the tests, is shown by its
demonstration and not before, and reports whether the property's quick check catches it."""
import json, os, subprocess, sys, shutil
V = '/verif'
W = '/tmp/seedtry'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
nocheck = '--no-check' in sys.argv
for sid in [a for a in sys.argv[1:] if not a.startswith('--')]:
    sh('rsync -a --delete --exclude _build /repo/ %s/' % W) if shutil.which('rsync') else sh('rm -rf %s && mkdir -p %s && cd /repo && git archive HEAD | tar x -C %s && cp -r .git %s/' % (W, W, W, W))
    d = '%s/seeded/%s' % (V, sid)
    meta = json.load(open(d + '/meta.json'))
    demo = '/tmp/seedtry-demo'
    sh('rm -rf %s; mkdir %s; cp -r %s/. %s/; rm -f %s/*.diff %s/meta.json' % (demo, demo, d, demo, demo, demo))
    r0 = sh('bash %s/demo.sh' % demo, cwd=W, timeout=300)
    a = sh('git apply --check %s/patch.diff && git apply %s/patch.diff' % (d, d), cwd=W)
    if a.returncode: print(sid, 'PATCH DOES NOT APPLY', a.stdout); continue
    r1 = sh('bash %s/demo.sh' % demo, cwd=W, timeout=300)
    # build and tests run in /repo's place: the vp build names /repo, so apply there for a moment
    b = 'skipped'
    if '--build' in sys.argv:
        sh('git -C /repo apply %s/patch.diff' % d)
        try:
            x = sh('bash /opt/vp/build.sh'); y = sh('bash /opt/vp/test.sh /tmp/seedtry.json')
            n = json.load(open('/tmp/seedtry.json'))
            b = 'build rc %d passed %d failed %d' % (x.returncode, n['passed'] if isinstance(n['passed'], int) else len(n['passed']), n['failed'] if isinstance(n['failed'], int) else len(n['failed']))
        finally:
            sh('git -C /repo checkout -- .')
    c = ''
    if not nocheck:
        pids = meta['property'] if isinstance(meta['property'], list) else [meta['property']]
        for p in pids:
            k = sh('VERIF_REPO=%s ./check %s' % (W, p), cwd=V)
            c += '%s rc %d %s; ' % (p, k.returncode, 'CAUGHT' if k.returncode == 1 and 'VIOLATION property=' + p in k.stdout else 'MISSED ' + k.stdout[-300:])
    print('%-28s demo %s -> %s  %s  %s' % (sid, r0.returncode, r1.returncode, b, c), flush=True)
    if r0.returncode: print(r0.stdout[-1500:])
    if r1.returncode == 0: print(r1.stdout[-500:])
sh('rm -rf /tmp/seedtry /tmp/seedtry-demo')
