"""seed(...): writes one planted bug to /verif/seeded/<id> from an old/new replacement in a file of /repo."""
import json, os, subprocess
def seed(sid, pid, edits, needs, breaks, demo, files=None):
    d = '/verif/seeded/' + sid
    os.makedirs(d, exist_ok=True)
    if subprocess.run(['git', '-C', '/repo', 'status', '--porcelain', '-uno'], capture_output=True, text=True).stdout.strip():
        raise SystemExit('/repo is not clean')
    try:
        for f, old, new in edits:
            p = '/repo/' + f
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': pid, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n' + demo.strip() + '\n')
    os.chmod(d + '/demo.sh', 0o755)
    for n, c in (files or {}).items(): open(d + '/' + n, 'w').write(c)

CPP = '''set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -w %s "$here/demo.cpp" %s -o "$tmp/demo" %s
cd "$tmp"
timeout 60 ./demo
'''
def cpp(flags='', srcs='', libs=''):
    return CPP % (flags, srcs, libs)
