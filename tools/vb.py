"""Builds harness binaries from /repo's current working tree (ninja, incremental, no cmake)."""
import glob, os, subprocess, sys, shutil

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build' if REPO == '/repo' else 'build/alt')

def globs(patterns, exclude=()):
    out = []
    for p in patterns:
        p = p.replace('$R', REPO).replace('$V', VERIF)
        m = sorted(glob.glob(p, recursive=True))
        if not m and not any(c in p for c in '*?['):
            raise SystemExit('vb: no such source: ' + p)
        out += m
    ex = set()
    for p in exclude:
        ex |= set(glob.glob(p.replace('$R', REPO).replace('$V', VERIF), recursive=True))
    seen, res = set(), []
    for f in out:
        if f not in ex and f not in seen:
            seen.add(f); res.append(f)
    return res

def esc(p): return p.replace('$', '$$').replace(' ', '$ ').replace(':', '$:')

def build(name, sources, includes, flags='', ldflags='', exclude=(), pch=None, gen_msgs=None, protos=False,
          pch_exclude=(), cxx='g++', per_source_flags=None, quiet=True, share=None, unity=0):
    """Builds BUILD/name/name and returns its path. Raises CalledProcessError when it does not compile."""
    d = os.path.join(BUILD, share or name)  # targets with the same `share` use each other's objects
    os.makedirs(d, exist_ok=True)
    inc = list(includes)
    if gen_msgs is not None:
        g = os.path.join(d, 'gen')
        subprocess.run([sys.executable, os.path.join(VERIF, 'tools/gen_msgs.py'), g] +
                       [x.replace('$R', REPO).replace('$V', VERIF) for x in gen_msgs],
                       check=True, stdout=subprocess.DEVNULL)
        inc.append(g)
    srcs = globs(sources, exclude)
    if protos:
        po = os.path.join(d, 'proto', 'simulation_interface')
        os.makedirs(po, exist_ok=True)
        pd = os.path.join(REPO, 'simulation/simulation_interface/proto')
        files = sorted(glob.glob(pd + '/*.proto'))
        newest = max(os.path.getmtime(f) for f in files)
        stamp = os.path.join(po, '.stamp')
        if not os.path.exists(stamp) or os.path.getmtime(stamp) < newest:
            subprocess.run(['protoc', '--cpp_out=' + po, '-I' + pd] + files, check=True)
            open(stamp, 'w').close()
        inc.append(os.path.join(d, 'proto'))
        if protos != 'headers':
            srcs += sorted(glob.glob(po + '/*.cc'))
    if unity and not os.environ.get('VERIF_DEV'):
        # the repository's sources in a few units: cold builds are several times faster. Where that does not compile (two sources
        # with local functions of one name, say), build them one by one.
        theirs = [s for s in srcs if s.startswith(REPO + '/')]
        u = os.path.join(d, 'unity'); os.makedirs(u, exist_ok=True)
        n = (len(theirs) + unity - 1) // unity
        chunks = []
        for k in range(n):
            f = os.path.join(u, '%d.cpp' % k)
            txt = ''.join('#include "%s"\n' % s for s in theirs[k::n])
            if not os.path.exists(f) or open(f).read() != txt:
                open(f, 'w').write(txt)
            chunks.append(f)
        plain, srcs = srcs, [s for s in srcs if s not in theirs] + chunks
    else:
        plain = None
    inc = [i.replace('$R', REPO).replace('$V', VERIF) for i in inc]
    iflags = ' '.join('-I' + i for i in inc)
    out = os.path.join(d, name)
    n = []
    n.append('cxx = %s' % cxx)
    n.append('flags = -std=c++17 %s %s %s' % ('' if pch else '-include %s/stubs/include/prelude.hpp' % VERIF, flags, iflags))
    n.append('lflags = ' + flags)
    n.append('rule cc\n  command = $cxx $flags $extra -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc')
    n.append('rule pch\n  command = $cxx $flags -MMD -MF $out.d -x c++-header $in -o $out\n  depfile = $out.d\n  deps = gcc')
    n.append('rule ln\n  command = $cxx @$out.rsp -o $out %s\n  rspfile = $out.rsp\n  rspfile_content = $lflags $in' % ldflags)
    pdep, pflag = '', ''
    if pch:
        ph = pch.replace('$V', VERIF)
        base = os.path.basename(ph)
        pd = os.path.join(d, 'pch'); os.makedirs(pd, exist_ok=True)
        shim = os.path.join(pd, base)
        if not os.path.exists(shim):
            with open(shim, 'w') as f: f.write('#include "%s"\n' % ph)
        n.append('build %s: pch %s' % (esc(shim + '.gch'), esc(ph)))
        pdep = ' | ' + esc(shim + '.gch')
        pflag = '-include ' + shim
    def attempt(srcs):
        objs, n = [], list(head)
        pex = set(globs(pch_exclude)) if pch_exclude else set()
        for s in srcs:
            o = os.path.join(d, 'o', s.lstrip('/').replace('/', '__') + '.o')
            objs.append(o)
            ex = (per_source_flags or {}).get(s.replace(REPO, '$R').replace(VERIF, '$V'), '')
            use = pch and s not in pex
            n.append('build %s: cc %s%s\n  extra = %s' % (esc(o), esc(s), pdep if use else '', ((pflag + ' ') if use else '') + ex))
        n.append('build %s: ln %s' % (esc(out), ' '.join(esc(o) for o in objs)))
        n.append('default %s' % esc(out))
        nf = os.path.join(d, name + '.ninja')
        txt = '\n'.join(n) + '\n'
        if not os.path.exists(nf) or open(nf).read() != txt:
            open(nf, 'w').write(txt)
        env = dict(os.environ); env.pop('MAKEFLAGS', None)
        r = subprocess.run(['ninja', '-C', d, '-f', name + '.ninja', '-j', '8', '-k', '20'], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        open(os.path.join(d, name + '.log'), 'w').write(r.stdout)
        return r
    head = n
    r = attempt(srcs)
    if r.returncode and plain:
        r = attempt(plain)
    if r.returncode:
        sys.stderr.write('\n'.join(l for l in r.stdout.splitlines() if 'error' in l or 'FAILED' in l or 'undefined' in l)[:3000] + '\n')
        raise SystemExit('vb: build of %s failed' % name)
    return out
