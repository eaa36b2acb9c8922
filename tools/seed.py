"""seed(id, prop, edits=[(file, old, new)...], demo=..., ...): builds and validates /verif/seeded/<id>"""
import json, os, re, shutil, subprocess, sys
DEMO = '''#!/bin/bash
# exit 0 if the behaviour is right, nonzero otherwise; run with cwd /repo
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
%(cxx)s -std=%(std)s -O1 -g -w %(flags)s -I include "$here/demo.cpp" -o "$d/demo" %(ld)s || exit 3
cd "$d" && ulimit -v %(ulimit)s 2>/dev/null; ASAN_OPTIONS=detect_leaks=1:alloc_dealloc_mismatch=0 timeout %(timeout)d ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
base_cache = {}
def base(f):
    if f not in base_cache: base_cache[f] = sh('git -C /repo show b0f3202:%s' % f).stdout.split('\n')
    return base_cache[f]
def seed(id, prop, edits, demo, needs, breaks, std='c++17', flags='-fsanitize=address', cxx='g++', ld='', timeout=60, ulimit='unlimited', checks=None, run=True):
    w = '/tmp/seedw/' + id
    if os.path.exists(w): shutil.rmtree(w)
    os.makedirs(w); sh('cp -a /repo/. %s/' % w)
    for f, old, new in edits:
        p = w + '/include/itlib/' + f; s = open(p).read()
        if s.count(old) != 1: print(id, 'COUNT', s.count(old), repr(old)); return False
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git -C %s diff' % w).stdout
    cur = None
    for l in diff.split('\n'):
        if l.startswith('--- a/'): cur = l[6:]
        elif l.startswith('-') and not l.startswith('---'):
            if l[1:].strip() and l[1:] not in base(cur): print(id, 'WARNING not an original line:', l)
    d = '/verif/seeded/' + id; os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write(demo.lstrip('\n'))
    open(d + '/demo.sh', 'w').write(DEMO % dict(cxx=cxx, std=std, flags=flags, ld=ld, timeout=timeout, ulimit=ulimit)); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    dd = '/tmp/seedw/%s_demo' % id; shutil.rmtree(dd, ignore_errors=True); os.makedirs(dd)
    for x in ('demo.cpp', 'demo.sh'): shutil.copy2(d + '/' + x, dd)
    clean = sh('cd /repo && bash %s/demo.sh' % dd)
    ns = lambda c: sh("cd / && unshare -Urm bash -c 'mount --bind %s /repo && cd /repo && %s'" % (w, c))
    t = ns('bash /opt/vp/test.sh /tmp/seedw/%s.json' % id); 
    try: j = json.load(open('/tmp/seedw/%s.json' % id)); tests = re.search(r'(\d+) passed, (\d+) failed', t.stdout).groups()
    except Exception as e: tests = ('?', t.stdout[-1500:] + t.stderr[-500:])
    pat = ns('bash %s/demo.sh' % dd)
    ok = clean.returncode == 0 and pat.returncode != 0 and tests == ('112', '0')
    print(id, 'OK' if ok else 'BAD', 'clean', clean.returncode, 'patched', pat.returncode, 'tests', tests, (pat.stdout + pat.stderr).strip()[:150].replace('\n', ' / '))
    if clean.returncode: print((clean.stdout + clean.stderr)[-1500:])
    if pat.returncode == 3: print('  (demo does not compile with the patch)')
    if run:
        for c in (checks or [prop]):
            r = sh('python3 /verif/run.py %s --include %s/include --no-evidence' % (c, w)); o = (r.stdout + r.stderr).strip().split('\n')
            v = [l for l in o if 'MC-FAIL' in l or 'AddressSan' in l or 'VIOLATION' in l or 'error:' in l or 'runtime error' in l]
            print('   ', c, 'CAUGHT' if r.returncode == 1 else 'MISSED rc %d' % r.returncode, ' | '.join((v or o[-2:])[:2])[:300])
    shutil.rmtree(w); shutil.rmtree(dd)
    return ok
