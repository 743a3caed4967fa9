#!/usr/bin/env python3
"""Development tool.  seed.py SPEC.py : SPEC.py defines lists of dicts
  dict(id=, prop=, needs=, breaks=, edits=[(file, old, new), ...], srcs=[...repo files], demo='C++ source', libs='', std='c++17', flags='')
For each: writes seeded/<id>/, applies the patch to /repo, builds, runs the stable tests, runs the demo with and without,
runs the property's check with the change, restores /repo, and prints one line."""
import json, os, subprocess, sys, runpy, difflib, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
FL = ' '.join(x for x in check.DEFS)
R = '/repo'


def sh(c, t=900, **k):
    try:
        p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, **k)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def restore():
    sh('git -C /repo checkout -- .')


def main():
    spec = runpy.run_path(sys.argv[1])
    only = sys.argv[2:]
    assert not sh('git -C /repo status --porcelain')[1].strip(), '/repo dirty'
    for s in spec['SEEDS']:
        if only and s['id'] not in only:
            continue
        d = '%s/seeded/%s' % (V, s['id'])
        os.makedirs(d, exist_ok=True)
        for f, old, new in s['edits']:
            p = R + '/' + f
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff')[1])
        restore()
        open(d + '/demo.cc', 'w').write(s['demo'].lstrip())
        shim = s.get('shim', True)
        if shim and not os.path.exists(d + '/shim'):
            shutil.copytree(V + '/shim', d + '/shim')
        srcs = ' '.join('"$R/%s"' % x for x in s['srcs'])
        open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: the property's demonstration holds on this tree; nonzero: it does not
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d)
g++ -std=%s -w %s %s -I"$D/shim" -I"$R/include" -I"$R/src" \\
  "$D/demo.cc" %s -o "$T/demo" %s -lpthread || exit 99
cd "$T" && timeout 60 ./demo; rc=$?
rm -f "$T"/demo "$T"/*.tmp; rmdir "$T" 2>/dev/null
exit $rc
''' % (s.get('std', 'c++17'), FL, s.get('flags', ''), srcs, s.get('libs', '')))
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        r0, o0 = sh('bash %s/demo.sh' % d, cwd=R)
        msg = []
        if r0:
            msg.append('DEMO FAILS ON CLEAN rc=%d %s' % (r0, o0[-800:]))
        rc, o = sh('git -C /repo apply %s/patch.diff' % d)
        assert rc == 0, o
        try:
            r1, o1 = sh('bash %s/demo.sh' % d, cwd=R)
            if r1 in (0, 99):
                msg.append('DEMO rc=%d WITH PATCH %s' % (r1, o1[-1500:]))
            rb, ob = sh('bash /opt/vp/build.sh')
            if rb:
                msg.append('BUILD FAILS ' + ob[-800:])
            sh('bash /opt/vp/test.sh /tmp/o.json')
            base = json.load(open('/opt/vp/BASELINE.json'))
            got = set(json.load(open('/tmp/o.json'))['passed'])
            want = base if isinstance(base, list) else next(v for v in base.values() if isinstance(v, list))
            miss = [w for w in want if w not in got]
            if miss:
                msg.append('STABLE TESTS FAIL %s' % miss)
            props = s['prop'].split()
            res = []
            for p in props:
                rk, ok = sh('python3 check.py %s' % p, cwd=V)
                hit = [l for l in ok.splitlines() if l.startswith('VIOLATION')]
                res.append('%s %s' % (p, 'CAUGHT' if rk == 1 and hit else 'MISSED rc=%d %s' % (rk, ok[-600:])))
        finally:
            restore()
        print(s['id'], '|', '; '.join(msg) or 'valid', '|', '; '.join(res), flush=True)
    sh('bash /opt/vp/build.sh')


main()
