#!/usr/bin/env python3
"""mkseed.py NAME: makes /verif/seeded/NAME from tools/seeds/NAME.py-style definitions.
A definition gives prop, needs, breaks, edits [(file, old, new)], test (Go source of TestDemo), node (use node_test.go)."""
import sys, os, subprocess, json, shutil, re
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = '/tmp/seed/repo'
ENV = '. /opt/vp/env.sh; '
def sh(c, cwd=REPO):
    p = subprocess.run(['bash', '-c', ENV + c], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout
def make(name, prop, needs, breaks, edits, test, node=True, extra=()):
    if not os.path.isdir(REPO):
        os.makedirs('/tmp/seed', exist_ok=True)
        subprocess.check_call(['cp', '-a', '/repo', REPO])
    head = sh('git rev-parse HEAD', '/repo')[1].strip()
    sh('git checkout -q -- .')
    sh('git fetch -q /repo && git reset -q --hard ' + head)
    d = os.path.join(VERIF, 'seeded', name)
    os.makedirs(d, exist_ok=True)
    orig = {}
    for f, old, new in edits:
        p = os.path.join(REPO, f)
        s = open(p).read()
        if f not in orig:
            orig[f] = s
        assert s.count(old) == 1, (name, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    rc, diff = sh('git diff')
    open(d + '/patch.diff', 'w').write(diff)
    # the changed lines must be original ones
    for f in orig:
        blame = sh('git blame -s %s HEAD -- %s' % ('', f))[1].splitlines()
        ln = 0
        for l in sh('git diff -U0 -- ' + f)[1].splitlines():
            m = re.match(r'@@ -(\d+)(?:,(\d+))?', l)
            if m:
                a, n = int(m[1]), int(m[2] or 1)
                bad = [x for x in blame[a-1:a-1+n] if not x.startswith('^b4cfeea')]
                if bad: print('  NOT ORIGINAL', name, f, bad)
                if n == 0: print('  pure insertion', name, f, a)
    shutil.copy(HERE + '/seed/demo.sh', d + '/demo.sh')
    for f in os.listdir(d):
        if f.endswith('_test.go'): os.remove(os.path.join(d, f))
    if node: shutil.copy(HERE + '/seed/node_test.go', d + '/node_test.go')
    for e in extra: shutil.copy(HERE + '/seed/' + e, d + '/' + e)
    open(d + '/demo_test.go', 'w').write(test)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
    rc, out = sh('gofmt -l ' + ' '.join(orig) + ' ' + d)
    if out.strip(): print('  gofmt', out)
    rc, out = sh('go build ./... && go vet ./pkg/... >/dev/null 2>&1; go build ./...')
    if rc: print(name, 'BUILD FAILS', out[-1500:]); return False
    rc1, out1 = sh('bash %s/demo.sh' % d)
    rct, outt = sh('cp -a /opt/vp/test.sh /tmp/seed/test.sh; sed "s#/repo#%s#g" /opt/vp/test.sh > /tmp/seed/test.sh; bash /tmp/seed/test.sh /tmp/seed/out.json | tail -1' % REPO)
    sh('git checkout -q -- .')
    rc0, out0 = sh('bash %s/demo.sh' % d)
    ok = rc0 == 0 and rc1 != 0 and '83 passed' in outt
    print(name, 'OK' if ok else 'BAD', 'clean', rc0, 'patched', rc1, 'tests', outt.strip())
    if rc0: print(out0[-1500:])
    print('   patched says:', [l for l in out1.splitlines() if l.strip()][:3])
    return ok
