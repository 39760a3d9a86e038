"""Makes and confirms planted bugs (not used by any check).

A seed file calls seed(id, property, needs, breaks, [(file, old, new)...], demo_go): in a scratch copy of /repo
the edits are applied, the build and the stable tests run, and the demonstration must pass without and fail with
the change; only then is /verif/seeded/<id> written.  usage: mkseed.py FILE [ID...]; mkseed.py --recheck [ID...]
"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Runs the program beside this script against the module in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
echo "{\\"Replace\\": {\\"$PWD/verifdemo/main.go\\": \\"$here/main.go.txt\\"}}" > "$work/overlay.json"
go build -overlay "$work/overlay.json" -o "$work/demo" ./verifdemo || exit 3
timeout 120 "$work/demo"
'''
SCR = '/tmp/seedscratch'
only = sys.argv[2:]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def fresh():
    shutil.rmtree(SCR, ignore_errors=True)
    shutil.copytree('/repo', SCR, symlinks=True)
    sh(['git', 'checkout', '-q', '--', '.'], cwd=SCR)

def tests():
    s = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + SCR)
    open('/tmp/seedtest.sh', 'w').write(s)
    sh(['bash', '/tmp/seedtest.sh', '/tmp/seedout.json'])
    o = json.load(open('/tmp/seedout.json'))
    got = set(o.get('passed') or o.get('pass') or [])
    return sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - got)

def demo(folder):
    r = sh(['bash', '-c', '. /opt/vp/env.sh; bash %s/demo.sh' % folder], cwd=SCR)
    return r.returncode, r.stdout

def confirm(folder, pid, skip_tests=False):
    fresh()
    rc0, o0 = demo(folder)
    if rc0 != 0:
        return 'demo fails on the unchanged tree: %s' % o0[:800]
    r = sh(['git', 'apply', os.path.join(folder, 'patch.diff')], cwd=SCR)
    if r.returncode:
        return 'patch does not apply: ' + r.stdout[:300]
    r = sh(['bash', '-c', '. /opt/vp/env.sh; go build ./...'], cwd=SCR)
    if r.returncode:
        return 'build fails: ' + r.stdout[:500]
    rc1, o1 = demo(folder)
    if rc1 in (0, 3):
        return 'demo returns %d with the change: %s' % (rc1, o1[:500])
    if not skip_tests:
        m = tests()
        if m:
            return 'tests fail: %s' % m
    return None

def seed(pid, prop, needs, breaks, edits, main):
    if only and pid not in only:
        return
    tmp = tempfile.mkdtemp()
    fresh()
    for f, a, b in edits:
        p = os.path.join(SCR, f)
        s = open(p).read()
        if s.count(a) != 1:
            print('FAIL', pid, 'edit matches', s.count(a), f, a)
            return
        open(p, 'w').write(s.replace(a, b))
    # the changed lines must be lines of the original repository
    open(os.path.join(tmp, 'patch.diff'), 'w').write(sh(['git', 'diff'], cwd=SCR).stdout)
    open(os.path.join(tmp, 'demo.sh'), 'w').write(DEMO)
    open(os.path.join(tmp, 'main.go.txt'), 'w').write(main)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(tmp, 'meta.json'), 'w'), indent=1)
    err = confirm(tmp, pid)
    if err:
        print('FAIL', pid, err)
    else:
        dst = os.path.join(ROOT, 'seeded', pid)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(tmp, dst)
        print('kept', pid)
    shutil.rmtree(tmp)
    shutil.rmtree(SCR, ignore_errors=True)

if sys.argv[1] == '--recheck':
    for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        if not only or d in only:
            print(d, confirm(os.path.join(ROOT, 'seeded', d), d, skip_tests=True) or 'ok')
    shutil.rmtree(SCR, ignore_errors=True)
else:
    exec(open(sys.argv[1]).read())
