"""mkseed.py ID PROPERTY PKG 'needs' 'what': takes the diff of the scratch worktree /tmp/seed and the demo /tmp/seed_demo_test.go,
confirms them and stores /verif/seeded/ID"""
import sys, os, json, subprocess, shutil
id, prop, pkg, needs, what = sys.argv[1:6]
W, D = '/tmp/seed', '/verif/seeded/' + id
def sh(c, **k):
    return subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; ' + c], capture_output=True, text=True, **k)
diff = sh('cd %s && git diff' % W).stdout
assert diff.strip(), 'no diff'
os.makedirs(D, exist_ok=True)
open(D + '/patch.diff', 'w').write(diff)
shutil.copy('/tmp/seed_demo_test.go', D + '/demo_test.go')
open(D + '/demo.sh', 'w').write('''#!/bin/bash
# runs demo_test.go inside the package %s of the tree in the current directory
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh >/dev/null 2>&1
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
root="$(pwd)"
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$root" "$here" > "$tmp/overlay.json"
TMPDIR="$tmp" go test -vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestSeededDemo$' ./%s
''' % (pkg, pkg, pkg))
os.chmod(D + '/demo.sh', 0o755)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(D + '/meta.json', 'w'), indent=1)
r1 = sh('cd /repo && bash %s/demo.sh' % D)
r2 = sh('cd %s && go build ./... && bash %s/demo.sh' % (W, D))
t = sh('cd %s && go test ./... 2>&1 | grep -E "^(--- FAIL|FAIL|ok|panic)" ' % W)
print('unchanged:', r1.returncode, 'patched:', r2.returncode)
print((r2.stdout + r2.stderr)[-600:])
print(t.stdout)
if r1.returncode != 0: print(r1.stdout[-800:], r1.stderr[-800:])
sh('cd %s && git checkout -- .' % W)
