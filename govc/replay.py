"""Search for a failing input on the real code: an in-package Go test (through -overlay) that evaluates the property's
own oracle on values from the verifier's model, boundary values and seeded random values."""
import os, json, subprocess


def run(verif, repo, pid, cfg, hints, seed, tier, tmp, fns=()):
    """cfg['replay']: one harness (package, file, test) or several; those of the packages with failed obligations go first"""
    if 'replay' not in cfg:
        return None, 'no replay harness for this property'
    todo = cfg['replay'] if isinstance(cfg['replay'], list) else [cfg['replay']]
    hit = [r for r in todo if any('recengine/' + r[0] + '.' in f for f in fns)]
    todo = hit + [r for r in todo if r not in hit]
    log = ''
    for r in todo:
        inp, out = run1(verif, repo, r, hints, seed, tier, tmp)
        log += out + '\n'
        if inp:
            return inp, log
    return None, log


def run1(verif, repo, rep, hints, seed, tier, tmp):
    pkg, name, test = rep
    src = os.path.join(verif, 'replay', name + '_replay_test.go')
    if not os.path.exists(src):
        return None, 'no replay harness ' + src
    common = os.path.join(verif, 'replay', 'common.go.txt')
    pkgname = os.path.basename(pkg) if pkg != '.' else 'main'
    ctxt = open(common).read().replace('package PKG', 'package ' + pkgname)
    cpath = os.path.join(tmp, 'verif_common_test.go')
    open(cpath, 'w').write(ctxt)
    ov = {'Replace': {os.path.join(repo, pkg, 'zz_verif_replay_test.go'): src, os.path.join(repo, pkg, 'zz_verif_common_test.go'): cpath}}
    # the package's own tests are left out: only the harness runs
    ovp = os.path.join(tmp, 'overlay.json')
    json.dump(ov, open(ovp, 'w'))
    hp = os.path.join(tmp, 'hints.json')
    ints = sorted({i for i in hints['ints'] if isinstance(i, int) and abs(i) < 1 << 64})[:300]
    json.dump({'ints': [str(i) for i in ints]}, open(hp, 'w'))
    scratch = os.path.join(tmp, 'scratch')
    os.makedirs(scratch, exist_ok=True)
    secs = int(os.environ.get("ZZSECS", 25)) if tier == 'quick' else 90
    cmd = '. /opt/vp/env.sh >/dev/null 2>&1; cd %s && go test -vet=off -count=1 -timeout %ds -overlay %s -run "^%s$" ./%s' % (repo, secs + 60, ovp, test, pkg)
    env = dict(os.environ, VERIF_HINTS=hp, VERIF_SEED=str(seed), VERIF_SECS=str(secs), TMPDIR=scratch, VERIF_SCRATCH=scratch)
    try:
        p = subprocess.run(['bash', '-c', cmd], capture_output=True, text=True, timeout=secs + 150, env=env)
        out = p.stdout + p.stderr
    except subprocess.TimeoutExpired as e:
        out = 'replay timed out'
    inp = None
    for ln in out.split('\n'):
        i = ln.find('REPLAY-FAIL ')
        if i >= 0:
            inp = ln[i + 12:].strip()
            break
    return inp, '$ %s\n%s' % (cmd, out[-4000:])
