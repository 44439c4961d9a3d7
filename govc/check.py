"""Decide one property: export the SSA of /repo's working tree, generate the obligations of every function under
contract that the property depends on, discharge them, and on failure look for a failing input on the real code."""
import sys, os, json, time, subprocess, multiprocessing, signal, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')


def sh(cmd, **kw):
    return subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; ' + cmd], capture_output=True, text=True, **kw)


def ensure_tools():
    exe = os.path.join(BUILD, 'ssaexport')
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        r = sh('cd %s/tools/ssaexport && go build -o %s .' % (VERIF, exe))
        if r.returncode != 0:
            print(r.stdout + r.stderr)
            sys.exit(3)
    return exe


def export(out):
    exe = ensure_tools()
    r = sh('%s -dir %s -out %s -inst %s/internal/helpers/zz_inst.go=%s/contracts/inst/helpers.go' % (exe, REPO, out, REPO, VERIF))
    return r


def worker(conn, beat, prog, specs, fn, variant, opts):
    if os.environ.get("GOVC_TB"):
        import faulthandler
        faulthandler.dump_traceback_later(int(os.environ["GOVC_TB"]))
    import exec as X
    import z3
    from solve import STATS
    z3.set_param('memory_max_size', 6000)
    check0 = z3.Solver.check

    def check(self, *a):
        # the parent restarts the function when a query ignores its time limit
        beat.value = time.time()
        try:
            return check0(self, *a)
        finally:
            beat.value = 0
    z3.Solver.check = check
    t = time.time()
    ex = X.Exec(prog, specs, variant, opts)
    ex.deadline = time.time() + opts['budget']
    err = None
    try:
        if fn.startswith('lemma:'):
            ex.verify_lemma(fn[6:])
        else:
            ex.verify(fn, specs.contracts[fn])
    except X.Abort as e:
        err = 'abort: %s' % e
    except X.Unsupported as e:
        err = 'out of reach: %s' % e
    except Exception as e:
        import traceback
        err = 'internal: %s %s' % (e, traceback.format_exc()[-1500:])
    obls = []
    for o in ex.obls:
        obls.append({'name': o.name, 'status': o.status, 'time': round(o.time, 3), 'backend': o.backend, 'text': o.text,
                     'path': [list(map(str, x)) for x in (o.pos or ())][-30:], 'detail': o.detail if o.status != 'proved' else '',
                     'hints': getattr(o, 'hints', {}) if o.status != 'proved' else {}})
    conn.send({'fn': fn, 'variant': variant, 'err': err, 'obls': obls, 'called': sorted(ex.called) + ['lemma:' + u for u in sorted(ex.lemmas_used)], 'inlined': sorted(ex.inlined),
               'externs': sorted(ex.externs_used), 'assumptions': sorted(ex.assumptions), 'axioms': sorted(set(ex.axioms_used)),
               'time': time.time() - t, 'queries': STATS['queries'], 'solver_time': STATS['time']})
    conn.close()


def stuck(opts):
    return opts.get('timeout', 8000) / 1000 + 12


def run_all(prog, specs, tasks, jobs, hard, log, elsewhere=()):
    """tasks: list of (fn, variant, opts); yields results, discovering callees"""
    done = {}
    queue = list(tasks)
    seen = {(f, v) for f, v, _ in tasks}
    running = []
    results = []
    while queue or running:
        while queue and len(running) < jobs:
            fn, variant, opts = queue.pop(0)
            a, b = multiprocessing.Pipe(False)
            beat = multiprocessing.Value('d', 0.0)
            p = multiprocessing.Process(target=worker, args=(b, beat, prog, specs, fn, variant, opts))
            p.start()
            b.close()
            opts.setdefault('t0', time.time())
            running.append((p, (a, beat), fn, variant, opts, opts['t0']))
        time.sleep(0.02)
        still = []
        for p, ab, fn, variant, opts, t0 in running:
            a, beat = ab
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = None
                p.join(5)
                if r is None:
                    r = {'fn': fn, 'variant': variant, 'err': 'worker died', 'obls': [], 'called': [], 'inlined': [], 'externs': [], 'assumptions': [], 'axioms': [], 'time': time.time() - t0, 'queries': 0, 'solver_time': 0}
            elif 0 < beat.value < time.time() - stuck(opts) and opts.get('restarts', 0) < 3:
                p.kill()
                p.join()
                n = opts.get('restarts', 0) + 1
                log('%s: a query ignores its time limit, restarting with another seed' % fn)
                queue.insert(0, (fn, variant, dict(opts, restarts=n, seed=opts.get('seed', 0) + 10 + n)))
                continue
            elif time.time() - t0 > opts['budget'] + hard:
                p.kill()
                p.join()
                r = {'fn': fn, 'variant': variant, 'err': 'time limit', 'obls': [], 'called': [], 'inlined': [], 'externs': [], 'assumptions': [], 'axioms': [], 'time': time.time() - t0, 'queries': 0, 'solver_time': 0}
            elif not p.is_alive() and not a.poll():
                r = {'fn': fn, 'variant': variant, 'err': 'worker died', 'obls': [], 'called': [], 'inlined': [], 'externs': [], 'assumptions': [], 'axioms': [], 'time': time.time() - t0, 'queries': 0, 'solver_time': 0}
            if r is None:
                still.append((p, ab, fn, variant, opts, t0))
                continue
            r['opts'] = opts
            results.append(r)
            log('%-70s %s %d/%d %.1fs %s' % (fn.replace('recengine/internal/', ''), variant, sum(o['status'] == 'proved' for o in r['obls']), len(r['obls']), r['time'], r['err'] or ''))
            for c in r['called']:
                if (c, variant) not in seen and (c.startswith('lemma:') or c in specs.contracts and not specs.contracts[c].trusted and not any(x in c for x in elsewhere)):
                    seen.add((c, variant))
                    queue.append((c, variant, {k: v for k, v in opts.items() if k not in ('t0', 'restarts')}))
        running = still
    return results


def failed(r):
    return r['err'] is not None or any(o['status'] != 'proved' for o in r['obls'])


def main():
    import props
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    verbose = '-v' in sys.argv
    cfg = props.PROPS[pid]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    repdir = os.path.join(evdir, 'replay')
    os.makedirs(repdir, exist_ok=True)

    def log(s):
        if verbose:
            print(s, flush=True)
    try:
        out = os.path.join(tmp, 'ssa.json')
        r = export(out)
        if r.returncode != 0 or not os.path.exists(out):
            finish(pid, cfg, tier, seed, t0, [], [{'fn': 'source', 'variant': pid, 'obls': [], 'err': 'the source does not load: ' + (r.stdout + r.stderr)[-2000:]}], [], repdir, tmp, None, log)
            return
        from prog import Prog
        from spec import Specs
        prog = Prog(out)
        specs = Specs()
        specs.load_dir(os.path.join(VERIF, 'contracts'))
        missing, tasks = [], []
        only = [a[5:] for a in sys.argv if a.startswith('--fn=')]
        for variant, vopts in cfg.get('variants', [(pid, {})]):
            roots = [fn for fn, c in specs.contracts.items() if any(pid in cl.labels or variant in cl.labels for cl in c.ensures + c.always + c.modifies + c.opens + c.routes)]
            for fn in roots:
                c = specs.contracts[fn]
                if only and not any(o in fn for o in only):
                    continue
                if c.trusted or not any(x in fn for x in cfg.get('roots', [''])):
                    continue
                if fn not in prog.funcs:
                    nm = c.shown.split('.')[-1]
                    if nm[0].isupper():
                        missing.append(fn)
                    continue
                o = {'budget': 150 if tier == 'quick' else 400, 'timeout': 8000 if tier == 'quick' else 30000}
                o.update({k: cfg[k] for k in ('strings', 'elsewhere', 'sendlog') if k in cfg})
                o.update(vopts)
                tasks.append((fn, variant, o))
            for ln, l in specs.lemmas.items():
                if pid in l[3] and not only:
                    tasks.append(('lemma:' + ln, variant, dict({'budget': 100, 'timeout': 10000}, **vopts)))
        results = run_all(prog, specs, tasks, 8, 60, log, cfg.get('elsewhere', ()))
        bad = [r for r in results if failed(r)]
        found = None
        if bad:
            # a failing input on the real code settles it
            found = attempt(pid, cfg, seed, tier, tmp, bad)
        if bad and not found[0] and time.time() - t0 < 380:
            # once more, alone and with more time: an obligation that only lacked time is no violation
            again = []
            for r in bad:
                if r['err'] and r['err'].startswith('out of reach'):
                    continue
                o = dict(r['opts'])
                o.pop('t0', None)
                o.update({'budget': 200, 'timeout': 20000, 'maxfail': 3, 'seed': 1})
                again.append((r['fn'], r['variant'], o))
            log('retry')
            res2 = run_all(prog, NoDiscover(specs), again, 6, 60, log, cfg.get('elsewhere', ())) if again else []
            m = {(r['fn'], r['variant']): r for r in res2}
            results = [m.get((r['fn'], r['variant']), r) for r in results]
            have = {(r['fn'], r['variant']) for r in results}
            results += [r for r in res2 if (r['fn'], r['variant']) not in have]
            bad = [r for r in results if failed(r)]
        for fn in missing:
            bad.append({'fn': fn, 'variant': pid, 'obls': [], 'err': 'function under contract is missing from the source'})
        if found and not found[0] and bad and time.time() - t0 < 500:
            found = None
        finish(pid, cfg, tier, seed, t0, results, bad, tasks, repdir, tmp, specs, log, found)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class NoDiscover:
    """same contracts, used for the second attempt"""

    def __init__(self, sp):
        self.__dict__ = sp.__dict__


def match_known(pid, r, o, known):
    for k in known:
        if k['property'] == pid and k['function'] in r['fn'] and k['obligation'] == (o['name'] if o else r['err']):
            return k
    return None


def hints_of(bad):
    hints = {'ints': [], 'models': []}
    for r in bad:
        for o in r['obls']:
            if o['status'] != 'proved' and o['hints']:
                hints['ints'] += o['hints'].get('ints', [])
                hints['models'].append({k: v for k, v in o['hints'].items() if k != 'ints'})
    return hints


def attempt(pid, cfg, seed, tier, tmp, bad):
    import replay
    return replay.run(VERIF, REPO, pid, cfg, hints_of(bad), seed, tier, tmp, [r['fn'] for r in bad])


def finish(pid, cfg, tier, seed, t0, results, bad, tasks, repdir, tmp, specs, log, found=None):
    import props
    obls = sum(len(r['obls']) for r in results)
    ok = sum(o['status'] == 'proved' for r in results for o in r['obls'])
    backends, axioms, assume, externs, inl, fns = {}, set(), set(), set(), set(), set()
    for r in results:
        fns.add(r['fn'])
        axioms.update(r['axioms'])
        assume.update(r['assumptions'])
        externs.update(r['externs'])
        inl.update(r['inlined'])
        for o in r['obls']:
            if o['status'] == 'proved':
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
    known = props.known_findings(VERIF)
    violations = []
    for r in bad:
        fo = [o for o in r['obls'] if o['status'] != 'proved']
        rest = [o for o in fo if not match_known(pid, r, o, known)]
        for o in fo:
            k = match_known(pid, r, o, known)
            if k and not rest:
                print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        if rest or (r['err'] and not fo) or not fo:
            violations.append((r, rest))
    rc = 0
    if violations:
        rc = 1
        path = os.path.join(repdir, '%s.txt' % pid)
        inp = None
        txt = ['property %s: obligations the verifier does not accept' % pid, '']
        for r, rest in violations:
            txt.append('function %s (%s): %s' % (r['fn'], r['variant'], r['err'] or ''))
            for o in rest:
                txt.append('  obligation: %s   [%s]' % (o['name'], o['status']))
                if o['text']:
                    txt.append('    clause: %s' % o['text'])
                txt.append('    path: %s' % o['path'])
                txt.append('    goal and verifier output: %s' % json.dumps(o['detail'])[:3000])
                if o['hints']:
                    txt.append('    counterexample candidate: %s' % json.dumps(o['hints'])[:2000])
            txt.append('')
        for r in violations[:6]:
            for o in (r[1] or [{'name': r[0]['err']}])[:3]:
                print('failed obligation: %s in %s' % (str(o['name'])[:300], r[0]['fn']))
        inp, rlog = found or attempt(pid, cfg, seed + 1, tier, tmp, [r for r, _ in violations])
        txt.append('replay against the real code:')
        txt.append(rlog)
        if inp:
            txt.append('FAILING INPUT: %s' % inp)
        open(path, 'w').write('\n'.join(txt) + '\n')
        if inp:
            print('failing input: %s' % inp[:1000])
            print('VIOLATION property=%s replay=%s' % (pid, path))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    wall = time.time() - t0
    trusted = ['z3 %s and cvc5 1.1.2 (solvers)' % '4', 'golang.org/x/tools/go/ssa and go/types (front end)', 'govc (SSA semantics, VC generation; /verif/govc)']
    trusted += ['external model: ' + e for e in sorted(externs)]
    trusted += ['axiom of a ghost function (definition): ' + a for a in sorted(axioms)]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {'obligations': obls, 'discharged': ok, 'checker_cmd': 'python3-vt govc/check.py %s' % pid, 'trusted_base': trusted,
                       'functions_under_contract': sorted(fns), 'functions_inlined_into_them': sorted(inl), 'discharged_by': backends,
                       'solver_seconds': round(sum(r['solver_time'] for r in results), 1), 'solver_queries': sum(r['queries'] for r in results),
                       'samples': ['%s: %s' % (r['fn'], o['name'] + (' := ' + o['text'] if o['text'] else '')) for r in results for o in r['obls'][-1:]][:12],
                       'exhaustive': False},
          'assumptions': sorted(assume) + cfg.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': len(violations)}
    if obls == 0:
        ev['coverage']['explanation'] = 'no obligation could be generated'
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d of %d obligations discharged in %d functions, %.1fs' % (pid, ok, obls, len(fns), wall))
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
