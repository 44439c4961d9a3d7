"""Solver access: incremental contexts, obligation discharge with fallbacks."""
import z3, subprocess, tempfile, os, time

STATS = {'queries': 0, 'time': 0.0, 'backend': {}}


class Inc:
    def __init__(self, timeout, rlimit=0, **params):
        self.s = z3.Solver()
        # the resource limit decides (it does not depend on the machine's load); the timeout is a safety net
        self.s.set('timeout', timeout)
        if rlimit:
            self.s.set('rlimit', rlimit)
        for k, v in params.items():
            self.s.set(k, v)
        self.stack = []

    def sync(self, pc):
        n = 0
        m = min(len(pc), len(self.stack))
        while n < m and pc[n] is self.stack[n]:
            n += 1
        if len(self.stack) > n:
            self.s.pop(len(self.stack) - n)
            del self.stack[n:]
        for f in pc[n:]:
            self.s.push()
            self.s.add(f)
            self.stack.append(f)

    def check(self, pc, extra):
        self.sync(pc)
        t = time.time()
        try:
            r = self.s.check(*extra)
        except z3.Z3Exception:  # the solver gave up ('reached max unfolding'): start afresh
            self.s.reset()
            self.stack = []
            r = z3.unknown
        STATS['queries'] += 1
        STATS['time'] += time.time() - t
        return r


def split_goal(g):
    """split a goal into conjuncts (through implications)"""
    if z3.is_and(g):
        out = []
        for c in g.children():
            out += split_goal(c)
        return out
    if z3.is_implies(g):
        a, b = g.children()
        bs = split_goal(b)
        if len(bs) > 1:
            return [z3.Implies(a, x) for x in bs]
    if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_ITE and z3.is_bool(g):
        c, a, b = g.children()
        return [z3.Implies(c, x) for x in split_goal(a)] + [z3.Implies(z3.Not(c), x) for x in split_goal(b)]
    if z3.is_eq(g) and z3.is_bool(g.children()[0]):
        a, b = g.children()
        return [z3.Implies(a, x) for x in split_goal(b)] + [z3.Implies(b, x) for x in split_goal(a)]
    if z3.is_quantifier(g) and g.is_forall():
        _, body = skolemize(g, peel=True)
        bs = split_goal(body)
        if len(bs) > 1:
            return bs
    return [g]


def skolemize(g, cnt=[0], peel=False):
    """strip universal quantifiers and implications of a goal: returns (hyps, goal)"""
    hyps = []
    while True:
        if z3.is_quantifier(g) and g.is_forall():
            vs = []
            for i in range(g.num_vars()):
                cnt[0] += 1
                vs.append(z3.Const('sk_%s!%d' % (g.var_name(i), cnt[0]), g.var_sort(i)))
            g = z3.substitute_vars(g.body(), *reversed(vs))
            continue
        if z3.is_implies(g) and not peel:
            a, g = g.children()
            hyps.append(a)
            continue
        return hyps, g


def cvc5_check(pc, timeout):
    s = z3.Solver()
    s.add(*pc)
    txt = s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + txt)
        name = f.name
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % timeout, name], capture_output=True, text=True, timeout=timeout / 1000 + 5)
        r = p.stdout.strip().split('\n')[0] if p.stdout else 'unknown'
    except Exception:
        r = 'unknown'
    finally:
        os.unlink(name)
    return r
