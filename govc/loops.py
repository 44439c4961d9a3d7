"""Loops: unrolling when the trip count is concrete, otherwise an inductive invariant found by Houdini over
template candidates and the candidates of the contract, followed by one proof run of the body."""
import z3, itertools, time, os, sys
from values import *
from specctx import SpecCtx, Node_ids
import exec as exmod

MAXUNROLL = 70


class LoopRec:
    """an active loop of a frame"""
    ignore_exits = False

    def __init__(self, count=0):
        self.count = count

    def backedge(self, fr, prev, st):
        raise NotImplementedError


class Unroll(LoopRec):
    def __init__(self, ex, bi, count):
        self.ex, self.bi, self.count = ex, bi, count

    def backedge(self, fr, prev, st):
        # re-evaluate the header with the new values
        fr = fr.copy()
        c = self.count + 1
        del fr.loops[self.bi]
        enter_loop(self.ex, fr, self.bi, prev, st, c)


class Collect(LoopRec):
    """Houdini round: gather the states of all back edges"""
    ignore_exits = True

    def __init__(self):
        self.edges = []

    def backedge(self, fr, prev, st):
        self.edges.append((fr, prev, st))


class Final(LoopRec):
    ignore_exits = False

    def __init__(self, lp):
        self.lp = lp

    def backedge(self, fr, prev, st):
        return


def peek_literal(ex, fr, bi, prev, st):
    """value of the header's branch condition when it is decided by constants alone"""
    b = fr.f['blocks'][bi]
    f2 = fr.copy()
    s2 = st.copy()
    n = len(s2.pc)
    ex.phis(f2, b, prev, s2)
    for ins in b['instrs'][ex.first_nonphi(b):]:
        op = ins['op']
        if op == 'If':
            c = z3.simplify(ex.val(f2, ins['cond'], s2))
            if z3.is_true(c):
                return True
            if z3.is_false(c):
                return False
            return None
        if op == 'BinOp':
            if ins['tok'] in ('/', '%', '<<', '>>'):
                return None
            v = ex.op_BinOp(f2, ins, s2)
        elif op == 'Call' and ins['call']['mode'] == 'call' and ins['call']['fn'].get('k') == 'builtin' and ins['call']['fn']['n'] == 'len':
            a = ins['call']['args'][0]
            v = ex.val(f2, a, s2)
            k = ex.p.kind(a['t'])
            if k == 'slice':
                v = v.len
            elif k == 'array':
                v = z3.IntVal(ex.p.t(a['t'])['len'])
            else:
                return None
        elif op in ('Convert', 'ChangeType', 'Extract', 'DebugRef'):
            v = getattr(ex, 'op_' + op)(f2, ins, s2)
        elif op == 'UnOp' and ins['tok'] == '*' and ins['x']['k'] == 'reg' and False:
            return None
        elif op == 'Next':
            it = f2.regs[ins['iter']['n']]
            if it.kind == 'map':
                return None
            return None
        else:
            return None
        if 'name' in ins and v is not None:
            f2.regs[ins['name']] = v
    return None


def enter_loop(ex, fr, bi, prev, st, count=0):
    b = fr.f['blocks'][bi]
    lit = peek_literal(ex, fr, bi, prev, st)
    if lit is not None and count <= MAXUNROLL:
        fr = fr.copy()
        ex.phis(fr, b, prev, st)
        fr.loops[bi] = Unroll(ex, bi, count)
        return ex.run_instrs(fr, bi, ex.first_nonphi(b), st)
    Loop(ex, fr, bi, prev, st).run()


class Cand:
    __slots__ = ('text', 'fn', 'src', 'names')

    def __init__(self, text, fn, src, names=()):
        # fn(loop, frame, state) -> z3 Bool (or None when it does not apply)
        self.text, self.fn, self.src, self.names = text, fn, src, names


class Loop:
    def __init__(self, ex, fr, bi, prev, st):
        self.ex, self.fr, self.bi, self.prev, self.st0 = ex, fr.copy(), bi, prev, st.copy()
        self.body = ex.p.loops(fr.fn)[bi]
        self.b = fr.f['blocks'][bi]
        self.key = (fr.stack, bi, st.trace, ex.loopkey_extra(fr))
        self.mods = {}          # heap key -> list of classes: ('ref', term) | ('fresh',) | ('any',)
        self.offs = set()       # slice phis whose offset varies

    # ------------------------------------------------------------ preparation
    def prepare(self):
        ex = self.ex
        ex.ext.settle_streams(ex, self.fr, self.st0)
        # initial phi values
        self.fr0 = self.fr.copy()
        ex.phis(self.fr0, self.b, self.prev, self.st0)
        self.phis = []
        for ins in self.b['instrs']:
            if ins['op'] != 'Phi':
                break
            self.phis.append((ins['name'], ins['type']))
        self.init = {n: self.fr0.regs[n] for n, _ in self.phis}
        # ghost: number of completed iterations
        self.kname = '$k:%d' % self.bi
        self.fr0.regs[self.kname] = z3.IntVal(0)
        # range iterators advanced in the body
        self.iters = []
        for x in self.body:
            for ins in self.fr.f['blocks'][x]['instrs']:
                if ins['op'] == 'Next':
                    n = ins['iter']['n']
                    if n in self.fr0.regs and isinstance(self.fr0.regs[n], RangeIter) and n not in self.iters:
                        # the Range instruction itself is outside the loop
                        if not any(i2.get('name') == n for y in self.body for i2 in self.fr.f['blocks'][y]['instrs']):
                            self.iters.append(n)
        self.serial0 = ex.serial
        self.epoch0 = self.st0.epoch
        cached = ex.modcache.get(self.key)
        if cached:
            # references made in an earlier round of an enclosing loop mean nothing here
            lim = ex.__dict__.get('outer_serial')
            stale = lambda c: c[0] == 'ref' and lim is not None and ex.maxserial(c[1]) > lim
            self.mods, self.offs = {k: [c for c in v if not stale(c)] for k, v in cached[0].items()}, set(cached[1])
            self.mods = {k: v for k, v in self.mods.items() if v}

    def head(self, quietcopy=True):
        """abstract state at the loop head"""
        ex = self.ex
        st = self.st0.copy()
        fr = self.fr0.copy()
        self.hav = {}
        for n, T in self.phis:
            v0 = self.init[n]
            if isinstance(v0, (LPtr, Clo, Regex)):
                fr.regs[n] = v0
                continue
            v = ex.havoc_value(st, T, 'lp_' + n)
            if isinstance(v, Slice):
                if n in self.offs:
                    o = ex.fresh('off')
                    ex.fact(st, z3.And(o >= 0, o <= exmod.MAXLEN))
                    v = Slice(v.arr, o, v.len, v.cap)
                else:
                    v = Slice(v.arr, v0.off, v.len, v.cap)
            fr.regs[n] = v
        k = ex.fresh('k')
        ex.fact(st, k >= 0)
        fr.regs[self.kname] = k
        for n in self.iters:
            it = fr.regs[n]
            p = ex.fresh('iter')
            ex.fact(st, z3.And(p >= it.it, p <= it.n))
            fr.regs[n] = RangeIter(kind=it.kind, map=it.map, mtype=it.mtype, n=it.n, ord=it.ord, inv=it.inv, id=it.id, dom=it.dom, it=p)
        # allocation
        a1 = ex.fresh('A')
        ex.fact(st, a1 >= st.alloc)
        allocs = any(any(c[0] == 'fresh' for c in cl) for cl in self.mods.values()) or True
        st.alloc = a1
        st.epoch += 1
        e_prev = st.epoch - 1
        for key, classes in self.mods.items():
            old = ex.hget(st, key)
            if any(c[0] == 'any' for c in classes):
                st.heap[key] = ex.fresh('lh_' + hname(key), ex.keysort(key))
                st.writes.append((key, None))
                continue
            cur = old
            if any(c[0] == 'fresh' for c in classes):
                N = ex.fresh('lh_' + hname(key), ex.keysort(key))
                r = z3.Int('r')
                ex.fact(st, z3.ForAll([r], z3.Implies(r < self.st0.alloc, z3.Select(N, r) == z3.Select(old, r)), patterns=[z3.Select(N, r)]))
                st.inherit[N.get_id()] = (old, e_prev)
                ex.keep.append(N)
                cur = N
                fr_ref = ex.fresh('fw')
                st.age[fr_ref.get_id()] = ('fresh', st.epoch)
                ex.fact(st, fr_ref >= self.st0.alloc)
                st.writes.append((key, fr_ref))
            for c in classes:
                if c[0] == 'ref':
                    v = ex.fresh('lv_' + hname(key), ex.keysort(key).range())
                    if z3.is_array(v):
                        ex.arr_range(st, key, v)
                    elif key[0] == 'F' and key[3] == '' and key[-1] == I:
                        lt = [x['type'] for x in ex.p.fields(key[1]) if x['name'] == key[2]][0]
                        if ex.p.kind(lt) == 'int':
                            ex.typefacts(st, v, lt)
                    elif key[0] == 'C' and key[2] == '' and key[-1] == I and ex.p.kind(key[1]) == 'int':
                        ex.typefacts(st, v, key[1])
                    ex.ext.havoc_fact(ex, st, key, v)
                    cur = z3.Store(cur, c[1], v)
                    st.writes.append((key, c[1]))
            st.heap[key] = cur
        if any(k[0] == 'S' for k in self.mods):
            nio = ex.fresh('io_failed', B)
            ex.fact(st, z3.Implies(st.io, nio))
            st.io = nio
        self.nw = len(st.writes)
        return fr, st

    def classify(self, key, ref, st):
        """class of a written reference relative to the loop head"""
        ex = self.ex
        if ref is None:
            return ('any',)
        if ex.maxserial(ref) <= self.serial0:
            return ('ref', ref)
        ag = st.age.get(ref.get_id())
        if ag and ag[0] == 'fresh' and ag[1] > self.epoch0 + 1:
            return ('fresh',)
        return ('any',)

    # ------------------------------------------------------------ candidates
    def atoms(self, fr):
        """integer atoms: name -> term"""
        out = {}
        for n, T in self.phis:
            if self.ex.p.kind(T) == 'int':
                out[n] = fr.regs[n]
        for n in self.iters:
            out['$iter:' + n] = fr.regs[n].it
        return out

    def const_terms(self):
        """loop invariant integer terms worth comparing against"""
        ex = self.ex
        out = [('0', z3.IntVal(0)), ('-1', z3.IntVal(-1)), ('1', z3.IntVal(1))]
        seen = set()

        def add(name, t):
            t = z3.simplify(t)
            if z3.is_int_value(t) and t.as_long() in (0, -1, 1):
                return
            if t.get_id() not in seen:
                seen.add(t.get_id())
                out.append((name, t))
        for n, T in self.phis:
            if ex.p.kind(T) == 'int':
                add('init ' + n, self.init[n])
        inside = {i.get('name') for x in self.body for i in self.fr.f['blocks'][x]['instrs']}
        # every integer or slice compared or indexed in the loop
        for x in self.body:
            for ins in self.fr.f['blocks'][x]['instrs']:
                if ins['op'] == 'BinOp':
                    ops = [ins['x'], ins['y']]
                elif ins['op'] in ('IndexAddr', 'Slice', 'Index'):
                    ops = [ins['x']]
                elif ins['op'] == 'Call':
                    ops = list(ins['call']['args'])
                else:
                    continue
                for o in ops:
                    if o is None or o['k'] not in ('reg', 'param', 'freevar') or o['n'] in inside or o['n'] not in self.fr0.regs:
                        continue
                    v = self.fr0.regs[o['n']]
                    if isinstance(v, Slice):
                        add('len ' + o['n'], v.len)
                    elif isinstance(v, z3.ArithRef) and v.sort() == I and ex.p.kind(o['t']) == 'int':
                        add(o['n'], v)
        return out[:9]

    def candidates(self):
        ex = self.ex
        cs = []
        at = list(self.atoms(self.fr0))
        consts = self.const_terms()

        def A(f, n):
            return self.atoms(f)[n]
        for n in at:
            if n.startswith('$iter'):
                continue
            for cn, c in consts:
                cs.append(Cand('%s >= %s' % (n, cn), lambda f, s, n=n, c=c: A(f, n) >= c, 'gen'))
                cs.append(Cand('%s <= %s' % (n, cn), lambda f, s, n=n, c=c: A(f, n) <= c, 'gen'))
                cs.append(Cand('%s < %s' % (n, cn), lambda f, s, n=n, c=c: A(f, n) < c, 'gen'))
        for n in at:
            i0 = self.atoms(self.fr0)[n]
            cs.append(Cand('%s counts iterations' % n, lambda f, s, n=n, i0=i0: A(f, n) == i0 + f.regs[self.kname], 'gen'))
            cs.append(Cand('%s counts down' % n, lambda f, s, n=n, i0=i0: A(f, n) == i0 - f.regs[self.kname], 'gen'))
        for n, m in itertools.combinations(at, 2):
            cs.append(Cand('%s <= %s' % (n, m), lambda f, s, n=n, m=m: A(f, n) <= A(f, m), 'gen'))
            cs.append(Cand('%s >= %s' % (n, m), lambda f, s, n=n, m=m: A(f, n) >= A(f, m), 'gen'))
            cs.append(Cand('%s != %s' % (n, m), lambda f, s, n=n, m=m: A(f, n) != A(f, m), 'gen'))
            i0, j0 = self.atoms(self.fr0)[n], self.atoms(self.fr0)[m]
            cs.append(Cand('%s - %s const' % (n, m), lambda f, s, n=n, m=m, i0=i0, j0=j0: A(f, n) - A(f, m) == i0 - j0, 'gen'))
            cs.append(Cand('%s + %s const' % (n, m), lambda f, s, n=n, m=m, i0=i0, j0=j0: A(f, n) + A(f, m) == i0 + j0, 'gen'))
        def hd(f, s):
            try:
                return self.header_distance(f, s) >= 0
            except (Unsupported, KeyError):
                return None
        cs.append(Cand('the header comparison is at most reached', hd, 'gen'))
        for n, T in self.phis:
            k = ex.p.kind(T)
            v0 = self.init[n]
            if k == 'slice':
                cs.append(Cand('%s.arr same' % n, lambda f, s, n=n, v0=v0: f.regs[n].arr == v0.arr, 'gen'))
                cs.append(Cand('%s.arr new or same' % n, lambda f, s, n=n, v0=v0: z3.Or(f.regs[n].arr == v0.arr, f.regs[n].arr >= self.st0.alloc), 'gen'))
                cs.append(Cand('%s.arr newer than the function' % n, lambda f, s, n=n: f.regs[n].arr >= ex.alloc0, 'gen'))
                cs.append(Cand('%s.len same' % n, lambda f, s, n=n, v0=v0: f.regs[n].len == v0.len, 'gen'))
                cs.append(Cand('%s.cap same' % n, lambda f, s, n=n, v0=v0: f.regs[n].cap == v0.cap, 'gen'))
                for m in at:
                    i0 = self.atoms(self.fr0)[m]
                    cs.append(Cand('%s.len counts %s' % (n, m), lambda f, s, n=n, m=m, v0=v0, i0=i0: f.regs[n].len == v0.len + A(f, m) - i0, 'gen'))
                    cs.append(Cand('%s.len <= %s' % (n, m), lambda f, s, n=n, m=m: f.regs[n].len <= A(f, m), 'gen'))
                    cs.append(Cand('%s <= %s.len' % (n, m), lambda f, s, n=n, m=m: A(f, m) <= f.regs[n].len, 'gen'))
                if n in self.offs:
                    cs.append(Cand('%s.off+len same' % n, lambda f, s, n=n, v0=v0: f.regs[n].off + f.regs[n].len == v0.off + v0.len, 'gen'))
            elif k == 'interface':
                cs.append(Cand('%s == init' % n, lambda f, s, n=n, v0=v0: z3.And(f.regs[n].tag == v0.tag, f.regs[n].val == v0.val), 'gen'))
                cs.append(Cand('%s is nil' % n, lambda f, s, n=n: f.regs[n].tag == 0, 'gen'))
            elif k in ('pointer', 'map', 'chan', 'bool', 'string', 'float') and isinstance(v0, z3.ExprRef):
                cs.append(Cand('%s == init' % n, lambda f, s, n=n, v0=v0: f.regs[n] == v0, 'gen'))
        # local integer cells and fields written in the loop
        for key, classes in self.mods.items():
            if any(c[0] == 'any' for c in classes):
                old = ex.hget(self.st0, key)
                a0 = self.st0.alloc
                cs.append(Cand('old objects unchanged %s' % hname(key), lambda f, s, key=key, old=old, a0=a0: same_below(ex, s, key, old, a0), 'gen'))
                if ex.alloc0 is not None and not a0.eq(ex.alloc0):
                    cs.append(Cand('objects older than the function unchanged %s' % hname(key), lambda f, s, key=key, old=old: same_below(ex, s, key, old, ex.alloc0), 'gen'))
            for c in classes:
                if c[0] == 'ref' and ex.keysort(key).range() == I:
                    v0 = ex.hread(self.st0, key, c[1])
                    cs.append(Cand('%s >= 0' % hname(key), lambda f, s, key=key, c=c: ex.hread(s, key, c[1]) >= 0, 'gen'))
                    cs.append(Cand('%s same' % hname(key), lambda f, s, key=key, c=c, v0=v0: ex.hread(s, key, c[1]) == v0, 'gen'))
                    cs.append(Cand('%s grows' % hname(key), lambda f, s, key=key, c=c, v0=v0: ex.hread(s, key, c[1]) >= v0, 'gen'))
                    for m in at:
                        i0 = self.atoms(self.fr0)[m]
                        cs.append(Cand('%s counts %s' % (hname(key), m), lambda f, s, key=key, c=c, v0=v0, m=m, i0=i0: ex.hread(s, key, c[1]) == v0 + A(f, m) - i0, 'gen'))
        cs += ex.ext.loop_candidates(self)
        cs += self.contract_candidates()
        return cs

    def contract_candidates(self):
        ex = self.ex
        out = []
        invs = []
        for fn in reversed(self.fr.stack):
            con = ex.sp.contracts.get(fn)
            if con is not None:
                invs = [(con, c) for c in con.invariants if c.active(ex.prop)]
                if invs:
                    break
        names = list(self.atoms(self.fr0))
        slices = [n for n, T in self.phis if ex.p.kind(T) == 'slice']
        others = [n for n, T in self.phis if ex.p.kind(T) in ('interface', 'pointer', 'float', 'string', 'bool')]
        # slice locals living outside the loop (loop invariant) may be named by $s as well
        inside = {i.get('name') for x in self.body for i in self.fr.f['blocks'][x]['instrs']}
        types = reg_types(self.fr.f)
        outer = [n for n, v in self.fr0.regs.items() if isinstance(v, Slice) and n not in inside and n not in slices]
        ints = [n for n, v in self.fr0.regs.items() if isinstance(v, z3.ArithRef) and v.sort() == I and n not in inside and n not in names and n in types and ex.p.kind(types[n]) == 'int' and not z3.is_int_value(v)]
        ptrs = [n for n, v in self.fr0.regs.items() if isinstance(v, z3.ArithRef) and n not in inside and n in types and ex.p.kind(types[n]) == 'pointer' and not ex.p.is_opaque(ex.p.elem(types[n])) and ex.p.kind(ex.p.elem(types[n])) == 'struct']
        streams = [n for n, v in self.fr0.regs.items() if n not in inside and n in types and types[n] in STREAM_TYPES]
        # the map iteration this loop is nested in: it has already advanced to the current key
        oiters = [n for n, v in self.fr0.regs.items() if isinstance(v, RangeIter) and n not in self.iters and any(
            self.bi in body and n in {i['iter']['n'] for x in body for i in self.fr.f['blocks'][x]['instrs'] if i['op'] == 'Next'}
            for h, body in ex.p.loops(self.fr.fn).items() if h != self.bi)][-1:] or [None]
        # inlined in a function with a contract: what the callers hold, named ^depth:register
        self.up, self.uptypes = {}, {}
        fr, d = self.fr.caller, 1
        while fr is not None:
            ts = reg_types(fr.f)
            for n, v in fr.regs.items():
                self.up['^%d:%s' % (d, n)] = v
                if n in ts:
                    self.uptypes['^%d:%s' % (d, n)] = ts[n]
            if oiters == [None] and fr.loops:
                lps = ex.p.loops(fr.fn)
                for h in sorted(fr.loops, key=lambda h: len(lps[h])):
                    its = [i['iter']['n'] for x in lps[h] for i in fr.f['blocks'][x]['instrs'] if i['op'] == 'Next' and isinstance(fr.regs.get(i['iter']['n']), RangeIter)]
                    if its:
                        oiters = ['^%d:%s' % (d, its[0])]
                        break
            streams += ['^%d:%s' % (d, n) for n in fr.regs if ts.get(n) in STREAM_TYPES]
            fr, d = fr.caller, d + 1
        for con, c in invs:
            metas = sorted({i for i in Node_ids(c.expr) if i.startswith('$')})
            pools = []
            for m in metas:
                if m == '$k':
                    pools.append([self.kname])
                elif m in ('$iter', '$n'):
                    pools.append(self.iters[:1] or [None])
                elif m in ('$ord', '$inv', '$dom'):
                    pools.append(self.iters[:1] or [None])
                elif m in ('$oiter', '$oord', '$oinv'):
                    pools.append(oiters)
                elif m.startswith('$s'):
                    pools.append(slices + outer)
                elif m.startswith('$f'):
                    pools.append([n for n, T in self.phis if ex.p.kind(T) == 'float'])
                elif m.startswith('$b'):
                    pools.append([n for n, T in self.phis if ex.p.kind(T) == 'bool'])
                elif m.startswith('$p'):
                    pools.append(ptrs)
                elif m.startswith('$t'):
                    pools.append(streams)
                elif m.startswith('$c'):
                    pools.append(ints + names)
                else:
                    pools.append(names)
            cnt = 0
            for combo in itertools.product(*pools):
                if None in combo:
                    continue
                intsel = [x for x, m in zip(combo, metas) if m[1] in 'xyz']
                if len(set(intsel)) != len(intsel):
                    continue
                cnt += 1
                if cnt > 60:
                    break
                out.append(Cand('inv %s {%s}' % (c.text, ','.join('%s=%s' % z for z in zip(metas, combo))),
                                self.contract_fn(c, dict(zip(metas, combo)), types), 'contract', combo))
        return out

    def contract_fn(self, c, sub, types):
        ex = self.ex
        lets = {}

        up, uptypes = self.up, self.uptypes

        def fn(f, s):
            env = dict(ex.env0)
            for m, n in sub.items():
                if n.startswith('^') and not m.startswith('$o'):
                    env[m] = TV(up[n], uptypes[n])
                elif m == '$k':
                    env[m] = TV(f.regs[n], '#int')
                elif m == '$iter':
                    env[m] = TV(f.regs[n].it, '#int')
                elif m == '$n':
                    env[m] = TV(f.regs[n].n, '#int')
                elif m == '$oiter':
                    env[m] = TV((up[n] if n in up else f.regs[n]).it, '#int')
                elif m in ('$oord', '$oinv'):
                    a = getattr(up[n] if n in up else f.regs[n], m[2:])
                    from specctx import spec_t
                    env[m] = TV(a, spec_t(a))
                elif m in ('$ord', '$inv', '$dom'):
                    a = getattr(f.regs[n], m[1:])
                    from specctx import spec_t
                    env[m] = TV(a, spec_t(a))
                elif n.startswith('$iter:'):
                    env[m] = TV(f.regs[n[6:]].it, '#int')
                else:
                    env[m] = TV(f.regs[n], types[n])
            ctx = SpecCtx(ex, env, s, ex.entry_state)
            ctx.loop = (self.st0, {m: (TV(self.init[n], types[n]) if n in self.init else env[m]) for m, n in sub.items() if not n.startswith('$iter:') and m in env and m not in ('$k', '$iter', '$n', '$ord', '$inv', '$dom')})
            for m, n in sub.items():
                if m == '$k':
                    ctx.loop[1][m] = TV(z3.IntVal(0), '#int')
                if m == '$iter':
                    ctx.loop[1][m] = TV(self.fr0.regs[n].it, '#int')
            try:
                return ctx.bool(c.expr)
            except Unsupported:
                return None
        return fn

    # ------------------------------------------------------------ checking
    def holds(self, s, goals, slow=False):
        g = z3.And(goals) if len(goals) > 1 else goals[0]
        from solve import split_goal
        for x in split_goal(g):
            st, _, model = self.ex.prove1(s, x, 'candidate' if slow else 'quick')
            if st != 'proved':
                if slow and self.ex.opts.get('dump') and self.ex.opts.get('debugloops'):
                    z = z3.Solver()
                    z.add(*s.pc)
                    z.add(z3.Not(x))
                    open('/tmp/cand_%s_%d.smt2' % (self.bi, self.ex.serial), 'w').write('; %s\n' % str(x).replace('\n', ' ') + z.to_smt2())
                return False, model
        return True, None

    def filter(self, cands, f, s):
        """the candidates that hold in state s"""
        ex = self.ex
        todo = []
        for c in cands:
            v = c.fn(f, s)
            if v is None:
                continue
            v2 = z3.simplify(v)
            if z3.is_false(v2):
                continue
            todo.append((c, v, v2))
        keep = []
        # quick elimination with models of the quantifier free facts
        qf = [x for x in s.pc if not exmod.has_q(x)]
        hard = lambda t: exmod.has_q(t[1]) or t[0].src == 'contract' and has_uf(t[1])
        cheap = [t for t in todo if not hard(t) and not z3.is_true(t[2])]
        triv = [t for t in todo if z3.is_true(t[2])]
        rest = [t for t in todo if hard(t) and not z3.is_true(t[2])]
        keep += triv
        tries = 0
        while cheap and tries < 25:
            g = z3.And([t[1] for t in cheap]) if len(cheap) > 1 else cheap[0][1]
            r = ex.fs.check(qf, [z3.Not(g)])
            if r == z3.unsat:
                break
            if r != z3.sat:
                break
            tries += 1
            m = ex.fs.s.model()
            # a model of the quantifier free part refutes a candidate only if the full facts do not exclude it
            bad = [t for t in cheap if z3.is_false(m.eval(t[1], model_completion=True))]
            if not bad:
                break
            sure = []
            for t in bad:
                st_, _, _ = ex.prove1(s, t[1], 'quick') if s_hasq(s) else ('unknown', 0, 0)
                if st_ != 'proved':
                    sure.append(t)
                else:
                    keep.append(t)
            ids = {id(t) for t in bad}
            cheap = [t for t in cheap if id(t) not in ids]
        for t in cheap:
            r = ex.fs.check(qf, [z3.Not(t[1])])
            if r == z3.unsat:
                keep.append(t)
            else:
                st_, _, _ = ex.prove1(s, t[1], 'quick')
                if st_ == 'proved':
                    keep.append(t)
        # contract candidates may need each other and the others in order; facts only come from the state
        for t in rest:
            ok, _ = self.holds(s, [t[1]], t[0].src == 'contract')
            if ok:
                keep.append(t)
        ids = {id(t[0]) for t in keep}
        return [c for c in cands if id(c) in ids]

    def relevant(self, cands):
        """leave out contract candidates that are about another loop: whose value here can only change with the iteration count"""
        ex = self.ex
        fr, st = self.head()
        s0 = st.copy()
        s0.heap = dict(self.st0.heap)
        phis = {n for n, _ in self.phis}
        out = []
        for c in cands:
            if c.src == 'contract' and '$t' in c.text and not any(k[0] == 'S' for k in self.mods):
                continue
            if c.src == 'contract' and ('$inv' in c.text or '$ord' in c.text or '$k' not in c.text) and not any(n in phis for n in c.names):
                n0 = ex.serial
                a = c.fn(fr, st.copy())
                n1, ex.serial = ex.serial, n0
                b = c.fn(fr, s0.copy())
                ex.serial = max(n1, ex.serial)
                if a is None or a.eq(b):
                    continue
            out.append(c)
        return out

    def alive(self, s):
        ex = self.ex
        r = ex.fs.check([x for x in s.pc if not exmod.has_q(x)], [])
        return r != z3.unsat

    # ------------------------------------------------------------ main
    def run(self):
        ex = self.ex
        self.prepare()
        lim = ex.__dict__.get('outer_serial')
        if lim is None:
            ex.outer_serial = self.serial0
        try:
            self.run2()
        finally:
            ex.outer_serial = lim

    def run2(self):
        ex = self.ex
        debug = ex.opts.get('debugloops')
        # 1: what does the loop modify
        ex.quiet += 1
        modphase = ex.__dict__.get('modphase', 0)
        try:
            for rnd in range(8):
                ex.modphase = modphase + 1
                fr, st = self.head()
                col = Collect()
                fr.loops[self.bi] = col
                outs = []
                self.exits = []
                self.watch(fr, st, col)
                ex.modphase = modphase
                changed = False
                for f2, prev, s2 in col.edges + self.exits_w:
                    for key, ref in s2.writes[self.nw:]:
                        c = self.classify(key, ref, s2)
                        cl = self.mods.setdefault(key, [])
                        if not any(c[0] == d[0] and (c[0] != 'ref' or c[1].eq(d[1])) for d in cl):
                            cl.append(c)
                            changed = True
                    if prev is not None:
                        vals = self.phi_next(f2, prev, s2)
                        for n, T in self.phis:
                            if isinstance(vals[n], Slice) and n not in self.offs:
                                if not z3.simplify(vals[n].off).eq(z3.simplify(self.init[n].off)):
                                    self.offs.add(n)
                                    changed = True
                            if isinstance(vals[n], (LPtr, Clo, Regex)) and vals[n] is not self.init[n]:
                                raise Unsupported('loop changes a pointer to a field')
                if not changed:
                    break
            else:
                raise Unsupported('loop modifications do not stabilise')
            ex.modcache[self.key] = ({k: list(v) for k, v in self.mods.items()}, set(self.offs))
            # 2: Houdini
            cands = self.candidates()
            # while an enclosing loop only looks for what is modified nothing is known at its head yet: results do not count
            cached = ex.loopcache.get(self.key) if not modphase else None
            cands = self.relevant(cands)
            if modphase:
                cands = [c for c in cands if c.src != 'contract']
            if cached is not None:
                cands = [c for c in cands if c.text in cached]
            cands = self.filter(cands, self.fr0, self.st0)
            if debug:
                print('LOOP', self.fr.fn, self.bi, 'mods', {hname(k): [c[0] for c in v] for k, v in self.mods.items()}, 'init ok', len(cands), file=sys.stderr)
                print('   ', [c.text for c in cands if c.src == 'contract'], file=sys.stderr)
            rounds = 0
            while True:
                rounds += 1
                fr, st = self.head()
                for c in cands:
                    v = c.fn(fr, st)
                    if v is not None:
                        ex.fact(st, v)
                col = Collect()
                fr.loops[self.bi] = col
                self.watch(fr, st, col)
                before = len(cands)
                for f2, prev, s2 in col.edges:
                    if not self.alive(s2):
                        continue
                    f3 = self.next_frame(f2, prev, s2)
                    c1 = self.filter(cands, f3, s2)
                    if debug and len(c1) < len(cands):
                        print('   dropped', [c.text for c in cands if c not in c1 and (c.src == 'contract' or debug > 1)], file=sys.stderr)
                    cands = c1
                if len(cands) == before:
                    break
                if rounds > 40:
                    raise Unsupported('invariant search does not terminate')
            if not modphase:
                ex.loopcache[self.key] = {c.text for c in cands}
            edges = [e for e in col.edges if self.alive(e[2])]
            hfr = fr
        finally:
            ex.quiet -= 1
        if debug:
            print('   final', [c.text for c in cands if debug > 1 or c.src == 'contract'], 'rounds', rounds, 'edges', len(edges), file=sys.stderr)
        self.cands = cands
        # 3: termination
        if not ex.quiet:
            name = 'loop %d' % sorted(ex.p.loops(self.fr.fn)).index(self.bi)
            from exec import Obligation, shortfn
            for c in cands:
                if c.src == 'contract':
                    ex.obls.append(Obligation('invariant preserved in %s %s: %s' % (shortfn(self.fr.fn), name, c.text), 'proved', self.st0.trace))
            if edges and not ex.opts.get('noterm'):
                m = self.measure(hfr, edges)
                o = Obligation('termination of %s in %s' % (name, shortfn(self.fr.fn)), 'proved' if m else 'failed', self.st0.trace)
                o.text = m or 'no decreasing measure found'
                if not m:
                    ex.failed += 1
                    o.detail = {'goal': 'a measure decreasing on every back edge', 'solver': 'unknown'}
                    o.hints = {}
                    if ex.opts.get('verbose'):
                        print('FAILED termination', self.fr.fn, self.bi, file=sys.stderr)
                ex.obls.append(o)
        # 4: the proof run of the body, leaving through the exits
        fr, st = self.head()
        for c in cands:
            v = c.fn(fr, st)
            if v is not None:
                ex.fact(st, v)
        st.trace = st.trace + ((self.fr.fn, 'loop', self.bi),)
        fr.loops[self.bi] = Final(self)
        ex.run_instrs(fr, self.bi, ex.first_nonphi(self.b), st)

    def watch(self, fr, st, col):
        """execute the body; also remember the writes of paths that leave the loop"""
        ex = self.ex
        self.exits_w = []
        hook = ex.exit_hook
        # paths that leave the loop do not come back to its head, their writes do not matter for the invariant
        ex.exit_hook = None
        try:
            ex.run_instrs(fr, self.bi, ex.first_nonphi(self.b), st)
        finally:
            ex.exit_hook = hook

    def phi_next(self, f, prev, s):
        vals = {}
        for ins in self.b['instrs']:
            if ins['op'] != 'Phi':
                break
            e = ins['edges'][self.b['preds'].index(prev)]
            vals[ins['name']] = self.ex.val(f, e, s)
        return vals

    def next_frame(self, f, prev, s):
        g = f.copy()
        g.regs.update(self.phi_next(f, prev, s))
        g.regs[self.kname] = f.regs[self.kname] + 1
        return g

    def measure(self, hfr, edges):
        ex = self.ex
        cands = []
        at = list(self.atoms(self.fr0))
        consts = self.const_terms()

        def A(f, n):
            return self.atoms(f)[n]
        for n in self.iters:
            cands.append(('n - iter', lambda f, s, n=n: f.regs[n].n - f.regs[n].it))
        for n in at:
            for cn, c in consts:
                cands.append(('%s - %s' % (cn, n), lambda f, s, n=n, c=c: c - A(f, n)))
            cands.append((n, lambda f, s, n=n: A(f, n)))
        for n, m in itertools.permutations(at, 2):
            cands.append(('%s - %s' % (n, m), lambda f, s, n=n, m=m: A(f, n) - A(f, m)))
        for n, T in self.phis:
            if ex.p.kind(T) == 'slice':
                cands.append(('len ' + n, lambda f, s, n=n: f.regs[n].len))
                for m in at:
                    cands.append(('len %s - %s' % (n, m), lambda f, s, n=n, m=m: f.regs[n].len - A(f, m)))
        con = None
        types = reg_types(self.fr.f)
        for fn in reversed(self.fr.stack):
            con = ex.sp.contracts.get(fn)
            if con is not None and con.decreases:
                for d in con.decreases:
                    metas = sorted({i for i in Node_ids(d.expr) if i.startswith('$')})
                    for combo in itertools.permutations(at, len(metas)):
                        def mf(f, s, d=d, metas=metas, combo=combo):
                            env = dict(ex.env0)
                            for m, n in zip(metas, combo):
                                env[m] = TV(self.atoms(f)[n], '#int')
                            return SpecCtx(ex, env, s, ex.entry_state).eval(d.expr).v
                        cands.insert(0, (d.text, mf))
                break
        cands += ex.ext.loop_measures(self)
        # the distance between the two sides of the comparison the header decides on
        for j in range(2):
            cands.append(('header comparison', lambda f, s, j=j: self.header_distance(f, s)))
            break
        for name, fn in cands:
            ok = True
            for f2, prev, s2 in edges:
                try:
                    m0 = fn(self.fr_at(f2), self.head_state(s2))
                    m1 = fn(self.next_frame(f2, prev, s2), s2)
                except Unsupported:
                    ok = False
                    break
                g = z3.And(m0 >= 0, m1 < m0)
                st_, _, _ = ex.prove1(s2, g, 'quick')
                if st_ != 'proved':
                    ok = False
                    break
            if ok:
                return name
        return None

    def header_distance(self, f, s):
        ex = self.ex
        f2, s2 = f.copy(), s.copy()
        ex.quiet += 1
        last = None
        try:
            for ins in self.b['instrs'][ex.first_nonphi(self.b):]:
                op = ins['op']
                if op == 'If':
                    break
                if op == 'BinOp':
                    if ins['tok'] in ('/', '%', '<<', '>>'):
                        break
                    x, y = ex.val(f2, ins['x'], s2), ex.val(f2, ins['y'], s2)
                    if ins['tok'] in ('<', '<='):
                        last = (y, x, ins['tok'])
                    elif ins['tok'] in ('>', '>='):
                        last = (x, y, ins['tok'])
                    elif ins['tok'] == '!=':
                        last = (y, x, '<')
                    v = ex.op_BinOp(f2, ins, s2)
                elif op == 'UnOp' and ins['tok'] != '<-' or op in ('Convert', 'ChangeType', 'FieldAddr', 'DebugRef', 'Extract', 'IndexAddr'):
                    v = getattr(ex, 'op_' + op)(f2, ins, s2)
                elif op == 'Call' and ins['call']['mode'] == 'call' and ins['call']['fn'].get('k') == 'builtin' and ins['call']['fn']['n'] == 'len' and ex.p.kind(ins['call']['args'][0]['t']) == 'slice':
                    v = ex.val(f2, ins['call']['args'][0], s2).len
                else:
                    break
                if 'name' in ins and v is not None:
                    f2.regs[ins['name']] = v
        finally:
            ex.quiet -= 1
        if last is None or not isinstance(last[0], z3.ArithRef) or last[0].sort() != I:
            raise Unsupported('no comparison in the header')
        s.pc, s.typed = s2.pc, s2.typed
        return last[0] - last[1] + (1 if last[2] in ('<=', '>=') else 0)

    def fr_at(self, f2):
        """frame of the iteration's head: phi registers keep their head values until the next header"""
        g = f2
        if self.iters:
            g = f2.copy()
            for n in self.iters:
                g.regs[n] = self.last_head_fr.regs[n]
        return g

    def head_state(self, s2):
        v = self.last_head_st.copy()
        v.pc, v.typed, v.age = s2.pc, s2.typed, s2.age
        return v


_head = Loop.head


def head(self, quietcopy=True):
    fr, st = _head(self)
    self.last_head_fr = fr.copy()
    self.last_head_st = st.copy()
    return fr, st


Loop.head = head


def same_below(ex, s, key, old, a0):
    r = z3.Int('r')
    cur = ex.hget(s, key)
    return z3.ForAll([r], z3.Implies(r < a0, z3.Select(cur, r) == z3.Select(old, r)), patterns=[z3.Select(cur, r)])


def has_uf(t):
    """mentions a boolean function of the contracts"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() and z3.is_bool(x):
            return True
        st.extend(x.children())
    return False


def s_hasq(s):
    return any(exmod.has_q(x) for x in s.pc)


STREAM_TYPES = ('*bufio.Writer', '*bufio.Reader', '*recengine/internal/helpers.FileBuffer')


def reg_types(f):
    out = f.get('_regtypes')
    if out is None:
        out = {}
        for p in f['params']:
            out[p['name']] = p['type']
        for p in f['freevars']:
            out[p['name']] = p['type']
        for b in f['blocks']:
            for i in b['instrs']:
                if 'name' in i and 'type' in i:
                    out[i['name']] = i['type']
        f['_regtypes'] = out
    return out


def hname(key):
    return '.'.join(str(x).rsplit('/', 1)[-1] for x in key[1:4] if isinstance(x, str) and x) or str(key[0])
