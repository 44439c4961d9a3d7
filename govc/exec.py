"""Verification condition generation by path-wise symbolic execution of SSA, cut at loop headers."""
import z3, time, sys, itertools
import gostr
from values import *
from prog import WIDTH, INT_RANGES
from solve import Inc, split_goal, skolemize, cvc5_check, STATS
import spec as specmod

sys.setrecursionlimit(200000)
MAXLEN = 1 << 47
SORTS = {'int': I, 'bool': B, 'real': R, 'string': S, 'arr': z3.ArraySort(I, I), 'set': z3.ArraySort(I, B)}


class State:
    __slots__ = ('pc', 'heap', 'alloc', 'epoch', 'age', 'typed', 'io', 'writes', 'bufw', 'trace', 'readers', 'ghost', 'inherit', 'qcount')

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.heap = dict(self.heap)
        s.alloc = self.alloc
        s.epoch = self.epoch
        s.age = dict(self.age)
        s.typed = set(self.typed)
        s.io = self.io
        s.writes = list(self.writes)
        s.bufw = dict(self.bufw)
        s.readers = list(self.readers)
        s.trace = self.trace
        s.ghost = dict(self.ghost)
        s.inherit = dict(self.inherit)
        s.qcount = self.qcount
        return s


class Frame:
    __slots__ = ('fn', 'f', 'regs', 'loops', 'depth', 'k', 'defers', 'stack', 'caller')

    def copy(self):
        g = Frame()
        g.fn, g.f, g.depth, g.k, g.stack, g.caller = self.fn, self.f, self.depth, self.k, self.stack, self.caller
        g.regs = dict(self.regs)
        g.loops = dict(self.loops)
        g.defers = list(self.defers)
        return g


class Obligation:
    def __init__(self, name, status, pos, detail='', time=0.0, backend='z3', prop=None, text=''):
        self.name, self.status, self.pos, self.detail, self.time, self.backend, self.text = name, status, pos, detail, time, backend, text


class StopPath(Exception):
    pass


class Abort(Exception):
    """too many failures: stop verifying this function"""


def is_const_num(t):
    return z3.is_int_value(t)


DUMPS = []


class Exec:
    def __init__(self, prog, specs, prop, opts=None):
        self.p = prog
        self.sp = specs
        self.prop = prop
        self.opts = opts or {}
        self.serial = 0
        self.cserial = {}
        self.keep = []
        self.tags = {}
        self.tagname = {}
        self.closures = {}
        self.nhandlers = 0
        self.glob = {}
        self.obls = []
        self.quiet = 0
        sd = opts.get('seed', 0)
        self.fs = Inc(400 * (1 + 2 * sd), **({'smt.random_seed': sd} if sd else {}))
        self.ps = Inc(1500 * (1 + 2 * sd), **dict({'smt.mbqi': False, 'smt.auto_config': False}, **({'smt.random_seed': sd} if sd else {})))
        self.loopcache = {}
        self.modcache = {}
        self.boxfun = {}
        self.assumptions = set()
        self.called = set()
        self.inlined = set()
        self.externs_used = set()
        self.ufcache = {}
        self.failed = 0
        self.entry_state = None
        self.axioms_used = []
        self.lemmas_used = set()
        self.deadline = None
        self.modelvals = []
        self.extfail = None
        import externs
        self.ext = externs
        self.pathcount = 0
        self.exit_hook = None
        self.ordstr = False
        self.env0 = {}

    # ------------------------------------------------------------ symbols
    def fresh(self, name, sort=I):
        self.serial += 1
        c = z3.Const('%s!%d' % (name, self.serial), sort)
        self.cserial[c.get_id()] = self.serial
        self.keep.append(c)
        return c

    def maxserial(self, t, cache=None):
        """largest serial of a fresh constant in t"""
        cache = self.__dict__.setdefault('_mscache', {})
        st = [t]
        best = 0
        seen = set()
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                st.append(x.body())
                continue
            if z3.is_app(x):
                if x.num_args() == 0:
                    s = self.cserial.get(i, 0)
                    if s > best:
                        best = s
                else:
                    st.extend(x.children())
        return best

    def tag(self, tname):
        if tname not in self.tags:
            self.tags[tname] = len(self.tags) + 1
            self.tagname[self.tags[tname]] = tname
        return z3.IntVal(self.tags[tname])

    def globref(self, name):
        if name not in self.glob:
            self.glob[name] = 1000 * (len(self.glob) + 1)
        return z3.IntVal(self.glob[name])

    def globname(self):
        c = self.__dict__.get('_gn')
        if c is None or len(c) != len(self.glob):
            c = self._gn = {v: k for k, v in self.glob.items()}
        return c

    def loopkey_extra(self, fr):
        return None

    # ------------------------------------------------------------ facts
    def fact(self, st, f):
        if z3.is_true(f):
            return
        st.pc.append(f)

    def feasible(self, st, c):
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        r = self.fs.check([f for f in st.pc if not has_q(f)], [c])
        return r != z3.unsat

    def surely(self, st, c):
        """cheap proof using quantifier free facts only"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.fs.check([f for f in st.pc if not has_q(f)], [z3.Not(c)]) == z3.unsat

    def prove1(self, st, goal, budget=None):
        """returns (status, backend, model)"""
        if z3.is_true(goal):
            return 'proved', 'simplify', None
        hyps, g = skolemize(goal)
        neg = hyps + [z3.Not(g)]
        # 1: quantifier free
        r = self.fs.check([f for f in st.pc if not has_q(f)], neg)
        if r == z3.unsat:
            return 'proved', 'z3', None
        t0 = time.time()
        r = self.ps.check(st.pc, neg)
        if self.opts.get('dump') and time.time() - t0 > 1:
            z = z3.Solver()
            z.add(*st.pc)
            z.add(*neg)
            DUMPS.append(0)
            open('/tmp/slow_%d_%s.smt2' % (len(DUMPS), budget), 'w').write('; %s %.1f\n' % (r, time.time() - t0) + z.to_smt2())
        if r == z3.unsat:
            return 'proved', 'z3', None
        model = None
        if r == z3.sat or (r == z3.unknown and 'timeout' not in self.ps.s.reason_unknown() and 'canceled' not in self.ps.s.reason_unknown()):
            try:
                model = self.ps.s.model()
            except z3.Z3Exception:
                model = None
        if budget == 'quick':
            return 'unknown', 'z3', model
        if budget == 'candidate':
            # a candidate of a contract is not given up because one search went astray
            for conf in ({'smt.arith.solver': 2, 'smt.auto_config': False}, {'smt.auto_config': True}, {'smt.auto_config': False, 'smt.random_seed': 3}):
                s = z3.Solver()
                s.set('timeout', 4000 if 'smt.arith.solver' in conf else 2000)
                for k, v in dict({'smt.mbqi': False}, **conf).items():
                    s.set(k, v)
                s.add(*st.pc)
                s.add(*neg)
                t = time.time()
                r = s.check()
                STATS['queries'] += 1
                STATS['time'] += time.time() - t
                if r == z3.unsat:
                    return 'proved', 'z3', None
                if 'timeout' not in s.reason_unknown() and 'canceled' not in s.reason_unknown():
                    break
            return 'unknown', 'z3', model
        # 2: fresh solver with the default configuration
        tmo = self.opts.get('timeout', 8000)
        ematch = {'smt.mbqi': False, 'smt.auto_config': False, 'smt.arith.solver': 2}
        for conf in (ematch, {}, {'smt.random_seed': 7}) if any(has_q(f) for f in st.pc) else ({}, ematch, {'smt.random_seed': 7}):
            s = z3.Solver()
            s.set('timeout', tmo)
            for k, v in conf.items():
                s.set(k, v)
            s.add(*st.pc)
            s.add(*neg)
            t = time.time()
            r = s.check()
            STATS['queries'] += 1
            STATS['time'] += time.time() - t
            if r == z3.unsat:
                return 'proved', 'z3', None
            if r == z3.sat:
                return 'failed', 'z3', s.model()
            if model is None:
                try:
                    model = s.model()
                except z3.Z3Exception:
                    pass
            if self.failed > 3:
                break
        if self.failed <= 2 and cvc5_check(st.pc + neg, tmo) == 'unsat':
            return 'proved', 'cvc5', None
        return 'unknown', 'z3', model

    def oblige(self, st, goal, name, text=''):
        """a proof obligation; afterwards the goal is assumed"""
        if self.quiet:
            self.fact(st, goal)
            return
        if self.deadline and time.time() > self.deadline:
            raise Abort('time budget exhausted')
        pos = st.trace
        for g in split_goal(goal):
            t = time.time()
            status, backend, model = self.prove1(st, g)
            dt = time.time() - t
            o = Obligation(name, status, pos, time=dt, backend=backend, text=text)
            if status != 'proved':
                self.failed += 1
                o.detail = {'goal': str(g)[:2000], 'facts': len(st.pc), 'solver': status}
                o.hints = self.model_hints(st, model) if model is not None else {}
                if self.opts.get('verbose'):
                    print('FAILED', name, pos[-6:] if pos else pos, status, str(g)[:600], file=sys.stderr)
                    if self.opts.get('dump'):
                        s = z3.Solver()
                        s.add(*st.pc)
                        h, gg = skolemize(g)
                        s.add(*h)
                        s.add(z3.Not(gg))
                        open('/tmp/fail_%d.smt2' % self.failed, 'w').write(s.to_smt2())
            self.obls.append(o)
            if self.failed >= self.opts.get('maxfail', 4):
                raise Abort('too many failures')
        self.fact(st, goal)

    def model_hints(self, st, model):
        out = {}
        try:
            for n, v in self.modelvals:
                try:
                    x = model.eval(v, model_completion=False)
                    if z3.is_int_value(x):
                        out[n] = x.as_long()
                    else:
                        out[n] = str(x)[:200]
                except z3.Z3Exception:
                    pass
            ints = set()
            for d in model.decls():
                v = model[d]
                if z3.is_expr(v) and z3.is_int_value(v):
                    ints.add(v.as_long())
            out['ints'] = sorted(ints)[:60]
        except Exception as e:
            out['error'] = str(e)
        return out

    # ------------------------------------------------------------ types and components
    def leaf_sort(self, kind):
        if kind == 'string' and self.ordstr:
            return I
        return {'bool': B, 'float': R, 'string': S}.get(kind, I)

    def comps(self, T):
        """components of a non aggregate type: list of (name, sort)"""
        k = self.p.kind(T)
        if k == 'slice':
            return [('arr', I), ('len', I), ('cap', I)]
        if k == 'interface':
            return [('tag', I), ('val', I)]
        return [('', self.leaf_sort(k))]

    def flat(self, T):
        """flattened leaves for storage inside slices and maps: list of (path tuple, leaf type)"""
        k = self.p.kind(T)
        if k == 'struct':
            out = []
            for i, f in enumerate(self.p.fields(T)):
                for path, lt in self.flat(f['type']):
                    out.append(((i,) + path, lt))
            return out
        return [((), T)]

    def leafvals(self, v, T):
        """value -> list of z3 terms of its leaves, in the order of flat() x comps()"""
        k = self.p.kind(T)
        if k == 'struct':
            out = []
            for f, x in zip(self.p.fields(T), v.fs):
                out += self.leafvals(x, f['type'])
            return out
        if k == 'slice':
            return [v.arr, v.len, v.cap]
        if k == 'interface':
            return [v.tag, v.val]
        if isinstance(v, Clo):
            # functions are known by number
            n = self.closures.setdefault('n', 0) + 1
            self.closures['n'] = n
            self.closures[n] = v
            return [z3.IntVal(n)]
        if isinstance(v, (LPtr, AVal, Regex)):
            raise Unsupported('storing %s' % type(v).__name__)
        return [v]

    def compose(self, T, terms):
        k = self.p.kind(T)
        if k == 'struct':
            fs = []
            for f in self.p.fields(T):
                fs.append(self.compose(f['type'], terms))
            return SVal(fs)
        if k == 'slice':
            a, l, c = terms.pop(0), terms.pop(0), terms.pop(0)
            return Slice(a, z3.IntVal(0), l, c)
        if k == 'interface':
            t, v = terms.pop(0), terms.pop(0)
            return Iface(t, v)
        if k == 'array':
            raise Unsupported('array inside slice or map')
        return terms.pop(0)

    def zero(self, T):
        k = self.p.kind(T)
        if k == 'int' or k in ('pointer', 'map', 'chan', 'func', 'nil'):
            return z3.IntVal(0)
        if k == 'bool':
            return z3.BoolVal(False)
        if k == 'float':
            return z3.RealVal(0)
        if k == 'string':
            return z3.IntVal(0) if self.ordstr else z3.StringVal('')
        if k == 'slice':
            z = z3.IntVal(0)
            return Slice(z, z, z, z)
        if k == 'interface':
            return Iface(z3.IntVal(0), z3.IntVal(0))
        if k == 'struct':
            return SVal([self.zero(f['type']) for f in self.p.fields(T)])
        if k == 'array':
            t = self.p.t(T)
            return AVal([z3.K(I, self.zero_term(s)) for s in self.esorts(t['elem'])], t['len'])
        raise Unsupported('zero of %s' % T)

    def zero_term(self, sort):
        if sort == B:
            return z3.BoolVal(False)
        if sort == R:
            return z3.RealVal(0)
        if sort == S:
            return z3.StringVal('')
        return z3.IntVal(0)

    def esorts(self, T):
        out = []
        for path, lt in self.flat(T):
            for n, s in self.comps(lt):
                out.append(s)
        return out

    def typefacts(self, st, v, T, older=True):
        """range facts of a value"""
        k = self.p.kind(T)
        if k == 'int':
            if not is_const_num(v):
                i = v.get_id()
                if i not in st.typed:
                    st.typed.add(i)
                    self.keep.append(v)
                    lo, hi = self.p.irange(T)
                    self.fact(st, z3.And(v >= lo, v <= hi))
        elif k in ('pointer', 'map', 'chan'):
            if not isinstance(v, (LPtr, Regex)) and not is_const_num(v):
                self.ref_fact(st, v)
        elif k == 'slice':
            if not (is_const_num(v.len) and is_const_num(v.cap)):
                key = ('sl', v.arr.get_id(), v.len.get_id(), v.cap.get_id())
                if key not in st.typed:
                    st.typed.add(key)
                    self.keep += [v.arr, v.len, v.cap]
                    self.fact(st, z3.And(v.len >= 0, v.len <= v.cap, v.cap <= MAXLEN, z3.Implies(v.arr == 0, v.cap == 0)))
            self.ref_fact(st, v.arr)
        elif k == 'interface':
            if not is_const_num(v.tag) and v.tag.get_id() not in st.typed:
                st.typed.add(v.tag.get_id())
                self.keep.append(v.tag)
                self.fact(st, z3.And(v.tag >= 0, z3.Implies(v.tag == 0, v.val == 0)))
            # only references of the program's own pointer types are bounded by the allocator
            if v.dyn is None and not is_const_num(v.val):
                self.ref_fact(st, v.val)
        elif k == 'struct':
            for f, x in zip(self.p.fields(T), v.fs):
                self.typefacts(st, x, f['type'])

    def ref_fact(self, st, r):
        if is_const_num(r):
            return
        i = r.get_id()
        if i in st.age:
            return
        self.keep.append(r)
        st.age[i] = ('old', st.epoch)
        self.fact(st, z3.And(r >= 0, r < st.alloc))

    def havoc_value(self, st, T, name):
        k = self.p.kind(T)
        if k == 'slice':
            v = Slice(self.fresh(name + '.arr'), z3.IntVal(0), self.fresh(name + '.len'), self.fresh(name + '.cap'))
        elif k == 'interface':
            v = Iface(self.fresh(name + '.tag'), self.fresh(name + '.val'))
        elif k == 'struct':
            v = SVal([self.havoc_value(st, f['type'], name + '.' + f['name']) for f in self.p.fields(T)])
        elif k == 'array':
            t = self.p.t(T)
            v = AVal([self.fresh(name + '.a', z3.ArraySort(I, s)) for s in self.esorts(t['elem'])], t['len'])
            return v
        elif k == 'tuple':
            return Tup([self.havoc_value(st, e, name + str(i)) for i, e in enumerate(self.p.t(T)['elems'])])
        else:
            v = self.fresh(name, self.leaf_sort(k))
        self.typefacts(st, v, T)
        return v

    # ------------------------------------------------------------ heap
    def keysort(self, key):
        if key[0] in ('F', 'C'):
            return z3.ArraySort(I, key[-1])
        if key[0] == 'E':
            return z3.ArraySort(I, z3.ArraySort(I, key[-1]))
        if key[0] == 'D':
            return z3.ArraySort(I, z3.ArraySort(key[-1], B))
        if key[0] == 'V':
            return z3.ArraySort(I, z3.ArraySort(key[-2], key[-1]))
        if key[0] == 'S':
            if key[1] == 'content':
                return z3.ArraySort(I, z3.ArraySort(I, I))
            return z3.ArraySort(I, I)
        if key[0] == 'H':   # channels, misc ghost maps: ('H', name, sort)
            return z3.ArraySort(I, key[-1])
        raise Unsupported(str(key))

    def hget(self, st, key):
        a = st.heap.get(key)
        if a is None:
            a = self.entry_heap(key)
            st.heap[key] = a
        return a

    def entry_heap(self, key):
        """symbol of the heap component at function entry (created lazily, shared by all paths)"""
        a = self.heap0.get(key)
        if a is None:
            a = z3.Const('h0_' + '_'.join(str(x) for x in key if not isinstance(x, z3.SortRef)), self.keysort(key))
            self.heap0[key] = a
            self.keep.append(a)
        return a

    def base_range(self, st, key, a):
        """quantified range facts for bytes / unsigned values inside arrays of base heap symbol a"""
        kid = ('rng', a.get_id())
        if kid in st.typed:
            return
        st.typed.add(kid)
        self.keep.append(a)
        r, i = z3.Ints('r i')
        if key[0] == 'S' and key[1] == 'content':
            x = z3.Select(z3.Select(a, r), i)
            self.fact(st, z3.ForAll([r, i], z3.And(x >= 0, x <= 255), patterns=[x]))
        elif key[0] == 'E' and key[-1] == I:
            lt = key[2]
            if self.p.kind(lt) == 'int' and key[3] == '':
                lo, hi = self.p.irange(lt)
                x = z3.Select(z3.Select(a, r), i)
                self.fact(st, z3.ForAll([r, i], z3.And(x >= lo, x <= hi), patterns=[x]))

    def arr_range(self, st, key, a):
        """same for one (non nested) array value"""
        i = z3.Int('i')
        if key[0] == 'S' and key[1] == 'content':
            x = z3.Select(a, i)
            self.fact(st, z3.ForAll([i], z3.And(x >= 0, x <= 255), patterns=[x]))
        elif key[0] == 'E' and key[-1] == I:
            lt = key[2]
            if self.p.kind(lt) == 'int' and key[3] == '':
                lo, hi = self.p.irange(lt)
                x = z3.Select(a, i)
                self.fact(st, z3.ForAll([i], z3.And(x >= lo, x <= hi), patterns=[x]))

    def distinct(self, st, a, b):
        """syntactic / allocation-order disequality of references"""
        d = z3.simplify(a - b)
        if is_const_num(d):
            return d.as_long() != 0
        x, y = st.age.get(a.get_id()), st.age.get(b.get_id())
        if is_const_num(a) and y and y[0] == 'fresh':
            return True     # globals and nil are older than any allocation
        if is_const_num(b) and x and x[0] == 'fresh':
            return True
        if x and y:
            if x[0] == 'fresh' and y[0] == 'fresh':
                return x[1] != y[1]
            if x[0] == 'fresh' and y[0] == 'old' and y[1] < x[1]:
                return True
            if y[0] == 'fresh' and x[0] == 'old' and x[1] < y[1]:
                return True
        return False

    def sel(self, st, arr, idx, ref=True):
        while True:
            if z3.is_store(arr):
                a, i, v = arr.children()
                if i.eq(idx):
                    return v
                if ref:
                    if self.distinct(st, i, idx):
                        arr = a
                        continue
                else:
                    if i.sort() == I:
                        d = z3.simplify(i - idx)
                        if is_const_num(d):
                            if d.as_long() == 0:
                                return v
                            arr = a
                            continue
                return z3.Select(arr, idx)
            if z3.is_const_array(arr):
                return arr.children()[0]
            inh = st.inherit.get(arr.get_id())
            if inh is not None and ref:
                parent, epoch = inh
                ag = st.age.get(idx.get_id())
                if is_const_num(idx) or (ag and ag[1] <= epoch):
                    arr = parent
                    continue
            return z3.Select(arr, idx)

    def fkey(self, T, idx, comp, sort):
        f = self.p.fields(T)[idx]
        return ('F', T, f['name'], comp, sort)

    def read_leaf(self, st, mk, T, facts=True):
        """mk(comp,sort) -> z3 term"""
        terms = [mk(n, s) for n, s in self.comps(T)]
        v = self.compose(T, terms)
        if facts:
            self.typefacts(st, v, T)
            v = self.rebox(v)
        return v

    def rebox(self, v):
        return v

    def hread(self, st, key, ref):
        if key[0] == 'E' and z3.is_int_value(ref) and not getattr(self, 'isinit', False):
            # an array variable of a package that nothing writes keeps its initial value
            n = self.globname().get(ref.as_long())
            if n is not None and n in self.p.globals and self.p.kind(self.p.elem(self.p.globals[n]['type'])) == 'array':
                gi = self.global_initial(n)
                if gi is not None and gi[0] == 'st':
                    self.assumptions.add('writers do not modify the bytes they are given')
                    return self.sel(gi[1], self.hget(gi[1], key), ref)
        a = self.hget(st, key)
        return self.sel(st, a, ref)

    def hwrite(self, st, key, ref, val):
        a = self.hget(st, key)
        # overwrite of the same reference
        while z3.is_store(a) and a.children()[1].eq(ref):
            a = a.children()[0]
        st.heap[key] = z3.Store(a, ref, val)
        st.writes.append((key, ref))
        self.keep.append(ref)

    # pointers: struct pointer = Int ref; array pointer = Int ref; scalar cell = Int ref of ('C', T)
    def load(self, st, ptr, T, facts=True):
        """load a value of type T through pointer value ptr"""
        k = self.p.kind(T)
        if isinstance(ptr, LPtr):
            if ptr.kind == 'F':
                S0, idx = ptr.st
                ft = self.p.fields(S0)[idx]['type']
                return self.read_leaf(st, lambda n, s: self.hread(st, self.fkey(S0, idx, n, s), ptr.base), ft, facts)
            # element
            return self.load_elem(st, ptr.base, ptr.idx, ptr.st, ptr.path, T, facts)
        if k == 'struct':
            if self.p.is_opaque(T):
                raise Unsupported('load of foreign struct ' + T)
            fs = []
            for i, f in enumerate(self.p.fields(T)):
                fk = self.p.kind(f['type'])
                if fk in ('struct', 'array'):
                    fs.append(self.load(st, self.subref(st, ptr, T, i), f['type'], facts))
                else:
                    fs.append(self.load(st, LPtr('F', ptr, None, (T, i), None), f['type'], facts))
            return SVal(fs)
        if k == 'array':
            t = self.p.t(T)
            return AVal([self.hread(st, key, ptr) for key in self.ekeys(t['elem'])], t['len'])
        return self.read_leaf(st, lambda n, s: self.hread(st, ('C', T, n, s), ptr), T, facts)

    def subref(self, st, ptr, T, i):
        slot = self.p.field_slot(T, i)
        r = z3.simplify(ptr + slot)
        if r.get_id() not in st.age:
            a = st.age.get(ptr.get_id())
            if a:
                if a[0] == 'fresh':
                    # same allocation, different slot: distinctness comes from arithmetic; keep the order information
                    st.age[r.get_id()] = ('fresh', a[1])
                else:
                    st.age[r.get_id()] = a
                self.keep.append(r)
        return r

    def ekeys(self, ET):
        out = []
        for path, lt in self.flat(ET):
            for n, s in self.comps(lt):
                out.append(('E', self.ename(ET), lt, n, path, s))
        return out

    def ename(self, ET):
        # named and unnamed types with the same underlying basic type are kept apart, as Go does
        return ET

    def load_elem(self, st, arr, idx, ET, path, T, facts=True):
        terms = []
        for key in self.ekeys(ET):
            if key[4][:len(path)] == tuple(path):
                A = self.hread(st, key, arr)
                if facts:
                    self.elem_base(st, key, A)
                terms.append(self.sel(st, A, idx, ref=False))
        v = self.compose(T, terms)
        if facts:
            self.typefacts(st, v, T)
        return v

    def elem_base(self, st, key, A):
        pass

    def store_elem(self, st, arr, idx, ET, path, v, T):
        self.check_origin(st, v, T)
        vals = self.leafvals(v, T)
        for key in self.ekeys(ET):
            if key[4][:len(path)] == tuple(path):
                A = self.hread(st, key, arr)
                while z3.is_store(A) and A.children()[1].eq(idx):
                    A = A.children()[0]
                self.hwrite(st, key, arr, z3.Store(A, idx, vals.pop(0)))

    def check_origin(self, st, v, T):
        """slices kept in memory must start at the origin of their backing array (see DESIGN: slice origins)"""
        k = self.p.kind(T)
        if k == 'slice':
            if not (is_const_num(v.off) and v.off.as_long() == 0):
                g = v.off == 0
                if not self.surely(st, g):
                    self.oblige(st, g, 'slice-origin')
        elif k == 'struct':
            for f, x in zip(self.p.fields(T), v.fs):
                self.check_origin(st, x, f['type'])

    def store(self, st, ptr, v, T):
        k = self.p.kind(T)
        if isinstance(ptr, LPtr):
            if ptr.kind == 'F':
                S0, idx = ptr.st
                self.check_origin(st, v, T)
                vals = self.leafvals(v, T)
                for n, s in self.comps(T):
                    self.hwrite(st, self.fkey(S0, idx, n, s), ptr.base, vals.pop(0))
                return
            self.store_elem(st, ptr.base, ptr.idx, ptr.st, ptr.path, v, T)
            return
        if k == 'struct':
            for i, f in enumerate(self.p.fields(T)):
                fk = self.p.kind(f['type'])
                if fk in ('struct', 'array'):
                    self.store(st, self.subref(st, ptr, T, i), v.fs[i], f['type'])
                else:
                    self.store(st, LPtr('F', ptr, None, (T, i), None), v.fs[i], f['type'])
            return
        if k == 'array':
            for key, a in zip(self.ekeys(self.p.t(T)['elem']), v.comps):
                self.hwrite(st, key, ptr, a)
            return
        if isinstance(v, (Regex, Clo, LPtr)):
            if is_const_num(ptr):
                st.ghost[('pyval', ptr.as_long())] = v
                return
            raise Unsupported('storing %s' % type(v).__name__)
        self.check_origin(st, v, T)
        vals = self.leafvals(v, T)
        for n, s in self.comps(T):
            self.hwrite(st, ('C', T, n, s), ptr, vals.pop(0))

    def alloc(self, st, T=None, zero=True):
        if T is not None and self.p.zero_size(T) and self.p.kind(T) == 'struct':
            # all zero-size objects share an address, as in the Go runtime
            return self.globref('zerosize')
        r = st.alloc
        st.epoch += 1
        st.age[r.get_id()] = ('fresh', st.epoch)
        self.keep.append(r)
        st.alloc = z3.simplify(r + 1000)
        st.epoch += 1
        if T is not None and zero:
            self.store(st, r, self.zero(T), T)
        return r

    # ------------------------------------------------------------ integer arithmetic
    def wrap(self, st, t, T, op=None):
        t = z3.simplify(t)
        name = self.p.intname(T)
        lo, hi = INT_RANGES[name]
        if is_const_num(t):
            v = t.as_long()
            if lo <= v <= hi:
                return t
            w = 1 << WIDTH[name]
            v %= w
            if v > hi:
                v -= w
            return z3.IntVal(v)
        if self.surely(st, z3.And(t >= lo, t <= hi)):
            st.typed.add(t.get_id())
            self.keep.append(t)
            return t
        w = 1 << WIDTH[name]
        if op in ('+', '-') and w == 256:
            q = self.fresh('carry')
            self.fact(st, z3.And(q >= -1, q <= 1))
            r = t - w * q
        elif op in ('+', '-'):
            r = z3.If(t > hi, t - w, z3.If(t < lo, t + w, t))
        elif lo == 0:
            r = t % w
        else:
            r = (t - lo) % w + lo
        v = self.fresh('wr')
        self.fact(st, v == r)
        self.fact(st, z3.And(v >= lo, v <= hi))
        st.typed.add(v.get_id())
        return v

    # ------------------------------------------------------------ function entry
    def verify(self, fname, contract):
        self.heap0 = {}
        self.fname = fname
        self.contract = contract
        # strings that are only compared: elements of a total order, every finite part of which embeds into Z
        # 'strings id': strings are identities, unless the function asks for their structure
        self.ordstr = 'ordstr' in contract.flags or self.opts.get('strings') == 'id' and 'structural' not in contract.flags
        f = self.p.funcs[fname]
        st = State()
        st.pc, st.heap, st.age, st.typed = [], {}, {}, set()
        st.writes, st.bufw, st.readers, st.trace, st.ghost, st.inherit = [], {}, [], (), {}, {}
        st.qcount = 0
        st.epoch = 1
        a0 = self.fresh('A')
        st.alloc = a0
        self.fact(st, a0 >= 10000000)
        self.alloc0 = a0
        self.epoch0 = 1
        st.io = self.fresh('io_failed', B)
        args = []
        self.modelvals = []
        if len(contract.params) != len(f['params']):
            raise Unsupported('%s has %d parameters, contract names %d' % (fname, len(f['params']), len(contract.params)))
        env = {}
        for n, prm in zip(contract.params, f['params']):
            v = self.havoc_value(st, prm['type'], n)
            args.append(v)
            env[n] = TV(v, prm['type'])
            try:
                for x, c in zip(self.leafvals(v, prm['type']), range(8)):
                    self.modelvals.append((n + (str(c) if c else ''), x))
            except Unsupported:
                pass
        if f.get('recv') and self.p.kind(f['recv']) == 'pointer':
            self.fact(st, args[0] > 0)
        for prm, v in zip(f['params'], args):
            if self.stream_type(prm['type']):
                self.fact(st, v.tag > 0)
                self.assumptions.add('stream arguments are not nil')
        self.ext.stream_type_facts(self, st)
        self.init_globals(st)
        self.add_axioms(st, contract)
        self.env0 = env
        st.epoch += 1
        self.entry_state = st   # provisional
        ctx = SpecCtx(self, dict(env), st, st)
        for c in self.sp_globalinvs():
            self.fact(st, ctx.bool(c))
        for c in contract.requires:
            if c.active(self.prop):
                self.fact(st, ctx.bool(c.expr))
        for n, e in contract.lets:
            env[n] = ctx.eval(e)
            ctx.env[n] = env[n]
        # vacuity: the precondition must be satisfiable
        s = z3.Solver()
        s.set('timeout', 800)
        s.add(*st.pc)
        r = s.check()
        self.obls.append(Obligation('precondition-satisfiable', 'proved' if r != z3.unsat else 'failed', (), backend='z3'))
        if r == z3.unsat:
            self.failed += 1
        self.entry_state = st.copy()
        self.returns = 0

        def kret(st2, results):
            self.at_return(st2, results)
        self.call_inline(fname, args, st.copy(), kret, (), top=True)
        if self.returns == 0 and 'noreturn' not in contract.flags:
            self.obls.append(Obligation('some-return-reachable', 'failed', ()))
            self.failed += 1
        else:
            self.obls.append(Obligation('some-return-reachable', 'proved', ()))

    def sp_globalinvs(self):
        pkg = self.p.funcs[self.fname].get('pkg')
        return [e for (pk, n, e) in self.sp.globalinv if pk == pkg]

    def add_axioms(self, st, contract):
        for u in contract.uses:
            if u in self.sp.axioms:
                e = self.sp.axioms[u]
            elif u in self.sp.lemmas:
                e = self.sp.lemmas[u][2]
                self.lemmas_used.add(u)
            else:
                raise Unsupported('unknown axiom ' + u)
            ctx = SpecCtx(self, {}, st, st)
            self.fact(st, ctx.bool(e))
            if u in self.sp.axioms:
                self.axioms_used.append(u)

    def verify_lemma(self, name):
        """a lemma over the spec functions; its outermost universal variables become constants"""
        from spec import Contract, Node
        ind, uses, e, labels = self.sp.lemmas[name]
        self.heap0 = {}
        c = Contract('lemma ' + name, [], [])
        c.uses = uses
        self.contract = c
        self.fname = sorted(self.p.funcs)[0]
        self.ordstr = False
        st = State()
        st.pc, st.heap, st.age, st.typed = [], {}, {}, set()
        st.writes, st.bufw, st.readers, st.trace, st.ghost, st.inherit = [], {}, [], (), {}, {}
        st.qcount = 0
        st.epoch = 1
        st.alloc = self.fresh('A')
        self.alloc0, self.epoch0 = st.alloc, 1
        st.io = self.fresh('io_failed', B)
        self.entry_state = st
        self.modelvals = []
        self.add_axioms(st, c)
        env = {}
        body = e
        names = []
        while body.k == 'q' and body.a[0] == 'forall':
            for n, srt in body.a[1]:
                from specctx import SORTS
                k = self.fresh(n, SORTS[srt])
                env[n] = TV(k, '#' + srt)
                names.append((n, srt))
            body = body.a[3]
        self.env0 = env
        if ind:
            # induction hypothesis: every instance with a smaller value of the induction variable
            others = [(n, srt) for n, srt in names if n != ind]
            k = env[ind].v
            ctx = SpecCtx(self, {ind: TV(k - 1, '#int')}, st, st)
            trig = e.a[2]
            hyp = Node('q', 'forall', others, [t for t in trig], body) if others else body
            hv = ctx.bool(hyp)
            self.fact(st, z3.Implies(k > 0, hv))
            ctx = SpecCtx(self, dict(env, **{ind: TV(k - 1, '#int')}), st, st)
            self.fact(st, z3.Implies(k > 0, ctx.bool(body)))
        # hypotheses of implications become facts so that the terms in them are typed
        ctx = SpecCtx(self, env, st, st)
        while body.k == 'bin' and body.a[0] == '==>':
            h, body = body.a[1], body.a[2]
            self.fact(st, ctx.bool(h))
        self.oblige(st, ctx.bool(body), 'lemma ' + name)
        s = z3.Solver()
        s.set('timeout', 800)
        s.add(*st.pc)
        if s.check() == z3.unsat:
            self.obls.append(Obligation('lemma hypotheses satisfiable', 'failed', ()))

    def at_return(self, st, results):
        """check the postconditions of the function under verification"""
        c = self.contract
        f = self.p.funcs[self.fname]
        rts = [r['type'] for r in f['sig']['results']]
        st = st.copy()
        self.materialize_bufw(st)
        if self.quiet:
            return
        if not self.feasible(st, z3.BoolVal(True)) or self.fs.check([x for x in st.pc if not has_q(x)], []) == z3.unsat:
            return
        self.returns += 1
        env = dict(self.env0)
        vals = results
        names = c.results or (['result'] if len(rts) == 1 else ['r%d' % i for i in range(len(rts))])
        for n, v, t in zip(names, vals, rts):
            env[n] = TV(v, t)
            self.check_origin(st, v, t) if not isinstance(v, (Regex, Clo, LPtr)) else None
        if len(rts) == 1:
            env['result'] = TV(vals[0], rts[0])
        ctx = SpecCtx(self, env, st, self.entry_state)
        ctx.regs = getattr(self, 'witnesses', [])
        for cl in c.ensures:
            if cl.active(self.prop):
                self.oblige(st, ctx.bool(cl.expr), 'ensures %s' % cl.name, cl.text)
        for g in self.sp_globalinvs():
            self.oblige(st, ctx.bool(g), 'global invariant')
        if c.routes:
            self.ext.ginmodel.done(self, st)
        self.check_frame(st, c)

    def stream_type(self, T):
        n = self.p.t(T)
        return self.p.kind(T) == 'interface' and (T.startswith('io.') or T.endswith('domain.RandomAccessFile'))

    def modset(self, c, ctx):
        """contract modifies clauses -> list of (key matcher, ref)"""
        out = []
        for m in c.modifies:
            if m.active(self.prop):
                out += ctx.locs(m.expr)
        return out

    def check_frame(self, st, c):
        if 'noframe' in c.flags:
            return
        ctx = SpecCtx(self, dict(self.env0), self.entry_state, self.entry_state)
        ms = self.modset(c, ctx)
        # variables of packages that the module writes are never relied upon across calls (see call_contract)
        ms = ms + self.volatile_locs(ctx, self.fname)
        anykeys = {k for k, r in ms if r is None}
        for key, a in st.heap.items():
            if key in anykeys:
                continue
            a0 = self.entry_heap(key)
            if a.eq(a0):
                continue
            allowed = [r for k, r in ms if k == key]
            # quick path over the write log
            ok = True
            for k2, r2 in st.writes:
                if k2 != key:
                    continue
                if r2 is None:
                    ok = False
                    break
                ag = st.age.get(r2.get_id())
                if ag and ag[0] == 'fresh' and ag[1] > self.epoch0:
                    continue
                if any(r2.eq(x) for x in allowed):
                    continue
                if any(self.surely(st, r2 == x) for x in allowed) or self.surely(st, r2 >= self.alloc0):
                    continue
                ok = False
                break
            name = 'frame %s' % '.'.join(str(x) for x in key[1:4] if isinstance(x, str) and x)
            if ok:
                self.obls.append(Obligation(name, 'proved', st.trace, backend='log'))
                continue
            r = z3.Const('fr!%d' % self.serial, I)
            self.serial += 1
            self.oblige(st, z3.Implies(z3.And(r < self.alloc0, *[r != x for x in allowed]),
                                       z3.Select(a, r) == z3.Select(a0, r)), name)

    # ------------------------------------------------------------ globals
    def init_globals(self, st):
        """initial values of package variables, by symbolic execution of the package initialisers"""
        self.globinit = {}
        for g in self.p.globals:
            self.globref(g)

    def package_init(self, pkg):
        """values stored by the package initialiser of pkg into its globals (concrete where possible)"""
        cache = self.__dict__.setdefault('_pinit', {})
        if pkg in cache:
            return cache[pkg]
        fn = pkg + '.init'
        sub = Exec(self.p, self.sp, self.prop, self.opts)
        sub.glob = self.glob
        sub.tags, sub.tagname = self.tags, self.tagname
        sub.heap0 = {}
        sub.quiet = 1
        sub.serial = 1000000
        sub.fname = fn
        st = State()
        st.pc, st.heap, st.age, st.typed = [], {}, {}, set()
        st.writes, st.bufw, st.readers, st.trace, st.ghost, st.inherit = [], {}, [], (), {}, {}
        st.qcount = 0
        st.epoch = 1
        st.alloc = z3.IntVal(1000000 + 100000 * (sorted({g.rsplit('.', 1)[0] for g in self.p.globals}).index(pkg) if any(g.rsplit('.', 1)[0] == pkg for g in self.p.globals) else 80))
        st.io = z3.BoolVal(False)
        out = []
        sub.isinit = True

        def k(s, r):
            out.append(s)
        try:
            if fn in self.p.funcs:
                # globals start zeroed
                for g, d in self.p.globals.items():
                    if g.rsplit('.', 1)[0] == pkg and not g.endswith('.init$guard'):
                        T = self.p.elem(d['type'])
                        if not self.p.is_opaque(T):
                            try:
                                sub.store(st, self.globref(g), self.zero(T), T)
                            except Unsupported:
                                pass
                sub.call_inline(fn, [], st, k, ())
        except Unsupported:
            out = []
        cache[pkg] = out[0] if len(out) == 1 else None
        return cache[pkg]

    def global_initial(self, name):
        """python-level initial value (as loaded) of a global that is never written outside init, else None"""
        cache = self.__dict__.setdefault('_ginit', {})
        if name in cache:
            return cache[name]
        pkg = name.rsplit('.', 1)[0]
        cache[name] = None
        st = self.package_init(pkg)
        if st is not None and name in self.p.globals and not self.global_written(name):
            T = self.p.elem(self.p.globals[name]['type'])
            ref = self.globref(name)
            pv = st.ghost.get(('pyval', ref.as_long()))
            if pv is not None:
                cache[name] = ('py', pv, T)
            else:
                cache[name] = ('st', st, T)
        return cache[name]

    def volatile_locs(self, ctx, fn):
        """the package variables that the module writes and that fn or what it may call mentions"""
        out = []
        reach = reached_globals(self.p, fn)
        for g, d in self.p.globals.items():
            if '.init$guard' in g or not self.global_written(g) or g not in reach:
                continue
            T = self.p.elem(d['type'])
            try:
                out += ctx.ptr_locs(self.globref(g), T)
            except Unsupported:
                pass
        return out

    def global_written(self, name):
        """is the address of the global used other than for loads / read-only slicing outside init?
        A conservative syntactic scan over all functions of the module."""
        gw = self.p.__dict__.get('_gw')
        if gw is None:
            gw = self.p._gw = scan_global_writes(self.p)
        return name in gw

    # ------------------------------------------------------------ calls
    def call_inline(self, fname, args, st, k, stack, top=False, binds=None, caller=None):
        f = self.p.funcs[fname]
        if not f['blocks']:
            raise Unsupported('no body: ' + fname)
        if fname in stack:
            raise Unsupported('recursion without contract: ' + fname)
        if len(stack) > 12:
            raise Unsupported('inline depth')
        if self.p.irreducible(fname):
            raise Unsupported('irreducible control flow in ' + fname)
        if not top:
            self.inlined.add(fname)
        fr = Frame()
        fr.fn, fr.f = fname, f
        fr.regs, fr.loops, fr.depth = {}, {}, len(stack)
        fr.defers = []
        fr.stack = stack + (fname,)
        fr.caller = caller
        for prm, a in zip(f['params'], args):
            fr.regs[prm['name']] = a
        for fv, b in zip(f['freevars'], binds or []):
            fr.regs[fv['name']] = b
        fr.k = k
        self.run_block(fr, 0, None, st)

    def run_block(self, fr, bi, prev, st):
        loops = self.p.loops(fr.fn)
        # leaving loops
        if fr.loops:
            gone = [h for h in fr.loops if bi not in loops[h]]
            if gone:
                if any(fr.loops[h].ignore_exits for h in gone):
                    return
                fr = fr.copy()
                for h in gone:
                    del fr.loops[h]
        b = fr.f['blocks'][bi]
        if bi in loops:
            if bi in fr.loops and prev in loops[bi]:
                li = fr.loops[bi]
                li.backedge(fr, prev, st)
                return
            from loops import enter_loop
            enter_loop(self, fr, bi, prev, st)
            return
        self.phis(fr, b, prev, st)
        self.run_instrs(fr, bi, self.first_nonphi(b), st)

    def first_nonphi(self, b):
        i = 0
        while i < len(b['instrs']) and b['instrs'][i]['op'] == 'Phi':
            i += 1
        return i

    def phis(self, fr, b, prev, st):
        vals = []
        for ins in b['instrs']:
            if ins['op'] != 'Phi':
                break
            e = ins['edges'][b['preds'].index(prev)]
            vals.append((ins['name'], self.val(fr, e, st)))
        for n, v in vals:
            fr.regs[n] = v

    def run_instrs(self, fr, bi, i, st):
        b = fr.f['blocks'][bi]
        n = len(b['instrs'])
        while i < n:
            ins = b['instrs'][i]
            op = ins['op']
            if op == 'If':
                c = z3.simplify(self.val(fr, ins['cond'], st))
                t, e = b['succs']
                if z3.is_true(c):
                    return self.run_block(fr, t, bi, st)
                if z3.is_false(c):
                    return self.run_block(fr, e, bi, st)
                ft = self.feasible(st, c)
                fe = self.feasible(st, z3.Not(c))
                if ft and fe:
                    s2 = st.copy()
                    f2 = fr.copy()
                    self.fact(s2, c)
                    s2.trace = s2.trace + ((fr.fn, bi, t),)
                    self.run_block(f2, t, bi, s2)
                    self.fact(st, z3.Not(c))
                    st.trace = st.trace + ((fr.fn, bi, e),)
                    return self.run_block(fr, e, bi, st)
                if ft:
                    self.fact(st, c)
                    return self.run_block(fr, t, bi, st)
                if fe:
                    self.fact(st, z3.Not(c))
                    return self.run_block(fr, e, bi, st)
                return
            if op == 'Jump':
                return self.run_block(fr, b['succs'][0], bi, st)
            if op == 'Return':
                rs = [self.val(fr, r, st) for r in ins['results']]
                if any(li.ignore_exits for li in fr.loops.values()):
                    return
                if not self.quiet and fr.depth == 0:
                    self.witnesses = [v for v in fr.regs.values() if isinstance(v, z3.ArithRef) and v.sort() == I]
                return fr.k(st, rs)
            if op == 'Panic':
                self.oblige(st, z3.BoolVal(False), 'no-panic at %s' % ins.get('pos', ''))
                return
            if op in ('Call',):
                def k(s2, v, fr=fr, i=i, ins=ins):
                    f2 = fr.copy()
                    f2.regs[ins['name']] = v
                    self.run_instrs(f2, bi, i + 1, s2)
                return self.do_call(fr, ins, st, k)
            if op == 'Lookup' and self.p.kind(ins['x']['t']) == 'map':
                return self.do_lookup(fr, ins, st, bi, i)
            if op == 'Next':
                return self.do_next(fr, ins, st, bi, i)
            if op == 'TypeAssert':
                return self.do_typeassert(fr, ins, st, bi, i)
            if op == 'RunDefers':
                if fr.defers:
                    raise Unsupported('defer')
                i += 1
                continue
            m = getattr(self, 'op_' + op, None)
            if m is None:
                raise Unsupported('instruction %s in %s at %s' % (op, fr.fn, ins.get('pos', '')))
            v = m(fr, ins, st)
            if 'name' in ins and v is not None:
                fr.regs[ins['name']] = v
            i += 1

    # ------------------------------------------------------------ operands
    def val(self, fr, o, st):
        k = o['k']
        if k in ('reg', 'param', 'freevar'):
            return fr.regs[o['n']]
        if k == 'const':
            return self.const(o['v'], o['t'])
        if k == 'global':
            return self.globref(o['n']) if o['n'] in self.p.globals else self.ext.extern_global_addr(self, o)
        if k == 'func':
            return Clo(o['n'], [])
        raise Unsupported('operand ' + k)

    def const(self, v, T):
        k = self.p.kind(T) if T else 'nil'
        if v is None:
            return self.zero(T)
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if 'int' in v:
            if k == 'float':
                return z3.RealVal(v['int'])
            return z3.IntVal(int(v['int']))
        if 'rat' in v:
            if k == 'int':
                return z3.IntVal(int(v['rat']))
            return z3.RealVal(v['rat'])
        if 'str' in v:
            if self.ordstr:
                return gostr.const(self, bytes(v['str']).decode('latin1'))
            return strval(v['str'])
        raise Unsupported('constant %s' % v)

    # ------------------------------------------------------------ plain instructions
    def nonnil(self, st, ref, what, ins):
        if isinstance(ref, (LPtr, Regex)):
            return
        if is_const_num(ref) and ref.as_long() > 0:
            return
        ag = st.age.get(ref.get_id())
        if ag and ag[0] == 'fresh':
            return
        key = ('nn', ref.get_id())
        if key in st.typed:
            return
        st.typed.add(key)
        self.keep.append(ref)
        self.oblige(st, ref > 0, 'no nil dereference (%s) in %s' % (what, short(ins.get('pos', ''))))

    def op_Alloc(self, fr, ins, st):
        T = self.p.elem(ins['type'])
        if self.p.kind(T) == 'struct' and self.p.is_opaque(T):
            return self.alloc(st, None)
        if ins.get('heap') and self.p.kind(T) == 'struct' and not self.p.fields(T):
            return self.zerobase()
        return self.alloc(st, T)

    def zerobase(self):
        """the gc runtime gives every heap allocated object of size zero the same address"""
        self.externs_used.add('objects of size zero share one address (gc runtime)')
        return self.globref('runtime.zerobase')

    def op_FieldAddr(self, fr, ins, st):
        x = self.val(fr, ins['x'], st)
        T = self.p.elem(ins['x']['t'])
        idx = ins['field']
        if self.p.is_opaque(T):
            raise Unsupported('field of foreign struct ' + T)
        ft = self.p.fields(T)[idx]['type']
        if isinstance(x, LPtr):
            if x.kind == 'E':
                return LPtr('E', x.base, x.idx, x.st, tuple(x.path) + (idx,))
            raise Unsupported('nested field pointer')
        self.nonnil(st, x, self.p.fields(T)[idx]['name'], ins)
        if self.p.kind(ft) in ('struct', 'array'):
            return self.subref(st, x, T, idx)
        return LPtr('F', x, None, (T, idx), None)

    def op_Field(self, fr, ins, st):
        x = self.val(fr, ins['x'], st)
        return x.fs[ins['field']]

    def op_IndexAddr(self, fr, ins, st):
        x = self.val(fr, ins['x'], st)
        i = self.val(fr, ins['index'], st)
        if self.p.kind(ins['x']['t']) == 'pointer':
            T = self.p.elem(ins['x']['t'])
            t = self.p.t(T)
            self.nonnil(st, x, 'array', ins)
            self.bounds(st, i, z3.IntVal(t['len']), ins)
            return LPtr('E', x, i, t['elem'], ())
        ET = self.p.elem(ins['x']['t'])
        self.bounds(st, i, x.len, ins)
        return LPtr('E', x.arr, z3.simplify(x.off + i), ET, ())

    def bounds(self, st, i, n, ins):
        g = z3.And(i >= 0, i < n)
        if self.surely(st, g):
            if not self.quiet:
                self.obls.append(Obligation('index in range in %s' % short(ins.get('pos', '')), 'proved', st.trace, backend='z3'))
            return
        self.oblige(st, g, 'index in range in %s' % short(ins.get('pos', '')))

    def op_Index(self, fr, ins, st):
        x = self.val(fr, ins['x'], st)
        i = self.val(fr, ins['index'], st)
        k = self.p.kind(ins['x']['t'])
        if k == 'array':
            t = self.p.t(ins['x']['t'])
            self.bounds(st, i, z3.IntVal(t['len']), ins)
            v = self.compose(t['elem'], [self.sel(st, a, i, ref=False) for a in x.comps])
            self.typefacts(st, v, t['elem'])
            return v
        if k == 'string':
            if self.ordstr:
                raise Unsupported('string index where strings are identities')
            self.bounds(st, i, z3.Length(x), ins)
            c = self.fresh('ch')
            self.fact(st, c == z3.StrToCode(z3.SubString(x, i, 1)))
            self.fact(st, z3.And(c >= 0, c <= 255))
            return c
        raise Unsupported('Index on ' + k)

    def do_lookup(self, fr, ins, st, bi, i):
        m = self.val(fr, ins['x'], st)
        key = self.val(fr, ins['index'], st)
        MT = self.p.under(ins['x']['t'])
        ET = self.p.elem(MT)
        d = self.map_dom(st, m, MT)
        kt = self.keyterm(key, self.p.t(MT)['key'])
        c = z3.simplify(z3.And(m != 0, self.sel(st, d, kt, ref=False)))

        def go(s, f, present):
            v = self.map_get(s, m, MT, kt) if present else self.zero(ET)
            r = Tup([v, z3.BoolVal(present)]) if ins['commaok'] else v
            f.regs[ins['name']] = r
            self.run_instrs(f, bi, i + 1, s)
        ft = self.feasible(st, c)
        fe = self.feasible(st, z3.Not(c))
        if ft and fe:
            s2, f2 = st.copy(), fr.copy()
            self.fact(s2, c)
            go(s2, f2, True)
        elif ft:
            self.fact(st, c)
            return go(st, fr, True)
        if fe:
            self.fact(st, z3.Not(c))
            go(st, fr, False)

    def keyterm(self, key, KT):
        if self.p.kind(KT) in ('int', 'string', 'pointer', 'bool'):
            return key
        raise Unsupported('map key type ' + KT)

    def mapkeys(self, MT):
        ks = self.leaf_sort(self.p.kind(self.p.t(MT)['key']))
        D = ('D', MT, ks)
        V = []
        for path, lt in self.flat(self.p.elem(MT)):
            for n, s in self.comps(lt):
                V.append(('V', MT, path, n, ks, s))
        return D, V

    def map_dom(self, st, m, MT):
        D, _ = self.mapkeys(MT)
        return self.hread(st, D, m)

    def map_get(self, st, m, MT, kt, facts=True):
        _, V = self.mapkeys(MT)
        terms = [self.sel(st, self.hread(st, key, m), kt, ref=False) for key in V]
        v = self.compose(self.p.elem(MT), terms)
        if facts:
            self.typefacts(st, v, self.p.elem(MT))
        return v

    def setcard(self, dom):
        ks = dom.sort().domain()
        f = self.ufcache.get(('card', str(ks)))
        if f is None:
            f = z3.Function('card_' + str(ks), z3.ArraySort(ks, B), I)
            self.ufcache[('card', str(ks))] = f
        return f(dom)

    def card_of(self, st, dom):
        c = self.setcard(dom)
        if ('card', c.get_id()) not in st.typed:
            st.typed.add(('card', c.get_id()))
            self.keep.append(c)
            self.fact(st, z3.And(c >= 0, c <= MAXLEN))
            if z3.is_const_array(dom):
                self.fact(st, c == 0)
            elif z3.is_store(dom):
                a, i, v = dom.children()
                ca = self.card_of(st, a)
                self.fact(st, c == ca + z3.If(z3.Select(a, i) == v, 0, z3.If(v, 1, -1)))
        return c

    def op_MapUpdate(self, fr, ins, st):
        m = self.val(fr, ins['map'], st)
        key = self.val(fr, ins['key'], st)
        v = self.val(fr, ins['value'], st)
        MT = self.p.under(ins['map']['t'])
        self.oblige_nz(st, m, 'write to nil map', ins)
        ET = self.p.elem(MT)
        kt = self.keyterm(key, self.p.t(MT)['key'])
        D, V = self.mapkeys(MT)
        self.check_origin(st, v, ET)
        dom = self.hread(st, D, m)
        self.card_of(st, dom)
        nd = z3.Store(dom, kt, z3.BoolVal(True))
        self.card_of(st, nd)
        self.hwrite(st, D, m, nd)
        for key2, t in zip(V, self.leafvals(v, ET)):
            L = self.hread(st, key2, m)
            NL = z3.Store(L, kt, t)
            if self.sums(MT) and key2[3] == 'len':
                msum, psum = self.sumfuns()
                self.fact(st, msum(nd, NL) == msum(dom, L) + t - z3.If(z3.Select(dom, kt), z3.Select(L, kt), 0))
            self.hwrite(st, key2, m, NL)

    # sums of the lengths of the values of a map with slice values: msum(domain, lengths) of the whole map,
    # psum(order, lengths, k) of the first k values in iteration order
    def sums(self, MT):
        return self.p.kind(self.p.elem(MT)) == 'slice' and self.leaf_sort(self.p.kind(self.p.t(MT)['key'])) == I

    def sumfuns(self):
        r = self.ufcache.get('sums')
        if r is None:
            AI = z3.ArraySort(I, I)
            r = (z3.Function('msum', z3.ArraySort(I, B), AI, I), z3.Function('psum', AI, AI, I, I))
            self.ufcache['sums'] = r
        return r

    def maplens(self, st, m, MT):
        _, V = self.mapkeys(MT)
        return self.hread(st, [k for k in V if k[3] == 'len'][0], m)

    def oblige_nz(self, st, ref, what, ins):
        self.nonnil(st, ref, what, ins)

    def op_MakeMap(self, fr, ins, st):
        MT = self.p.under(ins['type'])
        r = self.alloc(st)
        D, V = self.mapkeys(MT)
        e = z3.K(D[-1], z3.BoolVal(False))
        self.hwrite(st, D, r, e)
        if self.sums(MT):
            self.fact(st, self.sumfuns()[0](e, self.maplens(st, r, MT)) == 0)
        return r

    def op_MakeSlice(self, fr, ins, st):
        n = self.val(fr, ins['len'], st)
        c = self.val(fr, ins['cap'], st)
        ET = self.p.elem(ins['type'])
        self.oblige(st, z3.And(n >= 0, n <= c, c <= MAXLEN), 'make size valid in %s' % short(ins.get('pos', '')))
        r = self.alloc(st)
        for key in self.ekeys(ET):
            self.hwrite(st, key, r, z3.K(I, self.zero_term(key[-1])))
        return Slice(r, z3.IntVal(0), n, c)

    def op_Slice(self, fr, ins, st):
        x = self.val(fr, ins['x'], st)
        k = self.p.kind(ins['x']['t'])
        lo = self.val(fr, ins['low'], st) if ins['low'] else z3.IntVal(0)
        pos = short(ins.get('pos', ''))
        if k == 'pointer':
            T = self.p.elem(ins['x']['t'])
            n = z3.IntVal(self.p.t(T)['len'])
            self.nonnil(st, x, 'array', ins)
            s = Slice(x, z3.IntVal(0), n, n)
        elif k == 'string':
            if self.ordstr:
                raise Unsupported('substring where strings are identities')
            hi = self.val(fr, ins['high'], st) if ins['high'] else z3.Length(x)
            self.oblige(st, z3.And(0 <= lo, lo <= hi, hi <= z3.Length(x)), 'slice bounds in ' + pos)
            return z3.SubString(x, lo, hi - lo)
        else:
            s = x
        hi = self.val(fr, ins['high'], st) if ins['high'] else s.len
        mx = self.val(fr, ins['max'], st) if ins['max'] else s.cap
        g = z3.And(lo >= 0, lo <= hi, hi <= mx, mx <= s.cap)
        if self.surely(st, g):
            if not self.quiet:
                self.obls.append(Obligation('slice bounds in ' + pos, 'proved', st.trace, backend='z3'))
        else:
            self.oblige(st, g, 'slice bounds in ' + pos)
        return Slice(s.arr, z3.simplify(s.off + lo), z3.simplify(hi - lo), z3.simplify(mx - lo))

    def op_SliceToArrayPointer(self, fr, ins, st):
        # *(*[n]T)(s): represented as a slice view; only loads of it are supported
        s = self.val(fr, ins['x'], st)
        T = self.p.elem(ins['type'])
        n = self.p.t(T)['len']
        self.oblige(st, s.len >= n, 'slice to array length in %s' % short(ins.get('pos', '')))
        return ('sliceptr', s, n)

    def op_UnOp(self, fr, ins, st):
        tok = ins['tok']
        if tok == '*':
            o = ins['x']
            T = ins['type']
            if o['k'] == 'global':
                v = self.load_global(fr, o, T, st)
                if v is not None:
                    return v
            p = self.val(fr, o, st)
            if isinstance(p, tuple) and p[0] == 'sliceptr':
                s = p[1]
                ET = self.p.t(T)['elem']
                comps = []
                for key in self.ekeys(ET):
                    A = self.hread(st, key, s.arr)
                    a = z3.K(I, self.zero_term(key[-1]))
                    for j in range(p[2]):
                        a = z3.Store(a, j, self.sel(st, A, z3.simplify(s.off + j), ref=False))
                    comps.append(a)
                return AVal(comps, p[2])
            self.nonnil(st, p, 'load', ins)
            return self.load(st, p, T)
        if tok == '<-':
            return self.ext.chan_recv(self, fr, ins, st)
        x = self.val(fr, ins['x'], st)
        T = ins['type']
        if tok == '!':
            return z3.Not(x)
        if tok == '-':
            if self.p.kind(T) == 'float':
                return -x
            return self.wrap(st, -x, T, '-')
        if tok == '^':
            lo, hi = self.p.irange(T)
            return z3.simplify((hi - x) if lo == 0 else (-1 - x))
        raise Unsupported('unop ' + tok)

    def load_global(self, fr, o, T, st):
        name = o['n']
        if name not in self.p.globals:
            return self.ext.extern_global(self, name, T, st)
        if getattr(self, 'isinit', False):
            pv = st.ghost.get(('pyval', self.globref(name).as_long()))
            return pv
        gi = self.global_initial(name)
        if gi is None:
            return None
        if gi[0] == 'py':
            return gi[1]
        if self.p.kind(T) == 'interface':
            # an error made by the package initialiser
            v = self.load(gi[1], self.globref(name), T, facts=False)
            return v if is_const_num(v.tag) and is_const_num(v.val) else None
        if self.p.kind(T) in ('pointer', 'map', 'slice', 'chan'):
            return None
        return self.load(gi[1], self.globref(name), T, facts=False)

    def global_array_facts(self, st, ref):
        pass

    def op_BinOp(self, fr, ins, st):
        tok = ins['tok']
        x = self.val(fr, ins['x'], st)
        y = self.val(fr, ins['y'], st)
        xt = ins['x']['t']
        k = self.p.kind(xt)
        if k == 'nil':
            xt = ins['y']['t']
            k = self.p.kind(xt)
        if tok in ('==', '!='):
            e = self.equal(x, y, xt, ins['y']['t'])
            return z3.simplify(e if tok == '==' else z3.Not(e))
        if k == 'int':
            if tok in ('<', '<=', '>', '>='):
                return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[tok]
            T = ins['type']
            if tok == '+':
                return self.wrap(st, x + y, T, '+')
            if tok == '-':
                return self.wrap(st, x - y, T, '-')
            if tok == '*':
                return self.wrap(st, x * y, T, '*')
            if tok in ('/', '%'):
                self.oblige(st, y != 0, 'no division by zero in %s' % short(ins.get('pos', '')))
                nonneg = self.surely(st, z3.And(x >= 0, y > 0))
                if nonneg:
                    q, r = self.divmod_(st, x, y)
                else:
                    ax = z3.If(x >= 0, x, -x)
                    ay = z3.If(y >= 0, y, -y)
                    q = z3.If((x >= 0) == (y >= 0), ax / ay, -(ax / ay))
                    r = z3.If(x >= 0, ax % ay, -(ax % ay))
                return self.wrap(st, q, T) if tok == '/' else r
            if tok in ('<<', '>>'):
                ys = z3.simplify(y)
                if is_const_num(ys):
                    n = ys.as_long()
                    if n < 0:
                        self.oblige(st, z3.BoolVal(False), 'negative shift')
                    if tok == '<<':
                        return self.wrap(st, x * (1 << min(n, 200)), T, '*')
                    return self.divmod_(st, x, z3.IntVal(1 << min(n, 200)))[0]   # floor division = arithmetic shift
                self.oblige(st, y >= 0, 'shift count non-negative')
                e = y
                p2 = z3.IntVal(0)
                for n in range(WIDTH[self.p.intname(T)] - 1, -1, -1):
                    p2 = z3.If(e == n, z3.IntVal(1 << n), p2)
                if tok == '<<':
                    return self.wrap(st, z3.If(e >= WIDTH[self.p.intname(T)], 0, x * p2), T, '*')
                return z3.If(e >= WIDTH[self.p.intname(T)], z3.If(x < 0, z3.IntVal(-1), z3.IntVal(0)), x / z3.If(p2 == 0, z3.IntVal(1), p2))
            if tok in ('&', '|', '^', '&^'):
                return self.bitop(st, tok, x, y, T)
        if k == 'float':
            if tok in ('<', '<=', '>', '>='):
                return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[tok]
            return self.ext.float_op(self, st, tok, x, y, ins)
        if k == 'string':
            if tok == '+':
                return gostr.concat(self, x, y)
            if self.opts.get('strings') == 'id' and self.ordstr:
                raise Unsupported('order of strings where strings are identities')
            if tok == '<':
                return x < y
            if tok == '<=':
                return x <= y
            if tok == '>':
                return y < x
            if tok == '>=':
                return y <= x
        if k == 'bool':
            if tok == '&':
                return z3.And(x, y)
            if tok == '|':
                return z3.Or(x, y)
        raise Unsupported('binop %s on %s' % (tok, k))

    def divmod_(self, st, x, y):
        ys = z3.simplify(y)
        if is_const_num(ys) and ys.as_long() == 1:
            return x, z3.IntVal(0)
        if is_const_num(z3.simplify(x)) and is_const_num(ys) and ys.as_long() > 0:
            a, b = z3.simplify(x).as_long(), ys.as_long()
            return z3.IntVal(a // b), z3.IntVal(a % b)
        if is_const_num(ys) and ys.as_long() > 0:
            b, d = self.undiv(x)
            if d > 1:
                return b / z3.IntVal(d * ys.as_long()), x % y
        return x / y, x % y

    def undiv(self, x):
        """x as b / d with a positive constant d"""
        d = 1
        while z3.is_app_of(x, z3.Z3_OP_IDIV) and is_const_num(x.arg(1)) and x.arg(1).as_long() > 0:
            d *= x.arg(1).as_long()
            x = x.arg(0)
        return x, d

    def bitop(self, st, tok, x, y, T):
        lo, hi = self.p.irange(T)
        xs, ys = z3.simplify(x), z3.simplify(y)
        if is_const_num(xs) and is_const_num(ys):
            a, b = xs.as_long(), ys.as_long()
            v = {'&': a & b, '|': a | b, '^': a ^ b, '&^': a & ~b}[tok]
            return z3.IntVal(v)
        if is_const_num(xs):
            if tok != '&^':
                x, y, xs, ys = y, x, ys, xs
        if is_const_num(ys):
            m = ys.as_long()
            if tok == '&' and m >= 0:
                if m == 0:
                    return z3.IntVal(0)
                # contiguous mask
                low = (m & -m)
                if ((m // low) + 1) & (m // low) == 0:
                    top = m // low + 1
                    return z3.simplify(((x / low) % top) * low)
            if tok == '|' and m == 0 or tok == '^' and m == 0:
                return x
            if tok == '&^' and m >= 0 and m and ((m // (m & -m)) + 1) & (m // (m & -m)) == 0:
                low = m & -m
                return z3.simplify(x - ((x / low) % (m // low + 1)) * low)
        # disjoint bits: x | y with y < 2^k and x multiple of 2^k
        if tok in ('|', '^', '&'):
            for n in (8, 16, 24, 32, 40, 48, 56):
                for a, b in ((x, y), (y, x)):
                    if self.surely(st, z3.And(a >= 0, b >= 0, b < (1 << n), a % (1 << n) == 0)):
                        return z3.IntVal(0) if tok == '&' else self.wrap(st, a + b, T)
        w = WIDTH[self.p.intname(T)]
        f = self.ufcache.setdefault(('bit', tok, w), z3.Function('bit_%s_%d' % ({'&': 'and', '|': 'or', '^': 'xor', '&^': 'andnot'}[tok], w), I, I, I))
        r = f(x, y)
        self.fact(st, z3.And(r >= lo, r <= hi))
        if lo == 0:
            if tok == '&':
                self.fact(st, z3.And(r <= x, r <= y))
            elif tok == '|':
                self.fact(st, z3.And(r >= x, r >= y, r <= x + y))
            elif tok == '^':
                self.fact(st, z3.And(r <= x + y, (r == 0) == (x == y)))
        return r

    def equal(self, x, y, T, T2=None):
        k = self.p.kind(T)
        if k == 'interface' or (T2 and self.p.kind(T2) == 'interface'):
            if not isinstance(x, Iface):
                x = self.box_cmp(x, T)
            if not isinstance(y, Iface):
                y = Iface(z3.IntVal(0), z3.IntVal(0)) if self.p.kind(T2) == 'nil' else self.box_cmp(y, T2)
            if is_const_num(y.tag) and y.tag.as_long() == 0:
                return x.tag == 0
            if is_const_num(x.tag) and x.tag.as_long() == 0:
                return y.tag == 0
            return z3.And(x.tag == y.tag, x.val == y.val)
        if k == 'slice':
            # only comparison with nil exists in Go
            o = x if not (is_const_num(x.arr) and x.arr.as_long() == 0 and is_const_num(x.cap)) else y
            return o.arr == 0
        if k == 'struct':
            return z3.And([self.equal(a, b, f['type']) for a, b, f in zip(x.fs, y.fs, self.p.fields(T))] + [z3.BoolVal(True)])
        if k == 'array':
            es = []
            for a, b in zip(x.comps, y.comps):
                for i in range(x.n):
                    es.append(z3.Select(a, i) == z3.Select(b, i))
            return z3.And(es)
        if isinstance(x, (LPtr, Clo, Regex)) or isinstance(y, (LPtr, Clo, Regex)):
            o = y if isinstance(x, (LPtr, Clo, Regex)) else x
            if isinstance(o, z3.ExprRef) and is_const_num(o) and o.as_long() == 0:
                return z3.BoolVal(False)
            raise Unsupported('pointer comparison')
        return x == y

    def box_cmp(self, x, T):
        raise Unsupported('comparison of interface with %s' % T)

    def op_Convert(self, fr, ins, st):
        x = self.val(fr, ins['x'], st)
        a, b = ins['x']['t'], ins['type']
        ka, kb = self.p.kind(a), self.p.kind(b)
        if ka == 'int' and kb == 'int':
            na, nb = self.p.intname(a), self.p.intname(b)
            if nb in ('uint8', 'byte') and na in ('uint64', 'uint32', 'uint16', 'uint') and not is_const_num(z3.simplify(x)):
                # byte(n >> 8k) is a byte of the encoding of n
                n = WIDTH[na] // 8
                y, d = self.undiv(x)
                k = d.bit_length() - 1
                if d == 1 << k and k % 8 == 0 and k // 8 < n and (d > 1 or not self.surely(st, z3.And(x >= 0, x <= 255))) and self.surely(st, z3.And(y >= 0, y < 1 << (8 * n))):
                    r = self.ext.encode(self, st, y, n)[n - 1 - k // 8]
                    return r
            return self.wrap(st, x, b)
        if ka == 'int' and kb == 'float':
            return self.ext.int_to_float(self, st, x, b)
        if ka == 'float' and kb == 'float':
            return self.ext.float_to_float(self, st, x, a, b)
        if ka == 'float' and kb == 'int':
            return self.ext.float_to_int(self, st, x, b, ins)
        if ka == 'string' and kb == 'string':
            return x
        if ka == 'slice' and kb == 'string':
            return self.ext.bytes_to_string(self, st, x, a)
        if ka == 'string' and kb == 'slice':
            return self.ext.string_to_bytes(self, st, x, b)
        raise Unsupported('convert %s to %s' % (a, b))

    def op_ChangeType(self, fr, ins, st):
        return self.val(fr, ins['x'], st)

    def op_ChangeInterface(self, fr, ins, st):
        return self.val(fr, ins['x'], st)

    def op_MakeInterface(self, fr, ins, st):
        x = self.val(fr, ins['x'], st)
        return self.box(st, x, ins['x']['t'])

    def dynof(self, st, x):
        """(type, value) in an interface whose type is decided by constants, e.g. one read back from a list"""
        if x.dyn is not None:
            return x.dyn
        t, v = z3.simplify(x.tag), z3.simplify(x.val)
        T = self.tagname.get(t.as_long()) if is_const_num(t) else None
        if T is None:
            return None
        w = st.ghost.get(('boxed', v.get_id()))
        if w is not None and w[0] == T:
            return w
        return (T, v) if self.p.kind(T) == 'int' else None

    def boxuf(self, T, j, sort):
        key = ('box', T, j)
        if key not in self.ufcache:
            self.ufcache[key] = z3.Function('unbox_%s_%d' % (T, j), I, sort)
        return self.ufcache[key]

    def box(self, st, x, T):
        k = self.p.kind(T)
        tg = self.tag(T)
        if k in ('pointer', 'map', 'chan') and isinstance(x, z3.ExprRef):
            return Iface(tg, x, (T, x))
        if k == 'int':
            st.ghost[('boxed', z3.simplify(x).get_id())] = (T, x)
            self.keep.append(z3.simplify(x))
            return Iface(tg, x, (T, x))
        if isinstance(x, (LPtr, Clo, Regex, AVal)) or k in ('array', 'func'):
            b = self.fresh('boxp')
            st.ghost[('boxed', b.get_id())] = (T, x)
            self.keep.append(b)
            return Iface(tg, b, (T, x))
        b = self.fresh('box')
        st.ghost[('boxed', b.get_id())] = (T, x)
        self.keep.append(b)
        for j, t in enumerate(self.leafvals(x, T)):
            self.fact(st, self.boxuf(T, j, t.sort())(b) == t)
        if k == 'string':
            # boxed strings are equal exactly when the strings are
            f = self.ufcache.setdefault(('strbox',), z3.Function('strbox', x.sort(), I))
            self.fact(st, b == f(x))
        return Iface(tg, b, (T, x))

    def unbox(self, st, v, T):
        if not isinstance(v, Iface):
            raise Unsupported('not an interface')
        if v.dyn is not None and v.dyn[0] == T:
            return v.dyn[1]
        k = self.p.kind(T)
        if k in ('pointer', 'map', 'chan', 'int'):
            self.typefacts(st, v.val, T)
            return v.val
        terms = []
        j = 0
        for path, lt in self.flat(T):
            for n, s in self.comps(lt):
                terms.append(self.boxuf(T, j, s)(v.val))
                j += 1
        r = self.compose(T, terms)
        self.typefacts(st, r, T)
        return r

    def do_typeassert(self, fr, ins, st, bi, i):
        x = self.val(fr, ins['x'], st)
        T = ins['asserted']
        if self.p.kind(T) == 'interface':
            raise Unsupported('type assertion to interface')
        c = z3.simplify(x.tag == self.tag(T))

        def go(s, f, ok):
            v = self.unbox(s, x, T) if ok else self.zero(T)
            f.regs[ins['name']] = Tup([v, z3.BoolVal(ok)]) if ins['commaok'] else v
            self.run_instrs(f, bi, i + 1, s)
        if not ins['commaok']:
            self.oblige(st, c, 'type assertion holds in %s' % short(ins.get('pos', '')))
            return go(st, fr, True)
        ft, fe = self.feasible(st, c), self.feasible(st, z3.Not(c))
        if ft:
            s2, f2 = (st.copy(), fr.copy()) if fe else (st, fr)
            self.fact(s2, c)
            go(s2, f2, True)
        if fe:
            self.fact(st, z3.Not(c))
            go(st, fr, False)

    def op_Extract(self, fr, ins, st):
        return self.val(fr, ins['x'], st).vs[ins['index']]

    def op_Store(self, fr, ins, st):
        p = self.val(fr, ins['addr'], st)
        v = self.val(fr, ins['val'], st)
        self.nonnil(st, p, 'store', ins)
        self.store(st, p, v, self.p.elem(ins['addr']['t']))

    def op_MakeClosure(self, fr, ins, st):
        return Clo(ins['fn']['n'], [self.val(fr, b, st) for b in ins['bindings']])

    def op_DebugRef(self, fr, ins, st):
        return None

    def op_MakeChan(self, fr, ins, st):
        return self.ext.make_chan(self, st, self.val(fr, ins['size'], st), ins)

    def op_Send(self, fr, ins, st):
        self.ext.chan_send(self, fr, ins, st)

    # ------------------------------------------------------------ map iteration
    def op_Range(self, fr, ins, st):
        x = self.val(fr, ins['x'], st)
        if self.p.kind(ins['x']['t']) != 'map':
            return RangeIter(kind='string', map=x, it=z3.IntVal(0), id=self.serial, n=z3.Length(x), mtype=None, ord=None, inv=None, dom=None)
        MT = self.p.under(ins['x']['t'])
        ks = self.leaf_sort(self.p.kind(self.p.t(MT)['key']))
        dom = self.map_dom(st, x, MT)
        dom = z3.If(x == 0, z3.K(ks, z3.BoolVal(False)), dom) if not (self.surely(st, x != 0)) else dom
        n = self.card_of(st, dom)
        ord_ = self.fresh('ord', z3.ArraySort(I, ks))
        inv = self.fresh('inv', z3.ArraySort(ks, I))
        i, j = z3.Ints('i j')
        kx = z3.Const('kx', ks)
        self.fact(st, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(dom, z3.Select(ord_, i)), z3.Select(inv, z3.Select(ord_, i)) == i)), patterns=[z3.Select(ord_, i)]))
        self.fact(st, z3.ForAll([kx], z3.Implies(z3.Select(dom, kx), z3.And(0 <= z3.Select(inv, kx), z3.Select(inv, kx) < n, z3.Select(ord_, z3.Select(inv, kx)) == kx)), patterns=[z3.Select(inv, kx), z3.Select(dom, kx)]))
        if self.sums(MT):
            msum, psum = self.sumfuns()
            L = self.maplens(st, x, MT)
            self.fact(st, z3.And(psum(ord_, L, 0) == 0, psum(ord_, L, n) == msum(dom, L)))
        if 'enumerates' in self.sp.ufuncs and ks == I:
            # by definition: ord lists every element of dom exactly once
            self.fact(st, z3.Function('enumerates', z3.ArraySort(I, I), I, z3.ArraySort(I, B), B)(ord_, n, dom))
        self.serial += 1
        return RangeIter(kind='map', map=x, mtype=MT, n=n, ord=ord_, inv=inv, id=self.serial, dom=dom, it=z3.IntVal(0))

    def do_next(self, fr, ins, st, bi, i):
        name = ins['iter']['n']
        it = fr.regs[name]
        pos = it.it
        c = z3.simplify(pos < it.n)
        if it.kind == 'string':
            raise Unsupported('range over string')

        def go(s, f, more):
            MT = it.mtype
            KT = self.p.t(MT)['key']
            if more:
                kt = z3.Select(it.ord, pos)
                self.typefacts(s, kt, KT)
                self.fact(s, z3.And(z3.Select(it.dom, kt), z3.Select(it.inv, kt) == pos))
                # the map must not change while it is ranged over, except for values of keys
                d = self.map_dom(s, it.map, MT)
                if not d.eq(it.dom) and not z3.is_app_of(it.dom, z3.Z3_OP_ITE):
                    self.oblige(s, d == it.dom, 'map unchanged while ranging')
                v = self.map_get(s, it.map, MT, kt)
                if self.sums(MT):
                    _, psum = self.sumfuns()
                    L = self.maplens(s, it.map, MT)
                    nx = z3.simplify(pos + 1)
                    self.fact(s, z3.And(psum(it.ord, L, nx) == psum(it.ord, L, pos) + v.len, psum(it.ord, L, pos) >= 0, psum(it.ord, L, nx) <= psum(it.ord, L, it.n)))
                ni = RangeIter(kind='map', map=it.map, mtype=MT, n=it.n, ord=it.ord, inv=it.inv, id=it.id, dom=it.dom, it=z3.simplify(pos + 1))
                f.regs[name] = ni
                f.regs[ins['name']] = Tup([z3.BoolVal(True), kt, v])
            else:
                f.regs[ins['name']] = Tup([z3.BoolVal(False), None, None])
            self.run_instrs(f, bi, i + 1, s)
        ft, fe = self.feasible(st, c), self.feasible(st, z3.Not(c))
        if ft:
            s2, f2 = (st.copy(), fr.copy()) if fe else (st, fr)
            self.fact(s2, c)
            go(s2, f2, True)
        if fe:
            self.fact(st, z3.Not(c))
            go(st, fr, False)

    # ------------------------------------------------------------ calls
    def do_call(self, fr, ins, st, k):
        c = ins['call']
        if c['mode'] == 'call' and c['fn']['k'] == 'builtin':
            return self.builtin(fr, ins, c, st, k)
        args = [self.val(fr, a, st) for a in c['args']]
        ats = [a['t'] for a in c['args']]
        if c['mode'] == 'invoke':
            recv = self.val(fr, c['recv'], st)
            return self.invoke(fr, ins, c, recv, args, ats, st, k)
        if 'static' in c:
            binds = None
            fv = fr.regs.get(c['fn'].get('n')) if c['fn']['k'] == 'reg' else None
            if isinstance(fv, Clo):
                binds = fv.binds
            return self.call_static(c['static'], c.get('origin'), args, ats, st, k, fr, ins, binds)
        fv = self.val(fr, c['fn'], st)
        if isinstance(fv, z3.ExprRef) and z3.is_int_value(z3.simplify(fv)):
            fv = self.closures.get(z3.simplify(fv).as_long(), fv)
        if isinstance(fv, Clo):
            return self.call_static(fv.fn, None, args, ats, st, k, fr, ins, fv.binds)
        raise Unsupported('indirect call in %s at %s' % (fr.fn, ins.get('pos', '')))

    def call_static(self, name, origin, args, ats, st, k, fr, ins, binds=None):
        def kk(s, rs):
            k(s, rs[0] if len(rs) == 1 else Tup(rs))
        con = self.sp.contracts.get(name)
        if con is not None and name in self.p.funcs and not ((name.startswith(self.ext.FB) or name.endswith('helpers.NewFileBuffer')) and '/helpers.' not in self.fname):
            if not ('inline' in con.flags):
                return self.call_contract(con, name, args, st, k, fr, ins)
        if (name.startswith(self.ext.FB) or name.endswith('helpers.NewFileBuffer')) and '/helpers.' not in self.fname:
            return self.ext.filebuffer_call(self, name, args, ats, st, k, fr, ins)
        if name in self.p.funcs and self.p.funcs[name]['blocks']:
            return self.call_inline(name, args, st, kk, fr.stack, binds=binds, caller=fr)
        return self.ext.call(self, name, origin, args, ats, st, k, fr, ins)

    def invoke(self, fr, ins, c, recv, args, ats, st, k):
        iface, m = c['iface'], c['method']
        if self.ext.is_stream_iface(self, iface, m):
            return self.ext.stream_call(self, m, recv, c['recv']['t'], args, ats, st, k, fr, ins)
        r = self.ext.invoke(self, iface, m, recv, args, ats, st, k, fr, ins)
        if r is not NotImplemented:
            return r
        # closed world: the only implementation in the module
        T = None
        if recv.dyn is not None:
            T = recv.dyn[0]
        elif is_const_num(recv.tag) and recv.tag.as_long() in self.tagname:
            T = self.tagname[recv.tag.as_long()]
        else:
            im = self.p.impls.get(iface, [])
            if len(im) == 1:
                T = im[0]['type']
                self.assumptions.add('closed world: %s is implemented by %s only' % (iface, T))
        if T is None and not self.p.impls.get(iface) and 'sig' in c:
            # a dependency without any implementation in the module: any result, no effect on the module's state
            self.assumptions.add('%s.%s of an implementation outside the module changes nothing here' % (iface, m))
            if not self.surely(st, recv.tag != 0):
                self.oblige(st, recv.tag != 0, 'no nil interface call of %s in %s' % (m, short(ins.get('pos', ''))))
            rts = [r['type'] for r in c['sig']['results']]
            if rts and rts[-1] == 'error':
                s2 = st.copy()
                r2 = [self.havoc_value(s2, t, m) for t in rts[:-1]] + [Iface(self.tag('foreign error'), self.alloc(s2))]
                k(s2, r2[0] if len(rts) == 1 else Tup(r2))
                rs = [self.havoc_value(st, t, m) for t in rts[:-1]] + [Iface(z3.IntVal(0), z3.IntVal(0))]
            else:
                rs = [self.havoc_value(st, t, m) for t in rts]
            return k(st, rs[0] if len(rs) == 1 else Tup(rs))
        if T is None:
            raise Unsupported('call of %s.%s with unknown implementation' % (iface, m))
        if not is_const_num(recv.tag):
            self.oblige(st, recv.tag != 0, 'no nil interface call of %s in %s' % (m, short(ins.get('pos', ''))))
            self.fact(st, recv.tag == self.tag(T))
            if self.p.kind(T) == 'pointer':
                self.fact(st, recv.val > 0)
        fn = self.p.methods.get(T, {}).get(m)
        if fn is None:
            raise Unsupported('no method %s of %s' % (m, T))
        rv = self.unbox(st, recv, T)
        return self.call_static(fn, None, [rv] + args, [T] + ats, st, k, fr, ins)

    def call_contract(self, con, name, args, st, k, fr, ins):
        f = self.p.funcs[name]
        self.called.add(name)
        if len(con.params) != len(args):
            raise Unsupported('contract of %s names %d parameters' % (name, len(con.params)))
        env = {n: TV(v, prm['type']) for n, v, prm in zip(con.params, args, f['params'])}
        nm = shortfn(name)
        if f.get('recv') and self.p.kind(f['recv']) == 'pointer':
            self.nonnil(st, args[0], nm, ins)
        ctx = SpecCtx(self, env, st, st)
        for cl in con.requires:
            if cl.active(self.prop):
                g = ctx.bool(cl.expr)
                if any(x in name for x in self.opts.get('elsewhere', ())):
                    self.assumptions.add('%s is called as it requires (%s); verified under other properties' % (nm, cl.text))
                    self.fact(st, g)
                    continue
                self.oblige(st, g, '%s requires %s in %s' % (nm, cl.name, short(ins.get('pos', ''))), cl.text)
        for v, prm in zip(args, f['params']):
            if isinstance(v, Iface) and self.stream_type(prm['type']):
                if not is_const_num(v.tag) or v.tag.as_long() == 0:
                    if not self.surely(st, v.tag != 0):
                        self.oblige(st, v.tag != 0, '%s gets a stream in %s' % (nm, short(ins.get('pos', ''))))
        pre = SpecCtx(self, dict(env), st, st)
        rds = [v.val for v, prm in zip(args, f['params']) if isinstance(v, Iface) and self.stream_type(prm['type']) and v.dyn and v.dyn[0] == '*bufio.Reader']
        for r in rds:
            self.ext.prep_reader(self, st, r, True)
        self.ext.before_stream_change(self, st, [v.val for v, prm in zip(args, f['params']) if isinstance(v, Iface) and self.stream_type(prm['type']) and not any(v.val.eq(r) for r in rds)] + [r for key, r in self.modset(con, pre) if key[0] == 'S' and r is not None])
        old = st.copy()
        for n, e in con.lets:
            ctx.env[n] = ctx.eval(e)
        octx = SpecCtx(self, dict(ctx.env), old, old)
        ms = self.modset(con, octx)
        streams = []
        seen = set()
        if 'pure' not in con.flags:
            ms = ms + [(k, r) for k, r in self.volatile_locs(octx, name) if k in st.heap]
        for key, ref in ms:
            if ref is None:
                a = self.fresh('hv_' + str(key[1])[-12:], self.keysort(key))
                st.heap[key] = a
                st.writes.append((key, None))
                continue
            if (key, ref.get_id()) in seen:
                continue
            seen.add((key, ref.get_id()))
            srt = self.keysort(key).range()
            v = self.fresh('hv_%s' % (str(key[2]) if key[0] == 'F' else str(key[1]))[-14:], srt)
            self.hwrite(st, key, ref, v)
            if key[0] == 'S' and key[1] == 'content':
                self.arr_range(st, key, v)
                streams.append(ref)
            elif key[0] == 'S':
                self.ext.havoc_fact(self, st, key, v)
            elif key[0] == 'E':
                self.arr_range(st, key, v)
            elif key[0] == 'F' and key[3] == '' and key[-1] == I:
                lt = [x['type'] for x in self.p.fields(key[1]) if x['name'] == key[2]][0]
                if self.p.kind(lt) == 'int':
                    self.typefacts(st, v, lt)
        if 'pure' not in con.flags:
            na = self.fresh('A')
            self.fact(st, na >= st.alloc)
            st.alloc = na
            st.epoch += 1
        if streams or any(key[0] == 'S' for key, r in ms):
            nio = self.fresh('io_failed', B)
            self.fact(st, z3.Implies(st.io, nio))
            st.io = nio
        rts = [r['type'] for r in f['sig']['results']]
        if rts and rts[-1] == 'error' and 'nofork' not in con.flags:
            s2 = st.copy()
            self.finish_call(con, f, nm, ctx, rts, old, streams, s2, k, fr.copy(), ins, True)
            return self.finish_call(con, f, nm, ctx, rts, old, streams, st, k, fr, ins, False)
        return self.finish_call(con, f, nm, ctx, rts, old, streams, st, k, fr, ins, None)

    def during_call(self, con, nm, octx, ms, old):
        """the crash clauses of the caller hold at every moment inside the call, given those of the callee"""
        if self.quiet or not [cl for cl in self.contract.always if cl.active(self.prop)]:
            return
        refs = []
        for key, ref in ms:
            if key[0] == 'S' and ref is not None and not any(ref.eq(r) for r in refs):
                refs.append(ref)
        if not refs or not any(key == ('S', 'content') for key, ref in ms):
            return
        mid = old.copy()
        for key, ref in ms:
            if key[0] == 'S' and ref is not None:
                v = self.fresh('mid_' + key[1], self.keysort(key).range())
                self.hwrite(mid, key, ref, v)
                if key[1] == 'content':
                    self.arr_range(mid, key, v)
                else:
                    self.ext.havoc_fact(self, mid, key, v)
        mid.io = self.fresh('io_failed', B)
        mctx = SpecCtx(self, dict(octx.env), mid, old)
        mctx.assume = True
        for cl in con.always:
            if cl.active(self.prop):
                self.fact(mid, mctx.bool(cl.expr))
        mid.trace = mid.trace + ((nm, 'during'),)
        for ref in refs:
            if self.ext.wtarget(mid, ref) is not None:
                self.ext.crash_pending(self, mid, ref)
            else:
                self.ext.crash_states(self, mid, ref)

    def finish_call(self, con, f, nm, ctx, rts, old, streams, st, k, fr, ins, failed):
        rs = [self.havoc_value(st, t, nm.replace(' ', '') + '_r') for t in rts]
        if failed is False:
            rs[-1] = Iface(z3.IntVal(0), z3.IntVal(0))
        elif failed is True:
            self.fact(st, rs[-1].tag > 0)
        env2 = dict(ctx.env)
        names = con.results or (['result'] if len(rts) == 1 else ['r%d' % i for i in range(len(rts))])
        for n, v, t in zip(names, rs, rts):
            env2[n] = TV(v, t)
        if len(rts) == 1:
            env2['result'] = TV(rs[0], rts[0])
        pctx = SpecCtx(self, env2, st, old)
        pctx.assume = True
        for cl in con.ensures:
            if cl.active(self.prop):
                g = pctx.bool(cl.expr)
                if failed is not None and z3.is_false(z3.simplify(g)):
                    return
                self.fact(st, g)
        if failed is not None:
            if not self.feasible(st, z3.BoolVal(True)) or self.fs.check([x for x in st.pc if not has_q(x)], []) == z3.unsat:
                return
            st.trace = st.trace + ((nm, 'err' if failed else 'ok'),)
        for v, prm in zip([x.v for x in list(ctx.env.values())[:len(f['params'])]], f['params']):
            if isinstance(v, Iface) and self.stream_type(prm['type']) and v.dyn and v.dyn[0] == '*bufio.Reader':
                self.ext.after_read(self, st, v.val, True)
        self.ext.after_stream_change(self, st, old, streams, con, fr, ins)
        return k(st, rs[0] if len(rs) == 1 else Tup(rs))

    # ------------------------------------------------------------ builtins
    def builtin(self, fr, ins, c, st, k):
        name = c['fn']['n']
        args = [self.val(fr, a, st) for a in c['args']]
        ats = [a['t'] for a in c['args']]
        if name == 'len':
            kd = self.p.kind(ats[0])
            if kd == 'slice':
                return k(st, args[0].len)
            if kd == 'string':
                return k(st, gostr.length(self, st, args[0]))
            if kd == 'map':
                d = self.map_dom(st, args[0], self.p.under(ats[0]))
                n = self.card_of(st, d)
                if not self.surely(st, args[0] != 0):
                    n = z3.If(args[0] == 0, z3.IntVal(0), n)
                return k(st, n)
            if kd == 'array':
                return k(st, z3.IntVal(self.p.t(ats[0])['len']))
            if kd == 'pointer':
                return k(st, z3.IntVal(self.p.t(self.p.elem(ats[0]))['len']))
            if kd == 'chan':
                return k(st, self.ext.chan_len(self, st, args[0]))
        if name == 'cap' and self.p.kind(ats[0]) == 'slice':
            return k(st, args[0].cap)
        if name == 'append':
            return self.do_append(fr, ins, args, ats, st, k)
        if name == 'copy':
            d, s = args
            if self.p.kind(ats[1]) == 'string':
                raise Unsupported('copy from string')
            n = z3.simplify(z3.If(d.len <= s.len, d.len, s.len))
            if self.surely(st, d.len <= s.len):
                n = d.len
            elif self.surely(st, s.len <= d.len):
                n = s.len
            self.copy_elems(st, self.p.elem(ats[0]), d.arr, d.off, s, n)
            return k(st, n)
        if name == 'delete':
            m, key = args
            MT = self.p.under(ats[0])
            D, V = self.mapkeys(MT)
            kt = self.keyterm(key, self.p.t(MT)['key'])
            dom = self.hread(st, D, m)
            self.card_of(st, dom)
            nd = z3.Store(dom, kt, z3.BoolVal(False))
            self.card_of(st, nd)
            self.hwrite(st, D, m, nd)
            return k(st, Tup([]))
        if name == 'close':
            self.ext.chan_close(self, st, args[0], ins)
            return k(st, Tup([]))
        if name in ('print', 'println'):
            return k(st, Tup([]))
        if name in ('min', 'max') and self.p.kind(ats[0]) == 'int':
            r = args[0]
            for a in args[1:]:
                r = z3.If(r <= a, r, a) if name == 'min' else z3.If(r >= a, r, a)
            return k(st, r)
        raise Unsupported('builtin %s' % name)

    def overlay(self, st, key, A, dst, src, soff, n):
        """array equal to A except [dst,dst+n) taken from src[soff..]"""
        ns = z3.simplify(n)
        if is_const_num(ns) and ns.as_long() <= 32:
            for j in range(ns.as_long()):
                # read all from the source value (memmove semantics: src is a value)
                A = z3.Store(A, z3.simplify(dst + j), self.sel(st, src, z3.simplify(soff + j), ref=False))
            return A
        N = self.fresh('ov', A.sort())
        i = z3.Int('i')
        body = z3.Select(N, i) == z3.If(z3.And(dst <= i, i < dst + n), z3.Select(src, i - dst + soff), z3.Select(A, i))
        self.fact(st, z3.ForAll([i], body, patterns=[z3.Select(N, i)]))
        # the other direction: a source element determines an element of the result
        d = z3.simplify(dst - soff)
        if z3.is_app(A) and A.num_args() == 0 and not z3.is_const_array(A) or z3.is_select(A):
            self.fact(st, z3.ForAll([i], z3.Implies(z3.Not(z3.And(dst <= i, i < dst + n)), z3.Select(N, i) == z3.Select(A, i)), patterns=[z3.Select(A, i)]))
        if not has_store(src):
            self.fact(st, z3.ForAll([i], z3.Implies(z3.And(soff <= i, i < soff + n), z3.Select(N, i + d) == z3.Select(src, i)), patterns=[z3.Select(src, i)]))
        return N

    def copy_elems(self, st, ET, darr, doff, s, n):
        srcs = [self.hread(st, key, s.arr) for key in self.ekeys(ET)]
        for key, src in zip(self.ekeys(ET), srcs):
            A = self.hread(st, key, darr)
            self.hwrite(st, key, darr, self.overlay(st, key, A, doff, src, s.off, n))

    def do_append(self, fr, ins, args, ats, st, k):
        s, t = args
        ET = self.p.elem(ats[0])
        if self.p.kind(ats[1]) == 'string':
            raise Unsupported('append of string')
        n = t.len
        newlen = z3.simplify(s.len + n)
        inplace = z3.simplify(newlen <= s.cap)
        ft, fe = self.feasible(st, inplace), self.feasible(st, z3.Not(inplace))
        nz = z3.simplify(n == 0)
        if ft:
            s2 = st.copy() if fe else st
            self.fact(s2, inplace)
            # a nil slice stays nil
            self.copy_elems(s2, ET, s.arr, z3.simplify(s.off + s.len), t, n)
            r = Slice(s.arr, s.off, newlen, s.cap)
            k(s2, r)
        if fe:
            self.fact(st, z3.Not(inplace))
            self.assume_len(st, newlen)
            r = self.alloc(st)
            cap = self.fresh('cap')
            self.fact(st, z3.And(cap >= newlen, cap <= MAXLEN))
            srcs = [self.hread(st, key, t.arr) for key in self.ekeys(ET)]
            olds = [self.hread(st, key, s.arr) for key in self.ekeys(ET)]
            for key, src, o in zip(self.ekeys(ET), srcs, olds):
                if is_const_num(s.off) and s.off.as_long() == 0:
                    A = o   # beyond the length the contents are unobservable; keep the old values
                else:
                    A = self.overlay(st, key, z3.K(I, self.zero_term(key[-1])), z3.IntVal(0), o, s.off, s.len)
                A = self.overlay(st, key, A, s.len, src, t.off, n)
                self.hwrite(st, key, r, A)
            k(st, Slice(r, z3.IntVal(0), newlen, cap))

    def assume_len(self, st, n):
        """address space: no slice exceeds MAXLEN elements (append would panic: out of memory)"""
        self.assumptions.add('no slice grows beyond 2^47 elements (address space)')
        self.fact(st, n <= MAXLEN)

    # ------------------------------------------------------------ buffered writers (see externs)
    def materialize_bufw(self, st):
        self.ext.materialize_all(self, st)


def has_q(f, cache={}):
    i = f.get_id()
    r = cache.get(i)
    if r is not None and r[0] is f:
        return r[1]
    st = [f]
    seen = set()
    res = False
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            res = True
            break
        st.extend(x.children())
    cache[i] = (f, res)
    return res


def has_store(a):
    return z3.is_store(a)


def short(pos):
    """source position without the line: names must survive unrelated edits"""
    return pos.rsplit('/', 1)[-1].split(':')[0] if pos else ''


def shortfn(n):
    return n.split('/')[-1].replace(')', '')


def strval(bs):
    out = ''
    for b in bs:
        if 32 <= b < 127 and b != 92:
            out += chr(b)
        else:
            out += '\\u{%x}' % b
    return z3.StringVal(out)


def reached_globals(p, fn):
    """package variables mentioned by fn or any function it may call (interface calls: every method of that name)"""
    direct = p.__dict__.get('_rgd')
    if direct is None:
        direct = p._rgd = {}
        bymeth = {}
        for n, f in p.funcs.items():
            if f.get('recv'):
                bymeth.setdefault(n.rsplit('.', 1)[-1], set()).add(n)
        for n, f in p.funcs.items():
            gl, ca = set(), set()

            def walk(x):
                if isinstance(x, dict):
                    if x.get('k') == 'global':
                        gl.add(x['n'])
                    if x.get('k') == 'func':
                        ca.add(x['n'])
                    if x.get('mode') == 'invoke':
                        ca.update(bymeth.get(x['method'], ()))
                    if isinstance(x.get('static'), str):
                        ca.add(x['static'])
                    if x.get('mode') == 'call' and not x.get('static') and isinstance(x.get('fn'), dict) and x['fn'].get('k') not in ('builtin', 'func'):
                        ca.add('*')
                    for y in x.values():
                        if isinstance(y, (dict, list)):
                            walk(y)
                elif isinstance(x, list):
                    for y in x:
                        walk(y)
            for b in f['blocks']:
                walk(b['instrs'])
            direct[n] = (gl, ca)
    memo = p.__dict__.setdefault('_rg', {})
    if fn not in memo:
        seen, todo, out = set(), [fn], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x == '*':
                # a call of a function value may reach anything
                out |= set(p.globals)
                continue
            if x in direct:
                out |= direct[x][0]
                todo += direct[x][1]
        memo[fn] = out
    return memo[fn]


def scan_global_writes(p):
    """globals of the module that may be written outside their package initialiser.
    A load through the address and a slice expression that is only passed to callees that do not write it
    (known read-only functions, Write methods, functions of the module found not to write it) do not count."""
    written = set()
    memo = {}
    for fn, f in p.funcs.items():
        if fn.endswith('.init') and f.get('synthetic'):
            continue
        w, _ = scan_writes(p, fn, {}, memo)
        written |= w
    return written


def scan_writes(p, fn, seeds, memo):
    """seeds: register -> tag of a watched address; globals are watched by name.
    Returns (tags written or escaped, tags returned)"""
    f = p.funcs[fn]
    written, returned = set(), set()
    derived = {r: {t} for r, t in seeds.items()}

    def tags(o):
        if isinstance(o, dict):
            if o.get('k') == 'global':
                return {o['n']}
            if o.get('k') in ('reg', 'param', 'freevar'):
                return derived.get(o['n'], set())
        return set()

    def deep(x):
        out = set()
        if isinstance(x, dict):
            out |= tags(x)
            for y in x.values():
                if isinstance(y, (dict, list)):
                    out |= deep(y)
        elif isinstance(x, list):
            for y in x:
                out |= deep(y)
        return out
    changed = True
    while changed:
        changed = False

        def derive(n, ts):
            nonlocal changed
            if n is not None and ts - derived.get(n, set()):
                derived[n] = derived.get(n, set()) | ts
                changed = True
        for b in f['blocks']:
            for ins in b['instrs']:
                op = ins['op']
                if op == 'Store':
                    written |= tags(ins['addr']) | tags(ins['val'])
                elif op in ('FieldAddr', 'IndexAddr', 'Slice', 'MakeInterface', 'Phi', 'ChangeType', 'Convert', 'ChangeInterface', 'SliceToArrayPointer'):
                    src = deep([v for k, v in ins.items() if isinstance(v, (dict, list)) and k != 'pos'])
                    derive(ins.get('name'), src)
                elif op in ('Call', 'Go', 'Defer'):
                    c = ins['call']
                    for ai, a in enumerate(c['args']):
                        ts = tags(a)
                        if not ts or readonly_call(c, a):
                            continue
                        callee = c.get('static')
                        if op == 'Call' and callee in p.funcs and p.funcs[callee]['blocks']:
                            key = (callee, ai)
                            if key not in memo:
                                memo[key] = (True, True)
                                w, r = scan_writes(p, callee, {p.funcs[callee]['params'][ai]['name']: '$'}, memo)
                                memo[key] = ('$' in w, '$' in r)
                            w, r = memo[key]
                            if w:
                                written |= ts
                            if r:
                                derive(ins.get('name'), ts)
                        else:
                            written |= ts
                elif op == 'Extract':
                    derive(ins.get('name'), deep(ins.get('x') or ins.get('tuple') or {}))
                elif op == 'Return':
                    if seeds:
                        returned |= deep(ins['results'])
                        written |= {t for t in deep(ins['results']) if t != '$'}
                    else:
                        written |= deep(ins['results'])
                elif op in ('MakeClosure', 'Send', 'MapUpdate'):
                    written |= deep([v for v in ins.values() if isinstance(v, (dict, list))])
    return written, returned


READONLY = {'reflect.DeepEqual', 'bytes.Equal', 'fmt.Println', 'fmt.Errorf', 'fmt.Sprintf'}


def readonly_call(c, a):
    if c['mode'] == 'invoke':
        return c['method'] in ('Write',)
    if c['fn']['k'] == 'builtin':
        if c['fn']['n'] in ('len', 'cap'):
            return True
        if c['fn']['n'] in ('copy', 'append'):
            return c['args'][0] is not a
        return False
    return c.get('static') in READONLY or (c.get('static') or '').endswith(').Write')


from specctx import SpecCtx   # noqa: E402
