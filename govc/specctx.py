"""Evaluation of contract expressions in a symbolic state."""
import itertools
import z3
import gostr
from values import *

SORTS = {'int': I, 'bool': B, 'real': R, 'string': S, 'arr': z3.ArraySort(I, I), 'set': z3.ArraySort(I, B), 'barr': z3.ArraySort(I, B),
         'arr2': z3.ArraySort(I, z3.ArraySort(I, I)), 'sarr': z3.ArraySort(I, S), 'sset': z3.ArraySort(S, B)}
SPECT = {str(v): '#' + k for k, v in reversed(list(SORTS.items()))}


def spec_t(term):
    return SPECT.get(str(term.sort()), '#' + str(term.sort()))


class SpecCtx:
    def __init__(self, ex, env, st, old, regs=None):
        self.ex, self.env, self.st, self.old = ex, env, st, old
        self.regs = regs or []
        self.assume = False
        self.loop = None       # (loop entry state, env) for entry(..)
        self.depth = 0
        self.cond = 0
        self.pol = True
        self.cur = st          # state heap reads go to
        self.extra = {}        # metavariables

    # ------------------------------------------------------------ helpers
    def view(self, other):
        """heap of another state, facts recorded in the current one"""
        if other is self.st:
            return self.st
        v = other.copy()
        v.pc, v.typed, v.age = self.st.pc, self.st.typed, self.st.age
        return v

    def facts(self):
        return self.depth == 0

    def bool(self, node):
        tv = self.eval(node)
        if not z3.is_bool(tv.v):
            raise Unsupported('not a boolean: %r' % (node,))
        return tv.v

    def with_state(self, s, node):
        c = self.cur
        self.cur = self.view(s)
        try:
            return self.eval(node)
        finally:
            self.cur = c

    # ------------------------------------------------------------ evaluation
    def eval(self, n):
        return getattr(self, 'e_' + n.k)(*n.a)

    def e_num(self, v):
        return TV(z3.IntVal(v), '#int')

    def e_str(self, v):
        if self.ex.ordstr:
            return TV(gostr.const(self.ex, v), '#string')
        return TV(z3.StringVal(v), '#string')

    def e_id(self, n):
        if n in self.env:
            return self.env[n]
        if n == 'true':
            return TV(z3.BoolVal(True), '#bool')
        if n == 'false':
            return TV(z3.BoolVal(False), '#bool')
        if n == 'nil':
            return TV(None, '#nil')
        if n == 'io_failed':
            return TV(self.cur.io, '#bool')
        if n in self.ex.sp.defs and not self.ex.sp.defs[n][0]:
            return self.eval(self.ex.sp.defs[n][1])
        raise Unsupported('unknown name %s in contract' % n)

    def e_not(self, x):
        p = self.pol
        self.pol = None if p is None else not p
        self.cond += 1
        r = self.bool(x)
        self.cond -= 1
        self.pol = p
        return TV(z3.Not(r), '#bool')

    def e_neg(self, x):
        return TV(-self.eval(x).v, '#int')

    def e_deref(self, x):
        tv = self.eval(x)
        return TV(self.ex.load(self.cur, tv.v, self.ex.p.elem(tv.t), self.facts()), self.ex.p.elem(tv.t))

    def num2(self, a, b):
        x, y = a.v, b.v
        if x.sort() == R and y.sort() == I:
            y = z3.ToReal(y)
        elif x.sort() == I and y.sort() == R:
            x = z3.ToReal(x)
        return x, y

    def e_bin(self, op, a, b):
        if op in ('==>', '<==>'):
            p = self.pol
            if op == '==>':
                self.pol = None if p is None else not p
                x = z3.simplify(self.bool(a)) if self.depth == 0 else self.bool(a)
                self.pol = p
                if z3.is_false(x):
                    return TV(z3.BoolVal(True), '#bool')
                if z3.is_true(x):
                    return TV(self.bool(b), '#bool')
                self.cond += 1
                try:
                    return TV(z3.Implies(x, self.bool(b)), '#bool')
                finally:
                    self.cond -= 1
            self.pol = None
            x, y = self.bool(a), self.bool(b)
            self.pol = p
            return TV(x == y, '#bool')
        if op in ('&&', '||'):
            if op == '||':
                self.cond += 1
            x = self.bool(a)
            y = self.bool(b)
            if op == '||':
                self.cond -= 1
            return TV(z3.And(x, y) if op == '&&' else z3.Or(x, y), '#bool')
        x, y = self.eval(a), self.eval(b)
        if op in ('==', '!='):
            e = self.equal(x, y)
            return TV(e if op == '==' else z3.Not(e), '#bool')
        if op == '++':
            return TV(gostr.concat(self.ex, x.v, y.v), '#string')
        if x.v.sort() == S and op == '+':
            return TV(z3.Concat(x.v, y.v), '#string')
        u, v = self.num2(x, y)
        if op in ('<', '<=', '>', '>='):
            return TV({'<': u < v, '<=': u <= v, '>': u > v, '>=': u >= v}[op], '#bool')
        r = {'+': lambda: u + v, '-': lambda: u - v, '*': lambda: u * v, '/': lambda: u / v, '%': lambda: u % v}[op]()
        return TV(r, '#real' if r.sort() == R else '#int')

    def equal(self, x, y):
        if y.t == '#nil':
            x, y = y, x
        if x.t == '#nil':
            v = y.v
            if y.t == '#nil':
                return z3.BoolVal(True)
            if isinstance(v, Slice):
                return v.arr == 0
            if isinstance(v, Iface):
                return v.tag == 0
            if isinstance(v, (LPtr, Clo, Regex)):
                return z3.BoolVal(False)
            return v == 0
        if isinstance(x.v, (Iface, SVal, AVal)) or isinstance(y.v, (Iface, SVal, AVal)):
            return self.ex.equal(x.v, y.v, x.t, y.t)
        if isinstance(x.v, Slice) and isinstance(y.v, Slice):
            # identity of slices (same storage, length)
            return z3.And(x.v.arr == y.v.arr, x.v.off == y.v.off, x.v.len == y.v.len)
        u, v = self.num2(x, y) if x.v.sort() in (I, R) and y.v.sort() in (I, R) else (x.v, y.v)
        return u == v

    def e_let(self, n, e, body):
        v = self.eval(e)
        saved = self.env.get(n)
        self.env[n] = v
        try:
            return self.eval(body)
        finally:
            if saved is None:
                del self.env[n]
            else:
                self.env[n] = saved

    def e_q(self, kind, vs, trig, body):
        ex = self.ex
        cs = []
        saved = {}
        if kind == 'exists' and self.pol is True and not self.assume and self.depth == 0 and self.regs and len(vs) == 1 and vs[0][1] == 'int':
            alts = []
            saved0 = self.env.get(vs[0][0])
            for w in self.regs[:16]:
                self.env[vs[0][0]] = TV(w, '#int')
                alts.append(self.bool(body))
            if saved0 is None:
                self.env.pop(vs[0][0], None)
            else:
                self.env[vs[0][0]] = saved0
        else:
            alts = []
        for n, s in vs:
            self.ex.serial += 1
            c = z3.Const('%s?%d' % (n, self.ex.serial), SORTS[s])
            cs.append(c)
            saved[n] = self.env.get(n)
            self.env[n] = TV(c, '#' + s)
        self.depth += 1
        try:
            b = self.bool(body)
            pats = []
            for ts in trig:
                # an interface is seen by its type or by its value
                for pt in itertools.product(*[(v.tag, v.val) if isinstance(v, Iface) else (v,) for v in [self.eval(t).v for t in ts]]):
                    pats.append(z3.MultiPattern(*pt) if len(pt) > 1 else pt[0])
        finally:
            self.depth -= 1
            for n, _ in vs:
                if saved[n] is None:
                    del self.env[n]
                else:
                    self.env[n] = saved[n]
        pats = [p for p in pats if pat_ok(p, cs)]
        if kind == 'forall':
            if z3.is_true(b):
                return TV(b, '#bool')
            q = mkq(z3.ForAll, cs, b, pats)
        else:
            q = mkq(z3.Exists, cs, b, pats)
        if alts:
            q = z3.Or(*(alts + [q]))
        return TV(q, '#bool')

    def e_field(self, x, name):
        tv = self.eval(x)
        return self.field(tv, name)

    def field(self, tv, name):
        p = self.ex.p
        t = tv.t
        if t.startswith('#'):
            raise Unsupported('field %s of %s' % (name, t))
        if p.kind(t) == 'pointer':
            T = p.elem(t)
            i = self.fidx(T, name)
            ft = p.fields(T)[i]['type']
            if isinstance(tv.v, LPtr):
                v = self.ex.load(self.cur, LPtr('E', tv.v.base, tv.v.idx, tv.v.st, tuple(tv.v.path) + (i,)), ft, self.facts())
                return TV(v, ft)
            if p.kind(ft) in ('struct', 'array'):
                sub = self.ex.subref(self.cur, tv.v, T, i)
                return TV(self.ex.load(self.cur, sub, ft, self.facts()), ft)
            return TV(self.ex.load(self.cur, LPtr('F', tv.v, None, (T, i), None), ft, self.facts()), ft)
        i = self.fidx(t, name)
        return TV(tv.v.fs[i], p.fields(t)[i]['type'])

    def fidx(self, T, name):
        for i, f in enumerate(self.ex.p.fields(T)):
            if f['name'] == name:
                return i
        raise Unsupported('no field %s in %s' % (name, T))

    def e_index(self, x, i):
        a = self.eval(x)
        k = self.eval(i)
        return self.index(a, k)

    def index(self, a, k):
        p, ex = self.ex.p, self.ex
        if a.t.startswith('#'):
            r = ex.sel(self.cur, a.v, k.v, ref=False)
            return TV(r, spec_t(r))
        kd = p.kind(a.t)
        if kd == 'slice':
            ET = p.elem(a.t)
            off = a.v.off
            idx = k.v if (z3.is_int_value(off) and off.as_long() == 0) else off + k.v
            return TV(ex.load_elem(self.cur, a.v.arr, idx, ET, (), ET, self.facts()), ET)
        if kd == 'map':
            MT = p.under(a.t)
            return TV(ex.map_get(self.cur, a.v, MT, k.v, self.facts()), p.elem(MT))
        if kd == 'array':
            ET = p.t(a.t)['elem']
            return TV(ex.compose(ET, [ex.sel(self.cur, c, k.v, ref=False) for c in a.v.comps]), ET)
        if kd == 'string':
            return TV(z3.StrToCode(z3.SubString(a.v, k.v, 1)), '#int')
        raise Unsupported('index of ' + a.t)

    # ------------------------------------------------------------ calls
    def e_call(self, name, args):
        m = getattr(self, 'c_' + name, None)
        if m is not None:
            return m(*args)
        sp = self.ex.sp
        if name in sp.defs:
            ps, body = sp.defs[name]
            if len(ps) != len(args):
                raise Unsupported('macro %s takes %d arguments' % (name, len(ps)))
            vs = [self.eval(a) for a in args]
            saved = self.env
            self.env = dict(self.env)
            for q, v in zip(ps, vs):
                self.env[q] = v
            try:
                return self.eval(body)
            finally:
                self.env = saved
        if name in sp.ufuncs:
            ss, r = sp.ufuncs[name]
            f = self.ufun(name)
            vs = []
            for a, s in zip(args, ss):
                v = self.eval(a).v
                if s == 'real' and v.sort() == I:
                    v = z3.ToReal(v)
                vs.append(v)
            return TV(f(*vs), '#' + r)
        return self.ex.ext.spec_call(self, name, args)

    def ufun(self, name):
        ss, r = self.ex.sp.ufuncs[name]
        f = self.ex.ufcache.get(('u', name))
        if f is None:
            f = z3.Function(name, *([SORTS[s] for s in ss] + [SORTS[r]]))
            self.ex.ufcache[('u', name)] = f
        return f

    def c_old(self, x):
        saved = self.env
        return self.with_state(self.old, x)

    def c_entry(self, x):
        if self.loop is None:
            return self.with_state(self.old, x)
        s, env = self.loop
        saved = self.env
        self.env = dict(self.env)
        self.env.update(env)
        try:
            return self.with_state(s, x)
        finally:
            self.env = saved

    def c_len(self, x):
        tv = self.eval(x)
        if tv.t == '#string':
            return TV(gostr.length(self.ex, None, tv.v), '#int')
        k = self.ex.p.kind(tv.t)
        if k == 'slice':
            return TV(tv.v.len, '#int')
        if k == 'string':
            return TV(gostr.length(self.ex, None, tv.v), '#int')
        if k == 'array':
            return TV(z3.IntVal(tv.v.n), '#int')
        if k == 'map':
            return self.c_card(x)
        raise Unsupported('len of ' + tv.t)

    def c_cap(self, x):
        return TV(self.eval(x).v.cap, '#int')

    def c_off(self, x):
        return TV(self.eval(x).v.off, '#int')

    def c_arr(self, x):
        return TV(self.eval(x).v.arr, '#int')

    def c_ref(self, x):
        v = self.eval(x).v
        return TV(v.val if isinstance(v, Iface) else v, '#int')

    def c_tagof(self, x):
        return TV(self.eval(x).v.tag, '#int')

    def c_tagname(self, s):
        return TV(self.ex.tag(s.a[0]), '#int')

    def c_elems(self, x):
        tv = self.eval(x)
        ex = self.ex
        if ex.p.kind(tv.t) == 'array':
            return TV(tv.v.comps[0], spec_t(tv.v.comps[0]))
        ET = ex.p.elem(tv.t)
        keys = ex.ekeys(ET)
        if len(keys) != 1:
            raise Unsupported('elems of composite element type')
        off = tv.v.off
        if not (z3.is_int_value(off) and off.as_long() == 0) and not ex.surely(self.st, off == 0):
            raise Unsupported('elems of a slice that does not start at its origin')
        A = ex.hread(self.cur, keys[0], tv.v.arr)
        return TV(A, spec_t(A))

    def c_elemsf(self, x, fname):
        """array of one field of the struct elements of a slice"""
        tv = self.eval(x)
        ex = self.ex
        ET = ex.p.elem(tv.t)
        i = self.fidx(ET, fname.a[0])
        for key in ex.ekeys(ET):
            if key[4] == (i,):
                A = ex.hread(self.cur, key, tv.v.arr)
                return TV(A, spec_t(A))
        raise Unsupported('elemsf')

    def c_dom(self, m, k=None):
        tv = self.eval(m)
        MT = self.ex.p.under(tv.t)
        d = self.ex.map_dom(self.cur, tv.v, MT)
        if k is None:
            return TV(d, spec_t(d))
        return TV(self.ex.sel(self.cur, d, self.eval(k).v, ref=False), '#bool')

    def c_has(self, m, k):
        """key is in a possibly nil map"""
        tv = self.eval(m)
        MT = self.ex.p.under(tv.t)
        d = self.ex.map_dom(self.cur, tv.v, MT)
        return TV(z3.And(tv.v != 0, self.ex.sel(self.cur, d, self.eval(k).v, ref=False)), '#bool')

    def c_vals(self, m):
        """value array of a map with scalar values"""
        tv = self.eval(m)
        _, V = self.ex.mapkeys(self.ex.p.under(tv.t))
        A = self.ex.hread(self.cur, V[0], tv.v)
        return TV(A, spec_t(A))

    def c_lens(self, m):
        """lengths of the values of a map with slice values"""
        tv = self.eval(m)
        A = self.ex.maplens(self.cur, tv.v, self.ex.p.under(tv.t))
        return TV(A, spec_t(A))

    def c_msum(self, m):
        tv = self.eval(m)
        MT = self.ex.p.under(tv.t)
        return TV(self.ex.sumfuns()[0](self.ex.map_dom(self.cur, tv.v, MT), self.ex.maplens(self.cur, tv.v, MT)), '#int')

    def c_psum(self, o, m, k):
        tv = self.eval(m)
        return TV(self.ex.sumfuns()[1](self.eval(o).v, self.ex.maplens(self.cur, tv.v, self.ex.p.under(tv.t)), self.eval(k).v), '#int')

    def c_card(self, m):
        tv = self.eval(m)
        if tv.t.startswith('#'):
            return TV(self.ex.card_of(self.cur, tv.v), '#int')
        d = self.ex.map_dom(self.cur, tv.v, self.ex.p.under(tv.t))
        return TV(self.ex.card_of(self.cur, d), '#int')

    def c_fresh(self, x):
        tv = self.eval(x)
        r = tv.v.arr if isinstance(tv.v, Slice) else tv.v.val if isinstance(tv.v, Iface) else tv.v
        if self.assume and tv.v is not None and isinstance(r, z3.ExprRef) and not z3.is_int_value(r) and self.depth == 0 and self.cond == 0:
            # remember the allocation order
            self.st.age[r.get_id()] = ('fresh', self.st.epoch)
            self.ex.keep.append(r)
        return TV(r >= self.old.alloc, '#bool')

    def c_older(self, x):
        """reference allocated before the call / at entry"""
        tv = self.eval(x)
        r = tv.v.arr if isinstance(tv.v, Slice) else tv.v.val if isinstance(tv.v, Iface) else tv.v
        return TV(r < self.cur.alloc, '#bool')

    def c_ite(self, c, a, b):
        cv, x, y = self.bool(c), self.eval(a), self.eval(b)
        u, v = x.v, y.v
        if u.sort() != v.sort():
            u, v = self.num2(x, y)
        return TV(z3.If(cv, u, v), spec_t(u) if x.t.startswith('#') else x.t)

    def c_min(self, a, b):
        x, y = self.eval(a).v, self.eval(b).v
        return TV(z3.If(x <= y, x, y), '#int')

    def c_max(self, a, b):
        x, y = self.eval(a).v, self.eval(b).v
        return TV(z3.If(x >= y, x, y), '#int')

    def c_abs(self, a):
        x = self.eval(a).v
        return TV(z3.If(x >= 0, x, -x), '#int')

    def c_real(self, a):
        x = self.eval(a).v
        return TV(z3.ToReal(x) if x.sort() == I else x, '#real')

    def c_floor(self, a):
        return TV(z3.ToInt(self.eval(a).v), '#int')

    def c_store(self, a, i, v):
        x = self.eval(a)
        return TV(z3.Store(x.v, self.eval(i).v, self.eval(v).v), x.t)

    def c_global(self, x):
        return TV(self.ex.globref(self.gname(x)), '#int')

    def gname(self, x):
        n = x.a[0]
        if '.' in n:
            return n
        pkg = self.ex.p.funcs[self.ex.fname].get('pkg')
        return pkg + '.' + n

    def c_gval(self, x):
        """value of a package variable"""
        n = self.gname(x)
        if n not in self.ex.p.globals:
            raise Unsupported('no package variable ' + n)
        T = self.ex.p.elem(self.ex.p.globals[n]['type'])
        gi = self.ex.global_initial(n) if not getattr(self.ex, 'isinit', False) else None
        if gi is not None and gi[0] == 'st' and self.ex.p.kind(T) not in ('interface', 'pointer', 'map', 'slice', 'chan'):
            return TV(self.ex.load(gi[1], self.ex.globref(n), T, facts=False), T)
        return TV(self.ex.load(self.cur, self.ex.globref(n), T, self.facts()), T)

    def c_dyn(self, x, tname):
        """the value of dynamic type T inside an interface"""
        v = self.eval(x).v
        T = tname.a[0]
        if not isinstance(v, Iface):
            raise Unsupported('dyn() of no interface')
        if v.dyn is not None and v.dyn[0] == T:
            return TV(v.dyn[1], T)
        k = self.ex.p.kind(T)
        if k in ('pointer', 'map', 'chan', 'int'):
            return TV(v.val, T)
        sf = self.st
        return TV(self.ex.unbox(sf, v, T), T)

    def c_is(self, x, tname):
        v = self.eval(x).v
        if not isinstance(v, Iface):
            raise Unsupported('is() of no interface')
        return TV(v.tag == self.ex.tag(tname.a[0]), '#bool')

    def c_inre(self, x, pat):
        return TV(gostr.inre(self.ex, self.eval(x).v, pat.a[0], True), '#bool')

    def c_string(self, x):
        tv = self.eval(x)
        return TV(tv.v, '#string')

    # ------------------------------------------------------------ modifies locations
    def locs(self, n):
        ex, p = self.ex, self.ex.p
        if n.k == 'call':
            name, args = n.a
            if name == 'elems':
                tv = self.eval(args[0])
                return [(k, tv.v.arr) for k in ex.ekeys(p.elem(tv.t))]
            if name == 'map':
                tv = self.eval(args[0])
                D, V = ex.mapkeys(p.under(tv.t))
                return [(k, tv.v) for k in [D] + V]
            if name == 'gvar':
                nm = self.gname(args[0])
                T = p.elem(p.globals[nm]['type'])
                return self.ptr_locs(ex.globref(nm), T)
            if name == 'anyelems':
                # every slice with this element type
                T = args[0].a[0]
                return [(k, None) for k in ex.ekeys(T)]
            if name in ('ite', 'when'):
                raise Unsupported('conditional modifies')
            return ex.ext.spec_locs(self, name, args)
        if n.k == 'deref':
            tv = self.eval(n.a[0])
            return self.ptr_locs(tv.v, p.elem(tv.t))
        if n.k == 'field':
            tv = self.eval(n.a[0])
            T = p.elem(tv.t) if p.kind(tv.t) == 'pointer' else None
            if T is None:
                raise Unsupported('modifies a field of a value')
            i = self.fidx(T, n.a[1])
            ft = p.fields(T)[i]['type']
            if p.kind(ft) in ('struct', 'array'):
                return self.ptr_locs(ex.subref(self.cur, tv.v, T, i), ft)
            return [(ex.fkey(T, i, c, s), tv.v) for c, s in ex.comps(ft)]
        raise Unsupported('modifies %r' % (n,))

    def locs_any(self, T, f):
        """this field of every object"""
        i = self.fidx(T, f)
        return [(self.ex.fkey(T, i, c, s), None) for c, s in self.ex.comps(self.ex.p.fields(T)[i]['type'])]

    def ptr_locs(self, ref, T):
        ex, p = self.ex, self.ex.p
        k = p.kind(T)
        if k == 'struct':
            out = []
            for i, f in enumerate(p.fields(T)):
                if p.kind(f['type']) in ('struct', 'array'):
                    out += self.ptr_locs(ex.subref(self.cur, ref, T, i), f['type'])
                else:
                    out += [(ex.fkey(T, i, c, s), ref) for c, s in ex.comps(f['type'])]
            return out
        if k == 'array':
            return [(key, ref) for key in ex.ekeys(p.t(T)['elem'])]
        return [(('C', T, c, s), ref) for c, s in ex.comps(T)]


def mkq(f, cs, b, pats):
    if pats:
        try:
            return f(cs, b, patterns=pats)
        except z3.Z3Exception:
            pass
    return f(cs, b)


def has_ite(t):
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ):
            return True
        st.extend(x.children())
    return False


def pat_ok(pt, cs):
    """a pattern must contain every bound variable"""
    need = {c.get_id() for c in cs}
    st = [pt] if not isinstance(pt, z3.PatternRef) else pt.children() if hasattr(pt, 'children') else []
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        need.discard(x.get_id())
        st.extend(x.children())
    return not need and not has_ite(pt)


def Node_ids(n):
    from spec import Node
    out = set()
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, Node):
            if x.k == 'id':
                out.add(x.a[0])
            st.extend(x.a)
        elif isinstance(x, (list, tuple)):
            st.extend(x)
    return out
