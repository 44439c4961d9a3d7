"""HTTP handlers of gin (contract clauses 'route "METHOD /path" name: EXPR').

The function under contract registers handlers at a router. Every handler registered is run, on a state in which everything that
existed before may have changed, with a fresh context; the clauses of its route (where {} stands for a parameter of the path)
are obligations at each of its returns, and so are the preconditions of the registering function (what one request leaves is what
the next one finds). Every route named in the contract must be registered exactly once."""
import re, z3
import gostr
from values import *
import exec as X

GIN = 'github.com/gin-gonic/gin.'
METHODS = ('GET', 'POST', 'PUT', 'DELETE', 'PATCH', 'HEAD', 'OPTIONS')
RN, RS, RT, RV = ('H', 'resp_n', I), ('H', 'resp_status', I), ('H', 'resp_tag', I), ('H', 'resp_val', I)
JSONS = ('JSON', 'IndentedJSON', 'PureJSON', 'AsciiJSON', 'AbortWithStatusJSON')


def text(ex, t):
    """text of a constant string"""
    t = z3.simplify(t)
    if ex.ordstr:
        if z3.is_int_value(t):
            for s, i in ex.ufcache.get('strids', {'': 0}).items():
                if i == t.as_long():
                    return s
    elif z3.is_string_value(t):
        return t.as_string()
    raise Unsupported('a path that is not a constant')


def norm(path):
    return re.sub(r'[:*][^/]+', '{}', path)


def handler_of(ex, st, sl, T):
    if not ex.surely(st, sl.len == 1):
        raise Unsupported('several handlers for one path')
    et = ex.p.elem(T)
    t = None
    for key in ex.ekeys(et):
        t = z3.simplify(ex.sel(st, ex.hread(st, key, sl.arr), z3.simplify(sl.off)))
    c = ex.closures.get(t.as_long()) if z3.is_int_value(t) else None
    if c is None:
        raise Unsupported('unknown handler')
    return c


def forget(ex, st):
    """whatever existed when the function under contract was entered may have changed meanwhile"""
    for key in set(st.heap) | set(ex.heap0):
        a = st.heap.get(key)
        own = []
        while a is not None and z3.is_store(a):
            r = a.arg(1)
            ag = st.age.get(r.get_id())
            if ag and ag[0] == 'fresh' and ag[1] > ex.epoch0:
                own.append((r, a.arg(2)))
            a = a.arg(0)
        b = z3.Const('later%d_%s' % (ex.nhandlers, '_'.join(str(x) for x in key if not isinstance(x, z3.SortRef))), ex.keysort(key))
        ex.keep.append(b)
        for r, v in reversed(own):
            b = z3.Store(b, r, v)
        st.heap[key] = b
    na = ex.fresh('A')
    ex.fact(st, na >= st.alloc)
    st.alloc = na
    st.epoch += 1
    st.io = ex.fresh('io_failed', B)


def register(ex, st, method, path, clo, fr, ins):
    if ex.quiet:
        return
    route = method + ' ' + norm(path)
    n = st.ghost.get(('route', route), 0)
    st.ghost[('route', route)] = n + 1
    ex.oblige(st, z3.BoolVal(n == 0), 'route %s is registered once in %s' % (route, X.short(ins.get('pos', ''))))
    clauses = [c for c in ex.contract.routes if norm(c.route) == route and c.active(ex.prop)]
    if not clauses:
        return
    ex.externs_used.add('gin: a registered handler runs for the requests of its path; Param, ShouldBindJSON, JSON, AbortWithStatusJSON')
    ex.nhandlers += 1
    s = st.copy()
    forget(ex, s)
    pre = X.SpecCtx(ex, dict(ex.env0), s, s)
    for c in ex.contract.requires:
        if c.active(ex.prop):
            ex.fact(s, pre.bool(c.expr))
    ctxref = ex.alloc(s)
    ex.hwrite(s, RN, ctxref, z3.IntVal(0))
    run = {'id': ex.nhandlers, 'ctx': ctxref, 'params': [p for p in re.findall(r'[:*]([^/]+)', path)], 'route': route}
    run['segs'] = [z3.Const('seg%d_%d' % (run['id'], i), gostr.sort(ex)) for i in range(len(run['params']))]
    run['json'] = z3.Const('json%d' % run['id'], B)
    saved = ex.entry_state, getattr(ex, 'run', None)
    ex.entry_state, ex.run = s.copy(), run
    entry = ex.entry_state
    s.trace = s.trace + ((route, 'request'),)

    def end(s2, *_):
        s2 = s2.copy()
        if ex.quiet or not ex.feasible(s2, z3.BoolVal(True)):
            return
        run['returns'] = True
        ctx = X.SpecCtx(ex, dict(ex.env0), s2, entry)
        for c in clauses:
            ex.oblige(s2, ctx.bool(c.expr), 'route %s ensures %s' % (route, c.name), c.text)
        for c in ex.contract.requires:
            if c.active(ex.prop):
                ex.oblige(s2, ctx.bool(c.expr), 'route %s leaves %s' % (route, c.name), c.text)
    try:
        call_closure(ex, clo, [ctxref], ['*' + GIN + 'Context'], s, end, fr, ins)
        if not run.get('returns'):
            ex.oblige(entry, z3.BoolVal(False), 'route %s: the handler returns' % route)
    finally:
        ex.entry_state, ex.run = saved


def call_closure(ex, clo, args, ats, s, k, fr, ins):
    name = clo.fn
    if name.endswith('$bound') and not (name in ex.p.funcs and ex.p.funcs[name]['blocks']):
        base = name[:-len('$bound')]
        return ex.call_static(base, None, list(clo.binds) + args, ['?'] * len(clo.binds) + ats, s, k, fr, ins)
    return ex.call_static(name, None, args, ats, s, k, fr, ins, clo.binds)


def done(ex, st):
    for route in sorted({norm(c.route) for c in ex.contract.routes if c.active(ex.prop)}):
        ex.oblige(st, z3.BoolVal(st.ghost.get(('route', route), 0) == 1), 'route %s is registered' % route)


# ---------------------------------------------------------------- routers
def router(ex, m, recv, args, ats, st, k, fr, ins):
    """recv: any router value; its prefix is known for groups"""
    ref = recv.val if isinstance(recv, Iface) else recv
    prefix = st.ghost.get(('router', z3.simplify(ref).get_id()), '')
    if m == 'Group':
        r = ex.alloc(st)
        st.ghost[('router', z3.simplify(r).get_id())] = prefix + join(text(ex, args[0]))
        return k(st, r)
    if m in METHODS or m == 'Handle':
        method = m
        if m == 'Handle':
            method, args, ats = text(ex, args[0]), args[1:], ats[1:]
        path = join(prefix, text(ex, args[0]))
        register(ex, st, method, path, handler_of(ex, st, args[1], ats[1]), fr, ins)
        return k(st, recv if isinstance(recv, Iface) else Iface(ex.tag('*' + GIN + 'RouterGroup'), recv))
    raise Unsupported('router method ' + m)


def join(a, b=''):
    p = re.sub('/+', '/', a + '/' + b if b else a)
    return p if p == '/' or b.endswith('/') else p.rstrip('/') if not a.endswith('/') or b else p


# ---------------------------------------------------------------- contexts
def respond(ex, st, ctx, status, body):
    ex.hwrite(st, RN, ctx, z3.simplify(ex.hread(st, RN, ctx) + 1))
    ex.hwrite(st, RS, ctx, status)
    ex.hwrite(st, RT, ctx, body.tag)
    ex.hwrite(st, RV, ctx, body.val)


def context(ex, m, args, ats, st, k, fr, ins):
    run = getattr(ex, 'run', None)
    if run is None:
        raise Unsupported('gin context outside a handler')
    ctx = args[0]
    if m in JSONS:
        respond(ex, st, ctx, args[1], args[2])
        return k(st, Tup([]))
    if m == 'AbortWithStatus':
        respond(ex, st, ctx, args[1], Iface(z3.IntVal(0), z3.IntVal(0)))
        return k(st, Tup([]))
    if m in ('Abort', 'Next'):
        return k(st, Tup([]))
    if m == 'Param':
        v = gostr.const(ex, '') if ex.ordstr else z3.StringVal('')
        for n, s in zip(run['params'], run['segs']):
            c = gostr.const(ex, n) if ex.ordstr else z3.StringVal(n)
            v = z3.If(args[1] == c, s, v)
        return k(st, z3.simplify(v))
    if m in ('ShouldBindJSON', 'ShouldBindBodyWith') and len(args) == 2:
        return bind(ex, run, args[1], st, k)
    raise Unsupported('gin context method ' + m)


def member(ex, run, name):
    """what the body of the request says about one of its members"""
    kind = name.split(':')[1]
    (_, srt), = ex.comps(kind)
    return z3.Const('req%d_%s' % (run['id'], name), srt), kind


def valid(ex, run, T):
    """the validation rules in the tags of the structure hold for the request"""
    out = []
    for (path, lt, name) in ex.ext.jmembers(ex, T) or []:
        f = ex.p.fields(T)[path[0]]
        m = re.search(r'binding:"([^"]*)"', f['tag'])
        if len(path) != 1 or not m or name is None:
            if m:
                raise Unsupported('validation rules of ' + T)
            continue
        v, kind = member(ex, run, name)
        k = ex.p.kind(kind)
        zero = v == ex.zero(kind) if k != 'bool' else z3.Not(v)
        rules = []
        omit = False
        for r in m.group(1).split(','):
            n, _, p = r.partition('=')
            if n == 'omitempty':
                omit = True
                continue
            if n == 'required':
                rules.append(z3.Not(zero))
            elif n in ('min', 'gte', 'max', 'lte', 'gt', 'lt', 'eq', 'ne') and k in ('int', 'float'):
                c = z3.RealVal(p) if k == 'float' else z3.IntVal(int(p))
                rules.append({'min': v >= c, 'gte': v >= c, 'max': v <= c, 'lte': v <= c, 'gt': v > c, 'lt': v < c, 'eq': v == c, 'ne': v != c}[n])
            else:
                rules.append(gostr.idf(ex, 'valid:' + r, v.sort(), B)(v))
        g = z3.And(rules) if rules else z3.BoolVal(True)
        out.append(z3.Or(zero, g) if omit else g)
    return z3.And([run['json']] + out)


def bind(ex, run, target, st, k):
    T = target.dyn and target.dyn[0]
    if not T or ex.p.kind(T) != 'pointer':
        raise Unsupported('binding into this type')
    if st.ghost.get(('bound', run['id'])):
        raise Unsupported('the body is read twice')
    st.ghost[('bound', run['id'])] = True
    ST, ptr = ex.p.elem(T), target.dyn[1]
    ms = ex.ext.jmembers(ex, ST)
    if ms is None:
        raise Unsupported('binding into this type')
    ex.externs_used.add('gin binding: on success the members of the request that the structure names, validated by its tags')
    ok = valid(ex, run, ST)
    old = ex.load(st, ptr, ST)
    olds = ex.leafvals(old, ST)

    def good(s):
        vals = []
        for (path, lt, name), o in zip(ms, olds):
            if name is None:
                vals.append(o)
                continue
            v, kind = member(ex, run, name)
            ex.typefacts(s, v, lt)
            vals.append(v)
        ex.store(s, ptr, ex.compose(ST, vals), ST)
        k(s, Iface(z3.IntVal(0), z3.IntVal(0)))

    def bad(s, how):
        ex.store(s, ptr, ex.havoc_value(s, ST, 'partial'), ST)
        if how:
            VT = 'github.com/go-playground/validator/v10.ValidationErrors'
            if VT not in ex.p.types:
                return
            v = ex.havoc_value(s, VT, 'invalid')
            i = z3.Int('i')
            for key in ex.ekeys(ex.p.elem(VT)):
                if key[3] == 'tag':
                    a = ex.hread(s, key, v.arr)
                    ex.fact(s, z3.ForAll([i], a[i] > 0, patterns=[a[i]]))
            return k(s, ex.box(s, v, VT))
        k(s, Iface(ex.tag('foreign error'), ex.alloc(s)))
    return ex.ext.fork(ex, st, [(ok, good), (z3.Not(ok), lambda s: bad(s, True)), (z3.Not(ok), lambda s: bad(s, False))])


def errors_as(ex, st, err, target, k, ins):
    T = target.dyn and target.dyn[0]
    if not T or ex.p.kind(T) != 'pointer':
        raise Unsupported('errors.As into this type')
    ET, ptr = ex.p.elem(T), target.dyn[1]
    tg = z3.simplify(err.tag)
    if ex.p.kind(ET) == 'interface':
        raise Unsupported('errors.As into an interface')
    ex.externs_used.add('errors.As')
    tT = ex.tag(ET)

    def same(s):
        ex.store(s, ptr, ex.unbox(s, err, ET), ET)
        k(s, z3.BoolVal(True))

    def inside(s):
        v = ex.havoc_value(s, ET, 'as')
        if ex.p.kind(ET) == 'pointer':
            ex.fact(s, v > 0)
        ex.store(s, ptr, v, ET)
        k(s, z3.BoolVal(True))
    alts = [(err.tag == tT, same), (err.tag != tT, lambda s: k(s, z3.BoolVal(False)))]
    name = ex.tagname.get(tg.as_long()) if z3.is_int_value(tg) else None
    if not (name == 'foreign error' or name in ex.p.methods and 'Unwrap' not in ex.p.methods[name] or ex.surely(st, err.tag == tT)):
        alts.append((z3.And(err.tag != tT, err.tag != 0), inside))
    return ex.ext.fork(ex, st, alts)


# ---------------------------------------------------------------- contract vocabulary
def body(ctx):
    ex, run = ctx.ex, ctx.ex.run
    t, v = z3.simplify(ex.hread(ctx.cur, RT, run['ctx'])), z3.simplify(ex.hread(ctx.cur, RV, run['ctx']))
    T = ex.tagname.get(t.as_long()) if z3.is_int_value(t) else None
    return T, Iface(t, v)


def field_by_name(ex, T, name):
    for (path, lt, n) in (ex.ext.jmembers(ex, T) or []) if ex.p.kind(T) == 'struct' else []:
        if n == name:
            return path, lt
    return None


def spec(ctx, name, args):
    ex = ctx.ex
    run = getattr(ex, 'run', None)
    if run is None:
        raise Unsupported('%s outside a route' % name)
    if name == 'responses':
        return TV(ex.hread(ctx.cur, RN, run['ctx']), '#int')
    if name == 'status':
        return TV(ex.hread(ctx.cur, RS, run['ctx']), '#int')
    if name == 'seg':
        if not run['segs']:
            raise Unsupported('this route has no parameter')
        return TV(run['segs'][0], '#string')
    if name == 'bindok':
        return TV(valid(ex, run, args[0].a[0]), '#bool')
    if name == 'req':
        v, kind = member(ex, run, args[0].a[0])
        return TV(v, kind)
    T, v = body(ctx)
    if name in ('replies', 'reply'):
        # replies("member"): the body is a structure that has the member
        n = args[0].a[0]
        ST, ref = T, None
        if T and ex.p.kind(T) == 'pointer':
            ST = ex.p.elem(T)
        f = field_by_name(ex, ST, n) if ST else None
        if name == 'replies':
            return TV(z3.BoolVal(f is not None) if not (f and ST != T) else v.val > 0, '#bool')
        if f is None:
            (_, srt), = ex.comps(n.split(':')[1])
            return TV(z3.FreshConst(srt, 'nothing'), n.split(':')[1])
        path, lt = f
        val = ex.load(ctx.cur, v.val, ST) if ST != T else ex.unbox(ctx.cur, v, T)
        for p in path:
            val = val.fs[p]
        return TV(val, lt)
    if name in ('replylist', 'replylen', 'replyat'):
        n = args[0].a[0] if name == 'replylist' else args[1].a[0] if name == 'replyat' else None
        ET = ex.p.elem(T) if T and ex.p.kind(T) == 'slice' else None
        ST = ex.p.elem(ET) if ET and ex.p.kind(ET) == 'pointer' else ET
        if name == 'replylist':
            return TV(z3.BoolVal(ST is not None and field_by_name(ex, ST, n) is not None and ST == ET), '#bool')
        if ET is None or ST != ET:
            return TV(z3.FreshConst(I, 'nothing'), '#int')
        sl = ex.unbox(ctx.cur, v, T)
        if name == 'replylen':
            return TV(sl.len, '#int')
        i = ctx.eval(args[0]).v
        f = field_by_name(ex, ET, n)
        if f is None:
            raise Unsupported('no member ' + n)
        path, lt = f
        for key in ex.ekeys(ET):
            if key[4] == path:
                return TV(ex.sel(ctx.cur, ex.hread(ctx.cur, key, sl.arr), i + sl.off if not z3.is_int_value(z3.simplify(sl.off)) else i + z3.simplify(sl.off), ref=False), lt)
        raise Unsupported('member ' + n)
    raise Unsupported(name)
