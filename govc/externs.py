"""Models (assumed contracts) of everything outside the module: runtime, standard library, dependencies."""
import re
import z3
from values import *
import exec as X
import gostr
import ginmodel


# ---------------------------------------------------------------- globals of other packages
def extern_global_addr(ex, o):
    return ex.globref('extern:' + o['n'])


def extern_global(ex, name, T, st):
    if name in ('io.EOF', 'io.ErrUnexpectedEOF', 'net/http.ErrServerClosed'):
        return err_global(ex, name)
    if ex.p.kind(T) == 'struct' and not ex.p.fields(T):
        return SVal([])
    raise Unsupported('global ' + name)


# ---------------------------------------------------------------- floating point
# values are mathematical reals followed by rounding; rnd is the identity in mode 'real' and an uninterpreted
# monotone idempotent function in mode 'rnd'
def rnd_fun(ex):
    f = ex.ufcache.get('rnd')
    if f is None:
        f = ex.ufcache['rnd'] = z3.Function('rnd', R, R)
    return f


def rnd(ex, st, t):
    if ex.opts.get('float', 'real') == 'real':
        return t
    t = z3.simplify(t)
    if z3.is_rational_value(t) and t.denominator_as_long() == 1 and abs(t.numerator_as_long()) <= 1 << 24:
        return t
    f = rnd_fun(ex)
    r = f(t)
    if ('rnd', r.get_id()) in st.typed:
        return r
    st.typed.add(('rnd', r.get_id()))
    ex.keep.append(r)
    prev = st.ghost.get('rnds', ())
    for c in (0, 1, 100, 1 << 50):
        c = z3.RealVal(c)
        ex.fact(st, z3.And(z3.Implies(t <= c, r <= c), z3.Implies(t >= c, r >= c)))
    ex.fact(st, f(r) == r)
    for a, b in prev:
        ex.fact(st, z3.And(z3.Implies(t <= a, r <= b), z3.Implies(a <= t, b <= r)))
        # results of rounding are fixed points: compare against them as well
        ex.fact(st, z3.And(z3.Implies(t <= b, r <= b), z3.Implies(b <= t, b <= r)))
        ex.fact(st, z3.And(z3.Implies(a <= r, b <= r), z3.Implies(r <= a, r <= b)))
    st.ghost['rnds'] = prev + ((t, r),)
    return r


def float_op(ex, st, tok, x, y, ins):
    pos = X.short(ins.get('pos', ''))
    if tok == '+':
        t = x + y
    elif tok == '-':
        t = x - y
    elif tok == '*':
        cx, cy = z3.simplify(x), z3.simplify(y)
        if z3.is_rational_value(cx) or z3.is_rational_value(cy):
            t = x * y
        else:
            t = ex.fresh('prod', R)
            ex.fact(st, t == x * y)
            for a, b in ((x, y), (y, x)):
                ex.fact(st, z3.Implies(z3.And(a >= 0, a <= 1, b >= 0), z3.And(t >= 0, t <= b)))
            ex.fact(st, z3.Implies(z3.Or(x == 0, y == 0), t == 0))
    elif tok == '/':
        ex.oblige(st, y != 0, 'no floating point division by zero in ' + pos)
        t = ex.fresh('quot', R)
        ex.fact(st, z3.Implies(y != 0, t * y == x))
        ex.fact(st, z3.Implies(z3.And(y > 0, x >= 0), t >= 0))
        ex.fact(st, z3.Implies(z3.And(y > 0, x >= 0, x <= y), t <= 1))
        ex.fact(st, z3.Implies(z3.And(y != 0, x == 0), t == 0))
    else:
        raise Unsupported('float ' + tok)
    ex.assumptions.add('floating point: results are mathematical reals%s; overflow to infinity is not modelled' % ('' if ex.opts.get('float', 'real') == 'real' else ' followed by a monotone idempotent rounding that is exact on 0, 1 and 100'))
    return rnd(ex, st, t)


def int_to_float(ex, st, x, T):
    t = z3.ToReal(x)
    if z3.is_int_value(x):
        return z3.RealVal(x.as_long())
    return rnd(ex, st, t)


def float_to_float(ex, st, x, a, b):
    if a == b:
        return x
    return rnd(ex, st, x)


def float_to_int(ex, st, x, T, ins):
    lo, hi = ex.p.irange(T)
    ex.oblige(st, z3.And(x > lo - 1, x < hi + 1), 'float to integer conversion in range in ' + X.short(ins.get('pos', '')))
    r = ex.fresh('trunc')
    ex.fact(st, z3.Implies(x >= 0, z3.And(z3.ToReal(r) <= x, x < z3.ToReal(r) + 1)))
    ex.fact(st, z3.Implies(x < 0, z3.And(z3.ToReal(r) >= x, x > z3.ToReal(r) - 1)))
    ex.fact(st, z3.And(r >= lo, r <= hi))
    return r


# ---------------------------------------------------------------- strings and bytes
def bytes_to_string(ex, st, x, T):
    raise Unsupported('bytes to string')


def string_to_bytes(ex, st, x, T):
    raise Unsupported('string to bytes')


# ---------------------------------------------------------------- channels
# a channel has ghost counters of the messages sent and received, the messages in order, its capacity and whether it is
# closed. Within one goroutine: a receive needs a message that is there, a send on a channel the function made needs room;
# a send on a channel that existed before is received by its owner some time (assumption).
def ck(name, sort=I):
    return ('H', 'ch:' + name, sort)


def chelem(ex, T):
    return ex.p.t(ex.p.under(T))['elem']


def msgkeys(ex, ET):
    return [ck('msg%d' % j, z3.ArraySort(I, s)) for j, s in enumerate(ex.esorts(ET))]


def cget(ex, st, name, c):
    v = ex.hread(st, ck(name), c)
    if not z3.is_int_value(v) and ('cg', v.get_id()) not in st.typed:
        st.typed.add(('cg', v.get_id()))
        ex.keep.append(v)
        ex.fact(st, v >= 0)
    return v


def mine(ex, st, c):
    ag = st.age.get(c.get_id())
    return bool(ag and ag[0] == 'fresh' and ag[1] > ex.epoch0)


def chan_nonnil(ex, st, c, what, ins):
    if z3.is_int_value(c) and c.as_long() > 0 or mine(ex, st, c):
        return
    ex.oblige(st, c > 0, '%s a nil channel never happens (it blocks forever) in %s' % (what, X.short(ins.get('pos', ''))))
    ex.fact(st, c > 0)


def chan_recv(ex, fr, ins, st):
    c = ex.val(fr, ins['x'], st)
    T = ins['x']['t']
    ET = chelem(ex, T)
    chan_nonnil(ex, st, c, 'receiving from', ins)
    ex.externs_used.add('channels (one goroutine at a time)')
    n, r = cget(ex, st, 'sent', c), cget(ex, st, 'received', c)
    ex.oblige(st, z3.Or(n > r, cget(ex, st, 'closed', c) != 0), 'a message is there to be received (the receive returns) in %s' % X.short(ins.get('pos', '')))
    if not ex.surely(st, n > r):
        raise Unsupported('receive from a channel that may be closed')
    v = ex.compose(ET, [ex.sel(st, ex.hread(st, k, c), r, ref=False) for k in msgkeys(ex, ET)])
    ex.typefacts(st, v, ET)
    ex.hwrite(st, ck('received'), c, z3.simplify(r + 1))
    return Tup([v, z3.BoolVal(True)]) if ins.get('commaok') else v


def chan_send(ex, fr, ins, st):
    c = ex.val(fr, ins['chan'], st)
    v = ex.val(fr, ins['x'], st)
    T = ins['chan']['t']
    ET = chelem(ex, T)
    chan_nonnil(ex, st, c, 'sending to', ins)
    ex.externs_used.add('channels (one goroutine at a time)')
    n = cget(ex, st, 'sent', c)
    pos = X.short(ins.get('pos', ''))
    if ex.opts.get('sendlog'):
        ex.assumptions.add('the waiting client receives what is sent on its reply channel')
        L = ex.hread(st, LOGN, z3.IntVal(0))
        ex.hwrite(st, ck('log'), z3.IntVal(0), z3.simplify(L + 1))
        ex.hwrite(st, LOGC, z3.IntVal(0), z3.Store(ex.hread(st, LOGC, z3.IntVal(0)), L, c))
        vs = ex.leafvals(v, ET)
        for j in range(2):
            t = vs[j] if j < len(vs) and vs[j].sort() == I else z3.IntVal(0)
            key = ck('logv%d' % j, z3.ArraySort(I, I))
            ex.hwrite(st, key, z3.IntVal(0), z3.Store(ex.hread(st, key, z3.IntVal(0)), L, t))
        return
    ex.oblige(st, cget(ex, st, 'closed', c) == 0, 'the channel is not closed when something is sent in ' + pos)
    if mine(ex, st, c):
        ex.oblige(st, n - cget(ex, st, 'received', c) < cget(ex, st, 'cap', c), 'the channel has room (the send returns) in ' + pos)
    else:
        ex.assumptions.add('what is sent on a channel of another goroutine is received there')
    for k, t in zip(msgkeys(ex, ET), ex.leafvals(v, ET)):
        ex.hwrite(st, k, c, z3.Store(ex.hread(st, k, c), n, t))
    ex.hwrite(st, ck('sent'), c, z3.simplify(n + 1))


LOGN, LOGC = ck('log'), ck('logc', z3.ArraySort(I, I))


def make_chan(ex, st, size, ins):
    ex.oblige(st, size >= 0, 'channel capacity is not negative in %s' % X.short(ins.get('pos', '')))
    r = ex.alloc(st)
    for n in ('sent', 'received', 'closed'):
        ex.hwrite(st, ck(n), r, z3.IntVal(0))
    ex.hwrite(st, ck('cap'), r, size)
    return r


def chan_len(ex, st, c):
    return cget(ex, st, 'sent', c) - cget(ex, st, 'received', c)


def chan_close(ex, st, c, ins):
    chan_nonnil(ex, st, c, 'closing', ins)
    ex.oblige(st, cget(ex, st, 'closed', c) == 0, 'a closed channel is not closed again in %s' % X.short(ins.get('pos', '')))
    ex.hwrite(st, ck('closed'), c, z3.IntVal(1))


# ---------------------------------------------------------------- streams
# a stream (file, writer, reader, buffered writer or reader) is a reference with ghost content, length, position,
# a closed flag and a version that changes whenever it is moved or written other than through its own reader
SK = [('S', 'content'), ('S', 'len'), ('S', 'pos'), ('S', 'ver')]
STREAM_METHODS = {'Read', 'Write', 'Seek', 'Close', 'Truncate', 'Flush', 'Reset', 'WriteByte', 'WriteString'}
STREAM_TYPES = {'*os.File', '*bufio.Writer', '*bufio.Reader', '*recengine/internal/helpers.FileBuffer'}
FB = '(*recengine/internal/helpers.FileBuffer).'


def sget(ex, st, name, ref):
    v = ex.hread(st, ('S', name), ref)
    if name != 'content':
        k = ('sg', v.get_id())
        if k not in st.typed and not z3.is_int_value(v):
            st.typed.add(k)
            ex.keep.append(v)
            ex.fact(st, v >= 0)
            if name in ('len', 'pos'):
                ex.fact(st, v <= 1 << 60)
    return v


def sset(ex, st, name, ref, v):
    ex.hwrite(st, ('S', name), ref, z3.simplify(v) if name != 'content' else v)


def stream_type_facts(ex, st):
    """bytes of the streams existing at entry are bytes"""
    a = ex.hget(st, ('S', 'content'))
    if z3.is_app(a) and a.num_args() == 0:
        ex.base_range(st, ('S', 'content'), a)


def is_stream_iface(ex, iface, m):
    return (iface.startswith('io.') or iface.endswith('domain.RandomAccessFile')) and m in STREAM_METHODS


def sref(v):
    return v.val if isinstance(v, Iface) else v


def io_error(ex, st):
    return Iface(ex.tag('I/O error'), ex.fresh('ioerr'))


NIL = Iface(z3.IntVal(0), z3.IntVal(0))


def err_global(ex, name):
    return Iface(ex.tag('*errors.errorString'), ex.globref('extern:' + name))


def fork(ex, st, alts):
    """alts: list of (condition, function(state)); runs the feasible ones"""
    for c, f in alts:
        s2 = st.copy()
        if c is not None:
            c = z3.simplify(c)
            if z3.is_false(c):
                continue
            if not z3.is_true(c):
                if not ex.feasible(s2, c):
                    continue
                ex.fact(s2, c)
        f(s2)


def fail(ex, st):
    ex.externs_used.add('file, reader and writer operations (may fail at any time after a partial effect)')
    st.io = z3.BoolVal(True)
    st.trace = st.trace + (('io', 'error'),)


def wtarget(st, ref):
    return st.bufw.get(ref.get_id())


def touch(ex, st, ref):
    """the raw stream ref is about to be moved, written or looked at directly: settle buffered writers on it"""
    for i, b in list(st.bufw.items()):
        if b['target'].eq(ref) or not ex.distinct(st, b['target'], ref):
            settle(ex, st, i)


def settle(ex, st, i):
    b = st.bufw[i]
    w, t = b['ref'], b['target']
    if sget(ex, st, 'pos', w).eq(b['p0']):
        # nothing pending
        del st.bufw[i]
        st.bufw[i] = dict(b, idle=True)
        return
    partial_flush(ex, st, b)
    st.bufw[i] = dict(b, broken=True)


def partial_flush(ex, st, b, exact=None):
    """an arbitrary prefix of the pending bytes has reached the target"""
    w, t = b['ref'], b['target']
    V, C = sget(ex, st, 'content', w), sget(ex, st, 'content', t)
    q = sget(ex, st, 'pos', w)
    f = ex.fresh('flushed')
    ex.fact(st, z3.And(b['p0'] <= f, f <= q))
    X = ex.fresh('torn', z3.ArraySort(I, I))
    i = z3.Int('i')
    ex.fact(st, z3.ForAll([i], z3.Select(X, i) == z3.If(z3.And(b['p0'] <= i, i < f), z3.Select(V, i), z3.Select(C, i)), patterns=[z3.Select(X, i)]))
    sset(ex, st, 'content', t, X)
    l = sget(ex, st, 'len', t)
    sset(ex, st, 'len', t, z3.If(z3.And(f > l, f > b['p0']), f, l))
    sset(ex, st, 'pos', t, f)
    bump(ex, st, t)


def bump(ex, st, ref):
    sset(ex, st, 'ver', ref, sget(ex, st, 'ver', ref) + 1)


def materialize_all(ex, st):
    for i, b in list(st.bufw.items()):
        if not b.get('idle') and not b.get('broken'):
            settle(ex, st, i)


def resync(ex, st, b):
    """an idle buffered writer starts from the current state of its target"""
    for n in ('content', 'len', 'pos'):
        sset(ex, st, n, b['ref'], sget(ex, st, n, b['target']))
    b = dict(b)
    b['p0'] = sget(ex, st, 'pos', b['ref'])
    b['idle'] = False
    st.bufw[b['ref'].get_id()] = b
    return b


def crash_states(ex, st, ref):
    """the crash clauses of the function under verification hold in the present state of the files"""
    c = ex.contract
    if ex.quiet or not c.always:
        return
    cls = [cl for cl in c.always if cl.active(ex.prop)]
    if not cls:
        return
    ctx = X.SpecCtx(ex, dict(ex.env0), st.copy(), ex.entry_state)
    for cl in cls:
        s2 = st.copy()
        ctx = X.SpecCtx(ex, dict(ex.env0), s2, ex.entry_state)
        ex.oblige(s2, ctx.bool(cl.expr), 'at every moment: %s' % cl.name, cl.text)


def crash_pending(ex, st, ref):
    """same for every amount of buffered data that may have reached the file"""
    b = wtarget(st, ref)
    if b is None:
        return crash_states(ex, st, ref)
    if ex.quiet or not [cl for cl in ex.contract.always if cl.active(ex.prop)]:
        return
    s2 = st.copy()
    partial_flush(ex, s2, b)
    crash_states(ex, s2, b['target'])


def overlay_bytes(ex, st, C, p, src, n):
    """src: list of byte terms, or (array, offset)"""
    if isinstance(src, list):
        for j, t in enumerate(src):
            C = z3.Store(C, z3.simplify(p + j), t)
        return C
    return ex.overlay(st, ('E', 'uint8', 'uint8', '', (), I), C, p, src[0], src[1], n)


def raw_put(ex, st, ref, src, n):
    p, l = sget(ex, st, 'pos', ref), sget(ex, st, 'len', ref)
    C = overlay_bytes(ex, st, sget(ex, st, 'content', ref), p, src, n)
    sset(ex, st, 'content', ref, C)
    e = z3.simplify(p + n)
    if not ex.surely(st, e <= l):
        l = e if ex.surely(st, z3.And(e >= l, n > 0)) else z3.If(z3.And(e > l, n > 0), e, l)
        sset(ex, st, 'len', ref, l)
    sset(ex, st, 'pos', ref, e)
    bump(ex, st, ref)


def prefix_put(ex, st, ref, src, n):
    """an arbitrary part of the bytes has been written"""
    kk = ex.fresh('part')
    ex.fact(st, z3.And(kk >= 0, kk <= n))
    p, l = sget(ex, st, 'pos', ref), sget(ex, st, 'len', ref)
    C = sget(ex, st, 'content', ref)
    if isinstance(src, list):
        X_ = C
        for j, t in enumerate(src):
            v = ex.fresh('tb')
            ex.fact(st, v == z3.If(kk > j, t, ex.sel(st, C, z3.simplify(p + j), ref=False)))
            X_ = z3.Store(X_, z3.simplify(p + j), v)
        C = X_
    else:
        C = ex.overlay(st, ('E', 'uint8', 'uint8', '', (), I), C, p, src[0], src[1], kk)
    sset(ex, st, 'content', ref, C)
    sset(ex, st, 'len', ref, z3.If(z3.And(p + kk > l, kk > 0), p + kk, l))
    sset(ex, st, 'pos', ref, p + kk)
    bump(ex, st, ref)
    return kk


def prep_writer(ex, st, ref):
    b = wtarget(st, ref)
    if b is not None:
        if b.get('broken'):
            raise Unsupported('buffered writer used after its file was moved')
        if b.get('idle'):
            resync(ex, st, b)
    else:
        touch(ex, st, ref)


def can_fail(ex, ref):
    return True


def do_write(ex, st, ref, src, n, k):
    """k(state, written, err)"""
    prep_writer(ex, st, ref)
    is_fb = fb_ref(ex, st, ref)

    def ok(s):
        ex.fact(s, sget(ex, s, 'closed', ref) == 0)
        if not z3.is_int_value(z3.simplify(n)) or z3.simplify(n).as_long() > 1:
            if not wtarget(s, ref) and ex.contract.always and not ex.quiet:
                s3 = s.copy()
                prefix_put(ex, s3, ref, src, n)
                crash_states(ex, s3, ref)
        raw_put(ex, s, ref, src, n)
        crash_pending(ex, s, ref)
        k(s, n, NIL)

    def bad(s):
        kk = prefix_put(ex, s, ref, src, n)
        crash_pending(ex, s, ref)
        b = wtarget(s, ref)
        if b is not None:
            s.bufw[ref.get_id()] = dict(b, sticky=z3.BoolVal(True))
        fail(ex, s)
        k(s, kk, io_error(ex, s))
    sticky = (wtarget(st, ref) or {}).get('sticky')
    fork(ex, st, [(z3.Not(sticky) if sticky is not None else None, ok)] + ([] if is_fb else [(None, bad)]))


def fb_ref(ex, st, ref):
    return ('fb', ref.get_id()) in st.ghost


def content_slice(ex, st, ref):
    return sget(ex, st, 'content', ref)


BYTEKEY = ('E', 'uint8', 'uint8', '', (), I)


def bytekey(ex, ET):
    ks = ex.ekeys(ET)
    if len(ks) != 1:
        raise Unsupported('not a byte slice')
    return ks[0]


def put_into(ex, st, key, dst, arr, off, n):
    A = ex.hread(st, key, dst.arr)
    ex.hwrite(st, key, dst.arr, ex.overlay(st, key, A, dst.off, arr, off, n))


def reader_target(ex, st, ref):
    """None for a raw stream, otherwise the stream below a buffered reader"""
    return st.ghost.get(('rd', ref.get_id()))


def prep_reader(ex, st, ref, isrd):
    """a buffered reader whose file was moved or written behind its back delivers unspecified bytes"""
    if isrd:
        t = ex.hread(st, ('H', 'rdtarget', I), ref)
        if t.get_id() not in st.age and not z3.is_int_value(t):
            st.age[t.get_id()] = ('old', st.epoch)
            ex.keep.append(t)
        v = ex.hread(st, ('H', 'rdver', I), ref)
        if not ex.surely(st, v == sget(ex, st, 'ver', t)):
            # the file was written or moved behind the reader's back: where it stands as the reader left it, every byte
            # delivered is one that was read ahead or one that is in the file now; otherwise the bytes are unspecified
            C, F, l = sget(ex, st, 'content', ref), sget(ex, st, 'content', t), sget(ex, st, 'len', t)
            u = ex.hread(st, ('H', 'rdunder', I), ref)
            ok = z3.And(sget(ex, st, 'pos', t) == u, l >= u)
            if ex.surely(st, ok):
                ok = z3.BoolVal(True)
            elif ex.surely(st, z3.Not(ok)):
                ok = z3.BoolVal(False)
            A = ex.fresh('stale', z3.ArraySort(I, I))
            ex.arr_range(st, ('S', 'content'), A)
            if not z3.is_false(ok):
                i = z3.Int('i')
                ex.fact(st, z3.ForAll([i], z3.Implies(ok, z3.Or(z3.Select(A, i) == z3.Select(C, i), z3.Select(A, i) == z3.Select(F, i))), patterns=[z3.Select(A, i)]))
            l2 = ex.fresh('stalelen')
            ex.fact(st, z3.And(l2 >= 0, l2 <= 1 << 60))
            sset(ex, st, 'content', ref, A)
            sset(ex, st, 'len', ref, z3.simplify(z3.If(ok, l, l2)))
            ex.hwrite(st, ('H', 'rdver', I), ref, sget(ex, st, 'ver', t))
            ex.hwrite(st, ('H', 'rdunder', I), ref, sget(ex, st, 'pos', t))
    else:
        touch(ex, st, ref)


def after_read(ex, st, ref, isrd):
    if not isrd:
        bump(ex, st, ref)
        return
    # the buffered reader has taken an unspecified amount ahead from its file
    t = ex.hread(st, ('H', 'rdtarget', I), ref)
    p = ex.fresh('ahead')
    ex.fact(st, z3.And(p >= sget(ex, st, 'pos', ref), z3.Or(p <= sget(ex, st, 'len', t), p == sget(ex, st, 'pos', ref))))
    sset(ex, st, 'pos', t, p)
    ex.hwrite(st, ('H', 'rdunder', I), ref, p)


def do_read_full(ex, st, ref, isrd, n, got, k):
    """n bytes or an error; got(state, array, offset) is called with the bytes on success; k(state, count, err)"""
    prep_reader(ex, st, ref, isrd)
    C = sget(ex, st, 'content', ref)
    p, l = sget(ex, st, 'pos', ref), sget(ex, st, 'len', ref)
    avail = z3.simplify(z3.If(l > p, l - p, z3.IntVal(0)))

    def ok(s):
        ex.fact(s, sget(ex, s, 'closed', ref) == 0)
        sset(ex, s, 'pos', ref, p + n)
        after_read(ex, s, ref, isrd)
        got(s, C, p)
        k(s, n, NIL)

    def eof(s):
        ex.fact(s, sget(ex, s, 'closed', ref) == 0)
        after_read(ex, s, ref, isrd)
        k(s, z3.IntVal(0), err_global(ex, 'io.EOF'))

    def short_(s):
        ex.fact(s, sget(ex, s, 'closed', ref) == 0)
        sset(ex, s, 'pos', ref, l)
        after_read(ex, s, ref, isrd)
        k(s, avail, err_global(ex, 'io.ErrUnexpectedEOF'))

    def bad(s):
        kk = ex.fresh('part')
        ex.fact(s, z3.And(kk >= 0, kk < n, kk <= avail))
        sset(ex, s, 'pos', ref, p + kk)
        after_read(ex, s, ref, isrd)
        fail(ex, s)
        k(s, kk, io_error(ex, s))
    alts = [(avail >= n, ok), (z3.And(avail == 0, n > 0), eof), (z3.And(avail > 0, avail < n), short_)]
    if not fb_ref(ex, st, ref):
        alts.append((n > 0, bad))
    fork(ex, st, alts)


def do_read(ex, st, ref, isrd, dst, key, k, eofdata=False):
    """one Read call"""
    prep_reader(ex, st, ref, isrd)
    C = sget(ex, st, 'content', ref)
    p, l = sget(ex, st, 'pos', ref), sget(ex, st, 'len', ref)
    avail = z3.simplify(z3.If(l > p, l - p, z3.IntVal(0)))
    n = dst.len

    def some(err):
        def f(s):
            ex.fact(s, sget(ex, s, 'closed', ref) == 0)
            c = ex.fresh('got')
            ex.fact(s, z3.And(c <= n, c <= avail, z3.Implies(z3.And(n > 0, avail > 0), c >= 1), c >= 0))
            if z3.is_int_value(z3.simplify(n)) and z3.simplify(n).as_long() == 1:
                c = z3.IntVal(1)
            if err:
                ex.fact(s, c == avail)
            put_into(ex, s, key, dst, C, p, c)
            sset(ex, s, 'pos', ref, p + c)
            after_read(ex, s, ref, isrd)
            k(s, c, err_global(ex, 'io.EOF') if err else NIL)
        return f

    def eof(s):
        ex.fact(s, sget(ex, s, 'closed', ref) == 0)
        after_read(ex, s, ref, isrd)
        k(s, z3.IntVal(0), err_global(ex, 'io.EOF'))

    def nothing(s):
        k(s, z3.IntVal(0), NIL)

    def bad(s):
        c = ex.fresh('part')
        ex.fact(s, z3.And(c >= 0, c <= n, c <= avail))
        put_into(ex, s, key, dst, C, p, c)
        sset(ex, s, 'pos', ref, p + c)
        after_read(ex, s, ref, isrd)
        fail(ex, s)
        k(s, c, io_error(ex, s))
    ex.assumptions.add('a reader never returns 0 bytes without an error for a non-empty buffer')
    alts = [(z3.And(avail > 0, n > 0), some(False)), (z3.And(avail == 0, n > 0), eof), (n == 0, nothing)]
    if eofdata:
        alts.append((z3.And(avail > 0, n > 0), some(True)))
    if not fb_ref(ex, st, ref):
        alts.append((None, bad))
    fork(ex, st, alts)


def do_seek(ex, st, ref, off, whence, k):
    touch(ex, st, ref)
    w = z3.simplify(whence)
    if not z3.is_int_value(w):
        raise Unsupported('seek with a computed origin')
    w = w.as_long()
    p, l = sget(ex, st, 'pos', ref), sget(ex, st, 'len', ref)
    base = {0: z3.IntVal(0), 1: p, 2: l}.get(w)

    def refused(s):
        s.trace = s.trace + (('seek', 'refused'),)
        e = Iface(ex.tag('seek error'), ex.fresh('seekerr'))
        k(s, z3.IntVal(0), e)
    if base is None:
        return refused(st)
    t = z3.simplify(base + off)

    def ok(s):
        ex.fact(s, sget(ex, s, 'closed', ref) == 0)
        if not t.eq(p):
            sset(ex, s, 'pos', ref, t)
            bump(ex, s, ref)
        k(s, t, NIL)

    def bad(s):
        fail(ex, s)
        k(s, z3.IntVal(0), io_error(ex, s))
    alts = [(z3.And(t >= 0, t <= 1 << 60), ok), (z3.Or(t < 0, t > l), refused)]
    if fb_ref(ex, st, ref):
        alts = [(z3.And(t >= 0, t <= l), ok), (z3.Or(t < 0, t > l), refused)]
    else:
        alts.append((None, bad))
    fork(ex, st, alts)


def do_truncate(ex, st, ref, size, k):
    touch(ex, st, ref)
    p, l = sget(ex, st, 'pos', ref), sget(ex, st, 'len', ref)

    def ok(s):
        ex.fact(s, sget(ex, s, 'closed', ref) == 0)
        C = sget(ex, s, 'content', ref)
        if not ex.surely(s, size <= l):
            i = z3.Int('i')
            N = ex.fresh('trunc', z3.ArraySort(I, I))
            ex.fact(s, z3.ForAll([i], z3.Select(N, i) == z3.If(z3.And(l <= i, i < size), z3.IntVal(0), z3.Select(C, i)), patterns=[z3.Select(N, i)]))
            sset(ex, s, 'content', ref, N)
        sset(ex, s, 'len', ref, size)
        q = ex.fresh('tpos')
        ex.fact(s, z3.Or(q == p, z3.And(p > size, q == size)))
        if ex.surely(s, p <= size):
            q = p
        sset(ex, s, 'pos', ref, q)
        bump(ex, s, ref)
        crash_states(ex, s, ref)
        k(s, NIL)

    def refused(s):
        k(s, Iface(ex.tag('truncate error'), ex.fresh('truncerr')))

    def bad(s):
        fail(ex, s)
        k(s, io_error(ex, s))
    fork(ex, st, [(size >= 0, ok), (size < 0, refused)] + ([] if fb_ref(ex, st, ref) else [(None, bad)]))


def do_close(ex, st, ref, k):
    touch(ex, st, ref)

    def ok(s):
        ex.fact(s, sget(ex, s, 'closed', ref) == 0)
        sset(ex, s, 'closed', ref, z3.IntVal(1))
        k(s, NIL)

    def bad(s):
        sset(ex, s, 'closed', ref, z3.IntVal(1))
        fail(ex, s)
        k(s, io_error(ex, s))
    alts = [(None, ok)]
    if not fb_ref(ex, st, ref):
        alts.append((None, bad))
    fork(ex, st, alts)


def do_flush(ex, st, ref, k):
    b = wtarget(st, ref)
    if b is None:
        raise Unsupported('flush of an unknown buffered writer')
    if b.get('idle'):
        return k(st, NIL)
    if b.get('broken'):
        raise Unsupported('flush after the file was moved')
    t = b['target']

    def ok(s):
        ex.fact(s, sget(ex, s, 'closed', t) == 0)
        if not ex.quiet and [cl for cl in ex.contract.always if cl.active(ex.prop)]:
            crash_pending(ex, s, ref)
        for n in ('content', 'len', 'pos'):
            sset(ex, s, n, t, sget(ex, s, n, ref))
        bump(ex, s, t)
        crash_states(ex, s, t)
        s.bufw[ref.get_id()] = dict(b, idle=True)
        k(s, NIL)

    def bad(s):
        partial_flush(ex, s, b)
        crash_states(ex, s, t)
        s.bufw[ref.get_id()] = dict(b, broken=True)
        fail(ex, s)
        k(s, io_error(ex, s))
    sticky = b.get('sticky')
    fork(ex, st, [(z3.Not(sticky) if sticky is not None else None, ok)] + ([] if fb_ref(ex, st, t) else [(None, bad)]))


def slice_src(ex, st, b, ET):
    """bytes of a slice value: list of terms when the length is small and known"""
    key = bytekey(ex, ET)
    A = ex.hread(st, key, b.arr)
    n = z3.simplify(b.len)
    if z3.is_int_value(n) and n.as_long() <= 40:
        return [ex.sel(st, A, z3.simplify(b.off + j), ref=False) for j in range(n.as_long())], z3.IntVal(n.as_long())
    return (A, b.off), b.len


def stream_call(ex, m, recv, rt, args, ats, st, k, fr, ins):
    """method m on a stream held in an interface or pointer"""
    ref = sref(recv)
    pos = X.short(ins.get('pos', ''))
    if isinstance(recv, Iface):
        if not z3.is_int_value(recv.tag):
            key = ('nnif', recv.tag.get_id())
            if key not in st.typed:
                st.typed.add(key)
                ex.keep.append(recv.tag)
                ex.oblige(st, recv.tag != 0, 'no nil interface call of %s in %s' % (m, pos))
        elif recv.tag.as_long() == 0:
            ex.oblige(st, z3.BoolVal(False), 'no nil interface call of %s in %s' % (m, pos))
            return
        dyn = recv.dyn[0] if recv.dyn else None
    else:
        dyn = rt
        ex.nonnil(st, recv, m, ins)
    ex.externs_used.add('stream model: Read, Write, Seek, Truncate, Close, bufio.Writer, bufio.Reader')
    isrd = dyn == '*bufio.Reader'

    def k2(s, a, e):
        k(s, Tup([a, e]))
    if m == 'Write':
        src, n = slice_src(ex, st, args[0], ex.p.elem(ats[0]))
        return do_write(ex, st, ref, src, n, k2)
    if m == 'Read':
        eofdata = isinstance(recv, Iface) and dyn is None and rt == 'io.Reader'
        return do_read(ex, st, ref, isrd, args[0], bytekey(ex, ex.p.elem(ats[0])), k2, eofdata)
    if m == 'Seek':
        return do_seek(ex, st, ref, args[0], args[1], k2)
    if m == 'Truncate':
        return do_truncate(ex, st, ref, args[0], k)
    if m == 'Close':
        return do_close(ex, st, ref, k)
    if m == 'Flush':
        return do_flush(ex, st, ref, k)
    if m == 'WriteByte':
        return do_write(ex, st, ref, [args[0]], z3.IntVal(1), lambda s, n, e: k(s, e))
    if m == 'Reset' and isrd:
        attach_reader(ex, st, ref, sref(args[0]))
        return k(st, Tup([]))
    raise Unsupported('stream method ' + m)


def attach_reader(ex, st, r, t):
    touch(ex, st, t)
    for n in ('content', 'len', 'pos'):
        sset(ex, st, n, r, sget(ex, st, n, t))
    sset(ex, st, 'closed', r, z3.IntVal(0))
    ex.hwrite(st, ('H', 'rdtarget', I), r, t)
    ex.hwrite(st, ('H', 'rdver', I), r, sget(ex, st, 'ver', t))
    ex.hwrite(st, ('H', 'rdunder', I), r, sget(ex, st, 'pos', t))


def after_stream_change(ex, st, old, streams, con, fr, ins):
    """a contract call changed these streams"""
    for ref in streams:
        b = wtarget(st, ref)
        if b is not None:
            if b.get('idle'):
                continue
            st.bufw[ref.get_id()] = dict(b, sticky=z3.And(st.io, z3.Not(old.io)))
    if not ex.quiet and [cl for cl in ex.contract.always if cl.active(ex.prop)]:
        for ref in streams:
            if wtarget(st, ref) is not None:
                crash_pending(ex, st, ref)


def before_stream_change(ex, st, refs):
    """a contract call is about to change or look at these streams"""
    for ref in refs:
        b = wtarget(st, ref)
        if b is not None:
            if b.get('broken'):
                raise Unsupported('buffered writer used after its file was moved')
            if b.get('idle'):
                resync(ex, st, b)
        else:
            touch(ex, st, ref)


# ---------------------------------------------------------------- big endian numbers
def bv(ex, n):
    return ex.ufcache.setdefault(('bv', n), z3.Function('bv%d' % n, I, I, I))


def be(ex, n):
    return ex.ufcache.setdefault(('be', n), z3.Function('be%d' % n, *([I] * (n + 1))))


def encode(ex, st, v, n):
    """the n bytes of an unsigned value, most significant first"""
    if n == 1:
        return [v]
    vs = z3.simplify(v)
    if z3.is_int_value(vs):
        x = vs.as_long()
        out = [z3.IntVal((x >> (8 * (n - 1 - j))) & 255) for j in range(n)]
        ex.fact(st, be(ex, n)(*out) == vs)
        return out
    f = bv(ex, n)
    out = [f(v, z3.IntVal(j)) for j in range(n)]
    key = ('bvf', n, v.get_id())
    if key not in st.typed:
        st.typed.add(key)
        ex.keep.append(v)
        for t in out:
            ex.fact(st, z3.And(t >= 0, t <= 255))
        ex.fact(st, be(ex, n)(*out) == v)
    ex.externs_used.add('big endian encoding and decoding are inverse (encoding/binary)')
    return out


def decode(ex, st, bs, facts=True):
    n = len(bs)
    if n == 1:
        return bs[0]
    ss = [z3.simplify(b) for b in bs]
    if all(z3.is_int_value(b) for b in ss):
        return z3.IntVal(int.from_bytes(bytes(b.as_long() & 255 for b in ss), 'big'))
    r = be(ex, n)(*bs)
    key = ('bef', r.get_id())
    if facts and key not in st.typed:
        st.typed.add(key)
        ex.keep.append(r)
        ex.fact(st, z3.And(r >= 0, r < 1 << (8 * n)))
        for j, b in enumerate(bs):
            ex.fact(st, z3.And(b >= 0, b <= 255))
            ex.fact(st, bv(ex, n)(r, z3.IntVal(j)) == b)
    return r


def to_unsigned(ex, v, T):
    w = ex.p_width(T)
    if ex.p.irange(T)[0] < 0:
        return z3.If(v < 0, v + (1 << w), v)
    return v


def from_unsigned(ex, v, T):
    lo, hi = ex.p.irange(T)
    if lo < 0:
        return z3.If(v > hi, v - (hi - lo + 1), v)
    return v


def little(ex, order):
    t = order.tag
    if z3.is_int_value(t):
        n = ex.tagname.get(t.as_long(), '')
        if 'bigEndian' in n:
            return False
        if 'littleEndian' in n:
            return True
    raise Unsupported('unknown byte order')


# ---------------------------------------------------------------- calls
def errors_new(ex, st, kind='*errors.errorString'):
    r = ex.alloc(st)
    return Iface(ex.tag(kind), r)


def errorf(ex, st, args, ats):
    fmt = z3.simplify(args[0]) if isinstance(args[0], z3.ExprRef) else None
    f = fmt.as_string() if fmt is not None and z3.is_string_value(fmt) else ''
    wi = None
    i = n = 0
    while i < len(f):
        if f[i] == '%' and i + 1 < len(f):
            j = i + 1
            while j < len(f) and f[j] in '+-# 0123456789.':
                j += 1
            if j < len(f) and f[j] == '%':
                i = j + 1
                continue
            if j < len(f) and f[j] == 'w':
                wi = n
            n += 1
            i = j
        i += 1
    r = ex.alloc(st)
    if wi is None:
        return Iface(ex.tag('*fmt.errorString'), r)
    sl = args[1]
    ET = ex.p.elem(ats[1])
    w = ex.load_elem(st, sl.arr, z3.simplify(sl.off + wi), ET, (), ET)
    ex.hwrite(st, ('H', 'unwrap_tag', I), r, w.tag)
    ex.hwrite(st, ('H', 'unwrap_val', I), r, w.val)
    return Iface(ex.tag('*fmt.wrapError'), r)


def err_is(ex, st, e, target, depth=0, facts=True):
    """errors.Is: e is the target or wraps an error that is (an error never changes what it wraps)"""
    c = z3.And(e.tag == target.tag, e.val == target.val)
    t = z3.simplify(e.tag)
    if z3.is_int_value(t) and t.as_long() != ex.tag('*fmt.wrapError').as_long():
        return c
    f = ex.ufcache.setdefault(('errIs',), z3.Function('errIs', I, I, I, I, B))
    r = f(e.tag, e.val, target.tag, target.val)
    if facts and depth < 3:
        u = Iface(ex.hread(st, ('H', 'unwrap_tag', I), e.val), ex.hread(st, ('H', 'unwrap_val', I), e.val))
        ex.fact(st, r == z3.And(e.tag != 0, z3.Or(c, z3.And(e.tag == ex.tag('*fmt.wrapError'), err_is(ex, st, u, target, depth + 1)))))
    return r


def reader_of(ex, v):
    dyn = v.dyn[0] if isinstance(v, Iface) and v.dyn else None
    return sref(v), dyn == '*bufio.Reader'


def call(ex, name, origin, args, ats, st, k, fr, ins):
    pos = X.short(ins.get('pos', ''))
    if name in ('fmt.Println', 'fmt.Printf', 'log.Println', 'log.Printf', 'fmt.Print'):
        ex.externs_used.add('logging has no effect')
        n = ex.havoc_value(st, 'int', 'pr') if name.startswith('fmt') else None
        return k(st, Tup([n, NIL]) if name.startswith('fmt') else Tup([]))
    if name == 'errors.New':
        ex.externs_used.add('errors.New, fmt.Errorf, errors.Is')
        return k(st, errors_new(ex, st))
    if name == 'fmt.Errorf':
        ex.externs_used.add('errors.New, fmt.Errorf, errors.Is')
        return k(st, errorf(ex, st, args, ats))
    if name == 'errors.As':
        return ginmodel.errors_as(ex, st, args[0], args[1], k, ins)
    if name.startswith('(*' + ginmodel.GIN):
        T, m = name[2:].split(').')
        if T == ginmodel.GIN + 'Context':
            return ginmodel.context(ex, m, args, ats, st, k, fr, ins)
        return ginmodel.router(ex, m, args[0], args[1:], ats[1:], st, k, fr, ins)
    if name == 'errors.Is':
        ex.externs_used.add('errors.New, fmt.Errorf, errors.Is')
        return k(st, err_is(ex, st, args[0], args[1]))
    m = None
    for T in STREAM_TYPES:
        if name.startswith('(' + T + ').'):
            m = name[len(T) + 3:]
            if m in STREAM_METHODS:
                return stream_call(ex, m, args[0], T, args[1:], ats[1:], st, k, fr, ins)
    if name == 'bufio.NewWriter' or name == 'bufio.NewWriterSize':
        t = sref(args[0])
        touch(ex, st, t)
        r = ex.alloc(st)
        sset(ex, st, 'closed', r, z3.IntVal(0))
        st.bufw[r.get_id()] = {'ref': r, 'target': t, 'p0': None, 'idle': True}
        ex.keep.append(r)
        return k(st, r)
    if name == 'bufio.NewReader' or name == 'bufio.NewReaderSize':
        r = ex.alloc(st)
        attach_reader(ex, st, r, sref(args[0]))
        return k(st, r)
    if name == 'io.ReadFull' or name == 'io.ReadAtLeast':
        ref, isrd = reader_of(ex, args[0])
        dst = args[1]
        key = bytekey(ex, ex.p.elem(ats[1]))
        if name == 'io.ReadAtLeast' and not ex.surely(st, args[2] == dst.len):
            raise Unsupported('io.ReadAtLeast')

        def got(s, C, p):
            put_into(ex, s, key, dst, C, p, dst.len)

        def kk(s, n, e):
            if not z3.is_int_value(e.tag) or e.tag.as_long() != 0:
                # a failed read leaves unspecified bytes in the buffer
                A = ex.fresh('junk', z3.ArraySort(I, I))
                ex.arr_range(s, key, A)
                old = ex.hread(s, key, dst.arr)
                ex.hwrite(s, key, dst.arr, ex.overlay(s, key, old, dst.off, A, z3.IntVal(0), n))
            k(s, Tup([n, e]))
        return do_read_full(ex, st, ref, isrd, dst.len, got, kk)
    if name == 'encoding/binary.Write':
        return binary_write(ex, args, st, k, ins)
    if name == 'encoding/binary.Read':
        return binary_read(ex, args, st, k, ins)
    if name.startswith('(encoding/binary.bigEndian).') or name.startswith('(encoding/binary.littleEndian).'):
        return byte_order(ex, name, args, ats, st, k, ins)
    if name == 'reflect.DeepEqual' or name == 'bytes.Equal':
        return deep_equal(ex, name, args, ats, st, k)
    if name == 'io.Copy':
        dst, src = args
        return io_copy(ex, sref(dst), src, st, k)
    if name.startswith('os.') and name[3:] in PATHCALLS:
        return path_call(ex, name[3:], args, ats, st, k, ins)
    if name in ('encoding/json.Marshal', 'encoding/json.MarshalIndent'):
        return json_marshal(ex, args[0], st, k)
    if name == 'encoding/json.Unmarshal':
        return json_unmarshal(ex, args[0], args[1], st, k)
    r = string_call(ex, name, args, ats, st, k, ins)
    if r is not NotImplemented:
        return r
    raise Unsupported('call of %s in %s' % (name, pos))


# ---------------------------------------------------------------- JSON
# A byte slice with its content names a document. What Marshal makes of a slice of structures of scalars is a document with
# one array per member; Unmarshal takes the members of the same name and type out of it and does not fail on such a document.
JF = ('H', 'path:doc', I)


def jdoc(ex, st, d):
    f = ex.ufcache.setdefault('jdoc', z3.Function('jdoc', z3.ArraySort(I, I), I, I, I))
    return f(ex.hread(st, bytekey(ex, 'uint8'), d.arr), d.off, d.len)


def jfun(ex, name, res):
    return ex.ufcache.setdefault(('j', name, str(res)), z3.Function('json_%s_%s' % (name, res), I, res))


def jmembers(ex, T):
    """[(path, leaf type, member name or None)] of a structure of scalars, None for other types"""
    out = []

    def go(T, path, pre, vis):
        for i, f in enumerate(ex.p.fields(T)):
            tag = f['tag']
            m = re.search(r'json:"([^"]*)"', tag)
            opts = m.group(1).split(',') if m else ['']
            name = opts[0] or f['name']
            v = vis and f['name'][:1].isupper() and opts != ['-']
            if 'string' in opts[1:]:
                name += '!'
            k = ex.p.kind(f['type'])
            if k == 'struct':
                if f['embedded'] or ex.p.is_opaque(f['type']) or ex.p.methods.get(f['type'], {}).get('MarshalJSON'):
                    return False
                if not go(f['type'], path + (i,), pre + name + '.', v):
                    return False
            elif k in ('int', 'string', 'bool', 'float'):
                out.append((path + (i,), f['type'], '%s%s:%s' % (pre, name, ex.p.under(f['type'])) if v else None))
            else:
                return False
        return True
    if ex.p.kind(T) != 'struct' or ex.p.is_opaque(T) or not go(T, (), '', True):
        return None
    names = [n.split(':')[0].lower() for _, _, n in out if n]
    return out if len(set(names)) == len(names) else None


def fresh_bytes(ex, st):
    r = ex.alloc(st)
    A = ex.fresh('filebytes', z3.ArraySort(I, I))
    ex.arr_range(st, bytekey(ex, 'uint8'), A)
    ex.hwrite(st, bytekey(ex, 'uint8'), r, A)
    l = ex.fresh('filelen')
    ex.fact(st, z3.And(l >= 0, l <= X.MAXLEN))
    return Slice(r, z3.IntVal(0), l, l)


def jarr(ex, st, key, x):
    return ex.hread(st, key, x.arr)


def json_marshal(ex, v, st, k):
    ex.externs_used.add('encoding/json: what Marshal made of a slice of structures, Unmarshal restores (strings of valid UTF-8)')
    z = z3.IntVal(0)

    def good(s):
        d = fresh_bytes(ex, s)
        if v.dyn and ex.p.kind(v.dyn[0]) == 'slice' and isinstance(v.dyn[1], Slice):
            x, ET = v.dyn[1], ex.p.elem(v.dyn[0])
            ms = jmembers(ex, ET)
            if ms is not None:
                c = jdoc(ex, s, d)
                ex.fact(s, z3.And(jfun(ex, 'ok', B)(c), jfun(ex, 'len', I)(c) == x.len))
                names = {p: n for p, _, n in ms}
                for key in ex.ekeys(ET):
                    n = names[key[4]]
                    if n is None:
                        continue
                    a = jfun(ex, 'm_' + n, z3.ArraySort(I, key[-1]))(c)
                    i = z3.Int('i')
                    src = jarr(ex, s, key, x)
                    ex.fact(s, jfun(ex, 'has_' + n, B)(c))
                    ex.fact(s, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < x.len), a[i] == src[x.off + i]), patterns=[a[i]]))
        k(s, Tup([d, NIL]))

    def bad(s):
        fail(ex, s)
        k(s, Tup([Slice(z, z, z, z), Iface(ex.tag('*encoding/json.UnsupportedValueError'), ex.alloc(s))]))
    return fork(ex, st, [(None, good), (None, bad)])


def json_unmarshal(ex, data, v, st, k):
    ex.externs_used.add('encoding/json: what Marshal made of a slice of structures, Unmarshal restores (strings of valid UTF-8)')
    T = v.dyn and v.dyn[0]
    if not T or ex.p.kind(T) != 'pointer' or ex.p.kind(ex.p.elem(T)) != 'slice':
        raise Unsupported('json.Unmarshal into this type')
    ST = ex.p.elem(T)
    ET = ex.p.elem(ST)
    ms = jmembers(ex, ET)
    c = jdoc(ex, st, data)
    names = {p: n for p, _, n in ms or []}
    fits = z3.And([jfun(ex, 'ok', B)(c)] + [jfun(ex, 'has_' + n, B)(c) for n in names.values() if n]) if ms is not None else z3.BoolVal(False)
    ptr = v.dyn[1]

    def good(s):
        old = ex.load(s, ptr, ST)
        blank = ex.surely(s, old.cap == 0)
        r = ex.alloc(s)
        l = ex.fresh('decoded')
        ex.fact(s, z3.And(l >= 0, l <= X.MAXLEN, z3.Implies(fits, l == jfun(ex, 'len', I)(c))))
        for key in ex.ekeys(ET):
            A = ex.fresh('members', z3.ArraySort(I, key[-1]))
            ex.arr_range(s, key, A)
            n = names.get(key[4])
            i = z3.Int('i')
            if n is not None:
                a = jfun(ex, 'm_' + n, z3.ArraySort(I, key[-1]))(c)
                ex.fact(s, z3.Implies(fits, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < l), A[i] == a[i]), patterns=[A[i]])))
            elif ms is not None and blank:
                ex.fact(s, z3.ForAll([i], A[i] == ex.zero_term(key[-1]), patterns=[A[i]]))
            ex.hwrite(s, key, r, A)
        ex.store(s, ptr, Slice(r, z3.IntVal(0), l, l), ST)
        k(s, NIL)

    def bad(s):
        old = ex.havoc_value(s, ST, 'partial')
        ex.store(s, ptr, old, ST)
        k(s, Iface(ex.tag('*encoding/json.SyntaxError'), ex.alloc(s)))
    return fork(ex, st, [(None, good), (z3.Not(fits), bad)])


# ---------------------------------------------------------------- files by path
PATHCALLS = {'OpenFile': 1, 'Open': 1, 'Create': 1, 'ReadFile': 1, 'WriteFile': 1, 'Remove': 1, 'RemoveAll': 1, 'Mkdir': 1, 'MkdirAll': 1, 'Stat': 1, 'Rename': 2, 'Truncate': 1}


def path_call(ex, m, args, ats, st, k, ins):
    ex.externs_used.add('files by path (os package): any operation may fail, a file opened has any content')
    if not ex.quiet:
        for cl in ex.contract.opens:
            if cl.active(ex.prop):
                for a in args[:PATHCALLS[m]]:
                    ctx = X.SpecCtx(ex, dict(ex.env0, path=TV(a, 'string')), st, ex.entry_state)
                    ex.oblige(st, ctx.bool(cl.expr), 'every file used: %s in %s' % (cl.name, X.short(ins.get('pos', ''))), cl.text)

    def bad(s, *zs):
        fail(ex, s)
        e = Iface(ex.tag('*io/fs.PathError'), ex.alloc(s))
        k(s, Tup(list(zs) + [e]) if zs else e)
    if m in ('OpenFile', 'Open', 'Create'):
        def good(s):
            r = ex.alloc(s)
            A = ex.fresh('filebytes', z3.ArraySort(I, I))
            ex.arr_range(s, ('S', 'content'), A)
            l = ex.fresh('filelen')
            ex.fact(s, z3.And(l >= 0, l <= 1 << 60))
            sset(ex, s, 'content', r, A)
            sset(ex, s, 'len', r, l)
            for n in ('pos', 'closed', 'ver'):
                sset(ex, s, n, r, z3.IntVal(0))
            k(s, Tup([r, NIL]))
        return fork(ex, st, [(None, good), (None, lambda s: bad(s, z3.IntVal(0)))])
    if m == 'ReadFile':
        def good(s):
            d = fresh_bytes(ex, s)
            if ex.ordstr:
                ex.fact(s, jdoc(ex, s, d) == ex.hread(s, JF, args[0]))
            k(s, Tup([d, NIL]))
        z = z3.IntVal(0)
        return fork(ex, st, [(None, good), (None, lambda s: bad(s, Slice(z, z, z, z)))])
    if m == 'Stat':
        raise Unsupported('os.Stat')
    if m == 'WriteFile' and ex.ordstr:
        def wgood(s):
            ex.hwrite(s, JF, args[0], jdoc(ex, s, args[1]))
            k(s, NIL)

        def wbad(s):
            ex.hwrite(s, JF, args[0], ex.fresh('doc'))
            bad(s)
        return fork(ex, st, [(None, wgood), (None, wbad)])
    if ex.ordstr:
        for a in args[:PATHCALLS[m]]:
            ex.hwrite(st, JF, a, ex.fresh('doc'))
    return fork(ex, st, [(None, lambda s: k(s, NIL)), (None, lambda s: bad(s))])


# ---------------------------------------------------------------- strings, numbers, environment
def strconst(ex, v):
    v = z3.simplify(v)
    if ex.ordstr:
        m = ex.ufcache.get('strids', {'': 0})
        if z3.is_int_value(v):
            for s, i in m.items():
                if i == v.as_long():
                    return s
        raise Unsupported('computed string where a constant is expected')
    if not z3.is_string_value(v):
        raise Unsupported('computed string where a constant is expected')
    return unescape(v.as_string())


def unescape(s):
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


def suf(ex, name, n=1, sorts=None, res=None):
    """ghost function over strings"""
    s = gostr.sort(ex)
    return ex.ufcache.setdefault(('sf', name, str(s)), z3.Function('%s_%s' % (name, s), *((sorts or [s] * n) + [s if res is None else res])))


def string_call(ex, name, args, ats, st, k, ins):
    U = ex.externs_used
    if name in ('regexp.MustCompile', 'regexp.Compile'):
        U.add('regexp (RE2 syntax; a match inside invalid UTF-8 is approximated byte by byte)')
        pat = strconst(ex, args[0])
        gostr.parse(pat)
        r = Regex(pat, ex.globref('regexp:' + pat))
        return k(st, r if name.endswith('MustCompile') else Tup([r, NIL]))
    if name == '(*regexp.Regexp).MatchString':
        if not isinstance(args[0], Regex):
            raise Unsupported('unknown regular expression')
        return k(st, gostr.inre(ex, args[1], args[0].pat))
    if name == 'regexp.MatchString':
        U.add('regexp (RE2 syntax; a match inside invalid UTF-8 is approximated byte by byte)')
        return k(st, Tup([gostr.inre(ex, args[1], strconst(ex, args[0])), NIL]))
    if name == 'os.Getenv' or name == 'os.LookupEnv':
        U.add('environment variables do not change between two looks at them')
        v = suf(ex, 'getenv')(args[0])
        if name == 'os.Getenv':
            return k(st, v)
        c = ex.fresh('envset', B)
        ex.fact(st, z3.Implies(z3.Not(c), v == gostr_empty(ex)))
        return k(st, Tup([v, c]))
    if name == 'strconv.Atoi' or name == 'strconv.ParseInt' and z3.simplify(args[1]).eq(z3.IntVal(10)) and z3.simplify(args[2]).eq(z3.IntVal(64)):
        U.add('strconv.Atoi, strconv.Itoa (decimal numbers)')
        s = args[0]
        v = suf(ex, 'atoival', res=I)(s)
        ex.fact(st, z3.And(v >= -(1 << 63), v < 1 << 63))
        ok = suf(ex, 'atoiok', res=B)(s)

        def good(s2):
            k(s2, Tup([v, NIL]))

        def bad(s2):
            n = ex.fresh('num')
            ex.fact(s2, z3.And(n >= -(1 << 63), n < 1 << 63))
            k(s2, Tup([n, Iface(ex.tag('*strconv.NumError'), ex.alloc(s2))]))
        return fork(ex, st, [(ok, good), (z3.Not(ok), bad)])
    if name == 'strconv.Itoa' or name == 'strconv.FormatInt' and z3.simplify(args[1]).eq(z3.IntVal(10)):
        U.add('strconv.Atoi, strconv.Itoa (decimal numbers)')
        return k(st, itoa(ex, args[0]))
    if name == 'net.JoinHostPort' and not ex.ordstr:
        h, p = args
        c = lambda x: z3.StringVal(x)
        return k(st, z3.If(z3.Contains(h, c(':')), z3.Concat(c('['), h, c(']:'), p), z3.Concat(h, c(':'), p)))
    if name == 'fmt.Sprintf':
        r = sprintf(ex, st, args, ats)
        return k(st, r)
    if name == 'fmt.Sprint':
        return k(st, ex.fresh('text', gostr.sort(ex)))
    if name.startswith('strings.') and not ex.ordstr:
        m = name[8:]
        if m == 'HasPrefix':
            return k(st, z3.PrefixOf(args[1], args[0]))
        if m == 'HasSuffix':
            return k(st, z3.SuffixOf(args[1], args[0]))
        if m == 'Contains':
            return k(st, z3.Contains(args[0], args[1]))
        if m == 'TrimSuffix':
            return k(st, z3.If(z3.SuffixOf(args[1], args[0]), z3.SubString(args[0], 0, z3.Length(args[0]) - z3.Length(args[1])), args[0]))
        if m == 'TrimPrefix':
            return k(st, z3.If(z3.PrefixOf(args[1], args[0]), z3.SubString(args[0], z3.Length(args[1]), z3.Length(args[0]) - z3.Length(args[1])), args[0]))
    return NotImplemented


def gostr_empty(ex):
    return z3.IntVal(0) if ex.ordstr else z3.StringVal('')


def itoa(ex, n):
    return suf(ex, 'itoa', sorts=[I])(n)


def sprintf(ex, st, args, ats):
    """%s and %v of strings, %d and %v of integers; anything else gives an unspecified text"""
    ex.externs_used.add('fmt.Sprintf of strings and integers')
    unknown = ex.fresh('text', gostr.sort(ex))
    try:
        f = strconst(ex, args[0])
    except Unsupported:
        return unknown
    sl = args[1]
    ET = ex.p.elem(ats[1])
    out, i, n = [], 0, 0
    lit = ''
    while i < len(f):
        if f[i] == '%' and i + 1 < len(f):
            c = f[i + 1]
            i += 2
            if c == '%':
                lit += '%'
                continue
            if c not in 'sdv':
                return unknown
            w = st.ghost.get(('boxed', z3.simplify(ex.load_elem(st, sl.arr, z3.simplify(sl.off + n), ET, (), ET).val).get_id()))
            n += 1
            if w is None:
                return unknown
            T, v = w
            out.append(lit)
            lit = ''
            kd = ex.p.kind(T)
            if kd == 'string' and c in 'sv':
                out.append(v)
            elif kd == 'int' and c in 'dv' and ex.p.methods.get(T, {}).get('String') is None:
                out.append(itoa(ex, v))
            else:
                return unknown
        else:
            lit += f[i]
            i += 1
    out.append(lit)
    out = [x for x in out if not (isinstance(x, str) and x == '')]
    r = None
    for x in out:
        t = (gostr.const(ex, x) if ex.ordstr else X.strval(x.encode('latin1'))) if isinstance(x, str) else x
        r = t if r is None else gostr.concat(ex, r, t)
    return gostr_empty(ex) if r is None else r


def filebuffer_call(ex, name, args, ats, st, k, fr, ins):
    """the in-memory file used by other packages: the stream it implements (shown by C06)"""
    ex.externs_used.add('helpers.FileBuffer is a stream whose operations fail only when closed or out of range (property C06)')
    if name.endswith('.NewFileBuffer'):
        r = ex.alloc(st)
        st.ghost[('fb', r.get_id())] = True
        b = args[0]
        if z3.is_int_value(z3.simplify(b.arr)) and z3.simplify(b.arr).as_long() == 0:
            sset(ex, st, 'content', r, z3.K(I, z3.IntVal(0)))
            sset(ex, st, 'len', r, z3.IntVal(0))
        else:
            key = bytekey(ex, 'uint8')
            sset(ex, st, 'content', r, ex.overlay(st, key, z3.K(I, z3.IntVal(0)), z3.IntVal(0), ex.hread(st, key, b.arr), b.off, b.len))
            sset(ex, st, 'len', r, b.len)
        sset(ex, st, 'pos', r, z3.IntVal(0))
        sset(ex, st, 'closed', r, z3.IntVal(0))
        sset(ex, st, 'ver', r, z3.IntVal(0))
        return k(st, r)
    m = name[len(FB):]
    if m == 'Len':
        return k(st, sget(ex, st, 'len', args[0]))
    if m == 'Bytes':
        r = ex.alloc(st)
        key = bytekey(ex, 'uint8')
        ex.hwrite(st, key, r, sget(ex, st, 'content', args[0]))
        n = sget(ex, st, 'len', args[0])
        return k(st, Slice(r, z3.IntVal(0), n, n))
    return stream_call(ex, m, args[0], '*recengine/internal/helpers.FileBuffer', args[1:], ats[1:], st, k, fr, ins)


def int_size(ex, T):
    n = ex.p.t(T).get('name')
    if ex.p.kind(T) == 'bool':
        return 1
    if ex.p.kind(T) == 'int' and n not in ('int', 'uint', 'uintptr'):
        return X.WIDTH[n] // 8
    raise Unsupported('binary encoding of %s' % T)


def binary_write(ex, args, st, k, ins):
    w, order, data = args
    d = ex.dynof(st, data)
    if d is None:
        raise Unsupported('binary.Write of a value of unknown type')
    T, v = d
    ref = sref(w)
    le = little(ex, order)
    ex.externs_used.add('encoding/binary')
    kd = ex.p.kind(T)
    if kd == 'pointer':
        T = ex.p.elem(T)
        v = ex.load(st, v, T)
        kd = ex.p.kind(T)
    if kd == 'slice':
        ET = ex.p.elem(T)
        if int_size(ex, ET) == 1:
            src, n = slice_src(ex, st, v, ET)
            return do_write(ex, st, ref, src, n, lambda s, c, e: k(s, e))
        if ex.p.t(ET).get('name') == 'uint64' and not le:
            return write_words(ex, st, ref, v, ET, k)
        raise Unsupported('binary.Write of a slice of %s' % ET)
    if kd == 'bool':
        bs = [z3.If(v, z3.IntVal(1), z3.IntVal(0))]
    elif kd == 'int':
        n = int_size(ex, T)
        bs = encode(ex, st, unsigned(ex, v, T), n)
    elif kd == 'struct':
        bs = []
        for f, x in zip(ex.p.fields(T), v.fs):
            e = encode(ex, st, unsigned(ex, x, f['type']), int_size(ex, f['type']))
            bs += e[::-1] if le else e
        return do_write(ex, st, ref, bs, z3.IntVal(len(bs)), lambda s, c, e: k(s, e))
    elif kd == 'array':
        t = ex.p.t(T)
        if int_size(ex, t['elem']) != 1:
            raise Unsupported('binary.Write of %s' % T)
        bs = [ex.sel(st, v.comps[0], z3.IntVal(j), ref=False) for j in range(v.n)]
        return do_write(ex, st, ref, bs, z3.IntVal(len(bs)), lambda s, c, e: k(s, e))
    else:
        raise Unsupported('binary.Write of %s' % T)
    if le:
        bs = bs[::-1]
    return do_write(ex, st, ref, bs, z3.IntVal(len(bs)), lambda s, c, e: k(s, e))


def word64(ex):
    """word64(C, p, i): the big endian number at offset p + 8i"""
    return ex.ufcache.setdefault(('word64',), z3.Function('word64', z3.ArraySort(I, I), I, I, I))


def write_words(ex, st, ref, v, ET, k):
    """a slice of 64 bit numbers, big endian, in one write"""
    B = ex.fresh('wordbytes', z3.ArraySort(I, I))
    i = z3.Int('i')
    ex.fact(st, z3.ForAll([i], z3.And(z3.Select(B, i) >= 0, z3.Select(B, i) <= 255), patterns=[z3.Select(B, i)]))
    n = z3.simplify(8 * v.len)
    A = ex.hread(st, bytekey(ex, ET), v.arr)
    ex.externs_used.add('big endian encoding and decoding are inverse (encoding/binary)')

    def done(s, c, e):
        if e is NIL:
            C = sget(ex, s, 'content', ref)
            w = word64(ex)(C, p0, i)
            x = z3.Select(A, z3.simplify(v.off + i))
            ex.fact(s, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v.len), w == x), patterns=[w, x]))
        k(s, e)
    prep_writer(ex, st, ref)
    p0 = sget(ex, st, 'pos', ref)
    return do_write(ex, st, ref, (B, z3.IntVal(0)), n, done)


def read_words(ex, st, ref, isrd, dst, ET, k):
    key = bytekey(ex, ET)

    def got(s, C, p):
        W = ex.fresh('words', z3.ArraySort(I, I))
        i = z3.Int('i')
        ex.fact(s, z3.ForAll([i], z3.And(z3.Select(W, i) == word64(ex)(C, p, i), z3.Select(W, i) >= 0, z3.Select(W, i) < 1 << 64), patterns=[z3.Select(W, i)]))
        put_into(ex, s, key, dst, W, z3.IntVal(0), dst.len)
    ex.externs_used.add('big endian encoding and decoding are inverse (encoding/binary)')
    return do_read_full(ex, st, ref, isrd, z3.simplify(8 * dst.len), got, lambda s, c, e: k(s, e))


def unsigned(ex, v, T):
    lo, hi = ex.p.irange(T)
    if lo < 0:
        return z3.If(v < 0, v + (hi - lo + 1), v)
    return v


def binary_read(ex, args, st, k, ins):
    r, order, data = args
    d = ex.dynof(st, data)
    if d is None:
        raise Unsupported('binary.Read into a value of unknown type')
    T, ptr = d
    ref, isrd = reader_of(ex, r)
    le = little(ex, order)
    ex.externs_used.add('encoding/binary')
    if ex.p.kind(T) == 'slice' and int_size(ex, ex.p.elem(T)) == 1:
        dst = ptr
        key = bytekey(ex, ex.p.elem(T))
        return do_read_full(ex, st, ref, isrd, dst.len, lambda s, C, p: put_into(ex, s, key, dst, C, p, dst.len), lambda s, n, e: k(s, e))
    if ex.p.kind(T) == 'slice' and ex.p.t(ex.p.elem(T)).get('name') == 'uint64' and not le:
        return read_words(ex, st, ref, isrd, ptr, ex.p.elem(T), k)
    if ex.p.kind(T) != 'pointer':
        raise Unsupported('binary.Read into %s' % T)
    T = ex.p.elem(T)
    if ex.p.kind(T) not in ('int', 'bool'):
        raise Unsupported('binary.Read into %s' % T)
    n = int_size(ex, T)

    def got(s, C, p):
        bs = [ex.sel(s, C, z3.simplify(p + j), ref=False) for j in range(n)]
        for b in bs:
            ex.fact(s, z3.And(b >= 0, b <= 255))
        if le:
            bs = bs[::-1]
        v = decode(ex, s, bs)
        if ex.p.kind(T) == 'bool':
            v = v != 0
        else:
            lo, hi = ex.p.irange(T)
            if lo < 0:
                v = z3.If(v > hi, v - (hi - lo + 1), v)
        ex.store(s, ptr, v, T)
    return do_read_full(ex, st, ref, isrd, z3.IntVal(n), got, lambda s, c, e: k(s, e))


def byte_order(ex, name, args, ats, st, k, ins):
    import re
    le = 'littleEndian' in name
    m = name.split(').')[1]
    ex.externs_used.add('encoding/binary')
    mm = re.match(r'(Put|Append)?Uint(16|32|64)$', m)
    if not mm:
        raise Unsupported(name)
    n = int(mm.group(2)) // 8
    pos = X.short(ins.get('pos', ''))
    if mm.group(1) is None:
        b = args[1]
        ex.oblige(st, b.len >= n, 'enough bytes for %s in %s' % (m, pos))
        A = ex.hread(st, bytekey(ex, 'uint8'), b.arr)
        bs = [ex.sel(st, A, z3.simplify(b.off + j), ref=False) for j in range(n)]
        for t in bs:
            if not z3.is_int_value(t):
                ex.fact(st, z3.And(t >= 0, t <= 255))
        return k(st, decode(ex, st, bs[::-1] if le else bs))
    if mm.group(1) == 'Put':
        b, v = args[1], args[2]
        ex.oblige(st, b.len >= n, 'enough room for %s in %s' % (m, pos))
        bs = encode(ex, st, v, n)
        if le:
            bs = bs[::-1]
        key = bytekey(ex, 'uint8')
        A = ex.hread(st, key, b.arr)
        for j, t in enumerate(bs):
            A = z3.Store(A, z3.simplify(b.off + j), t)
        ex.hwrite(st, key, b.arr, A)
        return k(st, Tup([]))
    b, v = args[1], args[2]
    bs = encode(ex, st, v, n)
    if le:
        bs = bs[::-1]
    r = ex.alloc(st)
    A = z3.K(I, z3.IntVal(0))
    for j, t in enumerate(bs):
        A = z3.Store(A, j, t)
    ex.hwrite(st, bytekey(ex, 'uint8'), r, A)
    tmp = Slice(r, z3.IntVal(0), z3.IntVal(n), z3.IntVal(n))
    return ex.do_append(fr_dummy, ins, [b, tmp], [ats[1], ats[1]], st, k)


fr_dummy = None


def deep_equal(ex, name, args, ats, st, k):
    if name == 'reflect.DeepEqual':
        if args[0].dyn is None or args[1].dyn is None:
            raise Unsupported('reflect.DeepEqual of unknown values')
        (T1, a), (T2, b) = args[0].dyn, args[1].dyn
        if ex.p.kind(T1) == 'array' and T1 == T2:
            return k(st, ex.equal(a, b, T1, T2))
        if T1 != T2:
            return k(st, z3.BoolVal(False))
        if ex.p.kind(T1) in ('int', 'string', 'bool'):
            return k(st, a == b)
        if ex.p.kind(T1) != 'slice':
            raise Unsupported('reflect.DeepEqual of %s' % T1)
    else:
        a, b = args
        T1 = ats[0]
    key = bytekey(ex, ex.p.elem(T1))
    A, Bb = ex.hread(st, key, a.arr), ex.hread(st, key, b.arr)
    ex.externs_used.add('reflect.DeepEqual, bytes.Equal on byte slices')
    na, nb = z3.simplify(a.len), z3.simplify(b.len)
    n = na if z3.is_int_value(na) else nb
    if z3.is_int_value(n) and n.as_long() <= 64:
        es = [a.len == b.len] + [ex.sel(st, A, z3.simplify(a.off + j), ref=False) == ex.sel(st, Bb, z3.simplify(b.off + j), ref=False) for j in range(n.as_long())]
        return k(st, z3.simplify(z3.And(es)))
    i = z3.Int('i')
    return k(st, z3.And(a.len == b.len, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < a.len), z3.Select(A, a.off + i) == z3.Select(Bb, b.off + i)))))


def io_copy(ex, dst, src, st, k):
    s0, isrd = reader_of(ex, src)
    prep_reader(ex, st, s0, isrd)
    prep_writer(ex, st, dst)
    C = sget(ex, st, 'content', s0)
    p, l = sget(ex, st, 'pos', s0), sget(ex, st, 'len', s0)
    n = z3.simplify(z3.If(l > p, l - p, z3.IntVal(0)))
    ex.externs_used.add('io.Copy')

    def ok(s):
        ex.fact(s, z3.And(sget(ex, s, 'closed', s0) == 0, sget(ex, s, 'closed', dst) == 0))
        if not ex.quiet and [cl for cl in ex.contract.always if cl.active(ex.prop)]:
            s3 = s.copy()
            prefix_put(ex, s3, dst, (C, p), n)
            crash_pending(ex, s3, dst)
        raw_put(ex, s, dst, (C, p), n)
        sset(ex, s, 'pos', s0, z3.If(l > p, l, p))
        after_read(ex, s, s0, isrd)
        crash_pending(ex, s, dst)
        k(s, Tup([n, NIL]))

    def bad(s):
        kk = prefix_put(ex, s, dst, (C, p), n)
        q = ex.fresh('srcpos')
        ex.fact(s, z3.And(q >= p, z3.Or(q <= l, q == p)))
        sset(ex, s, 'pos', s0, q)
        after_read(ex, s, s0, isrd)
        crash_pending(ex, s, dst)
        fail(ex, s)
        k(s, Tup([kk, io_error(ex, s)]))
    fork(ex, st, [(None, ok)] + ([] if fb_ref(ex, st, dst) and fb_ref(ex, st, s0) else [(None, bad)]))


def invoke(ex, iface, m, recv, args, ats, st, k, fr, ins):
    if iface.startswith(ginmodel.GIN):
        return ginmodel.router(ex, m, recv, args, ats, st, k, fr, ins)
    if iface == 'error' and m == 'Error':
        if not z3.is_int_value(z3.simplify(recv.tag)) or z3.simplify(recv.tag).as_long() == 0:
            ex.oblige(st, recv.tag != 0, 'no nil interface call of Error in %s' % X.short(ins.get('pos', '')))
        return k(st, suf(ex, 'errtext', sorts=[I, I])(recv.tag, recv.val))
    return NotImplemented


def havoc_fact(ex, st, key, v):
    if key[0] == 'S' and key[1] != 'content':
        ex.fact(st, v >= 0)
        if key[1] in ('len', 'pos'):
            ex.fact(st, v <= 1 << 60)


def settle_streams(ex, fr, st):
    """before a loop: buffered writers and readers it may use reflect their files"""
    import loops
    for i, b in list(st.bufw.items()):
        if b.get('idle') and not b.get('broken'):
            resync(ex, st, b)
    types = loops.reg_types(fr.f)
    for n, v in fr.regs.items():
        if types.get(n) == '*bufio.Reader' and isinstance(v, z3.ArithRef):
            prep_reader(ex, st, v, True)


def loop_candidates(loop):
    import loops
    ex = loop.ex
    cs = []
    if any(k[0] == 'S' for k in loop.mods):
        io0 = loop.st0.io
        cs.append(loops.Cand('io unchanged', lambda f, s, io0=io0: s.io == io0, 'gen'))
        for key, classes in loop.mods.items():
            if key[0] == 'S' and key[1] == 'content':
                for c in classes:
                    if c[0] == 'ref':
                        C0 = ex.hread(loop.st0, key, c[1])
                        p0 = ex.hread(loop.st0, ('S', 'pos'), c[1])
                        i = z3.Int('i')
                        def fn(f, s, key=key, c=c, C0=C0, p0=p0):
                            C = ex.hread(s, key, c[1])
                            if C.eq(C0):
                                return z3.BoolVal(True)
                            return z3.ForAll([i], z3.Implies(i < p0, z3.Select(C, i) == z3.Select(C0, i)), patterns=[z3.Select(C, i)])
                        cs.append(loops.Cand('bytes before the start unchanged', fn, 'gen'))
    return cs


def loop_measures(loop):
    """streams being consumed"""
    ex = loop.ex
    out = []
    for key, classes in loop.mods.items():
        if key == ('S', 'pos'):
            for c in classes:
                if c[0] == 'ref':
                    out.append(('bytes left', lambda f, s, c=c: ex.hread(s, ('S', 'len'), c[1]) + 1 - ex.hread(s, ('S', 'pos'), c[1])))
    return out


# ---------------------------------------------------------------- contract vocabulary
def spec_ref(tv):
    v = tv.v
    if isinstance(v, Iface):
        return v.val
    return v


def spec_call(ctx, name, args):
    ex = ctx.ex
    if name in ('content', 'pos', 'size', 'closed', 'ver'):
        r = spec_ref(ctx.eval(args[0]))
        nm = 'len' if name == 'size' else name
        v = ex.hread(ctx.cur, ('S', nm), r)
        if ctx.facts() and nm != 'content':
            sget(ex, ctx.cur, nm, r)
        return TV(v, '#arr' if name == 'content' else '#int')
    if name in ('sent', 'received', 'chclosed', 'chcap'):
        c = ctx.eval(args[0]).v
        nm = {'chclosed': 'closed', 'chcap': 'cap'}.get(name, name)
        v = ex.hread(ctx.cur, ck(nm), c)
        if name == 'chclosed':
            return TV(v != 0, '#bool')
        if ctx.facts():
            cget(ex, ctx.cur, nm, c)
        return TV(v, '#int')
    if name == 'msg':
        tv = ctx.eval(args[0])
        ET = chelem(ex, tv.t)
        j = ctx.eval(args[1]).v
        return TV(ex.compose(ET, [ex.sel(ctx.cur, ex.hread(ctx.cur, k, tv.v), j, ref=False) for k in msgkeys(ex, ET)]), ET)
    if name in ('responses', 'status', 'seg', 'bindok', 'req', 'replies', 'reply', 'replylist', 'replylen', 'replyat'):
        return ginmodel.spec(ctx, name, args)
    if name == 'answers':
        return TV(ex.hread(ctx.cur, LOGN, z3.IntVal(0)), '#int')
    if name in ('answerto', 'answertag', 'answerval'):
        key = {'answerto': LOGC, 'answertag': ck('logv0', z3.ArraySort(I, I)), 'answerval': ck('logv1', z3.ArraySort(I, I))}[name]
        return TV(ex.sel(ctx.cur, ex.hread(ctx.cur, key, z3.IntVal(0)), ctx.eval(args[0]).v, ref=False), '#int')
    if name in ('docok', 'doclen', 'dochas', 'doc'):
        c = ex.hread(ctx.cur, JF, ctx.eval(args[0]).v)
        if name == 'docok':
            return TV(jfun(ex, 'ok', B)(c), '#bool')
        if name == 'doclen':
            return TV(jfun(ex, 'len', I)(c), '#int')
        n = args[-1].a[0]
        T = n.split(':')[1]
        if name == 'dochas':
            return TV(jfun(ex, 'has_' + n, B)(c), '#bool')
        (_, sort), = ex.comps(T)
        return TV(jfun(ex, 'm_' + n, z3.ArraySort(I, sort))(c)[ctx.eval(args[1]).v], T)
    if name == 'endswith':
        return TV(z3.SuffixOf(ctx.eval(args[1]).v, ctx.eval(args[0]).v), '#bool')
    if name in ('getenv', 'atoival', 'atoiok'):
        res = {'getenv': None, 'atoival': I, 'atoiok': B}[name]
        return TV(suf(ex, name, res=res)(ctx.eval(args[0]).v), {'getenv': '#string', 'atoival': '#int', 'atoiok': '#bool'}[name])
    if name == 'itoa':
        return TV(itoa(ex, ctx.eval(args[0]).v), '#string')
    if name == 'errtext':
        e = ctx.eval(args[0]).v
        return TV(suf(ex, 'errtext', sorts=[I, I])(e.tag, e.val), '#string')
    if name in ('rdtarget', 'rdver', 'rdunder'):
        r = spec_ref(ctx.eval(args[0]))
        return TV(ex.hread(ctx.cur, ('H', name, I), r), '#int')
    if name in ('be16', 'be32', 'be64'):
        n = int(name[2:]) // 8
        c, p = ctx.eval(args[0]).v, ctx.eval(args[1]).v
        bs = [ex.sel(ctx.cur, c, z3.simplify(p + j) if ctx.depth == 0 else p + j, ref=False) for j in range(n)]
        return TV(decode(ex, ctx.cur, bs, ctx.facts()), '#int')
    if name == 'word64':
        return TV(word64(ex)(*[ctx.eval(a).v for a in args]), '#int')
    if name in ('bv16', 'bv32', 'bv64'):
        n = int(name[2:]) // 8
        v, j = ctx.eval(args[0]).v, ctx.eval(args[1]).v
        js, vs = z3.simplify(j), z3.simplify(v)
        if z3.is_int_value(js) and z3.is_int_value(vs):
            return TV(z3.IntVal((vs.as_long() >> (8 * (n - 1 - js.as_long()))) & 255), '#int')
        if ctx.facts():
            encode(ex, ctx.cur, v, n)
        return TV(bv(ex, n)(v, j), '#int')
    if name == 'iserr':
        # errors.Is against a package level error of another package
        e = ctx.eval(args[0]).v
        if args[1].a[0].startswith('*'):
            return TV(err_is(ex, ctx.cur, e, Iface(ex.tag(args[1].a[0]), ex.globref('runtime.zerobase')), 0, ctx.facts()), '#bool')
        return TV(err_is(ex, ctx.cur, e, err_global(ex, args[1].a[0]), 0, ctx.facts()), '#bool')
    if name == 'eqerr':
        e = ctx.eval(args[0]).v
        g = err_global(ex, args[1].a[0])
        return TV(z3.And(e.tag == g.tag, e.val == g.val), '#bool')
    raise Unsupported('unknown function %s in contract' % name)


def spec_locs(ctx, name, args):
    ex = ctx.ex
    if name == 'stream':
        r = spec_ref(ctx.eval(args[0]))
        return [(k, r) for k in SK]
    if name == 'cursor':
        r = spec_ref(ctx.eval(args[0]))
        return [(('S', 'pos'), r), (('S', 'ver'), r)]
    if name == 'savedfile':
        return [(JF, ctx.eval(args[0]).v)]
    if name == 'answerlog':
        return [(k, z3.IntVal(0)) for k in (LOGN, LOGC, ck('logv0', z3.ArraySort(I, I)), ck('logv1', z3.ArraySort(I, I)))]
    if name == 'channel':
        tv = ctx.eval(args[0])
        return [(ck(n), tv.v) for n in ('sent', 'received', 'closed')] + [(k, tv.v) for k in msgkeys(ex, chelem(ex, tv.t))]
    if name == 'anychannel':
        return [(ck(n), None) for n in ('sent', 'received', 'closed')] + [(k, None) for k in msgkeys(ex, args[0].a[0])]
    if name == 'anyfield':
        T, f = args[0].a[0], args[1].a[0]
        i = ctx.fidx(T, f)
        ft = ex.p.fields(T)[i]['type']
        if ex.p.kind(ft) == 'struct':
            out = []
            for f2 in ex.p.fields(ft):
                out += ctx.locs_any(ft, f2['name'])
            return out
        return ctx.locs_any(T, f)
    if name == 'closed':
        return [(('S', 'closed'), spec_ref(ctx.eval(args[0])))]
    if name == 'reader':
        r = spec_ref(ctx.eval(args[0]))
        return [(k, r) for k in SK + [('S', 'closed')]] + [(('H', 'rdtarget', I), r), (('H', 'rdver', I), r), (('H', 'rdunder', I), r)]
    raise Unsupported('modifies %s' % name)
