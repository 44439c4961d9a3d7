"""Strings and regular expressions.

A Go string is a sequence of bytes (characters 0..255). Two modes: structural strings (z3 sequences), and 'id' mode, where a
string is an identity (an integer; constants are pairwise different) for properties that only compare strings."""
import z3
try:
    from re import _parser as sre
    from re import _constants as sc
except ImportError:
    import sre_parse as sre
    import sre_constants as sc
from values import *

RS = z3.ReSort(S)


def ch(i):
    return z3.StringVal(chr(i)) if 32 <= i < 127 and chr(i) != '\\' else z3.StringVal('\\u{%x}' % i)


def rng(a, b):
    return z3.Range(ch(a), ch(b))


def union(l):
    l = list(l)
    if not l:
        return z3.Empty(RS)
    return l[0] if len(l) == 1 else z3.Union(*l)


def cat(l):
    l = list(l)
    if not l:
        return z3.Re(z3.StringVal(''))
    return l[0] if len(l) == 1 else z3.Concat(*l)


ANYB = None


def anystr():
    return z3.Star(rng(0, 255))


# one rune outside ASCII, as bytes (an invalid byte counts as one rune as well)
def wide():
    return union([rng(0x80, 0xff), cat([rng(0xc2, 0xdf), rng(0x80, 0xbf)]), cat([rng(0xe0, 0xef), rng(0x80, 0xbf), rng(0x80, 0xbf)]), cat([rng(0xf0, 0xf4), rng(0x80, 0xbf), rng(0x80, 0xbf), rng(0x80, 0xbf)])])


CLASS = {'CATEGORY_DIGIT': [(48, 57)], 'CATEGORY_WORD': [(48, 57), (65, 90), (95, 95), (97, 122)], 'CATEGORY_SPACE': [(9, 10), (12, 13), (32, 32)]}


def runes(rs, neg, icase):
    """set of rune ranges -> regular expression over bytes"""
    a = [False] * 128
    high = []
    for lo, hi in rs:
        for c in range(lo, min(hi, 127) + 1):
            a[c] = True
        if hi > 127:
            high.append((max(lo, 128), hi))
    extra = []
    if icase:
        for c in range(65, 91):
            a[c] = a[c + 32] = a[c] or a[c + 32]
        if a[107]:
            high.append((0x212a, 0x212a))
        if a[115]:
            high.append((0x17f, 0x17f))
    if neg:
        a = [not x for x in a]
    out = []
    i = 0
    while i < 128:
        if a[i]:
            j = i
            while j < 127 and a[j + 1]:
                j += 1
            out.append(rng(i, j))
            i = j + 1
        else:
            i += 1
    if neg:
        if high:
            raise Unsupported('negated class with characters outside ASCII')
        out.append(wide())
    else:
        for lo, hi in high:
            if hi - lo > 64:
                raise Unsupported('class with many characters outside ASCII')
            for c in range(lo, hi + 1):
                out.append(cat([z3.Re(ch(b)) for b in chr(c).encode('utf8')]))
    return union(out)


def seq(items, fl):
    return cat([node(op, av, fl) for op, av in items])


def node(op, av, fl):
    n = str(op)
    ic = bool(fl & sre.SRE_FLAG_IGNORECASE)
    if n == 'LITERAL':
        return runes([(av, av)], False, ic)
    if n == 'NOT_LITERAL':
        return runes([(av, av)], True, ic)
    if n == 'ANY':
        return union([rng(0, 127), wide()]) if fl & sre.SRE_FLAG_DOTALL else runes([(10, 10)], True, False)
    if n == 'IN':
        neg, rs = False, []
        for o, a in av:
            o = str(o)
            if o == 'NEGATE':
                neg = True
            elif o == 'LITERAL':
                rs.append((a, a))
            elif o == 'RANGE':
                rs.append(a)
            elif o == 'CATEGORY' and str(a) in CLASS:
                rs += CLASS[str(a)]
            elif o == 'CATEGORY' and str(a).replace('_NOT', '') in CLASS:
                xs = CLASS[str(a).replace('_NOT', '')]
                s = set(c for lo, hi in xs for c in range(lo, hi + 1))
                rs += [(c, c) for c in range(128) if c not in s]
                if neg:
                    raise Unsupported('negated class of a negated class')
                return union([runes(rs, False, ic), wide()])
            else:
                raise Unsupported('regular expression class')
        return runes(rs, neg, ic)
    if n in ('MAX_REPEAT', 'MIN_REPEAT'):
        lo, hi, body = av
        r = seq(body, fl)
        if hi == sc.MAXREPEAT:
            return z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else cat([r] * lo + [z3.Star(r)])
        if (lo, hi) == (0, 1):
            return z3.Option(r)
        return z3.Loop(r, lo, hi)
    if n == 'SUBPATTERN':
        g, add, rem, body = av
        return seq(body, (fl | add) & ~rem)
    if n == 'BRANCH':
        return union([seq(b, fl) for b in av[1]])
    raise Unsupported('regular expression operator ' + n)


def branch(items, fl):
    """language of the strings containing a match"""
    items = list(items)
    pre, post = anystr(), anystr()
    ml = fl & sre.SRE_FLAG_MULTILINE
    while items and str(items[0][0]) == 'AT':
        n = str(items[0][1])
        if n == 'AT_BEGINNING_STRING' or n == 'AT_BEGINNING' and not ml:
            pre = cat([])
        elif n == 'AT_BEGINNING':
            pre = z3.Option(cat([anystr(), z3.Re(ch(10))]))
        else:
            break
        items.pop(0)
    while items and str(items[-1][0]) == 'AT':
        n = str(items[-1][1])
        if n == 'AT_END_STRING' or n == 'AT_END' and not ml:
            post = cat([])
        elif n == 'AT_END':
            post = z3.Option(cat([z3.Re(ch(10)), anystr()]))
        else:
            break
        items.pop()
    return cat([pre, seq(items, fl), post])


def parse(pat):
    p = pat.replace('\\z', '\\Z') if isinstance(pat, str) else pat
    if '\\Z' in pat or '[[:' in pat or '\\p' in pat or '\\C' in pat or '\\Q' in pat:
        raise Unsupported('regular expression ' + pat)
    try:
        t = sre.parse(p)
    except Exception:
        raise Unsupported('regular expression ' + pat)
    return t, t.state.flags & ~sre.SRE_FLAG_UNICODE


def language(pat):
    """strings in which the expression finds a match (regexp.MatchString)"""
    t, fl = parse(pat)
    items = list(t)
    if len(items) == 1 and str(items[0][0]) == 'BRANCH':
        return union([branch(b, fl) for b in items[0][1][1]])
    return branch(items, fl)


def full(pat):
    t, fl = parse(pat)
    return seq(list(t), fl)


# ---------------------------------------------------------------- operations in both modes
def const(ex, s):
    if ex.ordstr:
        m = ex.ufcache.setdefault('strids', {'': 0})
        return z3.IntVal(m.setdefault(s, len(m)))
    return None


def sort(ex):
    return I if ex.ordstr else S


def idf(ex, name, *sorts):
    return ex.ufcache.setdefault(('str', name), z3.Function('str_' + name, *sorts))


def length(ex, st, x):
    if not ex.ordstr:
        r = z3.Length(x)
        if st is not None and not z3.is_int_value(z3.simplify(r)):
            ex.fact(st, r < 1 << 47)
        return r
    r = idf(ex, 'len', I, I)(x)
    if st is not None:
        ex.fact(st, z3.And(r >= 0, (r == 0) == (x == 0)))
    return r


def concat(ex, x, y):
    if not ex.ordstr:
        return z3.simplify(z3.Concat(x, y))
    return idf(ex, 'cat', I, I, I)(x, y)


def inre(ex, x, pat, spec=False):
    if not ex.ordstr:
        return z3.InRe(x, full(pat) if spec else language(pat))
    return idf(ex, 're:' + (('full:' + pat) if spec else pat), I, B)(x)
