"""Symbolic values."""
import z3

I = z3.IntSort()
B = z3.BoolSort()
R = z3.RealSort()
S = z3.StringSort()


class Slice:
    __slots__ = ('arr', 'off', 'len', 'cap')

    def __init__(self, arr, off, len, cap):
        self.arr, self.off, self.len, self.cap = arr, off, len, cap

    def __repr__(self):
        return 'Slice(%s,%s,%s,%s)' % (self.arr, self.off, self.len, self.cap)


class Iface:
    __slots__ = ('tag', 'val', 'dyn')

    def __init__(self, tag, val, dyn=None):
        self.tag, self.val, self.dyn = tag, val, dyn

    def __repr__(self):
        return 'Iface(%s,%s,%s)' % (self.tag, self.val, self.dyn and self.dyn[0])


class SVal:
    __slots__ = ('fs',)

    def __init__(self, fs):
        self.fs = list(fs)


class AVal:
    """array value: one z3 array per component of the element type"""
    __slots__ = ('comps', 'n')

    def __init__(self, comps, n):
        self.comps, self.n = list(comps), n


class LPtr:
    """pointer to a scalar location: kind F (struct field / cell) or E (slice element)"""
    __slots__ = ('kind', 'base', 'idx', 'st', 'path')

    def __init__(self, kind, base, idx, st, path):
        # F: st=(struct type, field index) ; E: st=element type, path=tuple of field indexes
        self.kind, self.base, self.idx, self.st, self.path = kind, base, idx, st, path


class Clo:
    __slots__ = ('fn', 'binds')

    def __init__(self, fn, binds):
        self.fn, self.binds = fn, binds


class Tup:
    __slots__ = ('vs',)

    def __init__(self, vs):
        self.vs = list(vs)


class RangeIter:
    __slots__ = ('kind', 'map', 'mtype', 'n', 'ord', 'inv', 'id', 'dom', 'it')

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


class Regex:
    """compiled regular expression known at verification time"""
    __slots__ = ('pat', 'ref')

    def __init__(self, pat, ref):
        self.pat, self.ref = pat, ref


class TV:
    """typed value in a contract expression"""
    __slots__ = ('v', 't')

    def __init__(self, v, t):
        self.v, self.t = v, t

    def __repr__(self):
        return 'TV(%s:%s)' % (self.v, self.t)


class Unsupported(Exception):
    pass
