"""Program representation: SSA JSON produced by tools/ssaexport, type helpers, loops."""
import json, re
from values import Unsupported

INT_RANGES = {
    'int': (-(1 << 63), (1 << 63) - 1), 'int64': (-(1 << 63), (1 << 63) - 1),
    'int32': (-(1 << 31), (1 << 31) - 1), 'int16': (-(1 << 15), (1 << 15) - 1), 'int8': (-128, 127),
    'rune': (-(1 << 31), (1 << 31) - 1), 'untyped rune': (-(1 << 31), (1 << 31) - 1),
    'uint': (0, (1 << 64) - 1), 'uint64': (0, (1 << 64) - 1), 'uintptr': (0, (1 << 64) - 1),
    'uint32': (0, (1 << 32) - 1), 'uint16': (0, (1 << 16) - 1), 'uint8': (0, 255), 'byte': (0, 255),
    'untyped int': (-(1 << 63), (1 << 64) - 1),
}
WIDTH = {'int': 64, 'int64': 64, 'int32': 32, 'int16': 16, 'int8': 8, 'uint': 64, 'uint64': 64, 'uintptr': 64,
         'uint32': 32, 'uint16': 16, 'uint8': 8, 'byte': 8, 'rune': 32}


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.funcs = d['funcs']
        self.globals = d['globals']
        self.impls = d['impls']
        self.methods = d['methods']
        self.module = d['module']
        self._loops = {}
        self._under = {}

    def under(self, k):
        """underlying type key"""
        if k in self._under:
            return self._under[k]
        r = k
        while self.types[r]['kind'] == 'named':
            r = self.types[r]['under']
        self._under[k] = r
        return r

    def t(self, k):
        return self.types[self.under(k)]

    def kind(self, k):
        """scalar kind or aggregate kind"""
        t = self.t(k)
        if t['kind'] == 'basic':
            n = t['name']
            if n in INT_RANGES:
                return 'int'
            if n in ('bool', 'untyped bool'):
                return 'bool'
            if n in ('float32', 'float64', 'untyped float'):
                return 'float'
            if n in ('string', 'untyped string'):
                return 'string'
            if n == 'untyped nil':
                return 'nil'
            return 'other'
        return t['kind']

    def intname(self, k):
        return self.t(k)['name']

    def irange(self, k):
        return INT_RANGES[self.t(k)['name']]

    def elem(self, k):
        return self.t(k)['elem']

    def fields(self, k):
        t = self.t(k)
        if 'fields' not in t and t['kind'] != 'struct':
            raise Unsupported('fields of ' + k)
        return t['fields'] or []

    def is_opaque(self, k):
        return bool(self.t(k).get('opaque'))

    # ---- flat address model: size of an aggregate in address slots
    def slots(self, k):
        t = self.t(k)
        if t['kind'] == 'struct':
            n = 1
            for f in (t['fields'] or []):
                n += self.slots(f['type'])
            return n
        if t['kind'] == 'array':
            return 1
        return 0

    def field_slot(self, k, idx):
        n = 1
        for f in self.fields(k)[:idx]:
            n += self.slots(f['type'])
        return n

    def zero_size(self, k):
        t = self.t(k)
        if t['kind'] == 'struct':
            if t.get('opaque'):
                return False
            return all(self.zero_size(f['type']) for f in (t['fields'] or []))
        if t['kind'] == 'array':
            return t['len'] == 0
        return False

    # ---- loops
    def loops(self, fname):
        if fname in self._loops:
            return self._loops[fname]
        f = self.funcs[fname]
        blocks = f['blocks']
        n = len(blocks)
        idom = [b['idom'] for b in blocks]

        def dominates(a, b):
            while b != -1:
                if a == b:
                    return True
                b = idom[b]
            return False
        loops = {}
        for b in blocks:
            for s in b['succs']:
                if dominates(s, b['index']):
                    body = loops.setdefault(s, {s})
                    st = [b['index']]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(blocks[x]['preds'])
        self._loops[fname] = loops
        return loops

    def irreducible(self, fname):
        """any retreating edge that is not a back edge of a natural loop"""
        f = self.funcs[fname]
        blocks = f['blocks']
        loops = self.loops(fname)
        color = {}
        bad = []

        def dfs(b):
            stack = [(b, iter(blocks[b]['succs']))]
            color[b] = 1
            while stack:
                x, it = stack[-1]
                for s in it:
                    if color.get(s) == 1:
                        if not (s in loops and x in loops[s]):
                            bad.append((x, s))
                    elif s not in color:
                        color[s] = 1
                        stack.append((s, iter(blocks[s]['succs'])))
                        break
                else:
                    color[x] = 2
                    stack.pop()
        if blocks:
            dfs(0)
        return bad

    def int_consts(self, fname):
        out = set()
        for b in self.funcs[fname]['blocks']:
            for i in b['instrs']:
                def walk(x):
                    if isinstance(x, dict):
                        if x.get('k') == 'const' and isinstance(x.get('v'), dict) and 'int' in x['v']:
                            out.add(int(x['v']['int']))
                        else:
                            for y in x.values():
                                walk(y)
                    elif isinstance(x, list):
                        for y in x:
                            walk(y)
                walk(i)
        return out
