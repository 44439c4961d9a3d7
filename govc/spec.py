"""Contract language: parser for contracts/*.gvc

  package PATH
  def NAME(a, b) = EXPR                      macro (expanded at every use)
  ufunc NAME(sort, ...) : sort               uninterpreted spec function
  axiom NAME: EXPR                           definition of spec functions
  lemma NAME [by induction on k]: EXPR       proved once per run, then usable through 'uses'
  func[inst,...] NAME(p1, p2) (r1, r2)       contract of a function (names by position)
    [trusted]
    requires EXPR ; ensures[C01,C02] label: EXPR ; modifies LOC, LOC ; always[C15] label: EXPR
    invariant EXPR ; decreases EXPR ; uses NAME, NAME ; let x = EXPR ; noinline
"""
import re, glob, os


class Node:
    __slots__ = ('k', 'a', 'pos')

    def __init__(self, k, *a):
        self.k = k
        self.a = a

    def __repr__(self):
        return '(%s %s)' % (self.k, ' '.join(map(repr, self.a)))


TOK = re.compile(r'''\s*(?:(\d+)|("(?:[^"\\]|\\.)*")|([A-Za-z_$][A-Za-z0-9_$]*)|(<==>|==>|::|&&|\|\||<=|>=|==|!=|\+\+|[-+*/%<>!()\[\]{},.:?=|]))''')


def tokenize(s):
    out = []
    i = 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError('bad token at %r' % s[i:i + 30])
        if m.group(1):
            out.append(('num', m.group(1)))
        elif m.group(2):
            out.append(('str', bytes(m.group(2)[1:-1], 'utf8').decode('unicode_escape')))
        elif m.group(3):
            out.append(('id', m.group(3)))
        else:
            out.append(('op', m.group(4)))
        i = m.end()
    out.append(('end', ''))
    return out


BIN = {'<==>': (1, 'L'), '==>': (2, 'R'), '||': (3, 'L'), '&&': (4, 'L'),
       '==': (5, 'C'), '!=': (5, 'C'), '<': (5, 'C'), '<=': (5, 'C'), '>': (5, 'C'), '>=': (5, 'C'),
       '+': (6, 'L'), '-': (6, 'L'), '++': (6, 'L'), '*': (7, 'L'), '/': (7, 'L'), '%': (7, 'L')}


class Parser:
    def __init__(self, s):
        self.t = tokenize(s)
        self.i = 0
        self.s = s

    def peek(self):
        return self.t[self.i]

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def isop(self, o):
        return self.t[self.i] == ('op', o)

    def eat(self, o):
        if self.t[self.i][1] != o:
            raise SyntaxError('expected %r got %r in %r' % (o, self.t[self.i], self.s))
        self.i += 1

    def expr(self, minp=0):
        left = self.unary()
        while True:
            k, o = self.peek()
            if k != 'op' or o not in BIN:
                return left
            p, assoc = BIN[o]
            if p < minp:
                return left
            if assoc == 'C':
                # chained comparison a <= b < c
                terms = [left]
                ops = []
                while self.peek()[0] == 'op' and self.peek()[1] in BIN and BIN[self.peek()[1]][0] == 5:
                    ops.append(self.next()[1])
                    terms.append(self.expr(6))
                cs = [Node('bin', ops[i], terms[i], terms[i + 1]) for i in range(len(ops))]
                left = cs[0]
                for c in cs[1:]:
                    left = Node('bin', '&&', left, c)
                continue
            self.next()
            right = self.expr(p if assoc == 'R' else p + 1)
            left = Node('bin', o, left, right)

    def unary(self):
        k, v = self.peek()
        if (k, v) == ('op', '!'):
            self.next()
            return Node('not', self.unary())
        if (k, v) == ('op', '-'):
            self.next()
            return Node('neg', self.unary())
        if (k, v) == ('op', '*'):
            self.next()
            return Node('deref', self.unary())
        if k == 'id' and v in ('forall', 'exists'):
            self.next()
            vs = []
            while True:
                n = self.next()[1]
                sort = 'int'
                if self.isop(':'):
                    self.next()
                    sort = self.next()[1]
                vs.append((n, sort))
                if self.isop(','):
                    self.next()
                    continue
                break
            self.eat('::')
            trig = []
            while self.isop('{'):
                self.next()
                ts = [self.expr()]
                while self.isop(','):
                    self.next()
                    ts.append(self.expr())
                self.eat('}')
                trig.append(ts)
            body = self.expr()
            return Node('q', v, vs, trig, body)
        if k == 'id' and v == 'let':
            self.next()
            n = self.next()[1]
            self.eat('=')
            e = self.expr()
            self.eat('in')
            return Node('let', n, e, self.expr())
        return self.postfix()

    def postfix(self):
        e = self.primary()
        while True:
            if self.isop('.'):
                self.next()
                e = Node('field', e, self.next()[1])
            elif self.isop('['):
                self.next()
                i = self.expr()
                self.eat(']')
                e = Node('index', e, i)
            else:
                return e

    def primary(self):
        k, v = self.next()
        if k == 'num':
            return Node('num', int(v))
        if k == 'str':
            return Node('str', v)
        if (k, v) == ('op', '('):
            e = self.expr()
            self.eat(')')
            return e
        if k == 'id':
            if self.isop('('):
                self.next()
                args = []
                if not self.isop(')'):
                    args.append(self.expr())
                    while self.isop(','):
                        self.next()
                        args.append(self.expr())
                self.eat(')')
                return Node('call', v, args)
            return Node('id', v)
        raise SyntaxError('unexpected %r in %r' % ((k, v), self.s))

    def all(self):
        e = self.expr()
        if self.peek()[0] != 'end':
            raise SyntaxError('trailing %r in %r' % (self.peek(), self.s))
        return e


def parse(s):
    return Parser(s).all()


class Clause:
    def __init__(self, kind, labels, name, expr, text):
        self.kind, self.labels, self.name, self.expr, self.text = kind, labels, name, expr, text

    def active(self, prop):
        return not self.labels or any(prop.startswith(l) for l in self.labels)


class Contract:
    def __init__(self, fn, params, results):
        self.fn = fn
        self.params = params
        self.results = results
        self.requires, self.ensures, self.modifies, self.always = [], [], [], []
        self.opens, self.routes = [], []
        self.invariants, self.decreases, self.uses, self.lets = [], [], [], []
        self.trusted = False
        self.hints = []
        self.flags = set()
        self.file = ''


class Specs:
    def __init__(self):
        self.contracts = {}
        self.defs = {}
        self.ufuncs = {}
        self.origins = {}  # macro name -> packages that define it
        self.axioms = {}
        self.lemmas = {}
        self.globalinv = []   # (pkg, labels, expr)
        self.texts = {}
        self.nodes = []

    def P(self, pkg, text):
        n = parse(text)
        self.nodes.append((pkg, n))
        return n

    def load_dir(self, d):
        for f in sorted(glob.glob(os.path.join(d, '*.gvc'))):
            self.load(f)
        for name in self.origins:
            if name in self.ufuncs:
                raise ValueError('%s is a macro and a function' % name)
        for pkg, n in self.nodes:
            self.scope(pkg, n)

    def scope(self, pkg, n):
        """a macro of the contract's own package goes before one of the same name elsewhere"""
        if isinstance(n, (list, tuple)):
            for x in n:
                self.scope(pkg, x)
        elif isinstance(n, Node):
            if n.k == 'call' and n.a[0] + '@' + pkg in self.defs:
                n.a = (n.a[0] + '@' + pkg,) + n.a[1:]
            elif n.k == 'call' and len(self.origins.get(n.a[0], ())) > 1:
                raise ValueError('%s: several macros of other packages are called %s' % (pkg, n.a[0]))
            self.scope(pkg, n.a)

    def load(self, path):
        pkg = ''
        cur = []
        lines = []
        raw = open(path).read()
        self.texts[path] = raw
        # strip comments, join continuation lines (deeper indentation or trailing backslash)
        for ln in raw.split('\n'):
            c = ln.find('//')
            if c >= 0:
                ln = ln[:c]
            if not ln.strip():
                continue
            lines.append(ln.rstrip())
        joined = []
        kw = re.compile(r'^\s*(package|def|ufunc|axiom|lemma|func|requires|ensures|modifies|always|opens|route|invariant|decreases|uses|let|trusted|flag|hint|global)\b')
        for ln in lines:
            if kw.match(ln):
                joined.append(ln.strip())
            else:
                joined[-1] += ' ' + ln.strip()
        for ln in joined:
            m = kw.match(ln)
            w = m.group(1)
            rest = ln[m.end():].strip()
            if w == 'package':
                pkg = rest
                cur = []
            elif w == 'def':
                m2 = re.match(r'(\w+)\(([^)]*)\)\s*=\s*(.*)$', rest, re.S)
                name, ps, body = m2.groups()
                self.origins.setdefault(name, set()).add(pkg)
                self.defs[name + '@' + pkg] = self.defs[name] = ([p.strip() for p in ps.split(',') if p.strip()], self.P(pkg, body))
            elif w == 'ufunc':
                m2 = re.match(r'(\w+)\(([^)]*)\)\s*:\s*(\w+)$', rest)
                name, ps, r = m2.groups()
                self.ufuncs[name] = ([p.strip() for p in ps.split(',') if p.strip()], r)
            elif w == 'axiom':
                m2 = re.match(r'(\w+)\s*:\s*(.*)$', rest, re.S)
                self.axioms[m2.group(1)] = self.P(pkg, m2.group(2))
            elif w == 'lemma':
                m2 = re.match(r'(?:\[([^\]]*)\]\s*)?(\w+)(?:\s+by\s+induction\s+on\s+(\w+))?(?:\s+uses\s+([\w, ]+))?\s*:\s*(.*)$', rest, re.S)
                self.lemmas[m2.group(2)] = (m2.group(3), [x.strip() for x in (m2.group(4) or '').split(',') if x.strip()], self.P(pkg, m2.group(5)), [x.strip() for x in (m2.group(1) or '').split(',') if x.strip()])
            elif w == 'global':
                m2 = re.match(r'(\w+)\s*:\s*(.*)$', rest, re.S)
                self.globalinv.append((pkg, m2.group(1), self.P(pkg, m2.group(2))))
            elif w == 'func':
                m2 = re.match(r'(?:\[([^\]]*)\]\s+)?(\(\*?\w+\)\.\w+|\w+(?:\$\d+)?)\s*\(([^)]*)\)\s*(?:\(([^)]*)\))?$', rest)
                if not m2:
                    raise SyntaxError(rest)
                inst, name, ps, rs = m2.groups()
                params = [p.strip() for p in ps.split(',') if p.strip()]
                results = [p.strip() for p in (rs or '').split(',') if p.strip()]
                names = []
                if name.startswith('('):
                    tn, mn = name[1:].split(').')
                    star = tn.startswith('*')
                    names.append('(%s%s.%s).%s' % ('*' if star else '', pkg, tn.lstrip('*'), mn))
                elif inst:
                    names += ['%s.%s[%s]' % (pkg, name, i.strip()) for i in inst.split(',')]
                else:
                    names.append('%s.%s' % (pkg, name))
                cur = []
                for n in names:
                    c = Contract(n, params, results)
                    c.file = path
                    c.shown = name
                    self.contracts[n] = c
                    cur.append(c)
            else:
                labels = []
                m2 = re.match(r'\[([^\]]*)\]\s*(.*)$', rest, re.S)
                if m2 and w in ('requires', 'ensures', 'always', 'opens', 'route', 'modifies', 'invariant', 'decreases'):
                    labels = [x.strip() for x in m2.group(1).split(',')]
                    rest = m2.group(2)
                route = None
                if w == 'route':
                    m4 = re.match(r'"([^"]*)"\s*(.*)$', rest, re.S)
                    route, rest = m4.groups()
                if w in ('requires', 'ensures', 'always', 'opens', 'route'):
                    m3 = re.match(r'([A-Za-z_]\w*)\s*:(?!:)\s*(.*)$', rest, re.S)
                    name = ''
                    if m3:
                        name, rest = m3.groups()
                    e = self.P(pkg, rest)
                    for c in cur:
                        lst = c.routes if w == 'route' else getattr(c, w)
                        lst.append(Clause(w, labels, name or '%s%d' % (w, len(lst)), e, rest))
                        lst[-1].route = route
                elif w == 'modifies':
                    for part in split_top(rest):
                        e = self.P(pkg, part)
                        for c in cur:
                            c.modifies.append(Clause(w, labels, 'modifies', e, part))
                elif w in ('invariant', 'decreases'):
                    e = self.P(pkg, rest)
                    for c in cur:
                        getattr(c, 'invariants' if w == 'invariant' else 'decreases').append(Clause(w, labels, w, e, rest))
                elif w == 'uses':
                    for c in cur:
                        c.uses += [x.strip() for x in rest.split(',')]
                elif w == 'let':
                    m3 = re.match(r'(\w+)\s*=\s*(.*)$', rest, re.S)
                    e = self.P(pkg, m3.group(2))
                    for c in cur:
                        c.lets.append((m3.group(1), e))
                elif w == 'trusted':
                    for c in cur:
                        c.trusted = rest or True
                elif w == 'flag':
                    for c in cur:
                        c.flags.update(x.strip() for x in rest.split(','))
                elif w == 'hint':
                    e = self.P(pkg, rest)
                    for c in cur:
                        c.hints.append(e)


def split_top(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '([{':
            d += 1
        if ch in ')]}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out
