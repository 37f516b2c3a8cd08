"""I01: index patterns and index conditions select exactly the elements they were made from."""
import itertools
import re

from .. import facts
from ..absint import AMap, AStr, Cell, Interp, NULL, Obj, PathAbort, Ptr, Stream, Vec
from ..cexpr import CSyntax, tokens
from ..cgmodel import NS
from ..facts import AnalysisError
from ..par import pmap
from .x01 import Rnd

SPEC = {'technique': 'abstract interpretation of the pattern detection and of the printing of index expressions, index tables and index conditions over all small maps '
                     '(every map of up to a given size and range, and larger structured ones); the printed C text is evaluated with the types of C for every '
                     'element of the map and compared with the map',
        'level': 'other',
        'assumptions': ['unsigned long has 64 bits', 'maps outside the enumerated sizes behave like those inside: the code compares neighbouring elements only']}
M64 = 1 << 64


# ---- evaluation of the printed expressions --------------------------------------------------------

class Bad(Exception):
    pass


RANK = {'i32': 0, 'i64': 1, 'u64': 2}


def wrap(v, t):
    if t == 'u64':
        return v % M64
    b = 32 if t == 'i32' else 64
    if not -(1 << b - 1) <= v < 1 << b - 1:
        raise Bad('signed overflow')
    return v


class Eval:
    """evaluates a C integer expression; values are (value, type)"""
    PREC = [('||',), ('&&',), ('==', '!='), ('<', '>', '<=', '>='), ('+', '-'), ('*', '/', '%')]

    def __init__(self, text, env, tables):
        self.t, self.i, self.env, self.tables = tokens(text), 0, env, tables

    def op(self, *os):
        if self.i < len(self.t) and self.t[self.i][0] == 'op' and self.t[self.i][1] in os:
            self.i += 1
            return self.t[self.i - 1][1]
        return None

    def need(self, o):
        if not self.op(o):
            raise CSyntax('%r expected' % o)

    def all(self):
        v = self.cond()
        if self.i != len(self.t):
            raise CSyntax('unexpected %r' % (self.t[self.i],))
        return v

    def cond(self):
        c = self.binary(0)
        if not self.op('?'):
            return c
        a = self.guard(c[0] != 0, self.cond)
        self.need(':')
        b = self.guard(c[0] == 0, self.cond)
        t = max(a[1], b[1], key=RANK.get)
        v = a if c[0] else b
        return (wrap(v[0], t), t)

    def guard(self, live, f):
        """an operand that is not evaluated may be out of range"""
        if live:
            return f()
        try:
            i = self.i
            return f()
        except Bad:
            self.i = i
            old, self.tables = self.tables, None
            try:
                return f()
            finally:
                self.tables = old

    def binary(self, lv):
        if lv == len(self.PREC):
            return self.unary()
        a = self.binary(lv + 1)
        while True:
            o = self.op(*self.PREC[lv])
            if not o:
                return a
            if o in ('&&', '||'):
                b = self.guard(bool(a[0]) == (o == '&&'), lambda: self.binary(lv + 1))
                a = (int(bool(a[0]) and bool(b[0]) if o == '&&' else bool(a[0]) or bool(b[0])), 'i32')
                continue
            b = self.binary(lv + 1)
            t = max(a[1], b[1], key=RANK.get)
            x, y = wrap(a[0], t), wrap(b[0], t)
            if o in ('==', '!=', '<', '>', '<=', '>='):
                a = (int({'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[o]), 'i32')
            elif o in '/%':
                if y == 0:
                    raise Bad('division by zero')
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                a = (wrap(q if o == '/' else x - q * y, t), t)
            else:
                a = (wrap({'+': x + y, '-': x - y, '*': x * y}[o], t), t)

    def unary(self):
        if self.op('-'):
            v, t = self.unary()
            return (wrap(-v, t), t)
        if self.op('+'):
            return self.unary()
        if self.op('!'):
            return (int(not self.unary()[0]), 'i32')
        return self.postfix()

    def postfix(self):
        if self.op('('):
            v = self.cond()
            self.need(')')
            return v
        if self.i >= len(self.t):
            raise CSyntax('operand expected')
        k, s = self.t[self.i]
        self.i += 1
        if k == 'num':
            m = re.match(r'(\d+)([uUlL]*)$', s)
            if not m:
                raise CSyntax('number %s' % s)
            v = int(m.group(1))
            if len(m.group(1)) > 1 and s[0] == '0':
                v = int(m.group(1), 8)
            u = 'u' in m.group(2).lower()
            if v >= M64:
                raise Bad('constant out of range')
            return (v, 'u64' if u or v >= 1 << 63 else 'i64' if 'l' in m.group(2).lower() or v >= 1 << 31 else 'i32')
        if k == 'id' and s in self.env:
            return (self.env[s], 'u64')
        if k == 'id':
            if self.tables is None:
                while self.op('['):
                    self.cond()
                    self.need(']')
                return (0, 'u64')
            if s not in self.tables:
                raise Bad('%s is not declared' % s)
            v = self.tables[s]
            while self.op('['):
                i = self.cond()[0]
                self.need(']')
                if not isinstance(v, list) or not 0 <= i < len(v):
                    raise Bad('element %d of %s is out of range' % (i, s))
                v = v[i]
            if isinstance(v, list):
                raise Bad('%s is used without an index' % s)
            return (v, 'u64')
        raise CSyntax('unexpected %r' % s)


def tables(text):
    """the static index arrays declared by text"""
    out = {}
    for d in text.split(';'):
        if not d.strip():
            continue
        m = re.match(r'\s*static unsigned long const (\w+)((?:\[\d+\])+) = (\{.*\})\s*$', d, re.S)
        if not m:
            raise CSyntax('declaration %r' % d[:80])
        if m.group(1) in out:
            raise Bad('%s is declared twice' % m.group(1))
        dims = [int(x) for x in re.findall(r'\d+', m.group(2))]
        toks = tokens(m.group(3))
        pos = [0]

        def init(dims):
            if toks[pos[0]] != ('op', '{'):
                raise CSyntax('initialiser %r' % d[:80])
            pos[0] += 1
            r = []
            while toks[pos[0]] != ('op', '}'):
                if len(dims) > 1:
                    r.append(init(dims[1:]))
                else:
                    neg = toks[pos[0]] == ('op', '-')
                    pos[0] += neg
                    if toks[pos[0]][0] != 'num':
                        raise CSyntax('initialiser %r' % d[:80])
                    r.append((-1 if neg else 1) * int(re.match(r'\d+', toks[pos[0]][1]).group()) % M64)
                    pos[0] += 1
                if toks[pos[0]] == ('op', ','):
                    pos[0] += 1
                elif toks[pos[0]] != ('op', '}'):
                    raise CSyntax('initialiser %r' % d[:80])
            pos[0] += 1
            if len(r) > dims[0]:
                raise Bad('%s has more initialisers than elements' % m.group(1))
            while len(r) < dims[0]:
                r.append(0 if len(dims) == 1 else [0] * dims[1])
            return r
        if dims[0] == 0:
            raise Bad('%s has no elements' % m.group(1))
        out[m.group(1)] = init(dims)
    return out


# ---- the library ---------------------------------------------------------------------------------

MP = 'std::map<unsigned long, unsigned long>'


def amap(d):
    m = AMap('unsigned long', 'unsigned long')
    m.d = [[k, Cell(v, 'unsigned long')] for k, v in sorted(d.items())]
    return m


def amap2(d):
    m = AMap('unsigned long', MP)
    m.d = [[k, Cell(amap(v), MP)] for k, v in sorted(d.items())]
    return m


def aset(vals, t):
    m = AMap(t, isset=True, kind='set')
    m.d = [[k, Cell(k, t)] for k in vals]
    return m


class L:
    def __init__(self, fx):
        self.fx = fx
        self.it = Interp(fx, max_paths=8, max_steps=200000, loop_bound=400)
        self.visited = set()

    def fn(self, q, pred=None):
        r = [i for i in self.fx.find(NS + q) if i in self.fx.bodies and (pred is None or pred(self.fx.ptypes(i)))]
        if not r:
            raise AnalysisError('anchor not found: ' + q)
        return r[0]

    def run(self, f):
        """f() in an abstract execution: ('ok', value) or (kind, message)"""
        outs = list(self.it.explore(lambda i: f()))
        self.visited.update(self.it.visited)
        if len(outs) != 1:
            return ('abort', '%d paths' % len(outs))
        return outs[0][:2]

    def call(self, q, args, pred=None):
        r = self.it.call(self.fn(q, pred), None, args)
        return r.v if isinstance(r, Cell) else r

    def text(self, v):
        if isinstance(v, AStr):
            return v.text(lambda a: '{%s}' % (a,))
        raise AnalysisError('text %r' % v)

    def declare(self, ip):
        """names the tables a pattern uses, in the way of the generator, and returns their declarations"""
        it = self.it
        found = AMap('CppAD::cg::IndexPattern *', isset=True, kind='set')
        it.call(self.virt(ip, 'getSubIndexes'), it.deref(ip), [Cell(found)])
        ps = [ip] + [k for k, _ in found.d]
        rnd = []
        for p in ps:
            o = it.deref(p).v
            if any('RandomIndexPattern' in c for c in self.fx.mro(o.cls)) and p not in rnd:
                rnd.append(p)
        s = aset(rnd, NS + 'RandomIndexPattern *')
        self.call('LanguageC::generateNames4RandomIndexPatterns', [Cell(s)])
        os = Cell(Stream(), 'std::ostringstream')
        self.call('LanguageC::printRandomIndexPatternDeclaration', [os, Cell(AStr(('',))), Cell(s)])
        return stream(self, os)

    def virt(self, p, name):
        o = self.it.deref(p).v
        for c in self.fx.mro(o.cls):
            for i in self.fx.by_cls.get(c, ()):
                if self.fx.funcs[i]['n'] == name and i in self.fx.bodies:
                    return i
        raise AnalysisError('anchor not found: %s::%s' % (o.cls, name))

    def expr(self, ip, names):
        if len(names) == 1:
            return self.text(self.call('LanguageC::indexPattern2String', [self.it.deref(ip), Cell(AStr((names[0],)))],
                                       lambda p: 'basic_string' in p[1] and 'vector' not in p[1]))
        v = Vec([Cell(Ptr(Cell(AStr((n,)), 'std::string'))) for n in names], 'const std::string *', 'std::vector')
        return self.text(self.call('LanguageC::indexPattern2String', [self.it.deref(ip), Cell(v)],
                                   lambda p: 'basic_string' in p[1] and 'vector' in p[1]))


def stream(lib, c):
    s = c.v
    if not isinstance(s, Stream):
        raise AnalysisError('stream %r' % (s,))
    return ''.join(lib.text(p) if isinstance(p, AStr) else str(p) for p in s.out)


def kind(lib, p):
    return lib.it.deref(p).v.cls.split('::')[-1]


def check_1d(lib, m, vector):
    """None or what is wrong with the pattern of map m (x -> y); raises Undecided-like tuples"""
    def body():
        if vector:
            a = Cell(Vec([Cell(m[k], 'unsigned long') for k in sorted(m)], 'unsigned long', 'std::vector'))
            p = lib.call('IndexPattern::detect', [a], lambda p: 'vector' in p[0])
        else:
            p = lib.call('IndexPattern::detect', [Cell(amap(m), MP)], lambda p: 'map' in p[0])
        decl = lib.declare(p)
        return kind(lib, p), lib.expr(p, ['j']), decl
    o = lib.run(body)
    if o[0] != 'ok':
        return (o[0], o[1], None)
    k, e, decl = o[1]
    return ('ok', wrong(e, decl, {(x,): y for x, y in m.items()}, ['j']), k)


def wrong(expr, decl, want, names):
    try:
        tb = tables(decl)
    except Bad as ex:
        return str(ex)
    except CSyntax as ex:
        return 'the tables %r are no valid C: %s' % (decl[:100], ex)
    for x, y in want.items():
        try:
            v = Eval(expr, dict(zip(names, x)), tb).all()
        except Bad as ex:
            return '%s: %s for %s' % (expr, ex, x)
        except CSyntax as ex:
            return '%s is no valid C: %s' % (expr, ex)
        if v[0] % M64 != y:
            return '%s is %d instead of %d for %s' % (expr, v[0], y, ', '.join('%s = %d' % z for z in zip(names, x)))
    return None


def maps_1d(thorough):
    """maps x -> y: (map, usable as vector)"""
    out = []
    for n, r in ((1, 3), (2, 4), (3, 4), (4, 4), (5, 3 if not thorough else 4)) + (((6, 3),) if thorough else ()):
        for v in itertools.product(range(r), repeat=n):
            out.append((dict(enumerate(v)), True))
    for n, dom in ((1, 5), (2, 6), (3, 6), (4, 6 if not thorough else 8)):
        for xs in itertools.combinations(range(dom), n):
            if xs == tuple(range(n)):
                continue
            for v in itertools.product(range(3), repeat=n):
                out.append((dict(zip(xs, v)), False))
    rnd = Rnd(11)
    for _ in range(3000 if thorough else 700):
        # larger maps: pieces with a common distance, constant pieces, repeated steps and irregular elements
        x, m = rnd(3), {}
        vector = rnd(2) == 0
        if vector:
            x = 0
        for _ in range(1 + rnd(4)):
            ln, dy, dx = 1 + rnd(6), rnd.pick([0, 0, 1, 1, 2, 3, -1, -2]), 1 if vector else rnd.pick([1, 1, 2, 3, 5])
            y, st = 20 + rnd(10), rnd.pick([1, 1, 1, 2, 3]) if not vector or dy else 1
            for k in range(ln):
                m[x] = y + dy * (k // st)
                x += dx if not rnd(12) or dx == 1 or st == 1 else 1
            if not vector:
                x += rnd(3)
        out.append((m, vector))
    for _ in range(600 if thorough else 150):   # steps: the floor of a quotient
        dx, dy, off, x0 = 2 + rnd(4), rnd.pick([1, 2, 3, -1]), rnd(4), rnd(8)
        m = {x: 60 + ((x - off % dx + dx) // dx) * dy for x in range(x0, x0 + 4 + rnd(14)) if rnd(3)}
        if rnd(2) and m:
            k = rnd.pick(sorted(m))
            m[k] += rnd(3)
        if m:
            out.append((m, False))
    seen, res = set(), []
    for m, v in out:
        k = (tuple(sorted(m.items())), v)
        if k not in seen:
            seen.add(k)
            res.append((m, v))
    return res


def maps_2d(thorough):
    out = []
    vals = range(3)
    for rows in ((1,), (2,), (1, 1), (2, 1), (1, 2), (2, 2), (1, 1, 1)):
        cells = [(x, y) for x, n in enumerate(rows) for y in range(n)]
        for v in itertools.product(vals, repeat=len(cells)):
            out.append(dict(zip(cells, v)))
    for v in itertools.product(range(2), repeat=6):
        out.append(dict(zip([(x, y) for x in range(2) for y in range(3)], v)))
    rnd = Rnd(3)
    for _ in range(2500 if thorough else 700):
        # f(x) + g(y) on a part of a grid, possibly with one element changed
        nx, ny, dx, dy = 1 + rnd(4), 1 + rnd(4), 1 + rnd(2), 1 + rnd(3)
        x0, y0 = rnd(3), rnd(4)
        f = {x: 40 + rnd.pick([0, 1, 3]) * x for x in range(nx)}
        g = {y: rnd.pick([0, 1, 2, -2]) * y for y in range(ny)}
        if rnd(3) == 0:
            f[rnd(nx)] += 7
        if rnd(3) == 0:
            g[rnd(ny)] += 5
        m = {(x0 + x * dx, y0 + y * dy): f[x] + g[y] for x in f for y in g if rnd(6)}
        if m and rnd(4) == 0:
            m[rnd.pick(sorted(m))] += 1 + rnd(3)
        if m:
            out.append(m)
    seen, res = set(), []
    for m in out:
        k = tuple(sorted(m.items()))
        if k not in seen:
            seen.add(k)
            res.append(m)
    return res


def nest(m):
    d = {}
    for (x, y), z in m.items():
        d.setdefault(x, {})[y] = z
    return d


def check_2d(lib, m):
    """the plane of a map of pairs, or its table when it is none"""
    # the expression of a random pattern needs the name of its table
    def ordered():
        p = lib.call('Plane2DIndexPattern::detectPlane2D', [Cell(amap2(nest(m)))])
        if not isinstance(p, Ptr):
            o = Cell(Obj(NS + 'Random2DIndexPattern'), NS + 'Random2DIndexPattern')
            lib.it.invoke(lib.fn('Random2DIndexPattern::Random2DIndexPattern', lambda p: 'map' in ''.join(p)), o, [Cell(amap2(nest(m)))])
            p = Ptr(o)
        d = lib.declare(p)
        return kind(lib, p), lib.expr(p, ['j', 'k']), d
    o = lib.run(ordered)
    if o[0] != 'ok':
        return (o[0], o[1], None)
    k, e, d = o[1]
    return ('ok', wrong(e, d, m, ['j', 'k']), k)


def check_cond(lib, iters, used, mx, lang='LanguageC'):
    def body():
        info = lib.call('loops::createIndexConditionExpression', [Cell(aset(sorted(iters), 'unsigned long')), Cell(aset(sorted(used), 'unsigned long')),
                                                                  Cell(mx, 'unsigned long')])
        os = Cell(Stream(), 'std::ostringstream')
        lib.call(lang + '::printIndexCondExpr', [os, Cell(info), Cell(AStr(('j',)))])
        return stream(lib, os)
    o = lib.run(body)
    if o[0] != 'ok':
        return (o[0], o[1], None)
    for j in range(mx + 1):
        if j in used:
            continue
        try:
            v = Eval(o[1], {'j': j}, {}).all()[0]
        except Bad as ex:
            return ('ok', '%s: %s' % (o[1], ex), None)
        except CSyntax as ex:
            return ('ok', '%s is no valid C: %s' % (o[1], ex), None)
        if bool(v) != (j in iters):
            return ('ok', '%s is %s for j = %d' % (o[1], bool(v), j), None)
    return ('ok', None, None)


def linear(lib, off, dy, dx, b):
    o = Cell(Obj(NS + 'LinearIndexPattern'), NS + 'LinearIndexPattern')
    lib.it.invoke(lib.fn('LinearIndexPattern::LinearIndexPattern', lambda p: len(p) == 4), o, [Cell(v, 'long') for v in (off, dy, dx, b)])
    return o


def build(lib, spec):
    """a pattern: a tuple of four numbers, or {start: tuple}"""
    if isinstance(spec, tuple):
        return Ptr(linear(lib, *spec))
    m = AMap('unsigned long', NS + 'IndexPattern *')
    m.d = [[k, Cell(Ptr(linear(lib, *v)), NS + 'IndexPattern *')] for k, v in sorted(spec.items())]
    o = Cell(Obj(NS + 'SectionedIndexPattern'), NS + 'SectionedIndexPattern')
    lib.it.invoke(lib.fn('SectionedIndexPattern::SectionedIndexPattern', lambda p: 'map' in ''.join(p)), o, [Cell(m)])
    return Ptr(o)


def value(spec, x):
    if isinstance(spec, dict):
        k = max([s for s in spec if s <= x] or [min(spec)])
        return value(spec[k], x)
    off, dy, dx, b = spec
    return (x - off) // dx * dy + b


def check_offset(lib, a, b, off, xs):
    """isOffsetBy(a, b, off) only if a = b + off everywhere"""
    def body():
        r = lib.call('LanguageC::isOffsetBy', [Cell(build(lib, a)), Cell(build(lib, b)), Cell(off, 'long')], lambda p: 'const CppAD::cg::IndexPattern *' in p[0])
        return r
    o = lib.run(body)
    if o[0] != 'ok':
        return (o[0], o[1], None)
    same = all(value(a, x) == value(b, x) + off for x in xs)
    if o[1] is True and not same:
        return ('ok', 'pattern %s is taken for %s moved by %d' % (a, b, off), None)
    return ('ok', None, 'moved' if o[1] else 'not moved')


def check_encapsulate(lib, a, start, xs):
    """a pattern for an array element that starts the elements of a loop"""
    def body():
        p = build(lib, a)
        t = 'SectionedIndexPattern' if isinstance(a, dict) else 'LinearIndexPattern'
        r = lib.call('LanguageC::encapsulateIndexPattern', [lib.it.deref(p), Cell(start, 'unsigned long')], lambda q: t in q[0])
        return lib.expr(r, ['j', 'i']), lib.declare(r)
    o = lib.run(body)
    if o[0] != 'ok':
        return (o[0], o[1], None)
    e, d = o[1]
    return ('ok', wrong(e, d, {(x, i): (value(a, x) - start + i) % M64 for x in xs for i in range(start, start + 3)}, ['j', 'i']), None)


def jobs(thorough):
    out = []
    for m, v in maps_1d(thorough):
        out.append(('detect', (m, False)))
        if v:
            out.append(('detect', (m, True)))
    out += [('plane', (m,)) for m in maps_2d(thorough)]
    for n in range(1, 7 if thorough else 6):
        for st in itertools.product('-ui', repeat=n):
            it = {k for k in range(n) if st[k] == 'i'}
            us = {k for k in range(n) if st[k] == 'u'}
            if it:
                out.append(('condition', (it, us, n - 1)))
    rnd = Rnd(7)
    for _ in range(400 if thorough else 150):
        n = 7 + rnd(6)
        st = [rnd.pick('-uii') for _ in range(n)]
        it = {k for k in range(n) if st[k] == 'i'}
        if it:
            out.append(('condition', (it, {k for k in range(n) if st[k] == 'u'}, n - 1)))
    ps = [(0, 1, 1, 0), (0, 1, 1, 3), (0, 2, 1, 3), (0, 0, 1, 3), (0, 0, 1, 0), (1, 2, 2, 3), (1, 2, 2, 5), (0, 2, 2, 3), (1, 2, 3, 3), (0, -1, 1, 20), (0, -1, 1, 22)]
    ss = [{0: (0, 1, 1, 0), 3: (0, 2, 1, 1)}, {0: (0, 1, 1, 2), 3: (0, 2, 1, 3)}, {0: (0, 1, 1, 2), 3: (0, 2, 1, 4)}, {0: (0, 1, 1, 2), 4: (0, 2, 1, 3)},
          {0: (0, 1, 1, 2), 3: (0, 2, 1, 3), 5: (0, 0, 1, 9)}, {0: (0, 1, 1, 0), 3: (0, 3, 1, 1)}, {0: (0, 1, 1, 2), 3: (0, 3, 1, 1)}]
    for a in ps + ss:
        for b in ps + ss:
            for off in (0, 2, -2, 1):
                out.append(('offset', (a, b, off, [1, 2, 3, 4, 5, 6, 7])))
        for start in (0, 1, 4):
            out.append(('offset', ('enc', a, start, [1, 2, 3, 4, 5, 6, 7])))
    return out


def work(chunk):
    lib = L(facts.facts('main'))
    res = []
    for rule, a in chunk:
        try:
            if rule == 'detect':
                r = check_1d(lib, *a)
            elif rule == 'plane':
                r = check_2d(lib, *a)
            elif rule == 'condition':
                r = check_cond(lib, *a)
            elif a[0] == 'enc':
                r = check_encapsulate(lib, *a[1:])
            else:
                r = check_offset(lib, *a)
        except PathAbort as e:
            r = ('abort', str(e), None)
        res.append((rule, label(rule, a), r))
    return res, lib.visited


def label(rule, a):
    if rule == 'detect':
        return '%s %s' % ('vector' if a[1] else 'map', ' '.join('%d:%d' % z for z in sorted(a[0].items())))
    if rule == 'plane':
        return 'map ' + ' '.join('%d,%d:%d' % (x, y, z) for (x, y), z in sorted(a[0].items()))
    if rule == 'condition':
        return 'iterations %s of %s, already used %s' % (sorted(a[0]), list(range(a[2] + 1)), sorted(a[1]))
    return str(a)


UB = re.compile('null deref|out of range|dereference|past the end|end iterator|free')


def run(ctx):
    fx = facts.facts('main')
    lib = L(fx)
    where = {'detect': fx.loc(lib.fn('IndexPattern::detect')), 'plane': fx.loc(lib.fn('Plane2DIndexPattern::detectPlane2D')),
             'condition': fx.loc(lib.fn('loops::createIndexConditionExpression')), 'offset': fx.loc(lib.fn('LanguageC::isOffsetBy'))}
    todo = jobs(ctx.thorough)
    n = 64
    chunks = [todo[k::n] for k in range(n)]
    visited, kinds = set(), {}
    for res, vis in pmap(work, chunks):
        visited |= vis
        for rule, lab, (st, msg, k) in res:
            ctx.count('abstract paths')
            if st == 'ok' and msg is None:
                ctx.ok(rule, '%s -> %s' % (lab, k))
                kinds[k] = kinds.get(k, 0) + 1
            elif st == 'ok':
                ctx.bad(rule, lab, where[rule], '%s: %s' % (lab, msg))
            elif st == 'throw' or UB.search(str(msg)):
                ctx.bad(rule, lab, where[rule], '%s: %s' % (lab, msg))
            else:
                ctx.unk(rule, '%s: %s' % (lab, msg))
    for k, v in sorted(kinds.items(), key=str):
        if k:
            ctx.count('results ' + str(k), v)
    ctx.count('functions analysed', len(visited))
    for r, m in (('detect', 2000), ('plane', 500), ('condition', 200), ('offset', 200)):
        ctx.need(r, m)
    for k in ('LinearIndexPattern', 'SectionedIndexPattern', 'Random1DIndexPattern', 'Plane2DIndexPattern', 'Random2DIndexPattern'):
        if k not in kinds:
            ctx.unk('detect', 'no map gives a ' + k)
