"""V01: solving a recorded expression for one of its variables gives an expression which satisfies it."""
import math

from .. import facts
from ..absint import Cell, CppThrow, Interp, NULL, Obj, Ptr, Vec
from ..cgmodel import Model, NS, NoMeaning, SEM1, SEM2, ev
from ..facts import AnalysisError
from ..par import pmap
from ..world import World, make

SPEC = {'technique': 'abstract interpretation of the substitution of variables and of the path searches (substituteIndependent, findPathGraph, findSingleBifurcation, '
                     'findPaths) on enumerated expression graphs; the results are compared with the graph they were made from',
        'level': 'other', 'assumptions': ['assertions compiled out (release configuration)', 'real arithmetic: comparison up to 1e-7 relative']}

# one step of a path to the variable: shape around the sub-expression; O is another variable, K a constant
Y, Z, U = ('i', 1), ('i', 2), ('i', 3)
LINEAR = {
    'a+y': lambda e: ('Add', e, Y), 'y+a': lambda e: ('Add', Y, e), 'a-y': lambda e: ('Sub', e, Y), 'y-a': lambda e: ('Sub', Y, e),
    'a*y': lambda e: ('Mul', e, Y), 'y*a': lambda e: ('Mul', Y, e), 'a/y': lambda e: ('Div', e, Y), '-a': lambda e: ('UnMinus', e),
    'alias': lambda e: ('Alias', e), '3-a': lambda e: ('Sub', ('p', 3.0), e), 'a*2': lambda e: ('Mul', e, ('p', 2.0)),
    'a/4': lambda e: ('Div', e, ('p', 4.0)), 'a-u': lambda e: ('Sub', e, U), 'u*a': lambda e: ('Mul', U, e),
}
INVERT = {
    'y/a': lambda e: ('Div', Y, e), '5/a': lambda e: ('Div', ('p', 5.0), e), 'exp': lambda e: ('Exp', e), 'log': lambda e: ('Log', e),
    'sqrt': lambda e: ('Sqrt', e), 'cosh': lambda e: ('Cosh', e), 'sinh': lambda e: ('Sinh', e), 'tanh': lambda e: ('Tanh', e),
    'y^a': lambda e: ('Pow', Y, e), '2^a': lambda e: ('Pow', ('p', 2.0), e), 'a^1': lambda e: ('Pow', e, ('p', 1.0)),
}
OTHER = {
    'sin': lambda e: ('Sin', e), 'abs': lambda e: ('Abs', e), 'a^2': lambda e: ('Pow', e, ('p', 2.0)), 'a^0': lambda e: ('Pow', e, ('p', 0.0)),
    'a^y': lambda e: ('Pow', e, Y), 'atan': lambda e: ('Atan', e), 'log1p': lambda e: ('Log1p', e),
    'cond': lambda e: ('ComLt', Y, Z, e, U),
}
ALL = dict(LINEAR, **INVERT)
# roots: the equation "root = 0"
ROOTS = {'e-z': lambda e: ('Sub', e, Z), 'z-e': lambda e: ('Sub', Z, e), '-z+e': lambda e: ('Add', ('UnMinus', Z), e), 'e+(-z)': lambda e: ('Add', e, ('UnMinus', Z))}
POINTS = [(0.37, 0.61, 0.83), (1.7, 2.3, 0.9), (-0.4, 0.7, -1.3), (0.25, 1.45, 0.65), (2.5, 3.5, 1.75), (0.9, -1.6, 2.2), (-1.2, -0.8, -0.3)]
X = ('i', 0)
CONST = {f: getattr(math, f) for f in ('log', 'exp', 'sqrt', 'sinh', 'cosh', 'tanh', 'pow')}


def meaning(s, env):
    if s[0] == 'i':
        return env['n%d' % s[1]]
    if s[0] == 'p':
        return s[1]
    a = [meaning(c, env) for c in s[1:]]
    if s[0] in SEM1:
        return SEM1[s[0]](*a)
    if s[0] == 'ComLt':
        return a[2] if a[0] < a[1] else a[3]
    return SEM2[s[0]](*a)


def show(s):
    if s[0] == 'i':
        return 'xyzu'[s[1]]
    if s[0] == 'p':
        return repr(s[1])
    return '%s(%s)' % (s[0], ', '.join(show(c) for c in s[1:]))


def symbols(t, out):
    if hasattr(t, 'args'):
        if not t.args:
            out.add(t.op)
        for a in t.args:
            symbols(a, out)
    return out


class Rnd:
    """a fixed sequence of choices"""
    def __init__(self, seed):
        self.s = seed * 2654435761 % 2 ** 32 or 1

    def __call__(self, n):
        self.s = (self.s * 1103515245 + 12345) % 2 ** 31
        return (self.s >> 8) % n

    def pick(self, xs):
        return xs[self(len(xs))]


def chain(names, e):
    for n in names:
        e = (ALL.get(n) or OTHER[n])(e)
    return e


def occurrences(s):
    return 1 if s == X else sum(occurrences(c) for c in s[1:] if isinstance(c, tuple))


def identical(k):
    """CppAD's predicate for a plain number"""
    def hook(it, f, this, args, line):
        v = args[0].v if isinstance(args[0], Cell) else args[0]
        return v == k if isinstance(v, (int, float)) else NotImplemented
    return hook


def number(g):
    """a function of the standard library applied to a constant"""
    def hook(it, f, this, args, line):
        v = [a.v if isinstance(a, Cell) else a for a in args]
        try:
            return g(*v) if v and all(isinstance(x, (int, float)) for x in v) else NotImplemented
        except (ValueError, OverflowError):
            return NotImplemented
    return hook


class Solve:
    def __init__(self, fx):
        self.fx, self.m = fx, Model(fx)
        self.h = 'CodeHandler::'
        self.visited = set()

    def build(self, w, s, x, memo):
        if s[0] == 'i':
            return x[s[1]]
        if s[0] == 'p':
            return float(s[1])
        if memo is not None and s in memo:
            return memo[s]
        r = w.cg(w.node(s[0], [self.build(w, c, x, memo) for c in s[1:]]))
        if memo is not None:
            memo[s] = r
        return r

    def explore(self, body):
        hooks = {'CppAD::IdenticalZero': identical(0.0), 'CppAD::IdenticalOne': identical(1.0)}
        hooks.update({p + f: number(g) for p in ('', 'std::', 'CppAD::') for f, g in CONST.items()})
        it = Interp(self.fx, hooks=hooks, max_paths=4, max_steps=4000000)
        r = it.explore(body)
        self.visited |= it.visited
        return r

    def node(self, w, cg):
        return w.it.deref(w.operand(cg))

    def world(self, it, order=(0, 1, 2, 3)):
        w = World(it, model=self.m)
        made = w.indep(4)
        x = [made[order.index(i)] for i in range(4)]
        for i, c in enumerate(x):
            w.nodeof(c).tag = 'n%d' % i
        return w, x

    # ---- solveFor / isSolvable -------------------------------------------------------------------------
    def solve(self, s, share):
        """('solved', denotation) | ('refused', text) | ('abort', text), whether isSolvable agrees, whether the equation was left alone"""
        two = lambda p: len(p) == 2 and all(NS + 'OperationNode' in a for a in p)

        def body(it):
            w, x = self.world(it)
            e = self.build(w, s, x, {} if share else None)
            before = self.m.cg_denote(it, e.v)[0]
            try:
                r = w.call('solveFor', [self.node(w, e), self.node(w, x[0])], two)
                res = ('solved', self.m.cg_denote(it, r)[0])
            except CppThrow as ex:
                res = ('refused', '%s at %s' % (ex.typ.split("::")[-1], ex.line))
            after = self.m.cg_denote(it, e.v)[0]
            w2, x2 = self.world(it)
            e2 = self.build(w2, s, x2, {} if share else None)
            ok = w2.call('isSolvable', [self.node(w2, e2), self.node(w2, x2[0])], two)
            return res, ok, repr(before) == repr(after)
        return self.explore(body)

    def check(self, s, share, must):
        r = self.solve(s, share)
        if len(r) != 1:
            return 'abort', 'several paths', None
        o = r[0]
        if o[0] == 'abort':
            return 'abort', o[1], None
        if o[0] == 'throw':
            return 'bad', 'isSolvable throws %s' % (o[1],), None
        res, ok, same = o[1]
        if not same:
            return 'bad', 'solving changes the equation itself', None
        if bool(ok) != (res[0] == 'solved'):
            return 'bad', 'isSolvable says %s, solveFor %s' % (bool(ok), res), None
        if res[0] == 'refused':
            if must and not self.vanishes(s):
                return 'bad', 'refused: %s' % (res[1],), None
            return 'ok', 'refused', None
        den = res[1]
        if 'n0' in symbols(den, set()):
            return 'bad', 'the solution %r contains the variable itself' % (den,), None
        n = 0
        for p in POINTS:
            env = {'n0': p[0], 'n1': p[1], 'n3': p[2], 'n2': 0.0}
            try:
                # z is chosen such that the variable has the value n0 at this point
                env['n2'] = zero_of(s, env)
            except (ValueError, ZeroDivisionError, OverflowError):
                continue
            if env['n2'] is None or abs(env['n2']) > 50 or self.negcosh(s, env):
                continue
            try:
                got = ev(den, env)
                back = meaning(s, dict(env, n0=got))
            except NoMeaning as ex:
                return 'bad', 'the solution %r has no meaning: %s' % (den, ex), None
            except (ValueError, ZeroDivisionError, OverflowError) as ex:
                if self.degenerate(s, env):
                    continue
                return 'bad', 'the solution %r is undefined at %s (%s) where the equation has the root %r' % (den, env, ex, p[0]), None
            if abs(back) > 1e-7 * max(1.0, abs(env['n2']), abs(got)) and abs(got - p[0]) > 1e-7:
                if self.degenerate(s, env):
                    continue
                return 'bad', 'the solution %r = %r at %s leaves the residual %r (the root is %r)' % (den, got, env, back, p[0]), None
            n += 1
        return ('ok', 'solved', n) if n else ('ok', 'no point', 0)

    def vanishes(self, s):
        """the equation does not depend on the variable"""
        v = set()
        for x in (0.3, 0.71, 1.93):
            try:
                v.add(round(meaning(s, {'n0': x, 'n1': 0.61, 'n2': 0.4, 'n3': 0.83}), 9))
            except ZeroDivisionError:
                v.add(None)
            except (ValueError, OverflowError):
                return False
        return len(v) == 1

    def negcosh(self, s, env):
        """cosh is inverted for an argument which is not negative"""
        if s[0] in 'ip':
            return False
        if s[0] == 'Cosh' and occurrences(s) and meaning(s[1], env) < 0:
            return True
        return any(self.negcosh(c, env) for c in s[1:])

    def degenerate(self, s, env):
        try:
            h = 1e-4
            return abs(meaning(s, dict(env, n0=env['n0'] + h)) - meaning(s, dict(env, n0=env['n0'] - h))) < 1e-7
        except (ValueError, ZeroDivisionError, OverflowError):
            return True

    # ---- substituteIndependent -------------------------------------------------------------------------
    def substitute(self, s, remove, order):
        def body(it):
            w, x = self.world(it, order)
            e = self.build(w, s, x, {})
            px = w.operand(x[0])
            w.call('substituteIndependent', [x[0], e, Cell(remove, 'bool')], lambda p: len(p) == 3 and NS + 'CG<' in p[0])
            n = it.deref(px).v
            op = self.m.opname[n.f[self.m.n_op].v]
            n.tag = None
            den = self.m.cg_denote(it, e.v)[0]
            ind = self.independents(w)
            left = [p for p in ind]
            pos = [i for p in left for i in range(4) if p.cell is w.operand(x[i]).cell]
            undo = None
            try:
                w.call('undoSubstituteIndependent', [it.deref(px)], None)
                undo = 'ok', self.m.opname[n.f[self.m.n_op].v], len(n.f[self.m.n_args].v.c)
            except CppThrow:
                undo = ('throw',)
            return op, den, pos, len(left), undo
        return self.explore(body)

    def remove(self, s, order):
        """the variables left by removing a variable before and after it is replaced by an expression"""
        def body(it):
            w, x = self.world(it, order)
            e = self.build(w, s, x, {})
            px = w.operand(x[0])

            def remove():
                try:
                    w.call('removeIndependent', [it.deref(px)], None)
                    r = 'removed'
                except CppThrow:
                    r = 'refused'
                return r, [i for p in self.independents(w) for i in range(4) if p.cell is w.operand(x[i]).cell]
            a = remove()
            w.call('substituteIndependent', [x[0], e, Cell(False, 'bool')], lambda p: len(p) == 3 and NS + 'CG<' in p[0])
            return a, remove(), remove()
        return self.explore(body)

    def independents(self, w):
        t = self.fx.recs[self.m.H]['fields']
        q = [f['q'] for f in t if self.fx.t(f['t']).startswith('std::vector<' + self.m.NODE + ' *') and 'ndep' in f['q'] and 'ndependent' in f['q']]
        q = [a for a in q if 'epend' in a and 'ependent' in a]
        for a in q:
            c = w.it.field(w.h, a)
            if isinstance(c.v, Vec) and len(c.v.c) in (3, 4):
                return [b.v for b in c.v.c]
        raise AnalysisError('the independent variables of the handler were not found')


def zero_of(s, env):
    """value of z (n2) for which the equation holds; the equations are linear in z with factor +-1"""
    a = meaning(s, dict(env, n2=0.0))
    b = meaning(s, dict(env, n2=1.0))
    if abs(abs(b - a) - 1) > 1e-9 or isinstance(a, complex):
        return None
    return -a / (b - a)


def shapes(thorough):
    """(rule, label, shape, shared nodes, must be solved)"""
    names = list(ALL)
    roots = list(ROOTS)
    r = Rnd(7)
    out = []
    for a in names:
        for q in roots:
            out.append(('single', '%s of %s' % (q, a), ROOTS[q](chain([a], X)), False, True))
        for b in names:
            q = r.pick(roots)
            out.append(('single', '%s of %s of %s' % (q, b, a), ROOTS[q](chain([a, b], X)), False, True))
    for _ in range(1500 if thorough else 250):
        c = [r.pick(names) for _ in range(3 + r(2))]
        q = r.pick(roots)
        out.append(('single', '%s of %s' % (q, '/'.join(c)), ROOTS[q](chain(c, X)), bool(r(2)), True))
    for a in OTHER:
        for b in [None] + names:
            for c in ([a] if b is None else [a, b], [a] if b is None else [b, a]):
                out.append(('refused', '/'.join(c), ROOTS['e-z'](chain(c, X)), False, False))
    lin = list(LINEAR)

    def both(op, p, q, outer, root, share):
        e = (op, chain(p, X), chain(q, X))
        return ('collect', '%s(%s, %s)%s %s%s' % (op, '/'.join(p) or 'x', '/'.join(q) or 'x', '' if not outer else ' in ' + '/'.join(outer), root,
                                                  ', shared' if share else ''), ROOTS[root](chain(outer, e)), share, True)
    one = [[]] + [[a] for a in lin]
    for op in ('Add', 'Sub'):
        for p in one:
            for q in one:
                out.append(both(op, p, q, [] if r(2) else [r.pick(names)], r.pick(roots), bool(r(2))))
    for _ in range(2500 if thorough else 500):
        p = [r.pick(lin) for _ in range(r(4))]
        q = [r.pick(lin) for _ in range(r(4))]
        if r(3) == 0:  # a common beginning, which may be a shared node
            c = [r.pick(lin) for _ in range(1 + r(2))]
            p, q = c + p[:2], c + q[:2]
        out.append(both(r.pick(['Add', 'Sub']), p, q, [r.pick(names) for _ in range(r(3))], r.pick(roots), bool(r(2))))

    def tree(n):
        """n occurrences of the variable, joined by sums and differences"""
        if n == 1:
            return chain([r.pick(lin) for _ in range(r(3))], X)
        k = 1 + r(n - 1)
        return chain([r.pick(lin) for _ in range(r(2))], (r.pick(['Add', 'Sub']), tree(k), tree(n - k)))
    for _ in range(1500 if thorough else 250):
        out.append(('several', 'tree', ROOTS[r.pick(roots)](tree(3 + r(3))), bool(r(2)), True))
    for a in list(INVERT) + list(OTHER):
        for b in lin[:6]:
            out.append(('refused', 'x and %s/%s' % (a, b), ROOTS['e-z'](('Add', X, chain([b, a], X))), False, False))
            out.append(('refused', 'x and %s/%s' % (b, a), ROOTS['e-z'](('Sub', chain([a, b], X), chain([b], X))), True, False))
    for e in (('Mul', X, X), ('Div', X, chain(['a+y'], X)), ('Mul', X, chain(['exp'], X)), ('Div', Y, ('Mul', X, X)), ('Pow', X, X)):
        out.append(('refused', show(e), ROOTS['e-z'](e), False, False))
    return out


# ---- paths -------------------------------------------------------------------------------------------------
def dags(thorough):
    """graphs of additions over the variables: node k is a list of arguments (earlier nodes or -1: the target, -2: another variable)"""
    r = Rnd(11)
    out = [[[-1, -1]], [[-1, -2]], [[-2, -2]], [[-1, -1], [0, 0]], [[-1, -1], [0, -1]], [[-1, -1], [-1, 0], [1, 1]], [[-1, -1], [0, 0], [1, 1]],
           [[-1, -1], [0, -2], [1, 0]], [[-2, -1], [0, -1], [1, 0], [2, 1]], [[-1, -1], [-2, 0], [1, 1], [2, 1]]]
    for _ in range(900 if thorough else 250):
        n = 2 + r(4)
        g = []
        for k in range(n):
            g.append([r(k + 2) - 2 if r(3) == 0 else (k - 1 if k and r(2) == 0 else r(k + 2) - 2) for _ in range(2)])
        out.append(g)
    return out


def allpaths(g, k):
    """all paths from node k to the target as lists of argument positions"""
    if k == -1:
        return [[]]
    if k == -2:
        return []
    return [[i] + p for i, a in enumerate(g[k]) for p in allpaths(g, a)]


def paths_case(sv, g, limit):
    def body(it):
        w, x = sv.world(it)
        n = []
        for args in g:
            n.append(w.cg(w.node('Add', [x[0] if a == -1 else x[1] if a == -2 else n[a] for a in args])))
        r = w.call('findPaths', [sv.node(w, n[-1]), sv.node(w, x[0]), Cell(limit, 'unsigned long')], lambda p: len(p) == 3 and 'vector' not in p[0])
        cells = {id(sv.node(w, n[k])): k for k in range(len(n))}
        cells[id(sv.node(w, x[0]))] = -1
        cells[id(sv.node(w, x[1]))] = -2
        fn = [f['q'] for f in sv.fx.recs[NS + 'OperationPathNode<double>']['fields']]
        out = []
        for p in r.c:
            seq = []
            for q in p.v.c:
                seq.append((cells.get(id(it.deref(q.v.f[fn[0]].v))), q.v.f[fn[1]].v))
            out.append(seq)
        return out
    o = sv.explore(body)
    if len(o) != 1 or o[0][0] != 'ok':
        return 'abort', str(o[0][1])[:200]
    want = allpaths(g, len(g) - 1)
    got = []
    for seq in o[0][1]:
        k = len(g) - 1
        if not seq or seq[0][0] != k:
            return 'bad', 'a path does not begin at the root'
        pos = []
        for node, i in seq[1:]:
            if k < 0 or not isinstance(i, int) or i >= len(g[k]) or g[k][i] != node:
                return 'bad', 'step %r of the path %r is not an argument of node %s' % ((node, i), seq, k)
            pos.append(i)
            k = node
        if k != -1:
            return 'bad', 'the path %r does not end at the target' % (seq,)
        got.append(tuple(pos))
    if len(set(got)) != len(got):
        return 'bad', 'a path is reported twice'
    if len(got) != min(limit, len(want)):
        return 'bad', '%d paths reported of %d, at most %d asked for' % (len(got), len(want), limit)
    return 'ok', ''


def graph_case(sv, g):
    """the graph of all nodes between the root and the target"""
    def body(it):
        w, x = sv.world(it)
        n = []
        for args in g:
            n.append(w.cg(w.node('Add', [x[0] if a == -1 else x[1] if a == -2 else n[a] for a in args])))
        bif = Cell(0, 'unsigned long')
        root, target = sv.node(w, n[-1]), sv.node(w, x[0])
        r = w.call('findPathGraph', [root, target, bif, Cell((1 << 64) - 1, 'unsigned long')], lambda p: len(p) == 4)
        name = {id(sv.node(w, n[k])): k for k in range(len(n))}
        name[id(target)], name[id(sv.node(w, x[1]))] = -1, -2
        q = {t: [f['q'] for f in sv.fx.recs[t]['fields']] for t in (NS + 'OperationPathNode<double>', NS + 'PathNodeEdges<double>', NS + 'BidirGraph<double>')}
        pn, pe = q[NS + 'OperationPathNode<double>'], q[NS + 'PathNodeEdges<double>']
        o = r.v if isinstance(r, Cell) else r
        node = lambda p: name.get(id(it.deref(p)))
        graph = {}
        for k, e in o.f[q[NS + 'BidirGraph<double>'][0]].v.d:
            graph[node(k)] = ([c.v for c in e.v.f[pe[0]].v.c], [(node(c.v.f[pn[0]].v), c.v.f[pn[1]].v) for c in e.v.f[pe[1]].v.c])
        paths = None
        if bif.v <= 1:
            at = Cell(0, 'unsigned long')
            me = r if isinstance(r, Cell) else Cell(r)
            f = sv.fx.find(NS + 'BidirGraph::findSingleBifurcation')
            ps = it.call([i for i in f if i in sv.fx.bodies][0], me, [root, target, at])
            ps = ps.v if isinstance(ps, Cell) else ps
            paths = [[(node(c.v.f[pn[0]].v), c.v.f[pn[1]].v) for c in p.v.c] for p in ps.c], at.v
        return bif.v, graph, paths
    o = sv.explore(body)
    if len(o) != 1 or o[0][0] != 'ok':
        return 'abort', str(o[0][1])[:200]
    bif, graph, paths = o[0][1]
    n = len(g) - 1
    has, below = {-1: True, -2: False}, set()
    for k, a in enumerate(g):
        has[k] = any(has[b] for b in a)

    def down(k):
        if has[k] and k not in below:
            below.add(k)
            for a in (g[k] if k >= 0 else []):
                down(a)
    down(n)
    want = {k: ([i for i, a in enumerate(g[k]) if has[a]] if k >= 0 else []) for k in below}
    if set(graph) != set(want):
        return 'bad', 'the graph has the nodes %s instead of %s' % (sorted(graph, key=str), sorted(want))
    use = {k: sorted((b, i) for b in want for i in want[b] if g[b][i] == k) for k in want}
    for k in want:
        if sorted(graph[k][0]) != want[k] or sorted(graph[k][1], key=str) != sorted(use[k], key=str):
            return 'bad', 'node %d has the arguments %s and the users %s in the graph instead of %s and %s' % (k, graph[k][0], graph[k][1], want[k], use[k])
    w = sum(max(len(v) - 1, 0) for v in want.values())
    if bif != w:
        return 'bad', '%d bifurcations are reported instead of %d' % (bif, w)
    if paths is not None:
        M = (1 << 64) - 1
        full = []
        for p in allpaths(g, n):
            k, seq = n, []
            for i in p:
                seq.append((k, i))
                k = g[k][i]
            full.append(seq + [(-1, M)])
        if sorted(paths[0]) != sorted(full):
            return 'bad', 'the paths are %s instead of %s' % (paths[0], full)
        if len(full) == 2:
            b = next(i for i, (u, v) in enumerate(zip(*full)) if u != v)
            if paths[1] != b:
                return 'bad', 'the paths separate at step %d instead of %d' % (paths[1], b)
    return 'ok', ''


def spread(sv, f, items, n=64):
    """[f(x) for x in items] in several processes"""
    res = [None] * len(items)
    for k, (p, v) in enumerate(pmap(lambda k: ([f(x) for x in items[k::n]], set(sv.visited)), range(n))):
        res[k::n] = p
        sv.visited |= v
    return res


def locations(fx):
    return {k: fx.loc(fx.find(NS + 'CodeHandler::' + k)[0]) for k in ('solveFor', 'isSolvable', 'collectVariable', 'substituteIndependent', 'findPaths', 'findPathGraph')}


def equations(ctx, sv):
    """the equations which are decided for S01"""
    where = locations(sv.fx)
    items = shapes(ctx.thorough)
    res = spread(sv, lambda a: sv.check(*a[2:]), items)
    for (rule, lab, s, sh, must), (st, msg, _) in zip(items, res):
        t = '%s: solve %s = 0 for x%s' % (lab, show(s), ' (equal sub-expressions are one node)' if sh else '')
        if st == 'abort':
            ctx.unk(rule, t + ': ' + msg)
        elif st == 'bad':
            ctx.bad(rule, '%s/%s' % (rule, lab), where['collectVariable' if rule in ('collect', 'several') else 'solveFor'], '%s: %s' % (t, msg))
        else:
            ctx.ok(rule, t + ' ' + msg)
            ctx.count('equations ' + msg)


def run(ctx):
    fx = facts.facts('main')
    sv = Solve(fx)
    where = locations(fx)
    # substitution
    orders = [(0, 1, 2, 3), (1, 0, 2, 3), (3, 1, 0, 2), (2, 3, 1, 0)]
    subs = [(ROOTS[q](chain(c, X)), rem, orders[k % 4]) for q in ROOTS for k, c in enumerate(([], ['a*y'], ['exp', 'a+y'], ['u*a', 'log'])) for rem in (True, False)]
    subs += [(ROOTS['e-z'](('Add', chain(['a*y'], X), chain(['3-a'], X))), rem, o) for rem in (True, False) for o in orders]
    for (s, rem, order), o in zip(subs, spread(sv, lambda a: [(x[0], x[1] if x[0] == 'ok' else str(x[1])) for x in sv.substitute(*a)], subs)):
        t = 'substituteIndependent(x, %s, %s), x is independent %d' % (show(s), rem, order.index(0))
        key = 'substitute/%s' % rem
        if len(o) != 1 or o[0][0] == 'abort':
            ctx.unk('substitute', t + ': ' + str(o)[:200])
            continue
        if o[0][0] == 'throw':
            ctx.bad('substitute', key, where['substituteIndependent'], t + ' throws ' + str(o[0][1]))
            continue
        op, den, pos, cnt, undo = o[0][1]
        msg = None
        if op != 'Alias':
            msg = 'the variable is a %s afterwards' % op
        elif pos != [i for i in order if i or not rem] or cnt != len(pos):
            msg = 'the independent variables are %s afterwards' % pos
        elif rem and undo != ('throw',):
            msg = 'the substitution of a removed variable can be undone'
        elif not rem and (undo[:2] != ('ok', 'Inv') or undo[2] != 0):
            msg = 'after undoing the variable is %s' % (undo,)
        else:
            for p in POINTS:
                env = {'n1': p[1], 'n3': p[2], 'n0': p[0]}
                try:
                    env['n2'] = zero_of(s, env)
                except (ValueError, ZeroDivisionError, OverflowError):
                    continue
                del env['n0']
                try:
                    v = ev(den, env)
                except NoMeaning as ex:
                    msg = 'the equation %r still depends on the variable (%s)' % (den, ex)
                    break
                except (ValueError, ZeroDivisionError, OverflowError):
                    continue
                if abs(v) > 1e-7 * max(1.0, abs(env['n2'])):
                    msg = 'the equation has the residual %r at %s' % (v, env)
                    break
        if msg:
            ctx.bad('substitute', key, where['substituteIndependent'], '%s: %s' % (t, msg))
        else:
            ctx.ok('substitute', t)
    for order in orders:
        o = sv.remove(ROOTS['e-z'](chain(['a*y'], X)), order)
        rest = [i for i in order if i]
        want = ('refused', list(order)), ('removed', rest), ('refused', rest)
        if len(o) != 1 or o[0][0] == 'abort':
            ctx.unk('substitute', 'removeIndependent: %s' % (o[0][1],))
        elif o[0][0] == 'throw' or o[0][1] != want:
            ctx.bad('substitute', 'removeIndependent', fx.loc(fx.find(NS + 'CodeHandler::removeIndependent')[0]),
                    'removing variable 0 of %s before, after and again after its substitution gives %s instead of %s' % (order, o[0][1], want))
        else:
            ctx.ok('substitute', 'removeIndependent, variables %s' % (order,))
    # paths
    gs = [(g, lim) for g in dags(ctx.thorough) for lim in (1, 2, 3, 100)]
    res = spread(sv, lambda a: paths_case(sv, *a), gs)
    for (g, lim), (st, msg) in zip(gs, res):
        t = 'findPaths in %s, at most %d' % (g, lim)
        if st == 'abort':
            ctx.unk('paths', t + ': ' + msg)
        elif st == 'bad':
            ctx.bad('paths', 'paths', where['findPaths'], '%s: %s' % (t, msg))
        else:
            ctx.ok('paths', t)
    # a few more with a single bifurcation
    r = Rnd(23)
    gs = [g for g in dags(ctx.thorough)]
    for _ in range(200):
        n, g = 2 + r(5), []
        for k in range(n):
            g.append([k - 1, -2] if k else [-1, -2])
        i = r(n)
        g[i][1] = r(i + 1) - 1
        for a in g:
            if r(2):
                a.reverse()
        gs.append(g)
    for g, (st, msg) in zip(gs, spread(sv, lambda g: graph_case(sv, g), gs)):
        t = 'findPathGraph in %s' % (g,)
        if st == 'abort':
            ctx.unk('graph', t + ': ' + msg)
        elif st == 'bad':
            ctx.bad('graph', 'graph', where['findPathGraph'], '%s: %s' % (t, msg))
        else:
            ctx.ok('graph', t)
    ctx.count('functions analysed', len(sv.visited))
    for r, k in (('substitute', 30), ('graph', 300), ('paths', 600)):
        ctx.need(r, k)
