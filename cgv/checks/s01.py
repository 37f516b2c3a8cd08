"""S01: symbolic solving of a recorded equation for one of its variables."""
import itertools

from .. import facts
from ..absint import Cell, CppThrow, Interp, NULL, Obj, Ptr, Term, Vec
from ..cgmodel import FN1, Model, NS, NoMeaning, SEM1, SEM2, SEM4, ev, same
from ..facts import AnalysisError
from ..world import World
from .o01 import base_hooks
from .v01 import Solve as Expressions, equations

SPEC = {'technique': 'abstract interpretation of the solver over every invertible operation, operand position, nesting and double occurrence of the '
                     'unknown; the resulting expression tree is compared as a term with the inverse of the equation, and the solvability query '
                     'with the solver on the same abstract expressions',
        'level': 'other',
        'assumptions': ['exact real arithmetic; the principal branch is meant for cosh and the root is positive for sqrt',
                        'operation codes mean what their names say']}
INV1 = ['UnMinus', 'Alias', 'Exp', 'Log', 'Sqrt', 'Cosh', 'Sinh', 'Tanh']
NOT1 = ['Abs', 'Acos', 'Asin', 'Atan', 'Cos', 'Sin', 'Tan', 'Sign', 'Erf', 'Log1p', 'Expm1', 'Asinh', 'Acosh', 'Atanh', 'Erfc']
AR = ['Add', 'Sub', 'Mul', 'Div']


def meaning(s, env):
    if s[0] == 'i':
        return env[s[1]]
    if s[0] == 'p':
        return s[1]
    a = [meaning(c, env) for c in s[1:]]
    if s[0] in SEM1:
        return SEM1[s[0]](*a)
    if s[0] in SEM2:
        return SEM2[s[0]](*a)
    return a[2] if SEM4[s[0]](a[0], a[1]) else a[3]


def show(s):
    if s[0] == 'i':
        return s[1]
    if s[0] == 'p':
        return str(s[1])
    return '%s(%s)' % (s[0], ', '.join(show(c) for c in s[1:]))


X, A, B, C, Z = [('i', n) for n in ('x', 'a', 'b', 'c', 'z')]
NAMES = ['x', 'a', 'b', 'c', 'z']
PTS = [(0.37, 0.61, 0.83, 0.29), (1.7, 2.3, 0.9, 1.2), (0.4, -0.7, 1.3, 2.1), (0.25, 0.45, -0.65, 0.15), (1.25, 1.5, 0.5, -0.75), (2.5, 1.5, -2.5, 1.75), (-0.6, 0.8, 1.4, 0.6), (-1.3, 2.4, -0.4, 1.1),
       (0.0, 0.7, 0.2, 0.3)]


class Solve:
    def __init__(self, ctx, fx):
        self.ctx, self.fx = ctx, fx
        self.m = Model(fx)
        self.visited = set()
        q = NS + 'CodeHandler::'
        node = self.m.NODE + ' &'
        self.f_solve = fx.one(q + 'solveFor', clsx=self.m.H, nparams=2, pred=lambda f: fx.t(f['p'][0]['t']) == node)
        self.f_is = fx.one(q + 'isSolvable', clsx=self.m.H, nparams=2)

    def build(self, w, s, leaf, memo):
        if s[0] == 'i':
            return leaf[s[1]]
        if s[0] == 'p':
            return float(s[1])
        if s not in memo:
            memo[s] = w.cg(w.node(s[0], [self.build(w, c, leaf, memo) for c in s[1:]]))
        return memo[s]

    def run(self, s, share=True):
        it = Interp(self.fx, hooks=dict(base_hooks(), **{'CppAD::cg::printExpression': lambda *a: None}), max_paths=80, max_steps=600000)
        m = self.m

        def setup(itp):
            w = World(itp, model=m)
            cells = w.indep(5)
            leaf = dict(zip(NAMES, cells))
            for n, c in leaf.items():
                itp.deref(w.operand(c)).v.tag = n
            top = self.build(w, s, leaf, {})
            return w, itp.deref(w.operand(top)), itp.deref(w.operand(leaf['x']))

        def solve(itp):
            w, top, x = setup(itp)
            before = m.node_denote(itp, top.v)
            r = itp.call(self.f_solve, w.h, [top, x])
            r = r.v if isinstance(r, Cell) else r
            return m.cg_denote(itp, r)[0], list(itp.conds), before == m.node_denote(itp, top.v)

        def isok(itp):
            w, top, x = setup(itp)
            r = itp.call(self.f_is, w.h, [top, x])
            return r, list(itp.conds)
        a, b = it.explore(solve), it.explore(isok)
        self.ctx.count('abstract paths', len(a) + len(b))
        self.visited |= it.visited
        return a, b

    def check(self, s, rule, key, must=None):
        """must: True = has to be solved, False = has to be refused, None = either"""
        ctx = self.ctx
        where = self.fx.loc(self.f_solve)
        lab = show(s) + ' = 0 for x'
        sol, can = self.run(s)
        solved = set()
        for o in sol:
            if o[0] == 'abort':
                ctx.unk(rule, lab + ': ' + o[1])
                solved.add(None)
                continue
            if o[0] == 'throw':
                solved.add(False)
                if must:
                    ctx.bad(rule, key + '/refused', where, '%s throws at %s' % (lab, o[1].line))
                else:
                    ctx.ok(rule, lab + ': refused')
                continue
            den, conds, kept = o[1]
            if any(infeasible(c, r) for c, r in conds):
                continue
            solved.add(True)
            if not kept:
                ctx.bad(rule, key + '/modified', where, 'solving %s changes the recorded equation' % lab)
                continue
            bad, n = self.verify(s, den, conds)
            if bad:
                ctx.bad(rule, key, where, '%s gives %r: %s' % (lab, den, bad))
            elif n:
                ctx.ok(rule, '%s -> %r' % (lab, den))
            else:
                ctx.unk(rule, '%s -> %r: no point in the domain' % (lab, den))
        for o in can:
            if o[0] == 'abort':
                ctx.unk('solvable-query', lab + ': ' + o[1])
            elif o[0] == 'throw':
                ctx.bad('solvable-query', key + '/throws', self.fx.loc(self.f_is), 'asking whether %s is solvable throws at %s' % (lab, o[1].line))
            elif None not in solved and len(solved) == 1 and isinstance(o[1][0], bool):
                r = next(iter(solved))
                if o[1][0] != r:
                    ctx.bad('solvable-query', key, self.fx.loc(self.f_is), '%s is reported as %ssolvable but %s' %
                            (lab, '' if o[1][0] else 'not ', 'it is solved' if r else 'solving it throws'))
                else:
                    ctx.ok('solvable-query', '%s: %s' % (lab, r))
            else:
                ctx.unk('solvable-query', lab + ': undecided')

    def verify(self, s, den, conds):
        """the expressions of the checks are g - z (or z on either side), with z chosen so that the equation holds at x"""
        n = 0
        for p in PTS:
            env = dict(zip(NAMES[:4], p))
            try:
                env['z'] = 0.0
                z = zero_z(s, env)
                if z is None:
                    continue
                env['z'] = z
                if not same(meaning(s, env), 0.0) or off_branch(s, env) or abs(meaning(s, dict(env, x=env['x'] + 0.001))) < 1e-8:
                    continue  # the equation does not hold here, or holds for every x
            except (ValueError, ZeroDivisionError, OverflowError):
                continue
            x = env.pop('x')
            full = dict(env, x=x)
            full.update({k + '.v': v for k, v in list(full.items())})
            try:
                if not all(bool(ev(c, full)) == r for c, r in conds):
                    continue
            except (NoMeaning, ValueError, ZeroDivisionError, OverflowError):
                pass
            try:
                r = ev(den, env)
            except NoMeaning as e:
                return 'no meaning without x: %s' % e, n
            except (ValueError, ZeroDivisionError, OverflowError):
                return 'undefined at %s although x = %g solves the equation' % (env, x), n
            if isinstance(r, complex):
                return 'complex', n
            n += 1
            if abs(r - x) > 1e-7 * max(1, abs(x)):
                return 'at %s it is %r, but x = %r solves the equation' % (env, r, x), n
        return None, n


def infeasible(c, r):
    """a branch on constants alone that is never taken, such as log(2.5) == 1"""
    try:
        return bool(ev(c, {})) != r
    except (NoMeaning, ValueError, ZeroDivisionError, OverflowError):
        return False


def off_branch(s, env):
    """the inverse of cosh is taken on its principal branch"""
    if s[0] in ('i', 'p'):
        return False
    return (s[0] == 'Cosh' and meaning(s[1], env) < 0) or any(off_branch(c, env) for c in s[1:])


def zero_z(s, env):
    """z making s zero: z enters linearly as the last term of the top operation (or alone on one side)"""
    f0 = meaning(s, dict(env, z=0.0))
    f1 = meaning(s, dict(env, z=1.0))
    if f1 == f0:
        return None
    return -f0 / (f1 - f0)


def inverse_positions():
    for u in INV1:
        yield u, lambda e, u=u: (u, e)
    for b in AR:
        yield b + ' left', lambda e, b=b: (b, e, A)
        yield b + ' right', lambda e, b=b: (b, A, e)
        yield b + ' left of constant', lambda e, b=b: (b, e, ('p', 2.5))
        yield b + ' right of constant', lambda e, b=b: (b, ('p', 2.5), e)
    yield 'Pow exponent', lambda e: ('Pow', A, e)
    yield 'Pow exponent of constant', lambda e: ('Pow', ('p', 2.5), e)
    yield 'Pow one', lambda e: ('Pow', e, ('p', 1.0))


def ren(s, f):
    return f(s)


def run(ctx):
    fx = facts.facts('main')
    S = Solve(ctx, fx)
    pos = list(inverse_positions())
    tops = [('Sub', lambda g: ('Sub', g, Z)), ('rev Sub', lambda g: ('Sub', Z, g)), ('Add', lambda g: ('Add', g, Z)), ('rev Add', lambda g: ('Add', Z, g)),
            ('UnMinus', lambda g: ('UnMinus', ('Sub', g, Z)))]
    for n, g in pos:
        for tn, t in tops:
            S.check(t(g(X)), 'single', '%s/%s' % (n, tn), must=True)
    for u in NOT1:
        S.check(('Sub', (u, X), Z), 'refused', u, must=False)
    S.check(('Sub', ('Pow', X, ('p', 0.0)), Z), 'refused', 'Pow zero', must=False)
    for c in ('ComLt', 'ComEq'):
        S.check(('Sub', (c, A, B, X, C), Z), 'refused', c, must=False)
    inner = [(n, g) for n, g in pos if 'constant' not in n]
    for (n1, g1), (n2, g2) in itertools.product(inner, inner):
        if n1 in ('Cosh', 'Sqrt', 'Log', 'Pow one') and not ctx.thorough and n2 in ('Cosh', 'Sinh', 'Tanh'):
            continue
        g = g1(sub(g2(X)))
        S.check(('Sub', g, Z), 'nested', '%s(%s)' % (n1, n2), must=True)
    # the unknown occurs twice: every way both occurrences can meet in sums, differences, products and quotients
    lin = [('x', lambda k: X), ('x*k', lambda k: ('Mul', X, k)), ('k*x', lambda k: ('Mul', k, X)), ('x/k', lambda k: ('Div', X, k)),
           ('-x', lambda k: ('UnMinus', X)), ('x+k', lambda k: ('Add', X, k)), ('k+x', lambda k: ('Add', k, X)), ('x-k', lambda k: ('Sub', X, k)),
           ('k-x', lambda k: ('Sub', k, X)), ('alias', lambda k: ('Alias', X)), ('3x', lambda k: ('Mul', ('p', 3.0), X))]
    for top in ('Add', 'Sub'):
        for (n1, l1), (n2, l2) in itertools.product(lin, lin):
            e = (top, l1(A), l2(B))
            for tn, t in (tops[:2] if ctx.thorough else tops[:1]):
                S.check(t(e), 'collected', '%s(%s, %s)/%s' % (top, n1, n2, tn))
    lin2 = [('k*(x-k)', ('Mul', A, ('Sub', X, B))), ('(k-x)/k', ('Div', ('Sub', A, X), B)), ('k-(k-x)', ('Sub', A, ('Sub', B, X))), ('k-(x-k)', ('Sub', A, ('Sub', X, B))),
            ('(k-x)-k', ('Sub', ('Sub', A, X), B)), ('-(k-x)', ('UnMinus', ('Sub', A, X))), ('k-(-x)', ('Sub', A, ('UnMinus', X))), ('k-k*x', ('Sub', A, ('Mul', B, X))),
            ('(k+x)*k', ('Mul', ('Add', A, X), B)), ('-(-x)', ('UnMinus', ('UnMinus', X))), ('k-x/k', ('Sub', A, ('Div', X, B)))]
    for top in ('Add', 'Sub'):
        for n1, l1 in lin2:
            for n2, l2 in (('3x', ('Mul', ('p', 3.0), X)), ('c*x', ('Mul', C, X)), ('c-x', ('Sub', C, X))):
                S.check(('Sub', (top, l1, l2), Z), 'collected', '%s(%s, %s)' % (top, n1, n2))
                S.check(('Sub', (top, l2, l1), Z), 'collected', '%s(%s, %s)' % (top, n2, n1))
        if ctx.thorough:
            for (n1, l1), (n2, l2) in itertools.product(lin2, lin2):
                S.check(('Sub', (top, l1, l2), Z), 'collected', '%s(%s, %s)' % (top, n1, n2))
    # inside an invertible operation
    for n, g in (inner if ctx.thorough else inner[:6]):
        S.check(('Sub', ren(('Add', ('Mul', A, X), ('Mul', B, X)), g), Z), 'collected', '%s(a x + b x)' % n)
    # three occurrences
    S.check(('Sub', ('Add', ('Add', ('Mul', A, X), ('Mul', B, X)), ('Mul', C, X)), Z), 'collected', 'three')
    S.check(('Sub', ('Sub', ('Mul', A, X), ('Sub', ('Mul', B, X), ('Mul', C, X))), Z), 'collected', 'three nested')
    # products of the unknown with itself cannot be solved linearly
    for n, e in (('x*x', ('Mul', X, X)), ('x*(x+a)', ('Mul', X, ('Add', X, A))), ('a/x + x', ('Add', ('Div', A, X), X)), ('exp(x)+x', ('Add', ('Exp', X), X)),
                 ('x^x', ('Pow', X, X)), ('x/(x+a)', ('Div', X, ('Add', X, A)))):
        S.check(('Sub', e, Z), 'refused', n)
    sv = Expressions(fx)
    equations(ctx, sv)
    ctx.count('functions analysed', len(S.visited | sv.visited))
    for r, n in (('single', 900), ('nested', 200), ('collected', 200), ('collect', 600), ('several', 150), ('refused', 250), ('solvable-query', 300)):
        ctx.need(r, n)


def sub(s):
    """inner shape with the second constant"""
    if s == A:
        return B
    if s[0] in ('i', 'p'):
        return s
    return (s[0],) + tuple(sub(c) for c in s[1:])
