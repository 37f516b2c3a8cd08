"""Models with repeated equations (plain data), for the detection of equation patterns and the generation of loops."""
import random

from .tape import Sym, Tape


class Loops:
    """builds a function from equation templates: ('i', k) the k-th indexed independent of the iteration, ('s', j) independent j, ('t', k) a
    temporary shared by all iterations, ('u', k) a temporary shared by the equations of an iteration"""

    def __init__(self, n):
        self.g = Sym(n)
        self.rows = []
        self.related = []
        self.tmp = {}

    def build(self, e, idx=(), tmps=(), utmps=(), memo=None):
        if not isinstance(e, tuple):
            return float(e)
        if e[0] == 'i':
            return ('x', idx[e[1]])
        if e[0] == 's':
            return ('x', e[1])
        if e[0] == 't':
            if e[1] not in self.tmp:
                self.tmp[e[1]] = self.build(tmps[e[1]], idx, tmps)
            return self.tmp[e[1]]
        if e[0] == 'u':
            if e[1] not in memo:
                memo[e[1]] = self.build(utmps[e[1]], idx, tmps, utmps, memo)
            return memo[e[1]]
        return self.g(e[0], *[self.build(a, idx, tmps, utmps, memo) for a in e[1:]])

    def loop(self, eqs, idx, tmps=(), utmps=(), missing=(), related='by equation'):
        """eqs: templates; idx[it]: indexes of the independents of iteration it; rows are added iteration by iteration"""
        sets = [set() for _ in eqs]
        for it, ix in enumerate(idx):
            memo = {}
            for k, e in enumerate(eqs):
                if (it, k) in missing:
                    continue
                sets[k].add(len(self.rows))
                self.rows.append(self.build(e, ix, tmps, utmps, memo))
        self.related += sets if related == 'by equation' else [set().union(*sets)]

    def free(self, e, tmps=()):
        self.rows.append(self.build(e, (), tmps))

    def model(self, order=None):
        """the function, with the equations in a given order, and the related candidates"""
        order = list(range(len(self.rows))) if order is None else order
        at = {r: p for p, r in enumerate(order)}
        return Tape(self.g, [self.rows[r] for r in order]), [{at[r] for r in s} for s in self.related if s]


def fixed():
    """named models"""
    out = {}

    def m(name, n, f, order=None):
        L = Loops(n)
        f(L)
        out[name] = L.model(order)
    i, s, t, u = (lambda k: ('i', k)), (lambda k: ('s', k)), (lambda k: ('t', k)), (lambda k: ('u', k))
    A, S, M, D = (lambda a, b: ('Add', a, b)), (lambda a, b: ('Sub', a, b)), (lambda a, b: ('Mul', a, b)), (lambda a, b: ('Div', a, b))
    f = lambda op, a: (op, a)
    m('pairs', 6, lambda L: L.loop([A(M(i(0), f('Sin', i(1))), 3.0)], [(0, 1), (2, 3), (4, 5)]))
    m('two equations', 6, lambda L: L.loop([M(i(0), i(1)), S(f('Exp', i(0)), i(1))], [(0, 1), (2, 3), (4, 5)]))
    m('two equations in blocks', 6, lambda L: L.loop([M(i(0), i(1)), S(f('Exp', i(0)), i(1))], [(0, 1), (2, 3), (4, 5)]), [0, 2, 4, 1, 3, 5])
    m('shared variable', 5, lambda L: L.loop([A(M(s(0), i(0)), f('Cos', i(0)))], [(1,), (2,), (3,), (4,)]))
    m('shared temporary', 5, lambda L: L.loop([M(t(0), f('Sin', i(0)))], [(2,), (3,), (4,)], tmps=[M(f('Exp', s(0)), s(1))]))
    m('shared temporaries and free equations', 5, lambda L: (L.loop([A(M(t(0), i(0)), t(1))], [(2,), (3,), (4,)], tmps=[f('Sin', s(0)), M(s(0), s(1))]),
                                                             L.free(M(s(1), f('Cos', s(2)))), L.free(A(t(0), s(1)), [f('Sin', s(0)), M(s(0), s(1))])))
    m('indexed temporary', 6, lambda L: L.loop([M(u(0), i(0)), A(f('Sin', u(0)), i(1))], [(0, 1), (2, 3), (4, 5)], utmps=[M(i(0), i(1))]))
    m('stencil', 5, lambda L: L.loop([A(M(i(0), i(1)), f('Sin', i(2)))], [(0, 1, 2), (1, 2, 3), (2, 3, 4)]))
    m('stencil and borders', 5, lambda L: (L.free(M(s(0), s(1))), L.loop([M(M(i(0), i(1)), i(2))], [(0, 1, 2), (1, 2, 3), (2, 3, 4)]), L.free(f('Sin', s(4)))))
    m('irregular', 6, lambda L: L.loop([M(i(0), f('Sin', i(1)))], [(0, 3), (4, 1), (2, 5), (5, 0)]))
    m('repeated variable', 4, lambda L: L.loop([A(M(i(0), i(1)), s(0))], [(0, 1), (1, 2), (2, 3)]))
    m('missing equations', 8, lambda L: L.loop([M(i(0), i(1)), A(M(i(0), u(0)), 1.0), f('Sin', u(0))], [(0, 1), (2, 3), (4, 5), (6, 7)], utmps=[M(i(1), i(1))],
                                               missing={(1, 1), (3, 2)}))
    m('two loops', 7, lambda L: (L.loop([M(i(0), f('Cos', i(0)))], [(0,), (1,), (2,)]), L.loop([M(i(0), i(1))], [(3, 4), (5, 6)])))
    m('two loops with a shared variable', 6, lambda L: (L.loop([M(s(0), i(0))], [(1,), (2,), (3,)]), L.loop([A(M(s(0), s(0)), M(i(0), i(0)))], [(4,), (5,)])))
    m('linear', 4, lambda L: L.loop([A(M(2.0, i(0)), M(3.0, i(1)))], [(0, 1), (1, 2), (2, 3)]))
    m('plain copies', 4, lambda L: (L.loop([i(0)], [(0,), (1,), (2,)]), L.free(M(s(3), s(3)))))
    m('no repetition', 3, lambda L: (L.loop([M(i(0), i(1))], [(0, 1)]), L.loop([f('Sin', i(0))], [(2,)])))
    m('different equations declared related', 4, lambda L: (L.loop([M(i(0), i(1)), f('Sin', i(0)), M(i(1), i(0))], [(0, 1), (2, 3)], related='together')))
    m('squares', 4, lambda L: L.loop([M(i(0), i(0)), M(s(3), i(0))], [(0,), (1,), (2,)]))
    m('everything on one variable', 3, lambda L: L.loop([M(s(0), f('Sin', M(i(0), s(0))))], [(1,), (2,)]))
    m('condition', 5, lambda L: L.loop([('ComLt', i(0), s(0), M(i(0), i(0)), f('Sin', i(0)))], [(1,), (2,), (3,), (4,)]))
    m('backwards', 6, lambda L: L.loop([M(i(0), f('Sin', i(1)))], [(5, 0), (4, 1), (3, 2)]))
    m('mixed order of equations', 6, lambda L: (L.loop([M(i(0), i(1)), A(i(0), f('Exp', i(1)))], [(0, 1), (2, 3), (4, 5)])), [3, 0, 4, 1, 5, 2])
    m('shared by two loops', 6, lambda L: (L.loop([M(t(0), i(0))], [(2,), (3,), (4,)], tmps=[M(s(0), s(1))]), L.loop([A(t(0), f('Sin', i(0)))], [(4,), (5,)], tmps=[M(s(0), s(1))])))
    m('dense', 3, lambda L: L.loop([M(M(i(0), i(1)), i(2)), A(M(i(0), i(0)), i(2))], [(0, 1, 2), (1, 2, 0), (2, 0, 1)]))
    U = [M(i(0), f('Sin', i(0)))]
    three = [M(u(0), i(0)), A(f('Cos', u(0)), i(0)), f('Exp', u(0))]
    by_equation = lambda L: [r for sets in L.related for r in sorted(sets)]
    for name, miss in (('first equation missing', {(0, 0)}), ('two equations missing', {(0, 0), (0, 1)}), ('equations missing here and there', {(1, 0), (2, 1)}),
                       ('no complete iteration', {(0, 0), (1, 1), (2, 2), (3, 0)})):
        for k, order in (('', None), (' in blocks', by_equation)):
            L = Loops(4)
            L.loop(three, [(j,) for j in range(4)], utmps=U, missing=miss)
            out[name + k] = L.model(order and order(L))
    idx = [(j,) for j in range(2, 6)]
    m('constant places in some iterations', 6, lambda L: L.loop([M(M(u(0), s(0)), s(1)), A(f('Cos', u(0)), i(0))], idx, utmps=U, missing={(1, 0)}))
    m('temporaries in some iterations', 6, lambda L: L.loop([M(M(u(0), s(0)), t(0)), A(f('Cos', u(0)), M(s(1), i(0)))], idx, utmps=U, tmps=[M(f('Sin', s(0)), s(1))],
                                                            missing={(1, 0), (2, 1)}))
    m('temporary and a variable', 6, lambda L: L.loop([A(M(A(s(1), t(0)), M(s(1), M(i(0), t(0)))), i(0))], idx, tmps=[M(f('Sin', s(0)), s(0))]))
    m('terms that cancel', 6, lambda L: L.loop([M(i(0), f('Exp', s(0))), A(2.0, s(0))], idx[:3]))
    m('shared variable, some missing', 6, lambda L: L.loop([M(t(0), i(0)), A(t(0), M(i(0), i(0)))], idx, tmps=[M(s(0), s(1))], missing={(0, 0), (3, 1)}))
    return out


UN = ('Sin', 'Cos', 'Exp', 'UnMinus')


def random_model(seed):
    r = random.Random(9100 + seed)
    ns = r.randint(0, 2)                    # shared independents
    nt = r.randint(0, 2) if ns else 0       # shared temporaries
    L = None
    loops = []
    n = ns
    for _ in range(r.choice((1, 1, 2))):
        its = r.randint(2, 4)
        ni = r.randint(1, 3)
        kind = r.choice(('own', 'own', 'stencil', 'irregular'))
        if kind == 'own':
            idx = [tuple(n + it * ni + k for k in range(ni)) for it in range(its)]
            n += its * ni
        elif kind == 'stencil':
            idx = [tuple(n + it + k for k in range(ni)) for it in range(its)]
            n += its + ni - 1
        else:
            c = its + ni
            idx = [tuple(n + v for v in r.sample(range(c), ni)) for _ in range(its)]
            n += c
        nu = r.randint(0, 1)
        neq = r.randint(1, 3)
        loops.append((idx, ni, nu, neq, its))

    def leaf(ni, nu, nt):
        c = [('i', k) for k in range(ni)] * 2 + [('s', k) for k in range(ns)] + [('t', k) for k in range(nt)] + [('u', k) for k in range(nu)] + [1.5, 2.0]
        return r.choice(c)

    def tree(d, *a):
        if d == 0 or r.random() < 0.15:
            return leaf(*a)
        if r.random() < 0.3:
            e = tree(d - 1, *a)
            return (r.choice(UN), e) if isinstance(e, tuple) else e
        x, y = tree(d - 1, *a), tree(d - 1, *a)
        if not isinstance(x, tuple) and not isinstance(y, tuple):
            return x
        return (r.choice(('Add', 'Sub', 'Mul', 'Mul')), x, y)
    n = max(n, 1)
    L = Loops(n)
    tmps = []
    for k in range(nt):
        tmps.append((r.choice(('Mul', 'Add')), (r.choice(UN), ('s', r.randrange(ns))), ('s', r.randrange(ns))))
    for idx, ni, nu, neq, its in loops:
        ut = [(r.choice(('Mul', 'Add')), ('i', r.randrange(ni)), leaf(ni, 0, nt)) for _ in range(nu)]
        eqs = []
        for _ in range(neq):
            e = tree(r.randint(1, 3), ni, nu, nt)
            eqs.append(e if isinstance(e, tuple) else ('i', 0))
        miss = set()
        if r.random() < 0.35 and neq > 1:
            miss = {(r.randrange(its), r.randrange(neq)) for _ in range(r.choice((1, 1, 2, 3)))}
        L.loop(eqs, idx, tmps, ut, miss, 'by equation')
    for _ in range(r.choice((0, 0, 1, 2))):
        e = tree(2, 0, 0, nt) if ns else ('Mul', ('s', r.randrange(n)), ('s', r.randrange(n)))
        L.free(e if isinstance(e, tuple) else ('s', r.randrange(n)), tmps)
    order = list(range(len(L.rows)))
    how = r.random()
    if how < 0.3:
        r.shuffle(order)
    elif how < 0.5:         # equation by equation
        order = [k for s in L.related for k in sorted(s)]
        order += sorted(set(range(len(L.rows))) - set(order))
    return L.model(order)
