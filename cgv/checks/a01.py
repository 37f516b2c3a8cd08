"""A01: operations recorded for atomic functions have the value and the derivatives of the function."""
import itertools

from .. import facts
from ..absint import AMap, AStr, Cell, Interp, NULL, Obj, PathAbort, Vec
from ..cgmodel import Model, NS, NoMeaning, SEM1, SEM2, same
from ..facts import AnalysisError
from ..par import pmap
from ..world import World, make
from .m02 import UB
from .v01 import Rnd, identical, number, CONST

SPEC = {'technique': 'abstract interpretation of the recording of atomic functions (CGAbstractAtomicFun, CGAtomicFun, CGAtomicFunBridge) over enumerated '
                     'mixtures of variables, parameters and zeros; the recorded nodes are given the meaning which the generated code gives them and '
                     'compared with the Taylor coefficients and the adjoints of the function',
        'level': 'other',
        'assumptions': ['assertions compiled out (release configuration)', 'four polynomial functions of different shapes stand for any function',
                        'orders above one are not recorded by the code generator', 'the user supplied sparsity patterns are exact']}
CGN = NS + 'CG<double>'
SETS = 'std::set<unsigned long>'
CV = 'CppAD::vector'
ABS = NS + 'CGAbstractAtomicFun<double>'
ATOM = NS + 'CGAtomicFun<double>'
BRIDGE = NS + 'CGAtomicFunBridge<double>'
USER = 'CppAD::atomic_base<double>'


class Poly:
    """y_i = sum of c * product of x_j ** e_j"""

    def __init__(self, name, n, rows):
        self.name, self.n, self.rows, self.m = name, n, rows, len(rows)

    @staticmethod
    def diff(row, j):
        return [(c * e[j], tuple(v - (k == j) for k, v in enumerate(e))) for c, e in row if e[j]]

    @staticmethod
    def at(row, x):
        s = 0.0
        for c, e in row:
            for v, k in zip(x, e):
                c *= v ** k
            s += c
        return s

    def f(self, x):
        return [self.at(r, x) for r in self.rows]

    def jac(self, x):
        return [[self.at(self.diff(r, j), x) for j in range(self.n)] for r in self.rows]

    def hes(self, x):
        return [[[self.at(self.diff(self.diff(r, j), k), x) for k in range(self.n)] for j in range(self.n)] for r in self.rows]

    def jpat(self):
        return [frozenset(j for j in range(self.n) if self.diff(r, j)) for r in self.rows]

    def hpat(self, i):
        return [frozenset(k for k in range(self.n) if self.diff(self.diff(self.rows[i], j), k)) for j in range(self.n)]

    # Taylor coefficients and adjoints (order 0 and 1)
    def taylor(self, p, tx):
        p1 = p + 1
        x = tx[::p1]
        y = self.f(x)
        if p == 0:
            return y
        J, d = self.jac(x), tx[1::p1]
        return [v for i in range(self.m) for v in (y[i], sum(J[i][j] * d[j] for j in range(self.n)))]

    def adjoint(self, p, tx, py):
        p1 = p + 1
        x = tx[::p1]
        J = self.jac(x)
        if p == 0:
            return [sum(py[i] * J[i][j] for i in range(self.m)) for j in range(self.n)]
        H, d = self.hes(x), tx[1::p1]
        out = []
        for j in range(self.n):
            out.append(sum(py[2 * i] * J[i][j] + py[2 * i + 1] * sum(H[i][j][k] * d[k] for k in range(self.n)) for i in range(self.m)))
            out.append(sum(py[2 * i + 1] * J[i][j] for i in range(self.m)))
        return out


FUNS = [Poly('(x0^2 x1, 3 x1)', 2, [[(1., (2, 1))], [(3., (0, 1))]]),
        Poly('(x0 x2 + x1^3)', 3, [[(1., (1, 0, 1)), (1., (0, 3, 0))]]),
        Poly('(5, x^2, x^3)', 1, [[(5., (0,))], [(1., (2,))], [(1., (3,))]]),
        Poly('(x0, x1^2, x0 x1)', 2, [[(1., (1, 0))], [(1., (0, 2))], [(1., (1, 1))]])]
PT = [0.7, -1.3, 1.9, 0.4, -0.6, 1.1, 2.3, -0.9, 1.6, 0.3, -2.1, 0.8, 1.4, -1.7, 0.55]


class Wrong(Exception):
    pass


def cv(vals, t='double'):
    return Vec([Cell(v, t) for v in vals], t, CV)


def mkset(r):
    m = AMap('unsigned long', isset=True, kind='set')
    m.d = [[k, Cell(k, 'unsigned long')] for k in sorted(r)]
    return m


def asets(rows):
    return Vec([Cell(mkset(r), SETS) for r in rows], SETS, CV)


def members(v):
    if isinstance(v, AMap):
        return frozenset(k for k, _ in v.d)
    return frozenset(c.v for c in v.c)


def rows_of(v):
    return [members(c.v) for c in v.c]


def compose(A, B):
    return [frozenset(e for j in a for e in B[j]) for a in A]


def transpose(A, n):
    return [frozenset(i for i, r in enumerate(A) if j in r) for j in range(n)]


def val(r):
    return r.v if isinstance(r, Cell) else r


def fns(fx, cls, name, pred=None):
    r = [i for i in sorted(fx.by_cls.get(cls, ())) if fx.funcs[i]['n'] == name and i in fx.bodies and (pred is None or pred(fx.ptypes(i)))]
    if not r:
        raise AnalysisError('anchor not found: %s::%s' % (cls, name))
    return r


def user_hooks(fn, needs, log):
    """the function supplied by the user: results may be determined from what CppAD documents as inputs"""
    def off(given, want):
        return sum(1.0 if g is None or not same(float(g), w) else 0.0 for g, w in zip(given, want))

    def nums(c):
        v = [e.v for e in c.v.c]
        return v

    def fwd(it, f, this, args, line):
        q, p = args[0].v, args[1].v
        tx, ty = nums(args[4]), args[5].v.c
        log.append(('forward', q, p))
        if p > 1:
            return False
        if len(tx) != fn.n * (p + 1) or len(ty) != fn.m * (p + 1):
            raise Wrong('the function is evaluated with %d and %d coefficients' % (len(tx), len(ty)))
        w = fn.taylor(p, tx)
        bad = off([c.v for k, c in enumerate(ty) if k % (p + 1) < q], [e for k, e in enumerate(w) if k % (p + 1) < q]) if needs else 0.0
        for k, c in enumerate(ty):
            if k % (p + 1) >= q:
                c.v = w[k] + 1000. * bad
        return True

    def rev(it, f, this, args, line):
        p = args[0].v
        tx, ty, px, py = nums(args[1]), nums(args[2]), args[3].v.c, nums(args[4])
        log.append(('reverse', p))
        if p > 1:
            return False
        if len(tx) != fn.n * (p + 1) or len(px) != len(tx) or len(py) != fn.m * (p + 1) or len(ty) != len(py):
            raise Wrong('the function is evaluated in reverse mode with %d, %d, %d and %d coefficients' % (len(tx), len(ty), len(px), len(py)))
        bad = off(ty, fn.taylor(p, tx)) if needs else 0.0
        for c, e in zip(px, fn.adjoint(p, tx, py)):
            c.v = e + 1000. * bad
        return True
    h = {'CppAD::atomic_base::forward': fwd, 'CppAD::atomic_base::reverse': rev}
    J = fn.jpat()

    def point(name, c):
        log.append((name, tuple(nums(c))))

    def isset(v):
        return 'set' in str(v.et)

    def put(v, rows):
        if len(v.c) % len(rows) or isset(v) and len(v.c) != len(rows):
            raise Wrong('a vector of %d elements is provided for a pattern with %d rows' % (len(v.c), len(rows)))
        if isset(v):
            for c, r in zip(v.c, rows):
                c.v = mkset(r)
        else:
            q = len(v.c) // max(len(rows), 1)
            for i, r in enumerate(rows):
                for k in range(q):
                    v.c[i * q + k].v = k in r

    def get(v, n, q):
        if len(v.c) != (n if isset(v) else n * q):
            raise Wrong('a pattern of %d elements is provided for a %d by %d matrix' % (len(v.c), n, q))
        if isset(v):
            r = rows_of(v)
            if any(k >= q for e in r for k in e):
                raise Wrong('the pattern %s has elements beyond column %d' % ([sorted(e) for e in r], q - 1))
            return r
        return [frozenset(k for k in range(q) if v.c[i * q + k].v) for i in range(n)]

    def fsj(it, f, this, args, line):
        q = args[0].v
        if len(args) > 3:
            point('for_sparse_jac', args[3])
        put(args[2].v, compose(J, get(args[1].v, fn.n, q)))
        return True

    def rsj(it, f, this, args, line):
        q = args[0].v
        if len(args) > 3:
            point('rev_sparse_jac', args[3])
        put(args[2].v, compose(transpose(J, fn.n), get(args[1].v, fn.m, q)))
        return True

    def rsh(it, f, this, args, line):
        vx, s, t, q, r, u, v = [a.v for a in args[:7]]
        if len(args) > 7:
            point('rev_sparse_hes', args[7])
        s = [bool(c.v) for c in s.c]
        if len(s) != fn.m or len(t.c) != fn.n or len(vx.c) != fn.n:
            raise Wrong('vectors of %d, %d and %d elements are provided for vx, s and t' % (len(vx.c), len(s), len(t.c)))
        H = [frozenset().union(*(fn.hpat(i)[j] for i in range(fn.m) if s[i])) for j in range(fn.n)]
        R, U = get(r, fn.n, q), get(u, fn.m, q)
        put(v, [a | b for a, b in zip(compose(transpose(J, fn.n), U), compose(H, R))])
        for j, c in enumerate(t.c):
            c.v = any(s[i] and j in J[i] for i in range(fn.m))
        return True
    h.update({'CppAD::atomic_base::for_sparse_jac': fsj, 'CppAD::atomic_base::rev_sparse_jac': rsj, 'CppAD::atomic_base::rev_sparse_hes': rsh})
    return h


def tape_hooks(fn):
    """the operation sequence (CppAD::ADFun) behind a bridge, with the behaviour documented by CppAD"""
    J = fn.jpat()
    st = {'forward': None, 'pattern': None, 'order': -1}

    def nums(r, c):
        out = []
        for e in c.v.c:
            m, v = r.value(e)
            if v is None:
                raise Wrong('the operation sequence is evaluated with a number without value')
            out.append(v)
        return out

    def bind(r):
        def vec(like, vals, t):
            return Vec([Cell(v, t) for v in vals], t, like.v.kind)

        def cgs(like, vals):
            return Vec([Cell(r.m.cg(None, v), CGN) for v in vals], CGN, like.v.kind)

        def forward(it, f, this, args, line):
            q, xq = args[0].v, nums(r, args[1])
            if q > 1:
                raise Wrong('order %d' % q)
            if len(xq) == fn.n * (q + 1):
                tx = xq
            elif len(xq) == fn.n and q == 1 and st['order'] >= 0:
                tx = [v for a, b in zip(st['forward'][::st['p1']], xq) for v in (a, b)]
            else:
                raise Wrong('the operation sequence is evaluated with %d coefficients' % len(xq))
            y = fn.taylor(q, tx)
            st['forward'], st['order'], st['p1'] = tx, q, q + 1
            return cgs(args[1], y if len(xq) == len(tx) else y[1::2])

        def reverse(it, f, this, args, line):
            q, w = args[0].v, nums(r, args[1])
            if st['order'] < q - 1:
                raise Wrong('reverse mode of the operation sequence before the coefficients of order %d' % (q - 1))
            if q > 2:
                raise Wrong('order %d' % q)
            tx = [v for k, v in enumerate(st['forward']) if k % st['p1'] < q]
            if len(w) == fn.m and q == 2:
                w = [v for e in w for v in (0.0, e)]
            if len(w) != fn.m * q:
                raise Wrong('reverse mode with %d coefficients' % len(w))
            return cgs(args[1], fn.adjoint(q - 1, tx, w))

        def capacity(it, f, this, args, line):
            if st['order'] >= args[0].v:
                st['order'] = args[0].v - 1

        def isset(v):
            return 'set' in str(v.et)

        def get(v, n, q):
            if isset(v):
                return rows_of(v)
            return [frozenset(k for k in range(q) if v.c[i * q + k].v) for i in range(n)]

        def give(like, rows, q):
            if isset(like.v):
                return Vec([Cell(mkset(e), SETS) for e in rows], SETS, like.v.kind)
            return vec(like, [k in e for e in rows for k in range(q)], 'bool')

        def fsj(it, f, this, args, line):
            q = args[0].v
            if len(args) > 2 and val(args[2]) or len(args) > 3 and val(args[3]):
                raise PathAbort('transposed or dependency patterns')
            R = get(args[1].v, fn.n, q)
            if len(R) != fn.n:
                raise Wrong('a pattern with %d rows' % len(R))
            st['pattern'] = (q, R)
            return give(args[1], compose(J, R), q)

        def rsj(it, f, this, args, line):
            q, tr = args[0].v, len(args) > 2 and val(args[2])
            if len(args) > 3 and val(args[3]):
                raise PathAbort('dependency patterns')
            if tr:
                rows = get(args[1].v, fn.m, q)
                if len(rows) != fn.m:
                    raise Wrong('a pattern with %d rows' % len(rows))
                return give(args[1], compose(transpose(J, fn.n), rows), q)
            rows = get(args[1].v, q, fn.m)
            if len(rows) != q:
                raise Wrong('a pattern with %d rows' % len(rows))
            return give(args[1], compose(rows, J), fn.n)

        def rsh(it, f, this, args, line):
            q, tr = args[0].v, len(args) > 2 and val(args[2])
            s = get(args[1].v, 1, fn.m)[0]
            if st['pattern'] is None or st['pattern'][0] != q:
                raise Wrong('the Hessian pattern is requested without the corresponding forward pattern')
            R = st['pattern'][1]
            H = [frozenset().union(*(fn.hpat(i)[j] for i in s)) for j in range(fn.n)]
            rows = compose(H, R)
            return give(args[1], rows, q) if tr else give(args[1], transpose(rows, q), fn.n)

        def forget(it, f, this, args, line):
            if val(args[0]) == 0:
                st['pattern'] = None
        d = {'Forward': forward, 'Reverse': reverse, 'capacity_order': capacity, 'size_forward_set': forget, 'size_forward_bool': forget,
             'ForSparseJac': fsj, 'RevSparseJac': rsj, 'RevSparseHes': rsh, 'Domain': lambda *a: fn.n, 'Range': lambda *a: fn.m}
        return {'CppAD::ADFun::' + k: v for k, v in d.items()}
    return bind


class Rec:
    """a session with an atomic function"""

    def __init__(self, x, it, fn, alone, needs=True, bridge=None):
        self.x, self.it, self.fn, self.m = x, it, fn, x.m
        self.log = []
        if bridge is None:
            it.hooks.update(user_hooks(fn, needs, self.log))
        else:
            it.hooks.update(tape_hooks(fn)(self))
        it.hooks['CppAD::atomic_base::atomic_base'] = lambda *a: None
        it.hooks['CppAD::atomic_base::option'] = lambda *a: None
        it.hooks['CppAD::atomic_base::atomic_name'] = lambda *a: AStr(('user',))
        it.hooks['CppAD::Value'] = lambda it, f, this, args, line: args[0].v
        self.w = World(it, model=self.m)
        self.user = Cell(Obj(USER, tag='user'), USER)
        self.xs = [PT[-1 - j] for j in range(fn.n)]
        if bridge is None:
            self.a = make(it, ATOM, [self.user, Cell(cv(self.xs)), Cell(alone, 'bool')],
                          pred=lambda p: len(p) == 3 and 'CppAD::vector' in p[1])
        else:
            tape = Cell(Obj('CppAD::ADFun<CppAD::cg::CG<double>>', tag='tape'), 'CppAD::ADFun<CppAD::cg::CG<double>>')
            self.a = make(it, BRIDGE, [Cell(AStr(('user',))), tape, Cell(alone, 'bool'), Cell(bridge, 'bool')], pred=lambda p: len(p) == 4)
        self.env = {}
        self.memo = {}

    def var(self, v, valued):
        c = self.w.indep(1)[0]
        n = self.w.nodeof(c)
        n.tag = 'x%d' % len(self.env)
        self.env[n.tag] = v
        if valued:
            self.it.call(self.x.setval, c, [Cell(v, 'double')])
        return c

    def make(self, kinds, vals, valued):
        """v: variable with a value; u: variable without; p: parameter; 0: zero"""
        out = []
        for k, v in zip(kinds, vals):
            if k == 'v':
                out.append(self.var(v, True))
            elif k == 'u':
                out.append(self.var(v, False))
            else:
                out.append(Cell(self.m.cg(None, 0.0 if k == '0' else v), CGN))
        return out

    def vector(self, cells):
        return Vec([Cell(self.it.copy(c.v), CGN) for c in cells], CGN, CV)

    def blank(self, n):
        return Vec([Cell(self.m.cg(None, 0.0), CGN) for _ in range(n)], CGN, CV)

    def forward(self, q, p, tx, ty, vx=()):
        ty, vy = self.vector(ty), cv([False] * (self.fn.m if vx else 0), 'bool')
        r = val(self.it.call(self.x.fwd, self.a, [Cell(q, 'size_t'), Cell(p, 'size_t'), Cell(cv(vx, 'bool')), Cell(vy), Cell(self.vector(tx)), Cell(ty)]))
        if r is not True:
            raise Wrong('forward of orders %d to %d reports failure' % (q, p))
        return ty.c, [bool(c.v) for c in vy.c]

    def reverse(self, p, tx, ty, py):
        px = Vec([Cell(self.m.cg(None, 17.5), CGN) for _ in tx], CGN, CV)
        r = val(self.it.call(self.x.rev, self.a, [Cell(p, 'size_t'), Cell(self.vector(tx)), Cell(self.vector(ty)), Cell(px), Cell(self.vector(py))]))
        if r is not True:
            raise Wrong('reverse of order %d reports failure' % p)
        return px.c

    # ---- the meaning of the recorded operations in the generated code ------------------------------
    def value(self, c):
        """meaning of a scalar, its known value"""
        it = self.it
        n = it.field(c, self.m.cg_node).v
        vp = it.field(c, self.m.cg_val).v.f['p'].v
        v = it.deref(vp).v if vp is not NULL else None
        if n is NULL:
            v = 0.0 if v is None else v
            return v, v
        return self.node(it.deref(n).v), v

    def arg(self, a):
        n = a.f[self.m.a_node].v if self.m.a_node in a.f else NULL
        if n is not NULL and n is not None:
            return self.node(self.it.deref(n).v)
        return self.it.deref(a.f[self.m.a_par].v.f['p'].v).v

    def parts(self, n):
        return self.m.opname.get(n.f[self.m.n_op].v), [c.v for c in n.f[self.m.n_args].v.c], [c.v for c in n.f[self.m.n_info].v.c]

    def sub(self, a):
        n = a.f[self.m.a_node].v
        if n is NULL or n is None:
            raise Wrong('a number is used in place of an array or of an evaluation')
        return self.it.deref(n).v

    def array(self, n, size):
        op, args, info = self.parts(n)
        if op == 'ArrayCreation':
            if len(args) != size:
                raise Wrong('an array has %d elements instead of %d' % (len(args), size))
            return [self.arg(a) for a in args]
        if op == 'SparseArrayCreation':
            if info[:1] != [size] or len(args) != len(info) - 1 or len(set(info[1:])) != len(args) or any(not 0 <= k < size for k in info[1:]):
                raise Wrong('a sparse array has size and indexes %s for %d elements out of %d' % (info, len(args), size))
            r = [0.0] * size
            for k, a in zip(info[1:], args):
                r[k] = self.arg(a)
            return r
        raise Wrong('an array is made by operation %s' % op)

    def node(self, n):
        if id(n) not in self.memo:
            self.memo[id(n)] = (n, self.node_(n))
        return self.memo[id(n)][1]

    def node_(self, n):
        if n.tag:
            return self.env[n.tag]
        op, args, info = self.parts(n)
        if op in SEM1 and len(args) == 1:
            return SEM1[op](self.arg(args[0]))
        if op in SEM2 and len(args) == 2:
            return SEM2[op](self.arg(args[0]), self.arg(args[1]))
        if op == 'ArrayElement':
            return self.element(self.sub(args[0]), self.sub(args[1]), info[0])
        raise NoMeaning('operation %s' % op)

    def element(self, arr, call, i):
        op, args, info = self.parts(call)
        fn = self.fn
        if op not in ('AtomicForward', 'AtomicReverse'):
            raise Wrong('an element of an array is changed by operation %s' % op)
        if info[0] not in self.registered():
            raise Wrong('the function (%s) used by an operation is not registered' % info[0])
        p = info[-1]
        p1 = p + 1
        if len(args) != p1 * (2 if op == 'AtomicForward' else 4):
            raise Wrong('operation %s of order %d with %d arguments' % (op, p, len(args)))
        a = [self.sub(v) for v in args]
        kind = [self.parts(v)[0] for v in a]
        if kind[0] != 'ArrayCreation' or p and kind[1] != 'SparseArrayCreation':
            raise Wrong('the generator refuses these arrays of tx: %s' % kind[:p1])
        t = [self.array(v, fn.n) for v in a[:p1]]
        for k, v in enumerate(a[p1:]):
            self.array(v, fn.n if k // p1 == 1 else fn.m)
        tx = [t[k][j] for j in range(fn.n) for k in range(p1)]
        out = a[2 * p1 - 1] if op == 'AtomicForward' else a[2 * p1]
        size = fn.m if op == 'AtomicForward' else fn.n
        if out is not arr:
            # the evaluation does not provide anything for the other arrays
            if self.parts(arr)[0] != 'ArrayCreation':
                raise Wrong('an element of an empty array is used')
            return self.array(arr, size)[i]
        if self.parts(out)[0] != 'ArrayCreation' or len(self.parts(out)[1]) != size:
            raise Wrong('the array of results is not a dense array of %d elements' % size)
        if not 0 <= i < size:
            raise Wrong('element %d of %d' % (i, size))
        if op == 'AtomicForward':
            return fn.taylor(p, tx)[i * p1 + p]
        if kind[3 * p1] != 'SparseArrayCreation' or p and kind[3 * p1 + 1] != 'ArrayCreation':
            raise Wrong('the generator refuses these arrays of py: %s' % kind[3 * p1:])
        if p and self.parts(a[3 * p1])[1]:
            raise Wrong('compiled models refuse a reverse mode of order %d with zero order adjoints' % p)
        y = [self.array(v, fn.m) for v in a[3 * p1:]]
        return fn.adjoint(p, tx, [y[k][j] for j in range(fn.m) for k in range(p1)])[i * p1]

    def registered(self):
        m = val(self.w.call('getAtomicFunctions', [], nparams=0))
        d = {}
        for k, c in m.d:
            p = c.v
            if self.it.deref(p).v is not self.a.v:
                raise Wrong('another function is registered')
            d[k] = 1
        return d

    def points(self, vals, known):
        """patterns are determined where the function is evaluated"""
        want = tuple(vals if known else self.xs)
        for e in self.log:
            if e[0] in ('for_sparse_jac', 'rev_sparse_jac', 'rev_sparse_hes') and len(e[1]) and e[1] != want:
                raise Wrong('the pattern (%s) is determined at %s instead of %s' % (e[0], e[1], want))

    def judge(self, what, got, want, known):
        for k, (c, w) in enumerate(zip(got, want)):
            if w is None:
                continue
            m, v = self.value(c)
            if m is None or not same(float(m), w):
                raise Wrong('%s [%d] is %r instead of %r' % (what, k, m, w))
            if v is None and known:
                raise Wrong('%s [%d] has no value although all operands have' % (what, k))
            if v is not None and not same(float(v), w):
                raise Wrong('the known value of %s [%d] is %r instead of %r' % (what, k, v, w))
        if len(got) != len(want):
            raise Wrong('%s has %d elements instead of %d' % (what, len(got), len(want)))


class A:
    def __init__(self, fx):
        self.fx, self.m = fx, Model(fx)
        self.fwd, self.rev = fns(fx, ABS, 'forward')[0], fns(fx, ABS, 'reverse')[0]
        self.setval = fns(fx, self.m.CG, 'setValue', lambda p: len(p) == 1)[0]
        self.visited = set()

    def explore(self, body):
        hooks = {'CppAD::IdenticalZero': identical(0.0), 'CppAD::IdenticalOne': identical(1.0)}
        hooks.update({p + f: number(g) for p in ('', 'std::', 'CppAD::') for f, g in CONST.items()})
        it = Interp(self.fx, hooks=hooks, max_paths=4, max_steps=4000000)

        def top(i):
            try:
                return body(i)
            except Wrong as e:
                return str(e)
        r = it.explore(top)
        self.visited |= it.visited
        if len(r) != 1:
            return 'unk', 'several paths: %s' % (it.conds[:2],)
        o = r[0]
        if o[0] == 'abort':
            return 'bad' if UB.search(str(o[1])) else 'unk', str(o[1])
        if o[0] == 'throw':
            return 'bad', 'an exception is thrown: %s' % (o[1],)
        return ('ok', None) if o[1] is None else ('bad', o[1])

    # ---- forward / reverse -------------------------------------------------------------------------
    def coefficients(self, kinds, at=0):
        return [0.0 if k == '0' else PT[(at + j) % len(PT)] for j, k in enumerate(kinds)]

    def forward(self, c):
        fi, q, p, kinds, alone, vx = c[:6]
        fn = FUNS[fi]

        def body(it):
            r = Rec(self, it, fn, alone, not alone, *c[6:])
            vals = self.coefficients(kinds)
            tx = r.make(kinds, vals, True)
            p1 = p + 1
            ty = r.blank(fn.m * p1).c
            if q == 1:
                y0, _ = r.forward(0, 0, tx[::p1], r.blank(fn.m).c)
                for i in range(fn.m):
                    ty[i * p1] = y0[i]
            got, vy = r.forward(q, p, tx, ty, vx)
            want = [e if k % p1 >= q else None for k, e in enumerate(fn.taylor(p, vals))]
            r.judge('ty', got, want, 'u' not in kinds)
            r.points(vals[::p1], 'u' not in kinds[::p1])
            if vx:
                wvy = [any(vx[j] for j in e) for e in fn.jpat()]
                if vy != wvy:
                    raise Wrong('the variables among the results are %s instead of %s' % (vy, wvy))
        return self.explore(body)

    def reverse(self, c):
        fi, p, kinds, ykinds, alone = c[:5]
        fn = FUNS[fi]

        def body(it):
            r = Rec(self, it, fn, alone, not alone, *c[5:])
            vals, yvals = self.coefficients(kinds), self.coefficients(ykinds, 6)
            tx, py = r.make(kinds, vals, True), r.make(ykinds, yvals, True)
            p1 = p + 1
            ty, _ = r.forward(0, 0, tx[::p1], r.blank(fn.m).c)
            if p:
                t = r.blank(fn.m * p1).c
                for i in range(fn.m):
                    t[i * p1] = ty[i]
                t2, _ = r.forward(1, 1, tx, t)
                for i in range(fn.m):
                    t[i * p1 + 1] = t2[i * p1 + 1]
                ty = t
            got = r.reverse(p, tx, ty, py)
            r.judge('px', got, fn.adjoint(p, vals, yvals), 'u' not in kinds + ykinds)
            r.points(vals[::p1], 'u' not in kinds[::p1])
        return self.explore(body)

    # ---- patterns of bridges, requested several times ----------------------------------------------
    def bridge(self, c):
        fi, cache, steps = c
        fn = FUNS[fi]

        def body(it):
            r = Rec(self, it, fn, False, True, cache)
            J, H = list(fn.jpat()), [fn.hpat(i) for i in range(fn.m)]
            zeros = Cell(r.blank(fn.n))
            for s in steps:
                what = s[0]
                if what == 'jacobian elements':
                    keep = s[2]
                    r.x.custom(r, 'setCustomSparseJacobianElements', s[1], [(i, j) for i in range(fn.m) for j in keep[i]], fn.m)
                    J = [e & keep[i] for i, e in enumerate(fn.jpat())]
                elif what == 'hessian elements':
                    keep = s[2]
                    r.x.custom(r, 'setCustomSparseHessianElements', s[1], [(i, j) for i in range(fn.n) for j in keep[i]], fn.n)
                    H = [[e & keep[j] for j, e in enumerate(fn.hpat(i))] for i in range(fn.m)]
                else:
                    r.x.ask(r, s, J, H, zeros)
        return self.explore(body)

    def custom(self, r, name, style, el, rows):
        def pick(p):
            if style == 'sets':
                return len(p) == 1
            return len(p) == 2
        f = fns(self.fx, BRIDGE, name, pick)[0]
        t = self.fx.ptypes(f)[0]
        kind = 'CppAD::vector' if t.startswith(('CppAD::vector', 'const CppAD::vector')) else 'std::vector'
        if style == 'sets':
            v = asets([[j for i, j in el if i == k] for k in range(rows)])
            v.kind = kind
            args = [Cell(v)]
        else:
            args = [Cell(Vec([Cell(e[k], 'unsigned long') for e in el], 'unsigned long', kind)) for k in (0, 1)]
        r.it.call(f, r.a, args)

    def identity(self, c):
        """every function has an identifier of its own"""
        n, bridge = c

        def body(it):
            made = []
            for k in range(n):
                made.append(Rec(self, it, FUNS[k % len(FUNS)], False, True, k % 2 == 0 if bridge else None).a)
            f = [i for i in sorted(self.fx.by_cls[ABS]) if self.fx.funcs[i]['n'] == 'getId'][0]
            ids = [val(it.call(f, a, [])) for a in made]
            if len(set(ids)) != n:
                raise Wrong('the identifiers of %d functions are %s' % (n, ids))
        return self.explore(body)

    def ask(self, r, s, J, H, zeros):
        fn, it = r.fn, r.it
        name, Q = s[0], s[1]
        JT = transpose(J, fn.n)
        old = frozenset(range(Q))
        f = [i for i in fns(self.fx, BRIDGE, name) if len(self.fx.ptypes(i)) == (4 if name != 'rev_sparse_hes' else 8)][0]
        if name == 'rev_sparse_hes':
            S, R, U = s[2:]
            t, v = cv([True] * fn.n, 'bool'), asets([old] * fn.n)
            args = [cv([True] * fn.n, 'bool'), cv(S, 'bool'), t, Q, asets(R), asets(U), v]
            Hs = [frozenset().union(*(H[i][j] for i in range(fn.m) if S[i])) for j in range(fn.n)]
            n, want = fn.n, [a | b for a, b in zip(compose(JT, U), compose(Hs, R))]
        elif name == 'for_sparse_jac':
            v = asets([old] * fn.m)
            args = [Q, asets(s[2]), v]
            n, want = fn.m, compose(J, s[2])
        else:
            v = asets([old] * fn.n)
            args = [Q, asets(s[2]), v]
            n, want = fn.n, compose(JT, s[2])
        if val(it.call(f, r.a, [Cell(a) for a in args] + [zeros])) is not True:
            raise Wrong('%s is reported as not implemented' % name)
        got = rows_of(v)
        if got != want:
            raise Wrong('%s with %s: the pattern is %s instead of %s' % (name, [[sorted(e) for e in a] if isinstance(a, list) and a and isinstance(a[0], frozenset) else a
                                                                            for a in s[2:]], [sorted(e) for e in got], [sorted(e) for e in want]))
        if name == 'rev_sparse_hes':
            w = [any(S[i] and j in J[i] for i in range(fn.m)) for j in range(fn.n)]
            if [bool(e.v) for e in t.c] != w:
                raise Wrong('rev_sparse_hes: the adjoints which may be non-zero are %s instead of %s' % ([bool(e.v) for e in t.c], w))

    # ---- the points at which sparsity patterns are determined, and the overloads --------------------
    def overloads(self, c):
        fi, name, f, kinds = c
        fn = FUNS[fi]
        ps = self.fx.ptypes(f)

        def body(it):
            r = Rec(self, it, fn, False)
            vals = self.coefficients(kinds)
            x = r.make(kinds, vals, True)
            Q = 2
            bools = any('vector<bool>' in p for p in ps[1:3]) if name != 'rev_sparse_hes' else 'vector<bool>' in ps[4]
            pack = (lambda rows: cv([k in e for e in rows for k in range(Q)], 'bool')) if bools else asets
            unpack = (lambda v, n: [frozenset(k for k in range(Q) if v.c[i * Q + k].v) for i in range(n)]) if bools else (lambda v, n: rows_of(v))
            R = [frozenset([j % 2]) | frozenset([1] if j == 2 else []) for j in range(fn.n)]
            U = [frozenset([(i + 1) % 2]) for i in range(fn.m)]
            J, JT = fn.jpat(), transpose(fn.jpat(), fn.n)
            old = frozenset(range(Q))
            del r.log[:]
            if name == 'rev_sparse_hes':
                S = [i % 2 == 0 for i in range(fn.m)]
                t, v = cv([True] * fn.n, 'bool'), pack([old] * fn.n)
                args = [cv([True] * fn.n, 'bool'), cv(S, 'bool'), t, Q, pack(R), pack(U), v]
                H = [frozenset().union(*(fn.hpat(i)[j] for i in range(fn.m) if S[i])) for j in range(fn.n)]
                out = [(v, fn.n, [a | b for a, b in zip(compose(JT, U), compose(H, R))])]
                flags = (t, [any(S[i] and j in J[i] for i in range(fn.m)) for j in range(fn.n)])
            else:
                fw = name == 'for_sparse_jac'
                s = pack([old] * (fn.m if fw else fn.n))
                args = [Q, pack(R if fw else U), s]
                out = [(s, fn.m if fw else fn.n, compose(J, R) if fw else compose(JT, U))]
                flags = None
            args = [Cell(a) for a in args]
            at = len(ps) > len(args)
            if at:
                args.append(Cell(r.vector(x)))
            ok = val(it.call(f, r.a, args))
            if ok is not True:
                raise Wrong('reported as not implemented')
            for v, n, w in out:
                if unpack(v, n) != w:
                    raise Wrong('the pattern is %s instead of %s' % ([sorted(e) for e in unpack(v, n)], [sorted(e) for e in w]))
            if flags and [bool(e.v) for e in flags[0].c] != flags[1]:
                raise Wrong('the equations reported are %s instead of %s' % ([bool(e.v) for e in flags[0].c], flags[1]))
            if at:
                want = tuple(r.xs if 'u' in kinds else vals)
                pts = [e[1] for e in r.log if e[0] == name]
                if any(e != want for e in pts):
                    raise Wrong('the pattern is determined at %s instead of %s' % (pts, want))
        return self.explore(body)

    def whole(self, c):
        """patterns used to find the atomic functions on which results depend"""
        fi, name, f, kinds, S = c
        fn = FUNS[fi]

        def body(it):
            r = Rec(self, it, fn, False)
            x = r.make(kinds, self.coefficients(kinds), True)
            J = fn.jpat()
            if name == 'hessianSparsitySet':
                s = [True] * fn.m if S is None else list(S)
                a = [Cell(fn.m, 'size_t')] if S is None else [Cell(cv(s, 'bool'))]
                want = [frozenset().union(*(fn.hpat(i)[j] for i in range(fn.m) if s[i])) for j in range(fn.n)]
            else:
                a, want = [Cell(fn.m, 'size_t')], J
            got = rows_of(val(it.call(f, r.a, a + [Cell(r.vector(x))])))
            if got != want:
                raise Wrong('the pattern is %s instead of %s' % ([sorted(e) for e in got], [sorted(e) for e in want]))
        return self.explore(body)


def show(kinds):
    return ','.join({'v': 'variable', 'u': 'variable without value', 'p': 'parameter', '0': 'zero'}[k] for k in kinds)


def forward_cases(thorough):
    rnd = Rnd(3)
    out = []
    for fi, fn in enumerate(FUNS):
        n = fn.n
        for alone in (False, True):
            for k in itertools.product('vup', repeat=n):
                out.append((fi, 0, 0, k, alone, ()))
                for vx in itertools.product((False, True), repeat=n):
                    out.append((fi, 0, 0, k, alone, vx))
        all1 = list(itertools.product('vup', *(['vup0'] + ['vup', 'vup0'] * (n - 1)))) if n == 1 else \
            [tuple(rnd.pick('vup' if i % 2 == 0 else 'vup0') for i in range(2 * n)) for _ in range(260 if thorough else 60)]
        # all values known: mixtures of variables, parameters and zeros
        known = list(itertools.product(*(['vp', 'vp0'] * n)))
        known = known if thorough or len(known) <= 36 else [rnd.pick(known) for _ in range(60)]
        for k in all1 + known:
            for q in (0, 1):
                out.append((fi, q, 1, tuple(k), rnd(2) == 1, ()))
    return list(dict.fromkeys(out))


def reverse_cases(thorough):
    rnd = Rnd(7)
    out = []
    for fi, fn in enumerate(FUNS):
        for _ in range(500 if thorough else 150):
            k = tuple(rnd.pick('vp' if rnd(3) else 'vup') for _ in range(fn.n))
            y = tuple(rnd.pick('vp0' if rnd(3) else 'vup0') for _ in range(fn.m))
            out.append((fi, 0, k, y, rnd(2) == 1))
        for _ in range(900 if thorough else 220):
            odd = rnd(3) == 0
            k = tuple(rnd.pick(('vup' if odd else 'vp') + ('0' if i % 2 else '')) for i in range(2 * fn.n))
            y = tuple(rnd.pick('vup0' if odd else 'vp0') for _ in range(2 * fn.m))
            if rnd(4) == 0:  # adjoints of a single order only
                z = rnd(2)
                y = tuple('0' if i % 2 == z else e for i, e in enumerate(y))
            out.append((fi, 1, k, y, rnd(2) == 1))
    return list(dict.fromkeys(out))


def plain(e):
    return [plain(v) for v in e] if isinstance(e, (list, tuple)) else sorted(e) if isinstance(e, frozenset) else e


def bridge_cases(thorough):
    rnd = Rnd(11)
    out = []

    def rows(n, q, full=False):
        k = rnd(4)
        if k == 0 and n == q:
            return [frozenset([i]) for i in range(n)]
        if k == 1:
            return [frozenset(j for j in range(q) if rnd(2)) if rnd(3) == 0 else frozenset() for _ in range(n)]
        return [frozenset(j for j in range(q) if rnd(2)) for _ in range(n)]

    def query(fn):
        name = rnd.pick(('for_sparse_jac', 'rev_sparse_jac', 'rev_sparse_hes', 'rev_sparse_hes'))
        q = rnd.pick((1, 2, fn.n, fn.m))
        if name == 'for_sparse_jac':
            return name, q, rows(fn.n, q)
        if name == 'rev_sparse_jac':
            return name, q, rows(fn.m, q)
        S = [True] * fn.m if rnd(3) == 0 else [rnd(2) == 1 for _ in range(fn.m)]
        return name, q, S, rows(fn.n, q), rows(fn.m, q)

    def custom(fn):
        if rnd(2):
            keep = [frozenset(j for j in range(fn.n) if rnd(3)) for _ in range(fn.m)]
            return 'jacobian elements', rnd.pick(('sets', 'indexes')), keep
        pairs = {(a, b) for a in range(fn.n) for b in range(a, fn.n) if rnd(3)}
        keep = [frozenset(j for j in range(fn.n) if (min(i, j), max(i, j)) in pairs) for i in range(fn.n)]
        return 'hessian elements', rnd.pick(('sets', 'indexes')), keep
    for fi, fn in enumerate(FUNS):
        for k in range(240 if thorough else 70):
            steps = []
            for _ in range(5):
                if k % 3 and rnd(4) == 0:
                    steps.append(custom(fn))
                steps.append(query(fn))
            out.append((fi, k % 2 == 0, tuple(steps)))
        for style in ('sets', 'indexes'):
            for _ in range(6):
                S = [rnd(2) == 1 for _ in range(fn.m)]
                S[rnd(fn.m)] = True
                ask = ('rev_sparse_hes', fn.n, S, [frozenset([i]) for i in range(fn.n)], [frozenset()] * fn.m)
                for cache in (False, True):
                    steps = [ask]
                    for _ in range(3):
                        c = custom(fn)
                        steps += [(c[0], style, c[2]), ask]
                    out.append((fi, cache, tuple(steps)))
    return out


def spread(x, f, items):
    def one(part):
        x.visited = set()
        return [(c, f(c)) for c in part], x.visited
    parts = [items[i::64] for i in range(64) if items[i::64]]
    out = []
    for r, v in pmap(one, parts):
        out += r
        x.visited |= v
    return out


def run(ctx):
    fx = facts.facts('main')
    x = A(fx)

    def note(rule, items, f, name, where):
        for c, (st, msg) in spread(x, f, items):
            ctx.count('abstract paths')
            key = name(c)
            if st == 'ok':
                ctx.ok(rule, key)
            elif st == 'bad':
                ctx.bad(rule, key, where(c), '%s: %s' % (key, msg))
            else:
                ctx.unk(rule, '%s: %s' % (key, msg))
    note('forward', forward_cases(ctx.thorough), x.forward,
         lambda c: 'forward %d to %d of %s%s, tx = %s%s' % (c[1], c[2], FUNS[c[0]].name, ' (stand-alone)' if c[4] else '', show(c[3]), ', variables %s' % (c[5],) if c[5] else ''),
         lambda c: fx.loc(x.fwd))
    note('reverse', reverse_cases(ctx.thorough), x.reverse,
         lambda c: 'reverse %d of %s%s, tx = %s, py = %s' % (c[1], FUNS[c[0]].name, ' (stand-alone)' if c[4] else '', show(c[2]), show(c[3])),
         lambda c: fx.loc(x.rev))
    items = []
    for fi, fn in enumerate(FUNS):
        for name in ('for_sparse_jac', 'rev_sparse_jac', 'rev_sparse_hes'):
            for f in fns(fx, ATOM, name):
                for k in ('v' * fn.n, 'p' * fn.n, 'v' * (fn.n - 1) + 'u', 'u' * fn.n):
                    items.append((fi, name, f, tuple(k)))
    note('patterns', items, x.overloads, lambda c: '%s of %s (%s), x = %s' % (c[1], FUNS[c[0]].name, ', '.join(fx.ptypes(c[2])), show(c[3])), lambda c: fx.loc(c[2]))
    items = []
    for fi, fn in enumerate(FUNS):
        for name in ('jacobianForwardSparsitySet', 'jacobianReverseSparsitySet', 'hessianSparsitySet'):
            for f in fns(fx, ABS, name):
                sel = 'CppAD::vector<bool>' in fx.ptypes(f)[0]
                for S in (itertools.product((False, True), repeat=fn.m) if sel else [None]):
                    items.append((fi, name, f, ('v',) * fn.n, S))
    note('patterns', items, x.whole, lambda c: '%s of %s %s' % (c[1], FUNS[c[0]].name, c[4] or ''), lambda c: fx.loc(c[2]))
    rnd = Rnd(5)
    some = [c + (rnd(2) == 1,) for i, c in enumerate(forward_cases(ctx.thorough)) if rnd(4) == 0]
    note('bridge', some, x.forward,
         lambda c: 'bridge: forward %d to %d of %s%s, tx = %s%s' % (c[1], c[2], FUNS[c[0]].name, ' (stand-alone)' if c[4] else '', show(c[3]),
                                                                    ', variables %s' % (c[5],) if c[5] else ''),
         lambda c: fx.loc(fns(fx, BRIDGE, 'atomicForward')[0]))
    some = [c + (rnd(2) == 1,) for i, c in enumerate(reverse_cases(ctx.thorough)) if rnd(4) == 0]
    note('bridge', some, x.reverse,
         lambda c: 'bridge: reverse %d of %s%s, tx = %s, py = %s' % (c[1], FUNS[c[0]].name, ' (stand-alone)' if c[4] else '', show(c[2]), show(c[3])),
         lambda c: fx.loc(fns(fx, BRIDGE, 'atomicReverse')[0]))
    note('bridge', bridge_cases(ctx.thorough), x.bridge,
         lambda c: 'bridge: %s of %s: %s' % ('cached patterns' if c[1] else 'patterns', FUNS[c[0]].name, ', '.join('%s %s' % (s[0], [plain(e) for e in s[1:]]) for s in c[2])),
         lambda c: fx.loc(fns(fx, BRIDGE, 'rev_sparse_hes')[0]))
    note('patterns', [(n, b) for n in (2, 3, 5) for b in (False, True)], x.identity,
         lambda c: 'identifiers of %d %s' % (c[0], 'bridges' if c[1] else 'functions'), lambda c: fx.loc(fns(fx, ABS, 'createNewAtomicFunctionID')[0]))
    ctx.count('functions analysed', len(x.visited))
    for r, k in (('forward', 600), ('reverse', 1000), ('patterns', 200), ('bridge', 400)):
        ctx.need(r, k)
