"""X01: compiled models as atomic functions, and external functions called by compiled models."""
import itertools
import re

from .. import facts
from ..absint import AMap, AStr, Cell, CppThrow, NULL, Obj, Ptr, Term, Vec
from ..cgmodel import NS
from ..facts import AnalysisError
from ..world import make
from . import m02
from .m02 import HES, HES_I, JAC, M, N, Lib, Refused, Sim, brief, fw1, members, norm, rv1, rv2, sm

SPEC = {'technique': 'abstract interpretation of the adapters between compiled models and atomic functions (CGAtomicGenericModel, the external function wrappers '
                     'and the dispatch of FunctorGenericModel) over enumerated orders, operand layouts (dense, sparse with any index subset) and sparsity '
                     'patterns; the compiled and the user supplied functions are symbolic stubs whose operands and results are compared element by element',
        'level': 'other',
        'assumptions': ['CppAD passes arrays of the sizes its documentation gives', 'the error handler of CppAD does not return',
                        'two independent and three dependent variables stand for any numbers (sizes are pairwise different)',
                        'the compiled code passes result arrays that are zero (decided by G01)']}
ATOM = NS + 'CGAtomicGenericModel<double>'
SETS = 'std::set<unsigned long>'
CV = 'CppAD::vector'


def cv(vals, t='double'):
    return Vec([Cell(v, t) for v in vals], t, CV)


def asets(rows):
    return Vec([Cell(mkset(r), SETS) for r in rows], SETS, CV)


def mkset(r):
    m = AMap('unsigned long', isset=True, kind='set')
    m.d = [[k, Cell(k, 'unsigned long')] for k in sorted(r)]
    return m


def terms(n, k):
    return [Term(n, i) for i in range(k)]


class Adapter:
    """a loaded model (over the abstract library) wrapped by CGAtomicGenericModel"""

    def __init__(self, i, sim, **lk):
        self.i = i
        self.lib = Lib(i, **lk)
        i.hooks['CppAD::atomic_base::atomic_base'] = lambda *a: None
        i.hooks['CppAD::atomic_base::option'] = lambda *a: None
        self.m = sim.model(i, self.lib)
        self.a = make(i, ATOM, [self.m], pred=lambda p: len(p) == 1 and 'GenericModel<double> &' in p[0] and 'Atomic' not in p[0])


def fns(fx, cls, name, k=None):
    r = [i for i in sorted(fx.by_cls.get(cls, ())) if fx.funcs[i]['n'] == name and i in fx.bodies and (k is None or len(fx.funcs[i]['p']) == k)]
    if not r:
        raise AnalysisError('anchor not found: %s::%s' % (cls, name))
    return r


def val(r):
    return r.v if isinstance(r, Cell) else r


class X:
    def __init__(self, ctx):
        self.ctx, self.fx = ctx, facts.facts('main')
        self.sim = Sim(self.fx)
        self.visited = set()

    def explore(self, rule, key, where, body, **kw):
        """body(i) returns None or what is wrong"""
        it = self.sim.interp()
        it.hooks.update(kw.get('hooks', {}))

        def top(i):
            try:
                return body(i)
            except Refused as e:
                return 'the call is refused (line %s)' % e
            except m02.Misuse as e:
                return str(e)
        for o in it.explore(top):
            self.ctx.count('abstract paths')
            if o[0] == 'ok':
                if o[1] is None:
                    self.ctx.ok(rule, key)
                else:
                    self.ctx.bad(rule, key, where, '%s: %s' % (key, o[1]))
            elif o[0] == 'throw' or m02.UB.search(o[1]):
                self.ctx.bad(rule, key, where, '%s: %s' % (key, o[1] if o[0] != 'throw' else 'an exception is thrown'))
            else:
                self.ctx.unk(rule, '%s: %s' % (key, o[1]))
        self.visited.update(it.visited)


def diff(what, got, want):
    got = [c.v for c in got.c] if isinstance(got, Vec) else got
    if len(got) != len(want) or any(w is not None and norm(g) != norm(w) for g, w in zip(got, want)):
        return '%s is %s instead of %s' % (what, brief(got), brief(want))
    return None


def evaluation(x):
    """forward and reverse of the atomic function of a model"""
    fx, ctx = x.fx, x.ctx
    fwd, rev = fns(fx, ATOM, 'forward')[0], fns(fx, ATOM, 'reverse')[0]
    X0 = terms('x', N)
    F = [Term('F', i, *X0) for i in range(M)]

    def forward(q, p, vx):
        def body(i):
            a = Adapter(i, x.sim)
            p1 = p + 1
            tx = cv([Term('x' if k == 0 else 'x%d' % k, j) for j in range(N) for k in range(p1)])
            ty = cv([F[j] if k < q else Term('old', j, k) for j in range(M) for k in range(p1)])
            bx, by = cv(vx, 'bool'), cv([False] * (M if vx else 0), 'bool')
            r = val(i.call(fwd, a.a, [Cell(q, 'size_t'), Cell(p, 'size_t'), Cell(bx), Cell(by), Cell(tx), Cell(ty)]))
            if p > 1:
                return None if r is False else 'order %d is reported as implemented' % p
            if r is not True:
                return 'the orders %d to %d are reported as not implemented' % (q, p)
            s = {j: Term('x1', j) for j in range(N)}
            want = [F[j] if k == 0 else fw1(j, X0, s) for j in range(M) for k in range(p1)]
            d = diff('the result', ty, want)
            if d or not vx:
                return d
            want = [any(vx[j] for j in range(N) if (k, j) in JAC) for k in range(M)]
            got = [bool(c.v) for c in by.c]
            return None if got == want else 'the variables among the results are %s instead of %s' % (got, want)
        return body
    for vx in [()] + list(itertools.product((False, True), repeat=N)):
        x.explore('evaluation', 'forward of order 0, variables %s' % (list(vx),), fx.loc(fwd), forward(0, 0, vx))
    for q, p in ((1, 1), (0, 1), (2, 2), (0, 2), (1, 2), (3, 3)):
        x.explore('evaluation', 'forward of orders %d to %d' % (q, p), fx.loc(fwd), forward(q, p, ()))

    def reverse(p):
        def body(i):
            a = Adapter(i, x.sim)
            p1 = p + 1
            tx = terms('tx', N * p1)
            ty, py = terms('ty', M * p1), terms('py', M * p1)
            px = cv(terms('old', N * p1))
            r = val(i.call(rev, a.a, [Cell(p, 'size_t'), Cell(cv(tx)), Cell(cv(ty)), Cell(px), Cell(cv(py))]))
            if p > 1:
                return None if r is False else 'order %d is reported as implemented' % p
            if r is not True:
                return 'order %d is reported as not implemented' % p
            if p == 0:
                want = [rv1(j, tx, dict(enumerate(py))) for j in range(N)]
            else:
                want = [Term('R2', j, *(tx + ty + py)) for j in range(2 * N)]
            return diff('the result', px, want)
        return body
    for p in range(4):
        x.explore('evaluation', 'reverse of order %d' % p, fx.loc(rev), reverse(p))

    # functions which the model does not have are refused loudly
    for fn, g in (('FORWAD_ZERO', forward(0, 0, ())), ('FORWARD_ONE', forward(1, 1, ())), ('REVERSE_ONE', reverse(0)), ('REVERSE_TWO', reverse(1))):
        def body(i, g=g, fn=fn):
            old = Adapter.__init__

            def init(self, i, sim):
                old(self, i, sim, absent=[fn])
            Adapter.__init__ = init
            try:
                g(i)
            except (Refused, CppThrow):
                return None
            finally:
                Adapter.__init__ = old
            return 'the evaluation reports success although the model has no function for it'
        x.explore('evaluation', 'model without ' + fn.lower().replace('_', ' '), fx.loc(fwd if 'FOR' in fn else rev), body)


def subsets(n):
    return [frozenset(k for k in range(n) if b >> k & 1) for b in range(1 << n)]


def bare(i, n, m, J, HI):
    """the atomic function of an arbitrary model: n variables, m equations, Jacobian rows J and Hessian rows HI of each equation"""
    g = NS + 'GenericModel::'
    i.hooks['CppAD::atomic_base::atomic_base'] = lambda *a: None
    i.hooks['CppAD::atomic_base::option'] = lambda *a: None
    i.hooks[g + 'getName'] = lambda *a: AStr(('model',))
    i.hooks[g + 'Domain'] = lambda *a: n
    i.hooks[g + 'Range'] = lambda *a: m
    sets = lambda rows: Vec([Cell(mkset(r), SETS) for r in rows], SETS, 'std::vector')

    def hes(it, f, this, args, line):
        if not args:
            return sets([frozenset().union(*(h[j] for h in HI)) for j in range(n)])
        k = args[0].v
        if not isinstance(k, int) or not 0 <= k < m:
            raise m02.Misuse('Hessian sparsity of equation %r' % k)
        return sets(HI[k])
    i.hooks[g + 'JacobianSparsitySet'] = lambda *a: sets(J)
    i.hooks[g + 'HessianSparsitySet'] = hes
    o = Cell(Obj(NS + 'GenericModel<double>'), NS + 'GenericModel<double>')
    return make(i, ATOM, [o], pred=lambda p: len(p) == 1 and 'GenericModel<double> &' in p[0] and 'Atomic' not in p[0])


def sparsity(x):
    """the dependency patterns reported to CppAD, for models of several shapes"""
    fx, thorough = x.fx, x.ctx.thorough
    rnd = Rnd(5)

    def rows(v):
        return [frozenset(members(c.v)) for c in v.c]

    def compose(A, B):
        return [frozenset(e for j in a for e in B[j]) for a in A]

    def show(r):
        return [sorted(e) for e in r]

    def run(name, nargs, n, m, Q, J, HI, mk, lab):
        for f in fns(fx, ATOM, name):
            ps = fx.ptypes(f)

            def body(i):
                a = bare(i, n, m, J, HI)
                args, out = mk()
                args = [Cell(v) for v in args] + ([Cell(cv(terms('x', n)))] if len(ps) == nargs + 1 else [])
                r = val(i.call(f, a, args))
                if r is not True:
                    return 'reported as not implemented'
                for what, v, w in out:
                    st = bool(w) and isinstance(w[0], frozenset)
                    got = rows(v) if st else [bool(c.v) for c in v.c]
                    if got != w:
                        return '%s is %s instead of %s' % (what, brief(show(got) if st else got), brief(show(w) if st else w))
                return None
            x.explore('sparsity', '%s(%d arguments), %dx%d, J = %s, %s' % (name, len(ps), m, n, show(J), lab), fx.loc(f), body)
    for n, m, Q in ((1, 1, 1), (2, 2, 2), (2, 3, 2), (3, 2, 1), (1, 3, 2), (4, 1, 3), (3, 3, 4)):
        SN, SQ = subsets(n), subsets(Q)
        alljac = list(itertools.product(SN, repeat=m))
        for J in rnd.some(alljac, 12 if thorough else 5):
            J = list(J)
            JT = [frozenset(i for i in range(m) if j in J[i]) for j in range(n)]
            HI = []
            for i in range(m):
                e = [(a, b) for a in range(n) for b in range(a + 1) if rnd(2)]
                HI.append([frozenset([b for a2, b in e if a2 == a] + [a2 for a2, b in e if b == a]) for a in range(n)])
            old = [frozenset(range(Q))] * (n + m)  # what the result arrays hold before the call
            for _ in range(16 if thorough else 5):
                r = [rnd.pick(SQ) for _ in range(n)]
                u = [rnd.pick(SQ) for _ in range(m)]

                def mk(r=r):
                    s = asets(old[:m])
                    return [Q, asets(r), s], [('the pattern', s, compose(J, r))]
                run('for_sparse_jac', 3, n, m, Q, J, HI, mk, 'R = %s' % show(r))

                def mk(u=u):
                    s = asets(old[:n])
                    return [Q, asets(u), s], [('the pattern', s, compose(JT, u))]
                run('rev_sparse_jac', 3, n, m, Q, J, HI, mk, 'R^T = %s' % show(u))
                for s in {(True,) * m, tuple(bool(rnd(2)) for _ in range(m)), tuple(bool(rnd(2)) for _ in range(m)), (False,) * m}:
                    def mk(s=s, r=r, u=u):
                        t, v = cv([True] * n, 'bool'), asets(old[:n])
                        H = [frozenset().union(*(HI[i][j] for i in range(m) if s[i])) for j in range(n)]
                        w = [a | b for a, b in zip(compose(JT, u), compose(H, r))]
                        wt = [any(s[i] and j in J[i] for i in range(m)) for j in range(n)]
                        return [cv([True] * n, 'bool'), cv(s, 'bool'), t, Q, asets(r), asets(u), v], [('V', v, w), ('T', t, wt)]
                    run('rev_sparse_hes', 7, n, m, Q, J, HI, mk, 'S = %s, R = %s, U = %s' % ([int(b) for b in s], show(r), show(u)))


class Rnd:
    """a fixed sequence of choices"""

    def __init__(self, seed):
        self.s = seed

    def __call__(self, n):
        self.s = (self.s * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        return (self.s >> 33) % n

    def pick(self, l):
        return l[self(len(l))]

    def some(self, l, k):
        return l if len(l) <= k else [self.pick(l) for _ in range(k)]


# ---- external functions -------------------------------------------------------------------------

def array(i, vals, sparse=None, n=None):
    """an Array of the compiled code; sparse: the indexes of the values"""
    c = Cell(i.default('Array'), 'Array')
    if not isinstance(c.v, Obj):
        c.v = Obj('Array')
    v = Vec([Cell(e, 'double') for e in vals], 'double', 'array')
    i.field(c, 'Array::data').v = Ptr(None, v, 0) if vals else NULL
    i.field(c, 'Array::size').v = len(vals) if n is None else n
    i.field(c, 'Array::sparse').v = sparse is not None
    i.field(c, 'Array::idx').v = Ptr(None, Vec([Cell(e, 'unsigned long') for e in sparse], 'unsigned long', 'array'), 0) if sparse else NULL
    i.field(c, 'Array::nnz').v = len(sparse) if sparse is not None else len(vals)
    return c


def arrays(i, cells):
    return Cell(Ptr(None, Vec(cells, 'Array', 'array'), 0), 'const Array *')


def contents(i, c):
    p = i.field(c, 'Array::data').v
    return [e.v for e in p.vec.c]


def dense(n, name, sp):
    """values of an operand by position"""
    return [Term(name, j) if sp is None or j in sp else 0.0 for j in range(n)]


def operand(i, n, name, sp):
    return array(i, dense(n, name, None), None) if sp is None else array(i, [Term(name, j) for j in sp], list(sp), n)


class Host:
    """a loaded model with the external functions a, b and c"""

    def __init__(self, i, x, order, wrap, inner):
        self.i, self.x = i, x
        sim = x.sim
        self.lib = Lib(i, atomics=['a', 'b', 'c'])
        self.host = sim.model(i, self.lib)
        self.seen = []
        self.ext = {}
        for n in order:
            if wrap == 'atomic':
                o = Cell(Obj('CppAD::atomic_base<double>', tag=n), 'CppAD::atomic_base<double>')
                i.hooks['CppAD::atomic_base::atomic_name'] = lambda it, f, this, args, line: AStr((this.v.tag,))
                add = sim.fn('addAtomicFunction')
            else:
                o = inner(n)
                add = sim.fn('addExternalModel')
            self.ext[n] = o
            r = val(i.call(add, self.host, [o]))
            if r is not True:
                raise AnalysisError('external function %s is not accepted' % n)
        self.arg = i.field(self.host, m02.FGM + '::_atomicFuncArg')

    def call(self, which, args):
        """the compiled code calls the external function of this index"""
        i = self.i
        f = [c.v for k, c in self.arg.v.f.items() if k.endswith('::' + which)]
        lm = [c.v for k, c in self.arg.v.f.items() if k.endswith('libModel')]
        if not f or not lm:
            raise AnalysisError('members of LangCAtomicFun')
        fr = f[0]
        while isinstance(fr, Ptr):
            fr = i.deref(fr).v
        fid = getattr(fr, 'fid', None) or getattr(fr, 'f', None)
        if not isinstance(fid, int):
            raise AnalysisError('function pointer %r' % (fr,))
        return val(i.call(fid, None, [Cell(lm[0], 'void *')] + args))


LAYOUT = {'tx': N, 'py': M}


def external_atomics(x):
    """a CppAD atomic function called by compiled code gets the operands of the compiled code, and its results are stored"""
    ctx, fx = x.ctx, x.fx
    cls = NS + 'AtomicExternalFunctionWrapper<double>'
    wf, wr = fns(fx, cls, 'forward')[0], fns(fx, cls, 'reverse')[0]

    def stub(log, kind, result):
        def fwd(it, f, this, args, line):
            q, p, vx, vy, tx, ty = [a.v for a in args]
            log.append((this.v.tag, 'forward', q, p, [c.v for c in tx.c], [c.v for c in ty.c], len(vx.c), len(vy.c)))
            for k, c in enumerate(ty.c):
                if k % (p + 1) >= q:
                    c.v = Term('T' + this.v.tag, k)
            return result if kind == 'forward' else True

        def rev(it, f, this, args, line):
            p, tx, ty, px, py = [a.v for a in args]
            log.append((this.v.tag, 'reverse', p, [c.v for c in tx.c], [c.v for c in ty.c], [c.v for c in px.c], [c.v for c in py.c]))
            for k, c in enumerate(px.c):
                c.v = Term('R' + this.v.tag, k)
            return result
        return {'CppAD::atomic_base::forward': fwd, 'CppAD::atomic_base::reverse': rev}

    def case(kind, q, p, idx, order, txs, pys, result):
        def body(i):
            log = []
            i.hooks.update(stub(log, kind, result))
            h = Host(i, x, order, 'atomic', None)
            txv = [dense(N, 'tx%d' % k, s) for k, s in enumerate(txs)]
            tx = [operand(i, N, 'tx%d' % k, s) for k, s in enumerate(txs)]
            wtx = [txv[k][j] for j in range(N) for k in range(p + 1)]
            n = 'abc'[idx]
            if kind == 'forward':
                out = array(i, [0.0] * M)
                r = h.call('forward', [Cell(idx, 'int'), Cell(q, 'int'), Cell(p, 'int'), arrays(i, tx), Cell(Ptr(out), 'Array *')])
                calls = [e for e in log if e[1] == 'forward']
                if len(calls) != 1 or len(log) != 1:
                    return 'the external function is evaluated %d times' % len(log)
                t, _, q2, p2, gtx, gty, nvx, nvy = calls[0]
                if t != n:
                    return 'function %s is called for the index of %s' % (t, n)
                if p2 != p:
                    return 'the order is %s instead of %s' % (p2, p)
                # the coefficients of lower orders are inputs of the function
                d = diff('the operand tx', gtx, wtx) or diff('the initial result', [v for k, v in enumerate(gty) if k % (p + 1) < q2],
                                                             [Term('T' + n, k) for k in range(len(gty)) if k % (p + 1) < q2])
                if d:
                    return d
                if nvx or nvy:
                    return 'variable flags are passed outside recording'
                d = diff('the result', contents(i, out), [Term('T' + n, j * (p + 1) + p) for j in range(M)])
            else:
                pyv = [dense(M, 'py%d' % k, s) for k, s in enumerate(pys)]
                py = [operand(i, M, 'py%d' % k, s) for k, s in enumerate(pys)]
                out = array(i, [0.0] * N)
                r = h.call('reverse', [Cell(idx, 'int'), Cell(p, 'int'), arrays(i, tx), Cell(Ptr(out), 'Array *'), arrays(i, py)])
                calls = [e for e in log if e[1] == 'reverse']
                if len(calls) != 1:
                    return 'the external function is evaluated %d times' % len(calls)
                t, _, p2, gtx, gty, gpx, gpy = calls[0]
                if any(e[0] != n for e in log):
                    return 'function %s is called for the index of %s' % (t, n)
                if p2 != p:
                    return 'the order is %s instead of %s' % (p2, p)
                d = diff('the operand tx', gtx, wtx) or diff('the operand py', gpy, [pyv[k][j] for j in range(M) for k in range(p + 1)])
                if d:
                    return d
                d = diff('the operand ty (results of the forward mode)', gty, [Term('T' + n, j) for j in range(M * (p + 1))])
                if d:
                    return d
                d = diff('the result', contents(i, out), [Term('R' + n, j * (p + 1)) for j in range(N)])
            if d:
                return d
            if result and r not in (True, 1) or not result and r not in (False, 0):
                return 'the status is %s when the function returns %s' % (r, result)
            return None
        return body
    SN = [None] + [tuple(sorted(s)) for s in subsets(N)] + [(1, 0)]
    SM = [None, (), (1,), (2, 0), (0, 1, 2)]
    orders = ['abc', 'cba', 'bac', 'abcb', 'aabc']
    k = 0
    for p in (0, 1, 2):
        for txs in itertools.product(SN, repeat=p + 1):
            k += 1
            if p == 2 and k % 17 and not (ctx.thorough and k % 3 == 0):
                continue
            if p == 1 and k % 2 and not ctx.thorough:
                continue
            q = p
            x.explore('external atomic', 'forward %d, function %d, operands %s' % (p, k % 3, names(txs)), fx.loc(wf),
                      case('forward', q, p, k % 3, orders[k % 5], txs, None, k % 4 != 3))
            if p == 1:
                x.explore('external atomic', 'forward 0 to 1, function %d, operands %s' % (k % 3, names(txs)), fx.loc(wf),
                          case('forward', 0, p, k % 3, orders[k % 5], txs, None, True))
    k = 0
    for p in (0, 1, 2):
        for txs in itertools.product(SN[:3] if p else SN, repeat=p + 1):
            for pys in itertools.product(SM, repeat=p + 1):
                k += 1
                if k % (1 if p == 0 else 7 if p == 1 else 101) and not (ctx.thorough and k % (3 if p == 1 else 31) == 0):
                    continue
                x.explore('external atomic', 'reverse %d, function %d, operands %s and %s' % (p, k % 3, names(txs), names(pys)), fx.loc(wr),
                          case('reverse', 0, p, k % 3, orders[k % 5], txs, pys, k % 4 != 3))


def names(sp):
    return ' '.join('dense' if s is None else 'sparse' + str(list(s)) for s in sp)


def external_models(x):
    """a compiled model called by another compiled model"""
    ctx, fx = x.ctx, x.fx
    cls = NS + 'GenericModelExternalFunctionWrapper<double>'
    wf, wr = fns(fx, cls, 'forward')[0], fns(fx, cls, 'reverse')[0]

    def case(kind, p, idx, order, tx1, py):
        def body(i):
            libs = {}

            def inner(n):
                lib = Tagged(i, n)
                m = x.sim.model(i, lib)
                libs[n] = lib
                for c in i.field(m, m02.FGM + '::_name'),:
                    c.v = AStr((n,))
                return m
            # the host is loaded last, so that its functions are those found by name
            h = None
            made = {n: inner(n) for n in dict.fromkeys(order)}
            h = Host(i, x, order, 'model', lambda n: made[n])
            i.hooks['indirect'] = Multi(list(libs.values()) + [h.lib])
            n = 'abc'[idx]
            for lib in list(libs.values()) + [h.lib]:
                lib.calls = []
            X0 = terms('tx0', N)
            tx = [operand(i, N, 'tx0', None)]
            if p:
                tx.append(operand(i, N, 'tx1', tx1))
            for k in range(2, p + 1):
                tx.append(operand(i, N, 'tx%d' % k, None))
            s1 = {j: Term('tx1', j) for j in (tx1 or ())}
            if kind == 'forward':
                out = array(i, [0.0] * M)
                r = h.call('forward', [Cell(idx, 'int'), Cell(p, 'int'), Cell(p, 'int'), arrays(i, tx), Cell(Ptr(out), 'Array *')])
                want = [Term('F', j, *X0) for j in range(M)] if p == 0 else [fw1(j, X0, s1) for j in range(M)]
            else:
                out = array(i, [0.0] * N)
                if p == 0:
                    pa = [operand(i, M, 'py0', py)]
                    want = [rv1(j, X0, {e: Term('py0', e) for e in py}) for j in range(N)]
                else:
                    pa = [operand(i, M, 'py0', ()), operand(i, M, 'py1', None)] + [operand(i, M, 'py%d' % k, None) for k in range(2, p + 1)]
                    want = [rv2(j, X0, s1, terms('py1', M)) for j in range(N)]
                r = h.call('reverse', [Cell(idx, 'int'), Cell(p, 'int'), arrays(i, tx), Cell(Ptr(out), 'Array *'), arrays(i, pa)])
            used = sorted(k for k, lib in libs.items() if lib.calls)
            if h.lib.calls or any(k != n for k in used):
                return 'model %s is evaluated for the index of %s' % (used, n)
            if p > 1:
                return None if r in (False, 0) else 'order %d is reported as implemented' % p
            if r not in (True, 1):
                return 'order %d is reported as not implemented' % p
            return diff('the result', contents(i, out), want)
        return body
    orders = ['abc', 'cba', 'bac', 'aabc', 'abcb']
    k = 0
    S2 = [tuple(s) for s in ((), (0,), (1,), (0, 1), (1, 0))]
    S3 = [(), (0,), (1,), (2,), (0, 1), (0, 2), (2, 1), (0, 1, 2)]
    for p, tx1 in [(0, None)] * 3 + [(1, s) for s in S2] + [(2, ()), (3, ())]:
        k += 1
        x.explore('external model', 'forward %d, model %d, first order operand %s' % (p, k % 3, list(tx1 or ())), fx.loc(wf),
                  case('forward', p, k % 3, orders[k % 5], tx1, None))
    for p, tx1, py in [(0, None, s) for s in S3] + [(1, s, None) for s in S2] + [(2, (), None)]:
        k += 1
        x.explore('external model', 'reverse %d, model %d, operands %s %s' % (p, k % 3, list(tx1 or ()), list(py or ())), fx.loc(wr),
                  case('reverse', p, k % 3, orders[k % 5], tx1, py))


class Tagged(Lib):
    """a library whose functions are told apart by a tag"""

    def __init__(self, it, tag, **kw):
        Lib.__init__(self, it, **kw)
        self.tag = tag

    def load(self, it, f, this, args, line):
        r = Lib.load(self, it, f, this, args, line)
        if isinstance(r, Ptr):
            r = Ptr(Cell(Term('fn', r.cell.v.args[0], self.tag), 'fn'))
        return r

    def __call__(self, it, fp, args, e):
        while isinstance(fp, Term) and fp.op in ('*', '&', 'deref') and len(fp.args) == 1:
            fp = fp.args[0]
        if isinstance(fp, Term) and fp.op == 'fn' and len(fp.args) == 2:
            if fp.args[1] != self.tag:
                return NotImplemented
            return Lib.__call__(self, it, Term('fn', fp.args[0]), args, e)
        return NotImplemented


class Multi:
    def __init__(self, libs):
        self.libs = libs

    def __call__(self, it, fp, args, e):
        for lib in self.libs:
            r = lib(it, fp, args, e)
            if r is not NotImplemented:
                return r
        return NotImplemented


def run(ctx):
    x = X(ctx)
    evaluation(x)
    sparsity(x)
    external_atomics(x)
    external_models(x)
    ctx.count('functions analysed', len(x.visited))
    for r, n in (('evaluation', 15), ('sparsity', 400), ('external atomic', 60), ('external model', 20)):
        ctx.need(r, n)
