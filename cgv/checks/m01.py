"""M01: the C sources generated for a model provide its functions: values, dense and sparse derivatives, directional derivatives, sparsity
patterns and the descriptions of the model, for every combination of generation options."""
import itertools
import random

from .. import facts
from ..absint import AStr, Cell, Interp, NULL, Ptr, Term, UNDEFINED, Vec
from ..cexec import darray, parray
from ..cgmodel import NS, NoMeaning, same
from ..facts import AnalysisError
from ..gen import ATOMNAME, PTS, atomfun, text
from ..modelgen import Fun, ModelGen, model_hooks
from ..modelrun import Linked, env, num, ptrcell, xs
from ..loopmodels import fixed, random_model
from ..par import pmap
from ..tape import Sym, Tape, Tapes
from ..poolsim import Fault

SPEC = {'technique': 'abstract interpretation of the model source generator over symbolic models, then of the linked C text it writes',
        'level': 'other',
        'assumptions': ['the derivative operations of CppAD give the derivatives and sparsity patterns of the taped function',
                        'malloc succeeds (the generated code does not test it)']}

ALL = dict(CreateForwardZero=True, CreateJacobian=True, CreateHessian=True, CreateForwardOne=True, CreateReverseOne=True, CreateReverseTwo=True,
           CreateSparseJacobian=True, CreateSparseHessian=True)


class Bad(Exception):
    pass


class Verify:
    """compares one linked model with its function"""

    def __init__(self, L, fun, opts, jpat, hpat):
        self.L, self.fun, self.o = L, fun, opts
        self.jp, self.hp = jpat, hpat
        self.n, self.m = fun.n, fun.m
        self.out = []
        self.pts = PTS[:3]
        # the conditions of a function are decided by the values at each point
        self.cond = isinstance(fun, Tape) and fun.conditional()

    # ---- helpers -----------------------------------------------------------------------------------------
    def rec(self, rule, verdict, txt):
        self.out.append((rule, verdict, txt))

    def do(self, rule, const, f, **kw):
        """decides one obligation: f(program, function name) returns a problem or None"""
        name = self.L.fn(const)
        for pt in PTS[:3] if self.cond else [None]:
            if pt:
                self.pts = [pt]
                kw['point'] = env(pt, self.n, self.m)
            try:
                r = self.L.once(lambda it: f(it, name), **kw)
            except NoMeaning as e:
                r = ('unk', 'no meaning: %s' % e)
            if r[0] != 'ok' or r[1]:
                break
        if r[0] == 'ok':
            self.rec(rule, 'bad' if r[1] else 'ok', '%s: %s' % (name, r[1]) if r[1] else name)
        elif r[0] == 'fault':
            self.rec(rule, 'bad', '%s: %s' % (name, r[1]))
        else:
            self.rec(rule, 'unk', '%s: %s' % (name, r[1]))

    def cmp(self, cells, ref, what):
        """cells (values) against ref(i, e) for each point"""
        for pt in self.pts:
            e = env(pt, self.n, self.m)
            x = [e['x%d' % j] for j in range(self.n)]
            w = [e['w%d' % i] for i in range(self.m)]
            d = [e['d%d' % j] for j in range(self.n)]
            for i, c in enumerate(cells):
                if c.v is None:
                    return '%s %d is never written' % (what, i)
                try:
                    r = ref(i, x, w, d)
                except (ValueError, ZeroDivisionError, OverflowError):
                    continue
                try:
                    g = num(c.v, e)
                except (ValueError, ZeroDivisionError, OverflowError):
                    return '%s %d should be %r; the generated code computes an undefined value' % (what, i, r)
                if isinstance(g, complex) or not same(r, g):
                    return '%s %d should be %r; the generated code computes %r' % (what, i, r, g)
        return None

    def call(self, it, name, ins, nout, first=(), init=None):
        """name(first..., in, out, atomicFun) -> (returned value, output cells)"""
        op, ov = darray([init] * nout)
        r = it.run(name, [Cell(a) for a in first] + [Cell(parray([darray(v)[0] for v in ins])), Cell(parray([op])), atomfun()])
        return r.v if isinstance(r, Cell) else r, ov.c

    def pattern(self, it, name, first=(), two=True):
        ps = [ptrcell() for _ in range(2 if two else 1)] + [Cell(None, 'unsigned long')]
        it.run(name, [Cell(a) for a in first] + [Cell(Ptr(c)) for c in ps])
        k = ps[-1].v
        if not isinstance(k, int):
            raise Fault('value', 'the number of elements is not set')
        seqs = [[c.v for c in it.elems(p.v, k, 'list of elements')] if k else [] for p in ps[:-1]]
        return seqs

    # ---- functions ---------------------------------------------------------------------------------------
    def describe(self):
        n, m, L = self.n, self.m, self.L

        def info(it, name):
            b, cm, cn, ci, cd = ptrcell(), Cell(None), Cell(None), Cell(None), Cell(None)
            it.run(name, [Cell(Ptr(c)) for c in (b, cm, cn, ci, cd)])
            if (cm.v, cn.v) != (m, n):
                return 'reports %r dependents and %r independents instead of %d and %d' % (cm.v, cn.v, m, n)
            if (ci.v, cd.v) != (1, 1):
                return 'reports %r arrays of independents and %r arrays of dependents' % (ci.v, cd.v)
            s = b.v
            if isinstance(s, Ptr):
                s = it.deref(s).v
            s = s.s() if isinstance(s, AStr) else s
            if s != 'double  d':
                return 'reports the base type %r' % (s,)
        self.do('description', 'FUNCTION_INFO', info)

        def atom(it, name):
            p, k = ptrcell(), Cell(None)
            it.run(name, [Cell(Ptr(p)), Cell(Ptr(k))])
            if not isinstance(k.v, int):
                return 'the number of atomic functions is not set'
            names = []
            for c in it.elems(p.v, k.v, 'list of names') if k.v else []:
                s = c.v
                s = it.deref(s).v if isinstance(s, Ptr) else s
                names.append(s.s() if isinstance(s, AStr) else s)
            self.names = names
            if sorted(set(names)) != sorted(names):
                return 'an atomic function is listed twice: %r' % (names,)
        self.names = []
        self.do('description', 'FUNCTION_ATOMIC_FUNC_NAMES', atom)
        pre = ATOMNAME[:-2]
        self.L.atomics = [int(s[len(pre):]) if isinstance(s, str) and s.startswith(pre) else -1 for s in self.names]

    def values(self):
        n, m, fun = self.n, self.m, self.fun
        x = xs(n)
        w = [Term('w%d' % i) for i in range(m)]
        o = self.o

        def f0(it, name):
            _, y = self.call(it, name, [x], m)
            return self.cmp(y, lambda i, x, w, d: fun.val(fun.F[i], x), 'value')
        if o.get('CreateForwardZero', True):
            self.do('values', 'FUNCTION_FORWAD_ZERO', f0)

        def jac(it, name):
            _, y = self.call(it, name, [x], m * n)
            return self.cmp(y, lambda k, x, w, d: fun.j(k // n, k % n, x), 'Jacobian element')
        if o.get('CreateJacobian'):
            self.do('dense derivatives', 'FUNCTION_JACOBIAN', jac)

        def hes(it, name):
            _, y = self.call(it, name, [x, w], n * n)
            return self.cmp(y, lambda k, x, w, d: fun.h(k // n, k % n, x, w), 'Hessian element')
        if o.get('CreateHessian'):
            self.do('dense derivatives', 'FUNCTION_HESSIAN', hes)

        orders = [dict()]
        if o.get('mt'):
            orders = [dict(order='forward', bench=2), dict(order='backward', disabled=1, verbose=1)]
        if o.get('CreateSparseJacobian'):
            def spj(it, name):
                rows, cols = self.pattern(it, self.L.fn('FUNCTION_JACOBIAN_SPARSITY'))
                if len(set(zip(rows, cols))) != len(rows) and 'CustomSparseJacobianElements' not in o:
                    return 'the pattern has repeated elements'
                miss = set(self.jp) - set(zip(rows, cols))
                if miss:
                    return 'element %r of the Jacobian is not provided' % (min(miss),)
                extra = [e for e in zip(rows, cols) if e not in set(self.jp)]
                if extra:
                    return 'element %r was not requested' % (extra[0],)
                _, y = self.call(it, name, [x], len(rows))
                return self.cmp(y, lambda k, x, w, d: fun.j(rows[k], cols[k], x), 'sparse Jacobian element')
            for kw in orders:
                self.do('sparse derivatives', 'FUNCTION_SPARSE_JACOBIAN', spj, **kw)
        if o.get('CreateSparseHessian'):
            def sph(it, name):
                rows, cols = self.pattern(it, self.L.fn('FUNCTION_HESSIAN_SPARSITY'))
                e = list(zip(rows, cols))
                miss = [p for p in self.hp if p not in e]
                if miss:
                    return 'element %r of the Hessian is not provided' % (min(miss),)
                extra = [p for p in e if p not in self.hp]
                if extra:
                    return 'element %r was not requested' % (extra[0],)
                _, y = self.call(it, name, [x, w], len(rows))
                return self.cmp(y, lambda k, x, w, d: fun.h(rows[k], cols[k], x, w), 'sparse Hessian element')
            for kw in orders:
                self.do('sparse derivatives', 'FUNCTION_SPARSE_HESSIAN', sph, **kw)

    def patterns(self):
        n, m, fun, o = self.n, self.m, self.fun, self.o

        def jsp(it, name):
            rows, cols = self.pattern(it, name)
            if set(zip(rows, cols)) != set(self.jp):
                return 'the pattern is %r instead of %r' % (sorted(zip(rows, cols)), sorted(self.jp))
        if self.L.has('FUNCTION_JACOBIAN_SPARSITY'):
            self.do('patterns', 'FUNCTION_JACOBIAN_SPARSITY', jsp)

        def hsp(it, name):
            rows, cols = self.pattern(it, name)
            if set(zip(rows, cols)) != set(self.hp):
                return 'the pattern is %r instead of %r' % (sorted(zip(rows, cols)), sorted(self.hp))
        if self.L.has('FUNCTION_HESSIAN_SPARSITY'):
            self.do('patterns', 'FUNCTION_HESSIAN_SPARSITY', hsp)
        if self.L.has('FUNCTION_HESSIAN_SPARSITY2'):
            for i in range(m + 2):
                def hsp2(it, name):
                    rows, cols = self.pattern(it, name, [i])
                    ref = {e for e in fun.hpat([i]) if e in self.hp} if i < m else set()
                    if set(zip(rows, cols)) != ref or len(rows) != len(ref):
                        return 'equation %d: the pattern is %r instead of %r' % (i, sorted(zip(rows, cols)), sorted(ref))
                self.do('patterns', 'FUNCTION_HESSIAN_SPARSITY2', hsp2)

    def rows_of(self, kind):
        """expected elements of each compressed vector"""
        if kind == 'for':
            return [{i for i, j in self.jp if j == k} for k in range(self.n)]
        if kind == 'rev':
            return [{j for i, j in self.jp if i == k} for k in range(self.m)]
        return [{b for a, b in self.hp2 if a == k} for k in range(self.n)]

    hp2 = ()

    def sparse_dirs(self):
        n, m, fun, o = self.n, self.m, self.fun, self.o
        x = xs(n)
        w = [Term('w%d' % i) for i in range(m)]
        spec = [('CreateForwardOne', 'FUNCTION_SPARSE_FORWARD_ONE', 'FUNCTION_FORWARD_ONE_SPARSITY', 'for', n, [[Term('d0')]],
                 lambda k, e, x, w, d: fun.j(e, k, x) * d[0]),
                ('CreateReverseOne', 'FUNCTION_SPARSE_REVERSE_ONE', 'FUNCTION_REVERSE_ONE_SPARSITY', 'rev', m, [[Term('d0')]],
                 lambda k, e, x, w, d: fun.j(k, e, x) * d[0]),
                ('CreateReverseTwo', 'FUNCTION_SPARSE_REVERSE_TWO', 'FUNCTION_REVERSE_TWO_SPARSITY', 'rev2', n, [[Term('d0')], w],
                 lambda k, e, x, w, d: fun.h(k, e, x, w) * d[0])]
        for opt, fc, sc, kind, cnt, more, ref in spec:
            if not o.get(opt):
                continue
            exp = self.rows_of(kind)
            for k in range(cnt + 1):
                def one(it, name, k=k, exp=exp, more=more, ref=ref, cnt=cnt):
                    els = self.pattern(it, self.L.fn(sc), [k], two=False)[0]
                    e = exp[k] if k < cnt else set()
                    if set(els) != e:
                        return 'vector %d: the elements are %r instead of %r' % (k, els, sorted(e))
                    # the functions of models with loops add to the elements, which the callers set to zero
                    r, y = self.call(it, name, [x] + more, len(els), first=[k], init=0.0 if 'RelatedDependents' in o else None)
                    if not e:
                        if r not in (1, 0) or r == 0 and k >= cnt:
                            return 'vector %d does not exist; the status is %r' % (k, r)
                        return None
                    if r != 0:
                        return 'vector %d: the status is %r' % (k, r)
                    return self.cmp(y, lambda i, x, w, d: ref(k, els[i], x, w, d), 'vector %d, element' % k)
                self.do('sparse directions', fc, one)

    def dense_dirs(self):
        n, m, fun, o = self.n, self.m, self.fun, self.o
        x = xs(n)
        full = set(fun.jac) == set(self.jp)

        def sub(k, names):
            return [names % i if b else 0.0 for i, b in enumerate(k)]

        def subsets(k, limit):
            if k > 6:
                z = [tuple(int(j == i) for j in range(k)) for i in range(k)]
                return [(1,) * k, (0,) * k] + z[:limit // 2] + [tuple(1 - b for b in z[0]), tuple(i % 2 for i in range(k))]
            s = list(itertools.product((1, 0), repeat=k))
            return s if len(s) <= limit else [t for t in s if sum(t) in (0, 1, k)] + s[1:limit:3]
        J, H = dict.fromkeys(self.jp), dict.fromkeys(self.hp2)
        for dz in subsets(n, 8):
            dv = [Term('d%d' % j) if b else 0.0 for j, b in enumerate(dz)]

            def for1(it, name):
                tx, _ = darray([v for j in range(n) for v in (x[j], dv[j])])
                typ, ty = darray([v for i in range(m) for v in (Term('y0'), None)])
                r = it.run(name, [Cell(tx), Cell(typ), atomfun()])
                r = r.v if isinstance(r, Cell) else r
                if r != 0:
                    return 'the status is %r' % (r,)
                return self.cmp(ty.c[1::2], lambda i, x, w, d: sum(fun.j(i, j, x) * d[j] for j in range(n) if dz[j] and (i, j) in J), 'direction %r: element' % (dz,))
            if o.get('CreateForwardOne'):
                self.do('dense directions', 'FUNCTION_FORWARD_ONE', for1)
        for wz in subsets(m, 16):
            wv = [Term('w%d' % i) if b else 0.0 for i, b in enumerate(wz)]

            def rev1(it, name):
                tx, _ = darray(list(x))
                ty, _ = darray([Term('y%d' % i) for i in range(m)])
                px, pv = darray([None] * n)
                py, _ = darray(wv)
                r = it.run(name, [Cell(tx), Cell(ty), Cell(px), Cell(py), atomfun()])
                r = r.v if isinstance(r, Cell) else r
                if r != 0:
                    return 'the status is %r' % (r,)
                return self.cmp(pv.c, lambda j, x, w, d: sum(fun.j(i, j, x) * w[i] for i in range(m) if wz[i] and (i, j) in J), 'weights %r: element' % (wz,))
            if o.get('CreateReverseOne'):
                self.do('dense directions', 'FUNCTION_REVERSE_ONE', rev1)
        if o.get('CreateReverseTwo'):
            for dz in subsets(n, 8):
                for wz in ([1] * m, [0] * m, [1] + [0] * (m - 1), [0] * (m - 1) + [1]):
                    def rev2(it, name):
                        tx, _ = darray([v for j in range(n) for v in (x[j], Term('d%d' % j) if dz[j] else 0.0)])
                        ty, _ = darray([Term('y%d' % i) for i in range(2 * m)])
                        px, pv = darray([None] * (2 * n))
                        py, _ = darray([v for i in range(m) for v in (0.0, Term('w%d' % i) if wz[i] else 0.0)])
                        r = it.run(name, [Cell(tx), Cell(ty), Cell(px), Cell(py), atomfun()])
                        r = r.v if isinstance(r, Cell) else r
                        if r != 0:
                            return 'the status is %r' % (r,)
                        return self.cmp(pv.c[::2], lambda j, x, w, d: sum(fun.h(j, k, x, [v if b else 0.0 for v, b in zip(w, wz)]) * d[k]
                                                                          for k in range(n) if dz[k] and (k, j) in H),
                                        'direction %r, weights %r: element' % (dz, tuple(wz)))
                    self.do('dense directions', 'FUNCTION_REVERSE_TWO', rev2)

            def rev2e(it, name):
                tx, _ = darray([v for j in range(n) for v in (x[j], Term('d%d' % j))])
                ty, _ = darray([Term('y%d' % i) for i in range(2 * m)])
                px, pv = darray([None] * (2 * n))
                py, _ = darray([v for i in range(m) for v in (Term('w%d' % i), 0.0)])
                r = it.run(name, [Cell(tx), Cell(ty), Cell(px), Cell(py), atomfun()])
                r = r.v if isinstance(r, Cell) else r
                if not isinstance(r, int) or r == 0:
                    return 'weights of order zero are accepted (they are not implemented)'
            self.do('dense directions', 'FUNCTION_REVERSE_TWO', rev2e)
        # an allocation that fails is reported and nothing is lost
        for opt, fc in (('CreateForwardOne', 'FUNCTION_FORWARD_ONE'), ('CreateReverseOne', 'FUNCTION_REVERSE_ONE'), ('CreateReverseTwo', 'FUNCTION_REVERSE_TWO')):
            if not o.get(opt):
                continue
            for k in (1, 2):
                def fail(it, name):
                    if opt == 'CreateForwardOne':
                        a = [darray([v for j in range(n) for v in (x[j], Term('d%d' % j))])[0], darray([None] * (2 * m))[0]]
                    elif opt == 'CreateReverseOne':
                        a = [darray(list(x))[0], darray([Term('y%d' % i) for i in range(m)])[0], darray([None] * n)[0], darray([Term('w%d' % i) for i in range(m)])[0]]
                    else:
                        a = [darray([v for j in range(n) for v in (x[j], Term('d%d' % j))])[0], darray([Term('y%d' % i) for i in range(2 * m)])[0],
                             darray([None] * (2 * n))[0], darray([v for i in range(m) for v in (0.0, Term('w%d' % i))])[0]]
                    r = it.run(name, [Cell(v) for v in a] + [atomfun()])
                    r = r.v if isinstance(r, Cell) else r
                    if it.reallocs >= k and r == 0:
                        return 'allocation %d fails and the status is 0' % k
                self.do('dense directions', fc, fail, failing=(k,))


# ---- cases ----------------------------------------------------------------------------------------------------
def models():
    base = dict(n=3, m=4, jac=[(0, 0), (0, 1), (1, 1), (2, 0), (2, 2), (3, 1)], hes=[(0, 0, 0), (0, 1, 0), (2, 2, 0), (3, 1, 1)])
    wide = dict(n=4, m=2, jac=[(0, 0), (0, 1), (0, 3), (1, 1), (1, 2), (1, 3)], hes=[(0, 1, 0), (0, 3, 3), (1, 2, 1), (1, 3, 1)])
    full = dict(n=2, m=2, jac=[(0, 0), (0, 1), (1, 0), (1, 1)], hes=[(0, 0, 0), (0, 1, 0), (0, 1, 1), (1, 1, 0)])
    gaps = dict(n=4, m=4, jac=[(0, 2), (2, 0), (2, 2), (3, 0)], hes=[(2, 2, 2), (3, 0, 0), (2, 2, 0)])
    lin = dict(n=2, m=3, jac=[(0, 0), (2, 1)], hes=[])
    single = dict(n=1, m=1, jac=[(0, 0)], hes=[(0, 0, 0)])
    diag = dict(n=5, m=5, jac=[(i, i) for i in range(5)] + [(4, 0)], hes=[(i, i, i) for i in range(5)] + [(4, 4, 0)])
    return dict(base=base, wide=wide, full=full, gaps=gaps, lin=lin, single=single, diag=diag)


def cases(thorough):
    M = models()
    out = []

    def add(label, model, atomics=0, **o):
        out.append((label, dict(M[model], atomics=atomics), o))
    for k in M:
        add('everything ' + k, k, **ALL)
    for k in ('base', 'wide'):
        for a in (1, 2):
            add('everything with %d atomics %s' % (a, k), k, a, **ALL)
    mods = list(M) if thorough else ['base', 'wide', 'gaps']
    for k in mods:
        add('no reuse ' + k, k, **dict(ALL, SparseJacobianReuse1stOrderPasses=False, SparseHessianReusesRev2=False))
        add('forward mode ' + k, k, **dict(ALL, JacobianADMode='Forward'))
        add('reverse mode ' + k, k, **dict(ALL, JacobianADMode='Reverse'))
        add('split ' + k, k, 1, **dict(ALL, MaxAssignmentsPerFunc=2))
        add('short assignments ' + k, k, **dict(ALL, MaxOperationsPerAssignment=1))
        for mt in ('PTHREADS', 'OPENMP'):
            add('%s %s' % (mt, k), k, **dict(ALL, MultiThreading=True, mt=mt))
            add('%s reverse mode %s' % (mt, k), k, 1, **dict(ALL, MultiThreading=True, mt=mt, JacobianADMode='Reverse'))
            add('%s forward mode %s' % (mt, k), k, **dict(ALL, MultiThreading=True, mt=mt, JacobianADMode='Forward'))
        add('multithreading not allowed ' + k, k, **dict(ALL, MultiThreading=False, mt='PTHREADS'))
        add('by equation ' + k, k, **dict(ALL, CreateHessianSparsityByEquation=True))
    # each function alone
    for f in ALL:
        o = dict.fromkeys(ALL, False)
        o[f] = True
        add('only %s base' % f, 'base', **o)
        add('only %s base atomics' % f, 'base', 1, **o)
    add('nothing base', 'base', **dict.fromkeys(ALL, False))
    for a, b in (('CreateSparseJacobian', 'CreateForwardOne'), ('CreateSparseJacobian', 'CreateReverseOne'), ('CreateSparseHessian', 'CreateReverseTwo'),
                 ('CreateForwardOne', 'CreateReverseTwo')):
        o = dict.fromkeys(ALL, False)
        o[a] = o[b] = True
        for k in ('base', 'wide', 'gaps'):
            add('%s and %s %s' % (a, b, k), k, **o)
    add('typical values base', 'base', **dict(ALL, TypicalIndependentValues=[0.5, 1.5, 2.5]))
    add('by equation only base', 'base', **dict(dict.fromkeys(ALL, False), CreateHessianSparsityByEquation=True))
    # custom elements, in any order and repeated across rows
    J = M['base']['jac']
    for name, el in (('reversed', J[::-1]), ('some', [J[5], J[1], J[2]]), ('one column', [(0, 1), (3, 1), (1, 1)]), ('one row', [(2, 2), (2, 0)]),
                     ('mixed', [(2, 2), (0, 0), (3, 1), (2, 0), (0, 1)]), ('with a zero', [(0, 0), (0, 2), (2, 2)])):
        c = dict(CustomSparseJacobianElements=([i for i, _ in el], [j for _, j in el]))
        for mode in ('Automatic', 'Forward', 'Reverse'):
            add('custom Jacobian %s, %s' % (name, mode), 'base', **dict(ALL, JacobianADMode=mode, **c))
            rows = [{j for i, j in el if i == k} for k in range(4)]
            add('custom Jacobian sets %s, %s' % (name, mode), 'base', **dict(ALL, JacobianADMode=mode, CustomSparseJacobianElements=rows))
            add('custom Jacobian %s, %s, no reuse' % (name, mode), 'base', **dict(ALL, JacobianADMode=mode, SparseJacobianReuse1stOrderPasses=False, **c))
        add('custom Jacobian %s, threads' % name, 'base', **dict(ALL, MultiThreading=True, mt='PTHREADS', JacobianADMode='Forward', **c))
        add('custom Jacobian %s, threads, reverse' % name, 'base', **dict(ALL, MultiThreading=True, mt='OPENMP', JacobianADMode='Reverse', **c))
    Hs = [(0, 0), (0, 1), (1, 0), (1, 1), (0, 2), (2, 0)]
    for name, el in (('reversed', Hs[::-1]), ('lower', [(0, 0), (1, 0), (1, 1), (2, 0)]), ('upper', [(0, 2), (0, 1), (0, 0), (1, 1)]), ('mixed', [(1, 0), (0, 2), (1, 1)]),
                     ('one', [(2, 0)]), ('with a zero', [(0, 0), (2, 2), (0, 1)])):
        c = dict(CustomSparseHessianElements=([i for i, _ in el], [j for _, j in el]))
        rows = [{j for i, j in el if i == k} for k in range(3)]
        add('custom Hessian sets %s' % name, 'base', **dict(ALL, CustomSparseHessianElements=rows))
        add('custom Hessian %s' % name, 'base', **dict(ALL, **c))
        add('custom Hessian %s, no reuse' % name, 'base', **dict(ALL, SparseHessianReusesRev2=False, **c))
        add('custom Hessian %s, no reverse two' % name, 'base', **dict(ALL, CreateReverseTwo=False, **c))
        add('custom Hessian %s, threads' % name, 'base', **dict(ALL, MultiThreading=True, mt='PTHREADS', **c))
    out += [random_case(k) for k in range(400 if thorough else 40)]
    return out + loop_cases(thorough)


def random_case(seed):
    r = random.Random(7000 + seed)
    n, m = r.randint(1, 5), r.randint(1, 5)
    jac = [(i, j) for i in range(m) for j in range(n) if r.random() < r.choice((0.3, 0.6))]
    hes = [(i, a, b) for i in range(m) for a in range(n) for b in range(a + 1) if (i, a) in jac and (i, b) in jac and r.random() < 0.5]
    o = {k: r.random() < 0.8 for k in ALL}
    for k, p in (('SparseJacobianReuse1stOrderPasses', 0.7), ('SparseHessianReusesRev2', 0.7), ('CreateHessianSparsityByEquation', 0.2)):
        o[k] = r.random() < p
    o['JacobianADMode'] = r.choice(['Automatic', 'Forward', 'Reverse'])
    if r.random() < 0.3:
        o['MultiThreading'] = True
        o['mt'] = r.choice(['PTHREADS', 'OPENMP'])
    if r.random() < 0.3:
        o['MaxAssignmentsPerFunc'] = r.randint(1, 5)
    if jac and r.random() < 0.35:
        el = r.sample(jac, r.randint(1, len(jac)))
        o['CustomSparseJacobianElements'] = ([i for i, _ in el], [j for _, j in el])
    pat = sorted({e for i, a, b in hes for e in ((a, b), (b, a))})
    if pat and r.random() < 0.35:
        el = r.sample(pat, r.randint(1, len(pat)))
        o['CustomSparseHessianElements'] = ([i for i, _ in el], [j for _, j in el])
    return ('model %d' % seed, dict(n=n, m=m, jac=jac, hes=hes, atomics=r.choice([0, 0, 1, 2])), o)


def loop_cases(thorough):
    out = []
    F = fixed()
    for k, (T, rel) in F.items():
        out.append(('loops: ' + k, T, dict(ALL, RelatedDependents=rel)))
    some = list(F) if thorough else ['two equations', 'shared temporaries and free equations', 'missing equations', 'stencil and borders', 'constant places in some iterations']
    for k in some:
        T, rel = F[k]
        for name, o in (('no reuse', dict(SparseJacobianReuse1stOrderPasses=False, SparseHessianReusesRev2=False)), ('forward mode', dict(JacobianADMode='Forward')),
                        ('reverse mode, short assignments', dict(JacobianADMode='Reverse', MaxOperationsPerAssignment=1)),
                        ('split', dict(MaxAssignmentsPerFunc=2)), ('PTHREADS', dict(MultiThreading=True, mt='PTHREADS'))):
            out.append(('loops: %s, %s' % (k, name), T, dict(ALL, RelatedDependents=rel, **o)))
    return out + [random_loop_case(k) for k in range(250 if thorough else 30)]


def random_loop_case(seed):
    r = random.Random(3300 + seed)
    T, rel = random_model(seed)
    o = dict(ALL, RelatedDependents=rel)
    if seed % 2:
        o['JacobianADMode'] = r.choice(['Automatic', 'Forward', 'Reverse'])
        for k, p in (('SparseJacobianReuse1stOrderPasses', 0.6), ('SparseHessianReusesRev2', 0.6), ('CreateHessianSparsityByEquation', 0.2)):
            o[k] = r.random() < p
        for k in ALL:
            if r.random() < 0.15:
                o[k] = False
        if r.random() < 0.3:
            o['MultiThreading'] = True
            o['mt'] = r.choice(['PTHREADS', 'OPENMP'])
        if r.random() < 0.3:
            o['MaxAssignmentsPerFunc'] = r.randint(1, 5)
        if r.random() < 0.2:
            o['MaxOperationsPerAssignment'] = r.randint(1, 3)
        jac, pat = T.jac, T.hpat(range(T.m))
        if jac and r.random() < 0.4:
            el = r.sample(jac, r.randint(1, len(jac)))
            o['CustomSparseJacobianElements'] = ([i for i, _ in el], [j for _, j in el])
        if pat and r.random() < 0.4:
            el = r.sample(pat, r.randint(1, len(pat)))
            o['CustomSparseHessianElements'] = ([i for i, _ in el], [j for _, j in el])
    return 'loops: model %d' % seed, T, o


def elements(v):
    return list(zip(*v)) if isinstance(v, tuple) else [(i, j) for i, s in enumerate(v) for j in sorted(s)]


def generate(fx, case):
    label, fd, o = case
    fun = fd if isinstance(fd, Tape) else Fun(**fd)
    tapes = Tapes()
    it = Interp(fx, hooks=model_hooks(fun, tapes=tapes), max_paths=4, max_steps=12000000, loop_bound=800, max_depth=400)
    enums = {'JacobianADMode': {'Forward': 0, 'Reverse': 1, 'Automatic': 2}, 'mt': {'NONE': 0, 'OPENMP': 1, 'PTHREADS': 2}}
    for name, d in enums.items():
        e = enumvals(fx, NS + ('MultiThreadingType' if name == 'mt' else name))
        if e:
            d.update(e)

    def run(itp):
        g = ModelGen(itp, fun)
        kw = {k: v for k, v in o.items() if k != 'mt'}
        if 'JacobianADMode' in kw:
            kw['JacobianADMode'] = enums['JacobianADMode'][kw['JacobianADMode']]
        g.set(**kw)
        return g.sources(enums['mt'][o.get('mt', 'NONE')])
    return fun, it, list(it.explore(run))


def enumvals(fx, q):
    return getattr(fx, 'enums', {}).get(q)


def decide(fx, case):
    label, fd, o = case
    fun, it, res = generate(fx, case)
    out = []
    for r in res:
        if r[0] == 'abort':
            ub = UNDEFINED.search(str(r[1]))
            at = [fx.loc(i, l) for i, l in getattr(it, 'abort_at', [])[-1:]]
            out.append(('generates', 'bad' if ub else 'unk', '%s: the generation of the sources fails: %s%s' % (label, r[1], ' at ' + at[0] if at else '')))
            continue
        if r[0] == 'throw':
            out.append(('generates', 'bad', '%s: the generation throws: %s' % (label, r[1])))
            continue
        L = Linked(fx, r[1])
        if L.err:
            out.append(('compiles', 'bad', '%s: %s: %s' % ((label,) + L.err[0])))
            continue
        p = L.program()
        if p.multi:
            out.append(('compiles', 'bad', '%s: several definitions of %s' % (label, p.multi[0])))
            continue
        out.append(('compiles', 'ok', label))
        jp = list(fun.jac)
        hp = fun.hpat(range(fun.m))
        if 'CustomSparseJacobianElements' in o:
            jp = elements(o['CustomSparseJacobianElements'])
        if 'CustomSparseHessianElements' in o:
            hp = elements(o['CustomSparseHessianElements'])
        v = Verify(L, fun, o, jp, hp)
        v.hp2 = hp
        v.describe()
        v.patterns()
        v.values()
        v.sparse_dirs()
        v.dense_dirs()
        out += [(a, b, '%s: %s' % (label, t)) for a, b, t in v.out]
    return out, it.visited, it.unmodelled


def run(ctx):
    fx = facts.facts('main')
    where = fx.loc(fx.find(NS + 'ModelCSourceGen::generateSources')[0])
    cs = cases(ctx.thorough)
    res = pmap(lambda c: decide(fx, c), cs)
    vis, unm = set(), {}
    for c, (out, v, u) in zip(cs, res):
        ctx.count('models')
        vis |= v
        for k, n in u.items():
            unm[k] = unm.get(k, 0) + n
        for rule, verdict, txt in out:
            if verdict == 'ok':
                ctx.ok(rule, txt)
            elif verdict == 'unk':
                ctx.unk(rule, txt)
            else:
                fn = txt.split(': ')[1] if ': ' in txt else ''
                ctx.bad(rule, fn, where, txt)
    ctx.count('functions analysed', len(vis))
    ctx.count('functions taken as opaque', len(unm))
    for r, k in (('compiles', 2 * len(cs) // 3), ('description', len(cs)), ('values', len(cs) // 2), ('dense derivatives', len(cs) // 2), ('sparse derivatives', len(cs)),
                 ('patterns', len(cs)), ('sparse directions', 3 * len(cs)), ('dense directions', 5 * len(cs))):
        ctx.need(r, k)
