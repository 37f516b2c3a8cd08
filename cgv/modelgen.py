"""Whole model source generations: the model generator class is constructed and configured through its own interface and interpreted; the
taped function is an abstract object which answers the queries of the generator (values, derivatives, sparsity) with expressions of known
meaning. The generated C files are linked and interpreted afterwards."""
from .absint import AMap, AStr, Cell, NULL, Obj, Ptr, Stream, Term, Vec
from .cgmodel import NS, SEM1, SEM2, SEM4, Model, clsn
from .facts import AnalysisError
from .gen import ATOMNAME, G, evaluate, gen_hooks, text
from .world import World, make, vec

FUN = 'CppAD::ADFun::'


class Fun:
    """the function that is modelled: y_i(x), its Jacobian and the Hessians of its equations, as expressions over x (given pattern)"""

    def __init__(self, n, m, jac, hes, atomics=0):
        """jac: (i, j); hes: (i, j, k) (j >= k, symmetric)"""
        self.n, self.m = n, m
        self.jac = sorted(set(jac))
        self.hes = sorted({(i, a, b) for i, j, k in hes for a, b in ((j, k), (k, j))})
        self.atomics = atomics
        self.g = g = G(n)
        X = [('x', j) for j in range(n)]
        at = []
        for a in range(atomics):
            ty = g.zeros(2)
            c = g.forward(a, 0, 0, [g.array(*X)], [ty])
            at.append([g.elem(ty, c, k) for k in range(2)])
        self.F = []
        for i in range(m):
            e = g('Sub', g(('Sin', 'Cos', 'Exp')[i % 3], X[i % n]), 0.5 + i)
            if at:
                e = g('Add', e, at[i % atomics][i % 2])
            self.F.append(e)
        self.J = {}
        for k, (i, j) in enumerate(self.jac):
            if k % 5 == 4:
                self.J[i, j] = 1.5 + k            # linear
            elif at and k % 3 == 1:
                self.J[i, j] = g('Mul', at[-1][k % 2], 0.25 + k)
            else:
                self.J[i, j] = g('Sub', g('Mul', X[j], 0.75 + k), X[(i + 1) % n])
        self.H = {}
        for k, (i, a, b) in enumerate(self.hes):
            if (i, b, a) in self.H:
                self.H[i, a, b] = self.H[i, b, a]
            elif k % 4 == 3:
                self.H[i, a, b] = 2.5 + k
            else:
                self.H[i, a, b] = g('Sub', g('Mul', X[a], 1.25 + k), g('Mul', X[b], X[(i + b) % n]))

    def jrow(self, i):
        return [j for r, j in self.jac if r == i]

    def hpat(self, eqs):
        return sorted({(a, b) for i, a, b in self.hes if i in eqs})

    # reference values
    def val(self, ref, xs):
        return evaluate(self.g, [ref], xs)[0]

    def j(self, i, j, xs):
        return self.val(self.J[i, j], xs) if (i, j) in self.J else 0.0

    def h(self, a, b, xs, ws):
        return sum(ws[i] * self.val(self.H[i, p, q], xs) for i, p, q in self.hes if (p, q) == (a, b))


class Rec:
    """records expressions of Fun in the handler of given independents"""

    def __init__(self, it, fun, x, base, strict=True):
        self.it, self.fun, self.base = it, fun, base
        w = self.w = World.__new__(World)
        w.it, w.fx, w.base = it, it.fx, base
        w.m = Model(it.fx, base)
        self.x = x
        n = [c.v.f[w.m.cg_node].v for c in x]
        n = [p for p in n if p is not NULL and p is not None]
        if not n or strict and len(n) != len(x):
            raise AnalysisError('an independent variable given to the function is not a variable')
        o = it.deref(n[0]).v
        self.ids = [id(it.deref(p).v) for p in n]
        h = [c.v for q, c in o.f.items() if q == w.m.n_handler]
        if not h or h[0] is NULL:
            raise AnalysisError('an independent variable has no handler')
        w.h = it.deref(h[0])
        w.hp = h[0]
        self.memo = {}

    def same(self, other):
        return self.ids == other.ids

    def uses(self, cells):
        """whether variables among these scalars belong to the same session"""
        for c in cells:
            p = c.v.f[self.w.m.cg_node].v
            if p is not NULL and p is not None and self.it.deref(self.it.deref(p).v.f[self.w.m.n_handler].v) is not self.w.h:
                return False
        return True

    def ref(self, a):
        if not isinstance(a, tuple):
            return float(a)
        if a[0] == 'x':
            return self.x[a[1]]
        if a[1] not in self.memo:
            op, args, info = self.fun.g.nodes[a[1]]
            if op in ('AtomicForward', 'AtomicReverse'):
                self.register(info[0])
            v = [self.ref(b) for b in args]
            self.memo[a[1]] = self.fold(op, v) if op in SEM1 or op in SEM2 or op in SEM4 else self.w.node(op, v, info)
        return self.memo[a[1]]

    def fold(self, op, v):
        """the result of the operators of the recording type"""
        v = [self.par(a) if isinstance(a, Cell) and self.par(a) is not None else a for a in v]
        num = [isinstance(a, (int, float)) for a in v]
        if all(num):
            return SEM1[op](*v) if op in SEM1 else SEM2[op](*v) if op in SEM2 else v[2] if SEM4[op](v[0], v[1]) else v[3]
        if op == 'Add':
            return self.add(*v)
        if op in ('Mul', 'Div') and num[1] and v[1] == 1 or op == 'Sub' and num[1] and v[1] == 0:
            return v[0]
        if op == 'Mul' and (num[0] and v[0] == 0 or num[1] and v[1] == 0) or op == 'Div' and num[0] and v[0] == 0:
            return 0.0
        if op == 'Mul' and num[0] and v[0] == 1:
            return v[1]
        if op == 'Sub' and num[0] and v[0] == 0:
            return self.w.node('UnMinus', [v[1]])
        if op in SEM4 and num[0] and num[1]:
            return v[2] if SEM4[op](v[0], v[1]) else v[3]
        return self.w.node(op, v)

    def register(self, fid):
        c = self.it.field(self.w.h, NS + 'CodeHandler::_atomicFunctions')
        if any(k == fid for k, _ in c.v.d):
            return
        o = Obj(clsn('CGAbstractAtomicFun', self.base), tag='atomfun%d' % fid)
        c.v.d.append([fid, Cell(Ptr(Cell(o, o.cls)))])

    def par(self, cg):
        """parameter value of a scalar, or None for a variable"""
        if cg.v.f[self.w.m.cg_node].v is not NULL:
            return None
        v = cg.v.f[self.w.m.cg_val].v
        p = v.f['p'].v
        return 0.0 if p is NULL else self.it.deref(p).v

    def const(self, v):
        return Cell(self.w.m.cg(None, float(v)), self.w.m.CG)

    def out(self, a):
        """the scalar for an operand: number, node pointer or scalar cell"""
        if isinstance(a, (int, float)):
            return self.const(a)
        if isinstance(a, Cell):
            return Cell(self.it.copy(a.v), self.w.m.CG)
        return self.w.cg(a)

    def mul(self, a, cg):
        """operand * scalar"""
        p = self.par(cg)
        if p is not None:
            if p == 0:
                return 0.0
            if isinstance(a, (int, float)):
                return a * p
            return a if p == 1 else self.w.node('Mul', [a, p])
        return self.w.node('Mul', [a, cg])

    def add(self, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a + b
        if isinstance(a, (int, float)) and a == 0:
            return b
        if isinstance(b, (int, float)) and b == 0:
            return a
        return self.w.node('Add', [a, b])


def model_hooks(main, base='double', tapes=None):
    states = {}

    def who(cell):
        """the function of an object and the state of its evaluations"""
        t = tapes.of(cell) if tapes is not None else None
        f = t or main
        return f, states.setdefault(id(f), {})

    def seq(c):
        v = c.v
        if not isinstance(v, Vec):
            raise AnalysisError('not a vector: %r' % v)
        return v.c

    def rec(it, fun, x):
        c = seq(x)
        if len(c) != fun.n:
            raise AnalysisError('the function is evaluated with %d independent variables instead of %d' % (len(c), fun.n))
        return Rec(it, fun, c, base, fun is main)

    def ret(r, vals):
        return Vec([r.out(v) for v in vals], r.w.m.CG, 'std::vector')

    def forward(it, f, this, args, line):
        fun, st = who(this)
        q = args[0].v
        if q == 0:
            st['x'] = r = rec(it, fun, args[1])
            return ret(r, [r.ref(e) for e in fun.F])
        if q != 1:
            raise AnalysisError('forward mode of order %r' % q)
        r = st['x']
        dx = seq(args[1])
        if not r.uses(dx):
            raise AnalysisError('the function is evaluated at the point of another session')
        st['dx'] = [Cell(it.copy(c.v), c.t) for c in dx]
        y = []
        for i in range(fun.m):
            s = 0.0
            for j in range(fun.n):
                if (i, j) in fun.J:
                    s = r.add(s, r.mul(r.ref(fun.J[i, j]), dx[j]))
            y.append(s)
        return ret(r, y)

    def reverse(it, f, this, args, line):
        fun, st = who(this)
        q, w = args[0].v, seq(args[1])
        r = st['x']
        if not r.uses(w):
            raise AnalysisError('the function is evaluated at the point of another session')
        if len(w) != fun.m:
            raise AnalysisError('reverse mode with %d weights' % len(w))
        jt = []
        for j in range(fun.n):
            s = 0.0
            for i in range(fun.m):
                if (i, j) in fun.J:
                    s = r.add(s, r.mul(r.ref(fun.J[i, j]), w[i]))
            jt.append(s)
        if q == 1:
            return ret(r, jt)
        if q != 2:
            raise AnalysisError('reverse mode of order %r' % q)
        out = []
        for j in range(fun.n):
            s = 0.0
            for i, a, b in fun.hes:
                if a == j:
                    t = r.mul(r.ref(fun.H[i, a, b]), st['dx'][b])
                    if isinstance(t, (int, float)) and t == 0:
                        continue
                    s = r.add(s, r.mul(t, w[i]))
            out += [jt[j], s]
        return ret(r, out)

    def dense_jac(it, f, this, args, line):
        fun, st = who(this)
        r = rec(it, fun, args[0])
        return ret(r, [r.ref(fun.J.get((i, j), 0.0)) for i in range(fun.m) for j in range(fun.n)])

    def dense_jac_fr(it, f, this, args, line):
        fun, st = who(args[0])
        # CppAD determines the Jacobian at the point of the last zero-order evaluation: the second argument is not used
        r, want = st.get('x'), rec(it, fun, args[1])
        if r is None or not r.same(want):
            for c in seq(args[2]):
                c.v = want.out(1e9).v
            return None
        for c, v in zip(seq(args[2]), [r.ref(fun.J.get((i, j), 0.0)) for i in range(fun.m) for j in range(fun.n)]):
            c.v = r.out(v).v
        return None

    def hl(r, a, b, w):
        fun = r.fun
        s = 0.0
        for i, p, q in fun.hes:
            if (p, q) == (a, b):
                s = r.add(s, r.mul(r.ref(fun.H[i, p, q]), w[i]))
        return s

    def dense_hes(it, f, this, args, line):
        fun, st = who(this)
        r = rec(it, fun, args[0])
        w = seq(args[1])
        return ret(r, [hl(r, a, b, w) for a in range(fun.n) for b in range(fun.n)])

    def nums(c):
        out = [x.v for x in seq(c)]
        if any(not isinstance(v, int) for v in out):
            raise AnalysisError('indexes of elements to evaluate are not known')
        return out

    def sparse_jac(it, f, this, args, line):
        fun, st = who(this)
        r = rec(it, fun, args[0])
        rows, cols, out = nums(args[2]), nums(args[3]), seq(args[4])
        if not len(rows) == len(cols) == len(out):
            raise AnalysisError('sparse Jacobian evaluation with %d rows, %d columns, %d elements' % (len(rows), len(cols), len(out)))
        for i, j, c in zip(rows, cols, out):
            c.v = r.out(r.ref(fun.J.get((i, j), 0.0))).v
        return len(rows)

    def sparse_hes(it, f, this, args, line):
        fun, st = who(this)
        r = rec(it, fun, args[0])
        w = seq(args[1])
        rows, cols, out = nums(args[3]), nums(args[4]), seq(args[5])
        if not len(rows) == len(cols) == len(out) or len(w) != fun.m:
            raise AnalysisError('sparse Hessian evaluation with %d rows, %d columns, %d elements' % (len(rows), len(cols), len(out)))
        for a, b, c in zip(rows, cols, out):
            c.v = r.out(hl(r, a, b, w)).v
        return len(rows)

    def sets(c):
        out = []
        for x in seq(c):
            out.append({e.v if isinstance(e, Cell) else e for e in elements(x.v)})
        return out

    def elements(v):
        if isinstance(v, Vec):
            return v.c
        if isinstance(v, AMap):
            return [k for k, _ in v.d]
        raise AnalysisError('not a set: %r' % v)

    def setvec(it, f, rows):
        proto = Vec([], 'std::set<unsigned long>', 'std::vector')
        for s in rows:
            proto.c.append(Cell(newset(it, s), 'std::set<unsigned long>'))
        return proto

    def newset(it, s):
        v = it.default('std::set<unsigned long>')
        if isinstance(v, AMap):
            for k in sorted(s):
                v.d.append([k, Cell(True)])
        else:
            v.c = [Cell(k, 'unsigned long') for k in sorted(s)]
        return v

    def for_jac(it, f, this, args, line):
        fun, st = who(this)
        r = sets(args[1])
        st['r'] = r
        return setvec(it, f, [set().union(*[r[j] for j in fun.jrow(i)]) if fun.jrow(i) else set() for i in range(fun.m)])

    def rev_jac(it, f, this, args, line):
        fun, st = who(this)
        s = sets(args[1])
        return setvec(it, f, [set().union(set(), *[set(fun.jrow(i)) for i in e]) for e in s])

    def rev_hes(it, f, this, args, line):
        fun, st = who(this)
        q, s = args[0].v, sets(args[1])
        if 'r' not in st:
            raise AnalysisError('Hessian sparsity requested without a forward sparsity sweep')
        pat = fun.hpat(s[0])
        return setvec(it, f, [{b for a, b in pat if k in st['r'][a]} for k in range(q)])

    def atomics(it, f, this, args, line):
        v = it.default('std::map<unsigned long, CppAD::cg::AtomicUseInfo<double>>')
        for a in range(main.atomics):
            v.d.append([a, Cell(Obj('CppAD::cg::AtomicUseInfo<double>'))])
        return v
    h = gen_hooks()
    h.update({FUN + 'Domain': lambda it, f, this, *a: who(this)[0].n, FUN + 'Range': lambda it, f, this, *a: who(this)[0].m, FUN + 'Forward': forward, FUN + 'Reverse': reverse,
              FUN + 'Jacobian': dense_jac, FUN + 'Hessian': dense_hes, FUN + 'SparseJacobianForward': sparse_jac, FUN + 'SparseJacobianReverse': sparse_jac,
              FUN + 'SparseHessian': sparse_hes, FUN + 'ForSparseJac': for_jac, FUN + 'RevSparseJac': rev_jac, FUN + 'RevSparseHes': rev_hes,
              'std::type_info::name': lambda *a: AStr(({'double': 'd', 'float': 'f'}[base],)),
              'CppAD::JacobianFor': dense_jac_fr, 'CppAD::JacobianRev': dense_jac_fr, NS + 'AtomicDependencyLocator::findAtomicsUsage': atomics})
    if tapes is not None:
        h.update(tapes.hooks())
    return h


class ModelGen:
    """a model source generator object of the code"""

    def __init__(self, it, fun, name='model', base='double'):
        self.it, self.fx, self.base = it, it.fx, base
        self.cls = clsn('ModelCSourceGen', base)
        self.fun = Cell(Obj('CppAD::ADFun<%s>' % clsn('CG', base), tag='fun'))
        self.o = make(it, self.cls, [self.fun, Cell(AStr((name,)))], pred=lambda p: len(p) == 2)

    def call(self, n, args=(), pred=None):
        r = [i for i in self.fx.find(NS + 'ModelCSourceGen::' + n, clsx=self.cls) if pred is None or pred(self.fx.ptypes(i))]
        if not r:
            raise AnalysisError('anchor not found: ModelCSourceGen::' + n)
        v = self.it.call(r[0], self.o, list(args))
        return v.v if isinstance(v, Cell) else v

    def set(self, **kw):
        for k, v in kw.items():
            n = 'set' + k
            if isinstance(v, bool):
                self.call(n, [Cell(v, 'bool')])
            elif isinstance(v, tuple):
                self.call(n, [Cell(vec([Cell(e, 'unsigned long') for e in x], 'unsigned long')) for x in v],
                          pred=lambda p: len(p) == 2)
            elif isinstance(v, list) and any(isinstance(e, set) for e in v):
                rows = []
                for e in v:
                    r = self.it.default('std::set<unsigned long>')
                    if isinstance(r, AMap):
                        r.d += [[k2, Cell(True)] for k2 in sorted(e)]
                    else:
                        r.c += [Cell(k2, 'unsigned long') for k2 in sorted(e)]
                    rows.append(Cell(r, 'std::set<unsigned long>'))
                self.call(n, [Cell(vec(rows, 'std::set<unsigned long>'))], pred=lambda p: len(p) == 1)
            elif isinstance(v, list):
                self.call(n, [Cell(vec([Cell(float(e), 'double') for e in v], 'double'))])
            else:
                self.call(n, [Cell(v)])

    def sources(self, mt=0):
        """file name -> text"""
        self.call('generateSources', [Cell(mt, NS + 'MultiThreadingType'), Cell(NULL)])
        c = self.it.field(self.o, NS + 'ModelCSourceGen::_sources')
        return {text(k) if isinstance(k, AStr) else k: text(v.v) for k, v in c.v.d}
