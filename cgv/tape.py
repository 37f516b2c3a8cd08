"""Operation sequences (CppAD::ADFun) over recorded scalars: a function recorded by the code itself, or given as an expression graph, with its
exact derivatives by symbolic differentiation."""
from .absint import AMap, Cell, Obj, Term, Vec
from .cgmodel import SEM1, SEM2, SEM4
from .facts import AnalysisError
from .gen import G, evaluate

FN1 = {'acos': 'Acos', 'acosh': 'Acosh', 'asin': 'Asin', 'asinh': 'Asinh', 'atan': 'Atan', 'atanh': 'Atanh', 'cosh': 'Cosh', 'cos': 'Cos', 'exp': 'Exp',
       'log': 'Log', 'sinh': 'Sinh', 'sin': 'Sin', 'sqrt': 'Sqrt', 'tanh': 'Tanh', 'tan': 'Tan', 'abs': 'Abs', 'fabs': 'Abs', 'sign': 'Sign',
       'erf': 'Erf', 'erfc': 'Erfc', 'expm1': 'Expm1', 'log1p': 'Log1p'}


class Sym(G):
    """expression graph with folding of constants and derivatives"""

    def __init__(self, nx):
        G.__init__(self, nx)
        self.dm = {}
        self.cse = {}

    def mk(self, op, *a):
        if all(not isinstance(x, tuple) for x in a):
            return SEM1[op](*a) if op in SEM1 else SEM2[op](*a)
        c = [x if not isinstance(x, tuple) else None for x in a]
        if op == 'Add' and c[0] == 0:
            return a[1]
        if op in ('Add', 'Sub') and c[1] == 0:
            return a[0]
        if op == 'Sub' and c[0] == 0:
            op, a = 'UnMinus', (a[1],)
        if op == 'Mul' and 0 in c:
            return 0.0
        if op == 'Mul' and c[0] == 1:
            return a[1]
        if op in ('Mul', 'Div') and c[1] == 1:
            return a[0]
        if op == 'Div' and c[0] == 0:
            return 0.0
        k = (op, a)
        if k not in self.cse:
            self.cse[k] = self(op, *a)
        return self.cse[k]

    def d(self, a, j):
        if not isinstance(a, tuple):
            return 0.0
        if a[0] == 'x':
            return 1.0 if a[1] == j else 0.0
        k = (a[1], j)
        if k not in self.dm:
            self.dm[k] = self.deriv(a, j)
        return self.dm[k]

    def deriv(self, n, j):
        op, args, _ = self.nodes[n[1]]
        mk = self.mk
        if op in SEM4:
            x, y = self.d(args[2], j), self.d(args[3], j)
            return 0.0 if x == 0 and y == 0 else self(op, args[0], args[1], x, y)
        D = [self.d(a, j) for a in args]
        if all(x == 0.0 and not isinstance(x, tuple) for x in D):
            return 0.0
        a = args[0]
        if op == 'Add':
            return mk('Add', *D)
        if op == 'Sub':
            return mk('Sub', *D)
        if op == 'Mul':
            return mk('Add', mk('Mul', D[0], args[1]), mk('Mul', args[0], D[1]))
        if op == 'Div':
            return mk('Div', mk('Sub', D[0], mk('Mul', n, D[1])), args[1])
        if op == 'Pow' and not isinstance(args[1], tuple):
            return mk('Mul', mk('Mul', args[1], mk('Pow', a, args[1] - 1)), D[0])
        if op == 'Pow':
            return mk('Mul', n, mk('Add', mk('Mul', D[1], mk('Log', a)), mk('Div', mk('Mul', args[1], D[0]), a)))
        f = {'UnMinus': lambda: -1.0, 'Sin': lambda: mk('Cos', a), 'Cos': lambda: mk('UnMinus', mk('Sin', a)), 'Exp': lambda: n, 'Alias': lambda: 1.0, 'Pri': lambda: 1.0,
             'Log': lambda: mk('Div', 1.0, a), 'Sqrt': lambda: mk('Div', 0.5, n), 'Tan': lambda: mk('Add', 1.0, mk('Mul', n, n)),
             'Tanh': lambda: mk('Sub', 1.0, mk('Mul', n, n)), 'Sinh': lambda: mk('Cosh', a), 'Cosh': lambda: mk('Sinh', a), 'Abs': lambda: mk('Sign', a),
             'Sign': lambda: 0.0}.get(op)
        if f is None:
            raise AnalysisError('no derivative of %s' % op)
        return mk('Mul', f(), D[0])


class Tape:
    """a function y(x) with its Jacobian and Hessians; same interface as modelgen.Fun"""
    atomics = 0

    def __init__(self, g, F):
        self.g, self.n, self.m, self.F = g, g.nx, len(F), list(F)
        self.J, self.H = {}, {}
        for i, e in enumerate(self.F):
            for j in sorted(self.deps(e)):
                dj = g.d(e, j)
                if dj == 0.0 and not isinstance(dj, tuple):
                    continue
                self.J[i, j] = dj
                for k in sorted(self.deps(dj)):
                    h = g.d(dj, k)
                    if isinstance(h, tuple) or h != 0.0:
                        self.H[i, j, k] = h
        for i, j, k in list(self.H):       # symmetric patterns
            self.H.setdefault((i, k, j), self.H[i, j, k])
        self.jac, self.hes = sorted(self.J), sorted(self.H)

    def deps(self, e):
        seen, out, todo = set(), set(), [e]
        while todo:
            a = todo.pop()
            if not isinstance(a, tuple) or a in seen:
                continue
            seen.add(a)
            if a[0] == 'x':
                out.add(a[1])
            else:
                todo += self.g.nodes[a[1]][1]
        return out

    def conditional(self):
        return any(op.startswith('Com') for op, a, *_ in self.g.nodes)

    def jrow(self, i):
        return [j for r, j in self.jac if r == i]

    def hpat(self, eqs):
        return sorted({(a, b) for i, a, b in self.hes if i in eqs})

    def val(self, ref, xs):
        return evaluate(self.g, [ref], xs)[0]

    def j(self, i, j, xs):
        return self.val(self.J[i, j], xs) if (i, j) in self.J else 0.0

    def h(self, a, b, xs, ws):
        return sum(ws[i] * self.val(self.H[i, p, q], xs) for i, p, q in self.hes if (p, q) == (a, b))


class Tapes:
    """the operation sequences the code records during an interpretation (CppAD::Independent ... ADFun::Dependent)"""

    def __init__(self, base='double'):
        self.base = base
        self.CG = 'CppAD::cg::CG<%s>' % base
        self.AD = 'CppAD::AD<%s>' % self.CG
        self.n = 0
        self.open = None
        self.funs = {}

    def of(self, cell):
        """the tape of a function object, or None"""
        o = cell.v
        r = self.funs.get(id(o))
        return r[1] if r is not None and r[0] is o else None

    def independent(self, it, f, this, args, line):
        x = args[0].v.c
        self.n += 1
        self.open = (self.n, len(x))
        for j, c in enumerate(x):
            c.v = Term('adx', self.n, j)
        return None

    def term(self, t, g, memo, it):
        """operand of the graph for a value of type AD"""
        if isinstance(t, Obj):
            return self.scalar(t, it)
        if isinstance(t, (int, float)):
            return float(t)
        if not isinstance(t, Term):
            raise AnalysisError('a value of an operation sequence is %r' % (t,))
        if id(t) in memo:
            return memo[id(t)][1]
        r = self.term_(t, g, memo, it)
        memo[id(t)] = (t, r)
        return r

    def scalar(self, o, it):
        from .cgmodel import Model
        m = Model(it.fx, self.base)
        if m.cg_node not in o.f or o.f[m.cg_node].v is not None and str(o.f[m.cg_node].v) != 'NULL' and o.f[m.cg_node].v.__class__.__name__ == 'Ptr':
            raise AnalysisError('a variable of another session in an operation sequence')
        p = o.f[m.cg_val].v.f['p'].v
        return 0.0 if p.__class__.__name__ != 'Ptr' else float(it.deref(p).v)

    def term_(self, t, g, memo, it):
        sub = lambda a: self.term(a, g, memo, it)
        if t.op == 'adx':
            if t.args[0] != self.open[0]:
                raise AnalysisError('an operation sequence uses variables of another one')
            return ('x', t.args[1])
        if t.op.startswith('ctor:CppAD::AD') or t.op.startswith('cast') or t.op.startswith('ctor:' + self.CG):
            return sub(t.args[-1]) if t.args else 0.0
        op = t.op[12:] if t.op.startswith('call:CppAD::') else t.op
        if op in ('+', '-', '*', '/'):
            return g.mk({'+': 'Add', '-': 'Sub', '*': 'Mul', '/': 'Div'}[op], *[sub(a) for a in t.args])
        if op == 'neg':
            return g.mk('UnMinus', sub(t.args[0]))
        if op == 'pow':
            return g.mk('Pow', *[sub(a) for a in t.args])
        if op.startswith('cond') and len(t.args) == 4:
            names = {v: k for k, v in it.fx.enum('CppAD::CompareOp').items()}
            a = [sub(x) for x in t.args]
            return g('Com' + names[int(op[4:])][7:], *a)
        if op in FN1:
            return g.mk(FN1[op], sub(t.args[0]))
        raise AnalysisError('operation %s in an operation sequence' % t.op)

    def dependent(self, it, f, this, args, line):
        y = [c.v for c in args[-1].v.c]
        g = Sym(self.open[1])
        memo = {}
        F = [self.term(t, g, memo, it) for t in y]
        self.funs[id(this.v)] = (this.v, Tape(g, F))
        return None

    def hooks(self):
        from .checks.e01 import adhook
        return {**sparse_hooks(), 'CppAD::Independent': self.independent, 'CppAD::ADFun::Dependent': self.dependent, '*': adhook,
                'CppAD::ADFun::ADFun': lambda *a: None}


# ---- sets of indexes of CppAD ---------------------------------------------------------------------------
SETS = 'CppAD::local::sparse::size_setvec'


class SetVec:
    """state of a vector of sets (shared by nothing)"""

    def __init__(self, n=0, end=0):
        self.rows = [set() for _ in range(n)]
        self.end = end


def sparse_hooks():
    keep = {}

    def state(o):
        r = keep.get(id(o))
        if r is None or r[0] is not o:
            r = keep[id(o)] = (o, SetVec())
        return r[1]

    def num(c):
        if not isinstance(c.v, int):
            raise AnalysisError('an unknown index in a sparsity pattern')
        return c.v

    def resize(it, f, this, args, line):
        keep[id(this.v)] = (this.v, SetVec(num(args[0]), num(args[1])))

    def row(s, i):
        if not 0 <= i < len(s.rows):
            raise AnalysisError('a set outside of the vector of sets')
        return s.rows[i]

    def add(it, f, this, args, line):
        s = state(this.v)
        row(s, num(args[0])).add(num(args[1]))

    def has(it, f, this, args, line):
        return num(args[1]) in row(state(this.v), num(args[0]))

    def iterator(it, f, e, args):
        o = Obj('CppAD::local::sparse::size_setvec_const_iterator')
        s = state(args[0].v)
        keep[id(o)] = (o, [sorted(row(s, num(args[1]))) + [s.end], 0])
        return o

    def cur(it, f, this, args, line):
        l, k = keep[id(this.v)][1]
        return l[min(k, len(l) - 1)]

    def inc(it, f, this, args, line):
        keep[id(this.v)][1][1] += 1
        return this

    def user(it, f, this, args, line):
        o, u, n, end, tr = args[0].v, args[1].v, num(args[2]), num(args[3]), args[4].v
        s = SetVec(n, end)
        rows = [{e.v if isinstance(e, Cell) else e for e in (c.v.c if isinstance(c.v, Vec) else [k for k, _ in c.v.d])} for c in u.c]
        if len(rows) != (end if tr else n):
            raise AnalysisError('a sparsity pattern with %d sets' % len(rows))
        for i, r in enumerate(rows):
            for j in r:
                row(s, j if tr else i).add(i if tr else j)
        keep[id(o)] = (o, s)

    def sort(it, f, this, args, line):
        k = [num(c) for c in args[0].v.c]
        for c, i in zip(args[1].v.c, sorted(range(len(k)), key=lambda i: k[i])):
            c.v = i

    def bits(it, f, e, args):
        n = num(args[0]) if args else 0
        return Vec([Cell(None, 'bool') for _ in range(n)], 'bool', 'CppAD::vector')
    I = 'CppAD::local::sparse::size_setvec_const_iterator'
    return {SETS + '::resize': resize, SETS + '::add_element': add, SETS + '::is_element': has, SETS + '::end': lambda it, f, this, *a: state(this.v).end,
            SETS + '::n_set': lambda it, f, this, *a: len(state(this.v).rows), 'ctor:' + I: iterator, I + '::operator*': cur, I + '::operator++': inc,
            'CppAD::local::sparse::sparsity_user2internal': user, 'CppAD::index_sort': sort, 'ctor:CppAD::vectorBool': bits,
            'CppAD::CheckSimpleVector': lambda *a: None}
