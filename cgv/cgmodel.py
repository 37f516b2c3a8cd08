"""Abstract CG operands / operation nodes and the denotation of value numbers and recorded nodes."""
import itertools
import math

from .absint import AStr, Cell, NULL, Obj, Ptr, Term, Vec
from .facts import AnalysisError

NS = 'CppAD::cg::'


def clsn(name, base='double'):
    return '%s%s<%s>' % (NS, name, base)


def need_fields(fx, cls, names):
    r = fx.recs.get(cls)
    if r is None:
        raise AnalysisError('class not found: ' + cls)
    have = {f['n'] for f in r['fields']}
    for n in names:
        if n not in have:
            raise AnalysisError('field %s of %s not found' % (n, cls))


class Model:
    """builds abstract objects; field names are taken from the current class definitions"""

    def __init__(self, fx, base='double'):
        self.fx = fx
        self.base = base
        self.CG, self.NODE, self.ARG = clsn('CG', base), clsn('OperationNode', base), clsn('Argument', base)
        self.H = clsn('CodeHandler', base)
        # roles are found by type so that a renamed field keeps its role
        self.cg_node = self.role(self.CG, lambda t: t == self.NODE + ' *')
        self.cg_val = self.role(self.CG, lambda t: t.startswith('std::unique_ptr<'))
        self.n_handler = self.role(self.NODE, lambda t: t == self.H + ' *')
        self.n_op = self.role(self.NODE, lambda t: t == NS + 'CGOpCode')
        self.n_args = self.role(self.NODE, lambda t: t.startswith('std::vector<' + self.ARG))
        self.n_info = self.role(self.NODE, lambda t: t.startswith('std::vector<unsigned long'))
        self.n_name = self.role(self.NODE, lambda t: t.startswith('std::unique_ptr<std::basic_string'))
        self.a_node = self.role(self.ARG, lambda t: t == self.NODE + ' *')
        self.a_par = self.role(self.ARG, lambda t: t.startswith('std::unique_ptr<'))
        self.ops = fx.enum(NS + 'CGOpCode')
        self.opname = {v: k for k, v in self.ops.items()}

    def role(self, cls, pred):
        r = self.fx.recs.get(cls)
        if r is None:
            raise AnalysisError('class not found: ' + cls)
        m = [f['q'] for f in r['fields'] if pred(self.fx.t(f['t']).replace('const ', ''))]
        if len(m) != 1:
            raise AnalysisError('cannot identify the field of %s by type: %s' % (cls, m))
        return m[0]

    def uptr(self, v=NULL):
        o = Obj('unique_ptr')
        o.f['p'] = Cell(v)
        return o

    def handler(self, tag='H'):
        return Obj(self.H, tag=tag)

    def node(self, op, args=(), info=(), h=None, tag=None):
        n = Obj(self.NODE, tag=tag)
        n.f[self.n_handler] = Cell(Ptr(Cell(h, self.H)) if h is not None else NULL)
        n.f[self.n_op] = Cell(self.ops[op] if isinstance(op, str) else op, NS + 'CGOpCode')
        n.f[self.n_args] = Cell(Vec([Cell(a, self.ARG) for a in args], self.ARG, 'std::vector'))
        n.f[self.n_info] = Cell(Vec([Cell(i, 'unsigned long') for i in info], 'unsigned long', 'std::vector'))
        n.f[self.n_name] = Cell(self.uptr())
        return n

    def arg_node(self, n):
        a = Obj(self.ARG)
        a.f[self.a_node] = Cell(Ptr(Cell(n, self.NODE)))
        a.f[self.a_par] = Cell(self.uptr())
        return a

    def arg_par(self, v):
        a = Obj(self.ARG)
        a.f[self.a_node] = Cell(NULL)
        a.f[self.a_par] = Cell(self.uptr(Ptr(Cell(v, self.base))))
        return a

    def cg(self, node=None, val=None):
        o = Obj(self.CG)
        o.f[self.cg_node] = Cell(Ptr(Cell(node, self.NODE)) if node is not None else NULL)
        o.f[self.cg_val] = Cell(self.uptr(Ptr(Cell(val, self.base)) if val is not None else NULL))
        return o

    # ---- denotation ---------------------------------------------------------------------------
    def cg_denote(self, it, o):
        """(denotation or None, value or None) of a CG object"""
        n = it.field(Cell(o, self.CG), self.cg_node).v
        v = it.field(Cell(o, self.CG), self.cg_val).v
        vp = v.f['p'].v if isinstance(v, Obj) else v
        val = it.deref(vp).v if vp is not NULL else None
        if n is NULL:
            return (val if vp is not NULL else 0.0), (val if vp is not NULL else 0.0), True
        return self.node_denote(it, it.deref(n).v), val, False

    def arg_denote(self, it, a):
        n = a.f[self.a_node].v if self.a_node in a.f else NULL
        if n is not NULL and n is not None:
            return self.node_denote(it, it.deref(n).v)
        p = a.f[self.a_par].v.f['p'].v
        if p is NULL:
            raise AnalysisError('argument without node or parameter')
        return it.deref(p).v

    def node_denote(self, it, n):
        if n.tag:
            return Term(n.tag)
        op = n.f[self.n_op].v
        args = [self.arg_denote(it, c.v) for c in n.f[self.n_args].v.c]
        return Term('op:' + self.opname.get(op, str(op)), *args)


# ---- numeric meaning of terms (used to compare two denotations) --------------------------------------
def _sign(x):
    return (x > 0) - (x < 0)


SEM1 = {'Abs': abs, 'Acos': math.acos, 'Acosh': math.acosh, 'Asin': math.asin, 'Asinh': math.asinh, 'Atan': math.atan, 'Atanh': math.atanh,
        'Cosh': math.cosh, 'Cos': math.cos, 'Erf': math.erf, 'Erfc': math.erfc, 'Exp': math.exp, 'Expm1': math.expm1, 'Log': math.log,
        'Log1p': math.log1p, 'Sign': _sign, 'Sinh': math.sinh, 'Sin': math.sin, 'Sqrt': math.sqrt, 'Tanh': math.tanh, 'Tan': math.tan,
        'UnMinus': lambda a: -a, 'Alias': lambda a: a, 'Assign': lambda a: a}
SEM2 = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mul': lambda a, b: a * b, 'Div': lambda a, b: a / b,
        'Pow': lambda a, b: math.pow(a, b)}
SEM4 = {'ComLt': lambda a, b: a < b, 'ComLe': lambda a, b: a <= b, 'ComEq': lambda a, b: a == b, 'ComGe': lambda a, b: a >= b,
        'ComGt': lambda a, b: a > b, 'ComNe': lambda a, b: a != b}
FN1 = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan, 'sinh': math.sinh,
       'cosh': math.cosh, 'tanh': math.tanh, 'asinh': math.asinh, 'acosh': math.acosh, 'atanh': math.atanh, 'exp': math.exp,
       'expm1': math.expm1, 'log': math.log, 'log10': math.log10, 'log1p': math.log1p, 'sqrt': math.sqrt, 'fabs': abs, 'abs': abs,
       'erf': math.erf, 'erfc': math.erfc, 'neg': lambda a: -a, 'isnan': lambda a: a != a}


class NoMeaning(Exception):
    pass


def ev(t, env):
    """value of a term under an assignment of its symbols"""
    if isinstance(t, bool):
        return t
    if isinstance(t, (int, float)):
        return t
    if not isinstance(t, Term):
        raise NoMeaning(repr(t))
    op = t.op
    if not t.args:
        if op in env:
            return env[op]
        raise NoMeaning(op)
    if op.startswith('op:'):
        o = op[3:]
        a = [ev(x, env) for x in t.args]
        if o in SEM1 and len(a) == 1:
            return SEM1[o](*a)
        if o in SEM2 and len(a) == 2:
            return SEM2[o](*a)
        if o in SEM4 and len(a) == 4:
            return a[2] if SEM4[o](a[0], a[1]) else a[3]
        raise NoMeaning('operation %s with %d arguments' % (o, len(a)))
    if op in ('&&', '||', '!'):
        a = [ev(x, env) for x in t.args]
        return {'&&': lambda: a[0] and a[1], '||': lambda: a[0] or a[1], '!': lambda: not a[0]}[op]()
    a = [ev(x, env) for x in t.args]
    if op in FN1 and len(a) == 1:
        return FN1[op](*a)
    if len(a) == 2:
        f = {'+': lambda: a[0] + a[1], '-': lambda: a[0] - a[1], '*': lambda: a[0] * a[1], '/': lambda: a[0] / a[1],
             '==': lambda: a[0] == a[1], '!=': lambda: a[0] != a[1], '<': lambda: a[0] < a[1], '>': lambda: a[0] > a[1],
             '<=': lambda: a[0] <= a[1], '>=': lambda: a[0] >= a[1], 'pow': lambda: math.pow(a[0], a[1])}.get(op)
        if f:
            return f()
    raise NoMeaning(op)


GRID = [0.37, -1.0, 0.0, 1.0, 2.25, -0.61, 1.9]


def same(x, y):
    if isinstance(x, bool) or isinstance(y, bool):
        return bool(x) == bool(y)
    if x != x and y != y:
        return True
    return abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))


def compare(ref, got, conds, syms, extra=None):
    """identity of two denotations on the class of operands selected by conds.

    ref: callable(env) or Term; returns (verdict, witness) with verdict in same/differ/empty/unknown"""
    n = 0
    unknown = None
    if len(syms) <= 2:
        pts = itertools.product(GRID, repeat=len(syms))
    else:
        pts = itertools.product(GRID[:5], repeat=len(syms))
    for p in pts:
        env = {}
        for s, v in zip(syms, p):
            env[s] = v
            env[s + '.v'] = v
        try:
            if not all(bool(ev(c, env)) == r for c, r in conds):
                continue
        except NoMeaning as e:
            unknown = str(e)
            break
        except (ValueError, ZeroDivisionError, OverflowError):
            continue
        try:
            a = ref(env) if callable(ref) else ev(ref, env)
        except (ValueError, ZeroDivisionError, OverflowError):
            continue
        except NoMeaning as e:
            unknown = str(e)
            break
        try:
            b = ev(got, env)
        except NoMeaning as e:
            return 'nomeaning', str(e)
        except (ValueError, ZeroDivisionError, OverflowError) as e:
            return 'differ', 'at %s: expected %r, the result is undefined' % (env, a)
        n += 1
        if not same(a, b):
            return 'differ', 'at %s: expected %r, got %r' % ({k: v for k, v in env.items() if not k.endswith('.v')}, a, b)
    if unknown:
        return 'unknown', unknown
    return ('same' if n else 'empty'), n
