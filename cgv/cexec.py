"""Abstract execution of generated C text: the text is parsed by the C front end, values are terms over symbolic inputs, memory is typed
and bounded, and every read of a value that was never written is a fault."""
from .absint import AStr, Cell, FuncRef, Interp, NULL, Obj, PathAbort, Ptr, Term, Vec, strip_t
from .facts import AnalysisError, ctext
from .poolsim import Block, Fault, PoolSim

MATH = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'exp', 'expm1', 'log', 'log10', 'log1p', 'sqrt', 'fabs', 'erf',
        'erfc', 'pow'}
MATHF = {m + 'f': m for m in MATH}


class Unit:
    def __init__(self, name, fx):
        self.name, self.fx, self.globals = name, fx, {}
        self.started = False


CProgramBase = PoolSim


class CProgram(PoolSim):
    """a set of generated C files, linked by name"""

    def __init__(self, units, externs=None, **kw):
        kw.setdefault('max_steps', 200000)
        kw.setdefault('loop_bound', 64)
        PoolSim.__init__(self, units[0].fx, None, **kw)
        self.units = units
        self.externs = externs or {}
        self.cur = units[0]
        self.multi = []
        self.elapsed_cells = []
        self.index = {}
        for u in units:
            for i, f in u.fx.funcs.items():
                if i in u.fx.bodies and not f.get('static'):
                    if f['q'] in self.index:
                        self.multi.append(f['q'])
                    self.index.setdefault(f['q'], (u, i))
        self.calls = []

    def start(self):
        """static storage is initialised; called at the start of each explored path"""
        self.blocks, self.prints, self.elapsed_cells = [], [], []
        self.vla = 0
        self.calls = []
        for u in self.units:
            u.globals = {}
        self.go(self.units[0])

    def go(self, u):
        self.cur, self.fx, self.globals = u, u.fx, u.globals

    # ---- calls ------------------------------------------------------------------------------------
    def run(self, name, args):
        """calls a function with external linkage"""
        if name not in self.index:
            raise Fault('link', 'function %s is not defined' % name)
        u, i = self.index[name]
        old = self.cur
        self.go(u)
        try:
            n = len(self.fx.funcs[i]['p'])
            if n != len(args):
                raise Fault('link', 'function %s takes %d arguments and is called with %d' % (name, n, len(args)))
            return self.call(i, None, args)
        finally:
            self.go(old)

    def extern(self, it, f, this, args, line):
        q = f['q']
        if f.get('hasbody'):
            return NotImplemented
        if q in self.externs:
            return self.externs[q](self, args)
        if q in self.index:
            self.calls.append(q)
            return self.run(q, args)
        if q in MATH or q in MATHF:
            a = [self.value(c.v, q) for c in args]
            return Term(MATHF.get(q, q), *a)
        if q in ('printf', 'fprintf'):
            self.prints.append([c.v for c in args])
            return 0
        if q == 'realloc':
            p, n = args[0].v, args[1].v
            if not isinstance(n, int):
                raise Fault('memory', 'allocation of an unknown size')
            if self.decide(Term('realloc fails', len(self.blocks))):
                return NULL
            b = Block(n, None, line)
            if p is not NULL:
                if not isinstance(p, Ptr) or not isinstance(p.vec, Block) or p.i != 0 or p.vec.freed:
                    raise Fault('memory', 'realloc of something not allocated')
                p.vec.freed = True
                if p.vec.et is not None:
                    b.et = p.vec.et
                    m = n // self.sizeof(b.et)
                    b.c = p.vec.c[:m] + [Cell(self.default(b.et), b.et) for _ in range(m - len(p.vec.c))]
            self.blocks.append(b)
            return Ptr(None, b, 0)
        r = PoolSim.extern(self, it, f, this, args, line)
        if r is NotImplemented:
            raise Fault('link', 'function %s is not defined' % q)
        return r

    def convert(self, v, t):
        if isinstance(v, Vec) and t is not None and strip_t(t).endswith('*'):
            return Ptr(None, v, 0)  # an array is passed as a pointer to its first element
        return PoolSim.convert(self, v, t)

    def lv_asg(self, e):
        if e['op'] == '=' and strip_t(self.ty(e['a'])).endswith('*'):
            b = self.rv(e['b'])
            if isinstance(b, Vec):
                b = Ptr(None, b, 0)
            c = self.lv(e['a'])
            old = c.v
            c.v = self.convert(b, self.ty(e['a']))
            self.on_store(e, c, old)
            return c
        return CProgramBase.lv_asg(self, e)

    def value(self, v, what):
        if v is None:
            raise Fault('uninitialised', 'a value that was never written is used by %s in %s' % (what, self.where()))
        return v

    def binop(self, op, a, b, t=None, e=None):
        if a is None or b is None:
            raise Fault('uninitialised', 'a value that was never written is used by %s in %s' % (op, self.where(e)))
        r = Interp.binop(self, op, a, b, t, e)
        if isinstance(r, int) and not isinstance(r, bool) and not -(1 << 63) <= r < (1 << 63) or isinstance(r, int) and r < 0 and op in ('+', '-', '*') and t in ('unsigned long', 'unsigned int'):
            r %= 1 << (32 if t == 'unsigned int' else 64)
        return r

    def vecat(self, v, i):
        if not isinstance(v, Block) and isinstance(i, int) and not 0 <= i < len(v.c):
            raise Fault('memory', 'index %d of an array of %d elements in %s' % (i, len(v.c), self.where()))
        return PoolSim.vecat(self, v, i)

    def deref(self, p, e=None):
        if isinstance(p, FuncRef):
            return Cell(p)
        if isinstance(p, Ptr) and p.vec is not None and isinstance(p.i, int) and not 0 <= p.i < len(p.vec.c):
            raise Fault('memory', 'index %d of an array of %d elements in %s' % (p.i, len(p.vec.c), self.where()))
        return PoolSim.deref(self, p, e)

    def leaks(self):
        return [b for b in self.blocks if not b.freed]


def units(files, flags=(), extra=()):
    """[(name, text)] -> units; the second value lists the errors of the front end"""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        fxs = list(ex.map(lambda f: ctext([f] + list(extra), flags), files))
    err = [(n, d) for (n, _), fx in zip(files, fxs) for d in fx.diag]
    return [Unit(n, fx) for (n, _), fx in zip(files, fxs)], err


def darray(vals, t='double'):
    v = Vec([Cell(x, t) for x in vals], t, 'array')
    return Ptr(None, v, 0), v


def parray(ptrs, t='double *'):
    return Ptr(None, Vec([Cell(p, t) for p in ptrs], t, 'array'), 0)
