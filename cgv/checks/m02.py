"""M02: a loaded compiled model calls the compiled functions correctly."""
import re

from .. import facts
from ..absint import AMap, AStr, Cell, CppThrow, Interp, NULL, Obj, PathAbort, Ptr, Term, Vec, FuncRef
from ..cgmodel import NS
from ..facts import AnalysisError
from ..world import make, vec

SPEC = {'technique': 'abstract interpretation of every evaluation, sparsity and availability method of the loaded model class over the finite partition of '
                     'situations (library open/closed, each compiled function present/absent, atomic functions missing or not, each argument size right or '
                     'wrong); compiled functions are symbolic stubs which check what they are given and return symbolic elements',
        'level': 'other',
        'assumptions': ['the error handler of CppAD does not return', 'the compiled functions do what their names say',
                        'two independent and three dependent variables stand for any numbers (sizes are pairwise different)']}
N, M = 2, 3
FGM = NS + 'FunctorGenericModel'
CLS = NS + 'LinuxDynamicLibModel<double>'
PFX = NS + 'ModelCSourceGen::FUNCTION_'
JAC = [(0, 1), (2, 0), (2, 1)]     # sparsity of the stub library, in the order of its elements
HES = [(0, 0), (1, 0)]
HES_I = {0: [(1, 1)], 1: [], 2: [(0, 1), (1, 0), (0, 0)]}
FWD1 = {0: [2], 1: [2, 0]}         # column -> equations, in the order of the compressed elements
REV1 = {0: [1], 1: [], 2: [1, 0]}
REV2 = {0: [1, 0], 1: [0]}
# what a method needs from the library, and which data it is about
PAIRS = {'SPARSE_JACOBIAN': ['JACOBIAN_SPARSITY'], 'SPARSE_HESSIAN': ['HESSIAN_SPARSITY'],
         'SPARSE_FORWARD_ONE': ['FORWARD_ONE_SPARSITY', 'FORWARD_ONE'], 'SPARSE_REVERSE_ONE': ['REVERSE_ONE_SPARSITY', 'REVERSE_ONE'],
         'SPARSE_REVERSE_TWO': ['REVERSE_TWO_SPARSITY', 'REVERSE_TWO']}
COMPUTE = ['FORWAD_ZERO', 'JACOBIAN', 'HESSIAN', 'FORWARD_ONE', 'REVERSE_ONE', 'REVERSE_TWO', 'SPARSE_FORWARD_ONE', 'SPARSE_REVERSE_ONE',
           'SPARSE_REVERSE_TWO', 'SPARSE_JACOBIAN', 'SPARSE_HESSIAN']
SPARSITY = ['JACOBIAN_SPARSITY', 'HESSIAN_SPARSITY', 'HESSIAN_SPARSITY2', 'FORWARD_ONE_SPARSITY', 'REVERSE_ONE_SPARSITY', 'REVERSE_TWO_SPARSITY']
OTHER = ['INFO', 'ATOMIC_FUNC_NAMES']


def sm(l):
    return l[0] if len(l) == 1 else Term('+', *l) if l else 0.0


def jac(i, j, x):
    return Term('J', i, j, *x) if (i, j) in JAC else 0.0


def hes(i, j, x, w):
    return Term('H', i, j, *(list(x) + list(w))) if (i, j) in HES else 0.0


def fw1(i, x, s):
    """element i of the first order forward result for the given seeds"""
    return sm([Term('J1', i, j, s[j], *x) for j in sorted(s) if i in FWD1[j]])


def rv1(j, x, s, y=None):
    return sm([Term('JR', i, j, s[i], *x) for i in sorted(s) if j in REV1[i]])


def rv2(i, x, s, w):
    return sm([Term('H2', i, j, s[j], *(list(x) + list(w))) for j in sorted(s) if i in REV2[j]])


def norm(v):
    """sum as a sorted list of terms"""
    if isinstance(v, (int, float)) and v == 0:
        return ()
    if isinstance(v, Term) and v.op == '+':
        return tuple(sorted(sum((norm(a) for a in v.args), ()), key=repr))
    return (v,)


class Refused(PathAbort):
    pass


class Misuse(PathAbort):
    pass


class Lib:
    """the abstract library: symbolic functions found by symbol name"""

    def __init__(self, it, absent=(), atomics=(), insize=1):
        self.it, self.absent, self.atomics, self.insize = it, set(absent), list(atomics), insize
        self.calls, self.queries, self.asked = [], [], []
        self.model = None

    def load(self, it, f, this, args, line):
        s = args[0].v
        if not isinstance(s, AStr):
            raise AnalysisError('name of a library function is %r' % s)
        t = s.text(lambda x: '{%s}' % x)
        m = re.search(r'<(\w+)>', t)
        if not m or not t.startswith('model_'):
            raise AnalysisError('name of a library function is %r' % t)
        n = m.group(1)
        self.asked.append(n)
        if n in self.absent:
            if args[1].v is True:
                raise Refused('function %s not found' % n)
            return NULL
        return Ptr(Cell(Term('fn', n), 'fn'))

    def arr(self, vals, t):
        return Vec([Cell(v, t) for v in vals], t, 'array')

    def ret_array(self, dst, vals, t='unsigned long'):
        self.it.deref(dst).v = Ptr(None, self.arr(vals, t), 0)

    def data(self, p, n):
        """the n values an array argument starts with"""
        if not isinstance(p, Ptr) or p.vec is None and n > 1:
            raise Misuse('a compiled function is given %r as an array of %d' % (p, n))
        out = []
        for k in range(n):
            if p.vec is None:
                out.append(self.it.deref(p).v)
                continue
            if not isinstance(p.i, int) or p.i + k >= len(p.vec.c):
                raise Misuse('a compiled function is given an array with %s elements where it reads %d' % (len(p.vec.c) - p.i, n))
            out.append(p.vec.c[p.i + k].v)
        return out

    def put(self, p, vals):
        if not vals:
            return
        if not isinstance(p, Ptr) or p.vec is None or p.i + len(vals) > len(p.vec.c):
            raise Misuse('a compiled function writes %d elements to %s' % (len(vals), 'an array of %d' % (len(p.vec.c) - p.i) if isinstance(p, Ptr) and p.vec else repr(p)))
        for k, v in enumerate(vals):
            p.vec.c[p.i + k].v = v

    def ptrs(self, p, n):
        """array of n array pointers"""
        return self.data(p, n)

    def atom(self, v):
        if not isinstance(v, Obj):
            raise Misuse('the atomic function argument is %r' % v)
        lm = [c.v for k, c in v.f.items() if k.endswith('libModel')]
        if not lm or not isinstance(lm[0], Ptr) or self.it.deref(lm[0]).v is not self.model.v:
            raise Misuse('the atomic function argument does not refer to this model')

    def __call__(self, it, fp, args, e):
        while isinstance(fp, Term) and fp.op in ('*', '&', 'deref') and len(fp.args) == 1:
            fp = fp.args[0]
        if not (isinstance(fp, Term) and fp.op == 'fn'):
            return NotImplemented
        n = fp.args[0]
        a = [x.v for x in args]
        if n in SPARSITY + ['ATOMIC_FUNC_NAMES', 'INFO']:
            self.queries.append(n)
        else:
            self.calls.append(n)
        return self.run(n, a)

    def argc(self, n, a, k):
        if len(a) != k:
            raise Misuse('%s takes %d arguments and is called with %d' % (n, k, len(a)))

    def run(self, n, a):
        it = self.it
        if n == 'INFO':
            self.argc(n, a, 5)
            it.deref(a[0]).v = AStr(('double  d',)) if not self.othertype else AStr(('float  f',))
            for p, v in zip(a[1:], (M, N, self.insize, 1)):
                it.deref(p).v = v
            return None
        if n == 'ATOMIC_FUNC_NAMES':
            self.argc(n, a, 2)
            self.ret_array(a[0], [AStr((s,)) for s in self.atomics], 'const char *')
            it.deref(a[1]).v = len(self.atomics)
            return None
        if n in ('JACOBIAN_SPARSITY', 'HESSIAN_SPARSITY', 'HESSIAN_SPARSITY2'):
            i = None
            if n == 'HESSIAN_SPARSITY2':
                self.argc(n, a, 4)
                i, a = a[0], a[1:]
                if i not in HES_I:
                    raise Misuse('Hessian sparsity of equation %r' % i)
            self.argc(n, a, 3)
            e = JAC if n == 'JACOBIAN_SPARSITY' else HES if i is None else HES_I[i]
            self.ret_array(a[0], [x[0] for x in e])
            self.ret_array(a[1], [x[1] for x in e])
            it.deref(a[2]).v = len(e)
            return None
        if n in ('FORWARD_ONE_SPARSITY', 'REVERSE_ONE_SPARSITY', 'REVERSE_TWO_SPARSITY'):
            self.argc(n, a, 3)
            d = {'FORWARD_ONE_SPARSITY': FWD1, 'REVERSE_ONE_SPARSITY': REV1, 'REVERSE_TWO_SPARSITY': REV2}[n]
            if a[0] not in d:
                raise Misuse('%s of element %r' % (n, a[0]))
            self.ret_array(a[1], d[a[0]])
            it.deref(a[2]).v = len(d[a[0]])
            return None
        self.atom(a[-1])
        if n in ('FORWAD_ZERO', 'JACOBIAN', 'HESSIAN', 'SPARSE_JACOBIAN', 'SPARSE_HESSIAN'):
            self.argc(n, a, 3)
            hess = n.endswith('HESSIAN')
            ins = self.ptrs(a[0], self.insize + hess)
            if self.insize == 1:
                x = self.data(ins[0], N)
            else:
                x = []
                for p in ins[:self.insize]:
                    x += self.data(p, 1)
            w = self.data(ins[-1], M) if hess else []
            out = self.ptrs(a[1], 1)[0]
            if n == 'FORWAD_ZERO':
                r = [Term('F', i, *x) for i in range(M)]
            elif n == 'JACOBIAN':
                r = [jac(i, j, x) for i in range(M) for j in range(N)]
            elif n == 'SPARSE_JACOBIAN':
                r = [jac(i, j, x) for i, j in JAC]
            elif n == 'HESSIAN':
                r = [hes(i, j, x, w) for i in range(N) for j in range(N)]
            else:
                r = [hes(i, j, x, w) for i, j in HES]
            self.put(out, r)
            return None
        if n == 'FORWARD_ONE':
            self.argc(n, a, 3)
            x = self.data(a[0], 2 * N)
            old = self.data(a[1], 2 * M)
            self.put(a[1], [fw1(k // 2, x[::2], dict(enumerate(x[1::2]))) if k % 2 else old[k] for k in range(2 * M)])
            return self.status
        if n == 'REVERSE_ONE':
            self.argc(n, a, 5)
            x, y, py = self.data(a[0], N), self.data(a[1], M), self.data(a[3], M)
            self.put(a[2], [rv1(j, x, dict(enumerate(py)), y) for j in range(N)])
            return self.status
        if n == 'REVERSE_TWO':
            self.argc(n, a, 5)
            x = self.data(a[0], 2 * N) + self.data(a[1], 2 * M) + self.data(a[3], 2 * M)
            self.put(a[2], [Term('R2', j, *x) for j in range(2 * N)])
            return self.status
        if n in ('SPARSE_FORWARD_ONE', 'SPARSE_REVERSE_ONE', 'SPARSE_REVERSE_TWO'):
            self.argc(n, a, 4)
            k = a[0]
            d = {'SPARSE_FORWARD_ONE': FWD1, 'SPARSE_REVERSE_ONE': REV1, 'SPARSE_REVERSE_TWO': REV2}[n]
            if k not in d:
                raise Misuse('%s of element %r' % (n, k))
            ins = self.ptrs(a[1], 3 if n == 'SPARSE_REVERSE_TWO' else 2)
            x, s = self.data(ins[0], N), self.data(ins[1], 1)[0]
            if n == 'SPARSE_FORWARD_ONE':
                r = [fw1(i, x, {k: s}) for i in d[k]]
            elif n == 'SPARSE_REVERSE_ONE':
                r = [rv1(j, x, {k: s}) for j in d[k]]
            else:
                w = self.data(ins[2], M)
                r = [rv2(i, x, {k: s}, w) for i in d[k]]
            # the functions of models with loops add to the elements
            out = self.ptrs(a[2], 1)[0]
            for k, v in enumerate(self.data(out, len(r))):
                if v is None:
                    raise Misuse('the elements %s adds to are not initialised' % n)
                if v != 0:
                    r[k] = Term('+', v, r[k])
            self.put(out, r)
            return self.status
        raise Misuse('unknown library function ' + n)

    status = 0
    othertype = False


class Sim:
    def __init__(self, fx):
        self.fx = fx
        self.gl = {}
        for g in fx.globs.values():
            if g['q'].startswith(PFX):
                self.gl[g['q']] = g['n'][9:]
        if len(self.gl) < 15:
            raise AnalysisError('names of the library functions not found')

    def interp(self, **kw):
        it = Interp(self.fx, max_paths=60, max_steps=60000, loop_bound=12, **kw)
        for q, n in self.gl.items():
            it.hooks['global:' + q] = lambda i, n=n: AStr(('<%s>' % n,))

        def err(i, f, this, args, line):
            raise Refused(str(line))
        it.hooks['CppAD::ErrorHandler::Call'] = err
        it.hooks['std::type_info::name'] = lambda *a: AStr(('d',))
        return it

    def fn(self, name, pred=None, cls=FGM):
        r = [i for i in self.fx.find(cls + '::' + name, clsx=cls + '<double>') if i in self.fx.bodies and (pred is None or pred(self.fx.ptypes(i)))]
        if len(r) != 1:
            raise AnalysisError('%s::%s: %d candidates' % (cls, name, len(r)))
        return r[0]

    def model(self, it, lib):
        """a model object loaded from lib by its own functions"""
        it.hooks[NS + 'LinuxDynamicLibModel::loadFunction'] = lib.load
        it.hooks['indirect'] = lib
        it.hooks[NS + 'ModelCSourceGen::baseTypeName'] = lambda *a: AStr(('double',))
        lib.model = make(it, CLS, [Cell(NULL, 'void *'), Cell(AStr(('model',)), 'std::string')], pred=lambda p: len(p) == 2)
        return lib.model


AV = 'ArrayView<double>'
CODES = [('V', lambda p: p == AV), ('P', lambda p: p.startswith('vector<double *')), ('v', lambda p: p.startswith('vector<double')),
         ('i', lambda p: p.startswith('vector<unsigned long')), ('b', lambda p: p.startswith('CppAD::vector<bool')), ('n', lambda p: p == 'unsigned long'),
         ('I', lambda p: p in ('unsigned long *', 'unsigned long[]')), ('D', lambda p: p in ('double *', 'double[]')), ('R', lambda p: p == 'unsigned long **')]


def strip(t):
    return re.sub(r'\bconst\b ?', '', t).replace('CppAD::cg::', '').replace('std::', '').strip('& ').replace('  ', ' ').replace('* *', '**')


def code(p):
    for c, f in CODES:
        if f(p):
            return c
    return '?'


X, W = [Term('x', k) for k in range(N)], [Term('w', k) for k in range(M)]


def z(n):
    return [0.0] * n


# (name, parameter kinds) -> (array arguments: role, size in elements) and results by role
def table():
    T = {}

    def seq(r, n):
        return [Term(r, k) for k in range(n)]
    f0 = [Term('F', i, *X) for i in range(M)]
    jd = [jac(i, j, X) for i in range(M) for j in range(N)]
    hd = [hes(i, j, X, W) for i in range(N) for j in range(N)]
    js, hs = [jac(i, j, X) for i, j in JAC], [hes(i, j, X, W) for i, j in HES]
    jr, jc = [e[0] for e in JAC], [e[1] for e in JAC]
    hr, hc = [e[0] for e in HES], [e[1] for e in HES]
    T['ForwardZero', 'VV'] = ([('x', N), ('y', M)], {'y': f0})
    T['ForwardZero', 'PV'] = ([('x', N), ('y', M)], {'y': f0})
    T['ForwardZero', 'bbVV'] = ([('vx', N), ('vy', M), ('x', N), ('y', M)], {'y': f0})
    T['Jacobian', 'VV'] = ([('x', N), ('y', M * N)], {'y': jd})
    T['Hessian', 'VVV'] = ([('x', N), ('w', M), ('y', N * N)], {'y': hd})
    tx = seq('tx', 2 * N)
    T['ForwardOne', 'VV'] = ([('tx', 2 * N), ('y', 2 * M)],
                             {'y': [fw1(k // 2, tx[::2], dict(enumerate(tx[1::2]))) if k % 2 else Term('y', k) for k in range(2 * M)]})
    T['ReverseOne', 'VVVV'] = ([('x', N), ('ty', M), ('y', N), ('w', M)], {'y': [rv1(j, X, dict(enumerate(W))) for j in range(N)]})
    T['ReverseTwo', 'VVVV'] = ([('tx', 2 * N), ('ty', 2 * M), ('y', 2 * N), ('w', 2 * M)],
                               {'y': [Term('R2', j, *(tx + seq('ty', 2 * M) + seq('w', 2 * M))) for j in range(2 * N)]})
    T['ForwardOne', 'VnIDV'] = ([('x', N), ('n', 0), ('idx', 0), ('seed', 0), ('y', M)], lambda s: {'y': [fw1(i, X, s) for i in range(M)]})
    T['ReverseOne', 'VVnID'] = ([('x', N), ('y', N), ('n', 0), ('idx', 0), ('seed', 0)], lambda s: {'y': [rv1(j, X, s) for j in range(N)]})
    T['ReverseTwo', 'VnIDVV'] = ([('x', N), ('n', 0), ('idx', 0), ('seed', 0), ('y', N), ('w', M)], lambda s: {'y': [rv2(i, X, s, W) for i in range(N)]})
    T['SparseJacobian', 'VV'] = ([('x', N), ('y', M * N)], {'y': jd})
    T['SparseJacobian', 'vvii'] = ([('x', N), ('Y', 0), ('r', 0), ('c', 0)], {'Y': js, 'r': jr, 'c': jc})
    T['SparseJacobian', 'VVRR'] = ([('x', N), ('y', len(JAC)), ('r', 0), ('c', 0)], {'y': js, 'r': jr, 'c': jc})
    T['SparseJacobian', 'PVRR'] = T['SparseJacobian', 'VVRR']
    T['SparseHessian', 'VVV'] = ([('x', N), ('w', M), ('y', N * N)], {'y': hd})
    T['SparseHessian', 'vvvii'] = ([('x', N), ('w', M), ('Y', 0), ('r', 0), ('c', 0)], {'Y': hs, 'r': hr, 'c': hc})
    T['SparseHessian', 'VVVRR'] = ([('x', N), ('w', M), ('y', len(HES)), ('r', 0), ('c', 0)], {'y': hs, 'r': hr, 'c': hc})
    T['SparseHessian', 'PVVRR'] = T['SparseHessian', 'VVVRR']
    return T


AVAIL = {('ForwardZero', 'VV'): 'isForwardZeroAvailable', ('ForwardZero', 'PV'): 'isForwardZeroAvailable', ('ForwardZero', 'bbVV'): 'isForwardZeroAvailable',
         ('Jacobian', 'VV'): 'isJacobianAvailable', ('Hessian', 'VVV'): 'isHessianAvailable', ('ForwardOne', 'VV'): 'isForwardOneAvailable',
         ('ForwardOne', 'VnIDV'): 'isSparseForwardOneAvailable', ('ReverseOne', 'VVVV'): 'isReverseOneAvailable',
         ('ReverseOne', 'VVnID'): 'isSparseReverseOneAvailable', ('ReverseTwo', 'VVVV'): 'isReverseTwoAvailable',
         ('ReverseTwo', 'VnIDVV'): 'isSparseReverseTwoAvailable', ('SparseJacobian', 'VV'): 'isSparseJacobianAvailable',
         ('SparseJacobian', 'vvii'): 'isSparseJacobianAvailable', ('SparseJacobian', 'VVRR'): 'isSparseJacobianAvailable',
         ('SparseJacobian', 'PVRR'): 'isSparseJacobianAvailable', ('SparseHessian', 'VVV'): 'isSparseHessianAvailable',
         ('SparseHessian', 'vvvii'): 'isSparseHessianAvailable', ('SparseHessian', 'VVVRR'): 'isSparseHessianAvailable',
         ('SparseHessian', 'PVVRR'): 'isSparseHessianAvailable'}
QUERY = {('JacobianSparsityBool', ''): 'isJacobianSparsityAvailable', ('JacobianSparsitySet', ''): 'isJacobianSparsityAvailable',
         ('JacobianSparsity', 'ii'): 'isJacobianSparsityAvailable', ('HessianSparsityBool', ''): 'isHessianSparsityAvailable',
         ('HessianSparsitySet', ''): 'isHessianSparsityAvailable', ('HessianSparsity', 'ii'): 'isHessianSparsityAvailable',
         ('HessianSparsityBool', 'n'): 'isEquationHessianSparsityAvailable', ('HessianSparsitySet', 'n'): 'isEquationHessianSparsityAvailable',
         ('HessianSparsity', 'nii'): 'isEquationHessianSparsityAvailable'}


class Call:
    """one call of a method with symbolic arguments"""

    def __init__(self, it, sim, fid, key, size=None, seeds=(1, 0), tag='', insize=1):
        self.it, self.fid, self.key, self.tag = it, fid, key, tag
        self.arr, self.cells, self.seeds = {}, [], seeds
        params, self.expect = sim.T[key]
        for (r, n), k, t in zip(params, key[1], sim.fx.ptypes(fid)):
            n = (size or {}).get(r, n)
            if r == 'n':
                self.cells.append(Cell(len(seeds), 'unsigned long'))
            elif r == 'idx':
                self.cells.append(Cell(Ptr(None, self.v([s for s in seeds], 'unsigned long', 'array'), 0) if seeds else NULL, t))
            elif r == 'seed':
                self.cells.append(Cell(Ptr(None, self.v([self.term('seed', s) for s in seeds], 'double', 'array'), 0) if seeds else NULL, t))
            elif k == 'R':
                c = Cell(NULL, 'const unsigned long *')
                self.arr[r] = c
                self.cells.append(Cell(Ptr(c), t))
            elif k in 'iv' and r in 'Yrc':
                v = self.v([7.0], 'double' if k == 'v' else 'unsigned long', 'std::vector')
                self.arr[r] = v
                self.cells.append(Cell(v, t))
            elif k == 'b':
                v = self.v([r == 'vx' and i == 1 for i in range(n)], 'bool', 'CppAD::vector')
                self.arr[r] = v
                self.cells.append(Cell(v, t))
            elif k == 'P':
                if insize == 1:
                    a = self.v([self.term(r, i) for i in range(N)], 'double', 'array')
                    vals = [Ptr(None, a, 0)] + [Ptr(None, a, 0)] * max(0, n - 2)
                    vals = vals[:max(0, n - 1)]
                else:
                    vals = [Ptr(None, self.v([self.term(r, i)], 'double', 'array'), 0) for i in range(n)]
                self.cells.append(Cell(self.v(vals, 'const double *', 'std::vector'), t))
            else:
                v = self.v([self.term(r, i) for i in range(n)], 'double', 'std::vector')
                self.arr[r] = v
                if k == 'V':
                    at = t.replace('const ' + NS, NS).rstrip('& ')
                    self.cells.append(make(it, at, [Cell(Ptr(None, v, 0) if n else NULL, 'double *'), Cell(n, 'unsigned long')],
                                           pred=lambda p: len(p) == 2 and '*' in p[0]))
                else:
                    self.cells.append(Cell(v, t))

    def term(self, r, i):
        return Term(r + self.tag, i)

    def v(self, vals, t, kind):
        return Vec([Cell(x, t) for x in vals], t, kind)

    def run(self, model):
        self.it.call(self.fid, model, self.cells)

    def result(self, r, n):
        a = self.arr[r]
        if isinstance(a, Cell):
            p = a.v
            if not isinstance(p, Ptr) or p.vec is None:
                return repr(p)
            return [c.v for c in p.vec.c[p.i:p.i + n]]
        if r in 'Yrc' and len(a.c) != n:
            return [c.v for c in a.c]
        return [c.v for c in a.c[:n]]

    def retag(self, v):
        if isinstance(v, Term):
            if v.op in ('x', 'w', 'tx', 'ty', 'y', 'seed') and len(v.args) == 1:
                return Term(v.op + self.tag, *v.args)
            return Term(v.op, *[self.retag(a) for a in v.args])
        return v

    def wrong(self):
        exp = self.expect
        if callable(exp):
            s = {}
            for k in self.seeds:
                s[k] = Term('seed', k)
            exp = exp(s)
        for r, vals in exp.items():
            got = self.result(r, len(vals))
            want = [self.retag(v) for v in vals]
            if isinstance(got, str) or len(got) != len(want) or any(norm(g) != norm(w) for g, w in zip(got, want)):
                return '%s is %s instead of %s' % ({'y': 'the result', 'Y': 'the result', 'r': 'the rows', 'c': 'the columns'}[r], brief(got), brief(want))
        return None


def brief(l):
    return str(l)[:150]


def run(ctx):
    fx = facts.facts('main')
    sim = Sim(fx)
    sim.T = table()
    meths, avail = {}, {}
    for i in sorted(fx.by_cls.get(FGM + '<double>', ())):
        f = fx.funcs[i]
        if i not in fx.bodies or f.get('kind') in ('ctor', 'dtor') or not f.get('virtual'):
            continue
        key = (f['n'], ''.join(code(strip(p)) for p in fx.ptypes(i)))
        if re.match(r'is\w+Available$', f['n']):
            avail[f['n']] = i
        elif key in sim.T or key in QUERY:
            meths[key] = i
        elif re.match(r'(Forward|Reverse|Sparse|Jacobian|Hessian)', f['n']):
            ctx.unk('evaluation', 'no specification for %s(%s)' % (f['n'], ', '.join(fx.ptypes(i))))
    miss = [k for k in list(sim.T) + list(QUERY) if k not in meths] + [a for a in set(AVAIL.values()) | set(QUERY.values()) if a not in avail]
    if miss:
        raise AnalysisError('methods of FunctorGenericModel not found: %s' % miss)
    closed = sim.fn('modelLibraryClosed')
    visited = set()

    def scenario(body, **lk):
        """explores body(it, lib, model) with the model loaded from an abstract library; model is None when loading is refused"""
        it = sim.interp()
        status = lk.pop('status', 0)
        other = lk.pop('othertype', False)
        res = []

        def top(i):
            lib = Lib(i, **lk)
            lib.othertype = other
            lib.status = status
            try:
                m = sim.model(i, lib)
            except Refused:
                return ('load refused', lib, None)
            return body(i, lib, m)
        for o in it.explore(top):
            ctx.count('abstract paths')
            res.append(o)
        visited.update(it.visited)
        return res

    def attempt(i, lib, m, c):
        """'refused' or None, with the compute functions called"""
        lib.calls = []
        try:
            c.run(m)
        except Refused:
            return 'refused'
        except CppThrow:
            return 'refused'
        except Misuse as e:
            return 'misuse: %s' % e
        return 'done'

    def name(key):
        return '%s(%s)' % (key[0], ', '.join(strip(p) for p in fx.ptypes(meths[key])))

    def judge(rule, key, lab, outs, want):
        """want: done / refused / either"""
        for o in outs:
            if o[0] == 'abort':
                (ctx.bad if UB.search(o[1]) else lambda r, k, w, m: ctx.unk(r, m))(rule, '%s/%s' % (name(key), lab), fx.loc(meths[key]),
                                                                                '%s, %s: %s' % (name(key), lab, o[1]))
                continue
            if o[0] == 'throw':
                r, w, lib = 'refused', None, None
            else:
                r, w, lib = o[1]
            msg = None
            if r.startswith('misuse'):
                msg = r[8:]
            elif r == 'done' and want == 'refused':
                msg = 'the call is not refused'
            elif r != 'done' and want == 'done':
                msg = 'a valid call is refused'
            elif r == 'done' and w:
                msg = w
            elif r == 'refused' and want == 'refused' and lib and lib.calls:
                msg = 'compiled function %s runs before the call is refused' % lib.calls[0]
            if msg:
                ctx.bad(rule, '%s/%s' % (name(key), lab), fx.loc(meths[key]), '%s, %s: %s' % (name(key), lab, msg))
            else:
                ctx.ok(rule, '%s, %s -> %s' % (name(key), lab, r))

    def one(key, size=None, seeds=(1, 0), insize=1, prep=None):
        def body(i, lib, m):
            if prep:
                r = prep(i, lib, m)
                if r:
                    return (r, None, lib)
            c = Call(i, sim, meths[key], key, size=size, seeds=seeds, insize=insize)
            r = attempt(i, lib, m, c)
            return (r, c.wrong() if r == 'done' else None, lib)
        return body

    def close(i, lib, m):
        i.call(closed, m, [])

    need = {}
    for key in sim.T:
        params = sim.T[key][0]
        sparse = any(r == 'idx' for r, n in params)
        multi = 'P' in key[1]
        # right calls
        for seeds in (((1, 0), (0,), (1,), ()) if sparse and key[0] != 'ReverseOne' else ((1, 2, 0), (2, 0), (1,), (2,), ()) if sparse else ((),)):
            used = set()

            def body(i, lib, m, seeds=seeds):
                lib.queries, lib.calls = [], []
                r = one(key, seeds=seeds)(i, lib, m)
                used.update(lib.calls + lib.queries)
                return r
            judge('result', key, 'valid arguments' + (' with %d seeds %s' % (len(seeds), list(seeds)) if sparse else ''), scenario(body), 'done')
            need.setdefault(key, set()).update(used)
        if multi:
            judge('result', key, 'valid arguments in separate arrays', scenario(one(key, insize=2), insize=2), 'done')
            for n in (0, 1):
                judge('size', key, '%d input arrays instead of 2' % n, scenario(one(key, insize=2, size={'x': n}), insize=2), 'refused')
        elif 'x' in [r for r, n in params] and key not in (('ForwardOne', 'VnIDV'), ('ReverseOne', 'VVnID'), ('ReverseOne', 'VVVV'), ('ReverseTwo', 'VnIDVV')):
            judge('size', key, 'one input array for a model with two', scenario(one(key), insize=2), 'refused')
        # arrays of the wrong size
        for r, n in params:
            if r in ('n', 'idx', 'seed', 'Y', 'r', 'c') or multi and r == 'x':
                continue
            for bad in sorted({0, n - 1}) if r != 'vx' else [n - 1]:
                out = scenario(one(key, size={r: bad}))
                for o in out:
                    if o[0] == 'ok' and o[1][2]:
                        o[1][2].calls = []  # working on a copy before refusing is harmless
                judge('size', key, '%d elements instead of %d in %s' % (bad, n, r), out, 'refused')
            judge('size', key, '%d elements instead of %d in %s' % (n + 1, n, r), scenario(one(key, size={r: n + 1})), 'either')
        # library closed
        judge('closed', key, 'library closed', scenario(one(key, prep=close)), 'refused')
        # missing functions
        for fn in COMPUTE + SPARSITY:
            lab = 'without ' + fn.lower().replace('_', ' ')

            def body(i, lib, m):
                a = i.call(avail[AVAIL[key]], m, [])
                a = a.v if isinstance(a, Cell) else a
                r, w, l = one(key)(i, lib, m)
                if a is True and r == 'refused':
                    return ('misuse: %s is true and the call is refused' % AVAIL[key], None, lib)
                if a is False and r == 'done':
                    return ('misuse: %s is false and the call is accepted' % AVAIL[key], None, lib)
                return (r, w, l)
            judge('absent', key, lab, scenario(body, absent=[fn]), 'refused' if fn in need[key] else 'either')
        # atomic functions
        judge('atomic', key, 'atomic functions missing', scenario(one(key), atomics=['a', 'b']), 'refused')
        # failure reported by the compiled function
        if any(c in need[key] for c in ('FORWARD_ONE', 'REVERSE_ONE', 'REVERSE_TWO', 'SPARSE_FORWARD_ONE', 'SPARSE_REVERSE_ONE', 'SPARSE_REVERSE_TWO')):
            for st in (1, 2, -1):
                out = scenario(one(key), status=st)
                for o in out:
                    if o[0] == 'ok' and o[1][2]:
                        o[1][2].calls = []
                judge('failure', key, 'the compiled function returns %d' % st, out, 'refused')
    # a call does not depend on earlier calls
    keys = list(sim.T)
    for a in keys:
        for b in keys if ctx.thorough else [k for k in keys if k == a or (hash_(a + k) % 3 == 0)]:
            if 'b' in b[1]:
                continue

            def body(i, lib, m):
                attempt(i, lib, m, Call(i, sim, meths[a], a, tag='1', seeds=(1,)))
                return one(b)(i, lib, m)
            judge('history', b, 'after ' + name(a), scenario(body), 'done')
    sparsity(ctx, fx, sim, meths, avail, scenario, judge, close)
    atomics(ctx, fx, sim, meths, scenario, one, judge)
    moved(ctx, fx, sim, meths, scenario, one, judge, attempt)
    loading(ctx, fx, sim, scenario)
    forms(ctx, fx, sim, scenario)
    # availability after closing
    for q, i in sorted(avail.items()):
        for lab, prep, want in (('loaded', None, True), ('closed', close, False)):
            def body(it, lib, m):
                if prep:
                    prep(it, lib, m)
                r = it.call(i, m, [])
                return r.v if isinstance(r, Cell) else r
            for o in scenario(body):
                if o[0] != 'ok':
                    ctx.unk('available', '%s: %s' % (q, o[1]))
                elif o[1] is want:
                    ctx.ok('available', '%s %s' % (q, lab))
                else:
                    ctx.bad('available', q, fx.loc(i), '%s is %s with the library %s' % (q, o[1], lab))
    ctx.count('functions analysed', len(visited))
    for r, n in (('result', 30), ('size', 100), ('closed', 18), ('absent', 250), ('atomic', 25), ('failure', 15), ('history', 80), ('sparsity', 40),
                 ('available', 20), ('moved', 18), ('loading', 9), ('form', 50)):
        ctx.need(r, n)


UB = re.compile('null deref|call through null|out of range|null index|takes|compiled function')


def hash_(k):
    return sum(map(ord, ''.join(k)))


def sparsity(ctx, fx, sim, meths, avail, scenario, judge, close):
    def want(n, i):
        return (JAC, M) if n.startswith('Jac') else (HES if i is None else HES_I[i], N)
    for key in QUERY:
        for i in (range(M) if 'n' in key[1] else [None]):
            el, rows = want(key[0], i)

            def body(it, lib, m):
                cells, vs = [], []
                for t, k in zip(fx.ptypes(meths[key]), key[1]):
                    if k == 'n':
                        cells.append(Cell(i, 'unsigned long'))
                    else:
                        vs.append(Vec([Cell(9, 'unsigned long')], 'unsigned long', 'std::vector'))
                        cells.append(Cell(vs[-1], t))
                try:
                    r = it.call(meths[key], m, cells)
                except Refused:
                    return ('refused', None, lib)
                r = r.v if isinstance(r, Cell) else r
                if vs:
                    got = list(zip([c.v for c in vs[0].c], [c.v for c in vs[1].c])) if len(vs[0].c) == len(vs[1].c) else 'arrays of %d and %d' % (len(vs[0].c), len(vs[1].c))
                    good = got != str(got) and sorted(got) == sorted(el)
                elif key[0].endswith('Bool'):
                    got = [bool(c.v) for c in r.c]
                    good = got == [(a, b) in el for a in range(rows) for b in range(N)]
                else:
                    got = [sorted(members(c.v)) for c in r.c]
                    good = got == [sorted(b for a, b in el if a == q) for q in range(rows)]
                return ('done', None if good else 'the pattern is %s for the elements %s' % (brief(got), el), lib)
            lab = '' if i is None else 'equation %d' % i
            judge('sparsity', key, lab or 'pattern', scenario(body), 'done')

            def bodyc(it, lib, m):
                close(it, lib, m)
                return body(it, lib, m)
            judge('sparsity', key, lab + ' library closed', scenario(bodyc), 'refused')
            fn = {'isJacobianSparsityAvailable': 'JACOBIAN_SPARSITY', 'isHessianSparsityAvailable': 'HESSIAN_SPARSITY',
                  'isEquationHessianSparsityAvailable': 'HESSIAN_SPARSITY2'}[QUERY[key]]
            judge('sparsity', key, lab + ' without the function', scenario(body, absent=[fn, 'SPARSE_JACOBIAN', 'SPARSE_HESSIAN']), 'refused')


def members(s):
    if isinstance(s, AMap):
        return [k for k, _ in s.d]
    raise AnalysisError('set model %r' % s)


def atomics(ctx, fx, sim, meths, scenario, one, judge):
    """registration of the functions a model needs: calls are accepted exactly when each of them was given"""
    add = sim.fn('addAtomicFunction')
    addm = sim.fn('addExternalModel')
    key = ('ForwardZero', 'VV')

    def seq(names, models):
        def body(i, lib, m):
            i.hooks['CppAD::atomic_base::atomic_name'] = lambda it, f, this, args, line: AStr((this.v.tag,))
            done = set()
            for n in names:
                if models:
                    o = Cell(Obj(NS + 'GenericModel<double>', tag=n))
                    i.hooks[NS + 'GenericModel::getName'] = lambda it, f, this, args, line: AStr((this.v.tag,))
                    r = i.call(addm, m, [o])
                else:
                    r = i.call(add, m, [Cell(Obj('CppAD::atomic_base<double>', tag=n))])
                r = r.v if isinstance(r, Cell) else r
                if r is not (n in ('a', 'b')):
                    return ('misuse: adding the %s function %s returns %s' % ('required' if n in ('a', 'b') else 'unknown', n, r), None, lib)
                done.add(n)
            return one(key)(i, lib, m)
        return body
    for models in (False, True):
        for names in (['a'], ['a', 'a'], ['a', 'b'], ['b', 'a', 'b'], ['c'], ['a', 'c'], ['a', 'c', 'b'], ['c', 'c']):
            outs = scenario(seq(names, models), atomics=['a', 'b'])
            judge('atomic', key, '%s %s added of a, b' % ('external models' if models else 'atomic functions', names), outs,
                  'done' if {'a', 'b'} <= set(names) else 'refused')


def loading(ctx, fx, sim, scenario):
    """a library that cannot be a compiled model of this type is refused when it is loaded"""
    def expect(lab, outs, want):
        for o in outs:
            if o[0] == 'abort':
                ctx.unk('loading', lab + ': ' + o[1])
                continue
            r = 'refused' if o[0] == 'throw' or o[1][0] == 'load refused' else 'accepted'
            if r == want:
                ctx.ok('loading', lab + ' ' + r)
            else:
                ctx.bad('loading', lab, fx.loc(sim.fn('validate')), 'a library %s is %s' % (lab, r))
    b = lambda i, lib, m: ('done', None, lib)
    expect('with all functions', scenario(b), 'accepted')
    expect('without model information', scenario(b, absent=['INFO']), 'refused')
    expect('without atomic function names', scenario(b, absent=['ATOMIC_FUNC_NAMES']), 'refused')
    expect('of another scalar type', scenario(b, othertype=True), 'refused')
    expect('without independent variables', scenario(b, insize=0), 'refused')
    for f, rel in PAIRS.items():
        for r in rel:
            if r in ('JACOBIAN_SPARSITY', 'HESSIAN_SPARSITY') or r.endswith('SPARSITY'):
                expect('with %s but without %s' % (f, r), scenario(b, absent=[r]), 'refused')


def moved(ctx, fx, sim, meths, scenario, one, judge, attempt):
    """a model that was moved works like the original, which refuses all calls from then on"""
    mv = [i for i in fx.by_cls.get(CLS, ()) if fx.funcs[i].get('kind') == 'ctor' and i in fx.bodies and fx.ptypes(i) == [CLS + ' &&']]
    if not mv:
        ctx.unk('moved', 'no move constructor')
        ctx.rules['moved'] = 18
        return
    for key in sim.T:
        def body(i, lib, m):
            o = Cell(Obj(CLS), CLS)
            i.invoke(mv[0], o, [m])
            lib.model = o
            return one(key)(i, lib, o)
        judge('moved', key, 'moved model', scenario(body), 'done')

        def old(i, lib, m):
            i.invoke(mv[0], Cell(Obj(CLS), CLS), [m])
            return one(key)(i, lib, m)
        judge('moved', key, 'model whose content was moved away', scenario(old), 'refused')
        judge('moved', key, 'moved model without atomic functions', scenario(body, atomics=['a']), 'refused')


def forms(ctx, fx, sim, scenario):
    """the forms of the methods for containers give the result of the methods for arrays"""
    seq = lambda r, n: [Term(r, k) for k in range(n)]
    tx, T2, W2 = seq('tx', 2 * N), seq('ty', 2 * M), seq('w', 2 * M)
    s1 = dict(enumerate(tx[1::2]))
    jd = [jac(i, j, X) for i in range(M) for j in range(N)]
    hd = [hes(i, j, X, W) for i in range(N) for j in range(N)]
    f0 = [Term('F', i, *X) for i in range(M)]
    r2 = [Term('R2', j, *(tx + T2 + W2)) for j in range(2 * N)]
    unit = lambda e: [1.0 if k == e else 0.0 for k in range(M)]
    # name -> (inputs, expected result, result array has to be given in full size)
    want = {'ForwardZero': ([X], f0, 0), 'Jacobian': ([X], jd, 0), 'Hessian': ([X, W], hd, 0), 'ForwardOne': ([tx], [fw1(k, tx[::2], s1) for k in range(M)], 0),
            'ReverseOne': ([X, seq('ty', M), W], [rv1(j, X, dict(enumerate(W))) for j in range(N)], N), 'ReverseTwo': ([tx, T2, W2], r2, 2 * N),
            'SparseJacobian': ([X], jd, 0), 'SparseHessian': ([X, W], hd, 0)}
    cls = NS + 'GenericModel<double>'
    n = 0
    for f in sorted(fx.by_cls.get(cls, ())):
        nm, ps = fx.funcs[f]['n'], fx.ptypes(f)
        if f not in fx.bodies or nm not in want or fx.funcs[f].get('virtual') or not ps:
            continue
        kind = 'CppAD::vector' if 'CppAD::vector' in ps[0] else 'std::vector'
        ins, exp, size = want[nm]
        variants = [(None, ins, exp)]
        if ps[-1] == 'unsigned long':
            variants = [(e, [X], [hes(i, j, X, unit(e)) for i in range(N) for j in range(N)]) for e in range(M)]
        for e, ins2, exp2 in variants:
            for outsize in ([0, 1, len(exp2) + 2] if not size else [size]):
                def body(it, lib, m, e=e, ins2=ins2, exp2=exp2, outsize=outsize):
                    k, cells, out = 0, [], None
                    for p in ps:
                        if p == 'unsigned long':
                            cells.append(Cell(e, p))
                        elif p.startswith('const '):
                            cells.append(Cell(Vec([Cell(v, 'double') for v in ins2[k]], 'double', kind)))
                            k += 1
                        else:
                            out = Vec([Cell(Term('old', q), 'double') for q in range(outsize)], 'double', kind)
                            cells.append(Cell(out))
                    try:
                        r = it.call(f, m, cells)
                    except Refused:
                        return ('a valid call is refused', None, lib)
                    except Misuse as ex:
                        return (str(ex), None, lib)
                    out = out or (r.v if isinstance(r, Cell) else r)
                    if not isinstance(out, Vec):
                        raise AnalysisError('result %r' % out)
                    got = [c.v for c in out.c]
                    if len(got) != len(exp2) or any(norm(a) != norm(b) for a, b in zip(got, exp2)):
                        return ('the result is %s instead of %s' % (brief(got), brief(exp2)), None, lib)
                    return ('done', None, lib)
                res = not any(not p.startswith('const ') and p != 'unsigned long' for p in ps)
                if res and outsize != ([0] if not size else [size])[0]:
                    continue
                lab = '%s(%s)%s%s' % (nm, ', '.join(strip(p) for p in ps), '' if e is None else ', equation %d' % e, '' if res else ', result array of %d' % outsize)
                for o in scenario(body):
                    n += 1
                    if o[0] == 'ok' and o[1][0] == 'done':
                        ctx.ok('form', lab)
                    elif o[0] == 'ok':
                        ctx.bad('form', lab, fx.loc(f), '%s: %s' % (lab, o[1][0]))
                    elif UB.search(o[1] if isinstance(o[1], str) else ''):
                        ctx.bad('form', lab, fx.loc(f), '%s: %s' % (lab, o[1]))
                    else:
                        ctx.unk('form', '%s: %s' % (lab, o[1]))
