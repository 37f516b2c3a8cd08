"""M03: lifetime of loaded libraries and their models, and the interface between generated libraries and the classes that load them."""
import re

from .. import facts
from ..absint import AStr, Cell, CppThrow, Interp, NULL, Obj, Ptr, Term, Vec
from ..cexec import CProgram, units
from ..cgmodel import NS
from ..facts import AnalysisError
from ..modelrun import OMP, fname
from ..par import pmap
from ..poolsim import Fault
from ..world import make
from . import m01, m02

SPEC = {'technique': 'typestate of libraries, models and wrappers over enumerated histories: every operation of the loading classes is interpreted on an abstract heap in '
                     'which destroyed objects and closed libraries cannot be used; the sources generated for a library are linked (abstractly) with the loader',
        'level': 'other',
        'assumptions': ['dlsym finds the symbols of the library', 'histories of up to two libraries and two models',
                        'a moved-from object is only destroyed']}
LIB = NS + 'LinuxDynamicLib<double>'
MOD = NS + 'LinuxDynamicLibModel<double>'
LIBFN = NS + 'ModelLibraryCSourceGen::FUNCTION_'


class Dead:
    def __init__(self, what):
        self.what = what


class Life(Interp):
    """an interpreter in which destroyed objects cannot be used"""

    def dead(self, v, e=None):
        raise m02.Misuse('%s is used after it was destroyed' % v.what)

    def field(self, cell, fq, ft=None):
        if isinstance(cell.v, Dead):
            self.dead(cell.v)
        return Interp.field(self, cell, fq, ft)

    def call(self, fid, this=None, args=(), line=None, e=None, novirt=False):
        if this is not None and isinstance(this.v, Dead):
            self.dead(this.v)
        return Interp.call(self, fid, this, args, line, e, novirt)

    def on_new(self, e, cell):
        self.heap.append(cell)

    def rv_delete(self, e):
        p = self.rv(e['e'])
        if p is NULL:
            return None
        if p is None:
            raise m02.Misuse('an uninitialised pointer is deleted')
        if isinstance(p, Ptr) and p.cell is not None:
            self.kill(p.cell)
        return None

    def kill(self, cell):
        if isinstance(cell.v, Dead):
            raise m02.Misuse('%s is destroyed twice' % cell.v.what)
        if isinstance(cell.v, Obj):
            self.destroy(cell)
            cell.v = Dead('an object of class ' + re.sub('<.*', '', cell.v.cls).split('::')[-1])
        self.heap[:] = [c for c in self.heap if c is not cell]


class System:
    """dynamic loader: handles, which can be closed; symbols are looked up in one abstract library"""

    def __init__(self, it, names, lack=(), version=None, open_fails=False, atomics=()):
        self.it, self.names, self.lack = it, names, set(lack)
        self.open, self.closed, self.onclose = [], [], {}
        self.version, self.open_fails = version, open_fails
        self.err = NULL
        self.loaded = False
        self.lib = m02.Lib(it, atomics=atomics)
        self.set = {}
        h = it.hooks
        h['dlopen'] = self.dlopen
        h['dlclose'] = self.dlclose
        h['dlsym'] = self.dlsym
        h['dlerror'] = self.dlerror
        h['indirect'] = self.call
        h['std::thread::hardware_concurrency'] = lambda *a: 4
        h['CppAD::ErrorHandler::Call'] = self.error
        h['std::type_info::name'] = lambda *a: AStr(('d',))
        h[NS + 'ModelCSourceGen::baseTypeName'] = lambda *a: AStr(('double',))

    def error(self, i, f, this, args, line):
        raise CppThrow(AStr(('error',)), 'std::runtime_error', 'ErrorHandler')

    def dlopen(self, it, f, this, args, line):
        if self.open_fails:
            self.err = AStr(('cannot open',))
            return NULL
        h = len(self.open)
        self.open.append(True)
        self.onclose[h] = 0
        return Ptr(Cell(Term('handle', h)))

    def handle(self, v):
        if not isinstance(v, Ptr) or not isinstance(v.cell.v, Term) or v.cell.v.op != 'handle':
            raise m02.Misuse('%r is used as a library handle' % v)
        h = v.cell.v.args[0]
        if not self.open[h]:
            raise m02.Misuse('a library handle is used after it was closed')
        return h

    def dlclose(self, it, f, this, args, line):
        h = self.handle(args[0].v)
        if 'ONCLOSE' not in self.lack and (self.onclose[h] != 1 if self.loaded else self.onclose[h] > 1):
            raise m02.Misuse('the library is closed after %d calls of its close function' % self.onclose[h])
        self.open[h] = False
        return 0

    def dlsym(self, it, f, this, args, line):
        h = self.handle(args[0].v)
        s = args[1].v
        if isinstance(s, Ptr):
            s = it.deref(s).v
        t = s.text(lambda x: '{%s}' % x) if isinstance(s, AStr) else None
        m = re.search(r'<(\w+)>', t or '')
        if not m:
            raise AnalysisError('name of a library function is %r' % (s,))
        n = m.group(1)
        if n in self.lack:
            self.err = AStr(('symbol not found',))
            return NULL
        self.err = NULL
        return Ptr(Cell(Term('fn', n, h, t.split('_<')[0] if '_<' in t else ''), 'fn'))

    def dlerror(self, it, f, this, args, line):
        e, self.err = self.err, NULL
        return e

    def call(self, it, fp, args, e):
        while isinstance(fp, Term) and fp.op in ('*', '&', 'deref') and len(fp.args) == 1:
            fp = fp.args[0]
        if isinstance(fp, Ptr) and fp.cell is not None:
            fp = fp.cell.v
        if not (isinstance(fp, Term) and fp.op == 'fn'):
            return NotImplemented
        n, h, model = fp.args
        if not self.open[h]:
            raise m02.Misuse('the function %s of a closed library is called' % n)
        a = [x.v for x in args]
        if n == 'VERSION':
            return self.version
        if n == 'MODELS':
            it.deref(a[0]).v = Ptr(None, Vec([Cell(AStr((m,)), 'const char *') for m in self.names], 'const char *', 'array'), 0)
            it.deref(a[1]).v = len(self.names)
            return None
        if n == 'ONCLOSE':
            self.onclose[h] += 1
            return None
        if n.startswith('SET'):
            self.set[n[3:]] = a[0]
            return None
        if n.startswith('GET') or n.startswith('IS'):
            return self.set.get(re.sub('^(GET|IS)', '', n), 1)
        if n == 'FORWAD_ZERO':
            # the arguments of atomic calls must refer to the model that evaluates
            self.lib.atom(a[-1])
            x = self.lib.data(self.lib.ptrs(a[0], 1)[0], m02.N)
            self.lib.put(self.lib.ptrs(a[1], 1)[0], [Term('F', model, i, *x) for i in range(m02.M)])
            return None
        return self.lib.run(n, a)


def setup(fx, **kw):
    it = Life(fx, max_paths=8, max_steps=400000, loop_bound=12)
    gl = {}
    for g in fx.globs.values():
        q = g['q']
        if q.startswith(m02.PFX):
            gl[q] = g['n'][9:]
        elif q.startswith(LIBFN):
            gl[q] = g['n'][9:]
    if len(gl) < 28:
        raise AnalysisError('names of the library functions not found')
    for q, n in gl.items():
        it.hooks['global:' + q] = lambda i, n=n: AStr(('<%s>' % n,))
    it.hooks['global:' + NS + 'ModelLibraryCSourceGen::API_VERSION'] = lambda i: 7
    return it


class Play:
    """executes a history"""

    def __init__(self, it, fx, **kw):
        self.it, self.fx = it, fx
        it.heap = []
        self.sys = System(it, ['A', 'B'], version=kw.pop('version', 7), **kw)
        self.L, self.M, self.X = [], [], []
        self.tag = 0

    def library(self):
        c = make(self.it, LIB, [Cell(AStr(('/lib.so',)), 'std::string'), Cell(2, 'int')], pred=lambda p: len(p) == 2)
        self.sys.loaded = True
        self.L.append([c, len(self.sys.open) - 1, True])

    def get(self, k, name):
        it, l = self.it, self.L[k]
        f = self.fx.one(NS + 'LinuxDynamicLib::modelFunctor', clsx=LIB)
        r = it.call(f, l[0], [Cell(AStr((name,)), 'std::string')])
        p = r.f['p'].v if isinstance(r, Obj) and r.cls == 'unique_ptr' else r
        if isinstance(r, Cell):
            p = r.v.f['p'].v
        if name not in self.sys.names:
            return 'a model which does not exist is returned' if p is not NULL else None
        if not isinstance(p, Ptr):
            return 'no model is returned for %s' % name
        self.M.append([p.cell, l[1], name, True])
        self.it.heap[:] = [c for c in self.it.heap if c is not p.cell]

    def move(self, l, cls):
        mv = [i for i in self.fx.by_cls.get(cls, ()) if self.fx.funcs[i].get('kind') == 'ctor' and i in self.fx.bodies and self.fx.ptypes(i) == [cls + ' &&']]
        if not mv:
            raise AnalysisError('no move constructor of ' + cls)
        o = Cell(Obj(cls), cls)
        self.it.invoke(mv[0], o, [l[0]])
        return o

    def eval(self, m):
        """None when the model does what it should"""
        it = self.it
        self.sys.lib.model = m[0]
        self.tag += 1
        x = Vec([Cell(Term('x%d' % self.tag, k), 'double') for k in range(m02.N)], 'double', 'std::vector')
        y = Vec([Cell(None, 'double') for k in range(m02.M)], 'double', 'std::vector')
        av = []
        fid = [i for i in self.fx.find(NS + 'FunctorGenericModel::ForwardZero', clsx=NS + 'FunctorGenericModel<double>')
               if [m02.code(m02.strip(p)) for p in self.fx.ptypes(i)] == ['V', 'V']][0]
        for v, t in zip((x, y), self.fx.ptypes(fid)):
            at = t.replace('const ' + NS, NS).rstrip('& ')
            av.append(make(it, at, [Cell(Ptr(None, v, 0), 'double *'), Cell(len(v.c), 'unsigned long')], pred=lambda p: len(p) == 2 and '*' in p[0]))
        open_ = self.sys.open[m[1]]
        try:
            it.call(fid, m[0], av)
        except CppThrow:
            return 'a model of an open library refuses to be evaluated' if open_ and self.ready(m) else None
        if not open_:
            return 'a model of a closed library can be evaluated'
        want = [Term('F', m[2], i, *[c.v for c in x.c]) for i in range(m02.M)]
        if [c.v for c in y.c] != want:
            return 'the evaluation of model %s gives %r' % (m[2], [c.v for c in y.c][:1])

    def ready(self, m):
        return True

    def step(self, op):
        k = op[0]
        if k == 'library':
            self.library()
        elif k == 'get':
            return self.get(op[1], op[2])
        elif k == 'eval':
            return self.eval(self.M[op[1]])
        elif k == 'move model':
            m = self.M[op[1]]
            self.M.append([self.move(m, MOD)] + m[1:])
            m[3] = False
        elif k == 'move library':
            l = self.L[op[1]]
            self.L.append([self.move(l, LIB)] + l[1:])
            l[2] = False
        elif k == 'destroy model':
            m = self.M[op[1]]
            self.it.kill(m[0])
            m[0] = None
        elif k == 'destroy library':
            l = self.L[op[1]]
            self.it.kill(l[0])
            l[0] = None
            if l[2] and self.sys.open[l[1]]:
                return 'the library stays open after it was destroyed'
        elif k == 'atomic':
            m = self.M[op[1]]
            f = self.fx.one(NS + 'GenericModel::asAtomic', clsx=NS + 'GenericModel<double>')
            c = self.it.call(f, m[0], [])
            if isinstance(c, Ptr):
                c = c.cell
            self.X.append([c, op[1]])
        elif k == 'use atomic':
            return self.use(self.X[op[1]])

    def use(self, x):
        """zero order evaluation through the atomic function of a model (which may have been moved)"""
        it = self.it
        m = self.M[x[1]]
        while not m[3]:
            m = [n for n in self.M if n[2] == m[2] and n[1] == m[1] and n is not m and n[0] is not None and n[3]][-1]
        self.sys.lib.model = m[0]
        self.tag += 1
        f = [i for i in self.fx.find(NS + 'CGAtomicGenericModel::forward', clsx=NS + 'CGAtomicGenericModel<double>')][0]
        V = lambda n, t: Cell(Vec([Cell(Term('a%d' % self.tag, k) if t == 'double' else False, t) for k in range(n)], t, 'CppAD::vector'))
        ty = V(m02.M, 'double')
        tx = V(m02.N, 'double')
        try:
            it.call(f, x[0], [Cell(0), Cell(0), V(0, 'bool'), V(0, 'bool'), tx, ty])
        except CppThrow:
            return 'the atomic function of a model of an open library refuses to be evaluated' if self.sys.open[m[1]] else None
        if not self.sys.open[m[1]]:
            return 'the atomic function of a model of a closed library can be evaluated'
        want = [Term('F', m[2], i, *[c.v for c in tx.v.c]) for i in range(m02.M)]
        if [c.v for c in ty.v.c] != want:
            return 'the atomic function of model %s gives %r' % (m[2], [c.v for c in ty.v.c][:1])

    def end(self):
        """destroys what is left and looks for leaks"""
        for m in self.M:
            if m[0] is not None:
                self.it.kill(m[0])
        for l in self.L:
            if l[0] is not None:
                self.it.kill(l[0])
        if any(self.sys.open):
            return 'a library is never closed'
        left = [c for c in self.it.heap if isinstance(c.v, Obj) and c.v.cls.startswith(NS)]
        if left:
            return 'an object of class %s is never deleted' % left[0].v.cls


def histories(n):
    """all sequences of n operations after opening a library, without symmetric ones"""
    out = []

    def grow(h, L, M, X, nmv, nml):
        # L: list of 'live'/'moved'/'gone'; M: (state, lib, name)
        if len(h) == n + 1:
            out.append(h)
            return
        opts = []
        live = [k for k, l in enumerate(L) if l == 'live']
        for k in live:
            if len(M) < 2:
                opts.append(('get', k, 'AB'[len(M)] if len(M) else 'A'))
            if nml < 1:
                opts.append(('move library', k))
        for k, l in enumerate(L):
            if l != 'gone':
                opts.append(('destroy library', k))
        for k, m in enumerate(M):
            if m[0] == 'live':
                if h[-1] not in (('eval', k), ('get', m[1], m[2])):
                    opts.append(('eval', k))
                if nmv < 2:
                    opts.append(('move model', k))
                if not X:
                    opts.append(('atomic', k))
            if m[0] != 'gone':
                opts.append(('destroy model', k))
        for k, x in enumerate(X):
            cur = x
            while M[cur][0] == 'moved' and len(M[cur]) > 3:
                cur = M[cur][3]
            if M[cur][0] == 'live' and h[-1] != ('use atomic', k):
                opts.append(('use atomic', k))
        for o in opts:
            L2, M2, X2, a, b = list(L), list(M), list(X), nmv, nml
            if o[0] == 'get':
                M2.append(('live', o[1], o[2]))
            elif o[0] == 'move library':
                L2[o[1]] = 'moved'
                L2.append('live')
                b += 1
            elif o[0] == 'destroy library':
                L2[o[1]] = 'gone'
            elif o[0] == 'move model':
                M2[o[1]] = ('moved', M[o[1]][1], M[o[1]][2], len(M2))
                M2.append(('live',) + M[o[1]][1:3])
                a += 1
            elif o[0] == 'destroy model':
                M2[o[1]] = ('gone',) + M2[o[1]][1:]
                if M[o[1]][0] == 'live':
                    X2 = X2 if False else X2
            elif o[0] == 'atomic':
                X2.append(o[1])
            grow(h + [o], L2, M2, X2, a, b)
    grow([('library',)], ['live'], [], [], 0, 0)
    return out


def play(fx, h):
    it = setup(fx)
    where = []

    def run(i):
        p = Play(i, fx)
        for op in h:
            where[:] = [op]
            w = p.step(op)
            if w:
                return w
        where[:] = [('destroy the rest',)]
        return p.end()
    try:
        res = it.explore(run)
    except m02.Misuse as e:
        return ('bad', str(e), where[0], it.visited)
    out = ('ok', None, None, it.visited)
    for r in res:
        if r[0] == 'ok':
            if r[1]:
                return ('bad', r[1], where[0], it.visited)
        elif r[0] == 'throw':
            return ('bad', 'an exception is thrown: %s' % (r[1],), where[0], it.visited)
        elif isinstance(r[1], str) and re.search('destroyed|closed|deleted|handle|does not refer|close function|null deref', r[1]):
            return ('bad', r[1], where[0], it.visited)
        else:
            out = ('unk', r[1], where[0], it.visited)
    return out


def text(h):
    return ', '.join(' '.join(str(x) for x in o) for o in h)


def run(ctx):
    fx = facts.facts('main')
    visited = set()
    hs = []
    for n in range(1, 7 if ctx.thorough else 6):
        hs += histories(n)
    res = pmap(lambda h: play(fx, h), hs)
    for h, (v, w, op, vis) in zip(hs, res):
        visited |= vis
        if v == 'ok':
            ctx.ok('lifetime', text(h))
        elif v == 'unk':
            ctx.unk('lifetime', '%s: %s' % (text(h), w))
        else:
            ctx.bad('lifetime', '%s: %s' % (op[0], w), 'include/cppad/cg/model/dynamic_lib', 'after [%s], in %s: %s' % (text(h), ' '.join(map(str, op)), w))
    ctx.count('histories', len(hs))
    opening(ctx, fx, visited)
    interface(ctx, fx, visited)
    ctx.count('functions analysed', len(visited))
    ctx.need('lifetime', 500)
    ctx.need('opening', 10)
    ctx.need('library', 100)
    ctx.need('signature', 30)


def opening(ctx, fx, visited):
    """a library which cannot be used is refused and closed again"""
    val = NS + 'FunctorModelLibrary::validate'
    where = fx.loc(fx.one(val))
    libfn = ['VERSION', 'MODELS', 'ONCLOSE', 'SETTHREADPOOLDISABLED', 'ISTHREADPOOLDISABLED', 'SETTHREADS', 'GETTHREADS', 'SETTHREADSCHEDULERSTRAT',
             'GETTHREADSCHEDULERSTRAT', 'SETTHREADPOOLVERBOSE', 'ISTHREADPOOLVERBOSE', 'SETTHREADPOOLGUIDEDMAXGROUPWORK',
             'GETTHREADPOOLGUIDEDMAXGROUPWORK', 'SETTHREADPOOLNUMBEROFTIMEMEAS', 'GETTHREADPOOLNUMBEROFTIMEMEAS']
    cases = [('the file cannot be opened', {'open_fails': True}, 'refused'), ('of another version', {'version': 6}, 'refused'),
             ('of a newer version', {'version': 8}, 'refused')]
    for f in libfn:
        cases.append(('without the function ' + f.lower(), {'lack': [f]}, 'refused' if f in ('VERSION', 'MODELS') else 'accepted'))
    for lab, kw, want in cases:
        it = setup(fx)
        state = {}

        def run(i):
            p = Play(i, fx, **kw)
            state['p'] = p
            try:
                p.library()
            except CppThrow:
                return 'refused'
            w = p.get(0, 'A') or p.eval(p.M[0]) or p.get(0, 'C')
            if w:
                return w
            names = i.call(fx.one(NS + 'FunctorModelLibrary::getModelNames', clsx=NS + 'FunctorModelLibrary<double>'), p.L[0][0], [])
            names = names.v if isinstance(names, Cell) else names
            if sorted(k.s() for k in m02.members(names)) != ['A', 'B']:
                return 'the model names are wrong'
            return p.end() or 'accepted'
        for r in it.explore(run):
            p = state['p']
            if r[0] == 'abort':
                ctx.unk('opening', lab + ': ' + r[1])
            elif r[0] == 'throw':
                ctx.unk('opening', lab + ': %s' % (r[1],))
            elif r[1] != want:
                ctx.bad('opening', lab, where, 'a library %s is %s' % (lab, r[1]) if r[1] in ('refused', 'accepted') else 'library %s: %s' % (lab, r[1]))
            elif want == 'refused' and any(p.sys.open):
                ctx.bad('opening', lab + '/left open', where, 'a library %s is refused but stays loaded' % lab)
            else:
                ctx.ok('opening', lab)
        visited |= it.visited


# ---- generated libraries ----------------------------------------------------------------------------------
def text_of(v):
    return v.text(lambda x: '{%s}' % x) if isinstance(v, AStr) else v


MT = ('NONE', 'OPENMP', 'PTHREADS')
POOLH = """
extern void omp_set_schedule(int, int);
"""


def library_sources(fx, models, mt, how):
    """the files generated for a library: models = [(name, parallel Jacobian, parallel Hessian)]"""
    it = Interp(fx, max_paths=8, max_steps=100000, loop_bound=12)
    objs = {}
    C = NS + 'ModelLibraryCSourceGen'

    def of(this):
        return objs[id(this)]
    for n, k in (('getName', 0), ('isJacobianMultiThreadingEnabled', 1), ('isHessianMultiThreadingEnabled', 2)):
        it.hooks[NS + 'ModelCSourceGen::' + n] = lambda i, f, this, args, line, k=k: AStr((of(this)[0],)) if k == 0 else of(this)[k]

    def run(i):
        ms = []
        for m in models:
            c = Cell(Obj(NS + 'ModelCSourceGen<double>'), NS + 'ModelCSourceGen<double>')
            objs[id(c)] = m
            ms.append(c)
        o = make(i, C + '<double>', [ms[0]], pred=lambda p: len(p) == 1 and 'ModelCSourceGen' in p[0] and '&&' not in p[0] and 'Library' not in p[0])
        if how == 'late':
            # models which are added after the sources were asked for
            i.call(fx.one(C + '::setMultiThreading', clsx=C + '<double>'), o, [Cell(mt)])
            i.call(fx.one(C + '::getLibrarySources', clsx=C + '<double>'), o, [])
        for m in ms[1:]:
            i.call(fx.one(C + '::addModel', clsx=C + '<double>'), o, [m])
        if how != 'late':
            i.call(fx.one(C + '::setMultiThreading', clsx=C + '<double>'), o, [Cell(mt)])
        r = i.call(fx.one(C + '::getLibrarySources', clsx=C + '<double>'), o, [])
        r = r.v if isinstance(r, Cell) else r
        out = {text_of(k): text_of(v.v) for k, v in r.d}
        for k, v in out.items():
            if not isinstance(v, str):
                raise AnalysisError('the text of %s is not known' % k)
        return out
    return it, list(it.explore(run))


def ctype(t):
    t = re.sub(r'\b(const|volatile|struct|enum)\b', '', t)
    t = re.sub(r'\[\d*\]', '*', t).replace('ScheduleStrategy', 'int')
    t = re.sub(r'\s+', ' ', t)
    return re.sub(r'\s*([*&(),])\s*', r'\1', t).strip()


def pointer_type(t):
    """(result, parameters) of a function (pointer) type"""
    m = re.match(r'^(.*?)\((?:\*(?: ?const)?)?\)\((.*)\)$', t) or re.match(r'^([^()]*)\((.*)\)$', t)
    if not m:
        raise AnalysisError('%s is not a type of functions' % t)
    ps, d, cur = [], 0, ''
    for ch in m.group(2):
        if ch == ',' and d == 0:
            ps.append(cur)
            cur = ''
        else:
            d += {'(': 1, ')': -1}.get(ch, 0)
            cur += ch
    if cur.strip() and cur.strip() != 'void':
        ps.append(cur)
    return ctype(m.group(1)), tuple(ctype(p) for p in ps)


def signature(us, name):
    for u in us:
        for i, f in u.fx.funcs.items():
            if f['q'] == name and i in u.fx.bodies:
                return ctype(u.fx.t(f['ret'])), tuple(ctype(p) for p in u.fx.ptypes(i))
    return None


class Linker:
    """the loader classes with the functions of a generated library"""

    def __init__(self, fx, prog, used, errs):
        self.fx, self.prog, self.used, self.errs = fx, prog, used, errs
        self.it = Life(fx, max_paths=4, max_steps=200000, loop_bound=12)
        self.it.heap = []
        h = self.it.hooks
        self.open = True
        h['dlopen'] = lambda *a: Ptr(Cell(Term('handle', 0)))
        h['dlclose'] = self.dlclose
        h['dlerror'] = lambda *a: self.err
        h['dlsym'] = self.dlsym
        h['indirect'] = self.call
        h['std::thread::hardware_concurrency'] = lambda *a: 4
        self.err = NULL

    def dlclose(self, it, f, this, args, line):
        self.open = False
        return 0

    def dlsym(self, it, f, this, args, line):
        s = args[1].v
        if isinstance(s, Ptr):
            s = it.deref(s).v
        s = text_of(s)
        if s not in self.prog.index:
            self.err = AStr(('symbol not found',))
            return NULL
        self.err = NULL
        return Ptr(Cell(Term('fn', s), 'fn'))

    def call(self, it, fp, args, e):
        while isinstance(fp, Term) and fp.op in ('*', '&', 'deref') and len(fp.args) == 1:
            fp = fp.args[0]
        if isinstance(fp, Ptr) and fp.cell is not None:
            fp = fp.cell.v
        if not (isinstance(fp, Term) and fp.op == 'fn'):
            return NotImplemented
        n = fp.args[0]
        note(self.fx, it, self.used, n, e)
        a = [Cell(int(x.v) if isinstance(x.v, bool) else x.v) for x in args]
        return self.prog.run(n, a)


def note(fx, it, used, n, e):
    """records the type of the function pointer that is called"""
    x = e.get('fp')
    while x is not None and x['k'] == 'un' and x.get('op') == '*':
        x = x['e']
    if x is not None:
        fr = it.frames[-1] if it.frames else None
        used.setdefault((n, fx.t(x['t'])), (getattr(fr, 'fid', None), x.get('l')))


SETTINGS = [('setThreadPoolDisabled', 'isThreadPoolDisabled', 'bool', (True, False), None), ('setThreadNumber', 'getThreadNumber', 'unsigned int', (1, 3), None),
            ('setThreadPoolSchedulerStrategy', 'getThreadPoolSchedulerStrategy', NS + 'ThreadPoolScheduleStrategy', (1, 3, 2), None),
            ('setThreadPoolVerbose', 'isThreadPoolVerbose', 'bool', (True, False), None),
            ('setThreadPoolGuidedMaxWork', 'getThreadPoolGuidedMaxWork', 'float', (0.25, 0.5), ('PTHREADS',)),
            ('setThreadPoolNumberOfTimeMeas', 'getThreadPoolNumberOfTimeMeas', 'unsigned int', (4, 7), ('PTHREADS',))]


def library_cases():
    one, two, none = ('a', True, False), ('b', False, True), ('c', False, False)
    for mt in MT:
        for ms in ([none], [one], [two], [none, one], [two, none], [none, ('d', False, False)], [none, one, two]):
            yield mt, ms, 'first'
        yield mt, [none, two], 'late'
        yield mt, [one, none], 'late'


def interface(ctx, fx, visited):
    C = NS + 'ModelLibraryCSourceGen'
    enum = dict(zip(MT, range(3)))
    enum.update(m01.enumvals(fx, NS + 'MultiThreadingType') or {})
    strat = {'STATIC': 1, 'DYNAMIC': 2, 'GUIDED': 3}
    strat.update(m01.enumvals(fx, NS + 'ThreadPoolScheduleStrategy') or {})
    gen = fx.loc(fx.one(C + '::getLibrarySources', clsx=C + '<double>'))
    used = {}
    shown = {}
    sigs = []
    for mt, ms, how in library_cases():
        lab = '%s, models %s%s' % (mt, ', '.join(n + (' in parallel' if j or h else '') for n, j, h in ms), ', some added late' if how == 'late' else '')
        it, res = library_sources(fx, ms, enum[mt], how)
        visited |= it.visited
        for r in res:
            if r[0] != 'ok':
                ctx.unk('library', '%s: %s' % (lab, r[1]))
                continue
            par = mt if any(j or h for _, j, h in ms) else 'NONE'
            files = sorted(r[1].items())
            us, err = units(files, extra=[('omp.h', OMP)])
            if err:
                ctx.bad('library', 'compiles', gen, '%s: the generated file %s does not compile: %s' % (lab, err[0][0], err[0][1]))
                continue
            prog = CProgram(us, max_paths=8, max_steps=400000)
            out = []
            calls = []
            prog.hooks['cppadcg_thpool_shutdown'] = lambda *a: calls.append('shutdown')
            prog.externs['omp_set_schedule'] = lambda p, a: calls.append(('schedule', a[0].v, a[1].v))
            for pr in prog.explore(lambda p: session(fx, p, [n for n, _, _ in ms], par, used, strat, calls, out, visited)):
                if pr[0] == 'abort':
                    ctx.unk('library', '%s: %s' % (lab, pr[1]))
                elif pr[0] == 'throw':
                    ctx.bad('library', 'loads', gen, '%s: the generated library is refused: %s' % (lab, pr[1]))
            if prog.multi:
                ctx.bad('library', 'twice', gen, '%s: the function %s is defined twice' % (lab, prog.multi[0]))
            for o, w in out:
                if w:
                    ctx.bad('library', o, gen, '%s, %s: %s' % (lab, o, w))
                else:
                    ctx.ok('library', '%s, %s' % (lab, o))
            sigs.append(us)
    model_signatures(ctx, fx, used, sigs)


def session(fx, prog, names, par, used, strat, calls, out, visited):
    """loads the library with the loader classes and uses its settings"""
    prog.start()
    lk = Linker(fx, prog, used, None)
    F = NS + 'FunctorModelLibrary'

    def run(it):
        lib = make(it, LIB, [Cell(AStr(('/lib.so',)), 'std::string'), Cell(2, 'int')], pred=lambda p: len(p) == 2)

        def m(n, *a):
            ids = [i for i in fx.find(F + '::' + n, clsx=F + '<double>') if i in fx.bodies]
            if len(ids) != 1:
                raise AnalysisError('anchor not found: FunctorModelLibrary::' + n)
            r = it.call(ids[0], lib, list(a))
            return r.v if isinstance(r, Cell) else r
        r = m('getModelNames')
        have = sorted(k.s() for k in m02.members(r))
        out.append(('model names', None if have == sorted(names) else 'the library has the models %s' % have))
        state = {}
        for s, g, t, vals, only in SETTINGS:
            if only and par not in only:
                continue
            state[g] = m(g)
        if par == 'NONE':
            out.append(('defaults', None if state['isThreadPoolDisabled'] in (True, 1) else 'a library without multithreading does not report that it is disabled'))
        elif state['getThreadNumber'] != 4:
            out.append(('threads', 'the library does not use the number of processors but %r threads' % (state['getThreadNumber'],)))
        else:
            out.append(('threads', None))
        for s, g, t, vals, only in SETTINGS:
            if only and par not in only:
                m(s, Cell(vals[0], t))
                m(g)
                out.append((s, None))
                continue
            for v in vals:
                m(s, Cell(v, t))
                if par == 'NONE':
                    continue
                state[g] = v
                w = None
                for _, g2, _, _, only2 in SETTINGS:
                    if g2 in state:
                        r = m(g2)
                        if isinstance(r, bool):
                            r = int(r)
                        if r != state[g2]:
                            w = '%s() is %r and should be %r' % (g2, r, state[g2])
                            break
                out.append(('%s(%s)' % (s, v), w))
        if par == 'OPENMP' and strat:
            for k, kind, chunk in (('STATIC', 1, None), ('DYNAMIC', 2, 1), ('GUIDED', 3, None)):
                m('setThreadPoolSchedulerStrategy', Cell(strat[k]))
                del calls[:]
                if 'cppadcg_openmp_apply_scheduler_strategy' not in prog.index:
                    out.append(('schedule', 'the functions of OpenMP libraries are not part of the library'))
                    break
                prog.run('cppadcg_openmp_apply_scheduler_strategy', [])
                c = calls[-1:]
                good = c and c[0][1] == kind and (chunk is None or c[0][2] == chunk)
                out.append(('schedule ' + k, None if good else 'the strategy %s gives the OpenMP schedule %s' % (k, c)))
        del calls[:]
        it.kill(lib)
        n = calls.count('shutdown')
        if par == 'PTHREADS':
            out.append(('closing', None if n == 1 else 'the thread pool is stopped %d times when the library is closed' % n))
        out.append(('closed', None if not lk.open else 'the library is not closed'))
    for r in lk.it.explore(run):
        if r[0] == 'throw':
            out.append(('loading', 'an exception is thrown: %s' % (r[1],)))
        elif r[0] != 'ok' and re.match(r'(link|memory|uninitialised|value|type)\b', str(r[1])):
            out.append(('use', str(r[1])))
        elif r[0] != 'ok':
            raise AnalysisError('the generated library cannot be loaded: %s' % (r[1],))
    visited |= lk.it.visited


def model_signatures(ctx, fx, used, sigs):
    """each generated function has the type of the pointer it is called through"""
    where = 'include/cppad/cg/model/functor_model_library.hpp'
    done = set()
    for (n, t), (fid, line) in sorted(used.items()):
        w = pointer_type(t)
        for us in sigs:
            s = signature(us, n)
            if s is None:
                continue
            if s != w:
                if (n, s) not in done:
                    ctx.bad('signature', n, where, 'the function %s has the type %s(%s) and is called as %s(%s)' % (n, s[0], ', '.join(s[1]), w[0], ', '.join(w[1])))
            elif (n, t) not in done:
                ctx.ok('signature', '%s is called as %s' % (n, t))
            done.add((n, s) if s != w else (n, t))
    # functions of models
    sim = m02.Sim(fx)
    T = sim.T = m02.table()
    mused = {}
    FGMC = m02.FGM + '<double>'
    fids = {}
    for i in fx.by_cls.get(FGMC, ()):
        f = fx.funcs[i]
        if i in fx.bodies and f.get('virtual') and f.get('kind') not in ('ctor', 'dtor'):
            fids[f['n'], ''.join(m02.code(m02.strip(p)) for p in fx.ptypes(i))] = i

    class Rec(m02.Lib):
        def __call__(self, it, fp, args, e):
            x = fp
            while isinstance(x, Term) and x.op in ('*', '&', 'deref') and len(x.args) == 1:
                x = x.args[0]
            if isinstance(x, Term) and x.op == 'fn':
                note(fx, it, mused, x.args[0], e)
            return m02.Lib.__call__(self, it, fp, args, e)
    for key in list(T) + list(m02.QUERY):
        if key not in fids:
            raise AnalysisError('%s not found' % (key,))
        it = sim.interp()

        def run(i):
            lib = Rec(i, atomics=())
            m = sim.model(i, lib)
            if key in T:
                m02.Call(i, sim, fids[key], key).run(m)
            elif key[1] in ('', 'n'):
                i.call(fids[key], m, [Cell(0, 'unsigned long')] if key[1] else [])
        list(it.explore(run))
    files = {}
    opt = {'CreateForwardZero': True, 'CreateJacobian': True, 'CreateHessian': True, 'CreateSparseJacobian': True, 'CreateSparseHessian': True,
           'CreateForwardOne': True, 'CreateReverseOne': True, 'CreateReverseTwo': True}
    case = [c for c in m01.cases(False) if not c[2].get('mt')][0]
    fun, it, res = m01.generate(fx, (case[0], case[1], dict({k: v for k, v in case[2].items() if not k.startswith('Create')}, **opt)))
    r = [x for x in res if x[0] == 'ok']
    if not r:
        ctx.unk('signature', 'no model sources: %s' % (res[0][1],))
        return
    us, err = units(sorted(r[0][1].items()), extra=[('omp.h', OMP)])
    for (n, t), (fid, line) in sorted(mused.items()):
        w = pointer_type(t)
        g = 'model_' + fname(fx, 'FUNCTION_' + n)
        s = signature(us, g)
        if s is None:
            ctx.bad('signature', n, where, 'no function %s is generated' % g)
        elif s != w:
            ctx.bad('signature', n, where, 'the generated function %s has the type %s(%s) and is called as %s(%s)' % (g, s[0], ', '.join(s[1]), w[0], ', '.join(w[1])))
        else:
            ctx.ok('signature', '%s is called as %s' % (g, t))
    # the structures shared with the generated code
    for st, q in (('Array', 'Array'), ('LangCAtomicFun', 'LangCAtomicFun')):
        mine = fx.recs.get(q)
        if mine is None:
            raise AnalysisError('structure %s not found' % q)
        a = [(f['n'], ctype(fx.t(f['t'])).replace('Array', 'Array')) for f in mine['fields']]
        seen = False
        for u in us:
            for k, rec in u.fx.recs.items():
                if k in (st, 'struct ' + st) and rec.get('fields'):
                    b = [(f['n'], ctype(u.fx.t(f['t']))) for f in rec['fields']]
                    seen = True
                    if a != b:
                        ctx.bad('signature', st, 'include/cppad/cg/lang/c/language_c.hpp',
                                'the structure %s of the generated code has the fields %s and the library has %s' % (st, b, a))
                        break
        if seen:
            ctx.ok('signature', 'structure ' + st)
        else:
            ctx.unk('signature', 'no generated file defines the structure ' + st)
