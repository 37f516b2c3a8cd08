"""Whole source generations: a recording session is built by the code's own factories, the real generator (ordering of operations, naming,
sharing of variables, splitting in functions, C emission) is interpreted, and the C text it writes is interpreted in turn."""
import math
import zlib

from .absint import AMap, AStr, Cell, CppThrow, Interp, NULL, Obj, PathAbort, Ptr, Stream, Term, Vec
from .cexec import CProgram, darray, parray, units
from .cgmodel import NoMeaning, SEM1, SEM2, SEM4, clsn, ev, same
from .facts import AnalysisError
from .poolsim import Fault
from .world import World, make, vec

# operands of a graph: ('x', j) an independent, ('n', k) node k, a number


class G:
    """a recorded graph under construction (plain data)"""

    def __init__(self, nx):
        self.nx = nx
        self.nodes = []

    def __call__(self, op, *args, info=()):
        self.nodes.append((op, list(args), list(info)))
        return ('n', len(self.nodes) - 1)

    # an atomic function call: dense or sparse arrays of values
    def array(self, *vals):
        return self('ArrayCreation', *vals)

    def sparse(self, size, idx, vals):
        return self('SparseArrayCreation', *vals, info=[size] + list(idx))

    def zeros(self, n):
        return self('ArrayCreation', *([0.0] * n))

    def forward(self, fid, q, p, tx, ty):
        return self('AtomicForward', *(list(tx) + list(ty)), info=[fid, q, p])

    def reverse(self, fid, p, tx, ty, px, py):
        return self('AtomicReverse', *(list(tx) + list(ty) + list(px) + list(py)), info=[fid, p])

    def elem(self, arr, call, i):
        return self('ArrayElement', arr, call, info=[i])


# ---- meaning of a graph ---------------------------------------------------------------------------------
def pseudo(name, args):
    """an uninterpreted function, as numbers"""
    h = zlib.crc32(name.encode()) % 1000 / 377.0
    s = h
    for i, a in enumerate(args):
        s += math.sin((i + 1.37) * 0.731 + h) * a
    return math.sin(s) + 0.1 * s


def arrkey(arr, val):
    """(name suffix, values) of an array operand"""
    op, args, info = arr
    if op == 'ArrayCreation':
        return 'd%d' % len(args), [val(a) for a in args]
    nz = [(i, val(a)) for i, a in zip(info[1:], args)]
    return 's%d:%s' % (info[0], ','.join(str(i) for i, _ in nz)), [v for _, v in nz]


def evaluate(g, refs, xs):
    """values of the given operands of the graph"""
    memo = {}

    def val(a):
        if not isinstance(a, tuple):
            return float(a)
        if a[0] == 'x':
            return xs[a[1]]
        if a[1] not in memo:
            memo[a[1]] = node(a[1])
        return memo[a[1]]

    def out(call, arr, i):
        op, args, info = g.nodes[call[1]]
        if op == 'AtomicForward':
            fid, q, p = info
            tx = args[:p + 1]
            outs = {args[p + 1 + p]: 'ty'}
            key = 'fwd%d,%d,%d' % (fid, q, p)
            ins = tx
        else:
            fid, p = info
            n = p + 1
            ins = args[:n] + args[3 * n:]
            outs = {args[2 * n]: 'px'}
            key = 'rev%d,%d' % (fid, p)
        if arr not in outs:
            return val(g.nodes[arr[1]][1][i])
        vals = []
        for a in ins:
            k, v = arrkey(g.nodes[a[1]], val)
            key += '/' + k
            vals += v
        return pseudo('%s>%s%d' % (key, outs[arr], i), vals)

    def node(k):
        op, args, info = g.nodes[k]
        if op == 'ArrayElement':
            return out(args[1], args[0], info[0])
        a = [val(x) for x in args]
        if op in SEM1:
            return SEM1[op](*a)
        if op in SEM2:
            return SEM2[op](*a)
        if op in SEM4:
            return a[2] if SEM4[op](a[0], a[1]) else a[3]
        if op == 'Pri':
            return a[0]
        raise NoMeaning(op)
    return [val(r) for r in refs]


# ---- generation -------------------------------------------------------------------------------------------
ATOMNAME = 'atomic_%d'


def gen_hooks():
    def aname(it, f, this, args, line):
        v = this.v
        if isinstance(v, Obj) and isinstance(v.tag, str) and v.tag.startswith('atomfun'):
            return AStr((ATOMNAME % int(v.tag[7:]),))
        return NotImplemented
    h = {}
    for n, c in (('IdenticalZero', 0.0), ('IdenticalOne', 1.0)):
        h['CppAD::' + n] = lambda it, f, this, args, line, c=c: (args[0].v == c) if isinstance(args[0].v, (int, float)) else NotImplemented
    for n in ('IdenticalCon', 'IdenticalPar'):
        h['CppAD::' + n] = lambda it, f, this, args, line: True if isinstance(args[0].v, (int, float)) else NotImplemented
    return {**h, 'CppAD::atomic_base::atomic_name': aname, 'CppAD::atomic_three::atomic_name': aname, 'CppAD::cg::CGAbstractAtomicFun::atomic_name': aname,
            'CppAD::cg::BaseAbstractAtomicFun::atomic_name': aname}


def ctors(it, cls, pred):
    fx = it.fx
    return [i for i in fx.by_cls.get(cls, ()) if fx.funcs[i].get('kind') == 'ctor' and i in fx.bodies and pred(fx.ptypes(i))]


class Files(list):
    """generated files; atomics: identification of the function behind each index"""
    atomics = ()


class Session:
    """one handler with a graph; several generations can follow each other"""

    def __init__(self, it, nx, base='double', reuse=None):
        self.it, self.fx, self.base = it, it.fx, base
        self.w = World(it, base)
        self.x = self.w.indep(nx)
        self.n = []
        self.atoms = set()
        if reuse is not None:
            self.w.call('setReuseVariableIDs', [Cell(reuse, 'bool')])

    def ref(self, a):
        if not isinstance(a, tuple):
            return float(a)
        return self.x[a[1]] if a[0] == 'x' else self.n[a[1]]

    def record(self, nodes):
        for op, args, info in nodes:
            if op in ('AtomicForward', 'AtomicReverse') and info[0] not in self.atoms:
                self.atoms.add(info[0])
                self.register(info[0])
            self.n.append(self.w.node(op, [self.ref(a) for a in args], info))

    def register(self, fid):
        o = Obj(clsn('CGAbstractAtomicFun', self.base), tag='atomfun%d' % fid)
        for q in ('CppAD::cg::CGAbstractAtomicFun::id_', 'CppAD::cg::CGAbstractAtomicFun::_id'):
            o.f[q] = Cell(fid, 'unsigned long')
        m = self.w.h.v
        fq = 'CppAD::cg::CodeHandler::_atomicFunctions'
        c = self.it.field(self.w.h, fq)
        c.v.d.append([fid, Cell(Ptr(Cell(o, o.cls)))])

    def cg(self, a):
        if not isinstance(a, tuple):
            return Cell(self.w.m.cg(None, float(a)), self.w.m.CG)
        if a[0] == 'x':
            return Cell(self.it.copy(self.x[a[1]].v), self.w.m.CG)
        return self.w.cg(self.n[a[1]])

    def member(self, obj, cls, name, args, nparams=None, pred=None):
        r = [i for c in self.fx.mro(cls) for i in self.fx.by_cls.get(c, ()) if self.fx.funcs[i]['n'] == name and
             (nparams is None or len(self.fx.funcs[i]['p']) == nparams) and (pred is None or pred(self.fx.ptypes(i)))]
        if not r:
            raise AnalysisError('anchor not found: %s::%s' % (cls, name))
        v = self.it.invoke(r[0], obj, list(args))
        return v.v if isinstance(v, Cell) else v

    def namer(self, kind):
        it, b = self.it, self.base
        d = clsn('LangCDefaultVariableNameGenerator', b)
        base = make(it, d, [Cell(AStr((s,))) for s in ('y', 'x', 'v', 'array', 'sarray')], pred=lambda p: len(p) == 5)
        if kind is None:
            return base, ['x'], ['y']
        if kind[0] == 'hess':
            c = make(it, clsn('LangCDefaultHessianVarNameGenerator', b), [Cell(Ptr(base)), Cell(kind[1], 'unsigned long')], pred=lambda p: len(p) == 2)
            return c, ['x', 'mult'], ['y']
        if kind[0] == 'rev2':
            c = make(it, clsn('LangCDefaultReverse2VarNameGenerator', b), [Cell(Ptr(base)), Cell(kind[1], 'unsigned long'), Cell(kind[2], 'unsigned long')],
                     pred=lambda p: len(p) == 3)
            return c, ['x', 'tx1', 'py2'], ['y']
        raise AnalysisError('name generator ' + str(kind))

    def language(self, o, sources):
        it = self.it
        cls = clsn('LanguageC', self.base)
        lang = make(it, cls, [Cell(AStr((self.base,))), Cell(3, 'size_t')], pred=lambda p: len(p) == 2 and 'LanguageC' not in p[0])
        if o.get('function', True):
            self.member(lang, cls, 'setGenerateFunction', [Cell(AStr((o.get('name', 'fun'),)))])
        if 'maxop' in o:
            self.member(lang, cls, 'setMaxOperationsPerAssignment', [Cell(o['maxop'], 'unsigned long')])
        if 'split' in o:
            self.member(lang, cls, 'setMaxAssignmentsPerFunction', [Cell(o['split'], 'unsigned long'), Cell(Ptr(sources))])
        if 'assign' in o:
            self.member(lang, cls, 'setDependentAssignOperation', [Cell(AStr((o['assign'],)))])
        if o.get('ignorezero'):
            self.member(lang, cls, 'setIgnoreZeroDepAssign', [Cell(True, 'bool')])
        for k, n in (('argin', 'setArgumentIn'), ('argout', 'setArgumentOut'), ('argat', 'setArgumentAtomic')):
            if k in o:
                self.member(lang, cls, n, [Cell(AStr((o[k],)))])
        return lang, cls

    def generate(self, deps, o=None, lang=None):
        """[(file name, text)] of one generation"""
        o = o or {}
        it = self.it
        if 'zerodep' in o:
            self.w.call('setZeroDependents', [Cell(o['zerodep'], 'bool')])
        if 'reuse' in o:
            self.w.call('setReuseVariableIDs', [Cell(o['reuse'], 'bool')])
        sources = Cell(AMap(), 'std::map')
        if lang is None:
            lang, cls = self.language(o, sources)
        else:
            lang, cls = lang
        ng, ins, outs = self.namer(o.get('namer'))
        out = Cell(Stream(), 'std::ostringstream')
        y = [self.cg(d) for d in deps]
        if not hasattr(self, 'order'):
            self.order = Cell(vec([], 'std::string'))
        self.w.call('generateCode', [out, lang, Cell(vec(y, self.w.m.CG)), ng, self.order, Cell(AStr(('job',)))], pred=lambda p: len(p) == 6 and 'std::vector' in p[2])
        main = text(out.v.s())
        if not o.get('function', True):
            dcl = text(self.member(lang, cls, 'generateTemporaryVariableDeclaration', [Cell(False), Cell(bool(o.get('zerodep'))), Cell(-1, 'int'), Cell(-1, 'int')], nparams=4, pred=lambda p: p[2] == 'int'))
            main = '#include <math.h>\n#include <stdio.h>\nvoid %s(const %s* x, %s* y) {\n%s%s}\n' % (o.get('name', 'fun'), self.base, self.base, dcl, main)
        files = Files([(o.get('name', 'fun') + '.c', main)] if main else [])
        files.atomics = [int(text(c.v)[len(ATOMNAME) - 2:]) for c in self.order.v.c]
        have = {n for n, _ in files}
        files += [(text(k) if isinstance(k, AStr) else k, text(c.v)) for k, c in sources.v.d if (text(k) if isinstance(k, AStr) else k) not in have]
        return files


def text(s):
    if isinstance(s, Cell):
        s = s.v
    if isinstance(s, AStr):
        if not s.conc():
            raise AnalysisError('the generated text is not determined: %r' % (s,))
        return s.s()
    return s


# ---- execution of the text ----------------------------------------------------------------------------------
def aread(it, c):
    """('d'/'s', size, idx, values) of an Array structure"""
    f = {q.split('::')[-1]: v.v for q, v in c.v.f.items()}
    for k in ('data', 'size', 'sparse'):
        if f.get(k) is None:
            raise Fault('uninitialised', 'field %s of an array passed to an atomic function was never written' % k)
    if f['sparse']:
        if f.get('nnz') is None:
            raise Fault('uninitialised', 'field nnz of an array passed to an atomic function was never written')
        n = f['nnz']
        idx = [it.deref(shift(f['idx'], i)).v for i in range(n)] if n else []
        vals = [it.deref(shift(f['data'], i)) for i in range(n)]
        if any(i is None for i in idx):
            raise Fault('uninitialised', 'index of a sparse array passed to an atomic function was never written')
        return 's%d:%s' % (f['size'], ','.join(map(str, idx))), vals
    vals = [it.deref(shift(f['data'], i)) for i in range(f['size'])]
    return 'd%d' % len(vals), vals


def shift(p, i):
    if not isinstance(p, Ptr) or p.vec is None:
        raise Fault('memory', 'the array has no data')
    return Ptr(None, p.vec, p.i + i)


def arr_at(it, p, k):
    """k-th Array of an array argument"""
    if isinstance(p, Vec):
        p = Ptr(None, p, 0)
    if isinstance(p, Ptr) and p.vec is not None:
        return it.deref(shift(p, k))
    if k == 0:
        return it.deref(p)
    raise Fault('memory', 'array argument %d does not exist' % k)


def atomic_call(it, fp, args, e):
    if not isinstance(fp, Term) or fp.op not in ('atomfwd', 'atomrev'):
        return NotImplemented
    a = [c.v for c in args]
    if not 0 <= a[1] < len(it.atomics):
        raise Fault('value', 'call of atomic function %d of %d' % (a[1], len(it.atomics)))
    a[1] = it.atomics[a[1]]
    if not (isinstance(a[0], Ptr) and a[0].cell is not None and a[0].cell.v == 'lib'):
        raise Fault('value', 'the library argument of an atomic function call is not the one of the caller')
    if fp.op == 'atomfwd':
        fid, q, p, tx, ty = a[1:]
        key = 'fwd%s,%s,%s' % (fid, q, p)
        ins = [arr_at(it, tx, k) for k in range(p + 1)]
        outc, on = ty, 'ty'
    else:
        fid, p, tx, px, py = a[1:]
        key = 'rev%s,%s' % (fid, p)
        ins = [arr_at(it, tx, k) for k in range(p + 1)] + [arr_at(it, py, k) for k in range(p + 1)]
        outc, on = px, 'px'
    vals = []
    touch = getattr(it, 'touch', None)
    for c in ins:
        k, v = aread(it, c)
        key += '/' + k
        for x in v:
            if x.v is None:
                raise Fault('uninitialised', 'an element of an array passed to an atomic function was never written')
            if touch:
                touch(x, False)
            vals.append(x.v)
    k, v = aread(it, it.deref(outc) if isinstance(outc, Ptr) and outc.vec is None else arr_at(it, outc, 0))
    if not k.startswith('d'):
        raise Fault('value', 'the result of an atomic function call is a sparse array')
    for i, c in enumerate(v):
        c.v = Term('U:%s>%s%d' % (key, on, i), *vals)
        if touch:
            touch(c, True)
    return 0


def tval(t, env):
    """numeric meaning of a term of the executed text"""
    if isinstance(t, Term) and t.op.startswith('U:'):
        return pseudo(t.op[2:], [tval(a, env) for a in t.args])
    if isinstance(t, Term) and t.args:
        return ev(Term(t.op, *[tval(a, env) for a in t.args]), env)
    return ev(t, env)


def program(us, **kw):
    p = CProgram(us, **kw)
    p.hooks['indirect'] = atomic_call
    return p


def atomfun():
    at = Obj('LangCAtomicFun')
    at.f['LangCAtomicFun::libModel'] = Cell(Ptr(Cell('lib')))
    at.f['LangCAtomicFun::forward'] = Cell(Term('atomfwd'))
    at.f['LangCAtomicFun::reverse'] = Cell(Term('atomrev'))
    return Cell(at, 'LangCAtomicFun')


PTS = [[0.37, 0.81, 0.53, 0.19, 0.67, 0.91, 0.43, 0.29], [1.7, 0.6, -0.8, 2.3, -1.1, 0.4, 1.9, -0.3], [0.62, 0.62, 1.25, 0.35, 0.35, 1.25, -0.4, 0.9],
       [-0.55, 0.45, 0.15, -0.75, 0.85, -0.25, 0.65, -0.95]]


def execute(files, nx, ny, o, flags=()):
    """runs the generated function: yields ('ok', outputs, conds, prints) / ('fault', kind, msg) / ('error', msg) / ('unk', msg)"""
    us, err = units(files, flags)
    if err:
        yield ('error', '%s: %s' % err[0])
        return
    p = program(us, max_paths=300)
    p.atomics = getattr(files, 'atomics', ())
    if p.multi:
        yield ('error', 'several definitions of ' + p.multi[0])
        return
    blocks = o.get('blocks', [nx])
    names = o.get('xnames')

    def run(it):
        it.start()
        ins, k = [], 0
        for b in blocks:
            ins.append(darray([Term('x%d' % (k + j)) for j in range(b)])[0])
            k += b
        init = [Term('y%d' % i) for i in range(ny)] if o.get('assign', '=') != '=' or o.get('yinit') else [None] * ny
        op, ov = darray(init)
        if o.get('function', True):
            it.run(o.get('name', 'fun'), [Cell(parray(ins)), Cell(parray([op])), atomfun()])
        else:
            it.run(o.get('name', 'fun'), [Cell(ins[0]), Cell(op)])
        for b, i in zip(blocks, ins):
            pass
        return [c.v for c in ov.c], list(it.conds), list(it.prints), list(it.calls)
    for r in p.explore(run):
        if r[0] == 'ok':
            yield ('ok',) + tuple(r[1])
        elif r[0] == 'abort':
            ft = getattr(p, 'fault', None)
            m = r[1]
            if m.split(':')[0] in ('memory', 'link', 'uninitialised', 'value', 'exit'):
                yield ('fault', m.split(':')[0], m)
            else:
                yield ('unk', m)
        else:
            yield ('unk', str(r[1]))


def check_outputs(g, deps, res, o, nx):
    """compares the outputs of every path with the meaning of the graph; returns (problem or None, number of comparisons, unknown)"""
    n = 0
    unk = None
    assign = o.get('assign', '=')
    for kind, outs, conds, prints, calls in [r for r in res if r[0] == 'ok']:
        for pt in PTS:
            env = {'x%d' % j: pt[j % len(pt)] + 0.01 * (j // len(pt)) for j in range(nx)}
            y0 = {'y%d' % i: 0.3 + 0.17 * i for i in range(len(deps))}
            env.update(y0)
            try:
                if not all(bool(tval(c, env)) == v for c, v in conds):
                    continue
            except (ValueError, ZeroDivisionError, OverflowError):
                continue
            except NoMeaning as e:
                unk = str(e)
                continue
            xs = [env['x%d' % j] for j in range(nx)]
            for i, d in enumerate(deps):
                try:
                    ref = evaluate(g, [d], xs)[0]
                except (ValueError, ZeroDivisionError, OverflowError):
                    continue
                if isinstance(ref, complex):
                    continue
                base = y0['y%d' % i]
                if o.get('zerodep'):
                    base = 0.0
                exp = {'=': ref, '+=': base + ref, '-=': base - ref}[assign]
                if outs[i] is None:
                    if o.get('ignorezero') and d == 0.0:
                        continue
                    return 'output %d (%s) is never written' % (i, show(g, d)), n, unk
                if o.get('ignorezero') and d == 0.0 and not o.get('zerodep') and assign == '=':
                    continue
                try:
                    got = tval(outs[i], env)
                except NoMeaning as e:
                    unk = str(e)
                    continue
                except (ValueError, ZeroDivisionError, OverflowError):
                    return 'output %d should be %s; the generated code computes an undefined value' % (i, show(g, d)), n, unk
                n += 1
                if isinstance(got, complex) or not same(exp, got):
                    return 'output %d should be %s = %r for x = %s; the generated code computes %r' % (i, show(g, d), exp, xs, got), n, unk
    return None, n, unk


def show(g, a, depth=0):
    if not isinstance(a, tuple):
        return repr(a)
    if a[0] == 'x':
        return 'x%d' % a[1]
    op, args, info = g.nodes[a[1]]
    if depth > 3:
        return '...'
    return '%s%s(%s)' % (op, info or '', ', '.join(show(g, b, depth + 1) for b in args))
