"""E01: evaluating a recorded expression for new independent values."""
import itertools
import math

from .. import facts
from ..absint import AMap, AStr, Cell, CppThrow, Interp, NULL, Obj, Ptr, Term, Vec
from ..cgmodel import FN1, Model, NS, NoMeaning, SEM1, SEM2, SEM4, ev, same
from ..facts import AnalysisError
from ..world import World, make

SPEC = {'technique': 'abstract interpretation of every evaluator instantiation over every operation code, operand kind and pair of operation codes; '
                     'the abstract result is compared as a term with the meaning of the recorded graph; evaluation histories (repeat, after a '
                     'failure, grown session) and size checks are enumerated',
        'level': 'other',
        'assumptions': ['functions of the scalar and of CppAD::AD mean what their names say', 'exact real arithmetic',
                        'operations the evaluator refuses with an exception are outside the property']}
UN = ['Abs', 'Acos', 'Asin', 'Atan', 'Cosh', 'Cos', 'Exp', 'Log', 'Sinh', 'Sin', 'Sqrt', 'Tanh', 'Tan', 'UnMinus', 'Alias', 'Assign', 'Sign',
      'Erf', 'Erfc', 'Asinh', 'Acosh', 'Atanh', 'Expm1', 'Log1p']
BIN = ['Add', 'Sub', 'Mul', 'Div', 'Pow']
COM = ['ComLt', 'ComLe', 'ComEq', 'ComGe', 'ComGt', 'ComNe']
# every evaluator has handled these; refusing one of them is a regression of what the evaluator offers
MUST = set(UN[:17] + BIN + COM) - {'ComNe'}
KINDS = [('double', 'double'), ('AD', 'CppAD::AD<double>'), ('CG', 'CppAD::cg::CG<double>'), ('AD<CG>', 'CppAD::AD<CppAD::cg::CG<double>>')]


def evcls(act):
    return NS + 'Evaluator<double, %s, %s>' % ('CppAD::cg::CG<double>' if 'AD<CppAD::cg' in act else 'double', act)


CMPOPS = ['<', '<=', '==', '>=', '>', '!=']


def meaning(s, env):
    """reference value of an expression shape ('i', k) | ('p', v) | (op, ...)"""
    if s[0] == 'i':
        return env['n%d' % s[1]]
    if s[0] == 'p':
        return s[1]
    a = [meaning(c, env) for c in s[1:]]
    if s[0] in SEM1:
        return SEM1[s[0]](*a)
    if s[0] in SEM2:
        return SEM2[s[0]](*a)
    return a[2] if SEM4[s[0]](a[0], a[1]) else a[3]


def show(s):
    if s[0] == 'i':
        return 'x%d' % s[1]
    if s[0] == 'p':
        return str(s[1])
    return '%s(%s)' % (s[0], ', '.join(show(c) for c in s[1:]))


def adhook(it, f, this, args, line):
    """CppAD::AD<Base> as value numbers"""
    q = f['q']
    if not q.startswith('CppAD::') or q.startswith('CppAD::cg::'):
        return NotImplemented
    n = q[7:]
    if n.startswith('AD::'):
        n = n[4:]
    pts = [it.fx.t(p['t']) for p in f['p']]
    if not (any('CppAD::AD<' in t for t in pts) or q.startswith('CppAD::AD::') or 'AD<' in f.get('clsx', '')):
        return NotImplemented
    if n in ('PrintFor',):
        return None
    v = [a.v for a in args]
    if this is not None and n.startswith('operator'):
        v = [this.v] + v
    if n in ('operator=',):
        this.v = args[0].v
        return this
    if n in ('operator+', 'operator-', 'operator*', 'operator/') and len(v) == 2:
        return Term(n[8:], *v)
    if n == 'operator-' and len(v) == 1:
        return Term('neg', v[0])
    if n == 'CondExpOp':
        return Term('cond%s' % v[0], *v[1:])
    if n in FN1 or n in ('pow', 'sign'):
        return Term(n, *v)
    return NotImplemented


def ev2(t, env, names):
    if isinstance(t, Term):
        if t.op == 'ctor:CppAD::AD' or t.op.startswith('ctor:CppAD::AD<'):
            return ev2(t.args[0], env, names) if t.args else 0.0
        if t.op.startswith('cond') and len(t.args) == 4 and t.op[4:].isdigit():
            a = [ev2(x, env, names) for x in t.args]
            op = names.get(int(t.op[4:]))
            return a[2] if SEM4['Com' + op[7:]](a[0], a[1]) else a[3]
        if t.op == 'call:CppAD::CondExpOp':
            a = [ev2(x, env, names) for x in t.args[1:]]
            return a[2] if SEM4['Com' + names[t.args[0]][7:]](a[0], a[1]) else a[3]
        if t.op in ('call:CppAD::sign', 'sign'):
            return SEM1['Sign'](ev2(t.args[0], env, names))
        if t.op.startswith('call:CppAD::') and t.op[12:] in FN1:
            return FN1[t.op[12:]](ev2(t.args[0], env, names))
        if t.op.startswith('cast'):
            return ev2(t.args[-1], env, names)
        if t.args:
            a = [ev2(x, env, names) for x in t.args]
            return ev(Term(t.op, *a), env)
    return ev(t, env)


PTS = [(0.37, 0.61, 0.83, 0.29), (1.7, 2.3, 0.9, 1.2), (-0.4, 0.7, -1.3, 2.1), (0.25, -0.45, 0.65, -0.15), (1.25, 1.25, 0.5, 0.5), (-2.5, 1.5, -0.5, -1.75),
       (3.0, 2.0, 1.0, 4.0)]


class Eval:
    def __init__(self, ctx, fx):
        self.ctx, self.fx = ctx, fx
        self.m = Model(fx)
        self.cmpnames = {v: k for k, v in fx.enum('CppAD::CompareOp').items()}
        self.visited = set()

    def entry(self, cls, n=5):
        mro = self.fx.mro(cls)
        fs = [i for i in self.fx.find(NS + 'EvaluatorBase::evaluate') if self.fx.funcs[i]['clsx'] in mro and len(self.fx.funcs[i]['p']) == n]
        if not fs:
            raise AnalysisError('no evaluate() for ' + cls)
        return fs[0]

    def active(self, it, kind, name):
        if kind == 'CG':
            n = self.newh.node('Inv')
            it.deref(n).v.tag = name
            return self.newh.cg(n).v
        return Term(name, t='double')

    def evaluate(self, it, w, cls, act, kind, e, indep, dep, check=None):
        ind = Vec([Cell(v, act) for v in indep], act, 'std::vector')
        res = Vec([Cell(self.m.cg(None, None) if kind == 'CG' else None, act) for _ in dep], act, 'std::vector')
        old = Vec([Cell(d.v, self.m.CG) for d in dep], self.m.CG, 'std::vector')

        def p(v):
            return Cell(Ptr(v.c[0], v, 0) if v.c else NULL)
        it.call(self.entry(cls), e, [p(ind), Cell(len(indep), 'unsigned long'), p(res), p(old), Cell(len(dep), 'unsigned long')])
        return [c.v for c in res.c]

    def den(self, it, kind, v):
        if kind == 'CG':
            return self.m.cg_denote(it, v)[0]
        return v

    def build(self, w, s, x, memo):
        if s[0] == 'i':
            return x[s[1]]
        if s[0] == 'p':
            return float(s[1])
        if s not in memo:
            memo[s] = w.cg(w.node(s[0], [self.build(w, c, x, memo) for c in s[1:]]))
        return memo[s]

    def run(self, kind, act, body):
        cls = evcls(act)
        if cls not in self.fx.recs:
            raise AnalysisError('class not found: ' + cls)
        it = Interp(self.fx, hooks={'*': adhook}, max_paths=120)

        def b(itp):
            self.newh = World(itp, model=self.m)
            w = World(itp, model=self.m)
            return body(itp, w, cls)
        r = it.explore(b)
        self.visited |= it.visited
        self.ctx.count('abstract paths', len(r))
        return r

    def value(self, kind, act, s, rule, key, depth=1):
        ctx = self.ctx
        lab = '%s evaluator: %s' % (kind, show(s))
        where = self.fx.loc(self.entry(evcls(act)))

        def body(it, w, cls):
            x = w.indep(4)
            d = self.build(w, s, x, {})
            e = make(it, cls, [w.h])
            r = self.evaluate(it, w, cls, act, kind, e, [self.active(it, kind, 'n%d' % i) for i in range(4)], [d])
            return self.den(it, kind, r[0]), list(it.conds)
        for o in self.run(kind, act, body):
            if o[0] == 'abort':
                ctx.unk(rule, lab + ': ' + o[1])
                continue
            if o[0] == 'throw':
                ops = set(flat(s))
                if ops <= MUST:
                    ctx.bad(rule, key + '/refused', where, '%s throws %s at %s' % (lab, o[1].typ, o[1].line))
                else:
                    ctx.count('refused with an exception')
                continue
            (den, conds) = o[1]
            n, bad, unk = 0, None, None
            for p in PTS:
                env = {'n%d' % i: v for i, v in enumerate(p)}
                env.update({k + '.v': v for k, v in list(env.items())})
                try:
                    if not all(bool(ev2(c, env, self.cmpnames)) == r for c, r in conds):
                        continue
                    a = meaning(s, env)
                except (ValueError, ZeroDivisionError, OverflowError, NoMeaning, TypeError):
                    continue
                try:
                    b = ev2(den, env, self.cmpnames)
                except NoMeaning as ex:
                    unk = str(ex)
                    break
                except (ValueError, ZeroDivisionError, OverflowError) as ex:
                    bad = 'expected %r at %s, the result is undefined' % (a, env)
                    break
                n += 1
                if not same(a, b):
                    bad = 'expected %r at %s, the evaluation gives %r' % (a, {k: v for k, v in env.items() if '.' not in k}, b)
                    break
            if unk and unk.startswith('operation'):
                bad = unk
            if bad:
                ctx.bad(rule, key, where, '%s = %r: %s' % (lab, den, bad))
            elif unk:
                if unk in ('n0', 'n1', 'n2', 'n3'):
                    ctx.unk(rule, lab + ': ' + unk)
                else:
                    ctx.bad(rule, key, where, '%s = %r is not an evaluation for the new independents: no meaning for %s' % (lab, den, unk))
            elif n:
                ctx.ok(rule, '%s -> %r' % (lab, den))
            else:
                ctx.count('infeasible paths')

    # ------------------------------------------------------------------ histories
    def history(self, kind, act):
        ctx = self.ctx
        fx = self.fx
        ent = self.entry(evcls(act))
        where = fx.loc(ent)
        s1 = ('Add', ('Mul', ('i', 0), ('i', 1)), ('Sin', ('i', 1)))
        s2 = ('Sub', ('Mul', ('i', 0), ('i', 1)), ('i', 0))

        def shared(it, w, cls):
            x = w.indep(2)
            memo = {}
            d1, d2 = self.build(w, s1, x, memo), self.build(w, s2, x, memo)
            e = make(it, cls, [w.h])
            r = self.evaluate(it, w, cls, act, kind, e, [self.active(it, kind, 'n0'), self.active(it, kind, 'n1')], [d1, d2, d1, x[1]])
            return [(s1, 0), (s2, 0), (s1, 0), (('i', 1), 0)], [self.den(it, kind, v) for v in r], list(it.conds)

        def twice(it, w, cls, fail=False, grow=False):
            x = w.indep(2)
            memo = {}
            d1 = self.build(w, s1, x, memo)
            e = make(it, cls, [w.h])
            if fail:
                # the product is evaluated before the unknown operation is met
                bad = w.cg(w.node('Add', [w.cg(w.node('Mul', [d1, x[0]])), w.cg(w.node('DependentMultiAssign', [d1]))]))
                try:
                    self.evaluate(it, w, cls, act, kind, e, [self.active(it, kind, 'o0'), self.active(it, kind, 'o1')], [d1, bad])
                    raise AnalysisError('an operation without meaning was evaluated')
                except CppThrow:
                    pass
            else:
                self.evaluate(it, w, cls, act, kind, e, [self.active(it, kind, 'o0'), self.active(it, kind, 'o1')], [d1])
            if grow:
                d2 = self.build(w, s2, x, memo)
            else:
                d2 = d1
            r = self.evaluate(it, w, cls, act, kind, e, [self.active(it, kind, 'n0'), self.active(it, kind, 'n1')], [d2, d1])
            return [(s2 if grow else s1, 0), (s1, 0)], [self.den(it, kind, v) for v in r], list(it.conds)
        for name, b in (('several dependents sharing operations', shared), ('second evaluation', twice),
                        ('evaluation after a failed one', lambda it, w, c: twice(it, w, c, fail=True)),
                        ('evaluation after the session grew', lambda it, w, c: twice(it, w, c, grow=True))):
            lab = '%s evaluator, %s' % (kind, name)
            for o in self.run(kind, act, b):
                if o[0] == 'abort':
                    ctx.unk('history', lab + ': ' + o[1])
                    continue
                if o[0] == 'throw':
                    ctx.bad('history', '%s/%s' % (kind, name), where, '%s throws at %s' % (lab, o[1].line))
                    continue
                want, got, conds = o[1]
                bad = None
                for (s, _), g in zip(want, got):
                    for p in PTS:
                        env = {'n0': p[0], 'n1': p[1]}
                        try:
                            if not all(bool(ev2(c, env, self.cmpnames)) == r for c, r in conds):
                                continue
                            a = meaning(s, env)
                            bv = ev2(g, env, self.cmpnames)
                        except NoMeaning as ex:
                            bad = '%s is %r, which depends on %s' % (show(s), g, ex)
                            break
                        if not same(a, bv):
                            bad = '%s is %r' % (show(s), g)
                if bad:
                    ctx.bad('history', '%s/%s' % (kind, name), where, lab + ': ' + bad)
                else:
                    ctx.ok('history', lab)

        # wrong sizes are refused before anything is evaluated
        for nin, name in ((1, 'too few'), (3, 'too many'), (0, 'no')):
            def b(it, w, cls):
                x = w.indep(2)
                d1 = self.build(w, s1, x, {})
                e = make(it, cls, [w.h])
                self.evaluate(it, w, cls, act, kind, e, [self.active(it, kind, 'n%d' % i) for i in range(nin)], [d1])
                return True
            for o in self.run(kind, act, b):
                lab = '%s evaluator with %s independent values' % (kind, name)
                if o[0] == 'throw':
                    ctx.ok('sizes', lab + ' throws')
                elif o[0] == 'ok':
                    ctx.bad('sizes', '%s/%s' % (kind, name), where, lab + ' evaluates')
                else:
                    ctx.unk('sizes', lab + ': ' + o[1])
        # dependents of another size are refused
        mro = fx.mro(evcls(act))
        av = [i for i in fx.find(NS + 'EvaluatorBase::evaluate', nparams=3) if fx.funcs[i]['clsx'] in mro]
        for i in av:
            def b(it, w, cls):
                x = w.indep(2)
                d1 = self.build(w, s1, x, {})
                e = make(it, cls, [w.h])
                pt = fx.ptypes(i)

                def view(t, vals, et):
                    vv = Vec([Cell(v, et) for v in vals], et, 'std::vector')
                    c = it.fx.recs.get(t)
                    o = Obj(t)
                    for f in c['fields']:
                        ft = fx.t(f['t'])
                        o.f[f['q']] = Cell(Ptr(vv.c[0], vv, 0) if ft.endswith('*') else len(vals), ft)
                    return Cell(o, t)
                it.call(i, e, [view(pt[0], [self.active(it, kind, 'n%d' % k) for k in range(2)], act),
                               view(pt[1], [None, None], act), view(pt[2], [d1.v], self.m.CG)])
                return True
            for o in self.run(kind, act, b):
                lab = '%s evaluator with two results for one dependent' % kind
                if o[0] == 'throw':
                    ctx.ok('sizes', lab + ' throws')
                elif o[0] == 'ok':
                    ctx.bad('sizes', kind + '/dependents', fx.loc(i), lab + ' is accepted')
                else:
                    ctx.unk('sizes', lab + ': ' + o[1])

    # ------------------------------------------------------------------ atomic functions
    def atomics_ad(self, kind, act):
        ctx, fx = self.ctx, self.fx
        ent = self.entry(evcls(act))
        where = fx.loc(ent)
        calls = []

        def hook(it, f, this, args, line):
            if f['q'] in ('CppAD::atomic_base::operator()',):
                ax, ay = args[0].v, args[1].v
                calls.append(([c.v for c in ax.c], this.v.tag))
                for k, c in enumerate(ay.c):
                    c.v = Term('A%d_%d' % (len(calls), k))
                return None
            return adhook(it, f, this, args, line)

        def body(it, w, cls):
            del calls[:]
            x = w.indep(2)
            s = w.cg(w.node('Mul', [x[0], x[1]]))
            ax = w.node('ArrayCreation', [s, 3.0])
            ay = w.node('ArrayCreation', [0.0, 0.0, 0.0])
            at = w.node('AtomicForward', [ax, ay], [7, 0, 0])
            e0 = w.cg(w.node('ArrayElement', [ay, at], [0]))
            e2 = w.cg(w.node('ArrayElement', [ay, at], [2]))
            d = w.cg(w.node('Sub', [e0, e2]))
            e = make(it, cls, [w.h])
            add = [i for i in fx.find(NS + 'EvaluatorAD::addAtomicFunction') if fx.funcs[i]['clsx'] in fx.mro(cls)]
            for k in (3, 7, 9):
                it.call(add[0], e, [Cell(k, 'unsigned long'), Cell(Obj('CppAD::atomic_base<double>', tag='atomic%d' % k))])
            r = self.evaluate(it, w, cls, act, kind, e, [self.active(it, kind, 'n0'), self.active(it, kind, 'n1')], [d, e2])
            n1 = len(calls)
            r2 = self.evaluate(it, w, cls, act, kind, e, [self.active(it, kind, 'm0'), self.active(it, kind, 'm1')], [d])
            return r, n1, list(calls), r2
        cls = evcls(act)
        it = Interp(fx, hooks={'*': hook}, max_paths=50)

        def b(itp):
            self.newh = World(itp, model=self.m)
            return body(itp, World(itp, model=self.m), cls)
        for o in it.explore(b):
            if o[0] == 'abort':
                ctx.unk('atomic', '%s: %s' % (kind, o[1]))
                continue
            if o[0] == 'throw':
                ctx.bad('atomic', kind + '/throws', where, '%s evaluator: atomic function call throws at %s' % (kind, o[1].line))
                continue
            r, n1, cl, r2 = o[1]

            def chk(cond, key, msg):
                (ctx.ok('atomic', '%s: %s' % (kind, key)) if cond else ctx.bad('atomic', '%s/%s' % (kind, key), where, '%s evaluator: %s' % (kind, msg)))
            chk(n1 == 1, 'called once', 'one recorded call is evaluated %d times' % n1)
            chk(len(cl) == n1 + 1, 'called again', 'the second evaluation calls the atomic function %d times' % (len(cl) - n1))
            chk(all(c[1] == 'atomic7' for c in cl), 'the recorded function', 'the function called is not the one recorded')
            if cl:
                a = cl[0][0]
                okarg = len(a) == 2
                try:
                    okarg = okarg and same(ev2(a[0], {'n0': 3.0, 'n1': 5.0}, {}), 15.0) and same(ev2(a[1], {}, {}), 3.0)
                except NoMeaning:
                    okarg = False
                chk(okarg, 'arguments', 'the atomic function gets %r' % (a,))
            chk(repr(r[0]) == '-(A1_0, A1_2)' and repr(r[1]) == 'A1_2', 'results', 'the dependents are %r' % (r,))
            chk(repr(r2[0]) == '-(A2_0, A2_2)', 'second results', 'the dependents of the second evaluation are %r' % (r2,))
        self.visited |= it.visited

    def atomics_cg(self):
        """re-recording: the atomic call is recorded again with the same information and argument order"""
        ctx, fx, m = self.ctx, self.fx, self.m
        kind, act = KINDS[2]
        ent = self.entry(evcls(act))
        where = fx.loc(ent)
        for op, arrays, info in (('AtomicForward', 2, [7, 0, 0]), ('AtomicForward', 4, [7, 1, 1]), ('AtomicReverse', 4, [7, 0]),
                                 ('AtomicReverse', 8, [7, 1])):
            for sparse in (False, True):
                def body(it, w, cls):
                    x = w.indep(2)
                    arr = []
                    inner = []
                    for k in range(arrays):
                        e = [x[0], float(k + 2), w.cg(w.node('Exp', [x[1]]))]
                        e = e[k % 3:] + e[:k % 3]
                        inner.append(e)
                        if sparse and k % 2 == 1:
                            arr.append(w.node('SparseArrayCreation', e, [9, 1, 4, 6]))
                        else:
                            arr.append(w.node('ArrayCreation', e))
                    at = w.node(op, arr, info)
                    el = [w.cg(w.node('ArrayElement', [arr[-1], at], [k])) for k in (2, 0)]
                    d = w.cg(w.node('Sub', el))
                    e = make(it, cls, [w.h])
                    r = self.evaluate(it, w, cls, act, kind, e, [self.active(it, kind, 'n0'), self.active(it, kind, 'n1')], [d, el[0]])
                    return [self.m.cg_denote(it, v)[0] for v in r], [n_dump(it, m, v) for v in r]
                for o in self.run(kind, act, body):
                    lab = '%s%s' % (op, ' with sparse arrays' if sparse else '')
                    if o[0] == 'abort':
                        if 'out of range' in o[1]:
                            ctx.bad('atomic', 'CG/%s bounds' % op, where, 'CG evaluator: %s of order %d: %s' % (lab, info[-1], o[1]))
                        else:
                            ctx.unk('atomic', lab + ': ' + o[1])
                        continue
                    if o[0] == 'throw':
                        # only recorded orders the session can hold are required
                        ctx.bad('atomic', 'CG/%s throws' % op, where, 'CG evaluator: %s of order %d throws at %s' % (lab, info[-1], o[1].line))
                        continue
                    d0 = o[1][1][0]
                    want = expected(op, arrays, info, sparse)
                    got = d0
                    if got != want:
                        ctx.bad('atomic', 'CG/%s' % op, where, 'CG evaluator: %s is recorded again as %s, expected %s' % (lab, short(got), short(want)))
                    else:
                        ctx.ok('atomic', 'CG: ' + lab)


    def atomics_cg_values(self):
        """values of atomic results: those of this evaluation, known only if every argument is"""
        ctx, fx, m = self.ctx, self.fx, self.m
        kind, act = KINDS[2]
        where = fx.loc(self.entry(evcls(act)))
        calls = []

        def hook(it, f, this, args, line):
            if f['n'] == 'forward' and 'AtomicFun' in f['q'] and this is not None and isinstance(this.v, Obj) and this.v.tag == 'AF':
                tx, ty = args[4].v, args[5].v
                calls.append([args[0].v, args[1].v, [m.cg_denote(it, c.v) for c in tx.c]])
                for k, c in enumerate(ty.c):
                    c.v = m.cg(None, Term('V%d_%d' % (len(calls), k)))
                return True
            return adhook(it, f, this, args, line)

        def newx(it, i, val):
            n = self.newh.node('Inv')
            it.deref(n).v.tag = 'n%d' % i
            c = self.newh.cg(n)
            if val is not None:
                c.v.f[m.cg_val] = Cell(m.uptr(Ptr(Cell(val, 'double'))))
            return c.v

        def body(it, w, cls, hist):
            del calls[:]
            x = w.indep(2)
            ax = w.node('ArrayCreation', [x[0], 4.0, x[1]])
            ay = w.node('ArrayCreation', [0.0, 0.0])
            at = w.node('AtomicForward', [ax, ay], [7, 0, 0])
            el = [w.cg(w.node('ArrayElement', [ay, at], [k])) for k in (1, 0)]
            bad = w.cg(w.node('Add', [el[0], w.cg(w.node('DependentMultiAssign', [x[0]]))]))
            e = make(it, cls, [w.h])
            af = Obj(NS + 'CGAbstractAtomicFun<double>', tag='AF')
            mf = [i for i in fx.find(NS + 'CodeHandler::getAtomicFunctions', clsx=m.H)]
            mp = it.call(mf[0], w.h, []).v
            mp.d.append([7, Cell(Ptr(Cell(af, af.cls)))])
            r = None
            for vals, dep in hist:
                try:
                    r = self.evaluate(it, w, cls, act, kind, e, [newx(it, i, v) for i, v in enumerate(vals)], [bad] if dep == 'bad' else el)
                except CppThrow:
                    if dep != 'bad':
                        raise
            return [m.cg_denote(it, v) for v in r], list(calls)
        A, B = Term('a', t='double'), Term('b', t='double')
        for name, hist, known in (('known arguments', [((A, B), 'ok')], True), ('one argument unknown', [((A, None), 'ok')], False),
                                  ('unknown after known', [((A, B), 'ok'), ((A, None), 'ok')], False),
                                  ('unknown after a failed evaluation with known values', [((A, B), 'bad'), ((None, B), 'ok')], False),
                                  ('known after a failed evaluation', [((A, B), 'bad'), ((B, A), 'ok')], True)):
            it = Interp(fx, hooks={'*': hook}, max_paths=60)

            def b(itp):
                self.newh = World(itp, model=m)
                return body(itp, World(itp, model=m), evcls(act), hist)
            for o in it.explore(b):
                if o[0] != 'ok':
                    (ctx.unk if o[0] == 'abort' else lambda r, w: ctx.bad(r, 'CG values/' + name, where, w))('atomic-value', '%s: %s' % (name, o[1]))
                    continue
                r, cl = o[1]
                vals = [x[1] for x in r]
                want = [Term('V%d_1' % len(cl)), Term('V%d_0' % len(cl))] if known else [None, None]
                if vals != want:
                    ctx.bad('atomic-value', 'CG values/' + name, where, 'CG evaluator, atomic result, %s: the values are %r, expected %r' % (name, vals, want))
                    continue
                if known:
                    last = [x[1] for x in cl[-1][2]]
                    wl = [hist[-1][0][0], 4.0, hist[-1][0][1]]
                    if last != wl or cl[-1][:2] != [0, 0]:
                        ctx.bad('atomic-value', 'CG values/' + name, where, 'the atomic function is evaluated for %r, expected %r' % (last, wl))
                        continue
                ctx.ok('atomic-value', name)
            self.visited |= it.visited


def short(x):
    s = repr(x)
    return s if len(s) < 260 else s[:260] + '...'


def expected(op, arrays, info, sparse):
    arr = []
    for k in range(arrays):
        e = ['n0', ('p', float(k + 2)), ('Exp', (), ('n1',))]
        e = e[k % 3:] + e[:k % 3]
        if sparse and k % 2 == 1:
            arr.append(('SparseArrayCreation', (9, 1, 4, 6), tuple(e)))
        else:
            arr.append(('ArrayCreation', (), tuple(e)))
    at = (op, tuple(info), tuple(arr))
    return ('Sub', (), tuple(('ArrayElement', (k,), (arr[-1], at)) for k in (2, 0)))


def n_dump(it, m, cg):
    p = it.field(Cell(cg, m.CG), m.cg_node).v
    if p is NULL:
        return ('p', it.deref(it.field(Cell(cg, m.CG), m.cg_val).v.f['p'].v).v)

    def dn(n):
        if n.tag:
            return n.tag
        args = []
        for c in n.f[m.n_args].v.c:
            q = c.v.f[m.a_node].v
            if q is not NULL:
                args.append(dn(it.deref(q).v))
            else:
                args.append(('p', it.deref(c.v.f[m.a_par].v.f['p'].v).v))
        return (m.opname.get(n.f[m.n_op].v), tuple(c.v for c in n.f[m.n_info].v.c), tuple(args))
    return dn(it.deref(p).v)


def flat(s):
    if s[0] in ('i', 'p'):
        return []
    return [s[0]] + [o for c in s[1:] for o in flat(c)]


def run(ctx):
    fx = facts.facts('main')
    e = Eval(ctx, fx)
    i = lambda k: ('i', k)
    for kind, act in KINDS:
        for u in UN:
            e.value(kind, act, (u, i(2)), 'operation', '%s/%s' % (kind, u))
        for b in BIN:
            for a in ((i(0), i(1)), (i(1), ('p', 2.5)), (('p', 2.5), i(0)), (i(1), i(1)), (('p', 2.5), ('p', 0.5))):
                e.value(kind, act, (b,) + a, 'operation', '%s/%s' % (kind, b))
        for c in COM:
            if c == 'ComNe' and kind in ('CG', 'AD<CG>'):
                continue  # CppAD never records a not-equal selection
            for a in ((i(0), i(1), i(2), i(3)), (i(0), ('p', 1.25), i(2), i(0)), (('p', 1.25), i(1), ('p', 3.0), ('p', -3.0))):
                e.value(kind, act, (c,) + a, 'operation', '%s/%s' % (kind, c))
        e.history(kind, act)
    for kind, act in (KINDS if ctx.thorough else KINDS[:1]):
        ops = [(u,) for u in UN[:17]] + [(b,) for b in BIN]
        for o1 in ops:
            for o2 in ops:
                in_ = (o2[0], i(0)) if o2[0] in SEM1 else (o2[0], i(0), i(1))
                if o1[0] in SEM1:
                    e.value(kind, act, (o1[0], in_), 'nested', '%s/%s(%s)' % (kind, o1[0], o2[0]))
                else:
                    e.value(kind, act, (o1[0], in_, i(2)), 'nested', '%s/%s(%s,.)' % (kind, o1[0], o2[0]))
                    e.value(kind, act, (o1[0], i(2), in_), 'nested', '%s/%s(.,%s)' % (kind, o1[0], o2[0]))
    for kind, act in (KINDS[1], KINDS[3]):
        e.atomics_ad(kind, act)
    e.atomics_cg()
    e.atomics_cg_values()
    ctx.count('functions analysed', len(e.visited))
    for r, n in (('operation', 150), ('history', 12), ('sizes', 12), ('nested', 300), ('atomic', 12), ('atomic-value', 3)):
        ctx.need(r, n)
