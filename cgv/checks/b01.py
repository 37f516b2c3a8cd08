"""B01: structural index reduction (Pantelides): which equations are differentiated, how often, and what is reported about the new system."""
import itertools
import random

from .. import facts
from ..absint import AStr, Cell, CppThrow, Interp, NULL, Obj, Ptr, Term, UNDEFINED, Vec
from ..cgmodel import NS, clsn
from ..facts import AnalysisError
from ..par import pmap
from ..world import make

SPEC = {'technique': 'abstract interpretation of the reduction (graph construction, matching, differentiation of equations, rebuilding of the system) over every '
                     'small incidence structure; the equations are opaque terms, their derivatives the operator d/dt applied to them; the oracle is the fixed '
                     'point of the structural analysis (signature matrix, highest value transversal, canonical offsets)',
        'level': 'other',
        'assumptions': ['the sparsity pattern of the Jacobian is that of the model (I01)', 'CppAD records and differentiates as documented',
                        'no cancellation: a structural derivative is a derivative']}
STR = 'std::basic_string<char>'
FUN = 'CppAD::ADFun'


class System:
    """chains: per time dependent variable its declared order; layout: tape order of (chain, order) / 'p' parameters / 't' time;
    eqs: per equation the set of (chain, order) it contains"""

    def __init__(self, chains, eqs, extra=(), perm=None, names=None, eqn=None):
        self.chains, self.eqs, self.names, self.eqn = list(chains), [frozenset(e) for e in eqs], names or {}, eqn or []
        lay = [(c, o) for c, k in enumerate(self.chains) for o in range(k + 1)] + [(x, i) for i, x in enumerate(extra)]
        if perm is not None:
            random.Random(perm).shuffle(lay)
        self.lay = lay
        self.at = {v: k for k, v in enumerate(lay)}
        self.n, self.m = len(lay), len(eqs)

    def text(self):
        nm = lambda v: '%s%d%s' % ('x', v[0], "'" * v[1]) if isinstance(v[0], int) else 'time' if v[0] == 't' else 'p%d' % v[1]
        return '{%s}; tape order (%s)' % (', '.join('f%d(%s)=0' % (i, ','.join(nm(v) for v in sorted(e, key=str))) for i, e in enumerate(self.eqs)),
                                          ','.join(nm(v) for v in self.lay))

    def sigma(self):
        s = [[None] * len(self.chains) for _ in self.eqs]
        for i, e in enumerate(self.eqs):
            for v in e:
                if isinstance(v[0], int):
                    s[i][v[0]] = max(v[1], -1 if s[i][v[0]] is None else s[i][v[0]])
        return s

    def regular(self):
        s, match = self.sigma(), {}

        def aug(i, seen):
            for j, o in enumerate(s[i]):
                if o is not None and j not in seen:
                    seen.add(j)
                    if j not in match or aug(match[j], seen):
                        match[j] = i
                        return True
            return False
        return all(aug(i, set()) for i in range(len(s)))

    def offsets(self):
        """differentiations of each equation (the smallest ones), highest derivative of each variable"""
        s = self.sigma()
        m = len(s)
        best, hvt = None, None
        # the transversal of the highest value with respect to the declared orders: every chain offers its declared order to nobody
        for p in transversals(s):
            v = sum(s[i][p[i]] for i in range(m))
            if best is None or v > best:
                best, hvt = v, p
        c = [0] * m
        while True:
            d = [max([self.chains[j]] + [s[i][j] + c[i] for i in range(m) if s[i][j] is not None]) for j in range(m)]
            n = [d[hvt[i]] - s[i][hvt[i]] for i in range(m)]
            if n == c:
                return c, d
            c = n


def transversals(s):
    m = len(s)

    def go(i, used, p):
        if i == m:
            yield list(p)
            return
        for j in range(m):
            if j not in used and s[i][j] is not None:
                for r in go(i + 1, used | {j}, p + [j]):
                    yield r
    return go(0, frozenset(), [])


class Tape:
    """recorded systems: the equations as terms"""

    def __init__(self, it, sy):
        self.it, self.sy = it, sy
        self.CG = clsn('CG', 'double')
        self.deps, self.funs, self.recording, self.relation, self.bad = {}, 0, None, {}, []
        h = it.hooks
        h[NS + 'jacobianSparsity'] = self.sparsity
        h[FUN + '::Domain'] = lambda i, f, this, *a: self.of(this)['n']
        h[FUN + '::Range'] = lambda i, f, this, *a: len(self.of(this)['dep'])
        h[FUN + '::Parameter'] = lambda i, f, this, a, line: self.of(this)['dep'][a[0].v] is None
        h[FUN + '::Forward'] = self.forward
        h[FUN + '::Reverse'] = self.reverse
        h['ctor:' + FUN] = self.adfun
        h[FUN + '::Dependent'] = self.dependent
        h['CppAD::Independent'] = self.independent
        h[NS + 'time_var'] = self.timevar
        h['ctor:' + NS + 'CG'] = lambda i, f, e, a: NotImplemented if not a else self.scalar(a[0])
        h[self.CG.split('<')[0] + '::operator='] = self.assign
        for n in ('CodeHandler',):
            h['ctor:' + clsn(n, 'double')] = lambda i, f, e, a: Obj('opaque')
            h[NS + n + '::makeVariables'] = lambda *a: None
        h[NS + 'EvaluatorBase::evaluate'] = self.evaluate
        for c in it.fx.by_cls:
            if c.startswith(NS + 'Evaluator<'):
                h['ctor:' + c] = lambda i, f, e, a: Obj('opaque')
        h[NS + 'EvaluatorAD::setPrintFor'] = lambda *a: None
        self.first = Cell(Obj('%s<%s>' % (FUN, self.CG), tag=self.new(sy.n, [('f', i) for i in range(sy.m)])))

    def new(self, n, dep):
        self.funs += 1
        self.deps[self.funs] = {'n': n, 'dep': dep}
        return self.funs

    def of(self, this):
        v = this.v if isinstance(this, Cell) else this
        if isinstance(v, Ptr):
            v = self.it.deref(v).v
        return self.deps[v.tag]

    def scalar(self, a):
        v = a.v if isinstance(a, Cell) else a
        return v

    def assign(self, it, f, this, args, line):
        this.v = self.scalar(args[0])
        return this

    def sparsity(self, it, f, this, args, line):
        s = self.sy
        return Vec([Cell(int(v in s.eqs[i]), 'bool') for i in range(s.m) for v in s.lay], 'bool', 'std::vector')

    def cgs(self, l):
        return Vec([Cell(x, self.CG) for x in l], self.CG, 'std::vector')

    def forward(self, it, f, this, args, line):
        fu = self.of(this)
        if args[0].v == 0:
            return self.cgs([('val', d) for d in fu['dep']])
        w = [i for i, c in enumerate(args[1].v.c if isinstance(args[1], Cell) else args[1].c) if c.v == 1]
        if args[0].v != 1 or len(w) != 1:
            raise AnalysisError('forward sweep of another order or direction')
        return self.cgs([('partial', d, w[0], id(fu)) for d in fu['dep']])

    def reverse(self, it, f, this, args, line):
        fu = self.of(this)
        w = [i for i, c in enumerate(args[1].v.c if isinstance(args[1], Cell) else args[1].c) if c.v == 1]
        if args[0].v != 1:
            raise AnalysisError('reverse sweep of another order')
        dep = fu['dep'][w[0]] if len(w) == 1 else ('sum of equations',) + tuple(w)
        return self.cgs([('partial', dep, j, id(fu)) for j in range(fu['n'])])

    def independent(self, it, f, this, args, line):
        v = args[0].v
        self.recording = len(v.c)
        for k, c in enumerate(v.c):
            c.v = ('x', k)
        return None

    def timevar(self, it, f, this, args, line):
        ax, ay = args[-2].v.c, args[-1].v.c
        ay[0].v = ('time_var', ax[0].v, ax[1].v, ax[2].v)
        return None

    def evaluate(self, it, f, this, args, line):
        if len(args) != 5:
            return NotImplemented
        arr = lambda p, n: [] if not n else p.vec.c[p.i:p.i + n]
        x, n, y, d, m = [a.v if isinstance(a, Cell) else a for a in args]
        self.used = [c.v for c in arr(x, n)]
        for a, b in zip(arr(y, m), arr(d, m)):
            a.v = b.v
        return None

    def record(self, args):
        n = self.new(len(args[0].v.c), [self.value(c.v) for c in args[1].v.c])
        self.deps[n]['used'] = self.used
        return n

    def adfun(self, it, f, e, args):
        if len(args) > 2:
            return NotImplemented
        return Obj('%s<%s>' % (FUN, self.CG), tag=self.record(args) if len(args) == 2 else None)

    def dependent(self, it, f, this, args, line):
        v = this.v if isinstance(this, Cell) else self.it.deref(this).v
        v.tag = self.record(args)

    def value(self, v):
        if isinstance(v, tuple) and v[0] == 'val':
            return v[1]
        if isinstance(v, tuple) and v[0] == 'partial':
            fu = [x for x in self.deps.values() if id(x) == v[3]][0]
            fu.setdefault('time', set()).add(v[2])
            return ('d', v[1])
        return None


def reduce_(fx, sy, cls='Pantelides'):
    """runs the constructor and reduceIndex() of the algorithm; -> (outcome, data)"""
    it = Interp(fx, max_paths=4, max_steps=400000, max_depth=400, loop_bound=600)

    def run(i):
        t = Tape(i, sy)
        it.tape = t
        dv = NS + 'DaeVarInfo'
        infos = []
        for k, v in enumerate(sy.lay):
            nm = Cell(AStr((sy.names.get(v, ''),)), STR)
            if isinstance(v[0], int) and v[1] > 0:
                c = make(i, dv, [Cell(sy.at[(v[0], v[1] - 1)], 'int'), nm, Cell(0, 'unsigned long')], pred=lambda p: len(p) == 3)
            else:
                c = make(i, dv, [nm, Cell(0, 'unsigned long')], pred=lambda p: len(p) == 2 and 'basic_string' in p[0])
                if v[0] == 'p':
                    i.call(fx.one(dv + '::makeConstant'), c, [])
                elif v[0] == 't':
                    i.call(fx.one(dv + '::makeIntegratedVariable'), c, [])
            infos.append(c)
        P = clsn(cls, 'double')
        o = make(i, P, [t.first, Cell(Vec(infos, dv, 'std::vector')), Cell(Vec([Cell(AStr((x,)), STR) for x in sy.eqn], STR, 'std::vector')),
                        Cell(Vec([Cell(0.5 + k, 'double') for k in range(sy.n)], 'double', 'std::vector'))])
        nv, ei = Cell(Vec([], dv, 'std::vector')), Cell(Vec([], NS + 'DaeEquationInfo', 'std::vector'))
        r = i.call(fx.find(NS + cls + '::reduceIndex', clsx=P)[0], o, [nv, ei])
        r = r.v if isinstance(r, Cell) else r
        ptr = r.f['p'].v if isinstance(r, Obj) else r
        fun = None if ptr is NULL else t.deps[i.deref(ptr).v.tag]

        def get(c, k, n):
            x = i.call(fx.find(NS + k + '::' + n)[0], c, [])
            return x.v if isinstance(x, Cell) else x
        var = [{n: get(c, 'DaeVarInfo', 'get' + n) for n in ('AntiDerivative', 'Derivative', 'Order', 'OriginalAntiDerivative', 'OriginalIndex', 'Name')} for c in nv.v.c]
        eq = [{n: get(c, 'DaeEquationInfo', n) for n in ('getId', 'getAntiDerivative', 'getOriginalIndex', 'getAssignedVarIndex')} for c in ei.v.c]
        ix = i.call([f for f in fx.find(NS + 'DaeStructuralIndexReduction::getStructuralIndex')][0], o, [])
        return fun, var, eq, ix.v if isinstance(ix, Cell) else ix, t
    r = list(it.explore(run))
    return r, it


def judge(fx, sy):
    res, it = reduce_(fx, sy)
    out = []
    T = sy.text()
    ok = sy.regular()

    def say(rule, good, txt):
        out.append((rule, 'ok' if good else 'bad', '%s: %s' % (T, txt)))
    for r in res:
        if r[0] == 'abort':
            out.append(('ends', 'bad' if UNDEFINED.search(str(r[1])) or 'loop' in str(r[1]) or 'step' in str(r[1]) else 'unk', '%s: the reduction %s' % (T, r[1])))
            continue
        if r[0] == 'throw':
            say('refused', not ok, 'the system %s and is refused (%s)' % ('is structurally regular' if ok else 'is structurally singular', str(r[1])[:120]))
            continue
        if not ok:
            say('refused', False, 'the system is structurally singular, but a reduced system is returned')
            continue
        fun, var, eq, index, t = r[1]
        c, d = sy.offsets()
        want = max(c) + 1
        if not min(d):
            say('index', index == want, 'the structural index is %s (the analysis gives %d)' % (index, want))
        if fun is None:
            say('differentiated', not max(c), 'no equation is differentiated (needed: %s times)' % c)
            continue
        out += [(a, 'ok' if b else 'bad', '%s: %s' % (T, x)) for a, b, x in content(sy, fun, var, eq, t, c, d)]
    return out, it.visited, it.unmodelled


def content(sy, fun, var, eq, t, c, d):
    m, n = sy.m, sy.n
    # equations
    chain = {}
    for k, e in enumerate(eq):
        yield 'information', e['getId'] == k, 'equation %d has the identifier %s' % (k, e['getId'])
        p = e['getAntiDerivative']
        if k < m:
            yield 'information', p == -1 and e['getOriginalIndex'] == k, 'equation %d of the model: derivative of %s, original index %s' % (k, p, e['getOriginalIndex'])
            chain[k] = (k, 0)
        else:
            good = p in chain and e['getOriginalIndex'] == -1
            yield 'information', good, 'equation %d added: derivative of %s, original index %s' % (k, p, e['getOriginalIndex'])
            if not good:
                return
            chain[k] = (chain[p][0], chain[p][1] + 1)
    got = [[x[1] for x in chain.values() if x[0] == i] for i in range(m)]
    yield 'differentiated', [sorted(x) for x in got] == [list(range(k + 1)) for k in c], 'the equations are differentiated %s times (the analysis gives %s)' % (
        [len(x) - 1 for x in got], c)
    # the recorded system
    exp = []
    for k in range(len(eq)):
        v = ('f', chain[k][0])
        for _ in range(chain[k][1]):
            v = ('d', v)
        exp.append(v)
    yield 'system', fun['dep'] == exp, 'the recorded equations are %s, the reported ones %s' % (fun['dep'], exp)
    yield 'system', fun['n'] == len(var), 'the recorded system has %d arguments, reported are %d variables' % (fun['n'], len(var))
    tp = next((k for v, k in sy.at.items() if v[0] == 't'), len(var))
    for f in t.deps.values():
        for j in f.get('time', ()):
            yield 'system', j == tp, 'equations are differentiated with respect to argument %d (time is argument %d)' % (j, tp)
            if f is t.deps[1]:
                yield 'system', False, 'equations are differentiated without relating the variables to their derivatives'
            for k, v in enumerate(var[:len(f.get('used', ()))]):
                w = ('time_var', ('x', k), ('x', v['Derivative']), ('x', tp)) if v['Derivative'] >= 0 else ('x', k)
                yield 'system', f['used'][k] == w, 'for the differentiation variable %d is %s, it should be %s' % (k, f['used'][k], w)
    if not any(f is fun for f in t.deps.values()):
        yield 'system', False, 'the result is not the recorded system'
    for k in range(min(len(var), fun['n'])):
        u = fun['used'][k] if k < len(fun['used']) else None
        yield 'system', u == ('x', k), 'argument %d of the resulting system is %s' % (k, u)
    # variables
    top = [0] * len(sy.chains)
    who = {}
    for k, v in enumerate(var):
        a, o = v['AntiDerivative'], v['Order']
        if k < n:
            x = sy.lay[k]
            oo = x[1] if isinstance(x[0], int) else -1
            pa = sy.at[(x[0], oo - 1)] if oo > 0 else -1
            yield 'information', (a, o, v['OriginalIndex']) == (pa, oo, k), 'variable %d: derivative of %s, order %s, original index %s' % (k, a, o, v['OriginalIndex'])
            who[k] = x
        else:
            good = a in who and isinstance(who[a][0], int) and o == who[a][1] + 1 and v['OriginalIndex'] == -1
            yield 'information', good, 'variable %d added: derivative of %s, order %s, original index %s' % (k, a, o, v['OriginalIndex'])
            if not good:
                return
            who[k] = (who[a][0], who[a][1] + 1)
        if isinstance(who[k][0], int):
            j, o = who[k]
            base = sy.at[(j, 0)]
            yield 'information', v['OriginalAntiDerivative'] == (base if o else -1), 'variable %d: the original variable is reported as %s' % (k, v['OriginalAntiDerivative'])
            top[j] = max(top[j], o)
        s = v['Name']
        s = s.s() if isinstance(s, AStr) and s.conc() else s
        if sy.names.get(who[k]):
            yield 'information', s == sy.names[who[k]], 'variable %d is named %s' % (k, s)
    inv = {x: k for k, x in who.items()}
    yield 'information', len(inv) == len(who), 'a variable is listed twice'
    for k, v in enumerate(var):
        x = who[k]
        w = inv.get((x[0], x[1] + 1), -1) if isinstance(x[0], int) else -1
        yield 'information', v['Derivative'] == w, 'variable %d: its derivative is reported as %s (it is %s)' % (k, v['Derivative'], w)
    yield 'variables', top == d, 'the highest derivatives are %s (the analysis gives %s)' % (top, d)
    used = {}
    for k, e in enumerate(eq):
        i, o = chain[k]
        if o < c[i]:
            continue
        a = e['getAssignedVarIndex']
        x = who.get(a)
        s = sy.sigma()
        good = x is not None and isinstance(x[0], int) and x[1] == d[x[0]] and s[i][x[0]] is not None and s[i][x[0]] + o == x[1]
        yield 'assignment', good and a not in used, 'equation %d is assigned to variable %s%s' % (k, a, ', as equation %d' % used[a] if a in used else '')
        used[a] = k


def systems(thorough):
    def every(chains):
        vs = [(j, o) for j, k in enumerate(chains) for o in range(k + 1)]
        sub = [frozenset(x) for r in range(1, len(vs) + 1) for x in itertools.combinations(vs, r)]
        for e in itertools.product(sub, repeat=len(chains)):
            yield System(chains, e)
    for ch in ((0,), (1,), (0, 0), (1, 0), (1, 1)):
        for s in every(ch):
            yield s
    r = random.Random(7)
    for k in range(4000 if thorough else 300):
        m = r.choice([2, 3, 3, 4, 4, 5])
        ch = [r.choice([0, 1, 1]) for _ in range(m)]
        ex = ([('p', 0)] if r.random() < .3 else []) + ([('t', 0)] if r.random() < .3 else [])
        ex = [x[0] for x in ex]
        vs = [(j, o) for j, q in enumerate(ch) for o in range(q + 1)]
        eqs = []
        for i in range(m):
            e = set(r.sample(vs, min(len(vs), r.choice([1, 1, 2, 2, 3]))))
            if r.random() < .3 and ex:
                e.add((ex[0], 0))
            eqs.append(e)
        yield System(ch, eqs, ex, perm=r.randrange(99) if r.random() < .6 else None,
                     names={(0, 0): 'height'} if r.random() < .3 else None, eqn=['first'] if r.random() < .3 else None)


def run(ctx):
    fx = facts.facts('main')
    where = fx.loc(fx.find(NS + 'Pantelides::reduceIndex')[0])
    ss = list(systems(ctx.thorough))
    vis, unm, regular = set(), {}, 0
    for s, (out, v, u) in zip(ss, pmap(lambda s: judge(fx, s), ss)):
        ctx.count('systems')
        regular += s.regular()
        vis |= v
        for k, n in u.items():
            unm[k] = unm.get(k, 0) + n
        for rule, verdict, txt in out:
            if verdict == 'ok':
                ctx.ok(rule, txt)
            elif verdict == 'unk':
                ctx.unk(rule, txt)
            else:
                ctx.bad(rule, s.text(), where, txt)
    ctx.count('structurally regular systems', regular)
    ctx.count('functions analysed', len(vis))
    ctx.count('functions taken as opaque', len(unm))
    ctx.need('differentiated', regular)
    for r in ('refused', 'information', 'system', 'assignment', 'variables'):
        ctx.need(r, 100)
