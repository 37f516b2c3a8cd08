"""G01: the generated C source computes the recorded expressions (whole generation: ordering, naming, sharing, splitting, emission)."""
import random

from .. import facts
from ..absint import Interp, UNDEFINED
from ..cgmodel import NS
from ..gen import G, Session, check_outputs, execute, gen_hooks, show
from ..lang import BIN, COM, UN
from ..par import pmap

SPEC = {'technique': 'abstract interpretation of the whole source generation (operation ordering, variable ids and their reuse, naming, splitting in '
                     'several functions, C emission) over an enumerated family of recorded graphs and option combinations; the emitted C text is '
                     'resolved by the C front end and interpreted over symbolic inputs with definedness and bounds tracking; output terms are '
                     'compared with the meaning of the recorded graph', 'level': 'other',
        'assumptions': ['graph shapes are enumerated up to a bound, operand values are symbolic', 'real arithmetic: re-association is accepted',
                        'identity of two output terms is decided at four generic operand points']}
X = [('x', i) for i in range(8)]


class Case:
    def __init__(self, label, nx, gens, opts=None):
        """gens: [(number of nodes recorded, dependents, options)] applied to one handler; g holds the nodes"""
        self.label, self.nx, self.gens, self.opts = label, nx, gens, opts or {}


def one(label, g, deps, o=None, opts=None):
    return (label, g, [(len(g.nodes), deps, o or {})], opts or {})


# ---- graphs ------------------------------------------------------------------------------------------------
def op_cases():
    """every operation in every role"""
    for op in UN + ['UnMinus', 'Sign', 'Alias']:
        arg = lambda g: g('Mul', X[0], X[1])
        g = G(2)
        a = arg(g)
        n = g(op, a)
        m = g(op, X[0])
        k = g('Add', n, m)
        yield one('op %s' % op, g, [n, m, k, g('Sub', X[1], k), a])
        g = G(2)   # single uses
        n = g(op, g('Sub', X[0], X[1]))
        m = g(op, X[1])
        yield one('op %s nested' % op, g, [g('Div', 3.0, n), g('Sub', m, 2.0)])
        g = G(2)   # chain
        yield one('op %s chain' % op, g, [g(op, g(op, g('Mul', X[0], 0.25)))])
    for op in BIN:
        for l in (X[0], 2.5, 'n'):
            for r in (X[1], 1.5, 'n', 'same'):
                if not any(isinstance(v, (tuple, str)) for v in (l, r)):
                    continue
                g = G(2)
                s = g('Sub', X[0], X[1])
                t = g('Mul', s, s)
                lv = t if l == 'n' else l
                rv = g('Sin', X[1]) if r == 'n' else lv if r == 'same' else r
                if not isinstance(lv, tuple) and not isinstance(rv, tuple):
                    continue
                n = g(op, lv, rv)
                yield one('op %s(%s,%s)' % (op, l if isinstance(l, (str, float)) else 'x', r if isinstance(r, (str, float)) else 'x'), g,
                          [n, g('Sub', n, 1.0), g('Div', g(op, lv, rv), X[1])])
    for op in COM:
        for k, (a, b, c, d) in enumerate([(X[0], X[1], X[2], X[0]), ('n', X[1], 'm', 2.0), (X[0], 0.5, -1.0, 'm'), ('n', 'm', 'm', 'n'), (1.0, X[1], X[1], X[1])]):
            g = G(3)
            n = g('Mul', X[0], X[2])
            m = g('Sin', n)
            f = lambda v: n if v == 'n' else m if v == 'm' else v
            e = g(op, f(a), f(b), f(c), f(d))
            yield one('op %s/%d' % (op, k), g, [e, g('Add', g('Mul', e, 2.0), n)])
        g = G(3)
        i = g(op, X[0], X[1], g('Sin', X[2]), g('Cos', X[2]))
        j = g(op, i, X[2], g('Mul', i, 3.0), g(op, X[1], X[2], i, X[0]))
        yield one('op %s nested' % op, g, [j, i])
    g = G(2)
    a = g('Mul', X[0], X[1])
    yield one('op Pri', g, [g('Add', g('Pri', a, info=[]), X[0])]) if False else one('op mixed', g, [g('Sin', a), a])


def dep_cases():
    g = G(3)
    a = g('Mul', X[0], X[1])
    b = g('Add', a, X[2])
    sets = [[a, a], [b, a, b, a], [X[0], X[1], X[0]], [a, X[1], 0.0, 1.5, a], [0.0, 0.0], [1.0 / 3, -2.5e-7, 1e22, 0.1], [b, b, b], [X[2], a], [a, 0.0, b, 0.0],
            [0.0, X[0]], [g('Alias', a), a], [g('Alias', X[0]), X[0]], [g('Alias', b), g('Alias', b), b]]
    for k, s in enumerate(sets):
        for o in ({}, {'zerodep': True}, {'ignorezero': True}, {'ignorezero': True, 'zerodep': True}, {'split': 1}, {'function': False}):
            if o.get('function') is False and o.get('zerodep'):
                continue
            yield one('dependents %d %s' % (k, o), g, s, o)
    # accumulation into the dependents (which are distinct and not operands of each other)
    c = g('Sub', g('Sin', X[1]), X[2])
    for k, s in enumerate([[b, c], [c, b, 1.5, X[0]], [0.0, c, X[1]]]):
        for o in ({'assign': '+='}, {'assign': '-='}, {'assign': '-=', 'split': 1}, {'assign': '+=', 'maxop': 1}):
            yield one('accumulated dependents %d %s' % (k, o), g, s, o)


def chain_graph(n):
    g = G(4)
    v = [g('Sub', X[i % 4], X[(i + 1) % 4]) for i in range(3)]
    for i in range(n):
        v.append(g(('Mul', 'Sub', 'Div')[i % 3], v[-1], v[-2 - i % 3]))
        if i % 4 == 3:
            v.append(g('Sin', v[-1]))
    return g, v


def opt_cases():
    opts = [{'split': k} for k in (1, 2, 3, 5, 100)] + [{'maxop': k} for k in (1, 2, 4)] + [{'reuse': False}, {'reuse': False, 'split': 2}, {'maxop': 1, 'split': 2, 'zerodep': True},
            {'argin': 'inp', 'argout': 'res', 'argat': 'atf'}, {'function': False}, {'function': False, 'maxop': 1}, {'name': 'my_fun'}, {'zerodep': True, 'split': 2}, {}]
    for n in (4, 9, 14):
        for o in opts:
            g, v = chain_graph(n)
            yield one('chain %d %s' % (n, o), g, [v[-1], v[n // 2], v[3]], o)
            yield one('chain last %d %s' % (n, o), g, [v[-1]], o)
    # lifetimes: values with long and short lives
    for o in opts:
        g = G(3)
        long_ = g('Mul', X[0], X[1])
        t1 = g('Sin', g('Sub', X[0], X[2]))
        u1 = g('Mul', t1, t1)
        t2 = g('Cos', g('Sub', X[2], X[1]))
        u2 = g('Div', t2, g('Add', t2, u1))
        t3 = g('Exp', u2)
        u3 = g('Sub', t3, g('Mul', t3, long_))
        yield one('lifetimes %s' % o, g, [g('Sub', u3, long_), g('Sub', u1, u3)], o)
        g = G(3)
        a = g('Sub', X[0], X[1])
        w = g('Mul', a, a)
        c1 = g('ComLt', w, X[2], g('Sin', w), w)
        c2 = g('ComGe', c1, w, c1, g('Sub', c1, w))
        yield one('conditions %s' % o, g, [c2, g('Add', c1, c2), w], o)


def array_cases():
    allo = [{}, {'split': 1}, {'split': 2}, {'reuse': False}, {'zerodep': True}, {'split': 4, 'zerodep': True}]

    def fw(g, vals, m=2, fid=0):
        ty = g.zeros(m)
        c = g.forward(fid, 0, 0, [g.array(*vals)], [ty])
        return [g.elem(ty, c, i) for i in range(m)]

    def fw1(g, vals, dvals, idx, m=2, fid=0):
        n = len(vals)
        ty0, ty1 = g.zeros(m), g.zeros(m)
        c = g.forward(fid, 1, 1, [g.array(*vals), g.sparse(n, idx, dvals)], [ty0, ty1])
        return [g.elem(ty1, c, i) for i in range(m)]

    def rv0(g, vals, yvals, w, idx, fid=0):
        n, m = len(vals), len(yvals)
        px = g.zeros(n)
        c = g.reverse(fid, 0, [g.array(*vals)], [g.array(*yvals)], [px], [g.sparse(m, idx, w)])
        return [g.elem(px, c, i) for i in range(n)]

    def rv1(g, vals, dvals, didx, yvals, w, widx, w2, fid=0):
        n, m = len(vals), len(yvals)
        px0, px1 = g.zeros(n), g.zeros(n)
        c = g.reverse(fid, 1, [g.array(*vals), g.sparse(n, didx, dvals)], [g.array(*yvals), g.zeros(m)], [px0, px1], [g.sparse(m, widx, w), g.array(*w2)])
        return [g.elem(px0, c, i) for i in range(n)]

    for o in allo:
        g = G(6)
        a = g('Mul', X[0], X[1])
        e = fw(g, [a, X[2]])
        f = fw(g, [a, e[0]])
        yield one('atomic forward %s' % o, g, [g('Sub', f[0], f[1]), e[1], f[0], a], o)
        g = G(6)
        b = [g('Sub', X[i], X[5 - i]) for i in range(3)]
        s = [g('Mul', v, v) for v in b]
        e = fw(g, s + [1.0 / 3] * 4 + [X[1], X[2], X[3], X[4]] + [0.0], 3)
        f = fw(g, [1.0 / 3] * 4 + s + [X[1], X[2], X[3], X[4]] + [0.1], 2, 1)
        h = fw(g, [1.0 / 3] * 4 + s[::-1] + [X[0], X[1], X[2], 2e-9], 2, 0)
        yield one('array runs %s' % o, g, [e[0], g('Sub', f[0], e[1]), g('Div', h[0], h[1]), f[1], e[2]] + s, o)
        g = G(6)    # same array contents in two calls, then changed
        a = g('Sin', X[0])
        b = g('Cos', a)
        e = fw(g, [a, b, X[1]])
        f = fw(g, [a, b, X[1]], 2, 1)
        h = fw(g, [a, X[1], b], 2, 1)
        k = fw(g, [a, h[0], b], 2, 0)
        yield one('array contents %s' % o, g, [e[0], f[0], g('Sub', h[0], h[1]), k[1], k[0], a, b], o)
        g = G(6)
        a = g('Mul', X[0], X[3])
        e = fw1(g, [X[0], a, X[2]], [1.0, X[4]], [0, 2])
        f = fw1(g, [X[0], a, X[2]], [X[4], a, 1.0], [0, 1, 2], 2)
        h = fw1(g, [a, X[1]], [a], [1], 3, 1)
        z = fw1(g, [a, X[1]], [], [], 1, 1)
        yield one('atomic forward one %s' % o, g, [e[0], g('Sub', f[0], f[1]), h[2], h[0], z[0], e[1]], o)
        g = G(6)
        a = g('Mul', X[0], X[3])
        y = fw(g, [a, X[1]])
        e = rv0(g, [a, X[1]], y, [X[5]], [1])
        f = rv0(g, [a, X[1]], y, [1.0, e[0]], [0, 1])
        h = rv0(g, [X[1], a, 2.0], [0.0], [1.0], [0], 1)
        yield one('atomic reverse %s' % o, g, [e[0], e[1], g('Mul', f[0], f[1]), h[1], h[0], h[2]], o)
        g = G(6)
        a = g('Mul', X[0], X[3])
        e = rv1(g, [a, X[1]], [1.0], [0], [0.0, 0.0], [X[2]], [1], [0.0, X[5]])
        f = rv1(g, [a, X[1]], [X[4], a], [0, 1], [0.0, 0.0], [X[2], a], [0, 1], [a, X[5]])
        h = fw1(g, [a, X[1]], [f[0]], [1], 2)
        yield one('atomic reverse two %s' % o, g, [e[0], e[1], g('Mul', f[0], f[1]), h[1], h[0]], o)
        g = G(6)    # sparse arrays with runs of equal values and of independents; different index sets, equal contents
        a = g('Mul', X[0], X[3])
        v6 = [X[0], X[1], X[2], X[3], a, 0.5]
        e = fw1(g, v6, [2.5] * 4 + [a], [0, 1, 3, 4, 5])
        f = fw1(g, v6, [2.5] * 4 + [a], [1, 2, 3, 4, 5])
        h = fw1(g, v6, [X[0], X[1], X[2], X[3]], [2, 3, 4, 5])
        k = fw1(g, v6, [X[1], X[2], X[3]], [0, 2, 5])
        t = [g('Sin', X[i]) for i in range(4)]
        q = [g('Mul', v, v) for v in t]
        w = fw1(g, v6, q, [0, 1, 2, 4], 2, 1)
        yield one('sparse runs %s' % o, g, [e[0], f[0], h[0], h[1], g('Sub', k[0], k[1]), w[0]] + t, o)
        g = G(6)    # an atomic result only used inside a condition and several elements in an expression
        e = fw(g, [X[0], X[1]], 3)
        c = g('ComLt', e[0], e[1], e[2], g('Sin', e[0]))
        p = g('Mul', e[0], e[0])
        yield one('atomic in condition %s' % o, g, [c, p, g('Sub', p, c)], o)
        g = G(6)    # interleaved calls that share nothing
        es = [fw(g, [X[i], X[(i + 1) % 6]], 1 + i % 3, i % 2) for i in range(4)]
        yield one('atomic many %s' % o, g, [g('Sub', es[i][0], es[(i + 1) % 4][-1]) for i in range(4)], o)
        g = G(6)    # chain through many calls: arrays are reused
        v = [X[0], X[1]]
        for i in range(4):
            v = fw(g, v if i % 2 == 0 else v[::-1], 2, i % 2)
            v = [g('Sin', v[0]), v[1]]
        yield one('atomic chain %s' % o, g, v, o)


def history_cases():
    g = G(3)
    a = g('Mul', X[0], X[1])
    b = g('Sin', a)
    n1 = len(g.nodes)
    c = g('Sub', b, X[2])
    d = g('Mul', c, c)
    n2 = len(g.nodes)
    e = g('Sub', d, a)
    seqs = [[(n1, [b, a]), (n1, [a, b])], [(n1, [b]), (n2, [d, c])], [(n2, [d, c]), (n2, [c, d])], [(n2, [d]), (len(g.nodes), [e, d, b, a])], [(n2, [c, c, X[0]]), (n2, [X[0], c, a])],
            [(n1, [a]), (n1, [a, a]), (n1, [0.0, a])], [(n2, [c, d, 0.0]), (n2, [0.0, X[1], d]), (n2, [d])], [(n2, [d, d]), (n2, [d])], [(n1, [X[0]]), (n1, [b, X[0]])]]
    opts = [{}, {'split': 1}, {'zerodep': True}, {'function': False}, {'reuse': False}, {'maxop': 1}]
    for k, s in enumerate(seqs):
        for o in opts:
            yield ('history %d %s' % (k, o), g, [(n, d_, o) for n, d_ in s], {})
        yield ('history %d options change' % k, g, [(n, d_, opts[(i * 3 + k) % 3]) for i, (n, d_) in enumerate(s)], {})
    # histories with atomic functions
    g = G(4)
    ty = g.zeros(2)
    f = g.forward(0, 0, 0, [g.array(X[0], X[1])], [ty])
    e0, e1 = g.elem(ty, f, 0), g.elem(ty, f, 1)
    s = g('Sub', e0, e1)
    ty2 = g.zeros(1)
    f2 = g.forward(1, 0, 0, [g.array(s, X[1], X[2])], [ty2])
    q = g('Sub', g.elem(ty2, f2, 0), s)
    n = len(g.nodes)
    for k, sq in enumerate([[[s], [q, s]], [[q], [s]], [[q, e0], [e1, q], [e0]]]):
        for o in ({}, {'split': 1}):
            yield ('history atomic %d %s' % (k, o), g, [(n, d_, o) for d_ in sq], {})


def namer_cases():
    for o in ({}, {'split': 2}, {'reuse': False}):
        g = G(5)
        a = g('Mul', X[0], X[3])
        b = g('Sub', g('Sin', a), X[4])
        ty = g.zeros(2)
        f = g.forward(0, 0, 0, [g.array(X[0], X[1], X[2], X[3], X[4])], [ty])
        yield one('hessian names %s' % o, g, [b, a, g('Mul', X[4], X[2]), X[3], X[2], g.elem(ty, f, 1)], dict(o, namer=('hess', 3), blocks=[3, 2]))
        g = G(7)
        a = g('Mul', X[0], X[3])
        b = g('Sub', g('Sin', a), g('Mul', X[6], X[5]))
        ty = g.zeros(2)
        f = g.forward(0, 0, 0, [g.array(*X[:7])], [ty])
        yield one('reverse two names %s' % o, g, [b, a, g('Mul', X[4], X[2]), X[3], X[6], X[2], g.elem(ty, f, 0)], dict(o, namer=('rev2', 3, 2), blocks=[3, 2, 2]))


def shape_cases(k, ops, full):
    """all graphs of k operations over two variables (each operation uses earlier results)"""
    def rec(g, refs, left):
        if not left:
            used = {a for _, args, _ in g for a in args}
            sinks = [('n', i) for i in range(len(g)) if ('n', i) not in used]
            yield [tuple(x) for x in g], sinks
            return
        for op, ar in ops:
            if ar == 1:
                for a in refs:
                    yield from rec(g + [(op, (a,), ())], refs + [('n', len(g))], left - 1)
            else:
                for a in refs:
                    for b in refs:
                        yield from rec(g + [(op, (a, b), ())], refs + [('n', len(g))], left - 1)
    for i, (nodes, sinks) in enumerate(rec([], [X[0], X[1]], k)):
        g = G(2)
        g.nodes = [(op, list(a), list(f)) for op, a, f in nodes]
        inner = [('n', j) for j in range(k) if ('n', j) not in sinks]
        yield one('shapes %d' % k, g, sinks + (inner[i % len(inner):][:1] if inner and i % 2 else []), ({}, {'split': 1}, {'maxop': 1})[i % 3])


def random_case(seed):
    """a pseudo-random graph with atomic calls, conditions, sharing and options"""
    r = random.Random(seed)
    nx = r.randint(2, 6)
    g = G(nx)
    vals = list(X[:nx])

    def pick():
        if r.random() < 0.12:
            return r.choice([0.5, -1.5, 2.0, 1.0 / 3, 0.0])
        return r.choice(vals[-5:] if r.random() < 0.6 else vals)

    def pickv():
        v = pick()
        return v if isinstance(v, tuple) else r.choice(vals)
    for _ in range(r.randint(4, 16)):
        t = r.random()
        if t < 0.55:
            vals.append(g(r.choice(['Add', 'Sub', 'Mul', 'Div', 'Sub', 'Mul']), pickv(), pick()))
        elif t < 0.75:
            vals.append(g(r.choice(['Sin', 'Cos', 'Tanh', 'Atan', 'UnMinus', 'Abs', 'Sign', 'Alias']), pickv()))
        elif t < 0.87:
            vals.append(g(r.choice(COM), pickv(), pick(), pick(), pickv()))
        else:
            n, m = r.randint(1, 4), r.randint(1, 3)
            fid = r.randint(0, 1)
            kind = r.random()
            v = [pick() for _ in range(n)]
            if not any(isinstance(a, tuple) for a in v):
                v[0] = pickv()
            if kind < 0.5:
                ty = g.zeros(m)
                c = g.forward(fid, 0, 0, [g.array(*v)], [ty])
                vals += [g.elem(ty, c, i) for i in range(m)]
            elif kind < 0.75:
                ty0, ty1 = g.zeros(m), g.zeros(m)
                idx = sorted(r.sample(range(n), r.randint(1, n)))
                c = g.forward(fid, 1, 1, [g.array(*v), g.sparse(n, idx, [pick() for _ in idx])], [ty0, ty1])
                vals += [g.elem(ty1, c, i) for i in range(m)]
            else:
                px = g.zeros(n)
                idx = sorted(r.sample(range(m), r.randint(1, m)))
                c = g.reverse(fid, 0, [g.array(*v)], [g.array(*[pick() for _ in range(m)])], [px], [g.sparse(m, idx, [pick() for _ in idx])])
                vals += [g.elem(px, c, i) for i in range(n)]
    nd = r.randint(1, 5)
    deps = [r.choice(vals[nx:] if len(vals) > nx else vals) for _ in range(nd)]
    if r.random() < 0.3:
        deps.append(r.choice([0.0, 1.25, X[0]]))
    r.shuffle(deps)
    o = {}
    if r.random() < 0.4:
        o['split'] = r.randint(1, 4)
    if r.random() < 0.3:
        o['maxop'] = r.randint(1, 4)
    if r.random() < 0.3:
        o['reuse'] = False
    if r.random() < 0.2:
        o['zerodep'] = True
    gens = [(len(g.nodes), deps, o)]
    if r.random() < 0.25:
        gens.append((len(g.nodes), [r.choice(vals) for _ in range(nd)], o))
    return ('graph %d' % seed, g, gens, {})


def family(label):
    return ' '.join(w for w in label.split(' {')[0].split()[:2])


def decide(fx, case):
    """[(rule, 'ok'/'bad'/'unk', text)]"""
    label, g, gens, opts = case
    it = Interp(fx, hooks=gen_hooks(), max_paths=6, max_steps=6000000, loop_bound=600)
    out = []

    def run(itp):
        s = Session(itp, g.nx)
        res, k = [], 0
        for n, deps, o in gens:
            s.record(g.nodes[k:n])
            k = n
            res.append(s.generate(deps, o))
        return res
    visited = set()
    for r in it.explore(run):
        if r[0] == 'abort':
            out.append(('value', 'bad' if UNDEFINED.search(str(r[1])) else 'unk', '%s: the generation fails: %s' % (label, r[1])))
            continue
        if r[0] == 'throw':
            e = r[1]
            out.append(('generates', 'bad', '%s: the generation throws at line %s: %s' % (label, e.line, e)))
            continue
        for gi, ((n, deps, o), files) in enumerate(zip(gens, r[1])):
            lab = label if len(gens) == 1 else '%s (generation %d)' % (label, gi + 1)
            res = list(execute(files, g.nx, len(deps), o))
            bad = False
            for x in res:
                if x[0] == 'error':
                    out.append(('compiles', 'bad', '%s: the generated source is not valid C: %s' % (lab, x[1])))
                    bad = True
                elif x[0] == 'fault':
                    out.append(('defined', 'bad', '%s: running the generated source: %s' % (lab, x[2])))
                    bad = True
                elif x[0] == 'unk':
                    out.append(('value', 'unk', '%s: %s' % (lab, x[1])))
            if bad:
                continue
            out.append(('compiles', 'ok', lab))
            out.append(('defined', 'ok', lab))
            p, cnt, unk = check_outputs(g, deps, res, o, g.nx)
            if p:
                out.append(('value', 'bad', '%s: %s' % (lab, p)))
            elif cnt:
                out.append(('value', 'ok', '%s: %d output values' % (lab, cnt)))
            if unk:
                out.append(('value', 'unk', '%s: %s' % (lab, unk)))
    visited = it.visited
    return out, visited, it.unmodelled


def cases(thorough):
    cs = list(op_cases()) + list(dep_cases()) + list(opt_cases()) + list(array_cases()) + list(history_cases()) + list(namer_cases())
    cs += list(shape_cases(2, [('Sub', 2), ('Sin', 1), ('Div', 2)], True))
    k3 = list(shape_cases(3, [('Sub', 2), ('Sin', 1)], True))
    cs += k3 if thorough else k3[::7]
    cs += [random_case(s) for s in range(2500 if thorough else 250)]
    return cs


def run(ctx):
    fx = facts.facts('main')
    where = fx.loc(fx.find(NS + 'LanguageC::generateSourceCode')[0])
    cs = cases(ctx.thorough)
    res = pmap(lambda c: decide(fx, c), cs)
    vis, unm = set(), {}
    for c, (out, v, u) in zip(cs, res):
        ctx.count('graphs')
        ctx.count('generations', len(c[2]))
        vis |= v
        for k, n in u.items():
            unm[k] = unm.get(k, 0) + n
        for rule, verdict, txt in out:
            if verdict == 'ok':
                ctx.ok(rule, txt)
            elif verdict == 'unk':
                ctx.unk(rule, txt)
            else:
                ctx.bad(rule, family(c[0]), where, txt)
    ctx.count('functions analysed', len(vis))
    ctx.count('functions taken as opaque', len(unm))
    for r in ('compiles', 'defined', 'value'):
        ctx.need(r, len(cs) * 2 // 3)
