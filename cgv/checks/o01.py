"""O01: recorded arithmetic denotes the written expression."""
import itertools
import math

from .. import facts
from ..absint import Cell, CppThrow, Interp, NULL, Obj, Term
from ..cgmodel import FN1, Model, compare, ev

SPEC = {'technique': 'abstract interpretation of every operator and math function of the recorded scalar over the finite operand-kind '
                     'partition (literal 0, literal 1, generic constant, variable with a known value, variable without); the recorded '
                     'node tree is compared as a term with the meaning of the function',
        'level': 'other',
        'assumptions': ['exact real arithmetic: rounding and the 0*inf / 0*nan cases of the documented simplifications are left out',
                        'operation codes mean what their names say (this is the oracle)']}

BIN = {'operator+': lambda a, b: a + b, 'operator-': lambda a, b: a - b, 'operator*': lambda a, b: a * b, 'operator/': lambda a, b: a / b}
CMP = {'ComLt': lambda a, b: a < b, 'ComLe': lambda a, b: a <= b, 'ComEq': lambda a, b: a == b, 'ComGe': lambda a, b: a >= b,
       'ComGt': lambda a, b: a > b, 'ComNe': lambda a, b: a != b}
KINDS = [0.0, 1.0, 'par', 'var', 'varval']
MATH = ['abs', 'fabs', 'acos', 'asin', 'atan', 'cos', 'cosh', 'exp', 'log', 'sin', 'sinh', 'sqrt', 'tan', 'tanh', 'erf', 'erfc', 'asinh', 'acosh',
        'atanh', 'expm1', 'log1p', 'log10']


def base_hooks():
    def ident(c):
        def h(it, f, this, args, line):
            t = it.fx.t(f['p'][0]['t'])
            if 'CG<' in t:
                return NotImplemented
            v = args[0].v
            return v == c if isinstance(v, (int, float)) else Term('==', v, c)
        return h
    return {'CppAD::IdenticalZero': ident(0.0), 'CppAD::IdenticalOne': ident(1.0)}


class Case:
    def __init__(self, m, kinds, names, handler=None, handlers=None):
        self.m = m
        self.h = handler or m.handler()
        self.kinds, self.names = kinds, names
        self.cells, self.den = [], []
        for i, (k, n) in enumerate(zip(kinds, names)):
            h = handlers[i] if handlers else self.h
            self.cells.append(self.operand(k, n, h))
        self.den = [k if isinstance(k, float) else Term(n + '.v') if k in ('par', 'base', 'argpar') else Term(n) for k, n in zip(kinds, names)]

    def operand(self, k, n, h):
        m = self.m
        if k in ('argvar', 'argpar'):
            a = m.arg_node(m.node('Inv', h=h, tag=n)) if k == 'argvar' else m.arg_par(Term(n + '.v', t='double'))
            return Cell(a, m.ARG)
        if k == 'base':
            return Cell(Term(n + '.v', t='double'), 'double')
        if k in ('var', 'varval'):
            return Cell(m.cg(m.node('Inv', h=h, tag=n), Term(n + '.v', t='double') if k == 'varval' else None), m.CG)
        v = k if isinstance(k, float) else Term(n + '.v', t='double')
        return Cell(m.cg(None, v), m.CG)


def is_cg(t):
    return 'CppAD::cg::CG<double>' in t


def run_case(ctx, fx, m, fid, kinds, ref, label, rule, member=False, self_result=False, alias=False):
    f = fx.funcs[fid]
    names = ['X', 'Y', 'Z', 'W'][:len(kinds)]
    it = Interp(fx, hooks=base_hooks())
    store = {}

    def body(itp):
        c = Case(m, kinds, names)
        store['c'] = c
        cells = c.cells
        if alias:
            cells, c.den = [cells[0], cells[0]], [c.den[0], c.den[0]]
        if member:
            r = itp.call(fid, cells[0], cells[1:])
            if self_result:
                r = cells[0]
        else:
            r = itp.call(fid, None, cells)
        r = r.v if isinstance(r, Cell) else r
        return m.cg_denote(itp, r), list(itp.conds)

    where = fx.loc(fid)
    lab = '%s [%s]' % (label, ', '.join(str(k) for k in kinds))
    outs = it.explore(body)
    ctx.visited |= it.visited
    for o in outs:
        ctx.count('abstract paths')
        if o[0] == 'abort':
            ctx.unk(rule, lab + ': ' + o[1])
            continue
        if o[0] == 'throw':
            ctx.bad(rule, label + '/throws', where, '%s throws %s at %s' % (lab, o[1].typ, o[1].line))
            continue
        (den, val, par), conds = o[1]
        cs = [c for c in conds if _known(c[0])]
        v, w = compare(lambda env: ref(*[ev(d, env) for d in store['c'].den]), den, cs, names)
        if v == 'empty':
            ctx.count('infeasible paths')
            continue
        if v == 'unknown':
            ctx.unk(rule, lab + ': ' + w)
            continue
        if v in ('differ', 'nomeaning'):
            ctx.bad(rule, label + '/denotation', where, '%s records %r (under %s): %s' % (lab, den, cs, w))
            continue
        ctx.ok(rule, '%s -> %r' % (lab, den))
        # known value
        vr = rule + '-value'
        if val is not None:
            v2, w2 = compare(lambda env: ref(*[ev(d, env) for d in store['c'].den]), val, cs, names)
            if v2 in ('differ', 'nomeaning'):
                ctx.bad(vr, label + '/value', where, '%s sets the value %r (under %s): %s' % (lab, val, cs, w2))
            elif v2 == 'same':
                ctx.ok(vr)
        else:
            known = all(k not in ('var', 'argvar') for k in kinds)
            if known:
                ctx.bad(vr, label + '/novalue', where, '%s: every operand has a value but the result has none' % lab)
        if par and val is None:
            ctx.bad(vr, label + '/parvalue', where, '%s: constant without a value' % lab)


def _known(t):
    if not isinstance(t, Term):
        return True
    if not t.args:
        return t.op.split('.')[0] in ('X', 'Y', 'Z', 'W') or False
    return all(_known(a) for a in t.args)


def double_only(fx, i):
    return all('float' not in t for t in fx.ptypes(i))


def run(ctx):
    fx = facts.facts('main')
    m = Model(fx)
    ctx.visited = set()

    def find(q, **kw):
        r = [i for i in fx.find(q, **kw) if double_only(fx, i)]
        if not r:
            raise facts.AnalysisError('anchor not found: ' + q)
        return r

    def kinds_for(fid):
        return [KINDS if is_cg(t) else ['base'] for t in fx.ptypes(fid)]

    # binary operators
    for name, fn in BIN.items():
        ids = [i for i in fx.find('CppAD::cg::' + name) if double_only(fx, i) and len(fx.funcs[i]['p']) == 2 and
               all(is_cg(t) or 'double' == t.replace('const ', '').replace(' &', '') for t in fx.ptypes(i))]
        if not ids:
            raise facts.AnalysisError('anchor not found: ' + name)
        for fid in ids:
            ks = kinds_for(fid)
            for kk in itertools.product(*ks):
                lab = '%s(%s)' % (name, ','.join('CG' if is_cg(t) else 'Base' for t in fx.ptypes(fid)))
                # the quotient by an exact zero constant has no meaning to preserve
                run_case(ctx, fx, m, fid, list(kk), fn, lab, 'binary')
            if all(is_cg(t) for t in fx.ptypes(fid)):
                for k in KINDS:
                    run_case(ctx, fx, m, fid, [k], fn, name + '(x,x)', 'binary', alias=True)
    # compound assignment
    for name, fn in BIN.items():
        for fid in find('CppAD::cg::CG::' + name + '=', nparams=1):
            if fx.funcs[fid].get('clsx') != m.CG:
                continue
            pt = fx.ptypes(fid)[0]
            pk, pn = (KINDS, 'CG') if is_cg(pt) else (['argvar', 'argpar'], 'Argument') if 'Argument<' in pt else (['base'], 'Base')
            for kk in itertools.product(KINDS, pk):
                lab = '%s=(%s)' % (name, pn)
                run_case(ctx, fx, m, fid, list(kk), fn, lab, 'compound', member=True, self_result=True)
            if pn == 'CG':
                for k in KINDS:
                    run_case(ctx, fx, m, fid, [k], fn, '%s=(itself)' % name, 'compound', member=True, self_result=True, alias=True)
    # unary
    for q, fn in (('operator-', lambda a: -a), ('operator+', lambda a: a)):
        for fid in find('CppAD::cg::CG::' + q, clsx=m.CG, nparams=0):
            for k in KINDS:
                run_case(ctx, fx, m, fid, [k], fn, 'unary ' + q, 'unary', member=True)
    # math functions
    for n in MATH:
        for fid in [i for i in find('CppAD::' + n) if is_cg(fx.ptypes(i)[0])]:
            for k in KINDS:
                run_case(ctx, fx, m, fid, [k], FN1[n], n, 'math')
    for fid in find('CppAD::sign'):
        for k in KINDS:
            run_case(ctx, fx, m, fid, [k], lambda a: (a > 0) - (a < 0), 'sign', 'math')
    for fid in find('CppAD::pow'):
        if not any(is_cg(t) for t in fx.ptypes(fid)):
            continue
        for kk in itertools.product(*kinds_for(fid)):
            run_case(ctx, fx, m, fid, list(kk), math.pow, 'pow(%s)' % ','.join('CG' if is_cg(t) else 'Base' for t in fx.ptypes(fid)), 'math')
    for fid in fx.find('CppAD::azmul'):
        if double_only(fx, fid):
            for kk in itertools.product(KINDS, KINDS):
                run_case(ctx, fx, m, fid, list(kk), lambda a, b: a * b, 'azmul', 'math')
    # conditional expressions
    en = fx.enum('CppAD::CompareOp')
    cmpn = {'CompareLt': 'ComLt', 'CompareLe': 'ComLe', 'CompareEq': 'ComEq', 'CompareGe': 'ComGe', 'CompareGt': 'ComGt'}  # CppAD never calls it with CompareNe
    kk4 = ['par', 'var', 'varval']
    for fid in [i for i in find('CppAD::CondExpOp') if is_cg(fx.ptypes(i)[1])]:
        for cn, cv in en.items():
            if cn not in cmpn:
                continue
            fn = CMP[cmpn[cn]]
            for kk in itertools.product(kk4, repeat=4):
                if 'var' in kk and not ctx.thorough and kk.count('var') > 2:
                    continue
                run_cond(ctx, fx, m, fid, cn, cv, list(kk), fn)
    ctx.count('functions analysed', len(ctx.visited))
    for r, n in (('binary', 120), ('compound', 80), ('unary', 8), ('math', 100), ('cond', 200)):
        ctx.need(r, n)


def run_cond(ctx, fx, m, fid, cn, cv, kinds, fn):
    names = ['X', 'Y', 'Z', 'W']
    it = Interp(fx, hooks=base_hooks())
    store = {}

    def body(itp):
        c = Case(m, kinds, names)
        store['c'] = c
        r = itp.call(fid, None, [Cell(cv, 'CppAD::CompareOp')] + c.cells)
        r = r.v if isinstance(r, Cell) else r
        return m.cg_denote(itp, r), list(itp.conds)

    lab = 'CondExpOp(%s)' % cn
    ref = lambda env: (lambda d: d[2] if fn(d[0], d[1]) else d[3])([ev(d, env) for d in store['c'].den])
    where = fx.loc(fid)
    for o in it.explore(body):
        ctx.count('abstract paths')
        if o[0] == 'abort':
            ctx.unk('cond', '%s %s: %s' % (lab, kinds, o[1]))
            continue
        if o[0] == 'throw':
            ctx.bad('cond', lab + '/throws', where, '%s %s throws at %s' % (lab, kinds, o[1].line))
            continue
        (den, val, par), conds = o[1]
        cs = [c for c in conds if _known(c[0])]
        v, w = compare(ref, den, cs, names)
        if v == 'empty':
            ctx.count('infeasible paths')
            continue
        if v == 'unknown':
            ctx.unk('cond', '%s %s: %s' % (lab, kinds, w))
            continue
        if v != 'same':
            ctx.bad('cond', lab + '/denotation', where, '%s %s records %r (under %s): %s' % (lab, kinds, den, cs, w))
            continue
        ctx.ok('cond', '%s %s -> %r' % (lab, kinds, den))
        if val is not None:
            v2, w2 = compare(ref, val, cs, names)
            if v2 in ('differ', 'nomeaning'):
                ctx.bad('cond-value', lab + '/value', where, '%s %s sets the value %r (under %s): %s' % (lab, kinds, val, cs, w2))
            elif v2 == 'same':
                ctx.ok('cond-value')
        elif all(k != 'var' for k in kinds):
            ctx.bad('cond-value', lab + '/novalue', where, '%s %s: every operand has a value but the result has none' % (lab, kinds))
    ctx.visited |= it.visited
