"""O03: comparisons and identity queries on recorded scalars."""
import itertools

from .. import facts
from ..absint import AStr, Cell, Interp, Obj, Term
from ..cgmodel import FN1, Model, compare, ev
from .o01 import Case, _known, base_hooks, double_only, is_cg

SPEC = {'technique': 'abstract interpretation of every comparison operator and identity/ordering query over the finite operand-kind partition; '
                     'constants must compare by value, an ordering of a recorded variable must throw, equality of variables is node identity',
        'level': 'other', 'assumptions': ['NaN operands are left out of the value partition']}
OPS = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b, '==': lambda a, b: a == b,
       '!=': lambda a, b: a != b}
ORD = {'GreaterThanZero': lambda a: a > 0, 'GreaterThanOrZero': lambda a: a >= 0, 'LessThanZero': lambda a: a < 0,
       'LessThanOrZero': lambda a: a <= 0}
KINDS = ['par', 'var', 'varval']


def hooks():
    h = base_hooks()
    for n, op in (('GreaterThanZero', '>'), ('GreaterThanOrZero', '>='), ('LessThanZero', '<'), ('LessThanOrZero', '<=')):
        def mk(op):
            def g(it, f, this, args, line):
                if 'CG<' in it.fx.t(f['p'][0]['t']):
                    return NotImplemented
                return Term(op, args[0].v, 0.0)
            return g
        h['CppAD::' + n] = mk(op)

    def absgeq(it, f, this, args, line):
        if 'CG<' in it.fx.t(f['p'][0]['t']):
            return NotImplemented
        return Term('>=', Term('fabs', args[0].v), Term('fabs', args[1].v))
    h['CppAD::abs_geq'] = absgeq

    def ideq(it, f, this, args, line):
        if 'CG<' in it.fx.t(f['p'][0]['t']):
            return NotImplemented
        return Term('==', args[0].v, args[1].v)
    h['CppAD::IdenticalEqualCon'] = ideq
    h['CppAD::IdenticalEqualPar'] = ideq
    h['CppAD::IdenticalCon'] = lambda it, f, this, args, line: NotImplemented if 'CG<' in it.fx.t(f['p'][0]['t']) else True
    h['CppAD::IdenticalPar'] = h['CppAD::IdenticalCon']
    return h


def run(ctx):
    fx = facts.facts('main')
    m = Model(fx)
    ctx.visited = set()

    def case(fid, kinds, expect, rule, label, alias=False):
        """expect: 'throw', bool, or callable on the operand values"""
        it = Interp(fx, hooks=hooks())
        names = ['X', 'Y'][:len(kinds)]
        st = {}

        def body(itp):
            c = Case(m, kinds, names)
            st['c'] = c
            cells = c.cells
            if alias:   # two distinct scalars referring to the same node
                import copy
                o = Obj(m.CG)
                src = cells[0].v
                o.f[m.cg_node] = Cell(src.f[m.cg_node].v)
                o.f[m.cg_val] = Cell(itp.copy(src.f[m.cg_val].v))
                cells = [cells[0], Cell(o, m.CG)]
            r = itp.call(fid, None, cells)
            return (r.v if isinstance(r, Cell) else r), list(itp.conds)
        lab = '%s [%s]%s' % (label, ', '.join(kinds), ' same node' if alias else '')
        where = fx.loc(fid)
        for o in it.explore(body):
            ctx.count('abstract paths')
            if o[0] == 'abort':
                ctx.unk(rule, lab + ': ' + o[1])
                continue
            if o[0] == 'throw':
                if expect == 'throw':
                    ctx.ok(rule, lab + ' throws')
                else:
                    ctx.bad(rule, label + '/throws', where, lab + ' throws at %s' % o[1].line)
                continue
            got, conds = o[1]
            if expect == 'throw':
                ctx.bad(rule, label + '/nothrow', where, lab + ' returns %r although the comparison cannot be decided while recording' % (got,))
                continue
            cs = [c for c in conds if _known(c[0])]
            ref = (lambda env: expect) if isinstance(expect, bool) else lambda env: expect(*[ev(d, env) for d in st['c'].den])
            v, w = compare(ref, got, cs, names)
            if v == 'empty':
                ctx.count('infeasible paths')
            elif v == 'unknown':
                ctx.unk(rule, lab + ': ' + w)
            elif v == 'same':
                ctx.ok(rule, '%s -> %r' % (lab, got))
            else:
                ctx.bad(rule, label + '/result', where, '%s returns %r (under %s): %s' % (lab, got, cs, w))
        ctx.visited |= it.visited

    for op, fn in OPS.items():
        ids = [i for i in fx.find('CppAD::cg::operator' + op) if double_only(fx, i) and len(fx.funcs[i]['p']) == 2 and
               any(map(is_cg, fx.ptypes(i))) and all(is_cg(t) or t.replace('const ', '').rstrip(' &') == 'double' for t in fx.ptypes(i))]
        if not ids:
            raise facts.AnalysisError('anchor not found: operator' + op)
        for fid in ids:
            pts = fx.ptypes(fid)
            lab = 'operator%s(%s)' % (op, ','.join('CG' if is_cg(t) else 'Base' for t in pts))
            for kk in itertools.product(*[KINDS if is_cg(t) else ['base'] for t in pts]):
                var = [k for k in kk if k.startswith('var')]
                if not var:
                    ex = fn
                elif op in ('==', '!='):
                    ex = op == '!='
                else:
                    ex = 'throw'
                case(fid, list(kk), ex, 'order' if op not in ('==', '!=') else 'equality', lab)
            if op in ('==', '!=') and all(map(is_cg, pts)):
                for k in ('var', 'varval'):
                    case(fid, [k], op == '==', 'equality', lab, alias=True)
    for n, fn in ORD.items():
        for fid in [i for i in fx.find('CppAD::' + n) if is_cg(fx.ptypes(i)[0])]:
            for k in KINDS:
                case(fid, [k], fn if k == 'par' else 'throw', 'ordering-query', n)
    for fid in [i for i in fx.find('CppAD::abs_geq') if is_cg(fx.ptypes(i)[0])]:
        for kk in itertools.product(KINDS, KINDS):
            case(fid, list(kk), (lambda a, b: abs(a) >= abs(b)) if kk == ('par', 'par') else 'throw', 'ordering-query', 'abs_geq')
    for n, c in (('IdenticalZero', 0.0), ('IdenticalOne', 1.0)):
        for fid in [i for i in fx.find('CppAD::' + n) if is_cg(fx.ptypes(i)[0])]:
            for k in KINDS:
                case(fid, [k], (lambda a, c=c: a == c) if k == 'par' else False, 'identity-query', n)
    for n in ('IdenticalEqualCon', 'IdenticalEqualPar'):
        for fid in [i for i in fx.find('CppAD::' + n) if is_cg(fx.ptypes(i)[0])]:
            for kk in itertools.product(KINDS, KINDS):
                case(fid, list(kk), (lambda a, b: a == b) if kk == ('par', 'par') else False, 'identity-query', n)
    for n in ('IdenticalCon', 'IdenticalPar'):
        for fid in [i for i in fx.find('CppAD::' + n) if is_cg(fx.ptypes(i)[0])]:
            for k in KINDS:
                case(fid, [k], k == 'par', 'identity-query', n)
    ctx.count('functions analysed', len(ctx.visited))
    for r, n in (('order', 30), ('equality', 20), ('ordering-query', 12), ('identity-query', 9)):
        ctx.need(r, n)
