"""O02: an expression never mixes operands of two recording sessions."""
import itertools

from .. import facts
from ..absint import Cell, Interp, NULL, Obj, Term, Vec
from ..cgmodel import Model
from .o01 import Case, base_hooks, double_only, is_cg

SPEC = {'technique': 'abstract interpretation of every recording entry point with operands of two distinct recording sessions: each path '
                     'either throws or yields a node whose whole argument tree belongs to one session', 'level': 'other',
        'assumptions': ['assertions compiled out (release configuration)']}


def sessions(m, it, o, out, seen=None):
    """sessions of all nodes reachable from a CG result / node"""
    seen = set() if seen is None else seen
    if id(o) in seen:
        return
    seen.add(id(o))
    if o.cls == m.CG:
        n = it.field(Cell(o, m.CG), m.cg_node).v
        if n is not NULL:
            sessions(m, it, it.deref(n).v, out, seen)
        return
    h = o.f[m.n_handler].v
    out.add(it.deref(h).v.tag if h is not NULL else None)
    a = o.f.get(m.n_args)
    if a is not None and isinstance(a.v, Vec):
        for c in a.v.c:
            p = c.v.f.get(m.a_node)
            if p is not None and p.v is not NULL and p.v is not None:
                sessions(m, it, it.deref(p.v).v, out, seen)


def run(ctx):
    fx = facts.facts('main')
    m = Model(fx)
    ctx.visited = set()

    def case(fid, kinds, hs, label, rule, pre=(), member=False):
        it = Interp(fx, hooks=base_hooks())
        H = {}

        def body(itp):
            h1, h2 = m.handler('H1'), m.handler('H2')
            c = Case(m, kinds, ['X', 'Y', 'Z', 'W'][:len(kinds)], handlers=[h1 if x == 1 else h2 for x in hs])
            if member:
                itp.call(fid, c.cells[0], c.cells[1:])
                r = c.cells[0].v
            else:
                r = itp.call(fid, None, list(pre) + c.cells)
                r = r.v if isinstance(r, Cell) else r
            out = set()
            sessions(m, itp, r, out)
            return out
        for o in it.explore(body):
            ctx.count('abstract paths')
            lab = '%s %s sessions %s' % (label, kinds, hs)
            if o[0] == 'abort':
                ctx.unk(rule, lab + ': ' + o[1])
            elif o[0] == 'throw':
                ctx.ok(rule, lab + ' throws ' + str(o[1].typ).split('::')[-1])
            elif len(o[1]) > 1:
                ctx.bad(rule, label, fx.loc(fid), '%s records a node mixing two sessions without throwing' % lab)
            else:
                ctx.ok(rule, lab + ' -> one session')
        ctx.visited |= it.visited

    vk = ['var', 'varval']
    for op in '+-*/':
        ids = [i for i in fx.find('CppAD::cg::operator' + op) if double_only(fx, i) and len(fx.funcs[i]['p']) == 2 and all(map(is_cg, fx.ptypes(i)))]
        ids2 = [i for i in fx.find('CppAD::cg::CG::operator%s=' % op, clsx=m.CG) if len(fx.funcs[i]['p']) == 1]
        if not ids or not ids2:
            raise facts.AnalysisError('anchor not found: operator' + op)
        for fid in ids:
            for k in itertools.product(vk, vk):
                case(fid, list(k), [1, 2], 'operator' + op, 'binary')
        for fid in ids2:
            pt = fx.ptypes(fid)[0]
            for k in itertools.product(vk, vk if is_cg(pt) else ['argvar'] if 'Argument<' in pt else []):
                case(fid, list(k), [1, 2], 'operator%s=' % op, 'compound', member=True)
    for fid in fx.find('CppAD::pow'):
        if double_only(fx, fid) and all(map(is_cg, fx.ptypes(fid))):
            for k in itertools.product(vk, vk):
                case(fid, list(k), [1, 2], 'pow', 'math')
    for fid in [i for i in fx.find('CppAD::azmul') if double_only(fx, i)]:
        for k in itertools.product(vk, vk):
            case(fid, list(k), [1, 2], 'azmul', 'math')
    en = fx.enum('CppAD::CompareOp')
    for fid in [i for i in fx.find('CppAD::CondExpOp') if is_cg(fx.ptypes(i)[1]) and double_only(fx, i)]:
        for cn in ('CompareLt', 'CompareLe', 'CompareEq', 'CompareGe', 'CompareGt'):
            for kinds in itertools.product(['par', 'varval', 'var'] if ctx.thorough else ['par', 'var'], repeat=4):
                nv = [i for i, k in enumerate(kinds) if k != 'par']
                if len(nv) < 2:
                    continue
                for odd in nv:
                    hs = [2 if i == odd else 1 for i in range(4)]
                    case(fid, list(kinds), hs, 'CondExpOp(%s)' % cn, 'cond', pre=(Cell(en[cn], 'CppAD::CompareOp'),))
    # session lookup for atomic function arguments
    for fid in fx.find('CppAD::cg::BaseAbstractAtomicFun::findHandler'):
        pt = fx.ptypes(fid)[0]
        if 'double' not in pt:
            continue
        for kinds in itertools.product(['par', 'var'], repeat=3):
            nv = [i for i, k in enumerate(kinds) if k != 'par']
            if len(nv) < 2:
                continue
            for odd in nv:
                hs = [2 if i == odd else 1 for i in range(3)]
                it = Interp(fx, hooks=base_hooks())

                def body(itp):
                    h1, h2 = m.handler('H1'), m.handler('H2')
                    c = Case(m, kinds, ['X', 'Y', 'Z'], handlers=[h1 if x == 1 else h2 for x in hs])
                    v = Vec([Cell(x.v, m.CG) for x in c.cells], m.CG, pt.replace('const ', '').split('<')[0].strip())
                    return itp.call(fid, None, [Cell(v, pt.replace('const ', '').rstrip('& '))])
                for o in it.explore(body):
                    lab = 'findHandler %s sessions %s' % (kinds, hs)
                    if o[0] == 'abort':
                        ctx.unk('atomic', lab + o[1])
                    elif o[0] == 'throw':
                        ctx.ok('atomic', lab)
                    else:
                        ctx.bad('atomic', 'findHandler', fx.loc(fid), lab + ': operands of two sessions are accepted')
                ctx.visited |= it.visited
    ctx.count('functions analysed', len(ctx.visited))
    for r, n in (('binary', 16), ('compound', 16), ('math', 4), ('cond', 60)):
        ctx.need(r, n)
