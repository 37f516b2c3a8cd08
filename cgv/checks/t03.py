"""T03: multithreaded sparse Jacobians and Hessians of generated models: the jobs that can run at the same time use disjoint memory, all of
them end before the function returns, and the results are those of the sequential evaluation for every order of the jobs."""
import random

from .. import facts
from ..absint import Cell, Term, UNDEFINED
from ..cexec import darray
from ..cgmodel import NS
from ..modelrun import Linked, xs
from ..par import pmap
from . import m01

SPEC = {'technique': 'effect analysis: the multithreaded C sources written by the (abstractly interpreted) generator are interpreted job by job, the memory read and '
                     'written by each job is recorded and compared',
        'level': 'other',
        'assumptions': ['atomic functions provided by the user can be called from several threads', 'the thread pool runs each queued job once (T01, T02)',
                        'malloc succeeds (the generated code does not test it)']}


def cases(thorough):
    out = []
    M = m01.models()
    off = dict.fromkeys(m01.ALL, False)

    def add(label, md, atomics=0, **o):
        for mt in ('PTHREADS', 'OPENMP'):
            out.append(('%s %s' % (mt, label), dict(md, atomics=atomics), dict(o, mt=mt, MultiThreading=True)))
    for k in M:
        for mode in ('Forward', 'Reverse'):
            add('%s %s' % (k, mode), M[k], 1 if k == 'base' else 0,
                **dict(off, CreateSparseJacobian=True, CreateSparseHessian=True, CreateForwardOne=True, CreateReverseOne=True, CreateReverseTwo=True, JacobianADMode=mode))
    J = M['base']['jac']
    H = [(0, 0), (0, 1), (1, 0), (1, 1), (0, 2), (2, 0)]
    on = dict(off, CreateSparseJacobian=True, CreateSparseHessian=True, CreateForwardOne=True, CreateReverseOne=True, CreateReverseTwo=True)
    for mode in ('Forward', 'Reverse'):
        for name, jj, hh in (('reversed', J[::-1], H[::-1]), ('shuffled', [J[k] for k in (3, 0, 5, 1, 4, 2)], [H[k] for k in (2, 5, 0, 3, 4, 1)]),
                             ('some', [J[5], J[1], J[2]], [(1, 0), (0, 2), (1, 1)])):
            add('custom %s %s' % (name, mode), M['base'], **dict(on, JacobianADMode=mode, CustomSparseJacobianElements=([i for i, _ in jj], [j for _, j in jj]),
                                                               CustomSparseHessianElements=([i for i, _ in hh], [j for _, j in hh])))
    for seed in range(150 if thorough else 12):
        label, md, o = m01.random_case(50000 + seed)
        o = {k: v for k, v in o.items() if k.startswith('Custom') or k in ('JacobianADMode', 'MaxAssignmentsPerFunc')}
        at = md.pop('atomics')
        if seed % 2 and md['jac']:
            r = random.Random(seed)
            el = list(md['jac'])
            r.shuffle(el)
            o['CustomSparseJacobianElements'] = ([i for i, _ in el], [j for _, j in el])
        add(label, md, at, **dict(on, **o))
    return out


def decide(fx, case):
    label, fd, o = case
    fun, it, res = m01.generate(fx, case)
    out = []
    for r in res:
        if r[0] != 'ok':
            out.append(('results', 'unk' if r[0] == 'abort' and not UNDEFINED.search(str(r[1])) else 'bad', '%s: the generation ends with %s' % (label, r[1])))
            continue
        L = Linked(fx, r[1])
        if L.err:
            out.append(('results', 'bad', '%s: %s: %s' % ((label,) + L.err[0])))
            continue
        jp = m01.elements(o['CustomSparseJacobianElements']) if 'CustomSparseJacobianElements' in o else list(fun.jac)
        hp = m01.elements(o['CustomSparseHessianElements']) if 'CustomSparseHessianElements' in o else fun.hpat(range(fun.m))
        v = m01.Verify(L, fun, o, jp, hp)
        v.describe()
        v.out = []
        x = xs(fun.n)
        w = [Term('w%d' % i) for i in range(fun.m)]

        def twice(fc, pc, ins, ref, what, exp):
            def f(it, name):
                rows, cols = v.pattern(it, L.fn(pc))
                for k in range(2):
                    b = it.regions
                    _, y = v.call(it, name, ins, len(rows))
                    if exp and it.regions == b:
                        return 'nothing runs in parallel'
                    p = v.cmp(y, lambda e, x, w, d: ref(rows[e], cols[e], x, w), 'call %d: element' % (k + 1))
                    if p:
                        return p
            for kw in (dict(), dict(order='backward'), dict(bench=1), dict(bench=5, order='backward', verbose=1), dict(disabled=1)):
                n = len(v.out)
                v.do('results', fc, f, **kw)
                for k in range(n, len(v.out)):
                    rule, verdict, txt = v.out[k]
                    if verdict == 'ok':
                        v.out.append(('independent', 'ok', txt))
                    elif ': race:' in txt:
                        v.out[k] = ('independent', verdict, txt)
        twice('FUNCTION_SPARSE_JACOBIAN', 'FUNCTION_JACOBIAN_SPARSITY', [x], lambda i, j, x, w: fun.j(i, j, x), 'Jacobian', bool(jp))
        twice('FUNCTION_SPARSE_HESSIAN', 'FUNCTION_HESSIAN_SPARSITY', [x, w], lambda i, j, x, w: fun.h(i, j, x, w), 'Hessian', bool(hp))
        out += [(a, b, '%s: %s' % (label, t)) for a, b, t in v.out]
    return out, it.visited, it.unmodelled


def run(ctx):
    fx = facts.facts('main')
    where = fx.loc(fx.find(NS + 'ModelCSourceGen::generateSources')[0])
    cs = cases(ctx.thorough)
    vis, unm = set(), {}
    for c, (out, v, u) in zip(cs, pmap(lambda c: decide(fx, c), cs)):
        ctx.count('models')
        vis |= v
        for k, n in u.items():
            unm[k] = unm.get(k, 0) + n
        for rule, verdict, txt in out:
            if verdict == 'ok':
                ctx.ok(rule, txt)
            elif verdict == 'unk':
                ctx.unk(rule, txt)
            else:
                ctx.bad(rule, '%s %s' % (c[2]['mt'], txt.split(': ')[1]), where, txt)
    ctx.count('functions analysed', len(vis))
    ctx.count('functions taken as opaque', len(unm))
    for r in ('results', 'independent'):
        ctx.need(r, 6 * len(cs))
