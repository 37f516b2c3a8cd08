"""L01: emitted C expressions denote the recorded operation."""
import itertools
import math

from .. import facts
from ..absint import AStr, Cell, Interp, NULL, Obj, Ptr, Term, Vec
from ..cexpr import CSyntax, parse_expr, parse_stmts
from ..cgmodel import NoMeaning, SEM1, SEM2, SEM4, ev, same
from ..lang import BIN, COM, LangDriver, UN, text_of

SPEC = {'technique': 'abstract interpretation of the C emitter over every operation code and every nesting of two (thorough: three) operation '
                     'codes with named/constant operands; the abstract output text is parsed with C precedence and its meaning compared with '
                     'the meaning of the node', 'level': 'other',
        'assumptions': ['operands are finite numbers; re-association a*(b/c) = (a*b)/c is accepted (real arithmetic)']}
CFN = {'Abs': 'fabs', 'Acos': 'acos', 'Asin': 'asin', 'Atan': 'atan', 'Cosh': 'cosh', 'Cos': 'cos', 'Exp': 'exp', 'Log': 'log', 'Sinh': 'sinh',
       'Sin': 'sin', 'Sqrt': 'sqrt', 'Tanh': 'tanh', 'Tan': 'tan', 'Erf': 'erf', 'Erfc': 'erfc', 'Asinh': 'asinh', 'Acosh': 'acosh',
       'Atanh': 'atanh', 'Expm1': 'expm1', 'Log1p': 'log1p', 'Pow': 'pow'}
CMEAN = {v: SEM1[k] for k, v in CFN.items() if k in SEM1}
CMEAN['pow'] = math.pow


def cev(t, env):
    """meaning of a parsed C expression"""
    if isinstance(t, (int, float)):
        return t
    if not t.args:
        if t.op in env:
            return env[t.op]
        raise NoMeaning('identifier ' + t.op)
    if t.op.startswith('call:'):
        n = t.op[5:]
        f = CMEAN.get(n) or (CMEAN.get(n[:-1]) if n.endswith('f') and n != 'erf' else None)
        if f is None:
            raise NoMeaning('function ' + n)
        try:
            return f(*[cev(a, env) for a in t.args])
        except TypeError:
            raise NoMeaning('%s with %d arguments' % (n, len(t.args)))
    a = [cev(x, env) for x in t.args]
    if t.op == '?:':
        return a[1] if a[0] else a[2]
    if t.op == 'neg':
        return -a[0]
    if t.op == '!':
        return not a[0]
    if t.op == '/' and isinstance(a[0], int) and isinstance(a[1], int) and not isinstance(a[0], bool):
        r = abs(a[0]) // abs(a[1])
        return r if (a[0] < 0) == (a[1] < 0) else -r
    f = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y, '<': lambda x, y: x < y,
         '<=': lambda x, y: x <= y, '>': lambda x, y: x > y, '>=': lambda x, y: x >= y, '==': lambda x, y: x == y, '!=': lambda x, y: x != y,
         '%': lambda x, y: math.fmod(x, y), '&&': lambda x, y: bool(x) and bool(y), '||': lambda x, y: bool(x) or bool(y)}.get(t.op)
    if f is None:
        raise NoMeaning(t.op)
    return f(*a)


PTS = [(1.0, 2.0, 3.0, 2.0), (3.0, 1.0, 4.0, 5.0), (0.37, 0.61, 0.83, 0.29), (1.7, 2.3, 0.9, 1.2), (-0.4, 0.7, -1.3, 2.1), (0.55, -0.45, 0.65, -0.15), (1.25, 1.25, 0.5, 0.5),
       (-2.5, 1.5, -0.5, -1.75), (0.9, 0.2, 3.1, 0.4)]
VARS = ['A', 'B', 'C', 'D']


def check_same(sem, parsed):
    n = 0
    for p in PTS:
        env = dict(zip(VARS, p))
        try:
            x = sem(env)
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            continue
        if isinstance(x, complex):
            continue
        try:
            y = cev(parsed, env)
        except (ValueError, ZeroDivisionError, OverflowError):
            return 'expected %r at %s, the emitted expression is undefined' % (x, env), n
        if isinstance(y, complex) or not same(x, y):
            return 'expected %r at %s, the emitted expression gives %r' % (x, env, y), n
        n += 1
    return None, n


class Shape:
    """operation tree over leaves: ('v', name) ('p', value) (op, child...)"""


def sem_of(s):
    if s[0] == 'v':
        return lambda env: env[s[1]]
    if s[0] == 'p':
        return lambda env: s[1]
    ch = [sem_of(c) for c in s[1:]]
    o = s[0]
    if o in SEM1:
        return lambda env: SEM1[o](ch[0](env))
    if o in SEM2:
        return lambda env: SEM2[o](ch[0](env), ch[1](env))
    return lambda env: (ch[2] if SEM4[o](ch[0](env), ch[1](env)) else ch[3])(env)


def show(s):
    if s[0] in ('v', 'p'):
        return str(s[1])
    return '%s(%s)' % (s[0], ', '.join(show(c) for c in s[1:]))


def has_var(s):
    return s[0] == 'v' or (s[0] != 'p' and any(has_var(c) for c in s[1:]))


class Emit:
    def __init__(self, ctx, fx, base='double'):
        self.ctx, self.fx, self.base = ctx, fx, base
        self.d = LangDriver(fx, 'LanguageC', base)
        self.entry = self.d.fid('pushExpressionNoVarCheck2')
        self.visited = set()

    def build(self, s, names):
        d = self.d
        if s[0] == 'v':
            return d.m.arg_node(names.setdefault(s[1], d.leaf(s[1])))
        if s[0] == 'p':
            return d.m.arg_par(float(s[1]))
        return d.m.arg_node(d.inner(s[0], [self.build(c, names) for c in s[1:]]))

    def emit(self, s, entry=None, setup=None):
        """list of (text or None, problem)"""
        d = self.d
        it = Interp(self.fx, hooks=d.hooks(), max_paths=60)
        code = d.q('_code')

        def body(itp):
            d.ids.clear()
            d.keep = []
            cell = d.make(itp)
            top = self.build(s, {})
            node = itp.deref(top.f[d.m.a_node].v)
            if setup:
                setup(node.v)
            itp.call(entry or self.entry, cell, [node])
            return itp.field(cell, code).v.s()
        res = []
        for o in it.explore(body):
            self.ctx.count('abstract paths')
            if o[0] == 'ok':
                res.append((o[1], None))
            elif o[0] == 'throw':
                res.append((None, 'throws %s at %s' % (o[1].typ.split('::')[-1], o[1].line)))
            else:
                res.append((None, o[1]))
        self.visited |= it.visited
        return res

    def ident(self, n):
        return Term(n)

    def check(self, s, rule, key):
        ctx = self.ctx
        for text, prob in self.emit(s):
            lab = show(s)
            if text is None:
                if prob.startswith('throws'):
                    ctx.bad(rule, key + '/throws', self.fx.loc(self.entry), '%s: %s' % (lab, prob))
                else:
                    ctx.unk(rule, '%s: %s' % (lab, prob))
                continue
            holes = {}
            tx = text_of(text, holes)
            if holes:
                ctx.unk(rule, '%s: opaque text %s' % (lab, list(holes.values())[:2]))
                continue
            tx = tx.replace('#', ' ')
            try:
                e = parse_expr(tx)
                w, n = check_same(sem_of(s), e)
            except CSyntax as ex:
                ctx.bad(rule, key + '/syntax', self.fx.loc(self.entry), '%s is emitted as "%s": %s' % (lab, tx, ex))
                continue
            except NoMeaning as ex:
                ctx.bad(rule, key + '/meaning', self.fx.loc(self.entry), '%s is emitted as "%s": no C meaning for %s' % (lab, tx, ex))
                continue
            if w:
                ctx.bad(rule, key + '/value', self.fx.loc(self.entry), '%s is emitted as "%s": %s' % (lab, tx, w))
            elif n == 0:
                ctx.unk(rule, lab + ': no point in the domain')
            else:
                ctx.ok(rule, '%s -> %s' % (lab, tx))

    def check_cond(self, op, ops, rule, key):
        """conditional assignment statement"""
        s = (op,) + tuple(ops)
        ctx = self.ctx

        def setup(n):
            n.tag = 'R'
            self.d.ids[id(n)] = 300
        for text, prob in self.emit(s, setup=setup):
            lab = show(s)
            if text is None:
                (ctx.bad(rule, key + '/throws', self.fx.loc(self.entry), lab + ': ' + prob) if prob.startswith('throws') else
                 ctx.unk(rule, lab + ': ' + prob))
                continue
            holes = {}
            tx = text_of(text, holes).replace('#', ' ')
            if holes:
                ctx.unk(rule, '%s: opaque text' % lab)
                continue
            try:
                st = parse_stmts(tx)
            except CSyntax as ex:
                ctx.bad(rule, key + '/syntax', self.fx.loc(self.entry), '%s is emitted as "%s": %s' % (lab, tx, ex))
                continue
            bad = None
            n = 0
            vals = [0.5, 0.25, -1.5]
            for p in itertools.product(vals, repeat=4):
                env = dict(zip(VARS, p))
                x = sem_of(s)(env)
                try:
                    y = exec_c(st, dict(env)).get('R')
                except NoMeaning as ex:
                    bad = 'no C meaning for %s' % ex
                    break
                n += 1
                if y is None or not same(x, y):
                    bad = 'expected %r at %s, assigned %r' % (x, env, y)
                    break
            if bad:
                ctx.bad(rule, key + '/value', self.fx.loc(self.entry), '%s is emitted as "%s": %s' % (lab, ' '.join(tx.split()), bad))
            else:
                ctx.ok(rule, '%s -> %s' % (lab, ' '.join(tx.split())))


def exec_c(st, env):
    for s in st:
        if s[0] == 'if':
            exec_c(s[2] if cev(s[1], env) else s[3], env)
        elif s[0] == 'block':
            exec_c(s[1], env)
        elif s[0] == '=':
            if s[2].args:
                raise NoMeaning('assignment target')
            v = cev(s[3], env)
            env[s[2].op] = v if s[1] == '=' else env[s[2].op] + v
        elif s[0] == 'expr':
            cev(s[1], env)
        else:
            raise NoMeaning(s[0])
    return env


def run_base(ctx, fx, base):
    e = Emit(ctx, fx, base)
    v = lambda n: ('v', n)
    tag = '' if base == 'double' else 'float:'
    # depth 1, all operand kinds
    for u in UN:
        e.check((u, v('A')), 'unary', tag + u)
    for k in (('UnMinus', v('A')), ('Alias', v('A'))):
        e.check(k, 'unary', tag + k[0])
    pars = [2.5, 3.0, -2.5, -3.0, 1.0, -1.0, 0.0, 1e-7]
    if base == 'double':
        pars.append(123456789.0)
    for b in BIN:
        e.check((b, v('A'), v('B')), 'binary', tag + b)
        for p in pars:
            if not (b == 'Div' and p == 0):
                e.check((b, v('A'), ('p', p)), 'binary', tag + b + '-par')
            e.check((b, ('p', p), v('B')), 'binary', tag + 'par-' + b)
    e.check(('Sign', v('A')), 'unary', tag + 'Sign')
    # depth 2: every operation inside every operation, at every position
    inner = [(u, v('C')) for u in (UN if ctx.thorough else ['Abs', 'Exp', 'Sin'])]
    inner += [('UnMinus', v('C'))] + [(b, v('C'), v('D')) for b in BIN]
    inner += [(b, ('p', p), v('D')) for b in BIN for p in (-2.5, 3.0, -1.0)] + [(b, v('D'), ('p', p)) for b in BIN for p in (-2.5, 3.0)]
    inner += [('Alias', x) for x in (('Add', v('C'), v('D')), ('Sub', v('C'), v('D')), ('Mul', v('C'), v('D')), ('Div', v('C'), v('D')),
                                     ('UnMinus', v('C')), ('Alias', ('Add', v('C'), v('D'))))]
    for u in (UN if ctx.thorough else ['Abs', 'Exp', 'Sqrt']) + ['UnMinus', 'Alias']:
        for i in inner:
            e.check((u, i), 'nested', '%s%s(%s)' % (tag, u, i[0]))
    for b in BIN:
        for i in inner:
            e.check((b, v('A'), i), 'nested', '%s%s(.,%s)' % (tag, b, i[0]))
            e.check((b, i, v('A')), 'nested', '%s%s(%s,.)' % (tag, b, i[0]))
            e.check((b, i, ('p', -2.5)), 'nested', '%s%s(%s,par)' % (tag, b, i[0]))
            if i[0] != 'Alias' and ctx.thorough:
                for p in (3.0, -1.0, 0.5):
                    e.check((b, ('p', p), i), 'nested', '%spar %s(%s)' % (tag, b, i[0]))
    # depth 3 over the operators that depend on precedence
    ar = ['Add', 'Sub', 'Mul', 'Div', 'UnMinus'] + (['Pow', 'Exp'] if ctx.thorough else [])

    def mk(o, x, y):
        return (o, x) if o in ('UnMinus', 'Exp') else (o, x, y)
    for a, b, c in itertools.product(ar, ar, ar):
        lo = mk(c, v('C'), v('D'))
        for s in ([mk(a, mk(b, lo, v('B')), v('A'))], [(a, v('A'), mk(b, v('B'), lo))] if a not in ('UnMinus', 'Exp') else [],
                  [(a, mk(b, v('B'), lo), v('A'))] if a not in ('UnMinus', 'Exp') and b not in ('UnMinus', 'Exp') else [],
                  [(a, v('A'), mk(b, lo, v('B')))] if a not in ('UnMinus', 'Exp') and ctx.thorough else []):
            for x in s:
                e.check(x, 'nested3', '%s%s' % (tag, '/'.join((a, b, c))))
    # conditional assignment
    for c in COM:
        for ops in itertools.product((v('A'), ('p', 0.5)), (v('B'), ('p', -1.5)), (v('C'), ('p', 0.25)), (v('D'), ('p', -1.5))):
            if ops[0][0] == 'p' and ops[1][0] == 'p':
                continue
            e.check_cond(c, ops, 'conditional', tag + c)
        e.check_cond(c, (v('A'), v('B'), v('C'), v('C')), 'conditional', tag + c + ' equal branches')
        e.check_cond(c, (('Add', v('A'), v('B')), ('Mul', v('A'), v('B')), ('Sub', v('A'), v('C')), ('UnMinus', v('D'))), 'conditional',
                     tag + c + ' of expressions')
    ctx.count('emitter functions analysed', len(e.visited))
    # operations that read an operand by its name force that operand to be a variable
    rv = e.d.fid('requiresVariableArgument')
    for op, idx in (('Sign', 0),):
        it = Interp(fx, hooks=e.d.hooks())
        for o in it.explore(lambda i: i.call(rv, Cell(Obj(e.d.cls), e.d.cls), [Cell(e.d.m.ops[op]), Cell(idx)])):
            if o[0] == 'ok' and o[1] is True:
                ctx.ok('named-operand', op)
            elif o[0] == 'ok' and o[1] is False:
                ctx.bad('named-operand', tag + op, fx.loc(rv), 'the operand of %s is written by name but is not required to be a variable' % op)
            else:
                ctx.unk('named-operand', str(o[1]))


def run(ctx):
    run_base(ctx, facts.facts('main'), 'double')
    for r, n in (('unary', 20), ('binary', 60), ('nested', 300), ('nested3', 100), ('conditional', 60)):
        ctx.need(r, n)
    if ctx.thorough:
        run_base(ctx, facts.facts('float'), 'float')
