"""Small parser for emitted C expressions and statements (C precedence), producing value numbers."""
import re

from .absint import AStr, Term

TOK = re.compile(r'\s*(?:(\d+\.?\d*(?:[eE][-+]?\d+)?[uUlLfF]*|\.\d+)|([A-Za-z_]\w*)|(\+\+|--|\+=|-=|\*=|/=|->|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%<>=!?:;,(){}\[\].&|^~#]))')


class CSyntax(Exception):
    pass


def tokens(s):
    out, i = [], 0
    s = re.sub(r'/\*.*?\*/|//[^\n]*', ' ', s, flags=re.S)
    while True:
        while i < len(s) and s[i].isspace():
            i += 1
        if i >= len(s):
            return out
        if s[i] == '"':
            j = i + 1
            while j < len(s) and s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            if j >= len(s):
                raise CSyntax('unterminated string')
            out.append(('str', s[i:j + 1]))
            i = j + 1
            continue
        m = TOK.match(s, i)
        if not m:
            raise CSyntax('unexpected text %r' % s[i:i + 20])
        if m.group(1):
            out.append(('num', m.group(1)))
        elif m.group(2):
            out.append(('id', m.group(2)))
        else:
            out.append(('op', m.group(3)))
        i = m.end()


PREC = [('||',), ('&&',), ('|',), ('^',), ('&',), ('==', '!='), ('<', '>', '<=', '>='), ('<<', '>>'), ('+', '-'), ('*', '/', '%')]


class P:
    def __init__(self, text, ident=None, intdiv=False):
        self.t = tokens(text)
        self.i = 0
        self.ident = ident or (lambda n: Term(n))

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def op(self, o):
        if self.peek() == ('op', o):
            self.i += 1
            return True
        return False

    def need(self, o):
        if not self.op(o):
            raise CSyntax('expected %r before %r' % (o, ' '.join(x[1] for x in self.t[self.i:self.i + 6])))

    def done(self):
        return self.i >= len(self.t)

    def expr(self):
        c = self.binary(0)
        if self.op('?'):
            a = self.expr()
            self.need(':')
            b = self.expr()
            return Term('?:', c, a, b)
        return c

    def binary(self, lv):
        if lv == len(PREC):
            return self.unary()
        a = self.binary(lv + 1)
        while self.peek()[0] == 'op' and self.peek()[1] in PREC[lv]:
            o = self.peek()[1]
            self.i += 1
            b = self.binary(lv + 1)
            a = Term(o, a, b)
        return a

    def unary(self):
        k, v = self.peek()
        if k == 'op' and v in ('-', '+', '!', '~', '*', '&'):
            self.i += 1
            a = self.unary()
            return {'-': lambda: Term('neg', a), '+': lambda: a, '!': lambda: Term('!', a)}.get(v, lambda: Term('un' + v, a))()
        if k == 'op' and v in ('++', '--'):
            raise CSyntax('%s applied to an expression' % v)
        return self.postfix()

    def postfix(self):
        a = self.primary()
        while True:
            if self.op('['):
                i = self.expr()
                self.need(']')
                a = Term('idx', a, i)
            elif self.op('('):
                args = []
                if not self.op(')'):
                    while True:
                        args.append(self.expr())
                        if self.op(')'):
                            break
                        self.need(',')
                a = Term('call:' + (a.op if isinstance(a, Term) and not a.args else repr(a)), *args)
            elif self.op('.'):
                a = Term('.' + self.peek()[1], a)
                self.i += 1
            elif self.op('->'):
                a = Term('->' + self.peek()[1], a)
                self.i += 1
            elif self.peek() in (('op', '++'), ('op', '--')):
                o = self.peek()[1]
                self.i += 1
                a = Term('post' + o, a)
            else:
                return a

    def primary(self):
        k, v = self.peek()
        if k == 'num':
            self.i += 1
            x = v.rstrip('uUlLfF')
            return float(x) if ('.' in x or 'e' in x.lower()) else int(x)
        if k == 'id':
            self.i += 1
            return self.ident(v)
        if k == 'str':
            self.i += 1
            return AStr((v,))
        if self.op('('):
            a = self.expr()
            self.need(')')
            return a
        raise CSyntax('expected an expression before %r' % ' '.join(str(x[1]) for x in self.t[self.i:self.i + 6]))

    # ---- statements: ('=', op, lhs, rhs) ('if', c, A, B) ('for', ...) ('expr', e) ('decl', ...)
    def stmts(self):
        out = []
        while not self.done() and self.peek() != ('op', '}'):
            s = self.statement()
            if s:
                out.append(s)
        return out

    def block(self):
        if self.op('{'):
            b = self.stmts()
            self.need('}')
            return b
        s = self.statement()
        return [s] if s else []

    def statement(self):
        if self.op(';'):
            return None
        if self.peek() == ('op', '{'):
            return ('block', self.block())
        k, v = self.peek()
        if (k, v) == ('id', 'if'):
            self.i += 1
            self.need('(')
            c = self.expr()
            self.need(')')
            a = self.block()
            b = []
            if self.peek() == ('id', 'else'):
                self.i += 1
                b = self.block()
            return ('if', c, a, b)
        if (k, v) == ('id', 'for'):
            self.i += 1
            self.need('(')
            i = self.simple()
            self.need(';')
            c = self.expr()
            self.need(';')
            s = self.simple()
            self.need(')')
            return ('for', i, c, s, self.block())
        s = self.simple()
        self.need(';')
        return s

    def simple(self):
        e = self.expr()
        for o in ('=', '+=', '-=', '*=', '/='):
            if self.op(o):
                return ('=', o, e, self.expr())
        return ('expr', e)


def parse_expr(text, ident=None):
    p = P(text, ident)
    e = p.expr()
    if not p.done():
        raise CSyntax('trailing text %r' % ' '.join(x[1] for x in p.t[p.i:p.i + 6]))
    return e


def parse_stmts(text, ident=None):
    p = P(text, ident)
    s = p.stmts()
    if not p.done():
        raise CSyntax('trailing text %r' % ' '.join(x[1] for x in p.t[p.i:p.i + 6]))
    return s


def numtext(t):
    """text of a printed number hole"""
    if isinstance(t, Term) and t.op == 'num':
        v = t.args[0]
        if isinstance(v, float) and v == int(v) and abs(v) < 1e15:
            return str(int(v))
        return repr(v)
    return None
