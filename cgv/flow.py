"""Disjunctive (powerset) dataflow over the structured syntax tree of the resolved program.

A client supplies a finite state domain (hashable states) and the effect of expressions:
  leaf(n, st, role, eng)   -> None (no effect) or a list of ('n', state) / ('t', state) outcomes, 'n' normal, 't' throws
  test(n, st, truth, eng)  -> list of states in which the atomic condition n has this truth value (default [st])
  enter(n, fid, st, eng)   -> callee entry state to analyse the callee's body, or None to treat the call as a leaf
  leave(n, fid, st, cst, eng) -> caller state after the callee finished in cst
  scope(ids, st, eng)      -> list of outcomes when the locals in ids go out of scope
  on_stmt(n, st, eng)      -> called for every statement with every state reaching it
Roles of an lvalue expression: 'r' read, 'w' written, 'rw' both, 'addr' address taken.
"""
from .facts import AnalysisError

LIMIT = 4000


class Out:
    __slots__ = ('n', 'brk', 'cont', 'ret', 'thr')

    def __init__(self, n=()):
        self.n, self.brk, self.cont, self.ret, self.thr = set(n), set(), set(), set(), set()

    def absorb(self, o, parts=('brk', 'cont', 'ret', 'thr')):
        for p in parts:
            getattr(self, p).update(getattr(o, p))


class Client:
    def leaf(self, n, st, role, eng):
        return None

    def test(self, n, st, truth, eng):
        return [st]

    def enter(self, n, fid, st, eng):
        return None

    def leave(self, n, fid, st, cst, eng):
        return cst

    def scope(self, ids, st, eng):
        return None

    def on_stmt(self, n, st, eng):
        pass

    TRUTH = False  # track the truth value of stored conditions through bind()

    def bind(self, key, st, truth, eng):
        return st


class Flow:
    def __init__(self, fx, client):
        self.fx, self.c = fx, client
        self.memo = {}
        self.active = {}
        self.stack = []
        self.visited = set()
        self.thr = None

    # ---- functions -----------------------------------------------------------------------------
    def func(self, fid, st):
        """(normal exit states, throw exit states)"""
        key = (fid, st)
        if key in self.memo:
            return self.memo[key]
        if key in self.active:
            self.active[key][2] = True
            return self.active[key][0], self.active[key][1]
        self.active[key] = [set(), set(), False]
        self.visited.add(fid)
        body = self.fx.bodies[fid]
        while True:
            before = set(self.memo)
            self.stack.append(fid)
            saved, self.thr = self.thr, set()
            S = {st}
            for i in body.get('inits', ()):
                S = self.ev(i['e'], S)
                S = self._leaf(dict(k='init', f=i.get('f'), e=i['e'], l=i.get('l'), base=i.get('base')), S, 'r')
            o = self.stmt(body['b'], S)
            thr = o.thr | self.thr
            self.thr = saved
            self.stack.pop()
            res = (o.n | o.ret, thr)
            cur = self.active[key]
            if not cur[2] or (res[0] <= cur[0] and res[1] <= cur[1]):
                break
            cur[0] |= res[0]
            cur[1] |= res[1]
            for k in [k for k in self.memo if k not in before]:
                del self.memo[k]  # computed from an incomplete summary
        del self.active[key]
        if not self.active or not cur[2]:
            self.memo[key] = res
        return res

    @property
    def where(self):
        return self.stack[-1] if self.stack else None

    # ---- statements ----------------------------------------------------------------------------
    def stmt(self, n, S):
        out = Out()
        if n is None:
            out.n = set(S)
            return out
        if not S:
            return out
        if len(S) > LIMIT:
            raise AnalysisError('too many dataflow states')
        k = n['k']
        for st in S:
            self.c.on_stmt(n, st, self)
        saved, self.thr = self.thr, set()
        getattr(self, 's_' + k, self.s_unknown)(n, set(S), out)
        out.thr |= self.thr
        self.thr = saved
        return out

    def s_unknown(self, n, S, out):
        raise AnalysisError('statement kind %s at line %s' % (n['k'], n.get('l')))

    def s_expr(self, n, S, out):
        out.n = self.ev(n['e'], S)

    def s_nop(self, n, S, out):
        out.n = S

    def s_comp(self, n, S, out):
        ids = []
        self._seq(n['b'], S, out, ids)
        if ids:
            for p in ('n', 'brk', 'cont', 'ret', 'thr'):
                setattr(out, p, self._scope(ids, getattr(out, p)))

    def _seq(self, lst, S, out, ids):
        for s in lst:
            if s['k'] == 'decl':
                ids += [v['id'] for v in s['v'] if 'id' in v]
            o = self.stmt(s, S)
            out.absorb(o)
            S = o.n
        out.n = S

    def _scope(self, ids, S):
        r = set()
        for st in S:
            x = self.c.scope(ids, st, self)
            if x is None:
                r.add(st)
            else:
                r.update(s for _, s in x)
        return r

    def s_decl(self, n, S, out):
        for v in n['v']:
            if 'init' in v and v['init'] is not None:
                S = self._truth(v['init'], S, lambda st, t, v=v: self.c.bind(('var', v.get('id')), st, t, self))
            S = self._leaf(dict(v, k='var', l=v.get('l', n.get('l'))), S, 'w')
        out.n = S

    def s_if(self, n, S, out):
        for pre in ('i', 'cv'):
            if n.get(pre):
                o = self.stmt(n[pre], S)
                out.absorb(o)
                S = o.n
        t, f = self.branch(n['c'], S)
        o = self.stmt(n['a'], t)
        out.absorb(o)
        out.n = set(o.n)
        if n.get('b'):
            o = self.stmt(n['b'], f)
            out.absorb(o)
            out.n |= o.n
        else:
            out.n |= f

    def _loop(self, n, S, out, cond, body, step, first=False):
        """generic loop: states at the loop head are iterated to a fixpoint"""
        head, todo = set(), set(S)
        exits = set()
        while todo:
            if len(head) > LIMIT:
                raise AnalysisError('too many loop states')
            head |= todo
            cur = todo
            todo = set()
            if first:
                t = cur
            else:
                t, f = self.branch(cond, cur) if cond is not None else (cur, set())
                exits |= f
            o = self.stmt(body, t)
            out.absorb(o, ('ret', 'thr'))
            exits |= o.brk
            nxt = o.n | o.cont
            if first:
                t, f = self.branch(cond, nxt) if cond is not None else (nxt, set())
                exits |= f
                nxt = t
            elif step is not None and nxt:
                nxt = self.ev(step, nxt)
            todo = nxt - head
        out.n |= exits

    def s_while(self, n, S, out):
        if n.get('cv'):
            o = self.stmt(n['cv'], S)
            S = o.n
        self._loop(n, S, out, n['c'], n['b'], None)

    def s_do(self, n, S, out):
        self._loop(n, S, out, n['c'], n['b'], None, first=True)

    def s_for(self, n, S, out):
        ids = []
        if n.get('i'):
            if n['i']['k'] == 'decl':
                ids = [v['id'] for v in n['i']['v'] if 'id' in v]
            o = self.stmt(n['i'], S)
            out.absorb(o)
            S = o.n
        self._loop(n, S, out, n.get('c'), n['b'], n.get('s'))
        if ids:
            for p in ('n', 'ret', 'thr'):
                setattr(out, p, self._scope(ids, getattr(out, p)))

    def s_rfor(self, n, S, out):
        S = self.ev(n['r'], S)
        head, todo = set(), set(S)
        exits = set(S)
        while todo:
            if len(head) > LIMIT:
                raise AnalysisError('too many loop states')
            head |= todo
            cur = self._leaf(dict(n['v'], k='var', range=n['r'], l=n['v'].get('l', n.get('l'))), todo, 'w')
            o = self.stmt(n['b'], cur)
            out.absorb(o, ('ret', 'thr'))
            exits |= o.brk | o.n | o.cont
            todo = (o.n | o.cont) - head
        out.n |= exits

    def s_switch(self, n, S, out):
        S = self.ev(n['c'], S)
        items = []

        def flat(b):
            if b is None:
                return
            if b['k'] == 'comp':
                for x in b['b']:
                    flat1(x)
            else:
                flat1(b)

        def flat1(x):
            while x is not None and x['k'] in ('case', 'default'):
                items.append((x, None))
                x = x.get('s')
            if x is not None:
                items.append((None, x))
        flat(n['b'])
        labels = [x for x, _ in items if x is not None]
        hasdef = any(x['k'] == 'default' for x in labels)
        cur = set()
        for lab, s in items:
            if lab is not None:
                for st in S:
                    if lab['k'] == 'case':
                        r = self.c.test(dict(k='caseof', c=n['c'], v=lab.get('v'), l=lab.get('l')), st, True, self)
                    else:
                        r = self._not_cases(n, labels, st)
                    cur |= set(r)
                continue
            o = self.stmt(s, cur)
            out.absorb(o, ('cont', 'ret', 'thr'))
            out.n |= o.brk
            cur = o.n
        out.n |= cur
        if not hasdef:
            for st in S:
                out.n |= set(self._not_cases(n, labels, st))

    def _not_cases(self, n, labels, st):
        r = [st]
        for x in labels:
            if x['k'] == 'case':
                nn = []
                for s in r:
                    nn += self.c.test(dict(k='caseof', c=n['c'], v=x.get('v'), l=x.get('l')), s, False, self)
                r = nn
        return r

    def s_case(self, n, S, out):
        o = self.stmt(n.get('s'), S)
        out.absorb(o)
        out.n = o.n

    s_default = s_case

    def s_label(self, n, S, out):
        self.s_case(n, S, out)

    def s_goto(self, n, S, out):
        raise AnalysisError('goto at line %s' % n.get('l'))

    def s_ret(self, n, S, out):
        if n.get('e') is not None:
            S = self._truth(n['e'], S, lambda st, t: self.c.bind(('ret', self.where), st, t, self))
            S = self._leaf(dict(k='retval', e=n['e'], l=n.get('l')), S, 'r')
        out.ret = S

    def _truth(self, e, S, bind):
        """evaluates e; when it is a condition the client learns the truth value it has"""
        x = e
        while x['k'] == 'cast':
            x = x['e']
        if self.c.TRUTH and (x['k'] in ('bin', 'un') and x['op'] in ('&&', '||', '!', '==', '!=', '<', '<=', '>', '>=') or x['k'] in ('bool', 'int') or
                             x['k'] == 'ref' and x.get('dk') in ('local', 'parm') or x['k'] == 'call'):
            t, f = self.branch(e, S)
            return {bind(st, True) for st in t} | {bind(st, False) for st in f}
        return {bind(st, None) for st in self.ev(e, S)}

    def s_break(self, n, S, out):
        out.brk = S

    def s_cont(self, n, S, out):
        out.cont = S

    def s_try(self, n, S, out):
        o = self.stmt(n['b'], S)
        out.absorb(o, ('brk', 'cont', 'ret'))
        out.n = set(o.n)
        pending = o.thr
        catchall = False
        for h in n['h']:
            caught = set(pending)
            if not h.get('ct'):
                catchall = True
            caught = self._leaf(dict(k='catchenter', l=h.get('l')), caught, 'r')
            saved = getattr(self, 'current_exc', None)
            self.current_exc = True
            o2 = self.stmt(h['b'], caught)
            self.current_exc = saved
            out.absorb(o2)
            out.n |= o2.n
        if not catchall:
            out.thr |= pending

    def s_unkstmt(self, n, S, out):
        raise AnalysisError('statement %s at line %s' % (n.get('cls'), n.get('l')))

    # ---- expressions ---------------------------------------------------------------------------
    def _leaf(self, n, S, role):
        r = set()
        for st in S:
            x = self.c.leaf(n, st, role, self)
            if x is None:
                r.add(st)
            else:
                for k, s in x:
                    (r if k == 'n' else self.thr).add(s)
        return r

    def branch(self, n, S):
        """(states where n is true, states where n is false)"""
        k = n['k']
        if k == 'un' and n['op'] == '!':
            t, f = self.branch(n['e'], S)
            return f, t
        if k == 'cast':
            x = n
            while x['k'] == 'cast':
                x = x['e']
            if x['k'] != 'call':
                return self.branch(n['e'], S)
            S = self.ev(n, S)
            n = x
            t, f = set(), set()
            for st in S:
                t.update(self.c.test(n, st, True, self))
                f.update(self.c.test(n, st, False, self))
            return t, f
        if k == 'bin' and n['op'] == '&&':
            t, f = self.branch(n['a'], S)
            t2, f2 = self.branch(n['b'], t)
            return t2, f | f2
        if k == 'bin' and n['op'] == '||':
            t, f = self.branch(n['a'], S)
            t2, f2 = self.branch(n['b'], f)
            return t | t2, f2
        if k in ('bool', 'int', 'chr') and 'v' in n:
            return (set(S), set()) if n['v'] else (set(), set(S))
        S = self.ev(n, S)
        t, f = set(), set()
        for st in S:
            t.update(self.c.test(n, st, True, self))
            f.update(self.c.test(n, st, False, self))
        return t, f

    def ev(self, n, S, role='r'):
        if n is None or not S:
            return S
        if isinstance(n, list):
            for x in n:
                S = self.ev(x, S)
            return S
        k = n.get('k')
        if k in ('int', 'flt', 'bool', 'chr', 'str', 'null', 'sizeof', 'zero', 'typeid', 'nop'):
            return S
        if k == 'cast':
            S = self.ev(n['e'], S, role)
            if n.get('ck') == 'LValueToRValue':
                return S
            return self._leaf(n, S, role)
        if k == 'un':
            op = n['op']
            r = 'rw' if op in ('++', '--', 'post++', 'post--') else 'addr' if op == '&' else 'r'
            S = self.ev(n['e'], S, r)
            return self._leaf(n, S, role)
        if k == 'bin' and n['op'] in ('&&', '||'):
            t, f = self.branch(n, S)
            return t | f
        if k == 'cond':
            t, f = self.branch(n['c'], S)
            return self._leaf(n, self.ev(n['a'], t, role) | self.ev(n['b'], f, role), role)
        if k == 'asg':
            if n['op'] == '=' and n['a']['k'] == 'ref' and n['a'].get('dk') in ('local', 'parm'):
                S = self._truth(n['b'], S, lambda st, t: self.c.bind(('var', n['a']['d']), st, t, self))
            else:
                S = self.ev(n['b'], S)
            S = self.ev(n['a'], S, 'w' if n['op'] == '=' else 'rw')
            return self._leaf(n, S, role)
        if k == 'mem':
            S = self.ev(n['b'], S, 'r' if n.get('arrow') or role in ('r', 'addr') else 'part')
            return self._leaf(n, S, role)
        if k == 'idx':
            S = self.ev(n['b'], S)
            S = self.ev(n['i'], S)
            return self._leaf(n, S, role)
        if k == 'throw':
            if n.get('e') is not None:
                S = self.ev(n['e'], S)
            S = self._leaf(n, S, role)
            self.thr |= S
            return set()
        if k == 'call':
            return self.call(n, S, role)
        if k == 'ctor':
            for a in n['a']:
                S = self.ev(a, S)
            return self.call1(n, n.get('f'), S, role)
        if k == 'lambda':
            return self._leaf(n, S, role)
        if k == 'new':
            for key in ('n', 'pl', 'init'):
                if n.get(key):
                    S = self.ev(n[key], S)
            return self._leaf(n, S, role)
        if k == 'stmtexpr':
            o = self.stmt(n['s'], S)
            self.thr |= o.thr
            return o.n
        for key in ('o', 'fp', 'b', 'a', 'e', 'c', 'i'):
            v = n.get(key)
            if isinstance(v, (dict, list)):
                S = self.ev(v, S)
        return self._leaf(n, S, role)

    def call(self, n, S, role):
        if n.get('o') is not None:
            S = self.ev(n['o'], S, 'r' if n.get('arrow') else 'obj')
        if n.get('fp') is not None:
            S = self.ev(n['fp'], S)
        for a in n['a']:
            if n.get('op') and n.get('o') is a:
                continue
            S = self.ev(a, S, 'arg')
        return self.call1(n, n.get('f'), S, role)

    def call1(self, n, fid, S, role):
        r = set()
        rest = set()
        for st in S:
            e = self.c.enter(n, fid, st, self) if fid is not None else None
            if e is None:
                rest.add(st)
                continue
            f2 = fid
            if isinstance(e, tuple) and len(e) == 3 and e[0] == 'as':
                f2, e = e[1], e[2]
            nrm, thr = self.func(f2, e)
            for x in nrm:
                r.add(self.c.leave(n, f2, st, x, self))
            for x in thr:
                self.thr.add(self.c.leave(n, f2, st, x, self))
        f = self.fx.funcs.get(fid) if fid is not None else None
        if rest:
            rest = self._leaf(n, rest, role)
            if f and f.get('noreturn'):
                rest = set()
        return r | rest
