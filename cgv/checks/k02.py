"""K02: what is configured is what is reported.  For every pair of a setter and the query of the same option, of every class of the library,
the query gives the value last set, whatever the rest of the object holds, and setting an option changes no other query of the object."""
import re

from .. import facts
from ..absint import AMap, AStr, Cell, Interp, NULL, Obj, Ptr, Term, Vec, FLTS, INTS, STRT, strip_t, tbase, targs
from ..cgmodel import NS

SPEC = {'technique': 'abstract interpretation of every setter and query of every configurable class on an object whose other members hold arbitrary distinct values',
        'level': 'other',
        'assumptions': ['a setter and the query of an option are named set<Option> and get<Option> / is<Option> / has<Option>']}

def plain(t):
    t = t.strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    if t.startswith('const ') and not t.endswith('*'):
        t = t[6:]
    return t.strip()


# classes whose values are not options of anything
SKIP = ('CG', 'FunctorModelLibrary')


class Vals:
    """distinct recognisable values of a type"""

    def __init__(self, fx, flag):
        self.fx, self.n, self.flag = fx, 0, flag

    def get(self, it, t, k=None):
        """k: which of the values used for setting; None: some other value"""
        t = strip_t(plain(t))
        self.n += 1
        if t == 'bool':
            return bool(k) if k is not None else self.flag
        if t in INTS:
            return 3 + k if k is not None else 1000 + self.n
        if t in FLTS:
            return Term('set', 'value', k) if k is not None else Term('some', self.n)
        if t in self.fx.enums:
            vs = [c['v'] for c in self.fx.enums[t]['c']]
            return vs[k % len(vs)] if k is not None else vs[0]
        if t.endswith('*'):
            return Ptr(Cell(Obj(strip_t(t[:-1].strip()), tag='o%d' % self.n), strip_t(t[:-1].strip())))
        b = tbase(t)
        if b == NS + 'CG':
            o = it.default(t)
            if not isinstance(o, Obj):
                return None
            for c in self.fx.recs[t]['fields']:
                ft = self.fx.t(c['t'])
                o.f[c['q']] = Cell(self.get(it, ft, k) if self.scalar(ft) else it.default(ft), ft)
            return o
        if b == STRT:
            return AStr(['set%s' % k if k is not None else 'some%d' % self.n])
        if b == 'std::vector':
            a = targs(t)[0]
            if a == 'bool' or self.scalar(a) or tbase(a) in (STRT, 'std::vector', 'std::set'):
                return Vec([Cell(self.get(it, a, k), a) for _ in range(2 if k is None else 1 + k)], a, b)
            return None
        if b == 'std::set':
            a = targs(t)[0]
            if self.scalar(a) and strip_t(a) in INTS:
                m = AMap(a, None, True, b)
                m.d = [[1 + (k or 0), Cell(None)]]
                return m
            return None
        if b == 'std::map':
            a = targs(t)
            if strip_t(a[0]) in INTS and strip_t(a[1]) in INTS:
                m = AMap(a[0], a[1], False, b)
                m.d = [[1 + (k or 0), Cell(7, a[1])]]
                return m
            return None
        return None

    def scalar(self, t):
        t = strip_t(t)
        return t in INTS or t in FLTS or t in self.fx.enums or t.endswith('*')


def same(a, b):
    if isinstance(a, Vec) and isinstance(b, Vec):
        return len(a.c) == len(b.c) and all(same(x.v, y.v) for x, y in zip(a.c, b.c))
    if isinstance(a, AMap) and isinstance(b, AMap):
        return len(a.d) == len(b.d) and all(x[0] == y[0] and same(x[1].v, y[1].v) for x, y in zip(a.d, b.d))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.cell is b.cell and a.vec is b.vec and a.i == b.i
    if isinstance(a, Obj) and isinstance(b, Obj):
        return a is b or (a.cls == b.cls and a.f.keys() == b.f.keys() and all(same(a.f[k].v, b.f[k].v) for k in a.f))
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
        return int(a) == int(b)
    if a is None or b is None:
        return a is b
    if a is NULL or b is NULL:
        return a is b
    return type(a) == type(b) and a == b


def show(v):
    if isinstance(v, Vec):
        return '[%s]' % ', '.join(show(c.v) for c in v.c)
    if isinstance(v, AStr):
        return repr(v.s())
    return repr(v)[:60]


def members(fx, cls):
    """methods of an object of the class: name -> function ids (overridden ones left out)"""
    out = {}
    for c in fx.mro(cls):
        for i in fx.by_cls.get(c, ()):
            f = fx.funcs[i]
            if f.get('static') or f.get('kind') or i not in fx.bodies:
                continue
            l = out.setdefault(f['n'], [])
            if any(fx.ptypes(j) == fx.ptypes(i) for j in l):
                continue
            l.append(i)
    return out


def pairs(fx, cls):
    ms = members(fx, cls)
    out = []
    for n in ms:
        m = re.match(r'set([A-Z].*)$', n)
        if not m:
            continue
        for g in ('get' + m[1], 'is' + m[1], 'has' + m[1]):
            if g in ms:
                for i in ms[n]:
                    for j in ms[g]:
                        ps, pg = fx.funcs[i]['p'], fx.funcs[j]['p']
                        if len(ps) == len(pg) + 1 and all(plain(fx.t(a['t'])) == plain(fx.t(b['t'])) for a, b in zip(ps, pg)) and \
                                plain(fx.t(ps[-1]['t'])) == plain(fx.t(fx.funcs[j]['ret'])):
                            out.append((i, j))
    return out, ms


def fill(fx, it, cls, vals):
    o = Obj(cls)
    for c in fx.mro(cls):
        r = fx.recs.get(c)
        for fd in (r or {}).get('fields', ()):
            t = fx.t(fd['t'])
            v = vals.get(it, t)
            o.f[fd['q']] = Cell(it.default(t) if v is None else v, t)
    return Cell(o, cls)


def run(ctx):
    fx = facts.facts('main')
    classes = sorted(c for c in fx.recs if c.startswith(NS) and c in fx.by_cls)
    visited = set()
    done = set()
    npairs = 0
    for cls in classes:
        ps, ms = pairs(fx, cls)
        if not ps or re.sub('<.*', '', cls)[len(NS):] in SKIP:
            continue
        tmpl = re.sub('<.*', '', cls)
        npairs += len(ps)
        queries = sorted({(fx.funcs[j]['n'], j) for _, j in ps if not fx.funcs[j]['p']})

        for si, gi in ps:
            f = fx.funcs[si]
            if (si, gi) in done:
                continue
            done.add((si, gi))
            key = '%s::%s' % (re.sub('<.*', '', f.get('clsx') or tmpl), f['n'])
            t = fx.t(f['p'][-1]['t'])
            outs = []
            it = Interp(fx, {}, max_paths=16, max_steps=20000)
            for k, flag in ((0, False), (1, False), (0, True), (1, True)):
                def go(it, k=k, flag=flag):
                    vals = Vals(fx, flag)
                    this = fill(fx, it, cls, vals)
                    idx = []
                    for p in fx.funcs[gi]['p']:
                        idx.append(('v', p))
                    v = vals.get(it, t, k)
                    if v is None or idx:
                        return 'type'
                    before = {}
                    for n, j in queries:
                        if j != gi:
                            try:
                                before[n, j] = snap(it, fx, j, this)
                            except Exception as e:
                                if type(e).__name__ not in ('PathAbort', 'Unmodelled', 'CppThrow', 'AnalysisError'):
                                    raise
                    it.invoke(si, this, [Cell(it.copy(v), plain(t))])
                    got = snap(it, fx, gi, this)
                    chg = []
                    for (n, j), b in before.items():
                        if isinstance(b, Obj):
                            continue
                        a = snap(it, fx, j, this)
                        if not same(a, b):
                            chg.append((n, b, a))
                    return v, got, chg
                res = it.explore(go)
                outs += res
            visited |= it.visited
            where = fx.loc(si)
            if not outs or any(o[0] != 'ok' for o in outs) or any(o[1] == 'type' for o in outs):
                ctx.unk('reported', '%s: %s' % (key, [o[1] for o in outs if o[0] != 'ok' or o[1] == 'type'][:1]))
                continue
            w = [o[1] for o in outs if not same(o[1][0], o[1][1])]
            if w:
                ctx.bad('reported', key, where, '%s(%s) is followed by %s() = %s' % (f['n'], show(w[0][0]), fx.funcs[gi]['n'], show(w[0][1])))
            else:
                ctx.ok('reported', key)
            chg = [(n, b, a) for o in outs for n, b, a in o[1][2]]
            if chg:
                ctx.bad('independent', key, where, 'setting the option with %s also changes %s() from %s to %s' % (f['n'], chg[0][0], show(chg[0][1]), show(chg[0][2])))
            else:
                ctx.ok('independent', n=max(1, len(outs[0][1][2]) + 1))
    ctx.count('functions analysed', len(visited))
    ctx.count('option pairs', npairs)
    ctx.need('reported', 60)


def snap(it, fx, j, this):
    """value of a query; a reference is read"""
    r = it.invoke(j, this, [])
    if isinstance(r, Cell):
        r = r.v
    return it.copy(r)
