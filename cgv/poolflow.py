"""Lock and wake-up dataflow over the thread pool source (used by T01 and T02)."""
from collections import namedtuple

from .facts import AnalysisError, walk
from .flow import Client, Flow

LOCK, UNLOCK, WAIT, SIGNAL = 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_cond_wait', ('pthread_cond_signal', 'pthread_cond_broadcast')
# held: locks; own: nobody else can reach the pool; env: pointer variable -> field it points to; facts: (key, const, equal?) known tests;
# woken: waited and not tested since; dirty: a waited-for predicate changed without a signal yet; bal: (counter, difference) of this thread
St = namedtuple('St', 'held own env facts woken dirty bal last')
S0 = St(frozenset(), False, frozenset(), frozenset(), None, frozenset(), frozenset(), None)


def strip(e):
    while e is not None and e.get('k') == 'cast':
        e = e['e']
    return e


def deref_target(e, env):
    """field named by a pointer expression: &x->f, or a variable bound to one"""
    e = strip(e)
    if e is None:
        return None
    if e['k'] == 'un' and e['op'] == '&':
        x = strip(e['e'])
        if x['k'] == 'mem':
            return x['f']
        if x['k'] == 'ref' and x.get('dk') == 'global':
            return x['q']
    if e['k'] == 'ref' and e.get('dk') in ('local', 'parm'):
        for v, f in env:
            if v == e['d']:
                return f
    return None


class Access(namedtuple('Access', 'field role held ctx fid line vol')):
    pass


class Pool(Client):
    TRUTH = True

    def __init__(self, fx):
        self.fx = fx
        self.acc = set()
        self.problems = {}
        self.waits = {}
        self.order = {}
        self.exits = {}
        self.callbacks = set()
        self.locksites = set()
        self.ctx = None
        self.fieldtype = {}
        self.shared = set()
        self.ptrshared = set()
        for r in fx.recs.values():
            for f in r['fields']:
                self.fieldtype[f['q']] = fx.t(f['t'])
            if any(fx.t(f['t']).split('::')[-1] in ('pthread_mutex_t', 'pthread_cond_t') for f in r['fields']):
                self.shared.add(r['q'])
        if not self.shared:
            raise AnalysisError('no structure with a mutex found')
        self.names = {i: f['n'] for i, f in fx.funcs.items()}
        self.workers = set()
        for fid, b in fx.bodies.items():
            for n in walk(b['b']):
                if n.get('k') == 'call' and self.names.get(n.get('f')) == 'pthread_create':
                    for x in walk(n['a'][2]):
                        if x.get('k') == 'ref' and x.get('dk') == 'func':
                            self.workers.add(x['f'] if x['f'] in fx.bodies else self.defn(x['f']))
        if not self.workers:
            raise AnalysisError('no thread entry found')
        # external interface: everything other code can call
        self.clients = {i for i in fx.bodies if not fx.funcs[i].get('static') and i not in self.workers}
        called = set()
        for b in fx.bodies.values():
            for n in walk(b['b']):
                if n.get('k') == 'call' and 'f' in n:
                    called.add(self.defn(n['f']))
        self.clients = {i for i in self.clients if i not in called or not any('static' in fx.funcs[j] for j in fx.by_q[fx.funcs[i]['q']])}
        # fields of the shared structures changed by one at a time (balanced per thread below)
        self.counters = set()
        reach, todo = set(), list(self.workers)
        while todo:
            i = self.defn(todo.pop())
            if i in reach or i not in fx.bodies:
                continue
            reach.add(i)
            todo += [n['f'] for n in walk(fx.bodies[i]['b']) if n.get('k') == 'call' and 'f' in n]
        self.worker_funcs = reach
        for i in reach:
            for n in walk(fx.bodies[i]['b']):
                for e in ([n['e']] if n.get('k') == 'un' and n['op'] in ('++', 'post++') else [n['a']] if n.get('k') == 'asg' and n['op'] == '+=' else []):
                    e = strip(e)
                    if e['k'] == 'mem' and e['f'].rsplit('::', 1)[0] in self.shared and 'volatile' in self.fieldtype.get(e['f'], ''):
                        self.counters.add(e['f'])

    def defn(self, fid):
        if fid in self.fx.bodies:
            return fid
        for i in self.fx.by_q.get(self.fx.funcs[fid]['q'], ()):
            if i in self.fx.bodies:
                return i
        return fid

    def problem(self, rule, key, line, msg, eng):
        self.problems.setdefault((rule, '%s/%s' % (self.names[eng.where], key)), (eng.where, line, msg))

    # ---- client ----------------------------------------------------------------------------------
    def enter(self, n, fid, st, eng):
        fid = self.defn(fid)
        if fid not in self.fx.bodies:
            return None
        env = set()
        for p, a in zip(self.fx.bodies[fid]['p'], n['a']):
            f = deref_target(a, st.env)
            if f:
                env.add((p['id'], f))
        facts = frozenset(x for x in st.facts if x[0][0] in ('f', 'g'))
        return 'as', fid, st._replace(env=frozenset(env), facts=facts)

    def leave(self, n, fid, st, cst, eng):
        keep = frozenset(x for x in st.facts if x[0][0] not in ('f', 'g', 'ret'))
        new = frozenset(x for x in cst.facts if x[0][0] in ('f', 'g'))
        rv = frozenset((('call', id(n)),) + x[1:] for x in cst.facts if x[0][0] == 'ret')
        return cst._replace(env=st.env, facts=keep | new | rv)

    def bind(self, key, st, truth, eng):
        facts = frozenset(x for x in st.facts if x[0] != key and x[0][0] != 'call')
        if truth is not None and any(x[0][0] == 'f' for x in facts):
            facts |= {(key, 0, not truth)}
        return st._replace(facts=facts)

    def key(self, e):
        e = strip(e)
        if e is None:
            return None
        if e['k'] == 'mem':
            return ('f', e['f'])
        if e['k'] == 'ref' and e.get('dk') == 'global':
            return ('g', e['q'])
        if e['k'] == 'ref' and e.get('dk') in ('local', 'parm'):
            return ('var', e['d'])
        if e['k'] == 'call':
            return ('call', id(e))
        return None

    def norm(self, n):
        """condition -> (key, constant, truth when equal) or None"""
        n = strip(n)
        k = self.key(n)
        if k:
            return k, 0, False
        if n['k'] == 'bin' and n['op'] in ('==', '!=', '>', '<', '>=', '<='):
            a, b = strip(n['a']), strip(n['b'])
            op = n['op']
            if b['k'] not in ('int', 'null'):
                a, b, op = b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            if b['k'] not in ('int', 'null'):
                return None
            v = b.get('v', 0)
            k = self.key(a)
            if not k:
                return None
            if op == '==':
                return k, v, True
            if op == '!=':
                return k, v, False
            if op == '>' and v == 0:
                return k, 0, False  # counters are never negative
            if op == '<' and v == 1:
                return k, 0, True
            if op == '>=' and v == 1:
                return k, 0, False
            if op == '<=' and v == 0:
                return k, 0, True
        return None

    def test(self, n, st, truth, eng):
        if n['k'] == 'caseof':
            n, truth = {'k': 'bin', 'op': '==', 'a': n['c'], 'b': {'k': 'int', 'v': n['v']}}, truth
        r = self.norm(n)
        if st.woken and any(x.get('k') in ('mem',) for x in walk(n)):
            st = st._replace(woken=None)
        if not r:
            return [st]
        k, v, eq = r
        if k[0] == 'call':
            st = st._replace(facts=frozenset(x for x in st.facts if x[0][0] != 'call' or x[0] == k))
        equal = truth if eq else not truth
        for kk, vv, e in st.facts:
            if kk == k:
                if e and (vv == v) != equal:
                    return []
                if not e and vv == v and equal:
                    return []
        if k[0] == 'call':
            st = st._replace(facts=frozenset(x for x in st.facts if x[0][0] != 'call'))
        if not self.relevant(k, st):
            return [st]
        facts = st.facts
        if equal:
            facts = frozenset(x for x in facts if x[0] != k)
        facts |= {(k, v, equal)}
        st = st._replace(facts=facts, last=(k, v, equal) if st.held and k[0] == 'f' else st.last)
        if equal and v == 0:
            if k[0] == 'g' and self.points_to_pool(k[1]):
                st = st._replace(own=True)
            if k[0] == 'f' and self.alive_counter(k[1]):
                st = st._replace(own=True)
        return [st]

    def on_stmt(self, n, st, eng):
        pass

    def relevant(self, k, st):
        if k[0] == 'f':
            if self.alive_counter(k[1]):
                return True
            if self.waits_known:
                return any(k[1] == p[1] for w in self.waits_known.values() for p in w)
            return bool(st.held) and k[1].rsplit('::', 1)[0] in self.shared
        return k[0] == 'g' and self.points_to_pool(k[1])

    def vol_global(self, q):
        return any(g.get('q') == q and self.fx.t(g['t']).startswith('volatile') for g in self.fx.globs.values())

    def points_to_pool(self, q):
        for g in self.fx.globs.values():
            if g.get('q') == q:
                t = self.fx.t(g['t'])
                return '*' in t and any(s in t.replace('*', ' ').split() for s in self.shared)
        return False

    def alive_counter(self, f):
        return f in (getattr(self, 'alive', None) or ())

    def lockof(self, n, st, eng):
        f = deref_target(n['a'][0], st.env)
        if f is None:
            raise AnalysisError('cannot identify the mutex at line %s' % n.get('l'))
        return f

    def drop(self, st, field, kind='f'):
        return st._replace(facts=frozenset(x for x in st.facts if x[0] != (kind, field)))

    def leaf(self, n, st, role, eng):
        k = n['k']
        if k == 'call':
            nm = self.names.get(n.get('f'))
            if nm == LOCK:
                f = self.lockof(n, st, eng)
                self.locksites.add((eng.where, n.get('l')))
                if f in st.held:
                    self.problem('pairing', 'double/' + f, n.get('l'), '%s is locked while already held' % f, eng)
                for h in st.held:
                    self.order.setdefault((h, f), (eng.where, n.get('l')))
                if not st.held:
                    st = st._replace(facts=frozenset(x for x in st.facts if x[0][0] != 'f' or self.alive_counter(x[0][1])), last=None)
                if f in self.alive_lock and any(x[0][0] == 'f' and self.alive_counter(x[0][1]) and x[1:] == (0, True) for x in st.facts):
                    st = st._replace(bal=st.bal | {('#joined', 1)})
                return [('n', st._replace(held=st.held | {f}))]
            if nm == UNLOCK:
                f = self.lockof(n, st, eng)
                if f not in st.held:
                    self.problem('pairing', 'unheld/' + f, n.get('l'), '%s is unlocked without being held' % f, eng)
                if st.woken == f:
                    self.problem('recheck', f, n.get('l'), 'after waiting on a condition %s is released without testing the condition again' % f, eng)
                for d in st.dirty:
                    if d[1] == f and not st.own and not any((('f', ff), v, eq) in st.facts for kk, ff, v, eq in self.waits_known.get((d[2], d[1]), ()) if ff == d[0]):
                        self.problem('signal', d[0], n.get('l'), '%s is released after %s changed in favour of a waiter, without signalling it' % (f, d[0]), eng)
                return [('n', st._replace(held=st.held - {f}, last=st.last if st.held - {f} else None, dirty=frozenset(d for d in st.dirty if d[1] != f)))]
            if nm == WAIT:
                c = deref_target(n['a'][0], st.env)
                m = deref_target(n['a'][1], st.env)
                if c is None or m is None:
                    raise AnalysisError('cannot identify the condition at line %s' % n.get('l'))
                if m not in st.held:
                    self.problem('wait', c, n.get('l'), 'waits on %s without holding %s' % (c, m), eng)
                if st.held - {m}:
                    self.problem('wait', c + '/other', n.get('l'), 'waits on %s while holding %s' % (c, sorted(st.held - {m})), eng)
                w = self.waits.setdefault((c, m), set())
                if st.last:
                    w.add(st.last[0] + st.last[1:])
                else:
                    self.problem('wait', c + '/untested', n.get('l'), 'waits on %s without a test of the state it waits for under the lock' % c, eng)
                return [('n', st._replace(woken=m, last=None, facts=frozenset(x for x in st.facts if x[0][0] not in ('f', 'g'))))]
            if nm in SIGNAL:
                c = deref_target(n['a'][0], st.env)
                return [('n', st._replace(dirty=frozenset(d for d in st.dirty if d[2] != c)))]
            if nm == 'free':
                a = strip(n['a'][0])
                t = self.fx.t(a.get('t')).replace('struct ', '').replace('*', '').replace('volatile', '').strip()
                if t in self.shared and any(f.rsplit('::', 1)[0] == t for f in self.alive or ()):
                    self.frees.add((eng.where, n.get('l'), st.own, ('#joined', 1) in st.bal or ('#fresh', 1) in st.bal,
                                    any(x[0][0] == 'f' and self.alive_counter(x[0][1]) and x[1:] == (0, True) for x in st.facts)))
            if nm == 'pthread_create':
                return [('n', st._replace(own=False, bal=st.bal - {('#fresh', 1)}, facts=frozenset(x for x in st.facts if x[0][0] != 'f')))]
            if n.get('f') is None or 'fp' in n:
                self.callbacks.add((eng.where, n.get('l'), st.held, st.bal))
            return None
        if k == 'mem':
            rec = n['f'].rsplit('::', 1)[0]
            if rec in self.shared and role in ('r', 'w', 'rw', 'arg', 'part', 'obj'):
                t = self.fieldtype.get(n['f'], '')
                if 'pthread_' not in t:
                    self.acc.add(Access(n['f'], {'arg': 'r', 'obj': 'r', 'part': 'rw'}.get(role, role), st.held, 'own' if st.own else self.ctx, eng.where, n.get('l'), 'volatile' in t))
            return None
        if k == 'ref' and n.get('dk') == 'global':
            if role in ('r', 'w', 'rw', 'arg') and not n['q'].startswith('std'):
                self.acc.add(Access(n['q'], 'r' if role == 'arg' else role, st.held, 'own' if st.own else self.ctx, eng.where, n.get('l'), self.vol_global(n['q'])))
            return None
        if k == 'var':
            f = deref_target(n.get('init'), st.env)
            if f:
                return [('n', st._replace(env=st.env | {(n['id'], f)}))]
            return None
        if k == 'cast' and 'malloc' in str([self.names.get(x.get('f')) for x in walk(n['e']) if x.get('k') == 'call']):
            t = self.fx.t(n['t']).replace('*', ' ').split()
            if any(s in t for s in self.shared) and '**' not in self.fx.t(n['t']).replace(' ', ''):
                if any(f.rsplit('::', 1)[0] in t for f in self.alive or ()):
                    st = st._replace(bal=st.bal | {('#fresh', 1)})
                return [('n', st._replace(own=True))]
            return None
        if k == 'asg' or k == 'un' and n['op'] in ('++', '--', 'post++', 'post--'):
            lhs = strip(n['a'] if k == 'asg' else n['e'])
            if lhs['k'] == 'mem' and lhs['f'].rsplit('::', 1)[0] in self.shared:
                return [('n', self.write(n, lhs['f'], st, eng))]
            if lhs['k'] == 'ref' and lhs.get('dk') == 'global':
                return [('n', self.drop(st, lhs['q'], 'g'))]
        return None

    def write(self, n, f, st, eng):
        st = self.drop(st, f)
        delta = None
        if n['k'] == 'un':
            delta = 1 if '++' in n['op'] else -1
        elif n['op'] in ('+=', '-='):
            b = strip(n['b'])
            if b['k'] == 'int':
                delta = b['v'] if n['op'] == '+=' else -b['v']
        val = None
        if n['k'] == 'asg' and n['op'] == '=':
            b = strip(n['b'])
            if b['k'] in ('int', 'null'):
                val = b.get('v', 0)
                if self.relevant(('f', f), st):
                    st = st._replace(facts=st.facts | {(('f', f), val, True)})
            elif b['k'] == 'bin' and b['op'] in ('+', '-') and self.key(b['a']) == ('f', f) and strip(b['b'])['k'] == 'int':
                delta = strip(b['b'])['v'] * (1 if b['op'] == '+' else -1)
        if f in self.counters and delta is not None and not st.own:
            d = dict(st.bal)
            d[f] = d.get(f, 0) + delta
            if abs(d[f]) > 3:
                raise AnalysisError('counter %s diverges' % f)
            st = st._replace(bal=frozenset((a, b) for a, b in d.items() if b))
        if self.ctx == 'worker' and not st.own and f != self.working and dict(st.bal).get(self.working, 0) < 1:
            self.uncounted.setdefault(f, (eng.where, n.get('l')))
        for (c, m), pred in self.waits_known.items():
            for kind, ff, v, eq in pred:
                if ff != f or st.own:
                    continue
                if c in self.idle_conds and dict(st.bal).get(self.working, 0) > 0:
                    continue  # the thread itself still counts as working
                # waiting while (f == v) is eq: a value that ends the wait needs a signal
                if val is not None and (val == v) == eq:
                    continue
                if delta is not None and delta > 0 and v == 0 and not eq:
                    continue
                st = st._replace(dirty=st.dirty | {(f, m, c)})
        return st

    waits_known = {}
    alive_lock = frozenset()
    idle_conds = ()
    working = None

    def run(self):
        """two passes: the first learns what is waited for, the second checks the signals"""
        for p in (0, 1):
            self.working = self.alive = None
            if p:
                w = [x[1] for s in self.waits_known.values() for x in s if x[1] in self.counters]
                if not w:
                    raise AnalysisError('no counter of working threads in a waited-for condition')
                self.working = w[0]
                self.alive = self.counters - {self.working}
                self.idle_conds = {c for (c, m), s in self.waits_known.items() if any(x[1] == self.working for x in s)}
            if p:
                self.alive_lock = {h for a in self.acc if a.field in self.alive and a.ctx == 'worker' and a.role == 'rw' for h in a.held}
            self.acc, self.order, self.callbacks, self.exits, self.frees = set(), {}, set(), {}, set()
            self.problems, self.uncounted = {}, {}
            self.eng = []
            for ctxname, roots in (('worker', self.workers), ('client', self.clients)):
                self.ctx = ctxname
                eng = Flow(self.fx, self)
                self.eng.append(eng)
                for r in sorted(roots):
                    nrm, _ = eng.func(r, S0)
                    self.exits[r] = nrm
            if p == 0:
                self.waits_known = {k: set(v) for k, v in self.waits.items()}
                if not self.waits_known:
                    raise AnalysisError('no condition wait found')
        self.visited = set().union(*(e.visited for e in self.eng))
        return self
