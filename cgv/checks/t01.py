"""T01: lock discipline of the generated thread pool."""
from .. import facts
from ..facts import AnalysisError, walk
from ..poolflow import LOCK, UNLOCK, Pool

SPEC = {'technique': 'interprocedural lockset dataflow over the thread pool source (every path of every thread entry and every public function): '
                     'pairwise race check of the accesses to shared state, lock pairing, lock order, condition waits, callbacks without locks',
        'level': 'other',
        'assumptions': ['locks are identified by the structure field that holds them (one pool at a time)',
                        'volatile flags may be read or plainly assigned without a lock, as the source declares',
                        'configuration setters without any lock are called before work is submitted']}


def short(f):
    return f.split('::')[-1]


def races(ctx, fx, p):
    by = {}
    for a in p.acc:
        by.setdefault(a.field, []).append(a)
    nlocked = 0
    for field, acc in sorted(by.items()):
        live = [a for a in acc if a.ctx != 'own']
        writes = [a for a in live if a.role in ('w', 'rw')]
        if '::' not in field and not any(a.held for a in live):
            continue  # a configuration global that the source does not protect
        bad = None
        pairs = 0
        for a in sorted(writes, key=lambda a: a.line):
            for b in sorted(live, key=lambda b: b.line):
                if a.ctx != 'worker' and b.ctx != 'worker':
                    continue
                pairs += 1
                if a.held & b.held:
                    continue
                if a.vol and b.role == 'r' or a.vol and a.role == 'w' and b.role in ('r', 'w'):
                    continue
                bad = bad or (a, b)
        if bad:
            a, b = bad
            culprit = a if not a.held else b
            other = b if culprit is a else a
            ctx.bad('shared-state', '%s/%s' % (field, p.names[culprit.fid]), fx.loc(culprit.fid, culprit.line),
                    '%s is %s in %s (%s) holding %s, but %s in %s (%s, line %d) holding %s: no common lock' %
                    (field, {'r': 'read', 'w': 'written', 'rw': 'changed'}[culprit.role], p.names[culprit.fid], culprit.ctx, sorted(map(short, culprit.held)) or 'nothing',
                     {'r': 'read', 'w': 'written', 'rw': 'changed'}[other.role], p.names[other.fid], other.ctx, other.line, sorted(map(short, other.held)) or 'nothing'))
        elif pairs:
            ctx.ok('shared-state', '%s: %d conflicting access pairs share a lock' % (field, pairs), pairs)
            nlocked += 1
    if nlocked < 6 and not ctx.viol:
        raise AnalysisError('only %d fields of the pool are protected by a common lock' % nlocked)


def run(ctx):
    fx = facts.facts('pool')
    p = Pool(fx).run()
    races(ctx, fx, p)
    rules = {'pairing': 'pairing', 'recheck': 'wait', 'wait': 'wait'}
    for (rule, key), (fid, line, msg) in sorted(p.problems.items(), key=str):
        if rule in rules:
            ctx.bad(rules[rule], key, fx.loc(fid, line), msg)
    for fid, exits in p.exits.items():
        for e in exits:
            if e.held:
                ctx.bad('pairing', 'exit/' + p.names[fid], fx.loc(fid), '%s can return while %s is still locked' % (p.names[fid], sorted(map(short, e.held))))
    ctx.ok('pairing', '%d lock sites, %d entry points' % (len(p.locksites), len(p.exits)), len(p.locksites) + len(p.exits))
    ctx.ok('wait', 'condition waits: %s' % sorted(c for c, _ in p.waits), len(p.waits))
    # lock order
    edges = {}
    for (a, b), w in p.order.items():
        edges.setdefault(a, set()).add(b)
    for a in sorted(edges):
        seen, todo = set(), list(edges[a])
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += edges.get(x, ())
        if a in seen:
            w = p.order.get((a, next(iter(edges[a]))))
            ctx.bad('lock-order', a, fx.loc(w[0], w[1]), 'locks are taken in a cycle through %s: %s' % (a, sorted(p.order)))
        else:
            ctx.ok('lock-order', '%s before %s' % (a, sorted(edges[a])), len(edges[a]))
    for fid, line, held, bal in sorted(p.callbacks, key=str):
        if held:
            ctx.bad('callback', p.names[fid], fx.loc(fid, line), 'a job is run while holding %s' % sorted(map(short, held)))
        else:
            ctx.ok('callback', '%s line %s' % (p.names[fid], line))
    # every initialised object is initialised before other threads see it: mutex/cond fields of shared structures have an init call
    inits = {}
    for fid, b in fx.bodies.items():
        for n in walk(b['b']):
            if n.get('k') == 'call' and p.names.get(n.get('f')) in ('pthread_mutex_init', 'pthread_cond_init'):
                for x in walk(n['a'][0]):
                    if x.get('k') == 'mem':
                        inits[x['f']] = (fid, n['l'])
    used = {f for (a, b) in p.order for f in (a, b)} | {h for a in p.acc for h in a.held} | {f for w in p.waits for f in w}
    for f in sorted(used):
        if '::' not in f:
            continue
        if f in inits:
            ctx.ok('initialised', f)
        else:
            ctx.bad('initialised', f, 'include/cppad/cg/model/threadpool/pthread_pool.c:1', '%s is used but never initialised' % f)
    ctx.count('functions analysed', len(p.visited))
    ctx.count('shared-state accesses', len(p.acc))
    for r, n in (('shared-state', 20), ('pairing', 15), ('wait', 2), ('callback', 3), ('initialised', 4)):
        ctx.need(r, n)
