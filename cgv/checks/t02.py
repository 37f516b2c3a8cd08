"""T02: work given to the thread pool is done."""
import itertools

from .. import facts
from ..absint import Cell, NULL, Ptr, Term, Vec
from ..facts import AnalysisError
from ..poolflow import Pool
from ..poolsim import Blocked, Fault, PoolSim

SPEC = {'technique': 'two static analyses of the thread pool source: typestate dataflow of the wake-up protocol (counters, signals, wait conditions, release of the pool) '
                     'on every path, and abstract interpretation of submission, pulling, waiting and shutdown for every small number of jobs and threads, '
                     'strategy, timing information and every outcome of the comparisons of times',
        'level': 'other',
        'assumptions': ['memory allocation succeeds', 'lock-protected sections are atomic (T01)', 'jobs return; at most three jobs and three threads are enumerated',
                        'the enumeration of the scenarios uses small counts: larger ones repeat the same steps']}


class Scenario:
    def __init__(self, it, names):
        self.it = it
        self.q = names

    def arr(self, vals, t):
        return Ptr(None, Vec([Cell(v, t) for v in vals], t, 'array'), 0)

    def add(self, base, n, timing, measure, order=None, j2t=None, changed=1):
        it = self.it
        fns = self.arr([Term('job', base + j) for j in range(n)], 'void (*)(void *)')
        args = self.arr([Term('arg', base + j) for j in range(n)], 'void *')
        avg = self.arr([Term('avg', base + j, t='float') for j in range(n)], 'float') if timing else NULL
        el = NULL
        if measure:
            el = self.arr([Term('el0', t='float') for j in range(n)], 'float')
            it.elapsed_cells += el.vec.c
        ordp = self.arr(order, 'int') if order is not None else NULL
        if j2t is None:
            j2t = self.arr([-1] * n, 'int')
        it.vla = n
        it.fn('cppadcg_thpool_add_jobs', fns, args, avg, el, ordp, j2t, n, changed)
        return j2t


def scenarios(thorough):
    N = (1, 2, 3) if not thorough else (0, 1, 2, 3, 4)
    T = (1, 2) if not thorough else (1, 2, 3)
    for strat, n, t, timing in itertools.product((1, 2, 3), N, T, (True, False)):
        if timing and strat in (1, 3) and n * t > (6 if not thorough else 8):
            continue
        yield 'submit', dict(strat=strat, n=n, threads=t, timing=timing)
    for strat, s2, n, t in itertools.product((1, 2, 3), (1, 2, 3), (2,) if not thorough else (1, 2, 3), (1, 2)):
        if strat != s2:
            yield 'switch', dict(strat=strat, s2=s2, n=n, threads=t)
    for strat in (1, 2, 3):
        for timing in (True, False):
            for n, t in ((2, 2), (3, 2)) if not thorough else ((2, 2), (3, 2), (3, 3), (4, 2)):
                yield 'together', dict(strat=strat, n=n, threads=t, timing=timing)
        yield 'twice', dict(strat=strat, n=2, threads=2)
        yield 'shrink', dict(strat=strat, n=2, threads=2, to=1)
        yield 'single', dict(strat=strat, n=2, threads=2)
        yield 'verbose', dict(strat=strat, n=2, threads=2)
        yield 'pending', dict(strat=strat, n=2, threads=3)
    yield 'disabled', dict(n=2)
    yield 'nothreads', dict(n=2)
    for k in (0, 1):
        yield 'create-fails', dict(n=2, threads=2, ok=k)


def run(ctx):
    fx = facts.facts('pool')
    p = Pool(fx).run()
    protocol(ctx, fx, p)
    simulate(ctx, fx, p)
    order(ctx, fx, p)
    for r, n in (('protocol', 8), ('executed', 40), ('wait', 20), ('memory', 20), ('order', 3), ('wake', 5)):
        ctx.need(r, n)


def protocol(ctx, fx, p):
    """typestate rules on every path of the source"""
    for (rule, key), (fid, line, msg) in sorted(p.problems.items(), key=str):
        if rule == 'signal':
            ctx.bad('protocol', 'signal/' + key, fx.loc(fid, line), msg)
    ctx.ok('protocol', 'signals for %s' % sorted(p.waits), len(p.waits))
    for w in p.workers:
        for e in p.exits[w]:
            for f, d in e.bal:
                if '::' in f:
                    ctx.bad('protocol', 'balance/' + f, fx.loc(w), 'a thread can end with %s changed by %+d' % (f, d))
        ctx.ok('protocol', 'counters balanced at the end of %s' % p.names[w], len(p.counters))
    for fid, line, held, bal in sorted(p.callbacks, key=str):
        if fid in p.worker_funcs:
            b = dict(bal)
            for f in (p.working,) + tuple(p.alive):
                if b.get(f, 0) < 1:
                    ctx.bad('protocol', 'uncounted/' + f, fx.loc(fid, line), 'a job is run by a thread that is not counted in %s, so waiting does not cover it' % f)
                else:
                    ctx.ok('protocol', 'jobs run while counted in %s' % f)
    # what the queue gives out is taken by threads already counted as working
    pred = {x[1] for s in p.waits_known.values() for x in s if any(y[1] == p.working for y in s)}
    for f in sorted(pred - {p.working}):
        if p.uncounted.get(f):
            fid, line = p.uncounted[f]
            ctx.bad('protocol', 'taken/' + f, fx.loc(fid, line), 'a thread takes work out of the queue (%s) before it is counted in %s' % (f, p.working))
        else:
            ctx.ok('protocol', 'work leaves %s only to counted threads' % f)
    w = fx.one('cppadcg_thpool_wait')
    want = sorted(pred)
    for e in p.exits[w]:
        if e.own:
            continue
        missing = [f for f in want if (('f', f), 0, True) not in e.facts]
        if any(x[0] == 'g' and x[2] for x in [(k[0], v, eq) for k, v, eq in e.facts]):
            continue
        if missing:
            ctx.bad('protocol', 'wait-exit/' + missing[0], fx.loc(w), 'waiting can end without %s having been seen zero' % missing)
        else:
            ctx.ok('protocol', 'waiting ends only when %s are zero' % want)
    if len(want) < 2:
        ctx.bad('protocol', 'wait-condition', fx.loc(w), 'waiting looks at %s only, not at queued work and working threads' % want)
    for fid, line, own, joined, seen in sorted(p.frees, key=str):
        if own and not joined and seen:
            ctx.bad('protocol', 'release', fx.loc(fid, line), 'the pool is released without acquiring the mutex its last thread may still hold')
        elif not own:
            ctx.bad('protocol', 'release', fx.loc(fid, line), 'the pool is released while threads may be using it')
        else:
            ctx.ok('protocol', 'the pool is released after its threads ended')
    ctx.count('functions analysed', len(p.visited))


def simulate(ctx, fx, p):
    for kind, a in scenarios(ctx.thorough):
        lab = '%s %s' % (kind, ' '.join('%s=%s' % kv for kv in a.items()))
        it = PoolSim(fx, p, max_paths=600 if not ctx.thorough else 6000, max_steps=60000)
        npaths = 0

        def body(itp):
            return scenario(itp, kind, a)
        for o in it.explore(body):
            npaths += 1
            if o[0] == 'abort':
                v = o[1]
                if v.startswith('memory:'):
                    ctx.bad('memory', '%s/%s' % (kind, v.split(' in ')[-1].split(' at line')[0][:60]), 'include/cppad/cg/model/threadpool/pthread_pool.c:1', '%s: %s' % (lab, v))
                elif 'waits on a condition' in v:
                    ctx.bad('wait', kind, 'include/cppad/cg/model/threadpool/pthread_pool.c:1', '%s: with every thread idle, %s never ends' % (lab, v))
                elif v in ('step bound', 'loop bound'):
                    ctx.bad('wait', kind + '/endless', 'include/cppad/cg/model/threadpool/pthread_pool.c:1', '%s: a loop runs far longer than the number of jobs and threads' % lab)
                else:
                    ctx.unk('executed', '%s: %s' % (lab, v))
                continue
            if o[0] != 'ok':
                ctx.unk('executed', '%s: %s' % (lab, o[0]))
                continue
            for rule, bad in o[1]:
                if bad:
                    ctx.bad(rule, kind + '/' + bad.split(' ')[0], 'include/cppad/cg/model/threadpool/pthread_pool.c:1', '%s: %s' % (lab, bad))
                else:
                    ctx.ok(rule)
        ctx.count('abstract paths', npaths)
        ctx.samples.append('%s: %d paths' % (lab, npaths)) if len(ctx.samples) < 40 else None


def ran(it, n, what, ordered_by=None):
    from collections import Counter
    c = Counter(j for j, _ in it.ran)
    for j in range(n):
        if c[j] != 1:
            return 'job%d is run %d times %s' % (j, c[j], what)
    if set(c) - set(range(n)):
        return 'unknown jobs are run'
    for j, arg in it.ran:
        if arg != Term('arg', j):
            return 'argument of job %d is %r' % (j, arg)
    return None


def leaks(it):
    live = [b for b in it.blocks if not b.freed]
    return 'leak: memory allocated at line(s) %s is not released by shutdown' % sorted({b.line for b in live}) if live else None


def scenario(it, kind, a):
    it.begin(4)
    s = Scenario(it, None)
    res = []
    n = a.get('n', 0)
    total = n

    def wait(what='before waiting ends'):
        it.fn('cppadcg_thpool_wait')
        res.append(('wait', None))
        res.append(('executed', ran(it, total, what)))
    if kind == 'disabled':
        it.fn('cppadcg_thpool_set_disabled', 1)
        s.add(0, n, False, False)
        wait()
        return res
    if kind == 'nothreads':
        it.fn('cppadcg_thpool_set_threads', 0)
        s.add(0, n, False, False)
        wait()
        return res
    it.fn('cppadcg_thpool_set_threads', a.get('threads', 2))
    if 'strat' in a:
        it.fn('cppadcg_thpool_set_scheduler_strategy', a['strat'])
    if kind == 'create-fails':
        it.fail_create = a['ok']
        s.add(0, n, False, False)
        it.fail_create = None
        it.run_threads()
        wait()
    elif kind == 'submit':
        order = [1, 0, 2, 3][:n] if n > 1 else list(range(n))
        offered = []
        orig = it.on_job

        def on_job(j, arg):
            orig(j, arg)
        s.add(0, n, a['timing'], n < 3, order if a['timing'] else None)
        posted(it, res, n)
        it.run_threads()
        wait()
        res.append(('measured', measured(it, n) if n < 3 else None))
    elif kind == 'together':
        s.add(0, n, a['timing'], n < 3, list(range(n)) if a['timing'] else None)
        it.interleave(res)
        it.run_threads()
        wait()
    elif kind == 'switch':
        s.add(0, n, True, False, list(range(n)))
        it.fn('cppadcg_thpool_set_scheduler_strategy', a['s2'])
        it.run_threads()
        wait('after the strategy was changed')
    elif kind == 'twice':
        j2t = s.add(0, n, True, False, list(range(n)))
        it.run_threads()
        wait()
        total = 2 * n
        j = s.add(n, n, True, False, list(range(n)), j2t, 0)
        it.run_threads()
        wait('in a second submission')
    elif kind == 'shrink':
        j2t = s.add(0, n, True, False, list(range(n)))
        it.run_threads()
        wait()
        it.fn('cppadcg_thpool_shutdown')
        it.threads = []
        it.fn('cppadcg_thpool_set_threads', a['to'])
        total = 2 * n
        s.add(n, n, True, False, list(range(n)), j2t, 0)
        it.run_threads()
        wait('with a smaller pool')
    elif kind == 'single':
        for j in range(n):
            it.fn('cppadcg_thpool_add_job', Term('job', j), Term('arg', j), NULL, NULL)
        posted(it, res, n)
        it.run_threads()
        wait()
    elif kind == 'verbose':
        it.fn('cppadcg_thpool_set_verbose', 1)
        s.add(0, n, True, True, list(range(n)))
        it.run_threads()
        wait('with messages enabled')
    elif kind == 'pending':
        # shut down with work still queued: nothing runs twice and everything is released
        s.add(0, n, True, False, list(range(n)))
        it.fn('cppadcg_thpool_shutdown')
        res.append(('memory', leaks(it)))
        return res
    it.fn('cppadcg_thpool_shutdown')
    res.append(('memory', leaks(it)))
    return res


def sem(it):
    for th in it.threads:
        fld = [f for (c, m), s in it.flow.waits_known.items() for x in s for f in [x[1]] if c not in it.flow.idle_conds]
        return it.poolfield(th, fld[0]).v, [(x[2], x[3]) for (c, m), s in it.flow.waits_known.items() for x in s if c not in it.flow.idle_conds][0]
    return None


def posted(it, res, n):
    """after work was submitted the condition the threads wait for holds"""
    r = sem(it)
    if r is None or n == 0:
        return
    v, (val, eq) = r
    waits = (v == val) == eq
    res.append(('wake', 'sleeping threads are not woken for submitted work' if waits else None))
    # and it holds again whenever a thread has taken part of it
    orig = it.on_job

    def on_job(j, arg):
        orig(j, arg)
        if left(it):
            v, (val, eq) = sem(it)
            if (v == val) == eq:
                res.append(('wake', 'remaining work is not offered to other threads while a job runs'))
            else:
                res.append(('wake', None))
    it.on_job = on_job
    it.restore = orig


def left(it):
    """is there work in the queue"""
    fl = it.flow
    for s in fl.waits_known.values():
        if any(x[1] == fl.working for x in s):
            for x in s:
                if x[1] != fl.working:
                    v = it.poolfield(it.threads[0], x[1]).v
                    if v is not NULL and v != 0:
                        return True
    return False


def measured(it, n):
    last = {}
    for k, cnt in it.measured:
        j = it.ran[cnt - 1][0]
        if j != k:
            return 'time of job %d is stored for job %d' % (j, k)
        last[k] = 1
    return None if len(last) == n else 'time of only %d of %d jobs is stored' % (len(last), n)


def order(ctx, fx, p):
    """the order of execution derived from measured times is a permutation of the jobs"""
    f = fx.one('cppadcg_thpool_update_order')
    for ref in (0, 1):
        for n in ((1, 2, 3) if not ctx.thorough else (1, 2, 3, 4)):
            it = PoolSim(fx, p, max_paths=3000, max_steps=20000)

            def body(itp):
                itp.begin(n)
                s = Scenario(itp, None)
                itp.fn('cppadcg_thpool_set_time_meas_ref', ref)
                el = s.arr([Term('el', j, t='float') for j in range(n)], 'float')
                rf = s.arr([Term('ref', j, t='float') for j in range(n)], 'float')
                od = s.arr(list(range(n)), 'int')
                itp.fn('cppadcg_thpool_update_order', rf, 2, el, od, n)
                return [c.v for c in od.vec.c]
            for o in it.explore(body):
                if o[0] == 'ok':
                    if sorted(map(str, o[1])) != [str(i) for i in range(n)]:
                        ctx.bad('order', str(n), fx.loc(f), 'the new order of %d jobs is %s, not a permutation' % (n, o[1]))
                    else:
                        ctx.ok('order', '%d jobs -> %s' % (n, o[1]))
                elif o[0] == 'abort' and str(o[1]).startswith('memory:'):
                    ctx.bad('order', 'memory', fx.loc(f), o[1])
                else:
                    ctx.unk('order', str(o[1]))
