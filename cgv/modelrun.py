"""Runs the C sources generated for a whole model: all files are linked and interpreted, the calls of the thread pool and of OpenMP are
stand-ins which run the jobs in a chosen order."""
import operator
import re

from .absint import AStr, Cell, FuncRef, Interp, NULL, Obj, PathAbort, Ptr, Term, Vec, _Break, _Continue
from .cexec import CProgram, darray, parray, units
from .cgmodel import NoMeaning, same
from .facts import AnalysisError, walk
from .gen import PTS, atomfun, atomic_call, tval
from .poolsim import Fault


def fname(fx, const, cls='ModelCSourceGen'):
    """the value of a constant with the name of a function"""
    for g in fx.globs.values():
        if g.get('q') == 'CppAD::cg::%s::%s' % (cls, const) and 'init' in g:
            for x in walk(g['init']):
                if x.get('k') == 'str':
                    return x['v']
    raise AnalysisError('anchor not found: the name %s::%s' % (cls, const))


OMP = """
typedef enum omp_sched_t { omp_sched_static = 1, omp_sched_dynamic = 2, omp_sched_guided = 3, omp_sched_auto = 4, omp_sched_monotonic = 0x80000000 } omp_sched_t;
extern void omp_get_schedule(omp_sched_t *, int *);
extern void omp_set_schedule(omp_sched_t, int);
extern int omp_get_thread_num(void);
extern int omp_get_num_threads(void);
extern int omp_get_max_threads(void);
extern void omp_set_num_threads(int);
"""


COMPARE = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}


class ModelProgram(CProgram):
    """directions and weights given as terms are not zero"""
    order = 'forward'
    bench = 0
    disabled = 0
    verbose = 0
    failing = ()       # allocations (by number) that fail
    point = None       # values of the variables, which decide the conditions

    def __init__(self, us, **kw):
        CProgram.__init__(self, us, **kw)
        self.hooks['indirect'] = atomic_call
        e = self.externs = {}
        e['cppadcg_thpool_add_jobs'] = self.add_jobs
        e['cppadcg_thpool_wait'] = self.pool_wait
        e['cppadcg_thpool_get_n_time_meas'] = lambda it, a: it.bench
        e['cppadcg_thpool_is_disabled'] = lambda it, a: it.disabled
        e['cppadcg_thpool_update_order'] = self.update_order
        e['cppadcg_openmp_is_disabled'] = lambda it, a: it.disabled
        e['cppadcg_openmp_is_verbose'] = lambda it, a: it.verbose
        e['cppadcg_openmp_get_threads'] = lambda it, a: 2
        e['cppadcg_openmp_apply_scheduler_strategy'] = self.omp_apply
        e['omp_get_schedule'] = self.omp_get
        e['omp_set_schedule'] = self.omp_set
        e['omp_get_thread_num'] = lambda it, a: 0
        e['clock_gettime'] = self.clock

    def start(self):
        CProgram.start(self)
        self.jobs, self.waited, self.sched, self.reallocs = [], 0, 'user', 0
        self.accesses, self.job, self.regions = {}, None, 0

    def decide(self, cond):
        if isinstance(cond, Term):
            if cond.op in ('==', '!=') and any(isinstance(a, (int, float)) and a == 0 for a in cond.args):
                return cond.op == '!='
            if cond.op == 'realloc fails':
                self.reallocs += 1
                return self.reallocs in self.failing
            if self.point is not None and cond.op in COMPARE:
                a, b = (tval(v, self.point) for v in cond.args)
                return COMPARE[cond.op](a, b)
        return CProgram.decide(self, cond)

    # ---- thread pool stand-in ---------------------------------------------------------------------------
    def elems(self, p, n, what):
        if isinstance(p, Vec):
            p = Ptr(None, p, 0)
        if not isinstance(p, Ptr) or p.vec is None:
            raise Fault('memory', '%s is not an array' % what)
        return [self.deref(Ptr(None, p.vec, p.i + k)) for k in range(n)]

    def add_jobs(self, it, a):
        n = a[6].v
        if not isinstance(n, int):
            raise Fault('value', 'the number of jobs is not known')
        fs = [c.v for c in self.elems(a[0].v, n, 'list of job functions')]
        args = [c.v for c in self.elems(a[1].v, n, 'list of job arguments')]
        for k, w in ((2, 'reference times'), (4, 'order of jobs'), (5, 'threads of jobs')):
            for c in self.elems(a[k].v, n, w):
                if c.v is None:
                    raise Fault('uninitialised', 'the %s are not set' % w)
        order = [c.v for c in self.elems(a[4].v, n, 'order of jobs')]
        if sorted(order) != list(range(n)):
            raise Fault('value', 'the order of the jobs %r does not contain each job' % (order,))
        if a[3].v is not NULL:
            self.elems(a[3].v, n, 'elapsed times')
        self.jobs += [(self.cur, f, x) for f, x in zip(fs, args)]
        return None

    def pool_wait(self, it, a):
        jobs, self.jobs = self.jobs, []
        self.waited += 1
        if self.order == 'backward':
            jobs.reverse()
        old = self.cur
        for k, (u, f, x) in enumerate(jobs):
            if isinstance(f, Ptr) and f.cell is not None:
                f = f.cell.v
            if not isinstance(f, FuncRef):
                raise Fault('value', 'a job without a function')
            self.go(u)
            self.job = k
            try:
                self.call(f.fid, None, [Cell(x)])
            finally:
                self.job = None
        self.go(old)
        self.region_end()
        return None

    # ---- memory used by jobs ------------------------------------------------------------------------------
    def touch(self, cell, write):
        if self.job is None or not isinstance(cell, Cell):
            return
        a = self.accesses.setdefault(id(cell), (cell, {}))[1]
        a[self.job, write] = self.where()

    def region_end(self):
        acc, self.accesses = self.accesses, {}
        self.regions += 1
        for c, a in acc.values():
            w = sorted(k for (k, wr) in a if wr)
            if not w:
                continue
            o = sorted(k for k, _ in a if k != w[0])
            if o:
                raise Fault('race', 'jobs %d and %d can run at the same time and both use the same memory: it is written in %s and %s in %s' %
                            (w[0], o[0], a[w[0], True], 'written' if (o[0], True) in a else 'read', a.get((o[0], True)) or a[o[0], False]))

    def on_store(self, e, cell, old):
        self.touch(cell, True)

    def rv(self, e):
        if self.job is not None and e is not None and (e['k'] in ('ref', 'mem', 'idx') and e.get('dk') not in ('enum', 'func') or e['k'] == 'un' and e.get('op') == '*'):
            c = self.lv(e)
            if isinstance(c, Cell) and not isinstance(c.v, (Vec, FuncRef)):
                self.touch(c, False)
        return CProgram.rv(self, e)

    # ---- OpenMP loops -------------------------------------------------------------------------------------
    def pragma(self, line):
        t = getattr(self.cur, 'lines', None)
        if t is None or not line:
            return None
        k = line - 2
        while k >= 0 and (not t[k].strip() or t[k].rstrip().endswith('\\')):
            k -= 1
        m = re.match(r'\s*#\s*pragma\s+omp\s+(.*)', t[k]) if k >= 0 else None
        return m.group(1) if m else None

    def st_for(self, s):
        d = self.pragma(s.get('l'))
        if not d or not re.match(r'parallel\s+for\b', d) or self.job is not None:
            return CProgram.st_for(self, s)
        names = set()
        for cl in re.findall(r'\b(?:first|last)?private\s*\(([^)]*)\)', d):
            names |= {x.strip() for x in cl.split(',')}
        priv = {x['id'] for x in walk(s['b']) if x.get('k') == 'ref' and x.get('n') in names and 'id' in x} | \
               {x['d'] for x in walk(s['b']) if x.get('k') == 'ref' and x.get('n') in names and 'd' in x}
        fr = self.frames[-1]
        mark = len(fr.locals)
        if 'i' in s:
            self.stmt(s['i'])
        var = [x for x in walk(s['s']) if x.get('k') == 'ref']
        if not var:
            raise PathAbort('the variable of a parallel loop is not found')
        var = var[0]
        vals = []
        while self.rv(s['c']):
            vals.append(self.lv(var).v)
            if len(vals) > 200:
                raise PathAbort('loop bound')
            self.lv(s['s']) if s['s']['k'] != 'expr' else self.stmt(s['s'])
        end = self.lv(var).v
        key = var.get('d')
        saved = {k: fr.env[k] for k in priv | {key} if k in fr.env}
        for k, v in enumerate(reversed(vals) if self.order == 'backward' else vals):
            for p in saved:
                o = saved[p]
                fr.env[p] = Cell(v if p == key else self.default(o.t) if o.t and o.t.endswith(']') else None, o.t)
            if key not in saved:
                raise PathAbort('the variable of a parallel loop is not local')
            self.job = k
            try:
                self.stmt(s['b'])
            except _Continue:
                pass
            finally:
                self.job = None
        for p, c in saved.items():
            fr.env[p] = c
        saved[key].v = end
        self.region_end()
        fr.unwind(self, mark)

    def update_order(self, it, a):
        n = a[4].v
        for k in (0, 2, 3):
            self.elems(a[k].v, n, 'argument of the update of the order of jobs')
        return None

    # ---- OpenMP stand-in --------------------------------------------------------------------------------
    def omp_get(self, it, a):
        self.deref(a[0].v).v = Term('kind', self.sched)
        self.deref(a[1].v).v = Term('modifier', self.sched)
        return None

    def omp_set(self, it, a):
        k, m = a[0].v, a[1].v
        if k is None or m is None:
            raise Fault('uninitialised', 'a schedule that was never read is set')
        self.sched = k.args[0] if isinstance(k, Term) and k.op == 'kind' and isinstance(m, Term) and m.args == k.args else 'other'
        return None

    def omp_apply(self, it, a):
        self.sched = 'library'
        return None

    def clock(self, it, a):
        c = self.deref(a[1].v)
        for f in ('tv_sec', 'tv_nsec'):
            self.field(c, 'timespec::' + f, 'long').v = 5
        return 0


def ptrcell():
    return Cell(NULL)


class Linked:
    """the generated files of a model"""

    def __init__(self, fx, files, name='model'):
        self.fx, self.files, self.name = fx, files, name
        self.us, self.err = units(sorted(files.items()), extra=[('omp.h', OMP)])
        for u in self.us:
            u.lines = files[u.name].splitlines()
        self.atomics = ()

    def fn(self, const):
        return self.name + '_' + fname(self.fx, const)

    def has(self, const):
        n = self.fn(const)
        return any(f['q'] == n and i in u.fx.bodies for u in self.us for i, f in u.fx.funcs.items())

    def program(self, **kw):
        p = ModelProgram(self.us, max_paths=8, max_steps=400000)
        for k, v in kw.items():
            setattr(p, k, v)
        p.atomics = self.atomics
        return p

    def once(self, f, **kw):
        """runs f(program) on the single path there should be: ('ok', value) / ('fault', text) / ('unk', text)"""
        p = self.program(**kw)
        res = []

        def run(it):
            it.start()
            v = f(it)
            lk = it.leaks()
            if lk:
                raise Fault('memory', 'memory allocated in line %s is never released' % lk[0].line)
            if it.jobs:
                raise Fault('value', 'the function returns before its jobs have run')
            if it.sched != 'user':
                raise Fault('value', 'the OpenMP schedule of the caller is not restored')
            return v
        for r in p.explore(run):
            if r[0] == 'ok':
                res.append(('ok', r[1]))
            elif r[0] == 'abort':
                if r[1].split(':')[0] in ('memory', 'link', 'uninitialised', 'value', 'exit', 'race'):
                    return ('fault', r[1])
                return ('unk', r[1])
            else:
                return ('unk', str(r[1]))
        if len(res) != 1:
            return ('unk', '%d paths' % len(res))
        return res[0]


def xs(n):
    return [Term('x%d' % j) for j in range(n)]


def env(pt, n, m):
    e = {'x%d' % j: pt[j % len(pt)] + 0.017 * (j // len(pt)) for j in range(n)}
    e.update({'w%d' % i: 0.71 - 0.33 * i for i in range(m)})
    e.update({'d%d' % j: -0.42 + 0.57 * j for j in range(n)})
    return e


def num(v, e):
    if v is None:
        raise Fault('uninitialised', 'a result is never written')
    return tval(v, e)
