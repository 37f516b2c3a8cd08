"""Abstract execution of the thread pool source: heap of typed blocks, every outcome of a comparison of times, threads run from one
blocking point to the next (lock-protected sections are atomic, which T01 decides)."""
from .absint import Cell, FuncRef, Interp, NULL, Obj, PathAbort, Ptr, Term, Vec, strip_t
from .facts import AnalysisError

NOOP = {'pthread_mutex_init', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_destroy', 'pthread_cond_init', 'pthread_cond_destroy', 'pthread_cond_signal',
        'pthread_cond_broadcast', 'pthread_detach', 'fprintf', 'printf', 'sprintf', 'snprintf', 'prctl', 'sleep', 'usleep', 'fflush', 'pthread_setname_np', 'difftime'}


class Blocked(PathAbort):
    """the running thread waits for a condition"""


class Fault(PathAbort):
    def __init__(self, kind, msg):
        PathAbort.__init__(self, '%s: %s' % (kind, msg))
        self.kind, self.msg = kind, msg


class Block(Vec):
    def __init__(self, n, t, line):
        Vec.__init__(self, [], t, 'heap')
        self.freed = False
        self.line = line
        self.bytes = n


class PoolSim(Interp):
    def __init__(self, fx, flow, **kw):
        Interp.__init__(self, fx, **kw)
        self.flow = flow
        self.hooks = {'*': self.extern}
        self.fail_create = None

    # ---- memory ------------------------------------------------------------------------------------
    def sizeof(self, t):
        return self.layout(strip_t(t).replace('struct ', ''))[0]

    def layout(self, t):
        if t.endswith(']') and '(*)' not in t and t[t.rfind('[') + 1:-1].isdigit():
            n, a = self.layout(strip_t(t[:t.rfind('[')].strip()).replace('struct ', ''))
            return n * int(t[t.rfind('[') + 1:-1]), a
        if t.endswith('*') or '(*)' in t:
            return 8, 8
        if t in ('int', 'unsigned int', 'float') or t in self.fx.enums or t.startswith('enum '):
            return 4, 4
        if t in ('long', 'unsigned long', 'double', 'time_t', 'pthread_t', 'size_t'):
            return 8, 8
        if t == 'char':
            return 1, 1
        if 'timespec' in t:
            return 16, 8
        if 'pthread_mutex_t' in t:
            return 40, 8
        if 'pthread_cond_t' in t:
            return 48, 8
        if t in self.fx.recs:
            off, al = 0, 1
            for f in self.fx.recs[t]['fields']:
                s, a = self.layout(strip_t(self.fx.t(f['t'])).replace('struct ', ''))
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise AnalysisError('size of %s' % t)

    def rv_cast(self, e):
        v = Interp.rv_cast(self, e)
        return self.typed(v, self.ty(e))

    def typed(self, v, t):
        if v == 0 and isinstance(v, int) and not isinstance(v, bool) and ('(*)' in t or strip_t(t).endswith('*')):
            return NULL
        if isinstance(v, Ptr) and isinstance(v.vec, Block) and v.vec.et is None:
            t = strip_t(t)
            if t.endswith('*') and strip_t(t[:-1]) != 'void':
                et = strip_t(t[:-1]).replace('struct ', '')
                n = v.vec.bytes
                sz = self.sizeof(et)
                if n % sz:
                    raise Fault('memory', 'allocation of %d bytes is not a whole number of %s' % (n, et))
                v.vec.et = et
                v.vec.c = [Cell(self.default(et), et) for _ in range(n // sz)]
        return v

    def convert(self, v, t):
        v = self.typed(v, t)
        return v if isinstance(v, Ptr) or v is NULL else Interp.convert(self, v, t)

    def default(self, t):
        t = strip_t(t).replace('struct ', '')
        if t.endswith(']') and not t[t.rfind('[') + 1:-1].isdigit():
            et = t[:t.rfind('[')].strip()
            return Vec([Cell(Interp.default(self, et), et) for _ in range(self.vla)], et, 'array')
        if t.endswith('timespec'):
            o = Obj('timespec')
            return o
        return Interp.default(self, t)

    def deref(self, p, e=None):
        if isinstance(p, Ptr) and isinstance(p.vec, Block):
            if p.vec.freed:
                raise Fault('memory', 'use of memory already released, at line %s' % (e or {}).get('l'))
            if not (isinstance(p.i, int) and 0 <= p.i < len(p.vec.c)):
                raise Fault('memory', 'access beyond a block of %d elements' % len(p.vec.c))
        if p is None:
            raise Fault('memory', 'use of an uninitialised pointer, at line %s' % (e or {}).get('l'))
        return Interp.deref(self, p, e)

    def vecat(self, v, i):
        if isinstance(v, Block) and v.freed:
            raise Fault('memory', 'use of memory already released in %s' % self.where())
        if isinstance(i, int) and not 0 <= i < len(v.c):
            raise Fault('memory', 'index %d of a block of %d elements in %s' % (i, len(v.c), self.where()))
        if i is None:
            raise Fault('memory', 'uninitialised index in %s' % self.where())
        return Interp.vecat(self, v, i)

    def null_deref(self, e):
        raise Fault('memory', 'null pointer dereferenced in %s' % self.where(e))

    # ---- environment -------------------------------------------------------------------------------
    def extern(self, it, f, this, args, line):
        q = f['q']
        if q in NOOP:
            return 0
        if q in ('malloc', 'calloc'):
            n = args[0].v if q == 'malloc' else args[0].v * args[1].v
            if not isinstance(n, int) or n < 0:
                raise Fault('memory', 'allocation of an unknown size at line %s' % line)
            b = Block(n, None, line)
            self.blocks.append(b)
            return Ptr(None, b, 0)
        if q == 'free':
            p = args[0].v
            if p is NULL:
                return None
            if not isinstance(p, Ptr) or not isinstance(p.vec, Block) or p.i != 0:
                raise Fault('memory', 'release of something not allocated, at line %s' % line)
            if p.vec.freed:
                raise Fault('memory', 'memory released twice, at line %s in %s' % (line, self.where()))
            p.vec.freed = True
            return None
        if q == 'pthread_create':
            self.ncreate += 1
            if self.fail_create is not None and self.ncreate > self.fail_create:
                return 11
            self.threads.append(args[3].v)
            self.threadfn = args[2].v
            self.deref(args[0].v)
            for fld in self.flow.alive:
                c = self.poolfield(args[3].v, fld)
                c.v = c.v + 1
            return 0
        if q == 'pthread_cond_wait':
            raise Blocked('waits on a condition in %s' % self.where())
        if q == 'clock_gettime':
            return 0
        if q == 'time':
            # the time passes in the loop that waits for the threads to end
            for th in self.threads:
                for fld in self.flow.alive:
                    self.poolfield(th, fld).v = 0
            return 0
        if q == 'qsort':
            return self.qsort(args[0].v, args[1].v)
        if q == 'exit':
            raise Fault('exit', 'the process is ended')
        return NotImplemented

    def qsort(self, p, n):
        v = p if isinstance(p, Vec) else p.vec
        order = list(range(n))
        # any order of the elements can result
        out = []
        self.nsort = getattr(self, 'nsort', 0) + 1
        while order:
            k = 0
            while k < len(order) - 1 and not self.decide(Term('sort', self.nsort, len(out), k)):
                k += 1
            out.append(order.pop(k))
        vals = [self.copy(v.c[i].v) for i in out]
        for c, x in zip(v.c, vals):
            c.v = x
        return None

    def poolfield(self, arg, fld):
        """the field of the pool object reachable from a thread's argument"""
        rec = fld.rsplit('::', 1)[0]
        seen, todo = set(), [arg]
        while todo:
            x = todo.pop(0)
            if isinstance(x, Ptr):
                x = (self.deref(x)).v
            if isinstance(x, Vec):
                continue
            if isinstance(x, Obj) and id(x) not in seen:
                seen.add(id(x))
                if x.cls == rec:
                    return self.field(Cell(x), fld, strip_t(self.flow.fieldtype[fld]))
                todo += [c.v for c in x.f.values() if isinstance(c.v, (Ptr, Obj))]
        raise AnalysisError('no %s reachable from a thread argument' % rec)

    def call_indirect(self, e):
        fp = e['fp']
        while fp['k'] in ('un', 'cast') and (fp['k'] == 'cast' or fp['op'] in ('*', '&')):
            fp = fp['e']
        fp = self.rv(fp)
        if isinstance(fp, Term) and fp.op == 'job':
            a = [self.rv(x) for x in e['a']]
            self.on_job(fp.args[0], a[0])
            return Cell(None)
        return Interp.call_indirect(self, e)

    def on_job(self, j, arg):
        self.ran.append((j, arg))

    def on_store(self, e, cell, old):
        for k, c in enumerate(self.elapsed_cells):
            if c is cell:
                self.measured.append((k, len(self.ran)))

    # ---- scenario steps -----------------------------------------------------------------------------
    def begin(self, vla=4):
        self.blocks, self.threads, self.ran, self.measured, self.elapsed_cells = [], [], [], [], []
        self.running = []
        self.ncreate, self.vla, self.nsort = 0, vla, 0
        self.__dict__.pop('on_job', None)
        self.globals = {}
        for g in self.fx.globs.values():
            t = self.fx.t(g['t'])
            if '[' in t or not g['q'].isidentifier():
                continue
            from .absint import Frame
            self.frames.append(Frame(None, {}, None))
            try:
                self.globals[g['q']] = Cell(self.convert(self.rv(g['init']), t) if 'init' in g else self.zero(t), strip_t(t))
            finally:
                self.frames.pop()

    def fn(self, name, *args):
        return self.call(self.fx.one(name), None, [Cell(a) for a in args])

    def run_threads(self, order=None):
        """every thread runs until it blocks"""
        for th in (order or self.threads):
            self.run_thread(th)

    def run_thread(self, th):
        for fld in self.flow.alive:
            c = self.poolfield(th, fld)
            c.v = c.v - 1
        self.running = self.running + [th]
        try:
            return self.until_blocked(lambda: self.call(self.threadfn.fid, None, [Cell(th)]))
        finally:
            self.running = self.running[:-1]

    def until_blocked(self, f):
        """whether f waits for a condition"""
        saved = (list(self.frames), self.depth)
        try:
            f()
            return False
        except Blocked:
            self.frames[:], self.depth = saved[0], saved[1]
            return True

    running = []

    def interleave(self, res):
        """while a job runs: waiting does not end, and another thread can take the rest of the work"""
        orig = self.on_job

        def on_job(j, arg):
            idle = [t for t in self.threads if t not in self.running]
            if not self.until_blocked(lambda: self.fn('cppadcg_thpool_wait')):
                res.append(('wait', 'waiting ends while job %d runs' % j))
            else:
                res.append(('wait', None))
            if idle:
                self.run_thread(idle[0])
            orig(j, arg)
        self.on_job = on_job
