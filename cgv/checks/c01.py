"""C01: compiling and linking generated libraries: what the external tools are given, what is left behind, and how their processes are driven."""
import itertools
import math

from .. import facts
from ..absint import AMap, AStr, Cell, CppThrow, Interp, NULL, Obj, PathAbort, Ptr, Stream, Vec
from ..cgmodel import NS
from ..facts import AnalysisError
from ..par import pmap
from ..world import make, vec
from .m03 import text_of

SPEC = {'technique': 'abstract interpretation of the compiler, archiver and library drivers on a model of the file system and of the external tools, with a '
                     'failure at every call of a tool; typestate of descriptors, processes and pipes of the process execution over a model of the kernel, '
                     'for every behaviour of the started tool (amount of input read, amount of output, exit status, signal, not executable)',
        'level': 'other',
        'assumptions': ['a tool does what its command line says: -c compiles one C source, -shared links objects, ar rcs collects objects',
                        'a started tool reads its input before it prints more than a pipe holds', 'files can be written',
                        'fork and pipe only fail as a whole; one thread starts tools at a time']}
STR = 'std::basic_string<char>'
OF = 'std::basic_ofstream'


def strs(l):
    return Vec([Cell(AStr((x,)), STR) for x in l], STR, 'std::vector')


def smap(d):
    m = AMap(STR, STR, False, 'std::map')
    m.d = [[AStr((k,)), Cell(AStr((v,)), STR)] for k, v in sorted(d.items())]
    return m


def throw(msg):
    raise CppThrow(AStr((msg,)), NS + 'CGException', 'tool')


class Tools:
    """file system (path -> content) and the external tools"""

    def __init__(self, it):
        self.fs, self.dirs, self.n, self.fail, self.log, self.bad = {}, set(), 0, None, [], []
        self.loaded = []
        self.open = {}
        h = it.hooks
        h[NS + 'system::callExecutable'] = self.execute
        h[NS + 'system::createFolder'] = self.mkdir
        h['mkdir'] = self.mkdir
        for n in ('remove', 'std::remove', 'unlink', 'rmdir'):
            h[n] = self.remove
        h['dlopen'] = self.dlopen
        for n in ('dlerror',):
            h[n] = lambda *a: NULL
        for n in ('open', 'close', 'operator<<', 'write'):
            h[OF + '::' + n] = lambda i, f, this, args, line, n=n: self.stream(i, f, this, args, line, n)
        h['std::basic_ostream::operator<<'] = lambda i, f, this, args, line: self.stream(i, f, this, args, line, 'operator<<')
        h['std::operator<<'] = lambda i, f, this, args, line: self.stream(i, f, args[0], args[1:], line, 'operator<<')

    def path(self, p):
        while '//' in p:
            p = p.replace('//', '/')
        return p[2:] if p.startswith('./') else p

    def stream(self, it, f, this, args, line, n):
        s = this.v if isinstance(this, Cell) else this
        if not isinstance(s, Stream):
            return NotImplemented
        if n == 'open':
            s.path = self.path(text_of(args[0].v))
            self.fs[s.path] = ('text', '')
            s.out = []
            return None
        p = getattr(s, 'path', None)
        if p is None:
            return NotImplemented
        if n == 'close':
            self.fs[p] = ('text', s.s().s() if s.s().conc() else s.s())
            s.path = None
            return None
        return NotImplemented

    def mkdir(self, it, f, this, args, line):
        self.dirs.add(self.path(text_of(args[0].v)).rstrip('/'))
        return 0

    def remove(self, it, f, this, args, line):
        p = self.path(text_of(args[0].v)).rstrip('/')
        if p in self.fs:
            del self.fs[p]
            return 0
        if p in self.dirs and not any(x.startswith(p + '/') for x in self.fs):
            self.dirs.discard(p)
            return 0
        return -1

    def dlopen(self, it, f, this, args, line):
        self.loaded.append(self.path(text_of(args[0].v)))
        throw('loaded')

    def execute(self, it, f, this, args, line):
        exe = text_of(args[0].v)
        a = [text_of(c.v) for c in args[1].v.c]
        stdin = args[3].v if len(args) > 3 else NULL
        out = args[2].v if len(args) > 2 else NULL
        k = self.n
        self.n += 1
        self.log.append((exe, a))
        if self.fail == k:
            throw('tool failed')
        if a == ['--version']:
            if isinstance(out, Ptr):
                it.deref(out).v = AStr(('clang version 18.1.3\n',))
            return None
        src = None
        if stdin is not NULL:
            src = text_of(it.deref(stdin).v)
        self.tool(exe, a, src)
        return None

    def tool(self, exe, a, stdin):
        if exe == 'AR':
            if not a or 'c' not in a[0] or 'r' not in a[0]:
                return self.bad.append('the archiver is started with %s' % a)
            rest = [x for x in a[1:] if not x.startswith('-f')]
            flags = [x for x in a[1:] if x.startswith('-f')]
            self.fs[rest[0]] = ('lib', 'static', exe, tuple(flags), tuple(sorted(map(repr, self.objects(rest[1:])))))
            return
        outs = [i for i, x in enumerate(a) if x == '-o']
        if len(outs) != 1 or outs[0] + 1 >= len(a):
            return self.bad.append('the output file is not given: %s' % a)
        o = self.path(a[outs[0] + 1])
        rest = a[:outs[0]] + a[outs[0] + 2:]
        if '-c' in rest:
            lang = None
            ins, flags, i = [], [], 0
            while i < len(rest):
                if rest[i] == '-x':
                    lang = rest[i + 1]
                    i += 2
                    continue
                if rest[i] == '-':
                    ins.append(('stdin', stdin))
                elif not rest[i].startswith('-'):
                    p = self.path(rest[i])
                    if lang is None and p.endswith('.c'):
                        lang = 'c'
                    ins.append((p, self.fs[p][1] if p in self.fs else None))
                elif rest[i] != '-c':
                    flags.append(rest[i])
                i += 1
            if len(ins) != 1 or ins[0][1] is None:
                return self.bad.append('%s inputs of a compilation: %s' % (len(ins), a))
            if lang != 'c':
                return self.bad.append('the language of the source is not given: %s' % a)
            d = o.rsplit('/', 1)[0]
            if d not in self.dirs:
                self.bad.append('the folder of %s does not exist' % o)
            self.fs[o] = ('obj', ins[0][1], exe, tuple(sorted(flags)))
        else:
            flags = [x for x in rest if x.startswith('-')]
            if '-shared' not in flags:
                self.bad.append('a dynamic library is not linked as shared: %s' % a)
            self.fs[o] = ('lib', 'dynamic', exe, tuple(flags), tuple(sorted(map(repr, self.objects([x for x in rest if not x.startswith('-')])))))

    def objects(self, l):
        r = []
        for x in map(self.path, l):
            if x not in self.fs:
                self.bad.append('%s is linked and does not exist' % x)
            else:
                r.append(self.fs[x])
        return r


class Lib:
    """library generator with given sources"""

    def __init__(self, it, fx, models, lib, custom):
        C = NS + 'ModelLibraryCSourceGen'
        self.cls = C + '<double>'
        self.srcs = models
        objs, self.keep = {}, []
        h = it.hooks
        maps = {}

        def name(i, f, this, args, line):
            return AStr((objs[id(this)],))

        def sources(i, f, this, args, line):
            n = objs[id(this)]
            return maps.setdefault(n, Cell(smap(models[n])))
        self.objs, self.maps = objs, maps
        prev = {n: h.get(NS + 'ModelCSourceGen::' + n) for n in ('getName', 'getSources')}

        def mine(g, n):
            return lambda i, f, this, args, line: g(i, f, this, args, line) if id(this) in objs else prev[n](i, f, this, args, line)
        h[NS + 'ModelCSourceGen::getName'] = mine(name, 'getName')
        h[NS + 'ModelCSourceGen::getSources'] = mine(sources, 'getSources')
        h[C + '::getLibrarySources'] = lambda i, f, this, args, line: maps.setdefault(0, Cell(smap(lib)))
        ms = []
        for n in models:
            c = Cell(Obj(NS + 'ModelCSourceGen<double>'), NS + 'ModelCSourceGen<double>')
            objs[id(c)] = n
            self.keep.append(c)
            ms.append(c)
        self.o = make(it, self.cls, [ms[0]], pred=lambda p: len(p) == 1 and 'ModelCSourceGen' in p[0] and '&&' not in p[0] and 'Library' not in p[0])
        for m in ms[1:]:
            it.call(fx.one(C + '::addModel', clsx=self.cls), self.o, [m])
        for k, v in custom.items():
            it.call(fx.one(C + '::addCustomFunctionSource', clsx=self.cls), self.o, [Cell(AStr((k,)), STR), Cell(AStr((v,)), STR)])


def compiler(it, fx, kind, save, cflags, lflags, tmp):
    cls = NS + kind + '<double>'
    o = make(it, cls, [Cell(AStr((kind,)), STR)], pred=lambda p: len(p) == 1 and 'basic_string' in p[0])

    def call(n, *args):
        return method(it, fx, o, cls, n, list(args))
    for x in cflags:
        call('addCompileFlag', Cell(AStr((x,)), STR))
    for x in lflags:
        call('addLinkFlag', Cell(AStr((x,)), STR))
    call('setTemporaryFolder', Cell(AStr((tmp,)), STR))
    call('setSaveToDiskFirst', Cell(save, 'bool'))
    call('setSourcesFolder', Cell(AStr(('src',)), STR))
    return o, call


def method(it, fx, o, cls, n, args):
    for c in fx.mro(cls):
        r = [i for i in fx.by_cls.get(c, ()) if fx.funcs[i]['n'] == n and i in fx.bodies and len(fx.ptypes(i)) >= len(args)
             and not fx.funcs[i].get('static')]
        r = [i for i in r if len(fx.ptypes(i)) == min(len(fx.ptypes(j)) for j in r)]
        if r:
            return it.call(r[0], o, args)
    raise AnalysisError('anchor not found: %s::%s' % (cls, n))


MODELS = {'a': {'a_forward_zero.c': 'A0;', 'a_info.c': 'AI;'}, 'b': {'b_forward_zero.c': 'B0;'}}
OTHER = {'zz': {'zz_forward_zero.c': 'Z0;'}}
ONE = {'a': MODELS['a']}
LIB = {'cppad_cg_version.c': 'V;', 'cppad_cg_models.c': 'M;'}
CUSTOM = {'mine.c': 'int mine;'}


def want(sources, exe, flags):
    return tuple(sorted(repr(('obj', s, exe, tuple(sorted(flags)))) for s in sources))


def all_sources(models, custom):
    return [s for m in models.values() for s in m.values()] + list(LIB.values()) + list(custom.values())


def real(n, v):
    try:
        return float(getattr(math, n)(v)) if isinstance(v, (int, float)) else NotImplemented
    except ValueError:
        return NotImplemented
    except OverflowError:
        return v


def interp(fx):
    it = Interp(fx, max_paths=16, max_steps=400000, loop_bound=40)
    for n in ('startingJob', 'finishedJob'):
        it.hooks[NS + 'JobTimer::' + n] = lambda *a: None
    for n in ('log10', 'ceil', 'log', 'floor', 'log2'):
        for q in ('', 'std::'):
            it.hooks[q + n] = lambda i, f, this, args, line, n=n: real(n, args[0].v)
    it.hooks['std::chrono::_V2::steady_clock::now'] = lambda *a: Obj('std::chrono::time_point')
    return it


def dynamic_cases(thorough):
    for kind in ('GccCompiler', 'ClangCompiler'):
        for save in (False, True):
            for models, custom in ((ONE, {}), (MODELS, CUSTOM)):
                for ext in (None, '.lib'):
                    for static in (None, False, True):
                        yield kind, save, models, custom, ext, static


def drive(fx, case, fail=None, again=False, before=None, out=None):
    """create a library; returns a list of complaints for every path"""
    kind, save, models, custom, ext, static = case
    it = interp(fx)
    cf, lf = ['-DX', '-g'], ['-z,now', '--as-needed']

    def run(i):
        t = Tools(i)
        bad = t.bad
        lib = Lib(i, fx, models, LIB, custom)
        if again:
            lib.other = Lib(i, fx, OTHER, LIB, {})
        comp, call = compiler(i, fx, kind, save, cf, lf, 'tmp')
        pc = NS + 'DynamicModelLibraryProcessor<double>'
        p = make(i, pc, [lib.o, Cell(AStr(('dir/lib',)), STR)], pred=lambda q: len(q) == 2)
        if ext:
            method(i, fx, p, pc, 'setCustomLibraryExtension', [Cell(AStr((ext,)), STR)])
        ar = None
        if static is not None:
            ar = make(i, NS + 'ArArchiver', [Cell(AStr(('AR',)), STR)], pred=lambda q: len(q) == 1 and 'basic_string' in q[0])
            method(i, fx, ar, NS + 'ArArchiver', 'setFlags', [Cell(strs(['-fx']))])
        if before == 'bitcode':
            call('generateLLVMBitCode', Cell(smap({'q.c': 'Q;'})), Cell(NULL))
            got = t.fs.get('tmp/q.c.bc')
            if got is None or '-emit-llvm' not in got[3] or got[1] != 'Q;':
                bad.append('the bit code file is not generated: %r' % (got,))
            call('cleanup')
        t.fail = fail
        t.n = 0

        def create(load):
            if static is None:
                method(i, fx, p, pc, 'createDynamicLibrary', [comp, Cell(load, 'bool')])
            else:
                method(i, fx, p, pc, 'createStaticLibrary', [comp, ar, Cell(static, 'bool')])

        def attempt(load):
            try:
                create(load)
                return None
            except CppThrow as e:
                return text_of(e.val) if isinstance(e.val, AStr) else 'exception'
        r = attempt(False)
        n = t.n
        if fail is not None and fail < n:
            if r is None:
                bad.append('the failure of a tool is not reported')
        elif r is not None:
            bad.append('refused: %s' % r)
        left = sorted(x for x in t.fs if x.startswith('tmp'))
        if left:
            bad.append('%s is left behind' % left[0])
        if 'tmp' in t.dirs:
            bad.append('the temporary folder is left behind')
        name = 'dir/lib' + (ext or ('.so' if static is None else '.a'))
        if fail is not None:
            if name in t.fs and fail < n:
                bad.append('a library is left although a tool failed')
            t.fail = None
            r = attempt(False)
            if r is not None:
                bad.append('refused after a failure: %s' % r)
        if again:
            # a library of other models was made before with the same compiler
            t.fs.pop(name, None)
            other = make(i, pc, [lib.other.o, Cell(AStr(('dir/other',)), STR)], pred=lambda q: len(q) == 2)
            try:
                if static is None:
                    method(i, fx, other, pc, 'createDynamicLibrary', [comp, Cell(False, 'bool')])
                else:
                    method(i, fx, other, pc, 'createStaticLibrary', [comp, ar, Cell(static, 'bool')])
            except CppThrow:
                bad.append('the library of other models is refused')
            r = attempt(False)
            if r is not None:
                bad.append('the second library is refused: %s' % r)
        for q in ('getObjectFiles', 'getSourceFiles') + (('getBitCodeFiles',) if kind == 'ClangCompiler' else ()):
            v = call(q)
            v = v.v if isinstance(v, Cell) else v
            if isinstance(v, (AMap, Vec)) and len(v.d if isinstance(v, AMap) else v.c):
                bad.append('%s() names files which were deleted' % q)
        flags = ['-O2'] + cf + (['-fPIC'] if static is not False else [])
        got = t.fs.get(name)
        if got is None:
            bad.append('the library %s is not created' % name)
        else:
            w = want(all_sources(models, custom), kind, flags)
            if got[4] != w:
                diff = sorted(set(got[4]) ^ set(w)) or sorted(x for x in set(got[4]) if got[4].count(x) != w.count(x))
                bad.append('the library does not consist of the objects of its sources: %s' % '; '.join(diff[:3]))
            if static is None:
                fl = ','.join(got[3])
                for x in lf:
                    if x not in fl:
                        bad.append('the link flag %s is not passed on' % x)
                if 'lib' + (ext or '.so') not in fl:
                    bad.append('the library is linked with another name: %s' % fl)
            elif '-fx' not in got[3]:
                bad.append('the flags of the archiver are not passed on')
        if save:
            for s, v in [x for m in models.values() for x in m.items()] + list(LIB.items()) + list(custom.items()):
                if t.fs.get('src/' + s) != ('text', v):
                    bad.append('the source %s is not saved' % s)
        if static is None and fail is None:
            attempt(True)
            if t.loaded != [name]:
                bad.append('the library loaded is %s, the one created is %s' % (', '.join(t.loaded) or 'none', name))
        del lib
        return n, list(dict.fromkeys(bad))
    res = list(it.explore(run))
    return res, it.visited


def label(case):
    kind, save, models, custom, ext, static = case
    return '%s, %s, %d models%s%s%s' % (kind, 'dynamic' if static is None else 'static, position %sdependent' % ('in' if static else ''), len(models),
                                        ', custom source' if custom else '', ', saved to disk first' if save else '', ', extension %s' % ext if ext else '')


def driver_jobs(fx, thorough):
    for c in dynamic_cases(thorough):
        yield c, None, True, None
    for c in dynamic_cases(thorough):
        if c[4] is None:
            yield c, 'each', False, None
        if c[0] == 'ClangCompiler' and c[4] is None:
            yield c, None, False, 'bitcode'


def decide(a):
    fx, (c, fail, again, before) = a
    out, vis = [], set()
    if fail == 'each':
        res, v = drive(fx, c)
        vis |= v
        n = max([r[1][0] for r in res if r[0] == 'ok'] or [0])
        for k in range(n):
            res, v = drive(fx, c, fail=k)
            vis |= v
            out += [('failure', '%s, call %d of a tool fails' % (label(c), k + 1), r) for r in res]
    else:
        res, v = drive(fx, c, again=again, before=before)
        vis |= v
        out += [('bitcode' if before else 'library', label(c), r) for r in res]
    return [(g, l, r[0], r[1][1] if r[0] == 'ok' else str(r[1])) for g, l, r in out], vis


def alone(a):
    """the compiler classes without a library generator: nothing or something to compile, with and without messages"""
    fx, kind, verbose, save, pic, tmp = a
    it = interp(fx)

    def run(i):
        t = Tools(i)
        comp, call = compiler(i, fx, kind, save, ['-DX'], ['-z,now'], tmp)
        call('setVerbose', Cell(verbose, 'bool'))
        call('compileSources', Cell(smap({})), Cell(pic, 'bool'), Cell(NULL))
        if t.log or t.fs:
            t.bad.append('something is compiled although there is no source')
        call('compileSources', Cell(smap(LIB)), Cell(pic, 'bool'), Cell(NULL))
        call('buildDynamic', Cell(AStr(('one.so',)), STR), Cell(NULL))
        call('compileSources', Cell(smap(CUSTOM)), Cell(pic, 'bool'), Cell(NULL))
        call('buildDynamic', Cell(AStr(('two.so',)), STR), Cell(NULL))
        call('cleanup')
        flags = ['-O2', '-DX'] + (['-fPIC'] if pic else [])
        for n, src in (('one.so', list(LIB.values())), ('two.so', list(LIB.values()) + list(CUSTOM.values()))):
            if n not in t.fs or t.fs[n][4] != want(src, kind, flags):
                t.bad.append('%s does not consist of the objects compiled until then: %r' % (n, t.fs.get(n)))
        left = sorted(x for x in t.fs if x.startswith('tmp'))
        if left or 'tmp' in t.dirs:
            t.bad.append('temporary files are left behind: %s' % (left or 'the folder'))
        return 0, list(dict.fromkeys(t.bad))
    lab = '%s alone%s%s%s, folder %s' % (kind, ', verbose' if verbose else '', ', saved to disk first' if save else '', ', position independent' if pic else '', tmp)
    return [('library', lab, r[0], r[1][1] if r[0] == 'ok' else str(r[1])) for r in it.explore(run)], it.visited


def saving(fx, ctx):
    C = NS + 'SaveFilesModelLibraryProcessor<double>'
    for folder, custom in itertools.product(('src', 'src/'), ({}, CUSTOM)):
        it = interp(fx)

        def run(i):
            t = Tools(i)
            lib = Lib(i, fx, MODELS, LIB, custom)
            p = make(i, C, [lib.o], pred=lambda q: len(q) == 1 and 'ModelLibraryCSourceGen' in q[0])
            method(i, fx, p, C, 'saveSourcesTo', [Cell(AStr((folder,)), STR)])
            w = {'src/' + s: ('text', v) for m in list(MODELS.values()) + [LIB, custom] for s, v in m.items()}
            if 'src' not in t.dirs:
                return 'the folder is not created'
            if t.fs != w:
                return 'files %s instead of %s' % (sorted(t.fs.items()), sorted(w.items()))
        for r in it.explore(run):
            lab = 'folder %s%s' % (folder, ', custom source' if custom else '')
            loc = fx.loc(fx.one(C.split('<')[0] + '::saveSourcesTo', clsx=C))
            if r[0] == 'ok' and r[1] is None:
                ctx.ok('saved', lab)
            elif r[0] == 'ok':
                ctx.bad('saved', 'sources', loc, '%s: %s' % (lab, r[1]))
            else:
                ctx.unk('saved', '%s: %s' % (lab, r[1]))


# ---------------------------------------------------------------------------------------------------------------------------------------
# processes: the kernel as the calling process sees it

CAP = 65536


class Stop(PathAbort):
    """the process ended here"""


class Raii(Interp):
    """members are destroyed with the objects that hold them"""

    def destroy(self, cell):
        v = cell.v
        Interp.destroy(self, cell)
        if isinstance(v, Obj) and v.lazy is None and getattr(v, 'cls', '').startswith(NS):
            for c in reversed(list(v.f.values())):
                if isinstance(c.v, Obj) and c.v.cls.startswith(NS):
                    self.destroy(c)


class Pipe:
    def __init__(self):
        self.data, self.r, self.w = [], set(), set()


class Kernel:
    """pipes and descriptors of the calling process (P) and the started one (C); the behaviour of the started tool is given:
    tool = dict(reads=None (everything) or a number of bytes, prints=number of bytes, status=(exit code | -signal), starts=False: exec fails)"""

    def __init__(self, it, side, fork_ok=True, tool=None, table=None, size=0, pipe_ok=99, short=False):
        self.it, self.side, self.tool, self.table, self.size = it, side, tool, table, size
        self.fork_ok, self.pipe_ok, self.short = fork_ok, pipe_ok, short
        self.proc = 'P'
        self.fd = {'P': {0: 'in', 1: 'out', 2: 'err'}}
        self.next, self.npipes, self.bad, self.errno = 5, 0, [], Cell(0, 'int')
        self.forked = self.reaped = False
        self.exec, self.exit = None, None
        self.masked, self.ignored, self.pending = False, False, False
        self.sent, self.got = 0, {}
        self.message = None
        h = it.hooks
        for n in ('pipe', 'pipe2', 'close', 'dup2', 'fork', 'vfork', 'execv', 'exit', '_exit', 'read', 'write', 'waitpid', 'signal', 'sigaction',
                  'pthread_sigmask', 'sigprocmask', 'sigpending', 'sigwait', 'sigtimedwait', 'sigemptyset', 'sigaddset', 'sigismember',
                  'fcntl', 'kill', 'poll', 'select'):
            m = getattr(self, 'do_' + n, None)
            for q in ('', 'std::'):
                h[q + n] = m if m is not None else lambda i, f, this, args, line, n=n: self.unknown(n)
        h['__errno_location'] = lambda *a: Ptr(self.errno)
        h['perror'] = lambda *a: None
        for n in ('strerror_r', '__xpg_strerror_r', 'strerror'):
            h[n] = lambda *a: AStr(('message',))
        h['std::basic_ostream::write'] = self.collect

    def unknown(self, n):
        raise PathAbort('unmodelled system call ' + n)

    def misuse(self, w):
        self.bad.append(w)

    def collect(self, it, f, this, args, line):
        s = this.v
        if isinstance(s, Stream):
            s.out.append('%d;' % args[1].v)
            return this
        return NotImplemented

    # descriptors
    def do_pipe(self, it, f, this, args, line):
        if self.npipes >= self.pipe_ok:
            self.errno.v = 24
            return -1
        self.npipes += 1
        p = Pipe()
        a = args[0].v
        for k, e in ((0, 'r'), (1, 'w')):
            n = self.next
            self.next += 1
            self.fd[self.proc][n] = (p, e)
            getattr(p, e).add((self.proc, n))
            self.slot(a, k).v = n
        return 0

    def slot(self, a, k):
        if isinstance(a, Vec):
            return a.c[k]
        if isinstance(a, Ptr) and a.vec is not None:
            return a.vec.c[(a.i or 0) + k]
        raise PathAbort('array of descriptors is not known')

    do_pipe2 = do_pipe

    def num(self, v, w):
        if not isinstance(v, int):
            raise PathAbort('%s: the descriptor is not known' % w)
        return v

    def drop(self, proc, n):
        e = self.fd[proc].pop(n)
        if isinstance(e, tuple):
            getattr(e[0], e[1]).discard((proc, n))

    def do_close(self, it, f, this, args, line):
        n = self.num(args[0].v, 'close')
        if n not in self.fd[self.proc]:
            self.misuse('a descriptor which is not open is closed')
            self.errno.v = 9
            return -1
        self.drop(self.proc, n)
        return 0

    def do_dup2(self, it, f, this, args, line):
        a, b = self.num(args[0].v, 'dup2'), self.num(args[1].v, 'dup2')
        t = self.fd[self.proc]
        if a not in t:
            self.misuse('a descriptor which is not open is duplicated')
            self.errno.v = 9
            return -1
        if a != b:
            if b in t:
                self.drop(self.proc, b)
            t[b] = t[a]
            if isinstance(t[b], tuple):
                getattr(t[b][0], t[b][1]).add((self.proc, b))
        return b

    def do_fcntl(self, it, f, this, args, line):
        return 0

    # processes
    def do_fork(self, it, f, this, args, line):
        if not self.fork_ok:
            self.errno.v = 11
            return -1
        if self.forked:
            self.misuse('two processes are started')
        self.forked = True
        if self.side == 'C':
            self.fd['C'] = dict(self.fd['P'])
            for n, e in self.fd['C'].items():
                if isinstance(e, tuple):
                    getattr(e[0], e[1]).add(('C', n))
            self.proc = 'C'
            return 0
        # the child as it was seen on the other side of the fork
        self.ends = {n: e for n, e in self.fd['P'].items() if isinstance(e, tuple)}
        self.child = {}
        for n, m in (self.table or {}).items():
            p = self.ends.get(m)
            if p is not None:
                self.child[n] = p
                getattr(p[0], p[1]).add(('C', n))
        t = self.tool
        self.unread = self.size if t['reads'] is None else min(self.size, t['reads'])
        self.toprint = t['prints']
        self.msg = t.get('message', 0)
        self.dead = False
        self.progress()
        return 321

    def do_vfork(self, *a):
        self.misuse('vfork')
        return self.do_fork(*a)

    def do_execv(self, it, f, this, args, line):
        self.errno.v = 2
        if self.proc != 'C':
            self.misuse('the calling process itself is replaced')
        v = args[1].v
        if isinstance(v, Vec):
            v = Ptr(None, v, 0)
        argv = []
        if isinstance(v, Ptr) and v.vec is not None:
            for c in v.vec.c[(v.i or 0):]:
                if c.v is NULL:
                    argv.append(None)
                    break
                argv.append(self.text(c.v))
        self.exec = (text_of(args[0].v), argv, dict(self.fd['C']))
        if self.tool is None or self.tool.get('starts', True):
            raise Stop('exec')
        return -1

    def text(self, p):
        if isinstance(p, Vec):
            p = Ptr(None, p, 0)
        if isinstance(p, AStr):
            return text_of(p)
        if isinstance(p, Ptr) and p.vec is not None:
            out = ''
            for c in p.vec.c[(p.i or 0):]:
                if c.v == 0:
                    return out
                if not isinstance(c.v, int):
                    return None
                out += chr(c.v)
            self.misuse('an argument is not terminated')
        return None

    def do_exit(self, it, f, this, args, line):
        self.exit = args[0].v
        raise Stop('exit')

    do__exit = do_exit

    # the started tool runs as far as it can; it can not do more when it waits for input or for somebody to read its output
    def progress(self):
        if self.dead:
            return
        src = self.child.get(0)
        if self.unread:
            if not isinstance(src, tuple):
                self.unread = 0
            else:
                n = min(len(src[0].data), self.unread)
                del src[0].data[:n]
                self.unread -= n
                if self.unread and src[0].w:
                    return
                self.unread = 0
        elif self.tool['reads'] is None and isinstance(src, tuple) and src[0].w:
            # waits for the end of its input
            return
        out = self.child.get(1)
        if self.toprint and isinstance(out, tuple):
            if not out[0].r:
                self.toprint = 0
            n = min(CAP - len(out[0].data), self.toprint)
            out[0].data += [1] * n
            self.toprint -= n
            if self.toprint:
                return
        if self.msg:
            for e in self.child.values():
                if e[1] == 'w' and e[0] is not (out[0] if isinstance(out, tuple) else None):
                    e[0].data += [1] * self.msg
                    break
            self.msg = 0
        self.dead = True
        for n, e in self.child.items():
            getattr(e[0], e[1]).discard(('C', n))

    def do_read(self, it, f, this, args, line):
        if self.proc != 'P':
            raise PathAbort('the started process reads')
        e = self.fd['P'].get(self.num(args[0].v, 'read'))
        if not isinstance(e, tuple) or e[1] != 'r':
            self.misuse('something is read from a descriptor which is not the reading end of a pipe')
            return -1
        if not self.forked:
            raise PathAbort('read before fork')
        p = e[0]
        self.progress()
        n = args[2].v
        b = args[1].v
        if isinstance(b, Vec):
            b = Ptr(None, b, 0)
        if isinstance(b, Ptr) and b.vec is not None and isinstance(n, int) and n > len(b.vec.c):
            self.misuse('more is read than the buffer holds')
        if p.data:
            # chunks as large as possible: the amounts are what matters
            k = min(n, len(p.data))
            del p.data[:k]
            self.progress()
            self.got[id(p)] = self.got.get(id(p), 0) + k
            return k
        if p.w:
            if any(pr == 'P' for pr, _ in p.w):
                self.misuse('the caller waits for the end of a pipe which it keeps open itself')
            else:
                self.misuse('the caller waits for output while the started process waits for the caller')
            raise Stop('deadlock')
        return 0

    def do_write(self, it, f, this, args, line):
        n = self.num(args[0].v, 'write')
        k = args[2].v
        e = self.fd[self.proc].get(n)
        if self.proc == 'C':
            if isinstance(e, tuple) and e[1] == 'w':
                self.message = (e[0], k)
                return k
            self.misuse('the started process writes to a descriptor which is not open')
            return -1
        if not isinstance(e, tuple) or e[1] != 'w':
            self.misuse('something is written to a descriptor which is not the writing end of a pipe')
            return -1
        if not isinstance(k, int):
            raise PathAbort('amount written is not known')
        p = e[0]
        if any(pr == 'P' for pr, _ in p.r):
            self.misuse('the caller keeps the reading end of the pipe it writes to open (it waits forever if the started process ends early)')
        done = 0
        left = k
        if self.short and k > 1 and not self.sent:
            left = k // 2
        while left:
            self.progress()
            if not p.r:
                if done:
                    break
                self.errno.v = 32
                if not self.ignored and not self.masked:
                    self.misuse('the caller is killed by SIGPIPE when the started process ends without reading all of its input')
                    raise Stop('SIGPIPE')
                if self.masked:
                    self.pending = True
                return -1
            m = min(CAP - len(p.data), left)
            if m == 0:
                self.misuse('the caller waits to write while the started process waits for the caller')
                raise Stop('deadlock')
            p.data += [1] * m
            left -= m
            done += m
        self.progress()
        self.sent += done
        return done

    def do_waitpid(self, it, f, this, args, line):
        if args[0].v not in (321, -1) or self.reaped:
            self.misuse('the caller waits for another process')
            self.errno.v = 10
            return -1
        self.progress()
        if not self.dead:
            self.misuse('the caller waits for the end of the started process, which waits for the caller to %s' %
                        ('read its output' if self.toprint and not self.unread else 'close its input'))
            raise Stop('deadlock')
        self.reaped = True
        s = self.tool['status']
        c = args[1].v
        if isinstance(c, Ptr):
            self.it.deref(c).v = (s & 0xff) << 8 if s >= 0 else -s
        return 321

    # signals
    def do_signal(self, it, f, this, args, line):
        if args[0].v == 13:
            old, self.ignored = self.ignored, args[1].v is not NULL and getattr(args[1].v, 'i', 1) != 0 and args[1].v != 0
            return old
        return NULL

    def mask(self, it, f, this, args, line):
        how, s = args[0].v, args[1].v
        if len(args) > 2 and isinstance(args[2].v, Ptr):
            it.deref(args[2].v).v = Obj('sigset', tag='old%d' % self.masked)
        if isinstance(s, Ptr):
            t = it.deref(s).v
            if isinstance(t, Obj) and (t.tag or '').startswith('old'):
                self.unmask(t.tag == 'old1')
            elif how == 0:
                self.masked = True
            elif how == 1:
                self.unmask(False)
            else:
                raise PathAbort('signal mask is not known')
        return 0

    do_pthread_sigmask = do_sigprocmask = mask

    def unmask(self, m):
        self.masked = m
        if not m and self.pending:
            self.misuse('the caller is killed by the SIGPIPE which is still pending')
            raise Stop('SIGPIPE')

    def do_sigemptyset(self, it, f, this, args, line):
        it.deref(args[0].v).v = Obj('sigset', tag='new')
        return 0

    def do_sigaddset(self, it, f, this, args, line):
        return 0

    def do_sigpending(self, it, f, this, args, line):
        it.deref(args[0].v).v = Obj('sigset', tag='pending%d' % self.pending)
        return 0

    def do_sigismember(self, it, f, this, args, line):
        t = it.deref(args[0].v).v
        return int(isinstance(t, Obj) and t.tag == 'pending1')

    def do_sigwait(self, it, f, this, args, line):
        if not self.pending:
            self.misuse('the caller waits for a signal which does not come')
            raise Stop('deadlock')
        self.pending = False
        return 0

    def do_sigtimedwait(self, it, f, this, args, line):
        r, self.pending = (13 if self.pending else -1), False
        return r


ARGS = ['-c', 'a b', '']


def start(fx, side, out, inp, **kw):
    """one call of callExecutable, seen from one side of the fork"""
    it = Raii(fx, max_paths=8, max_steps=200000, loop_bound=2500)
    size = kw.get('size', 0)
    ks = []

    def run(i):
        k = Kernel(i, side, **kw)
        ks[:] = [k]
        o = Cell(AStr(('before',)), STR)
        s = AStr(('x' * size,))
        args = [Cell(AStr(('/bin/tool',)), STR), Cell(strs(ARGS)), Cell(Ptr(o) if out else NULL), Cell(Ptr(Cell(s, STR)) if inp else NULL)]
        k.result = None
        k.o = o
        try:
            i.call(fx.one(NS + 'system::callExecutable'), None, args)
            k.result = 'returns'
        except CppThrow:
            k.result = 'throws'
        except Stop as e:
            k.result = str(e)
        return k
    res = list(it.explore(run))
    return res, it


def processes(a):
    fx, out, inp = a
    bad, ok, unk, vis = [], [], [], set()

    def judge(lab, res, it, f):
        vis.update(it.visited)
        for r in res:
            if r[0] != 'ok':
                unk.append('%s: %s' % (lab, r[1]))
                continue
            k = r[1]
            w = list(k.bad) or f(k)
            if w:
                bad.append((lab, (w if isinstance(w, str) else w[0])))
            else:
                ok.append(lab)
        return [r[1] for r in res if r[0] == 'ok']
    how = 'with%s input and with%s output' % ('' if inp else 'out', '' if out else 'out')

    # the started side
    def child(k):
        if k.result != 'exec':
            return 'the started process %s instead of becoming the tool' % k.result
        path, argv, fd = k.exec
        if path != '/bin/tool':
            return 'another file is executed: %s' % path
        if argv != ['tool'] + ARGS + [None]:
            return 'the arguments are %s' % argv
        pipes = [e for e in fd.values() if isinstance(e, tuple)]
        if inp:
            e = fd.get(0)
            if not isinstance(e, tuple) or e[1] != 'r':
                return 'the input of the tool is not the source'
            if any(x[0] is e[0] and x[1] == 'w' for x in pipes):
                return 'the tool keeps the writing end of its input open (its input never ends)'
        if out:
            if any(not isinstance(fd.get(n), tuple) or fd[n][1] != 'w' for n in (1, 2)) or fd[1][0] is not fd[2][0]:
                return 'the output and the errors of the tool are not collected'
        return ''
    res, it = start(fx, 'C', out, inp, size=10 if inp else 0)
    ks = judge('%s: the started process' % how, res, it, child)
    if not ks or ks[0].exec is None:
        return ok, bad, unk, vis

    def noexec(k):
        if k.result != 'exit':
            return 'the started process %s when the tool can not be executed' % (k.result or 'continues')
        if k.exit == 0:
            return 'the started process ends successfully when the tool can not be executed'
        return ''
    res, it = start(fx, 'C', out, inp, size=10 if inp else 0, tool={'starts': False})
    ke = judge('%s: the tool can not be executed' % how, res, it, noexec)

    def table(k, fds):
        m = {}
        for n, e in fds.items():
            if isinstance(e, tuple):
                m[n] = [q for q, x in k.fd['P'].items() if isinstance(x, tuple) and x[0] is e[0] and x[1] == e[1]][:1]
        return {n: q[0] for n, q in m.items() if q}
    tab = table(ks[0], ks[0].exec[2])

    def caller(t):
        def f(k):
            fail = t['status'] != 0
            leak = [n for n in k.fd['P'] if n > 2]
            if leak:
                return 'a descriptor is left open'
            if k.forked and not k.reaped:
                return 'the started process is left as a zombie'
            early = inp and t['reads'] is not None and t['reads'] < k.size
            if k.result == 'returns' and fail:
                return 'the failure of the tool is not reported'
            if k.result == 'throws' and not fail and not early:
                return 'an error is reported although the tool succeeded'
            if k.result not in ('returns', 'throws'):
                return 'the caller %s' % k.result
            if not fail and not early and inp and k.sent != k.size:
                return 'only %d of %d bytes are given to the tool' % (k.sent, k.size)
            if out and k.result == 'returns':
                v = k.o.v
                n = None
                try:
                    n = sum(int(x) for x in text_of(v).split(';') if x)
                except (ValueError, TypeError, AttributeError):
                    pass
                if n is not None and n != t['prints']:
                    return '%d of %d bytes of the output are returned' % (n, t['prints'])
            return ''
        return f
    sizes = (0, 10, CAP, CAP + 1, 3 * CAP) if inp else (0,)
    for size in sizes:
        for reads in ((None, 0, 7) if inp else (None,)):
            for prints in ((0, 5, 200, 9999, 20000, 200000) if out else (0, 200000)):
                if reads is not None and prints > CAP:
                    continue
                for status in (0, 1, 127, -11):
                    for short in ((False, True) if inp and size and reads is None else (False,)):
                        t = dict(reads=reads, prints=prints, status=status)
                        lab = '%s: %s bytes of source, the tool reads %s, prints %d and %s%s' % (
                            how, size, 'everything' if reads is None else reads, prints,
                            'exits with %d' % status if status >= 0 else 'is killed', ', writing is interrupted once' if short else '')
                        res, it = start(fx, 'P', out, inp, size=size, tool=t, table=tab, short=short)
                        judge(lab, res, it, caller(t))
    # not executable: a message comes back
    if ke and ke[0].exec is not None:
        t = dict(reads=0, prints=0, status=1, message=20)
        res, it = start(fx, 'P', out, inp, size=10 if inp else 0, tool=t, table=tab)
        judge('%s: the tool can not be executed, the caller' % how, res, it, caller(t))

    def refused(k):
        if k.result != 'throws':
            return 'the failure is not reported'
        if [n for n in k.fd['P'] if n > 2]:
            return 'a descriptor is left open'
        return ''
    res, it = start(fx, 'P', out, inp, size=10 if inp else 0, fork_ok=False)
    judge('%s: no process can be started' % how, res, it, refused)
    for n in range(ks[0].npipes):
        res, it = start(fx, 'P', out, inp, size=10 if inp else 0, pipe_ok=n)
        judge('%s: pipe %d can not be created' % (how, n + 1), res, it, refused)
    return ok, bad, unk, vis


def run(ctx):
    fx = facts.facts('main')
    visited = set()
    loc = {'library': fx.loc(fx.one(NS + 'DynamicModelLibraryProcessor::createDynamicLibrary', clsx=NS + 'DynamicModelLibraryProcessor<double>')),
           'bitcode': fx.loc(fx.one(NS + 'ClangCompiler::generateLLVMBitCode', clsx=NS + 'ClangCompiler<double>'))}
    loc['failure'] = loc['library']
    loc['compile'] = fx.loc(fx.find(NS + 'AbstractCCompiler::compileSources', clsx=NS + 'AbstractCCompiler<double>')[-1])
    for out, vis in pmap(decide, [(fx, j) for j in driver_jobs(fx, ctx.thorough)]):
        visited |= vis
        for g, l, st, w in out:
            if st == 'ok' and not w:
                ctx.ok(g, l)
            elif st == 'ok':
                for x in w[:2]:
                    ctx.bad(g, x[:60], loc[g], '%s: %s' % (l, x))
            else:
                ctx.unk(g, '%s: %s' % (l, w))
    for out, vis in pmap(alone, [(fx,) + c for c in itertools.product(('GccCompiler', 'ClangCompiler'), (False, True), (False, True), (False, True), ('tmp', 'tmp/'))]):
        visited |= vis
        for g, l, st, w in out:
            if st == 'ok' and not w:
                ctx.ok(g, l)
            elif st == 'ok':
                ctx.bad(g, w[0][:60], loc['compile'], '%s: %s' % (l, w[0]))
            else:
                ctx.unk(g, '%s: %s' % (l, w))
    saving(fx, ctx)
    where = fx.loc(fx.one(NS + 'system::callExecutable'))
    for ok, bad, unk, vis in pmap(processes, [(fx, o, i) for o in (False, True) for i in (False, True)]):
        visited |= vis
        for l in ok:
            ctx.ok('process', l)
        for l, w in bad:
            ctx.bad('process', w[:90], where, '%s: %s' % (l, w))
        for w in unk:
            ctx.unk('process', w)
    ctx.need('process', 100)
    ctx.count('functions analysed', len(visited))
    ctx.need('library', 30)
    ctx.need('failure', 60)
