"""Builds the extractor, runs it on /repo's current tree and loads the resolved program (facts)."""
import fcntl
import hashlib
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CGV_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
TOOLSRC = os.path.join(VERIF, 'tool', 'extract.cpp')
LLVM = '/usr/lib/llvm-18'


class AnalysisError(Exception):
    """The analysis itself is broken (missing anchor, extraction failure): error exit, never a verdict."""


def _sha(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def _lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_tool():
    key = _sha([TOOLSRC])
    exe = os.path.join(BUILD, 'cgx-' + key)
    if os.path.exists(exe):
        return exe
    cxx = shutil.which('clang++') or LLVM + '/bin/clang++'
    flags = subprocess.check_output([LLVM + '/bin/llvm-config', '--cxxflags'], text=True).split()
    tmp = exe + '.tmp%d' % os.getpid()
    cmd = [cxx, '-O1'] + flags + ['-fno-rtti', '-w', TOOLSRC, '-o', tmp, '-L' + LLVM + '/lib',
                                  '-l:libclang-cpp.so.18.1', '-lLLVM-18', '-Wl,-rpath,' + LLVM + '/lib']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisError('cannot build the extractor:\n' + r.stderr[-3000:])
    os.replace(tmp, exe)
    return exe


def repo_inputs():
    out = []
    for base in ('include',):
        for d, dn, fn in os.walk(os.path.join(REPO, base)):
            dn.sort()
            for f in sorted(fn):
                out.append(os.path.join(d, f))
    for f in ('cmake/textfile2h.cmake', 'CMakeLists.txt'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return sorted(out)


def _generated_includes(tmp):
    """Regenerates what cmake generates: the embedded thread pool sources and configure.hpp."""
    tp = os.path.join(REPO, 'include/cppad/cg/model/threadpool')
    dst = os.path.join(tmp, 'gen/cppad/cg/model/threadpool')
    os.makedirs(dst)
    for src, var, out in (('pthread_pool.c', 'CPPADCG_PTHREAD_POOL_C_FILE', 'pthread_pool_c.hpp'),
                          ('pthread_pool.h', 'CPPADCG_PTHREAD_POOL_H_FILE', 'pthread_pool_h.hpp'),
                          ('openmp.c', 'CPPADCG_OPENMP_C_FILE', 'openmp_c.hpp'),
                          ('openmp.h', 'CPPADCG_OPENMP_H_FILE', 'openmp_h.hpp')):
        with open(os.path.join(tp, src)) as f:
            s = f.read()
        delim = '*=*'
        while delim in s:
            delim += '*'
        with open(os.path.join(dst, out), 'w') as f:
            f.write('const char %s[] = R"%s(%s)%s";\n\nconst size_t %s_SIZE = %d;\n' % (var, delim, s, delim, var, len(s)))
    with open(os.path.join(tmp, 'gen/cppad/cg/configure.hpp'), 'w') as f:
        f.write('#ifndef CPPAD_CG_CONFIGURE_INCLUDED\n#define CPPAD_CG_CONFIGURE_INCLUDED\n'
                '#define CPPAD_CG_VERSION "cppadcg-x"\n#endif\n')
    return os.path.join(tmp, 'gen')


_rd = []


def resource_dir():
    if not _rd:
        _rd.append(subprocess.run(['clang', '-print-resource-dir'], capture_output=True, text=True).stdout.strip())
    return _rd[0]


class Facts:
    """The resolved program: function headers, bodies, classes, enums, globals."""

    def __init__(self):
        self.funcs = {}
        self.bodies = {}
        self.types = {}
        self.recs = {}
        self.enums = {}
        self.globs = {}
        self.uninst = []
        self.by_q = {}
        self.by_cls = {}
        self.overriders = {}

    def load(self, path):
        with open(path, encoding='utf-8', errors='replace') as f:
            for line in f:
                o = json.loads(line)
                r = o['r']
                if r == 'func':
                    self.funcs[o['id']] = o
                elif r == 'body':
                    self.bodies[o['id']] = o
                elif r == 'type':
                    self.types[o['id']] = o['s']
                elif r == 'rec':
                    self.recs.setdefault(o['x'], o)
                elif r == 'enum':
                    self.enums[o['q']] = o
                elif r == 'glob':
                    if o['id'] not in self.globs or 'init' in o:
                        self.globs[o['id']] = o
                elif r == 'uninst':
                    self.uninst.append(o)
        for i, f in self.funcs.items():
            f['hasbody'] = i in self.bodies
            self.by_q.setdefault(f['q'], []).append(i)
            if 'clsx' in f:
                self.by_cls.setdefault(f['clsx'], []).append(i)
            for b in f.get('over', ()):
                self.overriders.setdefault(b, []).append(i)
        return self

    # ---- queries -----------------------------------------------------------------------------
    def t(self, i):
        return self.types.get(i, '?')

    def find(self, q, clsx=None, nparams=None, pred=None, body=True):
        out = []
        for i in self.by_q.get(q, ()):
            f = self.funcs[i]
            if clsx and f.get('clsx') != clsx:
                continue
            if nparams is not None and len(f['p']) != nparams:
                continue
            if body and i not in self.bodies:
                continue
            if pred and not pred(f):
                continue
            out.append(i)
        return out

    def one(self, q, **kw):
        r = self.find(q, **kw)
        if not r:
            raise AnalysisError('anchor not found: %s %s' % (q, {k: v for k, v in kw.items() if k != 'pred'}))
        return r[0]

    def enum(self, q):
        if q not in self.enums:
            raise AnalysisError('enum not found: ' + q)
        return {c['n']: c['v'] for c in self.enums[q]['c']}

    def ptypes(self, fid):
        return [self.t(p['t']) for p in self.funcs[fid]['p']]

    def loc(self, fid, line=None):
        b = self.bodies.get(fid) or self.funcs[fid]
        fn = b['file']
        if fn.startswith(REPO + '/'):
            fn = fn[len(REPO) + 1:]
        return '%s:%d' % (fn, line or b['l'])

    def bases(self, x):
        r = self.recs.get(x)
        if not r:
            return []
        return [self.t(b['t']) for b in r['bases']]

    def mro(self, x):
        out, todo = [], [x]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            todo += self.bases(c)
        return out

    def is_sub(self, x, base):
        return base in self.mro(x)

    def resolve_virtual(self, fid, clsx):
        """The overrider of fid seen by an object of dynamic class clsx."""
        cands = {fid}
        todo = [fid]
        while todo:
            for o in self.overriders.get(todo.pop(), ()):
                if o not in cands:
                    cands.add(o)
                    todo.append(o)
        for c in self.mro(clsx):
            for i in cands:
                if self.funcs[i].get('clsx') == c:
                    return i
        return fid

    def all_overriders(self, fid):
        cands, todo = {fid}, [fid]
        while todo:
            for o in self.overriders.get(todo.pop(), ()):
                if o not in cands:
                    cands.add(o)
                    todo.append(o)
        return cands

    def lambdas_body(self, fid):
        return self.bodies.get(fid)


_cache = {}


def _load(kind, tu, flags, needs_gen):
    exe = build_tool()
    inputs = repo_inputs()
    key = _sha(inputs + [TOOLSRC, tu, os.path.abspath(__file__)], kind + REPO + ' '.join(flags))
    pk = os.path.join(BUILD, 'facts-%s-%s.pkl' % (kind, key))
    if os.path.exists(pk):
        try:
            with open(pk, 'rb') as f:
                return pickle.load(f)
        except Exception:
            os.unlink(pk)
    tmp = tempfile.mkdtemp(prefix='cgv-')
    try:
        gen = _generated_includes(tmp)
        out = os.path.join(tmp, 'facts.jsonl')
        cmd = [exe, '-o', out, '--root=' + REPO + '/include', '--root=' + gen, '--root=' + VERIF + '/tu', tu, '--'] + flags + \
              ['-I' + REPO + '/include', '-I' + gen, '-I/usr/include/eigen3', '-resource-dir', resource_dir(), '-w', '-ferror-limit=0']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if not os.path.exists(out) or r.returncode < 0 or os.path.getsize(out) == 0:
            raise AnalysisError('extraction failed (%s):\n%s' % (kind, r.stderr[-3000:]))
        fx = Facts().load(out)
        fx.diag = [l for l in r.stderr.splitlines() if 'error:' in l]
        fx.gen = gen
        # a few stale pickles at most
        olds = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith('facts-%s-' % kind)), key=os.path.getmtime)
        for o in olds[:-2]:
            os.unlink(o)
        with open(pk + '.tmp', 'wb') as f:
            pickle.dump(fx, f, protocol=4)
        os.replace(pk + '.tmp', pk)
        return fx
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def facts(kind='main'):
    if kind in _cache:
        return _cache[kind]
    lk = _lock()
    try:
        if kind == 'main':
            r = _load('main', os.path.join(VERIF, 'tu/main.cpp'), ['-std=c++14', '-DNDEBUG'], True)
        elif kind == 'float':
            r = _load('float', os.path.join(VERIF, 'tu/main.cpp'), ['-std=c++14', '-DNDEBUG', '-DCGV_FLOAT'], True)
        elif kind == 'pool':
            r = _load('pool', os.path.join(REPO, 'include/cppad/cg/model/threadpool/pthread_pool.c'), ['-std=gnu11'], False)
        elif kind == 'openmp':
            r = _load('openmp', os.path.join(REPO, 'include/cppad/cg/model/threadpool/openmp.c'), ['-std=gnu11', '-fopenmp'], False)
        else:
            raise AnalysisError('unknown facts ' + kind)
    finally:
        lk.close()
    sys.setrecursionlimit(20000)
    _cache[kind] = r
    return r


def ctext(files, flags=()):
    """resolved program of generated C text: files = [(name, text)], the first is the translation unit.  Errors are in .diag"""
    exe = build_tool()
    tmp = tempfile.mkdtemp(prefix='cgv-')
    try:
        for n, t in files:
            with open(os.path.join(tmp, n), 'w') as f:
                f.write(t)
        out = os.path.join(tmp, 'facts.jsonl')
        cmd = [exe, '-o', out, '--root=' + tmp, os.path.join(tmp, files[0][0]), '--', '-std=gnu11', '-resource-dir', resource_dir(), '-I' + tmp,
               '-Werror=implicit-function-declaration', '-ferror-limit=0'] + list(flags)
        r = subprocess.run(cmd, capture_output=True, text=True)
        if not os.path.exists(out) or r.returncode < 0:
            raise AnalysisError('extraction of generated text failed:\n' + r.stderr[-3000:])
        fx = Facts().load(out)
        fx.diag = [l for l in r.stderr.splitlines() if 'error:' in l]
        fx.warn = [l for l in r.stderr.splitlines() if 'warning:' in l]
        return fx
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def walk(n):
    """all dict nodes of a body tree, pre-order"""
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            yield x
            for v in reversed(list(x.values())):
                if isinstance(v, (dict, list)):
                    stack.append(v)
        elif isinstance(x, list):
            for v in reversed(x):
                if isinstance(v, (dict, list)):
                    stack.append(v)
