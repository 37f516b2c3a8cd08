"""Abstract interpretation of resolved function bodies over finite domains.

Values are constants, opaque terms (value numbers), abstract objects and containers.  A branch whose
condition is not decided by the abstract state is explored both ways (trace partitioning by replaying the
body with a growing decision list); there is no constraint solver and no feasibility query: conditions are
compared as value numbers only.
"""
import re

from .facts import AnalysisError


class Term:
    __slots__ = ('op', 'args', 't', 'h')

    def __init__(self, op, *args, t=None):
        self.op = op
        self.args = args
        self.t = t
        self.h = hash((op, args))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Term) and self.h == o.h and self.op == o.op and self.args == o.args

    def __ne__(self, o):
        return not self.__eq__(o)

    def __repr__(self):
        if not self.args:
            return str(self.op)
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))


class Cell:
    __slots__ = ('v', 't', 'ro')

    def __init__(self, v=None, t=None):
        self.v = v
        self.t = t


class Ptr:
    """non-null pointer to a cell (for arrays: into a Vec with an index)"""
    __slots__ = ('cell', 'vec', 'i')

    def __init__(self, cell, vec=None, i=0):
        self.cell = cell
        self.vec = vec
        self.i = i

    def __hash__(self):
        if self.vec is not None:
            return hash((id(self.vec), self.i if not isinstance(self.i, Term) else 0))
        return hash(id(self.cell.v) if isinstance(self.cell.v, Obj) else id(self.cell))

    def __eq__(self, o):
        if not isinstance(o, Ptr):
            return False
        if self.vec is not None or o.vec is not None:
            return self.vec is o.vec and self.i == o.i
        if self.cell is o.cell:
            return True
        a, b = self.cell.v, o.cell.v
        return isinstance(a, Obj) and a is b

    def __repr__(self):
        return '&%r' % (self.cell.v if self.cell is not None else self.vec,)


class _Null:
    def __repr__(self):
        return 'null'

    def __bool__(self):
        return False


NULL = _Null()
_seq = [0]


class Obj:
    """abstract class object; missing fields of a lazy object are value numbers derived from its base"""

    def __init__(self, cls, lazy=None, tag=None):
        self.cls = cls
        self.f = {}
        self.lazy = lazy
        self.tag = tag
        _seq[0] += 1
        self.n = _seq[0]

    def __repr__(self):
        if self.tag:
            return '<%s>' % (self.tag,)
        if self.lazy is not None:
            return '<%r>' % (self.lazy,)
        return '<%s#%d>' % (self.cls.split('::')[-1], self.n)


class AStr:
    """string with holes: tuple of str / Term pieces"""

    def __init__(self, pieces=()):
        out = []
        for p in pieces:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != '':
                out.append(p)
        self.p = tuple(out)

    def __add__(self, o):
        return AStr(self.p + o.p)

    def conc(self):
        return all(isinstance(x, str) for x in self.p)

    def s(self):
        return ''.join(self.p) if self.conc() else None

    def __hash__(self):
        return hash(self.p)

    def __eq__(self, o):
        return isinstance(o, AStr) and self.p == o.p

    def __repr__(self):
        return 'S[%s]' % ''.join(x if isinstance(x, str) else '{%r}' % (x,) for x in self.p)

    def text(self, hole=lambda t: '{%r}' % (t,)):
        return ''.join(x if isinstance(x, str) else hole(x) for x in self.p)


class Vec:
    def __init__(self, cells=None, et=None, kind='vector'):
        self.c = cells if cells is not None else []
        self.et = et
        self.kind = kind

    def __repr__(self):
        return '%s%r' % (self.kind[0], [c.v for c in self.c])


END = object()


class AMap:
    def __init__(self, kt=None, vt=None, isset=False, kind='map'):
        self.d = []  # list of [key, Cell]
        self.kt = kt
        self.vt = vt
        self.isset = isset
        self.kind = kind
        self.cmp = None  # comparator, None for the default order

    def __repr__(self):
        return 'M{%s}' % ', '.join('%r:%r' % (k, c.v) for k, c in self.d)


NODES = {'std::list', 'std::forward_list'}


class Iter:
    """position in a container; iterators of sets and maps follow their element"""

    def __init__(self, cont, i, rev=False):
        self.cont = cont
        self.at = i
        self.rev = rev
        self.el = None
        d = cont.d if isinstance(cont, AMap) else cont.c if isinstance(cont, Vec) and cont.kind in NODES else None
        if not rev and d is not None and isinstance(i, int):
            n = len(d)
            self.el = d[i] if 0 <= i < n else END if i == n else None

    @property
    def i(self):
        if self.el is None:
            return self.at
        d = self.cont.d if isinstance(self.cont, AMap) else self.cont.c
        if self.el is END:
            return len(d)
        if not (self.at < len(d) and d[self.at] is self.el):
            for k, e in enumerate(d):
                if e is self.el:
                    self.at = k
                    break
            else:
                raise PathAbort('use of an invalid iterator')
        return self.at

    def __eq__(self, o):
        return isinstance(o, Iter) and self.cont is o.cont and self.i == o.i

    def __hash__(self):
        return hash((id(self.cont), self.i))


class Stream:
    """abstract output stream: accumulates pieces"""

    def __init__(self):
        self.out = []
        self.events = []
        self.state = {}

    def s(self):
        return AStr(self.out)

    def __repr__(self):
        return 'stream(%r)' % (self.s(),)


class Closure:
    def __init__(self, fid, env, this):
        self.fid = fid
        self.env = env
        self.this = this


class FuncRef:
    def __init__(self, fid):
        self.fid = fid

    def __eq__(self, o):
        return isinstance(o, FuncRef) and o.fid == self.fid

    def __hash__(self):
        return hash(self.fid)


class CppThrow(Exception):
    def __init__(self, val, typ, line):
        self.val = val
        self.typ = typ
        self.line = line


# reasons of an aborted path which are undefined behaviour (or endless recursion) of the analysed code
UNDEFINED = re.compile('null deref|call through null|out of range|null index|invalid iterator|pop of empty|past its end|call depth')


class PathAbort(Exception):
    pass


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class Unmodelled(PathAbort):
    pass


def strip_t(t):
    t = t.strip()
    while True:
        if t.endswith('&&'):
            t = t[:-2].strip()
        elif t.endswith('&'):
            t = t[:-1].strip()
        elif t.startswith('const '):
            t = t[6:].strip()
        elif t.startswith('volatile '):
            t = t[9:].strip()
        elif t.endswith(' const'):
            t = t[:-6].strip()
        else:
            return t


BITREF = ('std::_Bit_reference', 'CppAD::local::utility::vectorBoolElement')   # proxies of bits


def is_ref(t):
    return t.rstrip().endswith('&') or t in BITREF


def targs(t):
    """template arguments of a canonical type string"""
    i = t.find('<')
    if i < 0:
        return []
    depth, cur, out = 0, '', []
    for ch in t[i + 1:]:
        if ch == '<' or ch == '(':
            depth += 1
        elif ch == '>' or ch == ')':
            if depth == 0:
                break
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out


def tbase(t):
    return t.split('<')[0]


INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'signed char', 'unsigned char',
        'long long', 'unsigned long long', 'bool'}
SGN = {'long': 64, 'int': 32, 'long long': 64, 'short': 16, 'signed char': 8}
UNS = {'unsigned long': 64, 'unsigned int': 32, 'unsigned long long': 64, 'unsigned short': 16, 'unsigned char': 8}
FLTS = {'double', 'float', 'long double'}

VECS = {'std::vector', 'CppAD::vector', 'std::deque', 'std::list', 'std::array', 'std::initializer_list', 'std::valarray',
        'std::forward_list', 'std::stack', 'std::queue'}
MAPS = {'std::map', 'std::unordered_map', 'std::multimap'}
SETS = {'std::set', 'std::unordered_set', 'std::multiset'}
STREAMS = {'std::basic_ostringstream', 'std::basic_ostream', 'std::basic_stringstream', 'std::basic_ofstream', 'std::basic_iostream',
           'std::basic_ios', 'std::ios_base', 'std::basic_istringstream'}
STRT = 'std::basic_string'


class Interp:
    def __init__(self, fx, hooks=None, assume=None, max_paths=400, max_steps=200000, max_depth=60, loop_bound=3, trace=None):
        self.fx = fx
        self.hooks = hooks or {}
        self.assume = assume
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.max_depth = max_depth
        self.loop_bound = loop_bound
        self.unmodelled = {}
        self.visited = set()
        self.nbranches = 0
        self.dtors = True

    # ------------------------------------------------------------------ exploration
    def explore(self, run):
        """run(self) is replayed for every decision sequence.  Returns [(outcome, value, log)]"""
        results = []
        stack = [[]]
        n = 0
        while stack:
            dec = stack.pop()
            n += 1
            if n > self.max_paths:
                results.append(('abort', 'path bound', []))
                break
            self.dec = list(dec)
            self.pos = 0
            self.memo = {}
            self.conds = []
            self.steps = 0
            self.depth = 0
            self.frames = []
            self.log = []
            self.globals = {}
            try:
                v = run(self)
                results.append(('ok', v, self.log))
            except CppThrow as e:
                results.append(('throw', e, self.log))
            except PathAbort as e:
                self.abort_at = getattr(e, 'at', [])
                results.append(('abort', str(e), self.log))
            except RecursionError:
                results.append(('abort', 'recursion', self.log))
            for i in range(len(dec), len(self.dec)):
                if self.dec[i][1]:
                    stack.append([(d, False) for d, _ in self.dec[:i]] + [(not self.dec[i][0], False)])
        return results

    def decide(self, cond):
        """cond: Term of boolean meaning"""
        self.nbranches += 1
        if cond in self.memo:
            return self.memo[cond]
        if isinstance(cond, Term) and cond.op == '!':
            r = not self.decide(cond.args[0])
            return r
        if self.assume:
            r = self.assume(cond)
            if r is not None:
                self.memo[cond] = r
                return r
        if self.pos < len(self.dec):
            r = self.dec[self.pos][0]
        else:
            r = True
            self.dec.append((True, True))
        self.pos += 1
        self.memo[cond] = r
        if isinstance(cond, Term) and cond.op in ('==', '!='):
            self.memo[Term('!=' if cond.op == '==' else '==', *cond.args)] = not r
            self.memo[Term(cond.op, *reversed(cond.args))] = r
        self.conds.append((cond, r))
        return r

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float)):
            return v != 0
        if v is NULL:
            return False
        if isinstance(v, (Ptr, FuncRef, Closure)):
            return True
        if isinstance(v, Term):
            return self.decide(v)
        if isinstance(v, AStr):
            return True
        if isinstance(v, Obj) and v.cls == 'unique_ptr':
            return self.truth(v.f['p'].v)
        if v is None:
            return self.decide(Term('uninit'))
        return self.decide(Term('truth', _key(v)))

    # ------------------------------------------------------------------ objects
    def default(self, t):
        """value of a default-initialised object of type t"""
        t = strip_t(t)
        if t in INTS:
            return None
        if t in FLTS:
            return None
        if t.endswith('*') or t == 'std::nullptr_t':
            return None
        if t.endswith(']'):
            i = t.rfind('[')
            et = t[:i].strip()
            # multi-dimensional arrays: the first extent is the outer one
            i = t.find('[')
            et = t[:i].strip() + t[t.find(']') + 1:]
            n = t[i + 1:t.find(']')]
            return Vec([Cell(self.default(et), et) for _ in range(int(n) if n.isdigit() else 0)], et, 'array')
        b = tbase(t)
        if b == STRT:
            return AStr()
        if b in VECS:
            a = targs(t)
            v = Vec([], a[0] if a else None, b)
            if b == 'std::array' and len(a) > 1:
                for _ in range(int(''.join(ch for ch in a[1] if ch.isdigit()))):
                    v.c.append(Cell(self.default(a[0]), a[0]))
            return v
        if b in MAPS:
            a = targs(t)
            return self.ordered(AMap(a[0], a[1], False, b), a[2:])
        if b in SETS:
            a = targs(t)
            return self.ordered(AMap(a[0], None, True, b), a[1:])
        if b in STREAMS:
            return Stream()
        if b == 'std::pair':
            a = targs(t)
            o = Obj(t)
            o.f['first'] = Cell(self.default(a[0]), a[0])
            o.f['second'] = Cell(self.default(a[1]), a[1])
            return o
        if b in ('std::unique_ptr', 'std::shared_ptr'):
            o = Obj('unique_ptr')
            o.f['p'] = Cell(NULL)
            return o
        if b == 'std::function':
            return NULL
        if t in self.fx.recs:
            return Obj(t)
        return None

    def ordered(self, m, rest):
        """gives a map or set the comparator of its type"""
        if rest and not m.kind.startswith('std::unordered') and not rest[0].startswith('std::less<'):
            t = strip_t(rest[0])
            m.cmp = Obj(t)
        return m

    def zero(self, t):
        t = strip_t(t)
        if t == 'bool':
            return False
        if t in INTS:
            return 0
        if t in FLTS:
            return 0.0
        if t.endswith('*'):
            return NULL
        if t in self.fx.enums:
            return 0
        v = self.default(t)
        if isinstance(v, Vec) and v.kind in ('array', 'std::array'):
            for c in v.c:
                c.v = self.zero(v.et)
        return v

    def copy(self, v):
        if isinstance(v, Obj):
            o = Obj(v.cls, v.lazy, v.tag)
            for k, c in v.f.items():
                o.f[k] = Cell(self.copy(c.v), c.t)
            p = o.f.get('p') if v.cls == 'unique_ptr' else None
            if p is not None and isinstance(p.v, Ptr) and p.v.cell is not None and not isinstance(p.v.cell.v, (Obj, Vec, AMap)):
                p.v = Ptr(Cell(p.v.cell.v, p.v.cell.t))  # an element of a container is copied by its own copy constructor
            return o
        if isinstance(v, Vec):
            return Vec([Cell(self.copy(c.v), c.t) for c in v.c], v.et, v.kind)
        if isinstance(v, AMap):
            m = AMap(v.kt, v.vt, v.isset, v.kind)
            m.cmp = v.cmp
            m.d = [[k, Cell(self.copy(c.v), c.t)] for k, c in v.d]
            return m
        return v

    def field(self, cell, fq, ft=None):
        v = cell.v
        if isinstance(v, Term):
            v = Obj(cell.t or '?', lazy=v)
            cell.v = v
        if isinstance(v, Obj):
            n = fq.split('::')[-1]
            if fq in v.f:
                return v.f[fq]
            if v.lazy is None and n in v.f:
                return v.f[n]
            c = Cell(None, ft)
            if v.lazy is not None:
                c.v = self.lazyval(Term('.' + fq.split('::')[-1], v.lazy), ft)
            elif ft:
                c.v = self.default(ft)
            v.f[fq] = c
            return c
        if isinstance(v, (Vec, AMap, AStr, Stream)):
            return Cell(Term('.' + fq, _key(v)), ft)
        raise Unmodelled('field %s of %r' % (fq, v))

    def lazyval(self, term, t):
        if t:
            st = strip_t(t)
            if st in self.fx.recs and not st.startswith('std::'):
                return Obj(st, lazy=term)
            if tbase(st) == STRT:
                return AStr((term,))
        return Term(term.op, *term.args, t=t)

    # ------------------------------------------------------------------ calls
    def call(self, fid, this=None, args=(), line=None, e=None, novirt=False):
        """this: Cell or None; args: list of Cells (each parameter bound according to its type)"""
        f = self.fx.funcs[fid]
        if this is not None and f.get('virtual') and not novirt and isinstance(this.v, Obj):
            nf = self.fx.resolve_virtual(fid, this.v.cls)
            if nf != fid:
                fid = nf
                f = self.fx.funcs[fid]
        if this is not None and isinstance(this.v, Closure) and f.get('kind') == 'conv':
            return this.v
        h = self.hooks.get(f['q'])
        if h is not None:
            r = h(self, f, this, args, line)
            if r is not NotImplemented:
                return r
        h = self.hooks.get('*')
        if h is not None:
            r = h(self, f, this, args, line)
            if r is not NotImplemented:
                return r
        if fid in self.fx.bodies and f.get('repo', True):
            return self.invoke(fid, this, args)
        from . import stdmodel
        r = stdmodel.call(self, f, this, args, line, e)
        if r is not NotImplemented:
            return r
        # opaque: pure value number; non-const reference arguments lose their value
        self.unmodelled[f['q']] = self.unmodelled.get(f['q'], 0) + 1
        term = Term('call:' + f['q'], *([_key(this.v)] if this is not None else []) + [_key(a.v) for a in args])
        for p, a in zip(f['p'], args):
            t = self.fx.t(p['t'])
            if is_ref(t) and not t.startswith('const ') and not t.endswith('&&'):
                a.v = Term('havoc', term)
        rt = self.fx.t(f['ret'])
        if rt == 'void':
            return None
        v = self.lazyval(term, rt)
        return Cell(v, rt) if is_ref(rt) else v

    def invoke(self, fid, this, args):
        if self.depth > self.max_depth:
            raise PathAbort('call depth')
        f = self.fx.funcs[fid]
        body = self.fx.bodies[fid]
        self.visited.add(fid)
        env = {}
        for p, a in zip(body['p'], args):
            t = self.fx.t(p['t'])
            if is_ref(t):
                env[p['id']] = a
            else:
                env[p['id']] = Cell(self.copy(a.v), t)
        fr = Frame(fid, env, this)
        self.frames.append(fr)
        self.depth += 1
        try:
            rt = self.fx.t(f['ret'])
            if 'inits' in body and this is not None:
                self.ctor_inits(body, this)
            try:
                self.stmt(body['b'])
                return None
            except _Return as r:
                return r.v
            except PathAbort as e:
                if not hasattr(e, 'at'):
                    e.at = [(f.fid, f.line) for f in self.frames]
                raise
            finally:
                fr.unwind(self)
        finally:
            self.depth -= 1
            self.frames.pop()

    def ctor_inits(self, body, this):
        for it in body['inits']:
            if 'f' in it:
                e = it['e']
                if e is None:
                    continue
                t = self.fx.t(e['t']) if 't' in e and isinstance(e.get('t'), int) else None
                fc = Cell(None, t)
                ft = self.field_type(this.v, it['f'])
                if ft and is_ref(ft):
                    this.v.f[it['f']] = self.lv(e)
                    continue
                fc.t = ft or t
                v = self.rv(e)
                fc.v = self.convert(self.copy(v), ft or t)
                if isinstance(this.v, Obj):
                    this.v.f[it['f']] = fc
            else:
                e = it['e']
                if e and e['k'] == 'ctor':
                    fr = self.frames[-1]
                    n = len(self.fx.funcs[e['f']]['p'])
                    if not e['a'] and n and n == len(body['p']) and self.fx.funcs[fr.fid].get('implicit'):  # inherited constructor
                        self.invoke(e['f'], this, [fr.env[p['id']] for p in body['p']])
                    else:
                        self.run_ctor(e, this)

    def field_type(self, obj, fq):
        if not isinstance(obj, Obj):
            return None
        for c in self.fx.mro(obj.cls):
            r = self.fx.recs.get(c)
            if r:
                for fd in r['fields']:
                    if fd['q'] == fq:
                        return self.fx.t(fd['t'])
        return None

    def convert(self, v, t):
        if t is None:
            return v
        t = strip_t(t)
        if t == 'bool' and isinstance(v, (int, float)) and not isinstance(v, bool):
            return v != 0
        if t in FLTS and isinstance(v, (int, bool)) and not isinstance(v, float):
            return float(v)
        if t in INTS and t != 'bool' and isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            n = UNS.get(t)
            if n is not None:
                if not 0 <= v < 1 << n:
                    return v % (1 << n)
            else:
                n = SGN.get(t)
                if n is not None and not -(1 << n - 1) <= v < 1 << n - 1:
                    v %= 1 << n
                    return v - (1 << n) if v >= 1 << n - 1 else v
        return v

    # construct: evaluates ctor node into a fresh value
    def construct(self, e):
        t = strip_t(self.fx.t(e['t']))
        fid = e['f']
        f = self.fx.funcs[fid]
        args = e['a']
        h = self.hooks.get('ctor:' + f.get('cls', ''))
        if h is not None:
            r = h(self, f, e, [self.arg(a, f, i) for i, a in enumerate(args)])
            if r is not NotImplemented:
                return r
        if (e.get('copy') or e.get('move')) and len(args) >= 1:
            if fid not in self.fx.bodies or f.get('implicit') or f.get('defaulted'):
                v = self.rv(args[0])
                r = self.copy(v)
                if isinstance(r, Obj) and r.cls not in ('unique_ptr',) and r.lazy is None and t in self.fx.recs and r.cls != t and \
                        t in self.fx.mro(r.cls):
                    r.cls = t  # slicing
                if isinstance(v, Obj) and v.cls == 'unique_ptr' and e.get('move'):
                    v.f['p'].v = NULL
                return r
        if t in self.fx.recs and (f.get('repo', True) or fid in self.fx.bodies) and not t.startswith('std::'):
            o = Obj(t)
            cell = Cell(o, t)
            self.run_ctor(e, cell)
            return cell.v
        from . import stdmodel
        return stdmodel.construct(self, t, f, e, args)

    def run_ctor(self, e, cell):
        fid = e['f']
        f = self.fx.funcs[fid]
        args = [self.arg(a, f, i) for i, a in enumerate(e['a'])]
        if fid in self.fx.bodies and not ((f.get('copy') or f.get('move')) and (f.get('implicit') or f.get('defaulted'))):
            self.invoke(fid, cell, args)
        elif (f.get('copy') or f.get('move')) and args:
            src = args[0].v
            if isinstance(src, Obj):
                if isinstance(cell.v, Obj):
                    for k, c in src.f.items():
                        cell.v.f[k] = Cell(self.copy(c.v), c.t)
                    cell.v.lazy = src.lazy
            elif isinstance(src, Term):
                if isinstance(cell.v, Obj):
                    cell.v.lazy = src
                    cell.v.f.clear()
            else:
                cell.v = self.copy(src)
        else:
            # implicit default ctor: in-class initialisers
            t = f.get('clsx')
            for c in self.fx.mro(t or ''):
                r = self.fx.recs.get(c)
                if not r:
                    continue
                for fd in r['fields']:
                    if 'init' in fd and fd['q'] not in cell.v.f:
                        ft = self.fx.t(fd['t'])
                        cell.v.f[fd['q']] = Cell(self.convert(self.rv(fd['init']), ft), ft)

    def arg(self, a, f=None, i=0):
        """evaluate an argument expression to a Cell"""
        pt = None
        if f is not None and i < len(f['p']):
            pt = self.fx.t(f['p'][i]['t'])
        if pt is not None and not is_ref(pt):
            v = self.rv(a)
            return Cell(self.convert(v, pt), pt)
        c = self.lv(a)
        if pt is not None and c.t is None:
            c.t = strip_t(pt)
        return c

    # ------------------------------------------------------------------ expressions
    def lv(self, e):
        self.steps += 1
        if self.steps > self.max_steps:
            raise PathAbort('step bound')
        if e is None:
            return Cell(None)
        k = e['k']
        m = getattr(self, 'lv_' + k, None)
        if m is not None:
            return m(e)
        v = self.rv(e)
        return Cell(v, strip_t(self.fx.t(e['t'])) if 't' in e else None)

    def rv(self, e):
        self.steps += 1
        if self.steps > self.max_steps:
            raise PathAbort('step bound')
        if e is None:
            return None
        m = getattr(self, 'rv_' + e['k'], None)
        if m is not None:
            return m(e)
        m = getattr(self, 'lv_' + e['k'], None)
        if m is not None:
            return m(e).v
        raise Unmodelled('expression ' + e['k'] + ' ' + str(e.get('cls')))

    def ty(self, e):
        return self.fx.t(e['t']) if e and 't' in e else '?'

    def rv_int(self, e):
        return e['v'] if isinstance(e['v'], int) else int(e['v'])

    def rv_flt(self, e):
        return float(e['v'])

    def rv_bool(self, e):
        return bool(e['v'])

    def rv_chr(self, e):
        return e['v']

    def rv_str(self, e):
        return AStr((e['v'],))

    def rv_null(self, e):
        return NULL

    def rv_sizeof(self, e):
        return e.get('v', Term('sizeof'))

    def rv_zero(self, e):
        return self.zero(self.ty(e))

    def rv_typeid(self, e):
        return Term('typeid')

    def rv_this(self, e):
        return Ptr(self.frames[-1].this)

    def lv_ref(self, e):
        dk = e['dk']
        if dk in ('parm', 'local'):
            for fr in (self.frames[-1],):
                c = fr.lookup(e['d'])
                if c is not None:
                    return c
            # capture-less access to an outer frame's variable (lambda bodies)
            for fr in reversed(self.frames):
                c = fr.lookup(e['d'])
                if c is not None:
                    return c
            raise Unmodelled('unbound ' + e['n'])
        if dk == 'enum':
            return Cell(e['v'], self.ty(e))
        if dk == 'func':
            return Cell(FuncRef(e['f']))
        if dk == 'global':
            if 'v' in e:
                return Cell(self.convert(e['v'], self.ty(e)), self.ty(e))
            if 'sv' in e:
                return Cell(AStr((e['sv'],)), self.ty(e))
            key = e.get('q') or e['d']
            if key in self.globals:
                return self.globals[key]
            h = self.hooks.get('global:' + str(key))
            t = self.ty(e)
            g = self.fx.globs.get(e['d'])
            if h is not None:
                c = Cell(h(self), t)
            elif g is not None and 'init' in g and (g.get('const') or strip_t(t) != t or t.endswith(']')):
                self.frames.append(Frame(None, {}, None))
                try:
                    c = Cell(self.rv(g['init']), t)
                finally:
                    self.frames.pop()
            elif tbase(strip_t(t)) in STREAMS:
                c = Cell(Stream(), t)
            else:
                c = Cell(self.lazyval(Term('global:' + str(key)), t), t)
            self.globals[key] = c
            return c
        return Cell(Term('ref:' + e['n']))

    def lv_mem(self, e):
        if e.get('arrow'):
            p = self.rv(e['b'])
            cell = self.deref(p, e)
        else:
            cell = self.lv(e['b'])
        if cell.t is None:
            cell.t = strip_t(self.ty(e['b']).rstrip('*').strip())
        fq = e['f']
        if isinstance(cell.v, Iter):
            raise Unmodelled('iterator member')
        return self.field(cell, fq if fq.split('::')[-1] not in ('first', 'second') else fq.split('::')[-1], self.ty(e))

    def deref(self, p, e=None):
        if isinstance(p, FuncRef):
            return Cell(p)
        if isinstance(p, Ptr):
            if p.vec is not None:
                if isinstance(p.i, int) and 0 <= p.i < len(p.vec.c):
                    return p.vec.c[p.i]
                return self.vecat(p.vec, p.i)
            return p.cell
        if isinstance(p, Term):
            key = ('deref', p)
            c = self.memo.get(key)
            if c is None:
                t = None
                if p.t and strip_t(p.t).endswith('*'):
                    t = strip_t(strip_t(p.t)[:-1])
                c = Cell(self.lazyval(Term('*', p), t), t)
                self.memo[key] = c
            return c
        if isinstance(p, Obj) and p.cls == 'unique_ptr':
            return self.deref(p.f['p'].v, e)
        if isinstance(p, Iter):
            from . import stdmodel
            return stdmodel.iter_cell(self, p)
        if isinstance(p, Vec):  # array decay
            return p.c[0] if p.c else Cell(None)
        if isinstance(p, AStr) and p.conc():
            return Cell(ord(p.s()[0]) if p.s() else 0, 'char')
        if p is NULL:
            self.null_deref(e)
            raise PathAbort('null dereference')
        raise Unmodelled('deref of %r' % (p,))

    def owner(self, e):
        """the sequence a range-based loop variable walks over"""
        if e['k'] == 'ref':
            o = self.frames[-1].env.get(('range', e.get('d')))
            if isinstance(o, Vec) and o.kind not in NODES:
                return o
        return None

    def null_deref(self, e):
        self.log.append(('null-deref', self.where(e)))

    def where(self, e=None):
        for fr in reversed(self.frames):
            if fr.fid is not None:
                return '%s in %s' % (self.fx.loc(fr.fid, (e or {}).get('l')), self.fx.funcs[fr.fid]['q'].split('::', 2)[-1])
        return '?'

    def vecat(self, v, i):
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, int) and 0 <= i < len(v.c):
            return v.c[i]
        if isinstance(i, int):
            self.log.append(('oob', i, len(v.c), self.where()))
            raise PathAbort('index %d out of range %d' % (i, len(v.c)))
        key = ('vecat', id(v), i)
        c = self.memo.get(key)
        if c is None:
            c = Cell(self.lazyval(Term('at', Term('vec#%d' % id(v)), _key(i)), v.et), v.et)
            self.memo[key] = c
        return c

    def lv_idx(self, e):
        b = self.rv(e['b'])
        i = self.rv(e['i'])
        if isinstance(b, Vec):
            return self.vecat(b, i)
        if isinstance(b, Ptr):
            if b.vec is not None:
                return self.vecat(b.vec, self.binop('+', b.i, i, 'long'))
            if i == 0:
                return b.cell
        if isinstance(b, AStr) and b.conc() and isinstance(i, int):
            s = b.s() + '\0'
            return Cell(ord(s[i]) if i < len(s) else 0, 'char')
        if isinstance(b, Term) or isinstance(b, AStr):
            kb = _key(b)
            key = ('idx', kb, i)
            c = self.memo.get(key)
            if c is None:
                c = Cell(self.lazyval(Term('idx', kb, _key(i)), self.ty(e)), self.ty(e))
                self.memo[key] = c
            return c
        if b is NULL:
            self.null_deref(e)
            raise PathAbort('null index')
        raise Unmodelled('index of %r' % (b,))

    def lv_un(self, e):
        op = e['op']
        if op == '*':
            return self.deref(self.rv(e['e']), e)
        if op in ('++', '--'):
            c = self.lv(e['e'])
            c.v = self.incdec(c.v, op, self.ty(e))
            return c
        return Cell(self.rv_un(e))

    def incdec(self, v, op, t):
        d = 1 if op == '++' else -1
        if isinstance(v, Iter):
            return Iter(v.cont, v.i + (d if not v.rev else d), v.rev)
        if isinstance(v, Ptr):
            if v.vec is None:
                raise Unmodelled('pointer arithmetic')
            return Ptr(None, v.vec, self.binop('+', v.i, d, 'long'))
        if isinstance(v, (int, float)):
            r = v + d
            return self.convert(r, t)
        if isinstance(v, AStr) and v.conc() and d == 1:
            if not v.s():
                raise PathAbort('string read past its end')
            return AStr((v.s()[1:],))
        return self.binop('+' if d > 0 else '-', v, 1, t)

    def rv_un(self, e):
        op = e['op']
        if op == '&':
            inner = e['e']
            c = self.lv(inner)
            if inner['k'] == 'idx':
                b = self.rv(inner['b'])
                i = self.rv(inner['i'])
                if isinstance(b, Vec):
                    return Ptr(None, b, i)
                if isinstance(b, Ptr) and b.vec is not None:
                    return Ptr(None, b.vec, self.binop('+', b.i, i, 'long'))
            if inner['k'] == 'call' and inner.get('op') and inner.get('o') is not None:
                f = self.fx.funcs[inner['f']]
                if f['n'] == 'operator[]':
                    ov = self.lv(inner['o']).v
                    if isinstance(ov, Vec):
                        return Ptr(None, ov, self.rv(inner['a'][0]))
            o = self.owner(inner)
            if o is not None:
                for i, x in enumerate(o.c):
                    if x is c:
                        return Ptr(None, o, i)
            return Ptr(c)
        if op == '*':
            return self.deref(self.rv(e['e']), e).v
        if op == '!':
            v = self.rv(e['e'])
            if isinstance(v, Term):
                return Term('!', v) if v.op != '!' else v.args[0]
            return not self.truth(v)
        if op == '-':
            v = self.rv(e['e'])
            if isinstance(v, (int, float)):
                return self.convert(-v, self.ty(e))
            return Term('neg', _key(v), t=self.ty(e))
        if op == '+':
            return self.rv(e['e'])
        if op == '~':
            v = self.rv(e['e'])
            return ~v if isinstance(v, int) else Term('~', _key(v))
        if op in ('++', '--'):
            return self.lv_un(e).v
        if op in ('post++', 'post--'):
            c = self.lv(e['e'])
            old = c.v
            c.v = self.incdec(c.v, op[4:], self.ty(e))
            return old
        if op == '__extension__':
            return self.rv(e['e'])
        raise Unmodelled('unary ' + op)

    def rv_bin(self, e):
        op = e['op']
        if op == '&&':
            return self.truth(self.rv(e['a'])) and self.truth(self.rv(e['b']))
        if op == '||':
            return self.truth(self.rv(e['a'])) or self.truth(self.rv(e['b']))
        if op == ',':
            self.lv(e['a'])
            return self.rv(e['b'])
        a = self.rv(e['a'])
        b = self.rv(e['b'])
        return self.binop(op, a, b, self.ty(e), e)

    def lv_bin(self, e):
        if e['op'] == ',':
            self.lv(e['a'])
            return self.lv(e['b'])
        return Cell(self.rv_bin(e), self.ty(e))

    def binop(self, op, a, b, t=None, e=None):
        num = (int, float)
        if isinstance(a, num) and isinstance(b, num):
            try:
                if op == '+':
                    r = a + b
                elif op == '-':
                    r = a - b
                elif op == '*':
                    r = a * b
                elif op == '/':
                    if isinstance(a, float) or isinstance(b, float):
                        r = a / b if b != 0 else Term('/', a, b)
                    else:
                        if b == 0:
                            return Term('/', a, b)
                        r = abs(a) // abs(b)
                        if (a < 0) != (b < 0):
                            r = -r
                elif op == '%':
                    if b == 0:
                        return Term('%', a, b)
                    r = abs(a) % abs(b)
                    if a < 0:
                        r = -r
                elif op == '==':
                    return a == b
                elif op == '!=':
                    return a != b
                elif op == '<':
                    return a < b
                elif op == '>':
                    return a > b
                elif op == '<=':
                    return a <= b
                elif op == '>=':
                    return a >= b
                elif op == '&':
                    r = int(a) & int(b)
                elif op == '|':
                    r = int(a) | int(b)
                elif op == '^':
                    r = int(a) ^ int(b)
                elif op == '<<':
                    r = int(a) << int(b)
                elif op == '>>':
                    r = int(a) >> int(b)
                else:
                    raise Unmodelled('bin ' + op)
            except OverflowError:
                return Term(op, a, b)
            return self.convert(r, t) if not isinstance(r, Term) else r
        if op in ('==', '!='):
            r = self.equal(a, b)
            if r is None:
                ka, kb = _key(a), _key(b)
                r = Term('==', ka, kb)
                if op == '!=':
                    r = Term('!', r)
                return r
            return r if op == '==' else not r
        if isinstance(a, Ptr) and isinstance(b, Vec):
            b = Ptr(None, b, 0)
        elif isinstance(b, Ptr) and isinstance(a, Vec):
            a = Ptr(None, a, 0)
        if isinstance(a, Ptr) and a.vec is not None and op in ('+', '-') and not isinstance(b, Ptr):
            return Ptr(None, a.vec, self.binop(op, a.i, b, 'long'))
        if isinstance(a, Vec) and op == '+':
            return Ptr(None, a, b)
        if isinstance(a, AStr) and a.conc() and op == '+' and isinstance(b, int) and 0 <= b <= len(a.s()):
            return AStr((a.s()[b:],))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == '-' and a.vec is b.vec:
            return self.binop('-', a.i, b.i, 'long')
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op in ('<', '>', '<=', '>=') and a.vec is b.vec and a.vec is not None:
            return self.binop(op, a.i, b.i, 'bool')
        return Term(op, _key(a), _key(b), t=t)

    def equal(self, a, b):
        """True/False when decided, None when unknown"""
        if a is NULL and b is NULL:
            return True
        if a is NULL or b is NULL:
            o = b if a is NULL else a
            if isinstance(o, (Ptr, FuncRef, Closure)):
                return False
            if isinstance(o, Obj) and o.cls == 'unique_ptr':
                return self.equal(o.f['p'].v, NULL)
            if isinstance(o, Term):
                return None
            if isinstance(o, AStr):
                return False
            return None
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a == b
        if isinstance(a, Iter) and isinstance(b, Iter):
            return a == b
        if isinstance(a, AStr) and isinstance(b, AStr):
            if a == b:
                return True
            if a.conc() and b.conc():
                return False
            return None
        if isinstance(a, Term) and isinstance(b, Term):
            return True if a == b else None
        if isinstance(a, FuncRef) or isinstance(b, FuncRef):
            a, b = [x.cell.v if isinstance(x, Ptr) and x.cell is not None else x for x in (a, b)]
        if isinstance(a, FuncRef) and isinstance(b, FuncRef):
            return a.fid == b.fid
        if isinstance(a, Obj) and isinstance(b, Obj) and a is b:
            return True
        return None

    def lv_asg(self, e):
        op = e['op']
        if op == '=':
            b = self.rv(e['b'])
            c = self.lv(e['a'])
            old = c.v
            c.v = self.convert(self.copy(b), self.ty(e['a']))
            self.on_store(e, c, old)
            return c
        b = self.rv(e['b'])
        c = self.lv(e['a'])
        old = c.v
        c.v = self.binop(op[:-1], c.v, b, self.ty(e['a']), e)
        self.on_store(e, c, old)
        return c

    def on_store(self, e, cell, old):
        pass

    def lv_cond(self, e):
        if self.truth(self.rv(e['c'])):
            return self.lv(e['a'])
        return self.lv(e['b'])

    def rv_cast(self, e):
        ck = e.get('ck')
        t = self.ty(e)
        if ck == 'Dynamic':
            p = self.rv(e['e'])
            h = self.hooks.get('dynamic_cast')
            if h is not None:
                r = h(self, p, t)
                if r is not NotImplemented:
                    return r
            if isinstance(p, Ptr) and p.cell is not None and isinstance(p.cell.v, Obj):
                target = strip_t(strip_t(t).rstrip('*').rstrip('&').strip())
                if self.fx.is_sub(p.cell.v.cls, target):
                    return p
                if p.cell.v.cls in self.fx.recs:
                    return NULL
            if p is NULL:
                return NULL
            return Term('dyncast:' + t, _key(p), t=t)
        v = self.rv(e['e'])
        if ck in ('FloatingToIntegral',):
            if isinstance(v, float):
                return int(v)
            return Term('toint', _key(v), t=t) if not isinstance(v, int) else v
        if ck in ('IntegralToFloating',):
            if isinstance(v, int):
                return float(v)
            return v
        if ck in ('ToVoid',):
            return None
        if ck == 'ConstructorConversion' or ck == 'UserDefinedConversion':
            return v
        if isinstance(v, Term) and strip_t(t).endswith('*'):
            return Term(v.op, *v.args, t=t)
        return self.convert(v, t) if isinstance(v, (int, float)) else v

    def lv_cast(self, e):
        if e.get('ck') in ('Dynamic', 'FloatingToIntegral', 'IntegralToFloating', 'IntegralCast', 'ToVoid'):
            if e.get('ck') == 'Dynamic' and not strip_t(self.ty(e)).endswith('*') and 'dynamic_cast' not in self.hooks:
                c = self.lv(e['e'])
                if not isinstance(c.v, Obj) or c.v.cls not in self.fx.recs:
                    raise Unmodelled('dynamic_cast of %r' % (c.v,))
                if self.fx.is_sub(c.v.cls, strip_t(strip_t(self.ty(e)).rstrip('&').strip())):
                    return c
                raise CppThrow(Obj('std::bad_cast'), 'std::bad_cast', e.get('l'))
            return Cell(self.rv_cast(e), self.ty(e))
        return self.lv(e['e'])

    def rv_new(self, e):
        t = self.fx.t(e['at'])
        if e.get('arr'):
            n = self.rv(e['n'])
            v = Vec([], t, 'array')
            if isinstance(n, int):
                v.c = [Cell(self.default(t), t) for _ in range(n)]
                if e.get('init') is not None:
                    x = self.rv(e['init'])
                    for i, c in enumerate(v.c):
                        c.v = self.copy(x.c[i].v) if isinstance(x, Vec) and i < len(x.c) else self.zero(t)
            return Ptr(None, v, 0)
        if e.get('init'):
            v = self.rv(e['init'])
        else:
            v = self.default(t)
        c = Cell(v, t)
        self.on_new(e, c)
        return Ptr(c)

    def on_new(self, e, cell):
        pass

    def rv_delete(self, e):
        p = self.rv(e['e'])
        self.log.append(('delete', _key(p) if not isinstance(p, Ptr) else p, self.where(e)))
        if isinstance(p, Ptr) and p.cell is not None and isinstance(p.cell.v, Obj):
            self.destroy(p.cell)
        return None

    def destroy(self, cell):
        v = cell.v
        if not isinstance(v, Obj) or v.lazy is not None:
            return
        for c in self.fx.mro(v.cls):
            for i in self.fx.by_cls.get(c, ()):
                f = self.fx.funcs[i]
                if f.get('kind') == 'dtor' and i in self.fx.bodies and not f.get('defaulted'):
                    h = self.hooks.get(f['q'])
                    if h is not None and h(self, f, cell, [], None) is not NotImplemented:
                        continue
                    self.invoke(i, cell, [])

    def rv_throw(self, e):
        if e.get('e') is None:
            cur = None
            for fr in reversed(self.frames):
                if fr.exc:
                    cur = fr.exc[-1]
                    break
            if cur is not None:
                if getattr(cur, 'cell', None) is not None:
                    cur.val = cur.cell.v
                raise cur
            raise PathAbort('rethrow without exception')
        v = self.rv(e['e'])
        t = strip_t(self.ty(e['e']))
        raise CppThrow(v, t, self.where(e))

    def rv_ilist(self, e):
        t = strip_t(self.ty(e))
        b = tbase(t)
        if t not in self.fx.recs and t.startswith('(unnamed') or '::(unnamed' in t or '(anonymous' in t:
            raise Unmodelled('unnamed class')
        if t in self.fx.recs and not t.startswith('std::'):
            o = Obj(t)
            fds = self.fx.recs[t]['fields']
            for fd, a in zip(fds, e['a']):
                ft = self.fx.t(fd['t'])
                o.f[fd['q']] = Cell(self.convert(self.copy(self.rv(a)), ft), ft)
            return o
        if (t in INTS or t in FLTS or t.endswith('*')) and len(e['a']) <= 1:
            return self.rv(e['a'][0]) if e['a'] else self.zero(t)
        et = None
        if t.endswith(']'):
            et = t[:t.find('[')].strip() + t[t.find(']') + 1:]
        elif b in VECS:
            et = targs(t)[0]
        elif b == 'std::pair' and len(e['a']) == 2:
            o = self.default(t)
            o.f['first'].v = self.copy(self.rv(e['a'][0]))
            o.f['second'].v = self.copy(self.rv(e['a'][1]))
            return o
        if b == 'std::array' and len(e['a']) == 1 and e['a'][0]['k'] == 'ilist':
            return self.rv_ilist(dict(e['a'][0], t=e['a'][0]['t']))
        v = Vec([], et, b if b in VECS else 'array')
        for a in e['a']:
            v.c.append(Cell(self.copy(self.rv(a)), et))
        if t.endswith(']'):
            n = t[t.find('[') + 1:t.find(']')]
            if n.isdigit():
                while len(v.c) < int(n):
                    v.c.append(Cell(self.zero(et), et))
        return v

    def rv_lambda(self, e):
        fr = self.frames[-1]
        env = dict(fr.env)
        for c in e['caps']:
            if 'd' in c and not c['ref'] and c['d'] in env:
                env[c['d']] = Cell(self.copy(env[c['d']].v), env[c['d']].t)
            elif 'init' in c:
                t = self.fx.t(c['t'])
                env[c['d']] = self.lv(c['init']) if is_ref(t) else Cell(self.convert(self.copy(self.rv(c['init'])), t), strip_t(t))
        return Closure(e['f'], env, fr.this)

    def rv_ctor(self, e):
        return self.construct(e)

    def rv_stmtexpr(self, e):
        raise Unmodelled('stmtexpr')

    def rv_unk(self, e):
        raise Unmodelled('expression class %s at %s' % (e.get('cls'), self.where(e)))

    def lv_ctor(self, e):
        if self.fx.t(e['t']) in BITREF and len(e['a']) == 1:
            return self.lv(e['a'][0])
        return Cell(self.construct(e), strip_t(self.fx.t(e['t'])))

    def lv_call(self, e):
        t = self.ty(e)
        if 'fp' in e:
            return self.call_indirect(e)
        f = self.fx.funcs[e['f']]
        this = None
        if 'o' in e:
            if e.get('arrow'):
                p = self.rv(e['o'])
                this = self.deref_call(p, f, e)
            else:
                this = self.lv(e['o'])
            if this.t is None:
                this.t = f.get('clsx')
            if isinstance(this.v, Closure) and f['n'] == 'operator()':
                return self.wrap(self.call_closure(this.v, [self.arg(a, f, i) for i, a in enumerate(e['a'])], e['f']), f)
        # lazily evaluated condition-like std functions are not modelled; arguments left to right
        args = [self.arg(a, f, i) for i, a in enumerate(e['a'])]
        self.cur_call = e
        r = self.call(e['f'], this, args, e.get('l'), e, novirt=not e.get('virt'))
        return self.wrap(r, f)

    def deref_call(self, p, f, e):
        if isinstance(p, Obj) and p.cls == 'unique_ptr' and f.get('cls') != 'std::unique_ptr':
            return self.deref(p.f['p'].v, e)
        return self.deref(p, e)

    def call_closure(self, clo, args, fid=None):
        if fid is None or fid not in self.fx.bodies:
            fid = clo.fid if clo.fid in self.fx.bodies else self.generic(clo.fid, args)
        body = self.fx.bodies.get(fid)
        if body is None:
            raise Unmodelled('lambda body')
        self.visited.add(fid)
        env = dict(clo.env)
        for p, a in zip(body['p'], args):
            t = self.fx.t(p['t'])
            env[p['id']] = a if is_ref(t) else Cell(self.copy(a.v), t)
        fr = Frame(fid, env, clo.this)
        self.frames.append(fr)
        self.depth += 1
        try:
            try:
                self.stmt(body['b'])
                return None
            except _Return as r:
                return r.v
            finally:
                fr.unwind(self)
        finally:
            self.depth -= 1
            self.frames.pop()

    def generic(self, fid, args):
        """the instantiation of a generic lambda that fits the arguments, if it is unambiguous"""
        m = self.fx.__dict__.setdefault('_generic', {})
        if not m:
            m[None] = None
            for i, f in self.fx.funcs.items():
                if f.get('pat') and i in self.fx.bodies:
                    m.setdefault(f['pat'], []).append(i)
        c = m.get(self.fx.funcs[fid].get('pat') or fid) or m.get(fid) or []
        c = [i for i in c if len(self.fx.funcs[i]['p']) == len(args)]
        if len(c) > 1:
            c = [i for i in c if all(a.t is None or strip_t(a.t) == strip_t(self.fx.t(q['t'])) for a, q in zip(args, self.fx.funcs[i]['p']))]
        return c[0] if len(c) == 1 else None

    def wrap(self, r, f):
        if isinstance(r, Cell):
            return r
        return Cell(r, strip_t(self.fx.t(f['ret'])))

    def call_indirect(self, e):
        fp = self.rv(e['fp'])
        if isinstance(fp, Ptr):
            fp = fp.cell.v
        if isinstance(fp, FuncRef):
            f = self.fx.funcs[fp.fid]
            args = [self.arg(a, f, i) for i, a in enumerate(e['a'])]
            return self.wrap(self.call(fp.fid, None, args, e.get('l'), e), f)
        if isinstance(fp, Closure):
            args = [self.lv(a) for a in e['a']]
            r = self.call_closure(fp, args)
            return r if isinstance(r, Cell) else Cell(r)
        args = [self.lv(a) for a in e['a']]
        h = self.hooks.get('indirect')
        if h is not None:
            r = h(self, fp, args, e)
            if r is not NotImplemented:
                return r if isinstance(r, Cell) else Cell(r)
        if fp is NULL:
            self.null_deref(e)
            raise PathAbort('call through null')
        t = self.ty(e)
        return Cell(self.lazyval(Term('icall', _key(fp), *[_key(a.v) for a in args]), t), t)

    # ------------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None:
            return
        self.steps += 1
        if self.steps > self.max_steps:
            raise PathAbort('step bound')
        if self.frames:
            self.frames[-1].line = s.get('l') or self.frames[-1].line
        getattr(self, 'st_' + s['k'])(s)

    def st_nop(self, s):
        pass

    def st_comp(self, s):
        fr = self.frames[-1]
        mark = len(fr.locals)
        try:
            for x in s['b']:
                self.stmt(x)
        finally:
            fr.unwind(self, mark)

    def st_expr(self, s):
        self.lv(s['e'])

    def st_decl(self, s):
        for v in s['v']:
            self.declare(v)

    def declare(self, v):
        fr = self.frames[-1]
        t = self.fx.t(v['t'])
        if v.get('static'):
            key = ('static', v['id'])
            if key not in self.globals:
                self.globals[key] = Cell(self.rv(v['init']) if 'init' in v else self.zero(t), t)
            fr.env[v['id']] = self.globals[key]
            return
        if is_ref(t):
            fr.env[v['id']] = self.lv(v['init'])
            return
        if 'init' in v and v['init'] is not None:
            val = self.rv(v['init'])
            if v['init']['k'] not in ('ctor',):
                val = self.copy(val)
            if isinstance(val, AStr) and t.endswith(']'):
                pass
            c = Cell(self.convert(val, t), strip_t(t))
        else:
            c = Cell(self.default(t), strip_t(t))
        if isinstance(c.v, Term) and c.v.t is None and not isinstance(c.v, Obj):
            c.v = Term(c.v.op, *c.v.args, t=t)
        fr.env[v['id']] = c
        fr.locals.append(c)

    def st_if(self, s):
        fr = self.frames[-1]
        mark = len(fr.locals)
        try:
            if 'i' in s:
                self.stmt(s['i'])
            if 'cv' in s:
                self.stmt(s['cv'])
            if self.truth(self.rv(s['c'])):
                self.stmt(s['a'])
            elif 'b' in s:
                self.stmt(s['b'])
        finally:
            fr.unwind(self, mark)

    def loop(self, cond, body, inc=None, first=True):
        n = 0
        unk = 0
        while True:
            if first or n > 0:
                cv = self.rv(cond) if cond is not None else True
                if isinstance(cv, Term):
                    unk += 1
                    if unk > self.loop_bound:
                        raise PathAbort('loop bound')
                    # conditions over havoced state are fresh at every iteration
                if not self.truth(cv):
                    break
            n += 1
            if n > 2000:
                raise PathAbort('loop bound')
            try:
                self.stmt(body)
            except _Break:
                break
            except _Continue:
                pass
            if inc is not None:
                self.lv(inc)

    def st_while(self, s):
        if 'cv' in s:
            n = 0
            while True:
                n += 1
                if n > 50:
                    raise PathAbort('loop bound')
                self.stmt(s['cv'])
                if not self.truth(self.rv(s['c'])):
                    return
                try:
                    self.stmt(s['b'])
                except _Break:
                    return
                except _Continue:
                    pass
        self.loop(s['c'], s['b'])

    def st_do(self, s):
        self.loop(s['c'], s['b'], first=False)

    def st_for(self, s):
        fr = self.frames[-1]
        mark = len(fr.locals)
        try:
            if 'i' in s:
                self.stmt(s['i'])
            self.loop(s.get('c'), s['b'], s.get('s'))
        finally:
            fr.unwind(self, mark)

    def st_rfor(self, s):
        c = self.lv(s['r'])
        t = self.fx.t(s['v']['t'])
        v = c.v
        from . import stdmodel
        cells = stdmodel.range_cells(self, v, c)
        for cell in cells:
            self.steps += 1
            self.frames[-1].env[s['v']['id']] = cell if is_ref(t) else Cell(self.copy(cell.v), t)
            if is_ref(t):
                self.frames[-1].env[('range', s['v']['id'])] = v
            try:
                self.stmt(s['b'])
            except _Break:
                break
            except _Continue:
                continue

    def st_switch(self, s):
        if 'i' in s:
            self.stmt(s['i'])
        if 'cv' in s:
            self.stmt(s['cv'])
        v = self.rv(s['c'])
        items = flatten_switch(s['b'])
        start = None
        vals = [(i, it['v']) for i, it in enumerate(items) if it.get('k') == 'case']
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            for i, cv in vals:
                if cv == v:
                    start = i
                    break
        else:
            for i, cv in vals:
                if self.decide(Term('==', _key(v), cv)):
                    start = i
                    break
        if start is None:
            for i, it in enumerate(items):
                if it.get('k') == 'default':
                    start = i
        if start is None:
            return
        fr = self.frames[-1]
        mark = len(fr.locals)
        try:
            for it in items[start:]:
                if it.get('k') in ('case', 'default'):
                    continue
                self.stmt(it)
        except _Break:
            pass
        finally:
            fr.unwind(self, mark)

    def st_case(self, s):
        self.stmt(s['s'])

    def st_default(self, s):
        self.stmt(s['s'])

    def st_ret(self, s):
        fr = self.frames[-1]
        if 'e' not in s:
            raise _Return(None)
        rt = self.fx.t(self.fx.funcs[fr.fid]['ret']) if fr.fid is not None else '?'
        if is_ref(rt):
            raise _Return(self.lv(s['e']))
        v = self.rv(s['e'])
        raise _Return(self.convert(self.copy(v) if s['e']['k'] not in ('ctor', 'call') else v, rt))

    def st_break(self, s):
        raise _Break()

    def st_cont(self, s):
        raise _Continue()

    def st_goto(self, s):
        raise Unmodelled('goto')

    def st_label(self, s):
        self.stmt(s['s'])

    def st_unkstmt(self, s):
        raise Unmodelled('statement ' + s['cls'])

    def st_try(self, s):
        fr = self.frames[-1]
        try:
            self.stmt(s['b'])
        except CppThrow as ex:
            for h in s['h']:
                if 'ct' not in h:
                    ok = True
                else:
                    ct = strip_t(self.fx.t(h['ct']))
                    ok = ct == ex.typ or ct in self.fx.mro(ex.typ) or std_exc_base(ex.typ, ct, self.fx)
                if ok:
                    if 'v' in h:
                        fr.env[h['v']['id']] = Cell(ex.val, ex.typ)
                        ex.cell = fr.env[h['v']['id']] if is_ref(self.fx.t(h['v']['t'])) else None
                    fr.exc.append(ex)
                    try:
                        self.stmt(h['b'])
                    finally:
                        fr.exc.pop()
                    return
            raise


LOGIC = {'std::invalid_argument', 'std::domain_error', 'std::length_error', 'std::out_of_range'}
RUNTIME = {'std::range_error', 'std::overflow_error', 'std::underflow_error', 'std::system_error'}


def std_exc_base(t, ct, fx):
    if ct in ('std::logic_error', 'std::runtime_error'):
        return any(m in (LOGIC if ct == 'std::logic_error' else RUNTIME) | {ct} for m in [t] + list(fx.mro(t)))
    if ct == 'std::exception':
        if t.startswith('std::'):
            return True
        return any(m.startswith('std::') for m in fx.mro(t))
    return False


def flatten_switch(b):
    items = []
    body = b['b'] if b['k'] == 'comp' else [b]

    def add(x):
        while x is not None and x['k'] in ('case', 'default'):
            items.append({'k': x['k'], 'v': x.get('v'), 'l': x['l']})
            x = x['s']
        if x is not None:
            items.append(x)

    for x in body:
        add(x)
    return items


class Frame:
    def __init__(self, fid, env, this):
        self.fid = fid
        self.env = env
        self.this = this
        self.locals = []
        self.exc = []
        self.line = None

    def lookup(self, d):
        return self.env.get(d)

    def unwind(self, interp, mark=0):
        while len(self.locals) > mark:
            c = self.locals.pop()
            if interp.dtors and isinstance(c.v, Obj) and c.v.lazy is None and not getattr(c.v, 'moved', False):
                interp.destroy(c)


def _key(v):
    """hashable value number"""
    if isinstance(v, (Term, AStr, str, int, float, bool, Ptr, FuncRef)) or v is NULL or v is None:
        return v
    if isinstance(v, Obj):
        if v.cls == 'unique_ptr':
            return _key(v.f['p'].v)
        if v.lazy is not None and not v.f:
            return v.lazy
        if v.tag is not None:
            return Term('obj', v.tag)
        return Term('obj#%d' % v.n)
    if isinstance(v, Iter):
        return Term('iter', id(v.cont), v.i)
    if isinstance(v, Stream):
        return Term('stream#%d' % id(v))
    if isinstance(v, (Vec, AMap)):
        return Term('cont#%d' % id(v))
    return Term('val#%d' % id(v))
