"""Abstract models of the std:: (and CppAD:: container) functions used by the library."""
import math
from .absint import (AMap, AStr, Cell, Closure, CppThrow, FuncRef, INTS, FLTS, Iter, MAPS, NULL, Obj, PathAbort, Ptr, SETS, STREAMS,
                     STRT, Stream, Term, Unmodelled, VECS, Vec, _key, is_ref, strip_t, targs, tbase)


def items(c):
    if isinstance(c, Vec):
        return c.c
    if isinstance(c, AMap):
        return c.d
    raise Unmodelled('container %r' % (c,))


def okey(k):
    """ordering of concrete keys"""
    if isinstance(k, bool):
        return (0, int(k))
    if isinstance(k, (int, float)):
        return (0, k)
    if isinstance(k, AStr) and k.conc():
        return (1, k.s())
    if isinstance(k, Obj) and set(k.f) == {'first', 'second'}:
        return (2, okey(k.f['first'].v), okey(k.f['second'].v))
    return None


def samekey(it, a, b):
    r = it.equal(a, b) if not (isinstance(a, (int, float)) and isinstance(b, (int, float))) else a == b
    if r is not None:
        return r
    if isinstance(a, Obj) and isinstance(b, Obj) and tupled(a) and tupled(b):
        return all(samekey(it, x.v, y.v) for x, y in zip(elements(a), elements(b)))
    if isinstance(a, AMap) and isinstance(b, AMap):
        return same_maps(it, a, b)
    if isinstance(a, Vec) and isinstance(b, Vec):
        return len(a.c) == len(b.c) and all(samekey(it, x.v, y.v) for x, y in zip(a.c, b.c))
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls and a.lazy is None and b.lazy is None:
        f = user_equal(it.fx, a.cls)
        if f is not None:
            ca, cb = Cell(a, a.cls), Cell(b, b.cls)
            return truth(it, it.call(f[0], ca, [cb]) if f[1] else it.call(f[0], None, [ca, cb]))
    ka, kb = _key(a), _key(b)
    if ka == kb:
        return True
    return it.truth(Term('==', ka, kb))


def same_maps(it, a, b):
    if len(a.d) != len(b.d):
        return False
    if a.kind.startswith('std::unordered'):
        for k, c in a.d:
            i = map_find(it, b, k)
            if i is None or not a.isset and not samekey(it, c.v, b.d[i][1].v):
                return False
        return True
    return all(samekey(it, x[0], y[0]) and (a.isset or samekey(it, x[1].v, y[1].v)) for x, y in zip(a.d, b.d))


def user_equal(fx, cls):
    """the free equality operator of a class of the repository"""
    c = fx.__dict__.setdefault('_eqop', {})
    if cls not in c:
        c[cls] = None
        for i, f in fx.funcs.items():
            if f['n'] == 'operator==' and i in fx.bodies:
                p = [x.replace('const ', '').rstrip('& ') for x in fx.ptypes(i)]
                if p == [cls, cls]:
                    c[cls] = (i, False)
                elif p == [cls] and f.get('clsx') == cls:
                    c[cls] = (i, True)
    return c[cls]


def truth(it, r):
    return it.truth(r.v if isinstance(r, Cell) else r)


def user_less(fx, cls):
    """(function, is a member) of the ordering operator of a class of the repository"""
    c = fx.__dict__.setdefault('_ltop', {})
    if cls not in c:
        c[cls] = None
        for i, f in fx.funcs.items():
            if f['n'] == 'operator<' and i in fx.bodies:
                q = [x.replace('const ', '').rstrip('& ') for x in fx.ptypes(i)]
                if q == [cls, cls]:
                    c[cls] = (i, False)
                elif q == [cls] and f.get('clsx') == cls:
                    c[cls] = (i, True)
    return c[cls]


def less(it, a, b, cmp=None):
    """a < b, by a comparator or by the default order of the values"""
    if cmp is not None:
        return truth(it, apply(it, cmp, [a if isinstance(a, Cell) else Cell(a), b if isinstance(b, Cell) else Cell(b)]))
    a = a.v if isinstance(a, Cell) else a
    b = b.v if isinstance(b, Cell) else b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a < b
    if isinstance(a, AStr) and isinstance(b, AStr) and a.conc() and b.conc():
        return a.s() < b.s()
    if isinstance(a, Iter) and isinstance(b, Iter) and a.cont is b.cont:
        return a.i < b.i
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a == b:
            return False
        if a.vec is not None and a.vec is b.vec:
            return truth(it, it.binop('<', a.i, b.i, 'bool'))
        return serial(it, a) < serial(it, b)  # some total order of the addresses
    if a is NULL or b is NULL:
        return a is NULL and b is not NULL and truth(it, b)
    if isinstance(a, Obj) and isinstance(b, Obj):
        if tupled(a) and tupled(b):
            for x, y in zip(elements(a), elements(b)):
                if less(it, x, y):
                    return True
                if less(it, y, x):
                    return False
            return False
        f = user_less(it.fx, a.cls)
        if f is not None:
            ca, cb = Cell(a, a.cls), Cell(b, b.cls)
            return truth(it, it.call(f[0], ca, [cb]) if f[1] else it.call(f[0], None, [ca, cb]))
        if a.lazy is None and b.lazy is None:
            raise Unmodelled('order of ' + a.cls)
    if isinstance(a, (Vec, AMap)) and isinstance(b, (Vec, AMap)):
        for x, y in zip(range_cells(it, a, None), range_cells(it, b, None)):
            if less(it, x, y):
                return True
            if less(it, y, x):
                return False
        return len(items(a)) < len(items(b))
    ka, kb = _key(a), _key(b)
    return False if ka == kb else it.truth(Term('<', ka, kb))


def serial(it, p):
    m = it.__dict__.setdefault('_serial', {})
    k = id(p.cell if p.vec is None else p.vec)
    m.setdefault(k, (len(m), p))
    return m[k][0]


def tupled(o):
    return tbase(o.cls) in ('std::pair', 'std::tuple') or set(o.f) == {'first', 'second'}


def elements(o):
    if 'first' in o.f:
        return [o.f['first'], o.f['second']]
    return [o.f['e%d' % i] for i in range(len(o.f))]


def by_order(it, m, k):
    """the container compares its keys with its comparator (not with an equality that means the same)"""
    return m.cmp is not None or isinstance(k, Obj) and okey(k) is None and (tupled(k) or user_less(it.fx, k.cls) is not None)


def map_insert(it, m, k, cell):
    e = [k, cell]
    if m.kind.startswith('std::unordered') or okey(k) is None and not by_order(it, m, k):
        m.d.append(e)
        return len(m.d) - 1
    for i, (k2, _) in enumerate(m.d):
        if less(it, k, k2, m.cmp):
            m.d.insert(i, e)
            return i
    m.d.append(e)
    return len(m.d) - 1


def map_find(it, m, k):
    o = by_order(it, m, k) and not m.kind.startswith('std::unordered')
    for i, (k2, c) in enumerate(m.d):
        if not less(it, k2, k, m.cmp) and not less(it, k, k2, m.cmp) if o else samekey(it, k2, k):
            return i
    return None


def pair(it, a, b, t='std::pair<?, ?>'):
    o = Obj(t)
    o.f['first'] = a if isinstance(a, Cell) else Cell(a)
    o.f['second'] = b if isinstance(b, Cell) else Cell(b)
    return o


def iter_cell(it, i):
    c = items(i.cont)
    if not isinstance(i.i, int):
        raise Unmodelled('iterator')
    idx = i.i if not i.rev else len(c) - 1 - i.i
    if not 0 <= idx < len(c):
        it.log.append(('oob-iter', it.where()))
        raise PathAbort('iterator out of range')
    if isinstance(i.cont, Vec):
        return c[idx]
    k, cell = c[idx]
    if i.cont.isset:
        return Cell(k, i.cont.kt)
    return Cell(pair(it, Cell(k, i.cont.kt), cell))


def walk_user(it, b, e):
    """elements between two iterators of a class of the repository"""
    def op(n, *a):
        c = [i for k in it.fx.mro(b.cls) for i in it.fx.by_cls.get(k, ()) if it.fx.funcs[i]['n'] == n and i in it.fx.bodies and
             len(it.fx.funcs[i]['p']) == len(a)]
        if not c:
            raise Unmodelled('iteration with ' + b.cls)
        r = it.call(c[0], cb, list(a))
        return r if isinstance(r, Cell) else Cell(r)
    cb, ce = Cell(it.copy(b), b.cls), Cell(e, e.cls)
    out = []
    while truth(it, op('operator!=', ce)):
        if len(out) > 2000:
            raise PathAbort('loop bound')
        out.append(op('operator*'))
        op('operator++')
    return out


def range_cells(it, v, c):
    if isinstance(v, Vec):
        return list(v.c)
    if isinstance(v, AMap):
        if v.isset:
            return [Cell(k, v.kt) for k, _ in v.d]
        return [Cell(pair(it, Cell(k, v.kt), cc)) for k, cc in list(v.d)]
    if isinstance(v, Obj) and v.cls in it.fx.recs:
        # user-defined begin()/end()
        beg = end = None
        for q in it.fx.mro(v.cls):
            for i in it.fx.by_cls.get(q, ()):
                f = it.fx.funcs[i]
                if f['n'] == 'begin' and i in it.fx.bodies and beg is None:
                    beg = i
                if f['n'] == 'end' and i in it.fx.bodies and end is None:
                    end = i
        if beg is not None and end is not None:
            b = it.call(beg, c, [])
            e = it.call(end, c, [])
            b = b.v if isinstance(b, Cell) else b
            e = e.v if isinstance(e, Cell) else e
            if isinstance(b, Iter) and isinstance(e, Iter) and b.cont is e.cont:
                return [iter_cell(it, Iter(b.cont, x)) for x in range(b.i, e.i)]
            if isinstance(b, Obj) and isinstance(e, Obj) and b.cls == e.cls and b.cls in it.fx.recs:
                return walk_user(it, b, e)
            if isinstance(b, Ptr) and isinstance(e, Ptr) and b.vec is not None and b.vec is e.vec:
                return b.vec.c[b.i:e.i]
    h = it.hooks.get('range')
    if h is not None:
        r = h(it, v, c)
        if r is not NotImplemented:
            return r
    if isinstance(v, (Term, Obj, AStr)) or v is None:
        if isinstance(v, AStr) and v.conc():
            return [Cell(ord(ch), 'char') for ch in v.s()]
        raise Unmodelled('range over opaque %r' % (v,))
    raise Unmodelled('range over %r' % (v,))


def tostr_pieces(it, v, t, stream):
    if isinstance(v, AStr):
        return list(v.p)
    st = strip_t(t)
    if st in ('char', 'signed char', 'unsigned char') and isinstance(v, int):
        return [chr(v)]
    if isinstance(v, bool):
        return [str(int(v))]
    if isinstance(v, int):
        return [str(v)]
    if isinstance(v, float):
        pr = stream.state.get('precision', 6)
        stream.events.append(('num', v, pr, it.where()))
        if not isinstance(pr, int):
            return [Term('num', v, pr)]
        return ['%.*g' % (pr, v)]
    if isinstance(v, Term):
        if v.op.startswith('manip:'):
            stream.state[v.op[9:] if v.op.startswith('manip:set') else v.op] = v.args[0]
            return []
        if st in FLTS:
            pr = stream.state.get('precision', 6)
            stream.events.append(('num', v, pr, it.where()))
            return [Term('num', v, pr)]
        return [v]
    return [Term('fmt', _key(v))]


def stream_put(it, s, cell, t):
    s.out.extend(tostr_pieces(it, cell.v, t, s))


def as_stream(v):
    return v if isinstance(v, Stream) else None


MATH1 = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'exp', 'expm1', 'log', 'log10',
         'log1p', 'sqrt', 'fabs', 'abs', 'erf', 'erfc', 'isnan', 'isfinite', 'isinf', 'ceil', 'floor', 'log2', 'signbit'}
MATH2 = {'pow', 'atan2', 'fmod'}


def fidx(args, i=0):
    return args[i].v


def call(it, f, this, args, line, e):
    q, n = f['q'], f['n']
    ret = it.fx.t(f['ret'])
    cls = f.get('cls', '')
    tv = this.v if this is not None else None
    if n == 'operator bool' and cls in ('std::_Bit_reference', 'CppAD::local::utility::vectorBoolElement'):
        return tv
    if isinstance(tv, Term) and this is not None:
        b = tbase(strip_t(f.get('clsx', '')))
        if b == STRT:
            tv = AStr((tv,))

    # ---- unique_ptr -----------------------------------------------------------------------------
    if isinstance(tv, Obj) and tv.cls == 'unique_ptr':
        p = tv.f['p']
        if n == 'get':
            return p.v
        if n == 'release':
            r = p.v
            p.v = NULL
            return r
        if n == 'reset':
            old = p.v
            p.v = args[0].v if args else NULL
            if isinstance(old, Ptr) and old.cell is not None:
                it.destroy(old.cell)
            return None
        if n == 'operator*':
            return it.deref(p.v, e)
        if n == 'operator->':
            return p.v
        if n == 'operator bool':
            return it.truth(p.v)
        if n == 'operator=':
            a = args[0].v
            if isinstance(a, Obj) and a.cls == 'unique_ptr':
                p.v = a.f['p'].v
                if cls == 'std::unique_ptr':
                    a.f['p'].v = NULL
            else:
                p.v = a
            return this
        if n == 'swap':
            o = args[0].v.f['p']
            p.v, o.v = o.v, p.v
            return None
        if n == 'operator[]':
            return it.vecat(p.v.vec, it.binop('+', p.v.i, args[0].v, 'long')) if isinstance(p.v, Ptr) and p.v.vec is not None else NotImplemented
    # ---- tuples
    if isinstance(tv, Obj) and tbase(tv.cls) == 'std::tuple' and n == 'operator=' and args and isinstance(args[0].v, Obj):
        for x, y in zip(elements(tv), [Cell(it.copy(c.v), c.t) for c in elements(args[0].v)]):
            x.v = y.v
        return this
    if isinstance(tv, Obj) and tv.cls == 'reference_wrapper':
        if n == 'get' or f.get('kind') == 'conv':
            return tv.f['r'].v.cell
        if n == 'operator()':
            return apply(it, tv.f['r'].v.cell.v, args)
    if q in ('std::ref', 'std::cref') and args:
        o = Obj('reference_wrapper')
        o.f['r'] = Cell(Ptr(args[0]))
        return o
    if q in ('std::tie', 'std::make_tuple', 'std::forward_as_tuple'):
        o = Obj(strip_t(ret))
        for i, a in enumerate(args):
            o.f['e%d' % i] = Cell(it.copy(a.v), strip_t(a.t) if a.t else None) if n == 'make_tuple' else a
        return o
    if q == 'std::tuple_cat':
        o = Obj(strip_t(ret))
        for a in args:
            for c in elements(a.v):
                o.f['e%d' % len(o.f)] = Cell(it.copy(c.v), c.t)
        return o
    if q == 'std::get' and len(args) == 1:
        x = f['full'][len('std::get<'):]
        k = ''
        while x and x[0].isdigit():
            k, x = k + x[0], x[1:]
        if isinstance(args[0].v, Vec) and k:
            return it.vecat(args[0].v, int(k))
        if isinstance(args[0].v, Obj) and tupled(args[0].v):
            el = elements(args[0].v)
            if k:
                return el[int(k)]
            ts = targs(args[0].v.cls)
            if ts.count(strip_t(ret)) == 1:
                return el[ts.index(strip_t(ret))]
        raise Unmodelled('get')
    if q == 'std::getline':
        raise Unmodelled(n)
    if q == 'std::exchange' and len(args) == 2:
        old = it.copy(args[0].v)
        new = args[1].v
        if isinstance(new, Obj) and new.cls == 'unique_ptr':
            new = it.copy(new)
            args[1].v.f['p'].v = NULL
        args[0].v = new if isinstance(new, Obj) else it.convert(it.copy(new), args[0].t)
        return old
    if q in ('std::make_unique', 'std::make_shared'):
        t = targs(strip_t(ret))[0]
        o = Obj('unique_ptr')
        if t.endswith(']'):
            et = t[:t.rfind('[')].strip()
            if not isinstance(args[0].v, int):
                raise Unmodelled(n)
            o.f['p'] = Cell(Ptr(None, Vec([Cell(it.zero(et), et) for _ in range(args[0].v)], et, 'array'), 0))
            return o
        c = Cell(None, t)
        c.v = make(it, t, args)
        it.on_new(e or {}, c)
        o.f['p'] = Cell(Ptr(c))
        return o
    # ---- strings --------------------------------------------------------------------------------
    if isinstance(tv, AStr):
        return string_call(it, f, this, tv, args, n, ret)
    # ---- streams --------------------------------------------------------------------------------
    if isinstance(tv, Stream):
        r = stream_call(it, f, this, tv, args, n, e)
        if r is not NotImplemented:
            return r
    if n == 'operator<<' and this is None and len(args) == 2 and isinstance(args[0].v, Stream):
        stream_put(it, args[0].v, args[1], it.fx.t(f['p'][1]['t']))
        return args[0]
    if n in ('setprecision', 'setw', 'setfill'):
        return Term('manip:' + n, _key(args[0].v))
    # ---- vectors --------------------------------------------------------------------------------
    if isinstance(tv, Vec):
        return vec_call(it, f, this, tv, args, n, ret, e)
    if isinstance(tv, AMap):
        return map_call(it, f, this, tv, args, n, ret, e)
    if isinstance(tv, Iter) or (this is None and args and isinstance(args[0].v, Iter)):
        r = iter_call(it, f, this, tv, args, n)
        if r is not NotImplemented:
            return r
    # ---- free functions -------------------------------------------------------------------------
    if n in ('move', 'forward', 'move_if_noexcept') and len(args) == 1:
        return args[0]
    if n == 'addressof':
        return Ptr(args[0])
    if n in ('operator==', 'operator!=') and this is None and len(args) == 2:
        a, b = args[0].v, args[1].v
        if isinstance(a, AStr) or isinstance(b, AStr):
            r = it.equal(a if isinstance(a, AStr) else AStr((a,)), b if isinstance(b, AStr) else AStr((b,)))
            if r is None:
                r = it.truth(Term('==', _key(a), _key(b)))
            return r if n == 'operator==' else not r
        if isinstance(a, Vec) and isinstance(b, Vec) or isinstance(a, AMap) and isinstance(b, AMap) or \
                isinstance(a, Obj) and isinstance(b, Obj) and tupled(a) and tupled(b) and q.startswith('std::'):
            r = samekey(it, a, b)
            return r if n == 'operator==' else not r
        if isinstance(a, Obj) and a.cls == 'unique_ptr' or b is NULL:
            r = it.equal(a, b)
            if r is None:
                r = it.truth(Term('==', _key(a), _key(b)))
            return r if n == 'operator==' else not r
    if n in ('operator<', 'operator>', 'operator<=', 'operator>=') and this is None and len(args) == 2:
        op = n[8:]
        a, b = args[0].v, args[1].v
        if okey(a) is not None and okey(b) is not None or isinstance(a, (Iter, Vec, AMap)) and type(a) is type(b) or \
                isinstance(a, Obj) and isinstance(b, Obj) and tupled(a) and tupled(b):
            if op in '<>=':
                return less(it, a, b) if op == '<' else less(it, b, a)
            return not less(it, b, a) if op == '<=' else not less(it, a, b)
        return Term(op, _key(args[0].v), _key(args[1].v))
    if n == 'operator+' and this is None and len(args) == 2:
        a, b = args[0].v, args[1].v
        t = strip_t(ret)
        if tbase(t) == STRT:
            def s(x, i):
                if isinstance(x, AStr):
                    return x
                if isinstance(x, int) and 'char' in it.fx.t(f['p'][i]['t']):
                    return AStr((chr(x),))
                return AStr((x,))
            return s(a, 0) + s(b, 1)
    if n == 'to_string':
        v = args[0].v
        return AStr((str(v),)) if isinstance(v, int) else AStr((Term('to_string', _key(v)),))
    if n in ('make_pair',):
        return pair(it, it.copy(args[0].v), it.copy(args[1].v), strip_t(ret))
    if q in ('std::max', 'std::min') and args and (isinstance(args[0].v, Vec) or len(args) == 3):
        c = args[0].v.c if isinstance(args[0].v, Vec) else args[:2]
        return extreme(it, c, n == 'max', args[-1].v if len(args) == (2 if isinstance(args[0].v, Vec) else 3) else None)
    if n in ('max', 'min') and len(args) == 2:
        a, b = args[0].v, args[1].v
        if isinstance(a, Obj) and isinstance(b, Obj) and q.startswith('std::'):
            return extreme(it, args, n == 'max', None)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return args[0] if ((a >= b) == (n == 'max')) else args[1]
        return Cell(Term(n, *sorted([_key(a), _key(b)], key=repr)))
    if n == 'max' and q.startswith('std::numeric_limits'):
        t = strip_t(ret)
        return {'unsigned long': 2 ** 64 - 1, 'int': 2 ** 31 - 1, 'long': 2 ** 63 - 1, 'unsigned int': 2 ** 32 - 1}.get(t, Term('numeric_limits::max', t))
    if q.startswith('std::numeric_limits') or q.startswith('CppAD::numeric_limits'):
        return Term('limit:' + n, t=ret)
    if n in MATH1 and len(args) == 1 and strip_t(it.fx.t(f['p'][0]['t'])) in FLTS | INTS:
        v = args[0].v
        if isinstance(v, (int, float)) and n in ('isnan', 'isinf'):
            return math.isnan(v) if n == 'isnan' else math.isinf(v)
        if isinstance(v, (int, float)) and n in ('abs', 'fabs'):
            return abs(v)
        return Term(('fabs' if n == 'abs' else n), _key(v), t=ret)
    if n in MATH2 and len(args) == 2:
        return Term(n, _key(args[0].v), _key(args[1].v), t=ret)
    if n == 'swap' and len(args) == 2:
        args[0].v, args[1].v = args[1].v, args[0].v
        return None
    if n in ('strcmp',) and len(args) == 2:
        a, b = args[0].v, args[1].v
        if isinstance(a, AStr) and isinstance(b, AStr) and a.conc() and b.conc():
            return (a.s() > b.s()) - (a.s() < b.s())
        return Term('strcmp', _key(a), _key(b))
    if this is None and args:
        r = algorithm(it, f, args, n, e)
        if r is not NotImplemented:
            return r
    if n == 'strlen' and len(args) == 1 and isinstance(args[0].v, AStr) and args[0].v.conc():
        return len(args[0].v.s())
    if n in ('begin', 'end', 'cbegin', 'cend') and this is None and len(args) == 1 and isinstance(args[0].v, Ptr) and args[0].v.vec is not None:
        return Ptr(None, args[0].v.vec, 0 if 'begin' in n else len(args[0].v.vec.c))
    if n in ('begin', 'end', 'cbegin', 'cend') and this is None and len(args) == 1 and isinstance(args[0].v, (Vec, AMap)):
        c = args[0].v
        return Iter(c, 0 if 'begin' in n else len(items(c)))
    if n in ('endl', 'flush') and args and isinstance(args[0].v, Stream):
        if n == 'endl':
            args[0].v.out.append('\n')
        return args[0]
    if n in ('fixed', 'scientific', 'hexfloat', 'defaultfloat') and args:
        return args[0]
    if n == 'what' and this is not None:
        if isinstance(tv, Term) and tv.op.startswith('ctor:std::') and len(tv.args) == 1 and isinstance(tv.args[0], AStr):
            return tv.args[0]
        return AStr((Term('what', _key(tv)),))
    if n == 'operator=' and this is not None and args and not isinstance(tv, Term):
        if isinstance(tv, Obj) and isinstance(args[0].v, Obj):
            src = it.copy(args[0].v)
            tv.f = src.f
            tv.lazy = src.lazy
            tv.tag = src.tag
            return this
        this.v = it.copy(args[0].v)
        return this
    if n == 'operator=' and this is not None and args:
        this.v = it.copy(args[0].v)
        return this
    if n == 'operator bool' and isinstance(tv, (Closure, FuncRef)):
        return True
    if n == 'operator bool' and tv is NULL:
        return False
    if n == 'operator()' and isinstance(tv, Closure):
        return it.call_closure(tv, args)
    if n == 'operator bool' and cls == 'std::function' and isinstance(tv, Obj):
        return True
    if n == 'operator()' and cls == 'std::function' and isinstance(tv, Obj):
        return apply(it, tv, args)
    if n == 'operator()' and cls == 'std::function' and tv is NULL:
        raise CppThrow(Term('bad_function_call'), 'std::bad_function_call', it.where(e))
    if n == 'operator()' and isinstance(tv, FuncRef):
        return it.call(tv.fid, None, args, line, e)
    if this is None and q.startswith('std::') and any(isinstance(a.v, (Iter, Closure, Inserter)) for a in args):
        raise Unmodelled(n)  # its effect on the container is not known
    return NotImplemented


def make(it, t, args):
    """an object of type t constructed from args"""
    t = strip_t(t)
    if t in it.fx.recs and not t.startswith('std::') or tbase(t) == 'std::pair':
        return emplace(it, t, args) if args else construct_default(it, t, it.zero(t))
    return value(it, t, args)


def value(it, t, args):
    """a value of a type that is no class of the repository"""
    b = tbase(strip_t(t or '?'))
    if not args:
        return it.zero(t)
    if len(args) == 1 and not (b in VECS and isinstance(args[0].v, int)):
        v = it.copy(args[0].v)
        if b == STRT and not isinstance(v, AStr):
            return AStr((v,))
        return it.convert(v, t)
    if b in VECS and isinstance(args[0].v, int):
        x = [it.copy(args[1].v) if len(args) > 1 else it.zero(targs(t)[0]) for _ in range(args[0].v)]
        return Vec([Cell(y, targs(t)[0]) for y in x], targs(t)[0], b)
    c = span(it, args[0].v, args[1].v) if len(args) == 2 else None
    if c is not None and (b in VECS or b in SETS or b in MAPS):
        o = it.default(t)
        for x in c:
            if isinstance(o, Vec):
                o.c.append(Cell(it.copy(x.v), o.et))
            else:
                put(it, o, x.v)
        return o
    if b == 'std::tuple':
        o = Obj(t)
        for i, a in enumerate(args):
            o.f['e%d' % i] = Cell(it.copy(a.v), targs(t)[i])
        return o
    if b == STRT and len(args) == 2 and isinstance(args[0].v, int) and isinstance(args[1].v, int):
        return AStr((chr(args[1].v) * args[0].v,))
    raise Unmodelled('construction of ' + str(t))


def extreme(it, cells, largest, cmp):
    best = None
    for c in cells:
        if best is None or (less(it, best, c, cmp) if largest else less(it, c, best, cmp)):
            best = c
    return best


def order(it, cells, cmp=None):
    """puts the values of the cells into order, stable"""
    import functools
    cs = [Cell(c.v, c.t) for c in cells]
    cs.sort(key=functools.cmp_to_key(lambda x, y: -1 if less(it, x, y, cmp) else 1 if less(it, y, x, cmp) else 0))
    for c, x in zip(cells, cs):
        c.v = x.v


class Inserter:
    def __init__(self, cont, front=False):
        self.cont, self.front = cont, front


def span(it, a, b):
    """cells of the range [a, b), or None"""
    if isinstance(a, Iter) and isinstance(b, Iter) and a.cont is b.cont and isinstance(a.i, int) and isinstance(b.i, int):
        return [iter_cell(it, Iter(a.cont, i, a.rev)) for i in range(a.i, b.i)]
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.vec is None and b.vec is None and a.cell is b.cell:
            return []
        if a.vec is not None and a.vec is b.vec and isinstance(a.i, int) and isinstance(b.i, int):
            return [it.vecat(a.vec, i) for i in range(a.i, b.i)]
    if a is NULL and b is NULL:
        return []
    return None


def step(d, k):
    if isinstance(d, Iter):
        return Iter(d.cont, d.i + k, d.rev)
    if isinstance(d, Ptr):
        return Ptr(None, d.vec, d.i + k) if d.vec is not None else (d if k == 0 else None)
    return d


def store(it, d, vals):
    """writes vals to the output range that starts at d; the iterator past them"""
    if isinstance(d, Inserter):
        for v in vals:
            if isinstance(d.cont, Vec):
                d.cont.c.insert(0 if d.front else len(d.cont.c), Cell(it.copy(v), d.cont.et))
            else:
                put(it, d.cont, v)
        return d
    for k, v in enumerate(vals):
        p = step(d, k)
        if isinstance(p, Iter):
            iter_cell(it, p).v = it.copy(v)
        elif isinstance(p, Ptr):
            it.deref(p).v = it.copy(v)
        else:
            raise Unmodelled('output range')
    return step(d, len(vals))


OPS = {'plus': '+', 'minus': '-', 'multiplies': '*', 'divides': '/', 'modulus': '%', 'equal_to': '==', 'not_equal_to': '!=', 'less': '<',
       'greater': '>', 'less_equal': '<=', 'greater_equal': '>=', 'bit_or': '|', 'bit_and': '&', 'bit_xor': '^'}


def apply(it, fn, cells):
    if isinstance(fn, Cell):
        fn = fn.v
    if isinstance(fn, Obj) and fn.cls == 'reference_wrapper':
        fn = fn.f['r'].v.cell.v
    if isinstance(fn, Term) and fn.op.startswith('ctor:std::'):
        fn = Obj(fn.op[5:])
    if isinstance(fn, Closure):
        r = it.call_closure(fn, list(cells))
    elif isinstance(fn, FuncRef):
        r = it.call(fn.fid, None, list(cells))
    elif isinstance(fn, Ptr) and fn.cell is not None and isinstance(fn.cell.v, (FuncRef, Closure)):
        return apply(it, fn.cell.v, cells)
    elif isinstance(fn, Obj) and tbase(fn.cls).startswith('std::') and tbase(fn.cls)[5:] in OPS and len(cells) == 2:
        op, (a, b) = OPS[tbase(fn.cls)[5:]], cells
        if op in ('<', '>'):
            return less(it, a, b) if op == '<' else less(it, b, a)
        if op in ('<=', '>='):
            return not less(it, b, a) if op == '<=' else not less(it, a, b)
        if op in ('==', '!='):
            return samekey(it, a.v, b.v) == (op == '==')
        return it.binop(op, a.v, b.v, a.t)
    elif isinstance(fn, Obj) and tbase(fn.cls) == 'std::logical_not':
        return not it.truth(cells[0].v)
    elif isinstance(fn, Obj) and fn.cls in it.fx.recs:
        c = [i for k in it.fx.mro(fn.cls) for i in it.fx.by_cls.get(k, ())
             if it.fx.funcs[i]['n'] == 'operator()' and len(it.fx.funcs[i]['p']) == len(cells) and i in it.fx.bodies]
        if len(c) != 1:
            raise Unmodelled('function object ' + fn.cls)
        r = it.call(c[0], Cell(fn, fn.cls), list(cells))
    else:
        raise Unmodelled('function object')
    return r.v if isinstance(r, Cell) else r


ALGS = {'fill', 'fill_n', 'copy', 'copy_n', 'copy_if', 'copy_backward', 'transform', 'for_each', 'any_of', 'all_of', 'none_of', 'find', 'find_if', 'find_if_not',
        'count', 'count_if', 'accumulate', 'equal', 'iota', 'distance', 'next', 'prev', 'back_inserter', 'front_inserter', 'inserter', 'swap_ranges', 'reverse',
        'max_element', 'min_element', 'minmax_element', 'lower_bound', 'upper_bound', 'binary_search', 'equal_range', 'replace', 'replace_if', 'remove', 'unique',
        'rotate', 'generate', 'generate_n', 'partition', 'stable_partition', 'partition_point', 'stable_sort', 'sort', 'lexicographical_compare', 'mismatch',
        'inner_product', 'adjacent_find', 'set_union', 'set_difference', 'set_intersection', 'set_symmetric_difference', 'includes', 'merge', 'search', 'remove_if',
        'nth_element', 'partial_sort', 'advance', 'move_backward', 'move', 'is_sorted', 'remove_copy_if', 'remove_copy', 'unique_copy', 'reverse_copy', 'find_first_of',
        'partial_sum', 'adjacent_difference', 'is_permutation', 'iter_swap', 'make_move_iterator', 'inplace_merge', 'max_element', 'for_each_n'}


def kept(cells, keep):
    """moves the values to keep to the front of the range"""
    vs = [c.v for c, k in zip(cells, keep) if k]
    for c, v in zip(cells, vs):
        c.v = v
    return len(vs)


def algorithm(it, f, args, n, e):
    """algorithms on ranges"""
    if n not in ALGS or not f['q'].startswith('std::') or n == 'move' and len(args) != 3:
        return NotImplemented
    a = [x.v for x in args]
    if n == 'make_move_iterator':
        return a[0]
    if n in ('back_inserter', 'front_inserter'):
        return Inserter(a[0], n[0] == 'f')
    if n == 'inserter' and (isinstance(a[0], AMap) or isinstance(a[1], Iter) and a[1].i == len(items(a[0]))):
        return Inserter(a[0])
    if n in ('next', 'prev'):
        k = a[1] if len(a) > 1 else 1
        r = step(a[0], k if n == 'next' else -k) if isinstance(k, int) else None
        if r is None:
            raise Unmodelled(n)
        return r
    if n == 'advance':
        r = step(a[0], a[1]) if isinstance(a[1], int) else None
        if r is None:
            raise Unmodelled(n)
        args[0].v = r
        return None
    if n == 'distance' and isinstance(a[0], (Iter, Ptr)):
        if isinstance(a[0], Iter) and isinstance(a[1], Iter) and a[0].cont is a[1].cont:
            return a[1].i - a[0].i
        if isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].vec is not None and a[0].vec is a[1].vec:
            return a[1].i - a[0].i
        raise Unmodelled(n)
    if n == 'iter_swap':
        x, y = [iter_cell(it, p) if isinstance(p, Iter) else it.deref(p) for p in a]
        x.v, y.v = y.v, x.v
        return None
    if n in ('fill_n', 'copy_n', 'generate_n') and len(a) == 3:
        if not isinstance(a[1], int):
            raise Unmodelled(n)
        if n == 'fill_n':
            return store(it, a[0], [a[2]] * a[1]) if a[1] > 0 else a[0]
        if n == 'generate_n':
            return store(it, a[0], [apply(it, a[2], []) for _ in range(a[1])])
        if a[1] <= 0:
            return a[2]
        c = span(it, a[0], step(a[0], a[1])) if a[1] > 1 or not (isinstance(a[0], Ptr) and a[0].vec is None) else [it.deref(a[0])]
        if c is None:
            raise Unmodelled(n)
        return store(it, a[2], [x.v for x in c])
    if n == 'rotate' and len(a) == 3:
        c, k = span(it, a[0], a[2]), span(it, a[0], a[1])
        if c is None or k is None:
            raise Unmodelled(n)
        vs = [x.v for x in c]
        for x, v in zip(c, vs[len(k):] + vs[:len(k)]):
            x.v = v
        return step(a[0], len(c) - len(k))
    c = span(it, a[0], a[1]) if len(a) > 1 else None
    if c is None:
        raise Unmodelled('range of ' + n)
    tail = a[2:]
    if n in ('partial_sort', 'nth_element', 'inplace_merge'):
        c = span(it, a[0], a[2])
        if c is None:
            raise Unmodelled(n)
        order(it, c, tail[1] if len(tail) > 1 else None)
        return None
    if n in ('sort', 'stable_sort'):
        order(it, c, tail[0] if tail else None)
        return None
    if n == 'is_sorted':
        return all(not less(it, y, x, tail[0] if tail else None) for x, y in zip(c, c[1:]))
    if n == 'fill' and len(a) == 3:
        for x in c:
            x.v = it.convert(it.copy(a[2]), x.t)
        return None
    if n == 'generate':
        for x in c:
            x.v = it.copy(apply(it, a[2], []))
        return None
    if n in ('copy', 'move') and len(a) == 3:
        return store(it, a[2], [x.v for x in c])
    if n == 'reverse_copy' and len(a) == 3:
        return store(it, a[2], [x.v for x in reversed(c)])
    if n in ('copy_backward', 'move_backward') and len(a) == 3:
        r = step(a[2], -len(c))
        store(it, r, [x.v for x in c])
        return r
    if n in ('copy_if', 'remove_copy_if') and len(a) == 4:
        return store(it, a[2], [x.v for x in c if it.truth(apply(it, a[3], [x])) == (n == 'copy_if')])
    if n == 'remove_copy' and len(a) == 4:
        return store(it, a[2], [x.v for x in c if not samekey(it, x.v, a[3])])
    if n == 'unique_copy' and len(a) == 3:
        return store(it, a[2], [x.v for i, x in enumerate(c) if i == 0 or not samekey(it, c[i - 1].v, x.v)])
    if n == 'transform' and len(a) == 4:
        return store(it, a[2], [apply(it, a[3], [x]) for x in c])
    if n == 'transform' and len(a) == 5:
        d = span(it, a[2], step(a[2], len(c)))
        if d is None:
            raise Unmodelled(n)
        return store(it, a[3], [apply(it, a[4], [x, y]) for x, y in zip(c, d)])
    if n == 'for_each' and len(a) == 3:
        for x in c:
            apply(it, a[2], [x])
        return a[2]
    if n in ('any_of', 'all_of', 'none_of') and len(a) == 3:
        for x in c:
            if it.truth(apply(it, a[2], [x])) != (n == 'all_of'):
                return n == 'any_of'
        return n != 'any_of'
    if n in ('find', 'find_if', 'find_if_not') and len(a) == 3:
        for k, x in enumerate(c):
            if samekey(it, x.v, a[2]) if n == 'find' else it.truth(apply(it, a[2], [x])) == (n == 'find_if'):
                return step(a[0], k)
        return a[1]
    if n == 'adjacent_find':
        for k, (x, y) in enumerate(zip(c, c[1:])):
            if samekey(it, x.v, y.v) if not tail else it.truth(apply(it, tail[0], [x, y])):
                return step(a[0], k)
        return a[1]
    if n in ('count', 'count_if') and len(a) == 3:
        return sum(1 for x in c if (samekey(it, x.v, a[2]) if n == 'count' else it.truth(apply(it, a[2], [x]))))
    if n == 'accumulate' and len(a) == 4:
        acc = a[2]
        for x in c:
            acc = apply(it, a[3], [Cell(acc), x])
        return acc
    if n == 'accumulate' and len(a) == 3:
        acc = a[2]
        for x in c:
            if isinstance(acc, AStr) and isinstance(x.v, AStr):
                acc = acc + x.v
            elif isinstance(acc, (int, float, Term)) and isinstance(x.v, (int, float, Term)):
                acc = it.binop('+', acc, x.v, it.fx.t(f['ret']))
            else:
                raise Unmodelled(n)
        return acc
    if n == 'inner_product' and len(a) in (4, 6):
        d = span(it, a[2], step(a[2], len(c)))
        if d is None:
            raise Unmodelled(n)
        acc = a[3]
        for x, y in zip(c, d):
            if len(a) == 6:
                acc = apply(it, a[4], [Cell(acc), Cell(apply(it, a[5], [x, y]))])
            elif all(isinstance(v, (int, float, Term)) for v in (acc, x.v, y.v)):
                acc = it.binop('+', acc, it.binop('*', x.v, y.v, x.t), it.fx.t(f['ret']))
            else:
                raise Unmodelled(n)
        return acc
    if n == 'partial_sum' and len(a) == 3 and all(isinstance(x.v, (int, float)) for x in c):
        out, acc = [], 0
        for x in c:
            acc = acc + x.v
            out.append(acc)
        return store(it, a[2], out)
    if n in ('equal', 'mismatch', 'lexicographical_compare', 'is_permutation', 'includes', 'search', 'set_union', 'set_difference', 'set_intersection',
             'set_symmetric_difference', 'merge', 'find_first_of', 'swap_ranges'):
        two = len(a) > 3 and isinstance(a[3], type(a[2])) and span(it, a[2], a[3]) is not None
        d = span(it, a[2], a[3]) if two else span(it, a[2], step(a[2], len(c)))
        if d is None:
            raise Unmodelled(n)
        fn = a[4 if two else 3:]
        if n == 'swap_ranges':
            for x, y in zip(c, d):
                x.v, y.v = y.v, x.v
            return step(a[2], len(c))
        if n in ('equal', 'mismatch', 'search', 'find_first_of', 'is_permutation'):
            def same(x, y):
                return it.truth(apply(it, fn[0], [x, y])) if fn else samekey(it, x.v, y.v)
            if n == 'equal':
                return len(c) == len(d) and all(same(x, y) for x, y in zip(c, d))
            if n == 'mismatch':
                k = next((k for k, (x, y) in enumerate(zip(c, d)) if not same(x, y)), min(len(c), len(d)))
                return pair(it, step(a[0], k), step(a[2], k), strip_t(it.fx.t(f['ret'])))
            if n == 'find_first_of':
                k = next((k for k, x in enumerate(c) if any(same(x, y) for y in d)), None)
                return a[1] if k is None else step(a[0], k)
            if n == 'search':
                for k in range(len(c) - len(d) + 1):
                    if all(same(x, y) for x, y in zip(c[k:], d)):
                        return step(a[0], k)
                return a[1]
            left = list(d)
            for x in c:
                k = next((k for k, y in enumerate(left) if same(x, y)), None)
                if k is None:
                    return False
                del left[k]
            return not left
        if n == 'lexicographical_compare':
            for x, y in zip(c, d):
                if less(it, x, y, fn[0] if fn else None):
                    return True
                if less(it, y, x, fn[0] if fn else None):
                    return False
            return len(c) < len(d)
        cmp = fn[0] if n == 'includes' and fn else fn[1] if len(fn) > 1 else None
        i = j = 0
        out = []
        missing = False
        while i < len(c) or j < len(d):
            if j == len(d) or i < len(c) and less(it, c[i], d[j], cmp):
                if n not in ('set_intersection', 'includes'):
                    out.append(c[i].v)
                i += 1
            elif i == len(c) or less(it, d[j], c[i], cmp):
                missing = True
                if n in ('set_union', 'merge', 'set_symmetric_difference'):
                    out.append(d[j].v)
                j += 1
            else:
                if n in ('set_union', 'merge', 'set_intersection'):
                    out.append(c[i].v)
                i += 1
                j += n != 'merge'
        return not missing if n == 'includes' else store(it, fn[0], out)
    if n == 'iota' and len(a) == 3 and isinstance(a[2], int):
        for k, x in enumerate(c):
            x.v = it.convert(a[2] + k, x.t)
        return None
    if n == 'reverse':
        for x, v in zip(c, [x.v for x in reversed(c)]):
            x.v = v
        return None
    if n in ('replace', 'replace_if') and len(a) == 4:
        for x in c:
            if samekey(it, x.v, a[2]) if n == 'replace' else it.truth(apply(it, a[2], [x])):
                x.v = it.copy(a[3])
        return None
    if n in ('remove', 'remove_if') and len(a) == 3:
        return step(a[0], kept(c, [not (samekey(it, x.v, a[2]) if n == 'remove' else it.truth(apply(it, a[2], [x]))) for x in c]))
    if n == 'unique':
        keep = []
        last = None
        for x in c:
            keep.append(last is None or not (it.truth(apply(it, tail[0], [last, x])) if tail else samekey(it, last.v, x.v)))
            last = x if keep[-1] else last
        return step(a[0], kept(c, keep))
    if n in ('partition', 'stable_partition') and len(a) == 3:
        ks = [it.truth(apply(it, a[2], [x])) for x in c]
        vs = [x.v for x, k in zip(c, ks) if k] + [x.v for x, k in zip(c, ks) if not k]
        for x, v in zip(c, vs):
            x.v = v
        return step(a[0], sum(ks))
    if n == 'partition_point':
        return step(a[0], next((k for k, x in enumerate(c) if not it.truth(apply(it, a[2], [x]))), len(c)))
    if n in ('max_element', 'min_element', 'minmax_element'):
        cmp = tail[0] if tail else None
        if not c:
            return a[1] if n != 'minmax_element' else pair(it, a[1], a[1], strip_t(it.fx.t(f['ret'])))

        def at(x):
            return step(a[0], next(k for k, y in enumerate(c) if y is x))
        if n == 'minmax_element':
            hi = c[0]
            for x in c:
                hi = x if not less(it, x, hi, cmp) else hi
            return pair(it, at(extreme(it, c, False, cmp)), at(hi), strip_t(it.fx.t(f['ret'])))
        return at(extreme(it, c, n == 'max_element', cmp))
    if n in ('lower_bound', 'upper_bound', 'binary_search', 'equal_range') and len(a) in (3, 4):
        cmp = a[3] if len(a) == 4 else None
        lo = next((k for k, x in enumerate(c) if not less(it, x, args[2], cmp)), len(c)) if n != 'upper_bound' else None
        if n == 'lower_bound':
            return step(a[0], lo)
        if n == 'binary_search':
            return lo < len(c) and not less(it, args[2], c[lo], cmp)
        hi = next((k for k, x in enumerate(c) if less(it, args[2], x, cmp)), len(c))
        if n == 'upper_bound':
            return step(a[0], hi)
        return pair(it, step(a[0], lo), step(a[0], hi), strip_t(it.fx.t(f['ret'])))
    raise Unmodelled(n)


def string_call(it, f, this, s, args, n, ret):
    def a_s(i):
        v = args[i].v
        if isinstance(v, AStr):
            return v
        if isinstance(v, int):
            return AStr((chr(v),))
        return AStr((v,))
    if n in ('operator=', 'assign') and len(args) == 1:
        this.v = a_s(0)
        return this
    if all(isinstance(a.v, int) or isinstance(a.v, AStr) and a.v.conc() for a in args) and s.conc() and args:
        x, a = s.s(), [y.v for y in args]
        r = None
        if n == 'insert' and isinstance(a[0], int) and len(a) in (2, 3):
            ins = a[1].s() if isinstance(a[1], AStr) else chr(a[2]) * a[1] if len(a) == 3 else None
            if ins is not None and a[0] <= len(x) and not (len(a) == 3 and isinstance(a[1], AStr)):
                r = x[:a[0]] + ins + x[a[0]:]
        elif n == 'replace' and len(a) == 3 and isinstance(a[0], int) and isinstance(a[1], int) and isinstance(a[2], AStr) and a[0] <= len(x):
            r = x[:a[0]] + a[2].s() + x[min(len(x), a[0] + a[1]):]
        elif n == 'erase' and isinstance(a[0], int) and a[0] <= len(x):
            r = x[:a[0]] + (x[min(len(x), a[0] + a[1]):] if len(a) > 1 else '')
        elif n == 'append' and len(a) == 2 and isinstance(a[0], int):
            r = x + chr(a[1]) * a[0]
        elif n == 'append' and len(a) == 2 and isinstance(a[0], AStr) and isinstance(a[1], int) and 'char *' in it.fx.t(f['p'][0]['t']):
            r = x + a[0].s()[:a[1]]
        elif n == 'append' and len(a) == 3 and isinstance(a[0], AStr) and isinstance(a[1], int):
            r = x + a[0].s()[a[1]:a[1] + a[2]]
        elif n == 'resize':
            r = x[:a[0]] + chr(a[1] if len(a) > 1 else 0) * max(0, a[0] - len(x))
        if r is not None:
            this.v = AStr((r,))
            return this if n != 'resize' else None
    if n == 'insert' and s.conc() and len(args) == 2 and isinstance(args[0].v, Iter) and isinstance(args[1].v, int):
        i = args[0].v.i
        this.v = AStr((s.s()[:i] + chr(args[1].v) + s.s()[i:],))
        return Iter(Vec([Cell(ord(ch), 'char') for ch in this.v.s()], 'char', 'std::string'), i)
    if any(isinstance(a.v, Iter) for a in args):
        raise Unmodelled('string.' + n)
    if n == 'pop_back' and s.conc() and s.s():
        this.v = AStr((s.s()[:-1],))
        return None
    if n in ('begin', 'cbegin', 'end', 'cend', 'rbegin', 'rend') and s.conc():
        v = Vec([Cell(ord(ch), 'char') for ch in s.s()], 'char', 'std::string')
        v = it.memo.setdefault(('chars', id(this), s.s()), v)
        return Iter(v, len(v.c) if 'end' in n and n[0] != 'r' or n == 'rend' else 0, n[0] == 'r')
    if n in ('operator+=', 'append', 'push_back') and len(args) == 1:
        this.v = s + a_s(0)
        return this
    if n in ('c_str', 'data', 'str'):
        return s
    if n in ('size', 'length'):
        return len(s.s()) if s.conc() else Term('strlen', s)
    if n == 'empty':
        if s.conc():
            return s.s() == ''
        if any(isinstance(p, str) and p for p in s.p):
            return False
        return Term('==', Term('strlen', s), 0)
    if n == 'clear':
        this.v = AStr()
        return None
    if n in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of') and s.conc() and args:
        x = a_s(0)
        if x.conc():
            st = args[1].v if len(args) > 1 else (0 if n[0] == 'f' else None)
            if n == 'find':
                r = s.s().find(x.s(), st if isinstance(st, int) else 0)
            elif n == 'rfind':
                r = s.s().rfind(x.s()) if not isinstance(st, int) else s.s().rfind(x.s(), 0, min(len(s.s()), st + len(x.s())))
            elif n == 'find_first_of':
                r = next((i for i, ch in enumerate(s.s()) if ch in x.s() and i >= (st or 0)), -1)
            elif n == 'find_last_of':
                r = max([i for i, ch in enumerate(s.s()) if ch in x.s()], default=-1)
            else:
                r = next((i for i, ch in enumerate(s.s()) if ch not in x.s() and i >= (st or 0)), -1)
            return r if r >= 0 else 2 ** 64 - 1
    if n == 'substr' and s.conc() and all(isinstance(a.v, int) for a in args):
        st = args[0].v if args else 0
        ln = args[1].v if len(args) > 1 else None
        return AStr((s.s()[st:] if ln is None or ln >= 2 ** 63 else s.s()[st:st + ln],))
    if n in ('operator[]', 'at', 'back', 'front') and s.conc():
        i = args[0].v if args else (0 if n == 'front' else len(s.s()) - 1)
        if isinstance(i, int) and i < len(s.s()):
            return Cell(ord(s.s()[i]), 'char')
    if n == 'compare' and s.conc() and len(args) == 1 and a_s(0).conc():
        b = a_s(0).s()
        return (s.s() > b) - (s.s() < b)
    if n in ('operator basic_string_view',):
        return s
    if n == 'reserve':
        return None
    t = Term('str.' + n, s, *[_key(a.v) for a in args])
    if ret == 'void' or is_ref(ret):
        this.v = AStr((t,))
        return this
    return it.lazyval(t, ret)


def stream_call(it, f, this, s, args, n, e):
    if n == 'operator<<':
        v = args[0].v
        if isinstance(v, FuncRef):
            nm = it.fx.funcs[v.fid]['n']
            if nm == 'endl':
                s.out.append('\n')
            else:
                s.state[nm] = True
            return this
        if isinstance(v, Term) and v.op.startswith('manip:'):
            s.state[v.op[9:] if v.op.startswith('manip:set') else v.op] = v.args[0]
            return this
        stream_put(it, s, args[0], it.fx.t(f['p'][0]['t']))
        return this
    if n == 'str':
        if args:
            s.out = list(args[0].v.p) if isinstance(args[0].v, AStr) else [args[0].v]
            return None
        return s.s()
    if n == 'precision':
        old = s.state.get('precision', 6)
        if args:
            s.state['precision'] = args[0].v
        return old
    if n in ('width', 'fill', 'flags', 'setf', 'unsetf', 'imbue', 'copyfmt'):
        old = s.state.get(n, Term('stream-' + n))
        if args:
            s.state[n] = args[0].v
        return old
    if n in ('flush', 'clear', 'close', 'open', 'swap'):
        return this
    if n in ('write', 'put'):
        s.out.append(args[0].v if not isinstance(args[0].v, AStr) else AStr(args[0].v.p).text())
        return this
    if n == 'rdbuf':
        return Term('rdbuf#%d' % id(s))
    if n in ('operator bool', 'good'):
        return True
    if n in ('fail', 'bad', 'operator!'):
        return False
    return NotImplemented


def vec_call(it, f, this, v, args, n, ret, e):
    if n in ('size', 'max_size', 'capacity'):
        return len(v.c)
    if n == 'empty':
        return len(v.c) == 0
    if n in ('push_back', 'emplace_back'):
        if n == 'emplace_back':
            if len(args) == 1:
                t1 = strip_t(v.et or '?')
                x = args[0].v
                if t1 in it.fx.recs and not t1.startswith('std::') and not (isinstance(x, Obj) and (x.cls == t1 or t1 in it.fx.mro(x.cls))) and \
                        not isinstance(x, (Term, AMap)) and x is not None:
                    val = emplace(it, v.et, args)
                elif tbase(t1) in ('std::unique_ptr', 'std::shared_ptr') and not (isinstance(x, Obj) and x.cls == 'unique_ptr'):
                    val = Obj('unique_ptr')
                    val.f['p'] = Cell(x)
                else:
                    val = it.copy(x)
                    if isinstance(x, Obj) and x.cls == 'unique_ptr' and tbase(t1) == 'std::unique_ptr':
                        x.f['p'].v = NULL
            elif len(args) == 0:
                val = it.default(v.et) if v.et else None
            else:
                val = emplace(it, v.et, args)
        else:
            val = it.copy(args[0].v)
            a = args[0].v
            if isinstance(a, Obj) and a.cls == 'unique_ptr' and 'unique_ptr' in (v.et or 'unique_ptr'):
                a.f['p'].v = NULL
        v.c.append(Cell(it.convert(val, v.et), v.et))
        return v.c[-1]
    if n in ('push_front', 'push'):
        c = Cell(it.copy(args[0].v), v.et)
        if n == 'push':
            v.c.append(c)
        else:
            v.c.insert(0, c)
        return None
    if n in ('operator[]', 'at'):
        i = args[0].v
        if n == 'at' and isinstance(i, int) and not 0 <= i < len(v.c):
            raise CppThrow(Term('out_of_range'), 'std::out_of_range', it.where(e))
        return it.vecat(v, i)
    if n == 'top' and v.kind == 'std::priority_queue':
        raise Unmodelled('priority queue')
    if n in ('back', 'top', 'front'):
        if not v.c:
            it.log.append(('oob', n, 0, it.where(e)))
            raise PathAbort(n + ' of empty container')
        return v.c[-1] if n != 'front' else v.c[0]
    if n in ('pop_back', 'pop', 'pop_front'):
        if not v.c:
            raise PathAbort('pop of empty container')
        v.c.pop(0 if n == 'pop_front' or v.kind == 'std::queue' else -1)
        return None
    if n == 'clear':
        v.c = []
        return None
    if n in ('resize', 'assign') and args and isinstance(args[0].v, int):
        k = args[0].v
        if n == 'assign':
            v.c = [Cell(it.copy(args[1].v), v.et) for _ in range(k)]
            return None
        if k > 5000:
            raise PathAbort('resize bound')
        del v.c[k:]
        while len(v.c) < k:
            if len(args) > 1:
                x = it.copy(args[1].v)
            elif v.kind == 'CppAD::vector':
                x = it.default(v.et)
            else:
                x = it.zero(v.et) if v.et else None
                x = construct_default(it, v.et, x)
            v.c.append(Cell(x, v.et))
        return None
    if n == 'assign' and len(args) == 2 and span(it, args[0].v, args[1].v) is not None:
        v.c = [Cell(it.copy(c.v), v.et) for c in span(it, args[0].v, args[1].v)]
        return None
    if n == 'assign' and len(args) == 1 and isinstance(args[0].v, Vec):
        v.c = [Cell(it.copy(c.v), v.et) for c in args[0].v.c]
        return None
    if n == 'sort' and v.kind in ('std::list', 'std::forward_list'):
        order(it, v.c, args[0].v if args else None)
        return None
    if n == 'reverse':
        v.c.reverse()
        return None
    if n == 'unique' and not args:
        v.c = [c for i, c in enumerate(v.c) if i == 0 or not samekey(it, v.c[i - 1].v, c.v)]
        return None
    if n == 'remove_if' and len(args) == 1:
        v.c = [c for c in v.c if not it.truth(apply(it, args[0].v, [c]))]
        return None
    if n == 'splice' and len(args) == 2 and isinstance(args[0].v, Iter) and isinstance(args[1].v, Vec):
        i, o = args[0].v.i, args[1].v
        v.c[i:i] = o.c
        o.c = []
        return None
    if n in ('reserve', 'shrink_to_fit'):
        return None
    if n in ('before_begin', 'cbefore_begin'):
        return Iter(v, -1)
    if n in ('emplace_after', 'insert_after') and len(args) >= 2 and isinstance(args[0].v, Iter):
        x = it.copy(args[1].v) if n == 'insert_after' else emplace(it, v.et, args[1:])
        v.c.insert(args[0].v.i + 1, Cell(x, v.et))
        return Iter(v, args[0].v.i + 1)
    if n == 'erase_after' and len(args) == 1:
        del v.c[args[0].v.i + 1]
        return Iter(v, args[0].v.i + 1)
    if n == 'emplace_front':
        v.c.insert(0, Cell(emplace(it, v.et, args), v.et))
        return v.c[0]
    if n in ('begin', 'cbegin'):
        return Iter(v, 0)
    if n in ('end', 'cend'):
        return Iter(v, len(v.c))
    if n in ('rbegin', 'crbegin'):
        return Iter(v, 0, True)
    if n in ('rend', 'crend'):
        return Iter(v, len(v.c), True)
    if n == 'data':
        return Ptr(None, v, 0)
    if n == 'fill':
        for c in v.c:
            c.v = it.copy(args[0].v)
        return None
    if n == 'swap':
        o = args[0].v
        v.c, o.c = o.c, v.c
        return None
    if n == 'operator=':
        a = args[0].v
        if isinstance(a, Vec):
            v.c = [Cell(it.copy(c.v), c.t) for c in a.c]
            return this
        this.v = a
        return this
    if n == 'insert' and isinstance(args[0].v, Iter):
        pos = args[0].v.i
        if len(args) == 3 and span(it, args[1].v, args[2].v) is not None:
            v.c[pos:pos] = [Cell(it.copy(c.v), v.et) for c in span(it, args[1].v, args[2].v)]
            return Iter(v, pos)
        if len(args) == 3 and isinstance(args[1].v, int):
            v.c[pos:pos] = [Cell(it.copy(args[2].v), v.et) for _ in range(args[1].v)]
            return Iter(v, pos)
        if len(args) == 2 and isinstance(args[1].v, Vec) and 'initializer_list' in it.fx.t(f['p'][1]['t']):
            v.c[pos:pos] = [Cell(it.copy(c.v), v.et) for c in args[1].v.c]
            return Iter(v, pos)
        if len(args) == 2:
            v.c.insert(pos, Cell(it.copy(args[1].v), v.et))
            return Iter(v, pos)
    if n == 'emplace' and args and isinstance(args[0].v, Iter):
        pos = args[0].v.i
        v.c.insert(pos, Cell(it.convert(make(it, v.et, args[1:]), v.et), v.et))
        return Iter(v, pos)
    if n == 'emplace' and v.kind in ('std::queue', 'std::stack'):
        v.c.append(Cell(it.convert(make(it, v.et, args), v.et), v.et))
        return None
    if n == 'erase' and isinstance(args[0].v, Iter):
        a = args[0].v.i
        b = args[1].v.i if len(args) > 1 else a + 1
        del v.c[a:b]
        return Iter(v, a)
    if n == 'remove':
        v.c = [c for c in v.c if not samekey(it, c.v, args[0].v)]
        return None
    it.unmodelled[f['q']] = it.unmodelled.get(f['q'], 0) + 1
    raise Unmodelled('vector.' + n)


def construct_default(it, et, x):
    """value-initialise an element of repo class type"""
    if not et:
        return x
    t = strip_t(et)
    if t in it.fx.recs and not t.startswith('std::'):
        o = Obj(t)
        c = Cell(o, t)
        for i in it.fx.by_cls.get(t, ()):
            f = it.fx.funcs[i]
            if f.get('kind') == 'ctor' and not f.get('copy') and not f.get('move') and i in it.fx.bodies and (f.get('dflt') or not f['p']):
                it.invoke(i, c, [])
                return o
        it.run_ctor({'f': next((i for i in it.fx.by_cls.get(t, ()) if it.fx.funcs[i].get('dflt')), None), 'a': []}, c) \
            if any(it.fx.funcs[i].get('dflt') for i in it.fx.by_cls.get(t, ())) else None
        return o
    return x


def emplace(it, et, args):
    t = strip_t(et or '?')
    if tbase(t) == 'std::pair' and len(args) == 2:
        return pair(it, it.copy(args[0].v), it.copy(args[1].v), t)
    if t not in it.fx.recs or t.startswith('std::'):
        return value(it, t, args)
    if len(args) == 1 and isinstance(args[0].v, Obj) and args[0].v.cls == t:
        return it.copy(args[0].v)
    cands = [i for i in it.fx.by_cls.get(t, ()) if it.fx.funcs[i].get('kind') == 'ctor' and i in it.fx.bodies and
             not it.fx.funcs[i].get('copy') and not it.fx.funcs[i].get('move')]
    exact = [i for i in cands if len(it.fx.funcs[i]['p']) == len(args)]
    cands = exact or [i for i in cands if len(it.fx.funcs[i]['p']) > len(args) and
                      all('def' in p for p in it.fx.bodies[i]['p'][len(args):])]
    if len(args) > 1 and len(cands) > 1:
        cands = [i for i in cands if all(a.t is None or strip_t(a.t) == strip_t(it.fx.t(p['t'])) for a, p in zip(args, it.fx.funcs[i]['p']))]
    if len(args) == 1 and len(cands) > 1:
        v = args[0].v
        want = 'basic_string' if isinstance(v, AStr) else strip_t(v.cls if isinstance(v, Obj) else args[0].t or '?')
        cands = [i for i in cands if want in it.fx.t(it.fx.funcs[i]['p'][0]['t'])]
    if len(cands) == 1:
        o = Obj(t)
        it.invoke(cands[0], Cell(o, t), args)
        return o
    raise Unmodelled('emplace of ' + t)


def map_call(it, f, this, m, args, n, ret, e):
    if n == 'size':
        return len(m.d)
    if n == 'empty':
        return len(m.d) == 0
    if n in ('begin', 'cbegin'):
        return Iter(m, 0)
    if n in ('end', 'cend'):
        return Iter(m, len(m.d))
    if n in ('rbegin', 'crbegin'):
        return Iter(m, 0, True)
    if n in ('rend', 'crend'):
        return Iter(m, len(m.d), True)
    if n in ('find', 'count'):
        i = map_find(it, m, args[0].v)
        if n == 'count':
            if i is not None and multi(m):
                return sum(1 for k, _ in m.d[i:] if samekey(it, k, m.d[i][0]))
            return 0 if i is None else 1
        return Iter(m, len(m.d) if i is None else i)
    if n in ('lower_bound', 'upper_bound', 'equal_range'):
        x = args[0].v
        if m.cmp is None and okey(x) is None and not by_order(it, m, x) and n != 'equal_range':
            raise Unmodelled(n)
        if n == 'equal_range' and (m.kind.startswith('std::unordered') or okey(x) is None and not by_order(it, m, x)):
            ks = [i for i, (k, _) in enumerate(m.d) if samekey(it, k, x)]
            lo, hi = (ks[0], ks[-1] + 1) if ks else (len(m.d), len(m.d))
        else:
            lo = next((i for i, (k, _) in enumerate(m.d) if not less(it, k, x, m.cmp)), len(m.d))
            hi = next((i for i, (k, _) in enumerate(m.d) if less(it, x, k, m.cmp)), len(m.d))
        if n == 'equal_range':
            return pair(it, Iter(m, lo), Iter(m, hi), strip_t(ret))
        return Iter(m, lo if n == 'lower_bound' else hi)
    if n in ('key_comp', 'value_comp', 'extract', 'merge'):
        raise Unmodelled('map.' + n)
    if n == 'operator[]':
        k = args[0].v
        i = map_find(it, m, k)
        if i is None:
            x = it.zero(m.vt) if m.vt else None
            x = construct_default(it, m.vt, x)
            i = map_insert(it, m, it.copy(k), Cell(x, m.vt))
        return m.d[i][1]
    if n == 'at':
        i = map_find(it, m, args[0].v)
        if i is None:
            raise CppThrow(Term('out_of_range'), 'std::out_of_range', it.where(e))
        return m.d[i][1]
    if n in ('insert', 'emplace', 'emplace_hint'):
        if n == 'insert' and len(args) == 2 and (isinstance(args[0].v, Ptr) or isinstance(args[0].v, Iter) and args[0].v.cont is not m) and \
                span(it, args[0].v, args[1].v) is not None:
            for c in span(it, args[0].v, args[1].v):
                put(it, m, c.v)
            return None
        if n == 'insert' and len(args) == 1 and isinstance(args[0].v, Vec) and 'initializer_list' in it.fx.t(f['p'][0]['t']):
            for c in args[0].v.c:
                put(it, m, c.v)
            return None
        if n == 'emplace_hint':
            args = args[1:]
        if n == 'insert' and len(args) == 2 and isinstance(args[0].v, Iter):
            args = args[1:]
            i, new = put(it, m, args[0].v)
            return Iter(m, i)
        if n != 'insert' and not m.isset and len(args) == 2:
            v = args[1].v
            if isinstance(v, Obj) and v.cls == 'unique_ptr':
                i = map_find(it, m, args[0].v)
                if i is None:
                    i = map_insert(it, m, it.copy(args[0].v), Cell(it.copy(v), m.vt))
                    if tbase(m.vt or '') == 'std::unique_ptr':
                        v.f['p'].v = NULL
                    new = True
                else:
                    new = False
            else:
                i, new = put(it, m, pair(it, args[0].v, v))
        elif n != 'insert' and m.isset:
            i, new = put(it, m, args[0].v if len(args) == 1 and not isinstance(m.kt, str) else make(it, m.kt, args))
        elif len(args) == 3 or not args:
            raise Unmodelled('map.' + n)
        else:
            i, new = put(it, m, args[0].v)
        if n == 'emplace_hint' or multi(m):
            return Iter(m, i)
        return pair(it, Iter(m, i), new)
    if n in ('try_emplace', 'insert_or_assign'):
        i = map_find(it, m, args[0].v)
        new = i is None
        if new:
            i = map_insert(it, m, it.copy(args[0].v), Cell(make(it, m.vt, args[1:]), m.vt))
        elif n == 'insert_or_assign':
            m.d[i][1].v = it.copy(args[1].v)
        return pair(it, Iter(m, i), new)
    if n == 'erase':
        a = args[0].v
        if isinstance(a, Iter):
            k = a.i
            b = args[1].v.i if len(args) > 1 else k + 1
            if not 0 <= k <= b <= len(m.d):
                raise PathAbort('iterator out of range')
            del m.d[k:b]
            return Iter(m, k)
        i = map_find(it, m, a)
        k = 0
        while i is not None:
            del m.d[i]
            k += 1
            i = map_find(it, m, a) if multi(m) else None
        return k
    if n == 'clear':
        m.d = []
        return None
    if n == 'operator=':
        a = args[0].v
        if isinstance(a, AMap):
            c = it.copy(a)
            m.d = c.d
            m.cmp = a.cmp
            return this
        if isinstance(a, Vec):
            m.d = []
            for c in a.c:
                put(it, m, c.v)
            return this
        this.v = a
        return this
    if n == 'swap':
        o = args[0].v
        m.d, o.d = o.d, m.d
        return None
    if n in ('reserve',):
        return None
    raise Unmodelled('map.' + n)


def multi(m):
    return m.kind.startswith('std::multi')


def put(it, m, v):
    if m.isset:
        i = map_find(it, m, v) if not multi(m) else None
        if i is None:
            return map_insert(it, m, it.copy(v), Cell(None)), True
        return i, False
    k, val = v.f['first'].v, v.f['second'].v
    i = map_find(it, m, k) if not multi(m) else None
    if i is None:
        return map_insert(it, m, it.copy(k), Cell(it.copy(val), m.vt)), True
    return i, False


def iter_call(it, f, this, tv, args, n):
    if this is None:
        a = args[0].v
        b = args[1].v if len(args) > 1 else None
        if n in ('operator==', 'operator!='):
            r = a == b
            return r if n == 'operator==' else not r
        if n == 'operator-' and isinstance(b, Iter):
            return a.i - b.i
        if n in ('operator<', 'operator>', 'operator<=', 'operator>=') and isinstance(b, Iter) and a.cont is b.cont:
            return it.binop(n[8:], a.i, b.i, 'bool')
        if n in ('next', 'prev') and isinstance(a, Iter):
            d = b if isinstance(b, int) else 1
            return Iter(a.cont, a.i + (d if n == 'next' else -d), a.rev)
        if not isinstance(a, Iter) or (n == 'distance' and not isinstance(b, Iter)):
            raise Unmodelled('iterator operation on %r' % (a,))
        if n == 'distance':
            return b.i - a.i
        if n == 'advance':
            args[0].v = Iter(a.cont, a.i + b, a.rev)
            return None
        return NotImplemented
    if n in ('operator==', 'operator!='):
        r = tv == args[0].v
        return r if n == 'operator==' else not r
    if n in ('operator<', 'operator>', 'operator<=', 'operator>=') and isinstance(args[0].v, Iter) and tv.cont is args[0].v.cont:
        return it.binop(n[8:], tv.i, args[0].v.i, 'bool')
    if n == 'operator*':
        return iter_cell(it, tv)
    if n == 'operator->':
        return Ptr(iter_cell(it, tv))
    if n in ('operator++', 'operator--'):
        d = 1 if n == 'operator++' else -1
        old = tv
        this.v = Iter(tv.cont, tv.i + d, tv.rev)
        return old if args else this
    if n in ('operator+', 'operator-') and args:
        d = args[0].v
        if isinstance(d, Iter):
            return tv.i - d.i
        return Iter(tv.cont, tv.i + (d if n == 'operator+' else -d), tv.rev)
    if n in ('operator+=', 'operator-='):
        d = args[0].v
        this.v = Iter(tv.cont, tv.i + (d if n == 'operator+=' else -d), tv.rev)
        return this
    if n == 'operator=':
        this.v = args[0].v
        return this
    if n == 'operator[]':
        return iter_cell(it, Iter(tv.cont, tv.i + args[0].v, tv.rev))
    if n == 'base' and tv.rev:
        return Iter(tv.cont, len(items(tv.cont)) - tv.i)
    return NotImplemented


def construct(it, t, f, e, args):
    """std / CppAD class construction"""
    b = tbase(t)
    cls = f.get('cls', '')
    if b == STRT or cls == STRT:
        if not args:
            return AStr()
        a = [it.rv(x) for x in args]
        if isinstance(a[0], AStr):
            if len(a) >= 2 and isinstance(a[1], int) and a[0].conc() and len(args) >= 2 and not strip_t(it.ty(args[1])).startswith('std::allocator'):
                return AStr((a[0].s()[:a[1]],))
            return a[0]
        if len(a) >= 2 and isinstance(a[0], int) and isinstance(a[1], int):
            return AStr((chr(a[1]) * a[0],))
        if isinstance(a[0], Iter):
            c = span(it, a[0], a[1])
            if c is None or not all(isinstance(x.v, int) for x in c):
                raise Unmodelled('string from iterators')
            return AStr((''.join(chr(x.v) for x in c),))
        if len(a) >= 3 and isinstance(a[0], AStr) and a[0].conc() and isinstance(a[1], int) and isinstance(a[2], int):
            return AStr((a[0].s()[a[1]:a[1] + a[2]],))
        if len(a) >= 2 and not isinstance(a[0], AStr) and isinstance(a[1], int) and strip_t(it.ty(args[1])) == 'char':
            return AStr((Term('repeat', _key(a[0]), chr(a[1])),))
        return AStr((_key(a[0]),))
    if b in VECS:
        v = it.default(t)
        a = [it.rv(x) for x in args]
        a = [x for x, y in zip(a, args) if not strip_t(it.ty(y)).startswith('std::allocator')]
        if b == 'std::array':
            return v
        if not a:
            return v
        if isinstance(a[0], Vec):
            v.c = [Cell(it.copy(c.v), v.et) for c in a[0].c]
            return v
        if isinstance(a[0], bool) or isinstance(a[0], int):
            if e.get('list') and b != 'CppAD::vector' and strip_t(v.et or '') in INTS:
                v.c = [Cell(x, v.et) for x in a]
                return v
            if a[0] > 5000:
                raise PathAbort('size bound')
            for _ in range(int(a[0])):
                if len(a) > 1:
                    x = it.copy(a[1])
                elif b == 'CppAD::vector':
                    x = construct_default(it, v.et, it.default(v.et))
                else:
                    x = construct_default(it, v.et, it.zero(v.et))
                v.c.append(Cell(x, v.et))
            return v
        c = span(it, a[0], a[1]) if len(a) >= 2 else None
        if c is not None:
            v.c = [Cell(it.copy(x.v), v.et) for x in c]
            return v
        raise Unmodelled('construct %s from %r' % (t, a))
    if b in MAPS or b in SETS:
        m = it.default(t)
        a = [it.rv(x) for x in args]
        for x, y in zip(a, args):
            if isinstance(x, (Closure, FuncRef)) or isinstance(x, Obj) and m.cmp is not None and x.cls == m.cmp.cls:
                m.cmp = x
        if a and isinstance(a[0], AMap):
            return it.copy(a[0])
        if a and isinstance(a[0], Vec):
            for c in a[0].c:
                put(it, m, c.v)
            return m
        c = span(it, a[0], a[1]) if len(a) > 1 else None
        if c is not None:
            for x in c:
                put(it, m, x.v)
        elif a and isinstance(a[0], (Iter, Ptr)):
            raise Unmodelled('construct ' + t)
        return m
    if b == 'std::tuple':
        a = [it.rv(x) for x in args]
        ts = targs(t)
        if len(a) == 1 and isinstance(a[0], Obj) and tupled(a[0]):
            a = [c.v for c in elements(a[0])]
        o = Obj(t)
        for i, et in enumerate(ts):
            o.f['e%d' % i] = Cell(it.convert(it.copy(a[i]), et) if i < len(a) else it.zero(et), et)
        return o
    if b in STREAMS:
        s = Stream()
        if args:
            v = it.rv(args[0])
            s.state['file'] = v
        return s
    if b == 'std::pair':
        o = it.default(t)
        if len(args) == 2:
            o.f['first'].v = it.convert(it.copy(it.rv(args[0])), o.f['first'].t)
            o.f['second'].v = it.convert(it.copy(it.rv(args[1])), o.f['second'].t)
        elif len(args) == 1:
            v = it.rv(args[0])
            if isinstance(v, Obj):
                r = it.copy(v)
                r.cls = t
                return r
            return v
        else:
            a = targs(t)
            o.f['first'].v = construct_default(it, a[0], it.zero(a[0]))
            o.f['second'].v = construct_default(it, a[1], it.zero(a[1]))
        return o
    if b in ('std::unique_ptr', 'std::shared_ptr'):
        o = Obj('unique_ptr')
        p = it.rv(args[0]) if args else NULL
        if isinstance(p, Obj) and p.cls == 'unique_ptr':
            q = p.f['p'].v
            if b == 'std::unique_ptr':
                p.f['p'].v = NULL
            p = q
        o.f['p'] = Cell(p)
        return o
    if b == 'std::function':
        v = it.rv(args[0]) if args else NULL
        return v
    if b.startswith('__gnu_cxx::') or 'iterator' in b or '_Rb_tree' in b:
        if args:
            return it.rv(args[0])
        return Term('iter?')
    if not args:
        return Obj(t) if t.startswith('std::') or True else None
    a = [it.rv(x) for x in args]
    return Term('ctor:' + (b or t), *[_key(x) for x in a], t=t)
