"""An abstract recording session: the handler is constructed by its own constructor and nodes by its own factory."""
from .absint import AStr, Cell, CppThrow, Interp, NULL, Obj, Ptr, Term, Vec
from .cgmodel import Model, NS, clsn
from .facts import AnalysisError


def ctor_of(fx, cls, pred=None):
    r = [i for i in fx.by_cls.get(cls, ()) if fx.funcs[i].get('kind') == 'ctor' and i in fx.bodies and
         not fx.funcs[i].get('copy') and not fx.funcs[i].get('move') and (pred is None or pred(fx.ptypes(i)))]
    if not r:
        raise AnalysisError('no constructor for ' + cls)
    return r[0]


def is_copy_move(fx, i, cls):
    p = fx.ptypes(i)
    return len(p) == 1 and p[0].replace('const ', '').rstrip('& ') == cls


def make(it, cls, args=(), pred=None):
    fx = it.fx
    o = Obj(cls)
    c = Cell(o, cls)
    cs = [i for i in fx.by_cls.get(cls, ()) if fx.funcs[i].get('kind') == 'ctor' and i in fx.bodies and not is_copy_move(fx, i, cls) and
          (pred(fx.ptypes(i)) if pred else len(fx.funcs[i]['p']) == len(args))]
    if not cs:
        raise AnalysisError('no constructor for %s (%d arguments)' % (cls, len(args)))
    it.invoke(cs[0], c, list(args))
    return c


def vec(cells, et, kind='std::vector'):
    return Vec(cells, et, kind)


class World:
    def __init__(self, it, base='double', model=None):
        self.it, self.fx, self.base = it, it.fx, base
        self.m = model or Model(it.fx, base)
        self.h = make(it, self.m.H, [Cell(50, 'unsigned long')], pred=lambda p: len(p) <= 1 and 'CodeHandler' not in ''.join(p))
        self.hp = Ptr(self.h)

    def hfn(self, n, pred=None, nparams=None):
        r = [i for i in self.fx.find(NS + 'CodeHandler::' + n, clsx=self.m.H, nparams=nparams) if pred is None or pred(self.fx.ptypes(i))]
        if not r:
            raise AnalysisError('anchor not found: CodeHandler::' + n)
        return r[0]

    def call(self, n, args, pred=None, nparams=None):
        r = self.it.call(self.hfn(n, pred, nparams), self.h, args)
        return r.v if isinstance(r, Cell) else r

    def indep(self, n, values=None):
        """n independent variables, as the session makes them"""
        cells = []
        for i in range(n):
            cells.append(Cell(self.m.cg(None, 0.0), self.m.CG))
        f = self.hfn('makeVariable', lambda p: len(p) == 1 and p[0].startswith(self.m.CG))
        for c in cells:
            self.it.call(f, self.h, [c])
        return cells

    def nodeof(self, cg):
        v = cg.v.f[self.m.cg_node].v
        if v is NULL:
            raise AnalysisError('not a recorded variable')
        return self.it.deref(v).v

    def node(self, op, args=(), info=()):
        """node made through the handler's factory; args: node Obj, float, or CG cells"""
        al = []
        for a in args:
            if isinstance(a, Cell):
                n = a.v.f[self.m.cg_node].v
                if n is NULL:
                    al.append(self.m.arg_par(self.it.deref(a.v.f[self.m.cg_val].v.f['p'].v).v))
                else:
                    al.append(self._an(n))
            elif isinstance(a, (int, float)) or isinstance(a, Term):
                al.append(self.m.arg_par(a))
            else:
                al.append(self._an(a))
        f = self.hfn('makeNode', lambda p: len(p) == 3 and 'CGOpCode' in p[0] and 'std::vector<unsigned long' in p[1] and 'std::vector<' in p[2])
        r = self.it.call(f, self.h, [Cell(self.m.ops[op], NS + 'CGOpCode'), Cell(vec([Cell(i, 'unsigned long') for i in info], 'unsigned long')),
                                     Cell(vec([Cell(a, self.m.ARG) for a in al], self.m.ARG))])
        v = r if not isinstance(r, Cell) else r
        if isinstance(v, Cell) and isinstance(v.v, Obj):
            return Ptr(v)
        return v.v if isinstance(v, Cell) else v

    def _an(self, p):
        a = self.m.arg_par(0.0)
        a.f[self.m.a_node] = Cell(p)
        a.f[self.m.a_par] = Cell(self.m.uptr())
        return a

    def cg(self, p):
        """a scalar referring to a node"""
        o = self.m.cg(None, None)
        o.f[self.m.cg_node] = Cell(p)
        return Cell(o, self.m.CG)

    def operand(self, cg):
        return cg.v.f[self.m.cg_node].v
