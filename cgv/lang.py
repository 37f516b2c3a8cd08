"""Drives the source generation languages over abstract operation nodes."""
from .absint import AStr, Cell, Interp, NULL, Obj, Ptr, Stream, Term, Vec, strip_t
from .cexpr import numtext
from .cgmodel import Model, clsn
from .facts import AnalysisError

UN = ['Abs', 'Acos', 'Asin', 'Atan', 'Cosh', 'Cos', 'Exp', 'Log', 'Sinh', 'Sin', 'Sqrt', 'Tanh', 'Tan', 'Erf', 'Erfc', 'Asinh', 'Acosh', 'Atanh',
      'Expm1', 'Log1p']
BIN = ['Add', 'Sub', 'Mul', 'Div', 'Pow']
COM = ['ComLt', 'ComLe', 'ComEq', 'ComGe', 'ComGt', 'ComNe']


class LangDriver:
    def __init__(self, fx, lang, base='double'):
        self.fx = fx
        self.m = Model(fx, base)
        self.base = base
        self.cls = clsn(lang, base)
        self.lang = lang
        if self.cls not in fx.recs:
            raise AnalysisError('class not found: ' + self.cls)
        self.ids = {}
        self.dep = set()
        self.info_extra = {}

    def q(self, n):
        return 'CppAD::cg::%s::%s' % (self.lang, n)

    def fid(self, n, nparams=None, pred=None):
        r = [i for i in self.fx.find(self.q(n), clsx=self.cls, nparams=nparams) if pred is None or pred(self.fx.ptypes(i))]
        if not r:
            raise AnalysisError('anchor not found: ' + self.q(n))
        return r[0]

    def var_id(self, node):
        return self.ids.get(id(node), 0)

    def hooks(self):
        def vid(it, f, this, args, line):
            n = args[0].v
            return self.var_id(n)

        def chv(it, f, this, args, line):
            if isinstance(this.v, Obj) and this.v.tag == 'varId':
                return self.var_id(args[0].v)
            return NotImplemented

        def cvn(it, f, this, args, line):
            n = args[0].v
            return AStr(('#' + (n.tag or 'noname') + '#',))

        def absfn(it, f, this, args, line):
            return NotImplemented
        h = {self.q('getVariableID'): vid, 'CppAD::cg::CodeHandlerVector::operator[]': chv, self.q('createVariableName'): cvn}
        return h

    def make(self, it):
        """a language object as its constructor leaves it, with generation data attached"""
        o = Obj(self.cls)
        cell = Cell(o, self.cls)
        ctors = [i for i in self.fx.by_cls[self.cls] if self.fx.funcs[i].get('kind') == 'ctor' and i in self.fx.bodies and
                 not self.fx.funcs[i].get('copy') and not self.fx.funcs[i].get('move')]
        if not ctors:
            raise AnalysisError('no constructor for ' + self.cls)
        c = ctors[0]
        args = []
        for t in self.fx.ptypes(c):
            args.append(Cell(AStr((self.base,)) if 'basic_string' in t else 4, t))
        it.invoke(c, cell, args)
        info = Obj(clsn('LanguageGenerationData', self.base))
        info.f['CppAD::cg::LanguageGenerationData::varId'] = Cell(Obj(clsn('CodeHandlerVector', self.base), tag='varId'))
        for k, v in self.info_extra.items():
            info.f['CppAD::cg::LanguageGenerationData::' + k] = Cell(v)
        ic = Cell(info, info.cls)
        fq = self.q('_info')
        ft = it.field_type(o, fq) or ''
        if ft.startswith('std::unique_ptr'):
            up = self.m.uptr(Ptr(ic))
            o.f[fq] = Cell(up, ft)
        else:
            o.f[fq] = Cell(Ptr(ic), ft)
        self.set(o, '_independentSize', 100)
        self.set(o, '_minTemporaryVarID', 200)
        return cell

    def set(self, o, n, v):
        names = {f['n'] for c in self.fx.mro(o.cls) for f in self.fx.recs[c]['fields'] if c in self.fx.recs}
        if n in names:
            o.f[self.q(n)] = Cell(v)

    def leaf(self, name, i=500):
        n = self.m.node('Inv', tag=name)
        self.ids[id(n)] = i
        self.keep = getattr(self, 'keep', [])
        self.keep.append(n)
        return n

    def inner(self, op, args, name=None, vid=0, info=()):
        n = self.m.node(op, args, info)
        if name:
            n.tag = name
        self.ids[id(n)] = vid
        self.keep = getattr(self, 'keep', [])
        self.keep.append(n)
        return n


def text_of(s, holes=None):
    """text of an emitted abstract string; numbers in place, opaque pieces as identifiers"""
    out = ''
    for p in s.p:
        if isinstance(p, str):
            out += p
        else:
            t = numtext(p)
            if t is None:
                n = '_hole%d' % len(holes) if holes is not None else repr(p)
                if holes is not None:
                    holes[n] = p
                t = n
            out += t
    return out
