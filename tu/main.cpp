// Instantiation unit: makes the compiler resolve (instantiate) the library for Base = double/float so
// that the extractor sees every member function with resolved callees.  It is never executed.
#include <cppad/cg/cppadcg.hpp>
#include <cppad/cg/lang/dot/dot.hpp>
#include <cppad/cg/lang/latex/latex.hpp>
#include <cppad/cg/lang/mathml/mathml.hpp>
#include <cppad/cg/lang/mathml/mathml.hpp>
#include <cppad/cg/dae_index_reduction/pantelides.hpp>
#include <cppad/cg/dae_index_reduction/soares_secchi.hpp>
#include <cppad/cg/dae_index_reduction/dummy_deriv.hpp>

namespace CppAD {
namespace cg {
#define CGV_CORE(B)                                       \
    template class CG<B>;                                 \
    template class CodeHandler<B>;                        \
    template class Argument<B>;                           \
    template class OperationNode<B>;                      \
    template class OperationStack<B>;                     \
    template class IndexOperationNode<B>;                 \
    template class IndexAssignOperationNode<B>;           \
    template class LoopStartOperationNode<B>;             \
    template class LoopEndOperationNode<B>;               \
    template class PrintOperationNode<B>;                 \
    template class ScopePathElement<B>;                   \
    template class ArrayIdCompresser<B>;                  \
    template class BidirGraph<B>;                         \
    template class PathNodeEdges<B>;                      \
    template struct OperationPathNode<B>;                 \
    template class Evaluator<B, B, B>;                    \
    template class Evaluator<B, B, AD<B>>;                \
    template class Evaluator<B, B, CG<B>>;            \
    template class Evaluator<B, CG<B>, AD<CG<B>>>;        \
    template class VariableNameGenerator<B>;              \
    template class Language<B>;                           \
    template class LanguageC<B>;                          \
    template class LanguageDot<B>;                        \
    template class LanguageLatex<B>;                      \
    template class LanguageMathML<B>;                     \
    template class LangCDefaultVariableNameGenerator<B>;  \
    template class LangCDefaultHessianVarNameGenerator<B>; \
    template class LangCDefaultReverse2VarNameGenerator<B>; \
    template class LangCCustomVariableNameGenerator<B>;   \
    template class LangLatexDefaultVariableNameGenerator<B>; \
    template class LangLatexCustomVariableNameGenerator<B>; \
    template class LangMathMLDefaultVariableNameGenerator<B>; \
    template class LangMathMLCustomVariableNameGenerator<B>; \
    template class LangStreamStack<B>;                    \
    template class CGAbstractAtomicFun<B>;                \
    template class CGAtomicFun<B>;                        \
    template class CGAtomicFunBridge<B>;                  \
    template class BaseAbstractAtomicFun<B>;              \
    template class CGAtomicGenericModel<B>;               \
    template class GenericModel<B>;                       \
    template class ModelLibrary<B>;                       \
    template class ModelLibraryProcessor<B>;              \
    template class FunctorGenericModel<B>;                \
    template class FunctorModelLibrary<B>;                \
    template class ModelCSourceGen<B>;                    \
    template class ModelLibraryCSourceGen<B>;             \
    template class SaveFilesModelLibraryProcessor<B>;     \
    template class CCompiler<B>;                          \
    template class AbstractCCompiler<B>;                  \
    template class GccCompiler<B>;                        \
    template class ClangCompiler<B>;                      \
    template class DynamicLib<B>;                         \
    template class LinuxDynamicLib<B>;                    \
    template class LinuxDynamicLibModel<B>;               \
    template class DynamicModelLibraryProcessor<B>;       \
    template class AtomicExternalFunctionWrapper<B>;      \
    template class GenericModelExternalFunctionWrapper<B>; \
    template class EquationPattern<B>;                    \
    template class DependentPatternMatcher<B>;            \
    template class Loop<B>;                               \
    template class LoopFreeModel<B>;                      \
    template class LoopModel<B>;                          \
    template class CodeHandlerVectorSync<B>;              \
    template class CodeHandlerVector<B, size_t>;

CGV_CORE(double)
#ifdef CGV_FLOAT
CGV_CORE(float)
#endif

template class Enode<double>;
template class Vnode<double>;
template class BipartiteGraph<double>;
template class Pantelides<double>;
template class SoaresSecchi<double>;
template class DummyDerivatives<double>;
template class AugmentPathDepthLookahead<double>;
template class AugmentPathDepthLookaheadA<double>;
template class DaeStructuralIndexReduction<double>;
template class DaeIndexReduction<double>;
template class ArrayView<double>;
template class SmartVectorPointer<double>;

// ---- free function templates -------------------------------------------------------------------
template <class B>
void use(CG<B>& x, CG<B>& y, const B& b, std::ostream& os) {
    
    CG<B> r;
    r = x + y; r = x + b; r = b + x;
    r = x - y; r = x - b; r = b - x;
    r = x * y; r = x * b; r = b * x;
    r = x / y; r = x / b; r = b / x;
    r += y; r -= y; r *= y; r /= y;
    r += b; r -= b; r *= b; r /= b;
    r = -x; r = +x;
    bool t = x < y;
    t = x <= y;
    t = x > y;
    t = x >= y;
    t = x == y; t = operator==<B>(x, b); t = operator==<B>(b, x);
    t = x != y; t = operator!=<B>(b, x);
    (void) t;
    r = abs(x); r = fabs(x); r = acos(x); r = asin(x); r = atan(x); r = cos(x); r = cosh(x); r = exp(x);
    r = log(x); r = sin(x); r = sinh(x); r = sqrt(x); r = tan(x); r = tanh(x); r = erf(x); r = erfc(x);
    r = asinh(x); r = acosh(x); r = atanh(x); r = expm1(x); r = log1p(x); r = sign(x);
    r = log10(x);     r = CppAD::pow(x, y); r = CppAD::pow(x, b); r = CppAD::pow(b, x);
    r = CppAD::CondExpOp(CppAD::CompareLt, x, y, x, y);
    r = CppAD::azmul(x, y);
    t = isnan(x); t = CppAD::IdenticalZero(x); t = CppAD::IdenticalOne(x); t = CppAD::IdenticalCon(x); t = CppAD::IdenticalEqualCon(x, y);
    t = CppAD::GreaterThanZero(x); t = CppAD::GreaterThanOrZero(x); t = CppAD::LessThanZero(x); t = CppAD::LessThanOrZero(x);
    t = CppAD::abs_geq(x, y); int i = CppAD::Integer(x); (void) i;
    os << x;
    CG<B> p = CppAD::numeric_limits<CG<B>>::quiet_NaN(); (void) p;
    CG<B> e = CppAD::numeric_limits<CG<B>>::epsilon(); (void) e;
    e = CppAD::numeric_limits<CG<B>>::min(); e = CppAD::numeric_limits<CG<B>>::max();
}
template void use<double>(CG<double>&, CG<double>&, const double&, std::ostream&);
#ifdef CGV_FLOAT
template void use<float>(CG<float>&, CG<float>&, const float&, std::ostream&);
#endif


template <class E, class A>
void useEval(CodeHandler<double>& h, std::vector<A>& in, std::vector<A>& out, std::vector<CG<double>>& old) {
    E e(h);
    out = e.evaluate(in, old);
    e.evaluate(in, out, old);
    e.evaluate(in.data(), in.size(), out.data(), old.data(), old.size());
    (void) e.isUnderEvaluation();
}
template void useEval<Evaluator<double, double, double>, double>(CodeHandler<double>&, std::vector<double>&, std::vector<double>&,
                                                                 std::vector<CG<double>>&);
template void useEval<Evaluator<double, double, AD<double>>, AD<double>>(CodeHandler<double>&, std::vector<AD<double>>&,
                                                                         std::vector<AD<double>>&, std::vector<CG<double>>&);
template void useEval<Evaluator<double, double, CG<double>>, CG<double>>(CodeHandler<double>&, std::vector<CG<double>>&,
                                                                         std::vector<CG<double>>&, std::vector<CG<double>>&);
template void useEval<Evaluator<double, CG<double>, AD<CG<double>>>, AD<CG<double>>>(CodeHandler<double>&, std::vector<AD<CG<double>>>&,
                                                                                 std::vector<AD<CG<double>>>&,
                                                                                 std::vector<CG<double>>&);

inline void useModel(ModelCSourceGen<double>& g, std::vector<double>& x, std::vector<std::set<size_t>>& s) {
    g.setTypicalIndependentValues(x);
    g.setCustomSparseJacobianElements(s);
    g.setCustomSparseHessianElements(s);
}

template <class V>
void useForms(GenericModel<double>& m, const V& x, const V& t, const V& w, V& y, size_t i) {
    y = m.ForwardZero(x); m.ForwardZero(x, y);
    y = m.Jacobian(x); m.Jacobian(x, y);
    y = m.Hessian(x, w); m.Hessian(x, w, y); y = m.Hessian(x, i);
    y = m.ForwardOne(t);
    y = m.ReverseOne(x, t, w); m.ReverseOne(x, t, y, w);
    y = m.ReverseTwo(x, t, w); m.ReverseTwo(x, t, y, w);
    y = m.SparseJacobian(x); m.SparseJacobian(x, y);
    y = m.SparseHessian(x, w); m.SparseHessian(x, w, y);
}
template void useForms<std::vector<double>>(GenericModel<double>&, const std::vector<double>&, const std::vector<double>&, const std::vector<double>&,
                                            std::vector<double>&, size_t);
template void useForms<CppAD::vector<double>>(GenericModel<double>&, const CppAD::vector<double>&, const CppAD::vector<double>&,
                                              const CppAD::vector<double>&, CppAD::vector<double>&, size_t);

inline void useBridge(CGAtomicFunBridge<double>& b, std::vector<size_t>& r, std::vector<std::set<size_t>>& s) {
    b.setCustomSparseJacobianElements(r, r);
    b.setCustomSparseJacobianElements(s);
    b.setCustomSparseHessianElements(r, r);
    b.setCustomSparseHessianElements(s);
}

inline void use2(CodeHandler<double>& h, std::vector<CG<double>>& v, OperationNode<double>& n, OperationNode<double>& m,
                 std::ostream& os) {
    auto p = h.findPathGraph(n, m); (void) p;
    h.findPaths(n, m, 10);
    os << n;
    printExpression(n);
    printExpression(n, os);
}
} // namespace cg
} // namespace CppAD
