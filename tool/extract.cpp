// cgx: dumps the resolved, simplified bodies of all (instantiated) functions that live below the
// given source roots as JSON lines.  One record per function / class / enum.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include <fstream>
#include <map>
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static int64_t i64(const llvm::APSInt& v) { return v.isRepresentableByInt64() ? v.getExtValue() : (int64_t) (v.getBitWidth() > 64 ? v.trunc(64) : v).getZExtValue(); }
static llvm::cl::OptionCategory Cat("cgx");
static llvm::cl::list<std::string> Roots("root", llvm::cl::desc("source root"), llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> Out("o", llvm::cl::desc("output"), llvm::cl::cat(Cat));

namespace {
struct Dumper {
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    llvm::raw_ostream& OS;
    std::map<const Decl*, int> ids;
    std::map<const Decl*, int> funcIds;
    std::vector<const FunctionDecl*> funcList;
    std::map<std::string, int> typeIds;
    std::vector<std::string> types;
    std::set<const Decl*> doneRec;
    std::vector<const LambdaExpr*> lambdas;

    Dumper(ASTContext& c, llvm::raw_ostream& os) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()), OS(os) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.SuppressDefaultTemplateArgs = false;
        PP.AnonymousTagLocations = false;
    }

    std::string file(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        return SM.getFilename(L).str();
    }
    int line(SourceLocation L) { return (int) SM.getExpansionLineNumber(L); }

    bool inRoots(SourceLocation L) {
        if (L.isInvalid()) return false;
        std::string f = file(L);
        for (auto& r : Roots)
            if (f.compare(0, r.size(), r) == 0) return true;
        return false;
    }
    int id(const Decl* D) {
        D = D->getCanonicalDecl();
        auto it = ids.find(D);
        if (it != ids.end()) return it->second;
        int n = (int) ids.size() + 1;
        ids[D] = n;
        return n;
    }
    int func(const FunctionDecl* F) {
        const FunctionDecl* K = F->getCanonicalDecl();
        auto it = funcIds.find(K);
        if (it != funcIds.end()) return it->second;
        int n = (int) funcIds.size();
        funcIds[K] = n;
        funcList.push_back(K);
        return n;
    }
    int ty(QualType T) {
        if (T.isNull()) return -1;
        std::string s = T.getCanonicalType().getAsString(PP);
        auto it = typeIds.find(s);
        if (it != typeIds.end()) return it->second;
        int n = (int) types.size();
        types.push_back(s);
        typeIds[s] = n;
        return n;
    }
    // qualified name without template arguments
    std::string qn(const NamedDecl* D) {
        std::string s = D->getNameAsString();
        if (isa<CXXConstructorDecl>(D) || isa<CXXDestructorDecl>(D))
            if (auto* R = dyn_cast<CXXRecordDecl>(D->getDeclContext()))
                s = (isa<CXXDestructorDecl>(D) ? "~" : "") + R->getNameAsString();
        for (const DeclContext* X = D->getDeclContext(); X && !X->isTranslationUnit(); X = X->getParent()) {
            if (auto* N = dyn_cast<NamespaceDecl>(X)) {
                if (N->isInline() || N->isAnonymousNamespace()) continue;
                s = N->getNameAsString() + "::" + s;
            } else if (auto* E = dyn_cast<EnumDecl>(X)) {
                if (E->isScoped()) s = E->getNameAsString() + "::" + s;
            } else if (auto* R = dyn_cast<RecordDecl>(X)) s = R->getNameAsString() + "::" + s;
            else if (auto* F = dyn_cast<FunctionDecl>(X)) s = F->getNameAsString() + "()::" + s;
        }
        return s;
    }
    std::string diagName(const NamedDecl* D) {
        std::string s;
        llvm::raw_string_ostream o(s);
        D->getNameForDiagnostic(o, PP, true);
        return o.str();
    }

    Value var(const VarDecl* V) {
        Object o;
        o["id"] = id(V);
        o["n"] = V->getNameAsString();
        o["t"] = ty(V->getType());
        if (V->isStaticLocal()) o["static"] = true;
        return o;
    }

    const Expr* strip(const Expr* E) {
        for (;;) {
            if (!E) return E;
            if (auto* X = dyn_cast<ParenExpr>(E)) { E = X->getSubExpr(); continue; }
            if (auto* X = dyn_cast<ExprWithCleanups>(E)) { E = X->getSubExpr(); continue; }
            if (auto* X = dyn_cast<ConstantExpr>(E)) { E = X->getSubExpr(); continue; }
            if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
            if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
            if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); continue; }
            if (auto* X = dyn_cast<CXXDefaultArgExpr>(E)) { E = X->getExpr(); continue; }
            if (auto* X = dyn_cast<CXXDefaultInitExpr>(E)) { E = X->getExpr(); continue; }
            if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E)) { E = X->getSubExpr(); continue; }
            if (auto* X = dyn_cast<FullExpr>(E)) { E = X->getSubExpr(); continue; }
            if (auto* X = dyn_cast<OpaqueValueExpr>(E)) { if (X->getSourceExpr()) { E = X->getSourceExpr(); continue; } return E; }
            if (auto* X = dyn_cast<ImplicitCastExpr>(E)) {
                switch (X->getCastKind()) {
                    case CK_IntegralToFloating:
                    case CK_FloatingToIntegral:
                    case CK_FloatingCast:
                    case CK_IntegralCast:
                        return E; // kept as a (value changing) cast
                    default:
                        E = X->getSubExpr();
                        continue;
                }
            }
            return E;
        }
    }

    Object base(const char* k, const Stmt* S) {
        Object o;
        o["k"] = k;
        o["l"] = line(S->getBeginLoc());
        return o;
    }
    Object ebase(const char* k, const Expr* E) {
        Object o;
        o["k"] = k;
        SourceLocation L = E->getExprLoc();
        o["l"] = line(L.isValid() ? L : E->getBeginLoc());
        o["t"] = ty(E->getType());
        return o;
    }
    Array args(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
        Array a;
        for (const Expr* e : r) a.push_back(expr(e));
        return a;
    }

    Value expr(const Expr* E0) {
        const Expr* E = strip(E0);
        if (!E) return nullptr;
        if (auto* X = dyn_cast<ImplicitCastExpr>(E)) {
            // fold an integral cast of a literal / enum constant away
            Object o = ebase("cast", X);
            o["ck"] = X->getCastKindName();
            o["impl"] = true;
            o["e"] = expr(X->getSubExpr());
            return o;
        }
        if (auto* X = dyn_cast<IntegerLiteral>(E)) {
            Object o = ebase("int", X);
            llvm::SmallString<32> s;
            X->getValue().toString(s, 10, X->getType()->isSignedIntegerOrEnumerationType());
            if (X->getValue().getActiveBits() <= 62) o["v"] = (int64_t) X->getValue().getZExtValue();
            else o["v"] = s.str().str();
            return o;
        }
        if (auto* X = dyn_cast<FloatingLiteral>(E)) {
            Object o = ebase("flt", X);
            o["v"] = X->getValueAsApproximateDouble();
            return o;
        }
        if (auto* X = dyn_cast<CXXBoolLiteralExpr>(E)) {
            Object o = ebase("bool", X);
            o["v"] = X->getValue();
            return o;
        }
        if (auto* X = dyn_cast<CharacterLiteral>(E)) {
            Object o = ebase("chr", X);
            o["v"] = (int64_t) X->getValue();
            return o;
        }
        if (auto* X = dyn_cast<clang::StringLiteral>(E)) {
            Object o = ebase("str", X);
            std::string s = X->getBytes().str();
            if (!llvm::json::isUTF8(s)) s = llvm::json::fixUTF8(s);
            if (s.size() > 4000) s = s.substr(0, 4000);
            o["v"] = s;
            return o;
        }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return ebase("null", E);
        if (isa<CXXThisExpr>(E)) return ebase("this", E);
        if (auto* X = dyn_cast<DeclRefExpr>(E)) {
            const ValueDecl* D = X->getDecl();
            Object o = ebase("ref", X);
            o["n"] = D->getNameAsString();
            if (auto* F = dyn_cast<FunctionDecl>(D)) {
                o["dk"] = "func";
                o["f"] = func(F);
            } else if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
                o["dk"] = "enum";
                o["q"] = qn(EC);
                if (auto* ED = dyn_cast<EnumDecl>(EC->getDeclContext())) o["en"] = qn(ED);
                o["v"] = i64(EC->getInitVal());
            } else if (auto* P = dyn_cast<ParmVarDecl>(D)) {
                o["dk"] = "parm";
                o["d"] = id(P);
            } else if (auto* V = dyn_cast<VarDecl>(D)) {
                bool loc = V->isLocalVarDecl();
                o["dk"] = loc ? "local" : "global";
                o["d"] = id(V);
                if (!loc) {
                    o["q"] = qn(V);
                    if (V->getType().isConstQualified()) {
                        const VarDecl* DD = nullptr;
                        const Expr* I = V->getAnyInitializer(DD);
                        if (I && !I->isValueDependent()) {
                            Expr::EvalResult R;
                            if (V->getType()->isIntegralOrEnumerationType() && I->EvaluateAsInt(R, C))
                                o["v"] = i64(R.Val.getInt());
                            else if (auto* SL = dyn_cast<clang::StringLiteral>(strip(I)))
                                o["sv"] = SL->getBytes().str();
                            else if (auto* CE = dyn_cast<CXXConstructExpr>(strip(I))) {
                                if (CE->getNumArgs() > 0)
                                    if (auto* SL2 = dyn_cast<clang::StringLiteral>(strip(CE->getArg(0)))) o["sv"] = SL2->getBytes().str();
                            }
                        }
                    }
                }
            } else {
                o["dk"] = "other";
            }
            return o;
        }
        if (auto* X = dyn_cast<MemberExpr>(E)) {
            const ValueDecl* D = X->getMemberDecl();
            if (auto* F = dyn_cast<FunctionDecl>(D)) {
                Object o = ebase("memf", X);
                o["f"] = func(F);
                o["b"] = expr(X->getBase());
                return o;
            }
            if (auto* V = dyn_cast<VarDecl>(D)) { // static member
                Object o = ebase("ref", X);
                o["n"] = V->getNameAsString();
                o["dk"] = "global";
                o["d"] = id(V);
                o["q"] = qn(V);
                return o;
            }
            if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
                Object o = ebase("ref", X);
                o["n"] = EC->getNameAsString();
                o["dk"] = "enum";
                o["q"] = qn(EC);
                o["v"] = i64(EC->getInitVal());
                return o;
            }
            Object o = ebase("mem", X);
            o["f"] = qn(D);
            o["n"] = D->getNameAsString();
            if (X->isArrow()) o["arrow"] = true;
            o["b"] = expr(X->getBase());
            return o;
        }
        if (auto* X = dyn_cast<CXXMemberCallExpr>(E)) {
            Object o = ebase("call", X);
            const CXXMethodDecl* M = X->getMethodDecl();
            const Expr* cal = strip(X->getCallee());
            if (M) {
                o["f"] = func(M);
                if (auto* ME = dyn_cast<MemberExpr>(cal)) {
                    o["o"] = expr(ME->getBase());
                    if (ME->isArrow()) o["arrow"] = true;
                    if (M->isVirtual() && !ME->hasQualifier()) o["virt"] = true;
                }
            } else {
                o["fp"] = expr(cal);
            }
            o["a"] = args(X->arguments());
            return o;
        }
        if (auto* X = dyn_cast<CXXOperatorCallExpr>(E)) {
            Object o = ebase("call", X);
            const FunctionDecl* F = X->getDirectCallee();
            o["op"] = true;
            unsigned first = 0;
            if (F) {
                o["f"] = func(F);
                if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
                    if (!M->isStatic()) {
                        o["o"] = expr(X->getArg(0));
                        first = 1;
                        if (M->isVirtual()) o["virt"] = true;
                    }
                }
            } else o["fp"] = expr(X->getCallee());
            Array a;
            for (unsigned i = first; i < X->getNumArgs(); i++) a.push_back(expr(X->getArg(i)));
            o["a"] = std::move(a);
            return o;
        }
        if (auto* X = dyn_cast<CallExpr>(E)) {
            Object o = ebase("call", X);
            const FunctionDecl* F = X->getDirectCallee();
            if (F) o["f"] = func(F);
            else o["fp"] = expr(X->getCallee());
            o["a"] = args(X->arguments());
            return o;
        }
        if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
            // copy/move elision: same value
            const CXXConstructorDecl* K = X->getConstructor();
            Object o = ebase("ctor", X);
            o["f"] = func(K);
            if (K->isCopyConstructor()) o["copy"] = true;
            if (K->isMoveConstructor()) o["move"] = true;
            if (X->isListInitialization()) o["list"] = true;
            Array a;
            for (const Expr* e : X->arguments()) a.push_back(expr(e));
            o["a"] = std::move(a);
            return o;
        }
        if (auto* X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
            Object o = ebase("ctor", X);
            o["f"] = func(X->getConstructor());
            o["a"] = Array();
            return o;
        }
        if (auto* X = dyn_cast<CXXNewExpr>(E)) {
            Object o = ebase("new", X);
            o["at"] = ty(X->getAllocatedType());
            if (X->isArray()) {
                o["arr"] = true;
                if (X->getArraySize()) o["n"] = expr(*X->getArraySize());
            }
            if (X->hasInitializer()) o["init"] = expr(X->getInitializer());
            Array pa;
            for (unsigned i = 0; i < X->getNumPlacementArgs(); i++) pa.push_back(expr(X->getPlacementArg(i)));
            if (!pa.empty()) o["pl"] = std::move(pa);
            return o;
        }
        if (auto* X = dyn_cast<CXXDeleteExpr>(E)) {
            Object o = ebase("delete", X);
            o["e"] = expr(X->getArgument());
            if (X->isArrayForm()) o["arr"] = true;
            return o;
        }
        if (auto* X = dyn_cast<CXXThrowExpr>(E)) {
            Object o = ebase("throw", X);
            o["e"] = expr(X->getSubExpr());
            return o;
        }
        if (auto* X = dyn_cast<CompoundAssignOperator>(E)) {
            Object o = ebase("asg", X);
            o["op"] = BinaryOperator::getOpcodeStr(X->getOpcode()).str();
            o["a"] = expr(X->getLHS());
            o["b"] = expr(X->getRHS());
            return o;
        }
        if (auto* X = dyn_cast<BinaryOperator>(E)) {
            Object o = ebase(X->isAssignmentOp() ? "asg" : "bin", X);
            o["op"] = X->getOpcodeStr().str();
            o["a"] = expr(X->getLHS());
            o["b"] = expr(X->getRHS());
            return o;
        }
        if (auto* X = dyn_cast<UnaryOperator>(E)) {
            Object o = ebase("un", X);
            std::string s = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
            if (X->isPostfix()) s = "post" + s;
            o["op"] = s;
            o["e"] = expr(X->getSubExpr());
            return o;
        }
        if (auto* X = dyn_cast<AbstractConditionalOperator>(E)) {
            Object o = ebase("cond", X);
            o["c"] = expr(X->getCond());
            o["a"] = expr(X->getTrueExpr());
            o["b"] = expr(X->getFalseExpr());
            return o;
        }
        if (auto* X = dyn_cast<ArraySubscriptExpr>(E)) {
            Object o = ebase("idx", X);
            o["b"] = expr(X->getBase());
            o["i"] = expr(X->getIdx());
            return o;
        }
        if (auto* X = dyn_cast<ExplicitCastExpr>(E)) {
            Object o = ebase("cast", X);
            o["ck"] = X->getCastKindName();
            o["cs"] = X->getStmtClassName();
            o["e"] = expr(X->getSubExpr());
            return o;
        }
        if (auto* X = dyn_cast<InitListExpr>(E)) {
            Object o = ebase("ilist", X);
            Array a;
            for (const Expr* e : X->inits()) a.push_back(expr(e));
            o["a"] = std::move(a);
            return o;
        }
        if (auto* X = dyn_cast<LambdaExpr>(E)) {
            Object o = ebase("lambda", X);
            o["f"] = func(X->getCallOperator());
            Array caps;
            auto ci = X->capture_init_begin();
            for (auto& c : X->captures()) {
                const Expr* init = *ci++;
                if (c.capturesVariable()) {
                    Object co;
                    co["d"] = id(c.getCapturedVar());
                    co["n"] = c.getCapturedVar()->getNameAsString();
                    co["ref"] = c.getCaptureKind() == LCK_ByRef;
                    if (X->isInitCapture(&c)) {
                        auto* iv = cast<VarDecl>(c.getCapturedVar());
                        co["init"] = expr(iv->getInit() ? iv->getInit() : init);
                        co["t"] = ty(iv->getType());
                    }
                    caps.push_back(std::move(co));
                } else if (c.capturesThis()) {
                    Object co;
                    co["this"] = true;
                    caps.push_back(std::move(co));
                }
            }
            o["caps"] = std::move(caps);
            lambdas.push_back(X);
            return o;
        }
        if (auto* X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            Object o = ebase("sizeof", X);
            Expr::EvalResult R;
            if (!X->isValueDependent() && X->EvaluateAsInt(R, C)) o["v"] = i64(R.Val.getInt());
            return o;
        }
        if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return ebase("zero", E);
        if (auto* X = dyn_cast<CXXTypeidExpr>(E)) return ebase("typeid", X);
        if (auto* X = dyn_cast<CXXNoexceptExpr>(E)) {
            Object o = ebase("bool", X);
            o["v"] = X->getValue();
            return o;
        }
        if (auto* X = dyn_cast<TypeTraitExpr>(E)) {
            Object o = ebase("bool", X);
            o["v"] = X->getValue();
            return o;
        }
        if (auto* X = dyn_cast<StmtExpr>(E)) {
            Object o = ebase("stmtexpr", X);
            o["s"] = stmt(X->getSubStmt());
            return o;
        }
        if (auto* X = dyn_cast<PredefinedExpr>(E)) {
            Object o = ebase("str", X);
            o["v"] = "";
            return o;
        }
        Object o = ebase("unk", E);
        o["cls"] = E->getStmtClassName();
        Array a;
        for (const Stmt* s : E->children())
            if (auto* e = dyn_cast_or_null<Expr>(s)) a.push_back(expr(e));
        o["a"] = std::move(a);
        return o;
    }

    Value decl(const DeclStmt* D) {
        Object o = base("decl", D);
        Array a;
        for (const Decl* d : D->decls()) {
            if (auto* V = dyn_cast<VarDecl>(d)) {
                Object v;
                v["id"] = id(V);
                v["n"] = V->getNameAsString();
                v["t"] = ty(V->getType());
                v["l"] = line(V->getLocation());
                if (V->isStaticLocal()) v["static"] = true;
                if (V->hasInit()) v["init"] = expr(V->getInit());
                a.push_back(std::move(v));
            }
        }
        o["v"] = std::move(a);
        return o;
    }

    Value stmt(const Stmt* S) {
        if (!S) return nullptr;
        if (auto* X = dyn_cast<Expr>(S)) {
            Object o = base("expr", S);
            o["e"] = expr(X);
            return o;
        }
        if (auto* X = dyn_cast<CompoundStmt>(S)) {
            Object o = base("comp", S);
            Array a;
            for (const Stmt* s : X->body()) a.push_back(stmt(s));
            o["b"] = std::move(a);
            return o;
        }
        if (auto* X = dyn_cast<DeclStmt>(S)) return decl(X);
        if (auto* X = dyn_cast<IfStmt>(S)) {
            Object o = base("if", S);
            if (X->getInit()) o["i"] = stmt(X->getInit());
            if (X->getConditionVariableDeclStmt()) o["cv"] = stmt(X->getConditionVariableDeclStmt());
            o["c"] = expr(X->getCond());
            o["a"] = stmt(X->getThen());
            if (X->getElse()) o["b"] = stmt(X->getElse());
            return o;
        }
        if (auto* X = dyn_cast<WhileStmt>(S)) {
            Object o = base("while", S);
            if (X->getConditionVariableDeclStmt()) o["cv"] = stmt(X->getConditionVariableDeclStmt());
            o["c"] = expr(X->getCond());
            o["b"] = stmt(X->getBody());
            return o;
        }
        if (auto* X = dyn_cast<DoStmt>(S)) {
            Object o = base("do", S);
            o["c"] = expr(X->getCond());
            o["b"] = stmt(X->getBody());
            return o;
        }
        if (auto* X = dyn_cast<ForStmt>(S)) {
            Object o = base("for", S);
            if (X->getInit()) o["i"] = stmt(X->getInit());
            if (X->getCond()) o["c"] = expr(X->getCond());
            if (X->getInc()) o["s"] = expr(X->getInc());
            o["b"] = stmt(X->getBody());
            return o;
        }
        if (auto* X = dyn_cast<CXXForRangeStmt>(S)) {
            Object o = base("rfor", S);
            o["r"] = expr(X->getRangeInit());
            o["v"] = var(X->getLoopVariable());
            o["b"] = stmt(X->getBody());
            return o;
        }
        if (auto* X = dyn_cast<SwitchStmt>(S)) {
            Object o = base("switch", S);
            if (X->getInit()) o["i"] = stmt(X->getInit());
            if (X->getConditionVariableDeclStmt()) o["cv"] = stmt(X->getConditionVariableDeclStmt());
            o["c"] = expr(X->getCond());
            o["b"] = stmt(X->getBody());
            return o;
        }
        if (auto* X = dyn_cast<CaseStmt>(S)) {
            Object o = base("case", S);
            Expr::EvalResult R;
            if (X->getLHS()->EvaluateAsInt(R, C)) o["v"] = i64(R.Val.getInt());
            o["n"] = expr(X->getLHS());
            o["s"] = stmt(X->getSubStmt());
            return o;
        }
        if (auto* X = dyn_cast<DefaultStmt>(S)) {
            Object o = base("default", S);
            o["s"] = stmt(X->getSubStmt());
            return o;
        }
        if (auto* X = dyn_cast<ReturnStmt>(S)) {
            Object o = base("ret", S);
            if (X->getRetValue()) o["e"] = expr(X->getRetValue());
            return o;
        }
        if (isa<BreakStmt>(S)) return base("break", S);
        if (isa<ContinueStmt>(S)) return base("cont", S);
        if (isa<NullStmt>(S)) return base("nop", S);
        if (auto* X = dyn_cast<CXXTryStmt>(S)) {
            Object o = base("try", S);
            o["b"] = stmt(X->getTryBlock());
            Array h;
            for (unsigned i = 0; i < X->getNumHandlers(); i++) {
                const CXXCatchStmt* K = X->getHandler(i);
                Object ho = base("catch", K);
                if (K->getExceptionDecl()) ho["v"] = var(K->getExceptionDecl());
                if (!K->getCaughtType().isNull()) ho["ct"] = ty(K->getCaughtType());
                ho["b"] = stmt(K->getHandlerBlock());
                h.push_back(std::move(ho));
            }
            o["h"] = std::move(h);
            return o;
        }
        if (auto* X = dyn_cast<GotoStmt>(S)) {
            Object o = base("goto", S);
            o["n"] = X->getLabel()->getNameAsString();
            return o;
        }
        if (auto* X = dyn_cast<LabelStmt>(S)) {
            Object o = base("label", S);
            o["n"] = X->getDecl()->getNameAsString();
            o["s"] = stmt(X->getSubStmt());
            return o;
        }
        if (auto* X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
        Object o = base("unkstmt", S);
        o["cls"] = S->getStmtClassName();
        Array a;
        for (const Stmt* s : S->children())
            if (s) a.push_back(stmt(s));
        o["b"] = std::move(a);
        return o;
    }

    void header(Object& o, const FunctionDecl* F) {
        o["q"] = qn(F);
        o["n"] = F->getNameAsString();
        std::string full = diagName(F) + "(";
        Array ps;
        bool firstp = true;
        for (const ParmVarDecl* p : F->parameters()) {
            if (!firstp) full += ", ";
            firstp = false;
            full += p->getType().getCanonicalType().getAsString(PP);
            ps.push_back(var(p));
        }
        full += ")";
        o["ret"] = ty(F->getReturnType());
        if (F->isVariadic()) o["variadic"] = true;
        if (F->isNoReturn()) o["noreturn"] = true;
        if (F->isStatic() || F->getStorageClass() == SC_Static) o["static"] = true;
        if (auto* FT = F->getType()->getAs<FunctionProtoType>())
            if (!isUnresolvedExceptionSpec(FT->getExceptionSpecType()) && FT->isNothrow()) o["nothrow"] = true;
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = qn(M->getParent());
            o["clsx"] = C.getTypeDeclType(M->getParent()).getCanonicalType().getAsString(PP);
            if (M->isStatic()) o["static"] = true;
            if (M->isConst()) { o["const"] = true; full += " const"; }
            if (M->isVirtual()) o["virtual"] = true;
            if (M->isPureVirtual()) o["pure"] = true;
            if (isa<CXXConstructorDecl>(M)) {
                o["kind"] = "ctor";
                auto* K = cast<CXXConstructorDecl>(M);
                if (K->isCopyConstructor()) o["copy"] = true;
                if (K->isMoveConstructor()) o["move"] = true;
                if (K->isDefaultConstructor()) o["dflt"] = true;
            } else if (isa<CXXDestructorDecl>(M)) o["kind"] = "dtor";
            else if (isa<CXXConversionDecl>(M)) o["kind"] = "conv";
            if (M->isCopyAssignmentOperator()) o["copyasg"] = true;
            if (M->isMoveAssignmentOperator()) o["moveasg"] = true;
            const char* acc = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
            o["acc"] = acc;
            Array ov;
            for (const CXXMethodDecl* b : M->overridden_methods()) ov.push_back(func(b));
            if (!ov.empty()) o["over"] = std::move(ov);
        }
        if (F->isDeleted()) o["deleted"] = true;
        if (F->isDefaulted()) o["defaulted"] = true;
        if (F->isImplicit()) o["implicit"] = true;
        o["full"] = full;
        o["p"] = std::move(ps);
        SourceLocation L = F->getLocation();
        o["file"] = file(L);
        o["l"] = line(L);
        if (auto* Pt = F->getTemplateInstantiationPattern()) o["pat"] = id(Pt);
    }

    void dumpBody(const FunctionDecl* F) {
        const FunctionDecl* Def = nullptr;
        if (!F->hasBody(Def)) return;
        Object o;
        o["r"] = "body";
        o["id"] = func(F);
        o["file"] = file(Def->getLocation());
        o["l"] = line(Def->getLocation());
        o["e"] = line(Def->getEndLoc());
        Array ps;
        for (const ParmVarDecl* p : Def->parameters()) ps.push_back(var(p));
        o["p"] = std::move(ps);
        if (auto* K = dyn_cast<CXXConstructorDecl>(Def)) {
            Array in;
            for (const CXXCtorInitializer* I : K->inits()) {
                Object io;
                if (I->isMemberInitializer()) io["f"] = qn(I->getMember());
                else if (I->isBaseInitializer()) io["base"] = ty(QualType(I->getBaseClass(), 0));
                else if (I->isDelegatingInitializer()) io["deleg"] = true;
                io["e"] = expr(I->getInit());
                io["written"] = I->isWritten();
                io["l"] = line(I->getSourceLocation());
                in.push_back(std::move(io));
            }
            o["inits"] = std::move(in);
        }
        o["b"] = stmt(Def->getBody());
        OS << Value(std::move(o)) << "\n";
    }

    void dumpRecord(const CXXRecordDecl* R) {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext()) return;
        if (!doneRec.insert(R).second) return;
        Object o;
        o["r"] = "rec";
        o["q"] = qn(R);
        o["x"] = C.getTypeDeclType(R).getCanonicalType().getAsString(PP);
        o["file"] = file(R->getLocation());
        o["l"] = line(R->getLocation());
        if (R->isUnion()) o["union"] = true;
        Array bs, fs, ms;
        for (auto& b : R->bases()) {
            Object bo;
            bo["t"] = ty(b.getType());
            if (auto* BR = b.getType()->getAsCXXRecordDecl()) bo["q"] = qn(BR);
            bs.push_back(std::move(bo));
        }
        for (const FieldDecl* f : R->fields()) {
            Object fo;
            fo["n"] = f->getNameAsString();
            fo["q"] = qn(f);
            fo["t"] = ty(f->getType());
            fo["l"] = line(f->getLocation());
            fo["acc"] = f->getAccess() == AS_public ? "public" : f->getAccess() == AS_protected ? "protected" : "private";
            if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
            fs.push_back(std::move(fo));
        }
        for (const CXXMethodDecl* m : R->methods()) ms.push_back(func(m));
        o["bases"] = std::move(bs);
        o["fields"] = std::move(fs);
        o["methods"] = std::move(ms);
        OS << Value(std::move(o)) << "\n";
    }
    void dumpRecordC(const RecordDecl* R) {
        if (!R->isThisDeclarationADefinition()) return;
        if (!doneRec.insert(R).second) return;
        Object o;
        o["r"] = "rec";
        std::string nm = qn(R);
        if (nm.empty() || nm[0] == '(')
            if (auto* T = R->getTypedefNameForAnonDecl()) nm = T->getNameAsString();
        o["q"] = nm;
        o["x"] = nm;
        o["file"] = file(R->getLocation());
        o["l"] = line(R->getLocation());
        Array fs;
        for (const FieldDecl* f : R->fields()) {
            Object fo;
            fo["n"] = f->getNameAsString();
            fo["q"] = qn(f);
            fo["t"] = ty(f->getType());
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        o["bases"] = Array();
        o["methods"] = Array();
        OS << Value(std::move(o)) << "\n";
    }
    void dumpEnum(const EnumDecl* E) {
        if (!E->isThisDeclarationADefinition() || E->isDependentContext()) return;
        Object o;
        o["r"] = "enum";
        o["q"] = qn(E);
        o["file"] = file(E->getLocation());
        Array a;
        for (auto* c : E->enumerators()) {
            Object co;
            co["n"] = c->getNameAsString();
            co["v"] = i64(c->getInitVal());
            a.push_back(std::move(co));
        }
        o["c"] = std::move(a);
        OS << Value(std::move(o)) << "\n";
    }
    void dumpGlobal(const VarDecl* V) {
        Object o;
        o["r"] = "glob";
        o["id"] = id(V);
        o["q"] = qn(V);
        o["n"] = V->getNameAsString();
        o["t"] = ty(V->getType());
        o["file"] = file(V->getLocation());
        o["l"] = line(V->getLocation());
        if (V->getType().isConstQualified()) o["const"] = true;
        if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
        const VarDecl* ID = nullptr;
        const Expr* I = V->getAnyInitializer(ID); // also of a static member that is initialised out of its class
        if (I != nullptr && !I->isValueDependent()) o["init"] = expr(I);
        OS << Value(std::move(o)) << "\n";
    }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
    Dumper& D;
    std::set<const Decl*> seen;
    std::set<const Decl*> instPatterns;
    std::vector<const FunctionDecl*> patterns;
    explicit Visitor(Dumper& d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* F) {
        if (!F->doesThisDeclarationHaveABody()) return true;
        if (!D.inRoots(F->getLocation())) return true;
        if (F->isDependentContext()) {
            patterns.push_back(F);
            return true;
        }
        if (auto* P = F->getTemplateInstantiationPattern()) instPatterns.insert(P->getCanonicalDecl());
        if (seen.insert(F->getCanonicalDecl()).second) D.dumpBody(F);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R) {
        if (D.inRoots(R->getLocation())) D.dumpRecord(R);
        return true;
    }
    bool VisitRecordDecl(RecordDecl* R) {
        if (!isa<CXXRecordDecl>(R) && D.inRoots(R->getLocation())) D.dumpRecordC(R);
        return true;
    }
    bool VisitEnumDecl(EnumDecl* E) {
        if (D.inRoots(E->getLocation()) || E->getName() == "CompareOp") D.dumpEnum(E);
        return true;
    }
    bool VisitVarDecl(VarDecl* V) {
        if (D.inRoots(V->getLocation()) && !V->isLocalVarDeclOrParm() && !V->getDeclContext()->isDependentContext() &&
            !V->getType()->isDependentType())
            D.dumpGlobal(V);
        return true;
    }
};

struct Cons : ASTConsumer {
    void HandleTranslationUnit(ASTContext& C) override {
        if (C.getDiagnostics().hasErrorOccurred()) llvm::errs() << "cgx: errors in TU\n";
        std::error_code EC;
        llvm::raw_fd_ostream OS(Out, EC);
        Dumper D(C, OS);
        Visitor V(D);
        V.TraverseDecl(C.getTranslationUnitDecl());
        // function headers (the list may grow while printing because of overrides)
        for (size_t i = 0; i < D.funcList.size(); i++) {
            Object o;
            o["r"] = "func";
            o["id"] = (int64_t) i;
            D.header(o, D.funcList[i]);
            o["repo"] = D.inRoots(D.funcList[i]->getLocation());
            OS << Value(std::move(o)) << "\n";
        }
        for (auto* P : V.patterns)
            if (!V.instPatterns.count(P->getCanonicalDecl())) {
                Object o;
                o["r"] = "uninst";
                o["q"] = D.qn(P);
                o["file"] = D.file(P->getLocation());
                o["l"] = D.line(P->getLocation());
                OS << Value(std::move(o)) << "\n";
            }
        for (size_t i = 0; i < D.types.size(); i++) {
            Object o;
            o["r"] = "type";
            o["id"] = (int64_t) i;
            o["s"] = D.types[i];
            OS << Value(std::move(o)) << "\n";
        }
    }
};
struct Act : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override {
        return std::make_unique<Cons>();
    }
};
} // namespace

int main(int argc, const char** argv) {
    auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
    if (!P) {
        llvm::errs() << llvm::toString(P.takeError());
        return 2;
    }
    tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
    return T.run(tooling::newFrontendActionFactory<Act>().get());
}
