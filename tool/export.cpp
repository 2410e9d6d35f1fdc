// Program exporter: writes the type-checked program of one translation unit as compact JSON
// (function bodies with resolved callees, instantiated templates, implicit members, records, globals).
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::vector<std::string> Roots;
static std::string OutFile;

namespace {

class Exporter : public RecursiveASTVisitor<Exporter> {
public:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::unique_ptr<MangleContext> MC;
  std::map<const Decl *, std::string> Ids;
  std::map<const Decl *, int> VarIds;
  std::set<const Decl *> Done;
  Array Funcs, Records, Globals, Asserts;
  std::vector<const FunctionDecl *> Pending;
  unsigned Anon = 0;
  std::string TU;

  Exporter(ASTContext &C, std::string TU)
      : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()), MC(C.createMangleContext()), TU(TU) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressUnwrittenScope = false;
    PP.SuppressInlineNamespace = false;
    PP.Bool = true;
    PP.SuppressDefaultTemplateArgs = false;
  }

  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  bool inRoots(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return false;
    auto F = SM.getFilename(L);
    for (auto &R : Roots)
      if (F.starts_with(R)) return true;
    return false;
  }
  std::string loc(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    return (SM.getFilename(L) + ":" + llvm::Twine(SM.getExpansionLineNumber(L))).str();
  }
  int line(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return L.isInvalid() ? 0 : (int)SM.getExpansionLineNumber(L);
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string qn(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    return OS.str();
  }
  std::string fid(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    auto It = Ids.find(F);
    if (It != Ids.end()) return It->second;
    std::string S;
    bool isLambda = false;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) isLambda = M->getParent()->isLambda();
    bool local = F->getParentFunctionOrMethod() != nullptr;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) local = local || M->getParent()->isLocalClass();
    if (isLambda || local || F->isDependentContext()) {
      S = TU + "#" + std::to_string(++Anon);
    } else {
      llvm::raw_string_ostream OS(S);
      if (auto *K = dyn_cast<CXXConstructorDecl>(F))
        MC->mangleName(GlobalDecl(K, Ctor_Complete), OS);
      else if (auto *D = dyn_cast<CXXDestructorDecl>(F))
        MC->mangleName(GlobalDecl(D, Dtor_Complete), OS);
      else if (MC->shouldMangleDeclName(F))
        MC->mangleName(GlobalDecl(F), OS);
      else
        OS << F->getNameAsString();
      OS.flush();
      if (F->getFormalLinkage() == Linkage::Internal) S = TU + "#" + S;
    }
    return Ids[F] = S;
  }
  int vid(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = VarIds.find(D);
    if (It != VarIds.end()) return It->second;
    int N = VarIds.size() + 1;
    return VarIds[D] = N;
  }
  std::string rname(const RecordDecl *R) {
    return ty(C.getRecordType(R));
  }
  std::string rtmpl(const RecordDecl *R) { return qn(R); }
  bool noexc(const FunctionDecl *F) {
    auto *P = F->getType()->getAs<FunctionProtoType>();
    if (!P) return false;
    auto ES = P->getExceptionSpecType();
    if (ES == EST_Unevaluated || ES == EST_Uninstantiated) {
      // implicit destructors and the like: assume non-throwing for destructors only
      if (isa<CXXDestructorDecl>(F)) return true;
      return F->isTrivial();
    }
    if (isUnresolvedExceptionSpec(ES)) return false;
    return P->isNothrow();
  }
  Value apv(const APValue &V) {
    if (V.isInt()) {
      llvm::SmallString<32> S;
      V.getInt().toString(S, 10);
      int64_t R;
      if (!llvm::StringRef(S).getAsInteger(10, R)) return R;
      return std::string(S.str());
    }
    return nullptr;
  }

  Object node(const char *K) { Object O; O["k"] = K; return O; }

  Object callee(const FunctionDecl *F) {
    Object O;
    O["f"] = fid(F);
    O["n"] = qn(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["bn"] = rtmpl(M->getParent()) + "::" + (isa<CXXConstructorDecl>(F) ? std::string("{ctor}") : isa<CXXDestructorDecl>(F) ? std::string("{dtor}") : isa<CXXConversionDecl>(F) ? std::string("{conv}") : F->getNameAsString());
      O["cls"] = rname(M->getParent());
      O["clst"] = rtmpl(M->getParent());
      if (M->isStatic()) O["st"] = true;
      if (M->isConst()) O["cm"] = true;
      if (M->getRefQualifier() != RQ_None) O["rq"] = M->getRefQualifier() == RQ_LValue ? "&" : "&&";
      if (M->isVirtual()) O["vm"] = true;
      if (M->getParent()->isLambda()) O["lam"] = true;
      if (M->isDefaulted() && M->isTrivial()) O["triv"] = true;
    }
    if (noexc(F)) O["nx"] = true;
    if (F->isTemplateInstantiation() || F->getTemplateSpecializationArgs()) {
      if (auto *A = F->getTemplateSpecializationArgs()) {
        Array TA;
        for (auto &X : A->asArray()) targ(X, TA);
        if (A->size() && A->get(0).getKind() == TemplateArgument::Type) {
          Object L;
          layout(A->get(0).getAsType(), L);
          O["ta0"] = std::move(L);
        }
        O["ta"] = std::move(TA);
      }
    }
    O["rt"] = ty(F->getReturnType());
    Array PT;
    for (auto *P : F->parameters()) PT.push_back(ty(P->getType()));
    O["pt"] = std::move(PT);
    if (F->isVariadic()) O["va"] = true;
    return O;
  }
  void targ(const TemplateArgument &X, Array &TA) {
    if (X.getKind() == TemplateArgument::Pack) {
      for (auto &Y : X.getPackAsArray()) targ(Y, TA);
      return;
    }
    std::string S;
    llvm::raw_string_ostream OS(S);
    X.print(PP, OS, true);
    TA.push_back(OS.str());
  }

  Array exprs(llvm::ArrayRef<const Expr *> Es) {
    Array A;
    for (auto *X : Es) A.push_back(E(X));
    return A;
  }
  template <typename R> Array args(R &&Rg) {
    Array A;
    for (auto *X : Rg) A.push_back(E(X));
    return A;
  }

  void dtorOf(QualType T, Object &O) {
    if (auto *R = T->getBaseElementTypeUnsafe()->getAsCXXRecordDecl())
      if (R->hasDefinition() && !R->hasTrivialDestructor())
        if (auto *D = R->getDestructor()) {
          O["d"] = fid(D);
          O["dn"] = qn(D);
          need(D);
        }
  }

  Value E(const Expr *X) {
    if (!X) return nullptr;
    // constants first
    QualType T = X->getType();
    if (!X->isValueDependent() && !T.isNull() && X->isPRValue() &&
        T->isIntegralOrEnumerationType() && !X->isTypeDependent()) {
      Expr::EvalResult R;
      if (X->EvaluateAsRValue(R, C) && !R.HasSideEffects && R.Val.isInt()) {
        Object O = node("c");
        O["v"] = apv(R.Val);
        O["t"] = ty(T);
        auto *I = X->IgnoreParenImpCasts();
        if (auto *D = dyn_cast<DeclRefExpr>(I))
          O["en"] = qn(D->getDecl());
        return std::move(O);
      }
    }
    switch (X->getStmtClass()) {
    case Stmt::ParenExprClass: return E(cast<ParenExpr>(X)->getSubExpr());
    case Stmt::ConstantExprClass: return E(cast<ConstantExpr>(X)->getSubExpr());
    case Stmt::ExprWithCleanupsClass: {
      Object O = node("full");
      O["e"] = E(cast<ExprWithCleanups>(X)->getSubExpr());
      return std::move(O);
    }
    case Stmt::CXXBindTemporaryExprClass: {
      auto *B = cast<CXXBindTemporaryExpr>(X);
      Object O = node("bind");
      O["e"] = E(B->getSubExpr());
      O["t"] = ty(X->getType());
      dtorOf(X->getType(), O);
      return std::move(O);
    }
    case Stmt::MaterializeTemporaryExprClass: {
      auto *M = cast<MaterializeTemporaryExpr>(X);
      Object O = node("mat");
      O["e"] = E(M->getSubExpr());
      O["t"] = ty(X->getType());
      if (M->getStorageDuration() != SD_FullExpression) O["ext"] = true;
      return std::move(O);
    }
    case Stmt::SubstNonTypeTemplateParmExprClass:
      return E(cast<SubstNonTypeTemplateParmExpr>(X)->getReplacement());
    case Stmt::CXXDefaultArgExprClass: {
      Object O = node("darg");
      O["e"] = E(cast<CXXDefaultArgExpr>(X)->getExpr());
      return std::move(O);
    }
    case Stmt::CXXDefaultInitExprClass: return E(cast<CXXDefaultInitExpr>(X)->getExpr());
    case Stmt::CXXStdInitializerListExprClass: {
      Object O = node("stdil");
      O["e"] = E(cast<CXXStdInitializerListExpr>(X)->getSubExpr());
      O["t"] = ty(T);
      return std::move(O);
    }
    case Stmt::StringLiteralClass: {
      Object O = node("s");
      auto *S = cast<StringLiteral>(X);
      O["v"] = S->getCharByteWidth() == 1 ? json::fixUTF8(S->getString()) : std::string("?");
      return std::move(O);
    }
    case Stmt::PredefinedExprClass: {
      Object O = node("s");
      O["v"] = cast<PredefinedExpr>(X)->getIdentKind() == PredefinedIdentKind::PrettyFunction ? "__PRETTY_FUNCTION__" : "__func__";
      return std::move(O);
    }
    case Stmt::FloatingLiteralClass: {
      Object O = node("fl");
      O["v"] = cast<FloatingLiteral>(X)->getValueAsApproximateDouble();
      return std::move(O);
    }
    case Stmt::CXXNullPtrLiteralExprClass:
    case Stmt::GNUNullExprClass: return node("null");
    case Stmt::CXXThisExprClass: return node("this");
    case Stmt::CXXScalarValueInitExprClass:
    case Stmt::ImplicitValueInitExprClass: {
      Object O = node("zero");
      O["t"] = ty(T);
      return std::move(O);
    }
    case Stmt::DeclRefExprClass: {
      auto *D = cast<DeclRefExpr>(X)->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        Object O = callee(F);
        O["k"] = "fn";
        need(F);
        return std::move(O);
      }
      Object O = node("v");
      O["id"] = vid(D);
      O["n"] = qn(D);
      O["t"] = ty(D->getType());
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->isStaticLocal()) O["g"] = "sl";
        else if (V->hasGlobalStorage()) O["g"] = "g";
        else if (isa<ParmVarDecl>(V)) O["g"] = "p";
        else O["g"] = "l";
      } else if (isa<BindingDecl>(D)) {
        O["g"] = "b";
        O["be"] = E(cast<BindingDecl>(D)->getBinding());
      } else O["g"] = "o";
      return std::move(O);
    }
    case Stmt::MemberExprClass: {
      auto *M = cast<MemberExpr>(X);
      auto *D = M->getMemberDecl();
      if (auto *F = dyn_cast<FieldDecl>(D)) {
        Object O = node("m");
        O["b"] = E(M->getBase());
        if (M->isArrow()) O["ar"] = true;
        O["f"] = F->getNameAsString();
        O["c"] = rtmpl(F->getParent());
        O["t"] = ty(F->getType());
        if (F->isMutable()) O["mut"] = true;
        O["l"] = line(X->getExprLoc());
        return std::move(O);
      }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        Object O = node("v");
        O["id"] = vid(V);
        O["n"] = qn(V);
        O["t"] = ty(V->getType());
        O["g"] = "g";
        return std::move(O);
      }
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        Object O = callee(F);
        O["k"] = "fn";
        O["b"] = E(M->getBase());
        need(F);
        return std::move(O);
      }
      break;
    }
    case Stmt::ArraySubscriptExprClass: {
      auto *A = cast<ArraySubscriptExpr>(X);
      Object O = node("idx");
      O["b"] = E(A->getBase());
      O["i"] = E(A->getIdx());
      O["l"] = line(X->getExprLoc());
      return std::move(O);
    }
    case Stmt::UnaryOperatorClass: {
      auto *U = cast<UnaryOperator>(X);
      Object O = node("un");
      O["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      if (U->isPostfix()) O["post"] = true;
      O["e"] = E(U->getSubExpr());
      O["l"] = line(X->getExprLoc());
      return std::move(O);
    }
    case Stmt::CompoundAssignOperatorClass:
    case Stmt::BinaryOperatorClass: {
      auto *B = cast<BinaryOperator>(X);
      if (B->getOpcode() == BO_PtrMemD || B->getOpcode() == BO_PtrMemI) {
        Object O = node("pm");
        O["b"] = E(B->getLHS());
        O["pm"] = E(B->getRHS());
        if (B->getOpcode() == BO_PtrMemI) O["ar"] = true;
        O["t"] = ty(T);
        O["l"] = line(X->getExprLoc());
        return std::move(O);
      }
      Object O = node("bin");
      O["op"] = B->getOpcodeStr().str();
      O["a"] = E(B->getLHS());
      O["b"] = E(B->getRHS());
      O["t"] = ty(T);
      O["l"] = line(X->getExprLoc());
      return std::move(O);
    }
    case Stmt::ConditionalOperatorClass: {
      auto *Q = cast<ConditionalOperator>(X);
      Object O = node("cond");
      O["c"] = E(Q->getCond());
      O["a"] = E(Q->getTrueExpr());
      O["b"] = E(Q->getFalseExpr());
      O["t"] = ty(T);
      return std::move(O);
    }
    case Stmt::LambdaExprClass: {
      auto *L = cast<LambdaExpr>(X);
      Object O = node("lambda");
      auto *Op = L->getCallOperator();
      O["f"] = fid(Op);
      O["cls"] = rname(L->getLambdaClass());
      need(Op);
      if (auto *FT = Op->getDescribedFunctionTemplate()) {
        Array G;
        for (auto *Sp : FT->specializations()) {
          G.push_back(fid(Sp));
          need(Sp);
        }
        O["gf"] = std::move(G);
      }
      Array Caps;
      auto It = L->capture_init_begin();
      for (auto &Cp : L->captures()) {
        Object Q;
        if (Cp.capturesThis()) Q["this"] = Cp.getCaptureKind() == LCK_StarThis ? 2 : 1;
        else if (Cp.capturesVariable()) {
          Q["id"] = vid(Cp.getCapturedVar());
          Q["n"] = Cp.getCapturedVar()->getNameAsString();
          Q["t"] = ty(Cp.getCapturedVar()->getType());
          Q["ref"] = Cp.getCaptureKind() == LCK_ByRef;
          Q["e"] = E(*It);
        }
        Caps.push_back(std::move(Q));
        ++It;
      }
      O["caps"] = std::move(Caps);
      O["nx"] = noexc(Op);
      O["l"] = line(X->getExprLoc());
      return std::move(O);
    }
    case Stmt::InitListExprClass: {
      auto *I = cast<InitListExpr>(X);
      if (auto *S = I->getSemanticForm()) I = S;
      if (I->isTransparent()) return E(I->getInit(0));
      Object O = node("il");
      O["t"] = ty(T);
      O["e"] = exprs({(const Expr *const *)I->getInits(), I->getNumInits()});
      if (auto *R = T->getAsRecordDecl()) {
        Array Fs;
        if (auto *CR = dyn_cast<CXXRecordDecl>(R))
          for (auto &B : CR->bases()) Fs.push_back("base:" + ty(B.getType()));
        if (R->isUnion()) {
          if (auto *F = I->getInitializedFieldInUnion()) Fs.push_back(F->getNameAsString());
        } else
          for (auto *F : R->fields()) if (!F->isUnnamedBitfield()) Fs.push_back(F->getNameAsString());
        O["fs"] = std::move(Fs);
      }
      return std::move(O);
    }
    case Stmt::CXXTemporaryObjectExprClass:
    case Stmt::CXXConstructExprClass: {
      auto *K = cast<CXXConstructExpr>(X);
      Object O = callee(K->getConstructor());
      O["k"] = "ctor";
      O["args"] = args(K->arguments());
      if (K->isElidable()) O["el"] = true;
      if (K->isListInitialization()) O["li"] = true;
      if (K->isStdInitListInitialization()) O["sil"] = true;
      if (K->getConstructor()->isCopyConstructor()) O["cc"] = true;
      if (K->getConstructor()->isMoveConstructor()) O["mc"] = true;
      if (K->requiresZeroInitialization()) O["zi"] = true;
      O["t"] = ty(T);
      O["l"] = line(X->getExprLoc());
      need(K->getConstructor());
      return std::move(O);
    }
    case Stmt::CXXInheritedCtorInitExprClass: {
      auto *K = cast<CXXInheritedCtorInitExpr>(X);
      Object O = callee(K->getConstructor());
      O["k"] = "ictor";
      O["t"] = ty(T);
      return std::move(O);
    }
    case Stmt::CXXNewExprClass: {
      auto *N = cast<CXXNewExpr>(X);
      Object O = node("new");
      O["t"] = ty(N->getAllocatedType());
      if (N->isArray()) O["arr"] = true;
      if (N->getNumPlacementArgs()) {
        Array P;
        for (auto *A : N->placement_arguments()) P.push_back(E(A));
        O["pl"] = std::move(P);
      }
      if (auto *F = N->getOperatorNew()) O["nx"] = noexc(F);
      if (N->getInitializer()) O["init"] = E(N->getInitializer());
      O["l"] = line(X->getExprLoc());
      return std::move(O);
    }
    case Stmt::CXXDeleteExprClass: {
      auto *D = cast<CXXDeleteExpr>(X);
      Object O = node("del");
      O["e"] = E(D->getArgument());
      if (D->isArrayForm()) O["arr"] = true;
      O["t"] = ty(D->getDestroyedType());
      if (!D->getDestroyedType().isNull()) dtorOf(D->getDestroyedType(), O);
      O["l"] = line(X->getExprLoc());
      return std::move(O);
    }
    case Stmt::CXXThrowExprClass: {
      auto *Th = cast<CXXThrowExpr>(X);
      Object O = node("throw");
      if (Th->getSubExpr()) {
        O["e"] = E(Th->getSubExpr());
        O["t"] = ty(Th->getSubExpr()->getType());
      }
      O["l"] = line(X->getExprLoc());
      return std::move(O);
    }
    case Stmt::CXXPseudoDestructorExprClass: {
      Object O = node("pdtor");
      O["b"] = E(cast<CXXPseudoDestructorExpr>(X)->getBase());
      return std::move(O);
    }
    case Stmt::UserDefinedLiteralClass:
    case Stmt::CallExprClass: {
      auto *K = cast<CallExpr>(X);
      if (auto *F = K->getDirectCallee()) {
        // std::destroy_at(p) is p->~T() by definition.
        if (F->isInStdNamespace() && F->getDeclName().isIdentifier() && F->getName() == "destroy_at" && K->getNumArgs() == 1) {
          QualType P = K->getArg(0)->getType()->getPointeeType();
          if (!P.isNull() && !P->isArrayType() && !P->isDependentType()) {
            auto *R = P->getAsCXXRecordDecl();
            auto *D = R && R->hasDefinition() ? R->getDestructor() : nullptr;
            if (D) {
              Object O = callee(D);
              O["k"] = "call";
              O["obj"] = E(K->getArg(0));
              O["ar"] = true;
              O["ot"] = ty(K->getArg(0)->getType());
              O["args"] = Array();
              O["t"] = ty(K->getCallReturnType(C));
              O["l"] = line(X->getExprLoc());
              need(D);
              return std::move(O);
            }
            Object O = node("pdtor");
            O["b"] = E(K->getArg(0));
            return std::move(O);
          }
        }
        Object O = callee(F);
        O["k"] = "call";
        O["args"] = args(K->arguments());
        O["t"] = ty(K->getCallReturnType(C));
        O["l"] = line(X->getExprLoc());
        need(F);
        return std::move(O);
      }
      auto *Cal = K->getCallee()->IgnoreParens();
      if (isa<CXXPseudoDestructorExpr>(Cal)) return E(Cal);
      Object O = node("icall");
      O["fn"] = E(Cal);
      O["args"] = args(K->arguments());
      O["t"] = ty(K->getCallReturnType(C));
      if (auto *P = Cal->getType()->getPointeeType().isNull() ? nullptr : Cal->getType()->getPointeeType()->getAs<FunctionProtoType>())
        if (P->isNothrow()) O["nx"] = true;
      O["l"] = line(X->getExprLoc());
      return std::move(O);
    }
    case Stmt::CXXMemberCallExprClass: {
      auto *K = cast<CXXMemberCallExpr>(X);
      auto *Cal = K->getCallee()->IgnoreParens();
      if (auto *M = dyn_cast<MemberExpr>(Cal)) {
        auto *F = K->getMethodDecl();
        Object O = callee(F);
        O["k"] = "call";
        O["obj"] = E(M->getBase());
        if (M->isArrow()) O["ar"] = true;
        O["ot"] = ty(M->getBase()->getType());
        if (M->hasQualifier()) O["qual"] = true;
        O["args"] = args(K->arguments());
        O["t"] = ty(K->getCallReturnType(C));
        O["l"] = line(X->getExprLoc());
        need(F);
        return std::move(O);
      }
      // pointer to member function
      Object O = node("pmcall");
      O["fn"] = E(Cal);
      O["args"] = args(K->arguments());
      O["t"] = ty(K->getCallReturnType(C));
      O["l"] = line(X->getExprLoc());
      return std::move(O);
    }
    case Stmt::CXXOperatorCallExprClass: {
      auto *K = cast<CXXOperatorCallExpr>(X);
      auto *F = K->getDirectCallee();
      if (!F) break;
      Object O = callee(F);
      O["k"] = "call";
      O["oper"] = getOperatorSpelling(K->getOperator());
      Array A;
      unsigned i = 0;
      auto *M = dyn_cast<CXXMethodDecl>(F);
      bool mem = M && !M->isStatic();
      for (auto *Q : K->arguments()) {
        if (i++ == 0 && mem) { O["obj"] = E(Q); O["ot"] = ty(Q->getType()); continue; }
        A.push_back(E(Q));
      }
      O["args"] = std::move(A);
      O["t"] = ty(K->getCallReturnType(C));
      O["l"] = line(X->getExprLoc());
      need(F);
      return std::move(O);
    }
    case Stmt::CXXRewrittenBinaryOperatorClass:
      return E(cast<CXXRewrittenBinaryOperator>(X)->getSemanticForm());
    case Stmt::ImplicitCastExprClass:
    case Stmt::CStyleCastExprClass:
    case Stmt::CXXStaticCastExprClass:
    case Stmt::CXXConstCastExprClass:
    case Stmt::CXXReinterpretCastExprClass:
    case Stmt::CXXDynamicCastExprClass:
    case Stmt::CXXFunctionalCastExprClass: {
      auto *K = cast<CastExpr>(X);
      auto CK = K->getCastKind();
      bool Imp = isa<ImplicitCastExpr>(X);
      if (CK == CK_LValueToRValue) {
        Object O = node("ld");
        O["e"] = E(K->getSubExpr());
        O["l"] = line(X->getExprLoc());
        return std::move(O);
      }
      if (CK == CK_NullToPointer) return node("null");
      if (CK == CK_UserDefinedConversion || CK == CK_ConstructorConversion ||
          CK == CK_FunctionToPointerDecay || CK == CK_BuiltinFnToFnPtr)
        return E(K->getSubExpr());
      if (Imp && CK == CK_NoOp) {
        return E(K->getSubExpr());
      }
      Object O = node("cast");
      O["ck"] = K->getCastKindName();
      const char *W = Imp ? "i" : isa<CXXStaticCastExpr>(X) ? "static" : isa<CXXConstCastExpr>(X) ? "const"
          : isa<CXXReinterpretCastExpr>(X) ? "reinterpret" : isa<CXXDynamicCastExpr>(X) ? "dynamic"
          : isa<CXXFunctionalCastExpr>(X) ? "func" : "c";
      O["w"] = W;
      O["t"] = ty(T);
      if (X->isGLValue()) O["vc"] = X->isXValue() ? "x" : "l";
      O["ft"] = ty(K->getSubExpr()->getType());
      O["e"] = E(K->getSubExpr());
      O["l"] = line(X->getExprLoc());
      return std::move(O);
    }
    default: break;
    }
    Object O = node("opaque");
    O["s"] = X->getStmtClassName();
    O["t"] = ty(T);
    Array Ch;
    for (auto *S : X->children())
      if (auto *Y = dyn_cast_or_null<Expr>(S)) Ch.push_back(E(Y));
    O["e"] = std::move(Ch);
    O["l"] = line(X->getExprLoc());
    return std::move(O);
  }

  // Size and alignment of a complete object type.
  void layout(QualType T, Object &O, const VarDecl *V = nullptr) {
    if (T.isNull() || T->isDependentType() || T->isReferenceType() || T->isIncompleteType() || !T->isObjectType() || T->isUndeducedType()) return;
    if (auto *R = T->getBaseElementTypeUnsafe()->getAsRecordDecl())
      if (R->isInvalidDecl() || !R->isCompleteDefinition()) return;
    O["sz"] = (int64_t)C.getTypeSizeInChars(T).getQuantity();
    O["al"] = (int64_t)(V ? C.getDeclAlign(V) : C.getTypeAlignInChars(T)).getQuantity();
  }

  Object var(const VarDecl *V) {
    Object O;
    O["id"] = vid(V);
    O["n"] = V->getNameAsString();
    O["t"] = ty(V->getType());
    if (V->isStaticLocal()) O["sl"] = true;
    if (V->getInit()) O["init"] = E(V->getInit());
    if (V->getInitStyle() == VarDecl::CallInit) O["ci"] = true;
    dtorOf(V->getType(), O);
    if (V->getType().isConstQualified()) O["const"] = true;
    if (V->isLocalVarDecl()) layout(V->getType(), O, V);
    O["l"] = line(V->getLocation());
    if (auto *D = dyn_cast<DecompositionDecl>(V)) {
      Array B;
      for (auto *X : D->bindings()) {
        Object Q;
        Q["id"] = vid(X);
        Q["n"] = X->getNameAsString();
        auto *H = X->getHoldingVar();
        Q["e"] = E(H && H->getInit() ? H->getInit() : X->getBinding());
        B.push_back(std::move(Q));
      }
      O["bind"] = std::move(B);
    }
    return O;
  }

  Value S(const Stmt *X) {
    if (!X) return nullptr;
    if (auto *Q = dyn_cast<Expr>(X)) {
      Object O = node("expr");
      O["e"] = E(Q);
      O["l"] = line(Q->getExprLoc());
      return std::move(O);
    }
    switch (X->getStmtClass()) {
    case Stmt::CompoundStmtClass: {
      Object O = node("blk");
      Array A;
      for (auto *Y : cast<CompoundStmt>(X)->body()) A.push_back(S(Y));
      O["s"] = std::move(A);
      O["le"] = line(cast<CompoundStmt>(X)->getRBracLoc());
      return std::move(O);
    }
    case Stmt::DeclStmtClass: {
      Object O = node("decl");
      Array A;
      for (auto *D : cast<DeclStmt>(X)->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(var(V));
      O["v"] = std::move(A);
      return std::move(O);
    }
    case Stmt::IfStmtClass: {
      auto *I = cast<IfStmt>(X);
      Object O = node("if");
      if (I->getInit()) O["i"] = S(I->getInit());
      if (I->getConditionVariable()) O["cv"] = var(I->getConditionVariable());
      O["c"] = E(I->getCond());
      O["a"] = S(I->getThen());
      if (I->getElse()) O["b"] = S(I->getElse());
      if (I->isConstexpr()) O["cx"] = true;
      O["l"] = line(I->getIfLoc());
      return std::move(O);
    }
    case Stmt::WhileStmtClass: {
      auto *I = cast<WhileStmt>(X);
      Object O = node("while");
      if (I->getConditionVariable()) O["cv"] = var(I->getConditionVariable());
      O["c"] = E(I->getCond());
      O["a"] = S(I->getBody());
      O["l"] = line(I->getWhileLoc());
      return std::move(O);
    }
    case Stmt::DoStmtClass: {
      auto *I = cast<DoStmt>(X);
      Object O = node("do");
      O["c"] = E(I->getCond());
      O["a"] = S(I->getBody());
      return std::move(O);
    }
    case Stmt::ForStmtClass: {
      auto *I = cast<ForStmt>(X);
      Object O = node("for");
      if (I->getInit()) O["i"] = S(I->getInit());
      if (I->getConditionVariable()) O["cv"] = var(I->getConditionVariable());
      if (I->getCond()) O["c"] = E(I->getCond());
      if (I->getInc()) O["n"] = E(I->getInc());
      O["a"] = S(I->getBody());
      O["l"] = line(I->getForLoc());
      return std::move(O);
    }
    case Stmt::CXXForRangeStmtClass: {
      auto *I = cast<CXXForRangeStmt>(X);
      Object O = node("rfor");
      if (I->getInit()) O["i"] = S(I->getInit());
      O["r"] = E(I->getRangeInit());
      O["rt"] = ty(I->getRangeInit()->getType());
      O["v"] = var(I->getLoopVariable());
      O["a"] = S(I->getBody());
      O["l"] = line(I->getForLoc());
      return std::move(O);
    }
    case Stmt::ReturnStmtClass: {
      Object O = node("ret");
      if (auto *V = cast<ReturnStmt>(X)->getRetValue()) O["e"] = E(V);
      O["l"] = line(cast<ReturnStmt>(X)->getReturnLoc());
      return std::move(O);
    }
    case Stmt::BreakStmtClass: return node("break");
    case Stmt::ContinueStmtClass: return node("cont");
    case Stmt::NullStmtClass: return node("nop");
    case Stmt::SwitchStmtClass: {
      auto *I = cast<SwitchStmt>(X);
      Object O = node("switch");
      if (I->getInit()) O["i"] = S(I->getInit());
      if (I->getConditionVariable()) O["cv"] = var(I->getConditionVariable());
      O["c"] = E(I->getCond());
      O["a"] = S(I->getBody());
      return std::move(O);
    }
    case Stmt::CaseStmtClass: {
      auto *I = cast<CaseStmt>(X);
      Object O = node("case");
      O["c"] = E(I->getLHS());
      O["a"] = S(I->getSubStmt());
      return std::move(O);
    }
    case Stmt::DefaultStmtClass: {
      Object O = node("default");
      O["a"] = S(cast<DefaultStmt>(X)->getSubStmt());
      return std::move(O);
    }
    case Stmt::CXXTryStmtClass: {
      auto *I = cast<CXXTryStmt>(X);
      Object O = node("try");
      O["a"] = S(I->getTryBlock());
      Array H;
      for (unsigned i = 0; i < I->getNumHandlers(); ++i) {
        auto *K = I->getHandler(i);
        Object Q;
        if (K->getExceptionDecl()) Q["v"] = var(K->getExceptionDecl());
        Q["t"] = K->getCaughtType().isNull() ? std::string("...") : ty(K->getCaughtType());
        Q["a"] = S(K->getHandlerBlock());
        H.push_back(std::move(Q));
      }
      O["h"] = std::move(H);
      return std::move(O);
    }
    case Stmt::AttributedStmtClass: return S(cast<AttributedStmt>(X)->getSubStmt());
    case Stmt::LabelStmtClass: return S(cast<LabelStmt>(X)->getSubStmt());
    default: break;
    }
    Object O = node("ostmt");
    O["s"] = X->getStmtClassName();
    return std::move(O);
  }

  void need(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    if (F->hasBody(D) && D) enqueue(D);
    else if (F->isDefaulted()) enqueue(F);
  }
  void enqueue(const FunctionDecl *F) {
    if (F->isDependentContext()) return;
    if (!inRoots(F->getLocation())) return;
    if (!Done.insert(F->getCanonicalDecl()).second) return;
    Pending.push_back(F);
  }

  void emit(const FunctionDecl *F) {
    Object O = callee(F);
    O["loc"] = loc(F->getLocation());
    if (F->getBody()) O["lend"] = line(F->getBody()->getEndLoc());
    Array P;
    for (auto *V : F->parameters()) {
      Object Q;
      Q["id"] = vid(V);
      Q["n"] = V->getNameAsString();
      Q["t"] = ty(V->getType());
      dtorOf(V->getType(), Q);
      P.push_back(std::move(Q));
    }
    O["params"] = std::move(P);
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      O["ctor"] = true;
      if (K->isCopyConstructor()) O["cc"] = true;
      if (K->isMoveConstructor()) O["mc"] = true;
      Array I;
      for (auto *N : K->inits()) {
        Object Q;
        if (N->isDelegatingInitializer()) Q["del"] = true;
        else if (N->isBaseInitializer()) {
          Q["base"] = ty(QualType(N->getBaseClass(), 0));
        } else if (N->isAnyMemberInitializer()) {
          Q["field"] = N->getAnyMember()->getNameAsString();
          Q["ft"] = ty(N->getAnyMember()->getType());
          Q["c"] = rtmpl(N->getAnyMember()->getParent());
        }
        if (N->getInit()) Q["e"] = E(N->getInit());
        I.push_back(std::move(Q));
      }
      O["inits"] = std::move(I);
    }
    if (isa<CXXDestructorDecl>(F)) O["dtor"] = true;
    if (F->isDefaulted()) O["dflt"] = true;
    if (F->isDeleted()) O["deleted"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      Array Ov;
      for (auto *B : M->overridden_methods()) Ov.push_back(fid(B));
      if (!Ov.empty()) O["ov"] = std::move(Ov);
      O["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      if (M->getParent()->isLambda()) O["lambda"] = true;
    }
    if (F->isImplicit()) O["impl"] = true;
    O["link"] = F->getFormalLinkage() == Linkage::Internal ? "int" : "ext";
    if (auto *B = F->getBody()) O["body"] = S(B);
    Funcs.push_back(std::move(O));
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isThisDeclarationADefinition() && (F->hasBody() || F->isDefaulted())) enqueue(F);
    return true;
  }
  bool VisitLambdaExpr(LambdaExpr *L) { enqueue(L->getCallOperator()); return true; }

  std::set<const Decl *> RDone;
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    if (!inRoots(R->getLocation())) return true;
    if (!RDone.insert(R).second) return true;
    Object O;
    O["n"] = rname(R);
    O["qn"] = rtmpl(R);
    O["loc"] = loc(R->getLocation());
    if (R->isUnion()) O["union"] = true;
    if (R->isEffectivelyFinal()) O["final"] = true;
    if (R->isAbstract()) O["abstract"] = true;
    Array B;
    for (auto &X : R->bases()) {
      Object Q;
      Q["t"] = ty(X.getType());
      Q["acc"] = X.getAccessSpecifier() == AS_public ? "public" : X.getAccessSpecifier() == AS_protected ? "protected" : "private";
      if (X.isVirtual()) Q["virt"] = true;
      B.push_back(std::move(Q));
    }
    O["bases"] = std::move(B);
    Array Fs;
    for (auto *F : R->fields()) {
      Object Q;
      Q["n"] = F->getNameAsString();
      Q["t"] = ty(F->getType());
      if (F->isMutable()) Q["mut"] = true;
      if (F->getType().isConstQualified()) Q["const"] = true;
      Q["acc"] = F->getAccess() == AS_public ? "public" : F->getAccess() == AS_protected ? "protected" : "private";
      if (F->hasInClassInitializer() && F->getInClassInitializer()) Q["init"] = E(F->getInClassInitializer());
      Q["l"] = line(F->getLocation());
      Fs.push_back(std::move(Q));
    }
    O["fields"] = std::move(Fs);
    Array Ms;
    for (auto *M : R->methods()) {
      Object Q;
      Q["f"] = fid(M);
      Q["n"] = qn(M);
      Q["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      if (M->isVirtual()) Q["virt"] = true;
      if (M->isDeleted()) Q["deleted"] = true;
      if (M->isPureVirtual()) Q["pure"] = true;
      if (M->isConst()) Q["const"] = true;
      if (M->isImplicit()) Q["impl"] = true;
      if (noexc(M)) Q["nx"] = true;
      Array Ov;
      for (auto *Bm : M->overridden_methods()) Ov.push_back(fid(Bm));
      if (!Ov.empty()) Q["ov"] = std::move(Ov);
      Ms.push_back(std::move(Q));
    }
    O["methods"] = std::move(Ms);
    if (auto *CT = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
      Array TA;
      for (auto &X : CT->getTemplateArgs().asArray()) targ(X, TA);
      O["ta"] = std::move(TA);
    }
    auto &L = C.getASTRecordLayout(R);
    O["size"] = (int64_t)L.getSize().getQuantity();
    O["align"] = (int64_t)L.getAlignment().getQuantity();
    Records.push_back(std::move(O));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || isa<ParmVarDecl>(V)) return true;
    if (V->getDeclContext()->isDependentContext() || V->getType()->isDependentType()) return true;
    if (!inRoots(V->getLocation())) return true;
    if (V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly && !V->isInline()) return true;
    if (isa<VarTemplateSpecializationDecl>(V) && V->getInit() && V->getInit()->isValueDependent()) return true;
    Object O = var(V);
    O["qn"] = qn(V);
    O["loc"] = loc(V->getLocation());
    if (V->isStaticLocal()) {
      if (auto *F = dyn_cast<FunctionDecl>(V->getDeclContext())) O["fn"] = fid(F);
    }
    if (V->getInit() && !V->getInit()->isValueDependent()) {
      if (auto *A = V->evaluateValue())
        if (A->isInt()) O["cval"] = apv(*A);
    }
    if (auto *VS = dyn_cast<VarTemplateSpecializationDecl>(V)) {
      Array TA;
      for (auto &X : VS->getTemplateArgs().asArray()) targ(X, TA);
      O["ta"] = std::move(TA);
    }
    if (V->isStaticDataMember())
      if (auto *R = dyn_cast<CXXRecordDecl>(V->getDeclContext())) O["cls"] = rname(R);
    Globals.push_back(std::move(O));
    return true;
  }

  void run() {
    TraverseDecl(C.getTranslationUnitDecl());
    while (!Pending.empty()) {
      auto *F = Pending.back();
      Pending.pop_back();
      emit(F);
    }
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    Object O;
    O["tu"] = TU;
    O["funcs"] = std::move(Funcs);
    O["records"] = std::move(Records);
    O["globals"] = std::move(Globals);
    OS << Value(std::move(O));
  }
};

class Consumer : public ASTConsumer {
  std::string TU;
public:
  Consumer(std::string TU) : TU(TU) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Exporter(C, TU).run();
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef F) override {
    auto P = F.rfind('/');
    return std::make_unique<Consumer>((P == StringRef::npos ? F : F.substr(P + 1)).str());
  }
};
} // namespace

int main(int argc, const char **argv) {
  // export OUT ROOT[:ROOT...] SOURCE -- FLAGS
  if (argc < 5) return 2;
  OutFile = argv[1];
  llvm::StringRef R(argv[2]);
  llvm::SmallVector<llvm::StringRef, 4> Rs;
  R.split(Rs, ':');
  for (auto X : Rs) Roots.push_back(X.str());
  std::string Src = argv[3];
  std::vector<std::string> Flags;
  for (int i = 5; i < argc; ++i) Flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {Src});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
