// dpx - fact exporter of the /verif static analysis.
// Parses one translation unit with clang and writes, as JSON, the resolved, template-instantiated
// definition of every function, lambda, record, enum and global variable that is located under one
// of the given roots.  Callees, members and types are resolved by clang; trivially value-preserving
// nodes (parentheses, lvalue-to-rvalue, materialisation, elidable copies) are removed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
using namespace clang::tooling;
namespace json = llvm::json;

// value of an enumerator (values beyond int64 become doubles: they are never indices)
static json::Value enumVal(const llvm::APSInt &v) {
  if (v.isRepresentableByInt64()) return json::Value((int64_t)v.getExtValue());
  return json::Value((uint64_t)v.getZExtValue());
}

static llvm::cl::OptionCategory Cat("dpx");
static llvm::cl::list<std::string> Roots("root", llvm::cl::desc("path prefix whose definitions are exported"), llvm::cl::cat(Cat));
static llvm::cl::list<std::string> Excl("exclude", llvm::cl::desc("path substring not exported"), llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> Out("o", llvm::cl::desc("output file"), llvm::cl::cat(Cat));

namespace {
class Dumper : public RecursiveASTVisitor<Dumper> {
public:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  json::Array Functions, Records, Enums, Globals;
  std::set<std::string> SeenF, SeenR, SeenE, SeenG;
  std::map<const Decl *, int> Ids;
  explicit Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.Bool = true;
    PP.AnonymousTagLocations = false;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    return P.isValid() ? std::string(P.getFilename()) : std::string();
  }
  unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool wanted(SourceLocation L) {
    std::string f = file(L);
    for (auto &e : Excl) if (f.find(e) != std::string::npos) return false;
    for (auto &r : Roots) if (f.rfind(r, 0) == 0) return true;
    return false;
  }
  std::string usr(const Decl *D) {
    llvm::SmallString<128> B;
    if (index::generateUSRForDecl(D, B)) return "";
    return std::string(B);
  }
  std::string fid(const FunctionDecl *F) {
    // pattern-independent identity: usr plus printed signature (usr alone is ambiguous for some specialisations)
    std::string s; llvm::raw_string_ostream o(s);
    F->getNameForDiagnostic(o, PP, true);
    o << "|" << F->getType().getCanonicalType().getAsString(PP);
    // two translation units may define different functions of the same name with internal linkage
    if (!isa<CXXMethodDecl>(F) && (F->getFormalLinkage() == Linkage::Internal || F->isInAnonymousNamespace())) o << "|@" << file(F->getCanonicalDecl()->getLocation());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) {
      o << "|L" << file(M->getLocation()) << ":" << line(M->getLocation()) << ":" << SM.getExpansionColumnNumber(M->getLocation());
      for (const DeclContext *DC = M->getParent()->getDeclContext(); DC; DC = DC->getParent())
        if (auto *EF = dyn_cast<FunctionDecl>(DC)) { o << " in " << fid(EF); break; }
    }
    return o.str();
  }
  std::string qn(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream o(s);
    D->getNameForDiagnostic(o, PP, true);
    return o.str();
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    return T.getNonReferenceType().getCanonicalType().getUnqualifiedType().getAsString(PP);
  }
  json::Object tyinfo(QualType T0) {
    json::Object o;
    QualType T = T0;
    if (T->isLValueReferenceType()) o["ref"] = 1;
    if (T->isRValueReferenceType()) o["ref"] = 2;
    T = T.getNonReferenceType().getCanonicalType();
    if (T.isConstQualified()) o["const"] = true;
    T = T.getUnqualifiedType();
    o["t"] = T.getAsString(PP);
    if (T->isDependentType()) { o["dep"] = true; return o; }
    if (T->isPointerType()) { o["ptr"] = true; if (T->getPointeeType().isConstQualified()) o["pconst"] = true; }
    if (T->isBooleanType()) o["k"] = "b";
    else if (T->isEnumeralType()) { o["k"] = "e"; }
    else if (T->isIntegerType()) { o["k"] = T->isSignedIntegerType() ? "i" : "u"; o["w"] = (int64_t)C.getTypeSize(T); }
    else if (T->isFloatingType()) o["k"] = "f";
    else if (T->isRecordType()) o["k"] = "r";
    else if (T->isPointerType()) o["k"] = "p";
    return o;
  }
  int id(const Decl *D) { D = D->getCanonicalDecl(); auto it = Ids.find(D); if (it != Ids.end()) return it->second; int n = Ids.size() + 1; Ids[D] = n; return n; }

  json::Object node(const char *k, const Stmt *S) {
    json::Object o; o["k"] = k;
    SourceLocation L = S->getBeginLoc();
    if (L.isValid()) o["l"] = (int64_t)line(L);
    return o;
  }
  const Expr *strip(const Expr *E) {
    for (;;) {
      if (!E) return E;
      if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ExprWithCleanups>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ConstantExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
      if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) { E = P->getSemanticForm(); continue; }
      if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CastExpr>(E)) {
        switch (P->getCastKind()) {
        case CK_LValueToRValue: case CK_NoOp: case CK_ArrayToPointerDecay: case CK_FunctionToPointerDecay:
        case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_DerivedToBase: case CK_UncheckedDerivedToBase:
        case CK_BaseToDerived: case CK_Dependent: case CK_BuiltinFnToFnPtr:
          E = P->getSubExpr(); continue;
        default: break;
        }
      }
      return E;
    }
  }
  json::Value declref(const ValueDecl *D, const Expr *E) {
    json::Object o = node("ref", E);
    o["n"] = D->getNameAsString();
    if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
      o["rk"] = "enum"; o["q"] = qn(EC);
      if (auto *ED = dyn_cast<EnumDecl>(EC->getDeclContext())) o["e"] = qn(ED);
      o["v"] = enumVal(EC->getInitVal()); return std::move(o);
    }
    if (auto *F = dyn_cast<FunctionDecl>(D)) { o["rk"] = "fn"; o["q"] = qn(F); o["f"] = fid(F); return std::move(o); }
    if (auto *B = dyn_cast<BindingDecl>(D)) { o["rk"] = "var"; o["id"] = id(B); o["t"] = tyinfo(B->getType()); return std::move(o); }
    if (auto *V = dyn_cast<VarDecl>(D)) {
      o["t"] = tyinfo(V->getType());
      if (V->isLocalVarDeclOrParm() && !V->isStaticLocal()) {
        o["rk"] = isa<ParmVarDecl>(V) ? "param" : "var";
        o["id"] = id(V); return std::move(o);
      }
      o["rk"] = "global"; o["q"] = qn(V);
      global(V);
      return std::move(o);
    }
    o["rk"] = "other"; o["q"] = qn(D);
    return std::move(o);
  }
  void global(const VarDecl *V) {
    const VarDecl *D = V->getDefinition() ? V->getDefinition() : V;
    std::string q = qn(D);
    if (D->getStorageClass() == SC_Static || D->isInAnonymousNamespace() || D->isStaticLocal()) {}
    if (!wanted(D->getLocation())) return;
    std::string key = q + "@" + file(D->getLocation());
    if (!SeenG.insert(key).second) return;
    json::Object o;
    o["q"] = q; o["file"] = file(D->getLocation()); o["line"] = (int64_t)line(D->getLocation());
    o["t"] = tyinfo(D->getType());
    o["constexpr"] = D->isConstexpr();
    o["isconst"] = D->getType().isConstQualified();
    if (D->isStaticLocal()) o["slocal"] = true;
    if (const Expr *I = D->getAnyInitializer()) if (!I->isValueDependent() && !I->isTypeDependent()) o["init"] = expr(I);
    Globals.push_back(std::move(o));
  }
  json::Value exprs(ArrayRef<const Expr *> A) { json::Array r; for (auto *e : A) r.push_back(expr(e)); return std::move(r); }
  template <class R> json::Value exprsR(R &&A) { json::Array r; for (const auto *e : A) r.push_back(expr(cast<Expr>(e))); return std::move(r); }

  void constant(json::Object &o, const Expr *E) {
    if (E->isValueDependent() || E->isTypeDependent() || E->getType().isNull()) return;
    if (!E->getType()->isIntegralOrEnumerationType()) return;
    if (!E->isPRValue() && !isa<DeclRefExpr>(E)) return;
    Expr::EvalResult R;
    if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
      auto V = R.Val.getInt();
      llvm::SmallString<32> s; V.toString(s, 10);
      o["cv"] = std::string(s);
    }
  }
  json::Value lambda(const LambdaExpr *L) {
    json::Object o = node("lambda", L);
    json::Array caps;
    auto init = L->capture_init_begin();
    for (auto &c : L->captures()) {
      json::Object co;
      if (c.capturesThis()) { co["this"] = true; co["copy"] = c.getCaptureKind() == LCK_StarThis; }
      else if (c.capturesVariable()) {
        auto *v = c.getCapturedVar();
        co["id"] = id(v); co["n"] = v->getNameAsString(); co["byref"] = c.getCaptureKind() == LCK_ByRef; co["t"] = tyinfo(v->getType());
        if (init && *init && v->isInitCapture()) co["init"] = expr(*init);
        else if (init && *init && c.getCaptureKind() == LCK_ByCopy) co["src"] = expr(*init);
      }
      caps.push_back(std::move(co)); ++init;
    }
    o["caps"] = std::move(caps);
    o["mutable"] = L->isMutable();
    auto *M = L->getCallOperator();
    if (L->isGenericLambda()) {
      json::Array inst;
      if (auto *FT = L->getLambdaClass()->getDependentLambdaCallOperator())
        for (auto *S : FT->specializations()) { inst.push_back(fid(S)); }
      o["generic"] = std::move(inst);
    } else { o["f"] = fid(M); function(M, true); }
    return std::move(o);
  }
  json::Value expr(const Expr *E0) {
    const Expr *E = strip(E0);
    if (!E) { json::Object o; o["k"] = "none"; return std::move(o); }
    json::Value v = expr1(E);
    if (auto *o = v.getAsObject()) {
      if (!o->get("t")) (*o)["t"] = tyinfo(E->getType());
      if (!o->get("cv")) constant(*o, E);
      if (E->isGLValue()) (*o)["lv"] = true;
      if (E0 != E) {
        // an outer user-visible conversion that strip() removed does not change the value
      }
    }
    return v;
  }
  json::Value expr1(const Expr *E) {
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { auto o = node("int", E); llvm::SmallString<32> s; X->getValue().toString(s, 10, X->getType()->isSignedIntegerType()); o["v"] = std::string(s); return std::move(o); }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { auto o = node("int", E); o["v"] = std::to_string(X->getValue()); return std::move(o); }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { auto o = node("float", E); llvm::SmallString<32> s; X->getValue().toString(s); o["v"] = std::string(s); return std::move(o); }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { auto o = node("bool", E); o["v"] = X->getValue(); return std::move(o); }
    if (auto *X = dyn_cast<StringLiteral>(E)) { auto o = node("str", E); if (X->isOrdinary()) o["v"] = json::fixUTF8(X->getString()); return std::move(o); }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return node("null", E);
    if (isa<CXXThisExpr>(E)) return node("this", E);
    if (auto *X = dyn_cast<DeclRefExpr>(E)) return declref(X->getDecl(), E);
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      auto *D = X->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) { return declref(V, E); }
      if (isa<EnumConstantDecl>(D)) return declref(D, E);
      auto o = node("mem", E);
      o["n"] = D->getNameAsString(); o["q"] = qn(D);
      if (auto *F = dyn_cast<FieldDecl>(D)) { o["cls"] = qn(F->getParent()); o["mk"] = "field"; }
      else o["mk"] = "method";
      o["arrow"] = X->isArrow();
      o["b"] = expr(X->getBase());
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto o = node("call", E); o["op"] = getOperatorSpelling(X->getOperator());
      callee(o, X->getDirectCallee());
      SmallVector<const Expr *, 4> A(X->arg_begin(), X->arg_end());
      if (auto *M = dyn_cast_or_null<CXXMethodDecl>(X->getDirectCallee()); M && !M->isStatic()) { o["obj"] = expr(A[0]); A.erase(A.begin()); }
      o["a"] = exprs(A); return std::move(o);
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      auto o = node("call", E); callee(o, X->getMethodDecl());
      if (auto *O = X->getImplicitObjectArgument()) {
        o["obj"] = expr(O);
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) o["arrow"] = ME->isArrow();
        else o["pm"] = expr(X->getCallee());
        if (auto *MD = X->getMethodDecl()) if (MD->isVirtual()) {
          auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens());
          if (!(ME && ME->hasQualifier())) o["virt"] = true;
        }
      }
      o["a"] = exprsR(X->arguments()); return std::move(o);
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      auto o = node("call", E); callee(o, X->getDirectCallee());
      if (!X->getDirectCallee()) o["fp"] = expr(X->getCallee());
      o["a"] = exprsR(X->arguments()); return std::move(o);
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      auto *D = X->getConstructor();
      if ((D->isCopyOrMoveConstructor()) && X->getNumArgs() == 1 && X->isElidable()) return expr(X->getArg(0));
      auto o = node("ctor", E); o["cls"] = qn(D->getParent()); o["f"] = fid(D);
      o["copy"] = D->isCopyConstructor(); o["move"] = D->isMoveConstructor();
      o["defaulted"] = D->isDefaulted() || D->isImplicit();
      o["zeroinit"] = X->requiresZeroInitialization();
      o["a"] = exprsR(X->arguments()); return std::move(o);
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { auto o = node("ctor", E); o["cls"] = qn(X->getConstructor()->getParent()); o["f"] = fid(X->getConstructor()); o["inh"] = true; o["a"] = json::Array(); return std::move(o); }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      auto o = node(X->isAssignmentOp() ? "assign" : "bin", E);
      o["op"] = X->getOpcodeStr().str();
      o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(E)) o["ct"] = tyinfo(CA->getComputationResultType());
      return std::move(o);
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      auto o = node("un", E); o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); o["post"] = X->isPostfix();
      o["a"] = expr(X->getSubExpr()); return std::move(o);
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) { auto o = node("cond", E); o["c"] = expr(X->getCond()); o["a"] = expr(X->getTrueExpr()); o["b"] = expr(X->getFalseExpr()); return std::move(o); }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { auto o = node("index", E); o["a"] = expr(X->getBase()); o["b"] = expr(X->getIdx()); return std::move(o); }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (auto *S = X->getSemanticForm()) X = S;
      auto o = node("init", E);
      json::Array a; for (auto *e : X->inits()) a.push_back(expr(e));
      o["a"] = std::move(a);
      if (auto *RD = X->getType()->getAsCXXRecordDecl()) { json::Array f; for (auto &b : RD->bases()) f.push_back("base:" + ty(b.getType())); for (auto *fd : RD->fields()) f.push_back(fd->getNameAsString()); o["f"] = std::move(f); o["cls"] = qn(RD); }
      return std::move(o);
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return node("zero", E);
    if (auto *X = dyn_cast<LambdaExpr>(E)) return lambda(X);
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { auto o = node("throw", E); if (X->getSubExpr()) { o["a"] = expr(X->getSubExpr()); o["tt"] = ty(X->getSubExpr()->getType()); } return std::move(o); }
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) { if (X->isTypeOperand()) { auto o = node("typeid", E); o["of"] = ty(X->getTypeOperand(C)); return std::move(o); } }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { auto o = node("sizeof", E); if (X->isArgumentType()) o["of"] = ty(X->getArgumentType()); else o["of"] = ty(X->getArgumentExpr()->getType()); return std::move(o); }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) { auto o = node("new", E); o["of"] = ty(X->getAllocatedType()); if (X->isArray() && X->getArraySize()) o["n"] = expr(*X->getArraySize()); if (X->getInitializer()) o["i"] = expr(X->getInitializer()); return std::move(o); }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { auto o = node("delete", E); o["a"] = expr(X->getArgument()); return std::move(o); }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      auto o = node("cast", E); o["ck"] = X->getCastKindName(); o["expl"] = isa<ExplicitCastExpr>(X); o["a"] = expr(X->getSubExpr());
      return std::move(o);
    }
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) { auto o = node("arrcopy", E); o["a"] = expr(X->getCommonExpr()->getSourceExpr()); return std::move(o); }
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (X->getSourceExpr()) return expr(X->getSourceExpr()); }
    if (auto *X = dyn_cast<CXXFoldExpr>(E)) return node("fold", E);
    if (auto *X = dyn_cast<StmtExpr>(E)) { auto o = node("stmtexpr", E); o["body"] = stmt(X->getSubStmt()); return std::move(o); }
    if (auto *X = dyn_cast<PredefinedExpr>(E)) { auto o = node("str", E); return std::move(o); }
    auto o = node("unk", E); o["cls"] = E->getStmtClassName();
    json::Array a; for (auto *c : E->children()) if (auto *ce = dyn_cast_or_null<Expr>(c)) a.push_back(expr(ce));
    o["a"] = std::move(a);
    return std::move(o);
  }
  void callee(json::Object &o, const FunctionDecl *F) {
    if (!F) return;
    o["f"] = fid(F); o["n"] = F->getNameAsString(); o["q"] = qn(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { o["cls"] = qn(M->getParent()); o["cst"] = M->isConst(); o["static"] = M->isStatic();
      if (M->isCopyAssignmentOperator() || M->isMoveAssignmentOperator()) { o["asg"] = true; o["dflt"] = M->isDefaulted() || M->isImplicit(); }
      if (auto *TD = dyn_cast<ClassTemplateSpecializationDecl>(M->getParent())) o["tn"] = TD->getSpecializedTemplate()->getQualifiedNameAsString(); }
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      json::Array ta;
      for (auto &a : TA->asArray()) tmplarg(a, ta);
      o["ta"] = std::move(ta);
    }
    json::Array pt; for (auto *p : F->parameters()) pt.push_back(tyinfo(p->getType())); o["pt"] = std::move(pt);
    o["nothrow"] = false;
    if (!F->getDefinition() ) {}
  }
  void tmplarg(const TemplateArgument &a, json::Array &ta) {
    switch (a.getKind()) {
    case TemplateArgument::Type: ta.push_back(ty(a.getAsType())); break;
    case TemplateArgument::Integral: { llvm::SmallString<32> s; a.getAsIntegral().toString(s, 10); ta.push_back(std::string(s)); break; }
    case TemplateArgument::Declaration: ta.push_back(qn(a.getAsDecl())); break;
    case TemplateArgument::Pack: for (auto &b : a.pack_elements()) tmplarg(b, ta); break;
    default: { std::string s; llvm::raw_string_ostream os(s); a.print(PP, os, true); ta.push_back(os.str()); }
    }
  }
  json::Value vardecl(const VarDecl *V) {
    json::Object o; o["id"] = id(V); o["n"] = V->getNameAsString(); o["t"] = tyinfo(V->getType());
    o["l"] = (int64_t)line(V->getLocation());
    if (V->isStaticLocal()) { o["static"] = true; o["q"] = qn(V); global(V); }
    if (V->getInit()) o["init"] = expr(V->getInit());
    if (auto *D = dyn_cast<DecompositionDecl>(V)) {
      json::Array b;
      for (auto *B : D->bindings()) {
        json::Object bo; bo["id"] = id(B); bo["n"] = B->getNameAsString();
        if (auto *HV = B->getHoldingVar()) { bo["hold"] = id(HV); if (HV->getInit()) bo["init"] = expr(HV->getInit()); bo["t"] = tyinfo(HV->getType()); }
        else if (B->getBinding()) bo["init"] = expr(B->getBinding());
        b.push_back(std::move(bo));
      }
      o["bind"] = std::move(b);
    }
    return std::move(o);
  }
  json::Value stmt(const Stmt *S) {
    if (!S) { json::Object o; o["k"] = "nop"; return std::move(o); }
    if (auto *X = dyn_cast<Expr>(S)) { auto o = node("expr", S); o["e"] = expr(X); return std::move(o); }
    if (auto *X = dyn_cast<CompoundStmt>(S)) { auto o = node("block", S); json::Array a; for (auto *s : X->body()) a.push_back(stmt(s)); o["b"] = std::move(a); return std::move(o); }
    if (auto *X = dyn_cast<DeclStmt>(S)) { auto o = node("decl", S); json::Array a; for (auto *d : X->decls()) if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(vardecl(v)); o["d"] = std::move(a); return std::move(o); }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      auto o = node("if", S); o["constexpr"] = X->isConstexpr();
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) o["cv"] = vardecl(X->getConditionVariable());
      if (X->isConstexpr() && !X->getCond()->isValueDependent()) {
        auto nd = X->getNondiscardedCase(C);
        if (nd) { o["k"] = "block"; json::Array a; if (X->getInit()) a.push_back(stmt(X->getInit())); if (*nd) a.push_back(stmt(*nd)); o["b"] = std::move(a); return std::move(o); }
      }
      o["c"] = expr(X->getCond()); o["a"] = stmt(X->getThen()); if (X->getElse()) o["b"] = stmt(X->getElse()); return std::move(o);
    }
    if (auto *X = dyn_cast<ForStmt>(S)) { auto o = node("for", S); if (X->getInit()) o["init"] = stmt(X->getInit()); if (X->getCond()) o["c"] = expr(X->getCond()); if (X->getInc()) o["inc"] = expr(X->getInc()); o["b"] = stmt(X->getBody()); return std::move(o); }
    if (auto *X = dyn_cast<WhileStmt>(S)) { auto o = node("while", S); if (X->getConditionVariable()) o["cv"] = vardecl(X->getConditionVariable()); o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); return std::move(o); }
    if (auto *X = dyn_cast<DoStmt>(S)) { auto o = node("do", S); o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); return std::move(o); }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      auto o = node("forrange", S); if (X->getInit()) o["init"] = stmt(X->getInit());
      o["r"] = expr(X->getRangeInit()); o["v"] = vardecl(X->getLoopVariable()); o["b"] = stmt(X->getBody()); return std::move(o);
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      auto o = node("switch", S); if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) o["cv"] = vardecl(X->getConditionVariable());
      o["c"] = expr(X->getCond());
      json::Array groups; // sequence of {labels, default, stmts}
      flattenSwitch(X->getBody(), groups);
      o["g"] = std::move(groups);
      if (X->isAllEnumCasesCovered()) o["allenum"] = true;
      return std::move(o);
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { auto o = node("return", S); if (X->getRetValue()) o["e"] = expr(X->getRetValue()); return std::move(o); }
    if (isa<BreakStmt>(S)) return node("break", S);
    if (isa<ContinueStmt>(S)) return node("continue", S);
    if (isa<NullStmt>(S)) return node("nop", S);
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      auto o = node("try", S); o["b"] = stmt(X->getTryBlock()); json::Array h;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) { auto *c = X->getHandler(i); json::Object ho; ho["t"] = c->getExceptionDecl() ? ty(c->getCaughtType()) : std::string("..."); if (c->getExceptionDecl()) ho["id"] = id(c->getExceptionDecl()); ho["b"] = stmt(c->getHandlerBlock()); ho["l"] = (int64_t)line(c->getBeginLoc()); h.push_back(std::move(ho)); }
      o["h"] = std::move(h); return std::move(o);
    }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) return stmt(X->getSubStmt());
    auto o = node("unkstmt", S); o["cls"] = S->getStmtClassName(); return std::move(o);
  }
  void flattenSwitch(const Stmt *Body, json::Array &groups) {
    auto addStmt = [&](const Stmt *s) { if (groups.empty()) { json::Object g; g["lab"] = json::Array(); g["def"] = false; g["s"] = json::Array(); groups.push_back(std::move(g)); } (*groups.back().getAsObject())["s"].getAsArray()->push_back(stmt(s)); };
    std::function<void(const Stmt *)> rec = [&](const Stmt *s) {
      if (auto *C1 = dyn_cast<SwitchCase>(s)) {
        bool fresh = groups.empty() || !(*groups.back().getAsObject())["s"].getAsArray()->empty();
        if (fresh) { json::Object g; g["lab"] = json::Array(); g["def"] = false; g["s"] = json::Array(); g["l"] = (int64_t)line(s->getBeginLoc()); groups.push_back(std::move(g)); }
        auto *g = groups.back().getAsObject();
        if (auto *CS = dyn_cast<CaseStmt>(s)) (*g)["lab"].getAsArray()->push_back(expr(CS->getLHS()));
        else (*g)["def"] = true;
        if (C1->getSubStmt()) rec(C1->getSubStmt());
        return;
      }
      addStmt(s);
    };
    if (auto *B = dyn_cast_or_null<CompoundStmt>(Body)) for (auto *s : B->body()) rec(s);
    else if (Body) rec(Body);
  }
  void function(const FunctionDecl *F, bool force = false) {
    if (F->isDependentContext() || F->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate) return;
    const FunctionDecl *D = nullptr;
    bool body = F->hasBody(D);
    if (!body) {
      // defaulted special members have no body until used; record only their existence through the record
      return;
    }
    if (D->isDependentContext()) return;
    if (!wanted(D->getLocation()) && !force) return;
    if (!wanted(D->getLocation())) return;
    std::string k = fid(D);
    if (!SeenF.insert(k).second) return;
    json::Object o;
    o["f"] = k; o["q"] = qn(D); o["n"] = D->getNameAsString(); o["usr"] = usr(D);
    o["file"] = file(D->getLocation()); o["line"] = (int64_t)line(D->getLocation()); o["endline"] = (int64_t)line(D->getEndLoc());
    o["ret"] = tyinfo(D->getReturnType());
    o["implicit"] = D->isImplicit(); o["defaulted"] = D->isDefaulted();
    json::Array ps; for (auto *p : D->parameters()) { json::Object po; po["id"] = id(p); po["n"] = p->getNameAsString(); po["t"] = tyinfo(p->getType()); ps.push_back(std::move(po)); }
    o["params"] = std::move(ps);
    o["static"] = false;
    if (auto *TA = D->getTemplateSpecializationArgs()) { json::Array ta; for (auto &a : TA->asArray()) tmplarg(a, ta); o["ta"] = std::move(ta); }
    if (auto *M = dyn_cast<CXXMethodDecl>(D)) {
      o["cls"] = qn(M->getParent()); o["const"] = M->isConst(); o["static"] = M->isStatic(); o["virt"] = M->isVirtual();
      if (auto *TD = dyn_cast<ClassTemplateSpecializationDecl>(M->getParent())) o["tn"] = TD->getSpecializedTemplate()->getQualifiedNameAsString();
      if (M->getParent()->isLambda()) o["lambda"] = true;
      switch (M->getAccess()) { case AS_public: o["acc"] = "public"; break; case AS_private: o["acc"] = "private"; break; default: o["acc"] = "protected"; }
      json::Array ov; for (auto *b : M->overridden_methods()) ov.push_back(fid(b)); o["over"] = std::move(ov);
    }
    o["ctor"] = isa<CXXConstructorDecl>(D); o["dtor"] = isa<CXXDestructorDecl>(D);
    if (auto *K = dyn_cast<CXXConstructorDecl>(D)) {
      json::Array in;
      for (auto *I : K->inits()) {
        json::Object io;
        if (I->isMemberInitializer()) { io["m"] = I->getMember()->getNameAsString(); io["t"] = tyinfo(I->getMember()->getType()); }
        else if (I->isBaseInitializer()) io["base"] = ty(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) io["deleg"] = true;
        io["written"] = I->isWritten();
        io["e"] = expr(I->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    o["body"] = stmt(D->getBody());
    Functions.push_back(std::move(o));
  }
  bool VisitFunctionDecl(FunctionDecl *F) { if (F->isThisDeclarationADefinition() || F->isImplicit() || F->isDefaulted()) if (wanted(F->getLocation())) function(F); return true; }
  bool VisitVarDecl(VarDecl *V) {
    if (V->isFileVarDecl() && !V->getDeclContext()->isDependentContext() && !V->getType()->isDependentType() && wanted(V->getLocation()) && !isa<ParmVarDecl>(V) && !isa<VarTemplatePartialSpecializationDecl>(V) && !V->getDescribedVarTemplate()) global(V);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !wanted(E->getLocation()) || E->isDependentContext()) return true;
    std::string q = qn(E);
    if (!SeenE.insert(q).second) return true;
    json::Object o; o["q"] = q; o["file"] = file(E->getLocation()); o["line"] = (int64_t)line(E->getLocation()); json::Array a;
    for (auto *c : E->enumerators()) { json::Object co; co["n"] = c->getNameAsString(); co["v"] = enumVal(c->getInitVal()); a.push_back(std::move(co)); }
    o["e"] = std::move(a); Enums.push_back(std::move(o));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || !wanted(R->getLocation()) || R->isLambda()) return true;
    std::string q = qn(R);
    if (!SeenR.insert(q).second) return true;
    json::Object o; o["q"] = q; o["n"] = R->getNameAsString(); o["file"] = file(R->getLocation()); o["line"] = (int64_t)line(R->getLocation());
    if (auto *TD = dyn_cast<ClassTemplateSpecializationDecl>(R)) { o["tn"] = TD->getSpecializedTemplate()->getQualifiedNameAsString(); json::Array ta; for (auto &a : TD->getTemplateArgs().asArray()) tmplarg(a, ta); o["ta"] = std::move(ta); }
    json::Array bs; for (auto &b : R->bases()) bs.push_back(ty(b.getType())); o["bases"] = std::move(bs);
    json::Array fs;
    for (auto *f : R->fields()) { json::Object fo; fo["n"] = f->getNameAsString(); fo["t"] = tyinfo(f->getType()); fo["l"] = (int64_t)line(f->getLocation()); fo["mutable"] = f->isMutable(); if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
      switch (f->getAccess()) { case AS_public: fo["acc"] = "public"; break; case AS_private: fo["acc"] = "private"; break; default: fo["acc"] = "protected"; }
      fs.push_back(std::move(fo)); }
    o["fields"] = std::move(fs);
    json::Array ms;
    for (auto *m : R->methods()) { json::Object mo; mo["n"] = m->getNameAsString(); mo["f"] = fid(m); mo["l"] = (int64_t)line(m->getLocation()); mo["const"] = m->isConst(); mo["virt"] = m->isVirtual(); mo["pure"] = m->isPureVirtual(); mo["deleted"] = m->isDeleted(); mo["defaulted"] = m->isDefaulted(); mo["implicit"] = m->isImplicit(); mo["static"] = m->isStatic();
      if (auto *K = dyn_cast<CXXConstructorDecl>(m)) { mo["copyctor"] = K->isCopyConstructor(); mo["movector"] = K->isMoveConstructor(); mo["dctor"] = K->isDefaultConstructor(); }
      mo["copyasg"] = m->isCopyAssignmentOperator(); mo["moveasg"] = m->isMoveAssignmentOperator();
      mo["ret"] = tyinfo(m->getReturnType());
      switch (m->getAccess()) { case AS_public: mo["acc"] = "public"; break; case AS_private: mo["acc"] = "private"; break; default: mo["acc"] = "protected"; }
      ms.push_back(std::move(mo)); }
    o["methods"] = std::move(ms);
    o["needs_copyctor"] = R->needsImplicitCopyConstructor(); o["needs_movector"] = R->needsImplicitMoveConstructor();
    o["needs_copyasg"] = R->needsImplicitCopyAssignment();
    Records.push_back(std::move(o));
    return true;
  }
};
class Consumer : public ASTConsumer {
  CompilerInstance &CI;
public:
  explicit Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C); D.TraverseDecl(C.getTranslationUnitDecl());
    json::Object o;
    o["functions"] = std::move(D.Functions); o["records"] = std::move(D.Records); o["enums"] = std::move(D.Enums); o["globals"] = std::move(D.Globals);
    o["errors"] = (int64_t)CI.getDiagnostics().getClient()->getNumErrors();
    json::Array fl; auto &SM = C.getSourceManager();
    for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) fl.push_back(it->first.getName().str());
    o["files"] = std::move(fl);
    std::error_code EC; llvm::raw_fd_ostream os(Out, EC);
    os << json::Value(std::move(o)) << "\n";
  }
};
class Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(CI); }
};
} // namespace
int main(int argc, const char **argv) {
  auto P = CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << P.takeError(); return 2; }
  ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(newFrontendActionFactory<Action>().get());
}
