// bonfacts: emits the resolved program (types, callees, fields, bodies) of one
// translation unit as JSON.  Only entities declared below the source root are
// emitted with bodies; names of everything they touch are fully resolved.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
#include <string>
using namespace clang;
using namespace llvm;

static std::string Root; // "/repo/"

struct Emit {
  ASTContext &C;
  json::OStream &J;
  std::unique_ptr<MangleContext> MC;
  PrintingPolicy PP;
  std::map<const Decl *, unsigned> Ids;
  Emit(ASTContext &c, json::OStream &j) : C(c), J(j), MC(ItaniumMangleContext::create(c, c.getDiagnostics())), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.FullyQualifiedName = true;
  }
  unsigned id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = Ids.find(D);
    if (it != Ids.end()) return it->second;
    unsigned n = Ids.size() + 1; Ids[D] = n; return n;
  }
  std::string file(SourceLocation L) {
    const SourceManager &SM = C.getSourceManager();
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!FE) return "";
    StringRef rp = FE->getFileEntry().tryGetRealPathName();
    return rp.empty() ? FE->getName().str() : rp.str();
  }
  unsigned line(SourceLocation L) {
    const SourceManager &SM = C.getSourceManager();
    return SM.getExpansionLineNumber(L);
  }
  bool inRoot(const Decl *D) {
    std::string f = file(D->getLocation());
    return f.compare(0, Root.size(), Root) == 0;
  }
  std::string ty(QualType T) { return T.getAsString(PP); }
  std::string cty(QualType T) { return T.getCanonicalType().getAsString(PP); }
  std::string qn(const NamedDecl *D) { std::string s; raw_string_ostream os(s); D->printQualifiedName(os, PP); return os.str(); }
  std::string mangled(const FunctionDecl *F) {
    if (F->isDependentContext()) return qn(F);
    std::string s; raw_string_ostream os(s);
    GlobalDecl GD;
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) GD = GlobalDecl(K, Ctor_Complete);
    else if (auto *K = dyn_cast<CXXDestructorDecl>(F)) GD = GlobalDecl(K, Dtor_Complete);
    else GD = GlobalDecl(F);
    if (MC->shouldMangleDeclName(F)) MC->mangleName(GD, os); else os << F->getNameAsString();
    return os.str();
  }
  void fnref(const FunctionDecl *F) {
    J.attribute("fn", qn(F));
    J.attribute("name", F->getNameAsString());
    J.attribute("m", mangled(F));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      J.attribute("cls", qn(M->getParent()));
      if (M->isStatic()) J.attribute("static", true);
      if (M->isConst()) J.attribute("cm", true);
    }
    if (F->isNoReturn()) J.attribute("noreturn", true);
    // how each parameter is taken: v(alue) p(ointer to mutable) P(ointer to const) r(ef) R(const ref)
    std::string how;
    for (auto *P : F->parameters()) {
      QualType T = P->getType();
      if (T->isReferenceType()) how += T->getPointeeType().isConstQualified() ? 'R' : 'r';
      else if (T->isPointerType()) how += T->getPointeeType().isConstQualified() ? 'P' : 'p';
      else how += 'v';
    }
    J.attribute("how", how);
  }
  const Expr *strip(const Expr *E) {
    while (E) {
      if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<ImplicitCastExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<FullExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = P->getReplacement();
      else break;
    }
    return E;
  }
  void child(const char *k, const Stmt *S) { J.attributeBegin(k); stmt(S); J.attributeEnd(); }
  template <class R> void children(const char *k, R &&r) {
    J.attributeBegin(k); J.arrayBegin();
    for (auto *s : r) stmt(s);
    J.arrayEnd(); J.attributeEnd();
  }
  void varref(const VarDecl *V) {
    J.attribute("id", (int64_t)id(V));
    J.attribute("name", V->getNameAsString());
    J.attribute("t", ty(V->getType()));
    const char *w = "local";
    if (isa<ParmVarDecl>(V)) w = "param";
    else if (V->isStaticLocal()) w = "slocal";
    else if (V->isStaticDataMember()) w = "smember";
    else if (V->hasGlobalStorage()) w = "global";
    J.attribute("w", w);
    if (V->hasGlobalStorage()) J.attribute("q", qn(V));
  }
  void stmt(const Stmt *S) {
    if (!S) { J.value(nullptr); return; }
    if (auto *E = dyn_cast<Expr>(S)) S = strip(E);
    J.objectBegin();
    unsigned ln = line(S->getBeginLoc());
    if (ln) J.attribute("l", (int64_t)ln);
    body(S);
    J.objectEnd();
  }
  void body(const Stmt *S) {
    switch (S->getStmtClass()) {
    case Stmt::CompoundStmtClass:
      J.attribute("k", "block"); J.attribute("el", (int64_t)line(S->getEndLoc()));
      children("s", cast<CompoundStmt>(S)->body()); return;
    case Stmt::NullStmtClass: J.attribute("k", "empty"); return;
    case Stmt::IfStmtClass: { auto *X = cast<IfStmt>(S); J.attribute("k", "if");
      if (X->getInit()) child("init", X->getInit());
      if (X->getConditionVariable()) child("cv", X->getConditionVariableDeclStmt());
      child("c", X->getCond()); child("t", X->getThen()); child("e", X->getElse()); return; }
    case Stmt::ForStmtClass: { auto *X = cast<ForStmt>(S); J.attribute("k", "for");
      child("init", X->getInit()); child("c", X->getCond()); child("inc", X->getInc()); child("b", X->getBody()); return; }
    case Stmt::WhileStmtClass: { auto *X = cast<WhileStmt>(S); J.attribute("k", "while");
      if (X->getConditionVariable()) child("cv", X->getConditionVariableDeclStmt());
      child("c", X->getCond()); child("b", X->getBody()); return; }
    case Stmt::DoStmtClass: { auto *X = cast<DoStmt>(S); J.attribute("k", "do");
      child("c", X->getCond()); child("b", X->getBody()); return; }
    case Stmt::CXXForRangeStmtClass: { auto *X = cast<CXXForRangeStmt>(S); J.attribute("k", "rfor");
      child("v", X->getLoopVarStmt()); child("r", X->getRangeInit()); child("b", X->getBody()); return; }
    case Stmt::SwitchStmtClass: { auto *X = cast<SwitchStmt>(S); J.attribute("k", "switch");
      child("c", X->getCond()); child("b", X->getBody()); return; }
    case Stmt::CaseStmtClass: { auto *X = cast<CaseStmt>(S); J.attribute("k", "case");
      child("v", X->getLHS()); if (X->getRHS()) child("v2", X->getRHS()); child("s", X->getSubStmt()); return; }
    case Stmt::DefaultStmtClass: J.attribute("k", "default"); child("s", cast<DefaultStmt>(S)->getSubStmt()); return;
    case Stmt::BreakStmtClass: J.attribute("k", "break"); return;
    case Stmt::ContinueStmtClass: J.attribute("k", "continue"); return;
    case Stmt::ReturnStmtClass: J.attribute("k", "return"); child("e", cast<ReturnStmt>(S)->getRetValue()); return;
    case Stmt::GotoStmtClass: J.attribute("k", "goto"); J.attribute("name", cast<GotoStmt>(S)->getLabel()->getName()); return;
    case Stmt::LabelStmtClass: J.attribute("k", "label"); J.attribute("name", cast<LabelStmt>(S)->getName()); child("s", cast<LabelStmt>(S)->getSubStmt()); return;
    case Stmt::AttributedStmtClass: J.attribute("k", "block"); J.attributeBegin("s"); J.arrayBegin(); stmt(cast<AttributedStmt>(S)->getSubStmt()); J.arrayEnd(); J.attributeEnd(); return;
    case Stmt::DeclStmtClass: { J.attribute("k", "decl"); J.attributeBegin("v"); J.arrayBegin();
      for (auto *D : cast<DeclStmt>(S)->decls()) if (auto *V = dyn_cast<VarDecl>(D)) {
        J.objectBegin(); varref(V); J.attribute("ct", cty(V->getType())); child("e", V->getInit()); J.objectEnd(); }
      J.arrayEnd(); J.attributeEnd(); return; }
    case Stmt::CXXTryStmtClass: { auto *X = cast<CXXTryStmt>(S); J.attribute("k", "try"); child("b", X->getTryBlock());
      J.attributeBegin("h"); J.arrayBegin();
      for (unsigned i = 0; i < X->getNumHandlers(); i++) { auto *H = X->getHandler(i); J.objectBegin();
        J.attribute("k", "handler"); J.attribute("l", (int64_t)line(H->getBeginLoc()));
        if (H->getExceptionDecl()) { J.attributeBegin("var"); J.objectBegin(); varref(H->getExceptionDecl()); J.objectEnd(); J.attributeEnd();
          J.attribute("ct", cty(H->getCaughtType())); } else J.attribute("ct", "...");
        child("b", H->getHandlerBlock()); J.objectEnd(); }
      J.arrayEnd(); J.attributeEnd(); return; }
    default: break;
    }
    auto *E = dyn_cast<Expr>(S);
    if (!E) { J.attribute("k", "otherstmt"); J.attribute("cls", S->getStmtClassName()); children("ch", const_cast<Stmt *>(S)->children()); return; }
    // expressions
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { J.attribute("k", "int"); J.attribute("v", X->getValue().getSExtValue()); return; }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { J.attribute("k", "bool"); J.attribute("v", X->getValue()); return; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { J.attribute("k", "int"); J.attribute("v", (int64_t)X->getValue()); return; }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { J.attribute("k", "float"); J.attribute("v", X->getValueAsApproximateDouble()); return; }
    if (auto *X = dyn_cast<clang::StringLiteral>(E)) { J.attribute("k", "str"); std::string s = X->getCharByteWidth() == 1 ? X->getString().str() : std::string("?"); J.attribute("v", json::fixUTF8(s)); return; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { J.attribute("k", "null"); return; }
    if (isa<CXXThisExpr>(E)) { J.attribute("k", "this"); return; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      auto *D = X->getDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) { J.attribute("k", "var"); varref(V); return; }
      if (auto *N = dyn_cast<EnumConstantDecl>(D)) { J.attribute("k", "enum"); J.attribute("name", N->getNameAsString()); J.attribute("q", qn(N)); J.attribute("v", N->getInitVal().getSExtValue()); J.attribute("t", cty(N->getType())); return; }
      if (auto *F = dyn_cast<FunctionDecl>(D)) { J.attribute("k", "fnref"); fnref(F); return; }
      J.attribute("k", "otherref"); J.attribute("name", D->getNameAsString()); return;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      if (auto *F = dyn_cast<FieldDecl>(X->getMemberDecl())) { J.attribute("k", "mem"); J.attribute("f", F->getNameAsString()); J.attribute("cls", qn(F->getParent()));
        J.attribute("t", ty(F->getType())); if (X->isArrow()) J.attribute("arrow", true); child("b", X->getBase()); return; }
      if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) { J.attribute("k", "var"); varref(V); return; }
      if (auto *F = dyn_cast<FunctionDecl>(X->getMemberDecl())) { J.attribute("k", "fnref"); fnref(F); child("b", X->getBase()); return; }
      if (auto *N = dyn_cast<EnumConstantDecl>(X->getMemberDecl())) { J.attribute("k", "enum"); J.attribute("name", N->getNameAsString()); J.attribute("q", qn(N)); J.attribute("v", N->getInitVal().getSExtValue()); J.attribute("t", cty(N->getType())); return; }
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      J.attribute("k", "call"); J.attribute("op", getOperatorSpelling(X->getOperator())); J.attribute("t", ty(X->getType()));
      if (auto *F = X->getDirectCallee()) { fnref(F);
        if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic() && X->getNumArgs() > 0) { child("obj", X->getArg(0));
          J.attributeBegin("a"); J.arrayBegin(); for (unsigned i = 1; i < X->getNumArgs(); i++) stmt(X->getArg(i)); J.arrayEnd(); J.attributeEnd(); return; } }
      children("a", X->arguments()); return;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      J.attribute("k", "call"); J.attribute("t", ty(X->getType()));
      auto *M = X->getMethodDecl();
      if (M) { fnref(M);
        auto *ME = dyn_cast<MemberExpr>(strip(X->getCallee()));
        bool virt = M->isVirtual() && !(ME && ME->hasQualifier());
        if (virt) J.attribute("virt", true);
        if (ME) { if (ME->isArrow()) J.attribute("arrow", true); }
        child("obj", X->getImplicitObjectArgument());
        J.attribute("ot", cty(X->getObjectType()));
      } else child("cal", X->getCallee());
      children("a", X->arguments()); return;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      J.attribute("k", "call"); J.attribute("t", ty(X->getType()));
      if (auto *F = X->getDirectCallee()) fnref(F); else child("cal", X->getCallee());
      children("a", X->arguments()); return;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      J.attribute("k", "ctor"); J.attribute("t", ty(X->getType())); fnref(X->getConstructor());
      if (X->getConstructor()->isCopyConstructor()) J.attribute("copy", true);
      if (X->getConstructor()->isMoveConstructor()) J.attribute("move", true);
      if (X->getConstructor()->isImplicit()||X->getConstructor()->isDefaulted()) J.attribute("implicit", true);
      children("a", X->arguments()); return;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      J.attribute("k", "new"); J.attribute("t", ty(X->getAllocatedType())); if (X->isArray()) { J.attribute("arr", true); if (X->getArraySize()) child("n", *X->getArraySize()); }
      if (X->getNumPlacementArgs()) J.attribute("placement", true);
      child("e", X->getInitializer()); return;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { J.attribute("k", "delete"); if (X->isArrayForm()) J.attribute("arr", true); child("e", X->getArgument()); return; }
    if (auto *X = dyn_cast<UnaryOperator>(E)) { J.attribute("k", "un"); J.attribute("op", UnaryOperator::getOpcodeStr(X->getOpcode()).str()); if (X->isPostfix()) J.attribute("post", true); child("e", X->getSubExpr()); return; }
    if (auto *X = dyn_cast<BinaryOperator>(E)) { J.attribute("k", X->isAssignmentOp() ? "assign" : "bin"); J.attribute("op", X->getOpcodeStr().str());
      if (X->getType()->isFloatingType() || X->getLHS()->getType()->isFloatingType()) J.attribute("fp", true);
      child("a", X->getLHS()); child("b", X->getRHS()); return; }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) { J.attribute("k", "cond"); child("c", X->getCond()); child("t", X->getTrueExpr()); child("e", X->getFalseExpr()); return; }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { J.attribute("k", "idx"); child("b", X->getBase()); child("i", X->getIdx()); return; }
    if (auto *X = dyn_cast<ExplicitCastExpr>(E)) { J.attribute("k", "cast"); J.attribute("t", ty(X->getTypeAsWritten())); J.attribute("ct", cty(X->getTypeAsWritten())); J.attribute("ck", X->getCastKindName()); J.attribute("sc", X->getStmtClassName()); child("e", X->getSubExpr()); return; }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { J.attribute("k", "throw"); if (X->getSubExpr()) J.attribute("ct", cty(X->getSubExpr()->getType())); child("e", X->getSubExpr()); return; }
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { // default argument: emit the value
      const Expr *D = strip(X->getExpr());
      J.attribute("dflt", true); body(D); return; }
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { const Expr *D = strip(X->getExpr()); J.attribute("dflt", true); body(D); return; }
    if (auto *X = dyn_cast<InitListExpr>(E)) { J.attribute("k", "list"); J.attribute("t", ty(X->getType())); children("a", X->inits()); return; }
    if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) { (void)X; J.attribute("k", "zero"); J.attribute("t", ty(X->getType())); return; }
    if (isa<ImplicitValueInitExpr>(E)) { J.attribute("k", "zero"); J.attribute("t", ty(E->getType())); return; }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { J.attribute("k", "sizeof"); if (X->isArgumentType()) J.attribute("t", ty(X->getArgumentType())); else child("e", X->getArgumentExpr()); return; }
    if (auto *X = dyn_cast<LambdaExpr>(E)) { J.attribute("k", "lambda"); J.attribute("m", mangled(X->getCallOperator()));
      J.attributeBegin("p"); J.arrayBegin(); for (auto *P : X->getCallOperator()->parameters()) { J.objectBegin(); varref(P); J.objectEnd(); } J.arrayEnd(); J.attributeEnd();
      child("b", X->getBody()); return; }
    if (isa<CXXTypeidExpr>(E)) { J.attribute("k", "typeid"); return; }
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { J.attribute("k", "list"); J.attributeBegin("a"); J.arrayBegin(); stmt(X->getSubExpr()); J.arrayEnd(); J.attributeEnd(); return; }
    J.attribute("k", "other"); J.attribute("cls", E->getStmtClassName());
    children("ch", const_cast<Expr *>(E)->children());
  }
  void function(const FunctionDecl *F) {
    J.objectBegin();
    J.attribute("kind", "function");
    fnref(F);
    J.attribute("file", file(F->getLocation()));
    J.attribute("l", (int64_t)line(F->getLocation()));
    J.attribute("el", (int64_t)line(F->getEndLoc()));
    J.attribute("ret", cty(F->getReturnType()));
    if (F->isImplicit()) J.attribute("implicit", true);
    if (F->isDefaulted()) J.attribute("defaulted", true);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual()) J.attribute("virtual", true);
      if (M->isCopyAssignmentOperator()) J.attribute("copyassign", true);
      J.attributeBegin("over"); J.arrayBegin(); over(M); J.arrayEnd(); J.attributeEnd();
    }
    if (isa<CXXDestructorDecl>(F)) J.attribute("dtor", true);
    J.attributeBegin("p"); J.arrayBegin();
    for (auto *P : F->parameters()) { J.objectBegin(); varref(P); J.attribute("ct", cty(P->getType())); if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) child("d", P->getDefaultArg()); J.objectEnd(); }
    J.arrayEnd(); J.attributeEnd();
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      J.attribute("ctor", true);
      if (K->isCopyConstructor()) J.attribute("copyctor", true);
      J.attributeBegin("inits"); J.arrayBegin();
      for (auto *I : K->inits()) {
        J.objectBegin();
        J.attribute("l", (int64_t)line(I->getSourceLocation()));
        if (I->isWritten()) J.attribute("written", true);
        if (I->isAnyMemberInitializer()) { J.attribute("f", I->getAnyMember()->getNameAsString()); }
        else if (I->isBaseInitializer()) J.attribute("base", cty(QualType(I->getBaseClass(), 0)));
        else if (I->isDelegatingInitializer()) J.attribute("deleg", true);
        child("e", I->getInit());
        J.objectEnd();
      }
      J.arrayEnd(); J.attributeEnd();
    }
    child("b", F->getBody());
    J.objectEnd();
  }
  void over(const CXXMethodDecl *M) {
    for (auto *O : M->overridden_methods()) { J.value(mangled(O)); over(O); }
  }
  void record(const CXXRecordDecl *R) {
    J.objectBegin();
    J.attribute("kind", "class"); J.attribute("qn", qn(R)); J.attribute("file", file(R->getLocation())); J.attribute("l", (int64_t)line(R->getLocation()));
    J.attribute("inrepo", inRoot(R));
    J.attributeBegin("bases"); J.arrayBegin();
    for (auto &B : R->bases()) J.value(cty(B.getType()));
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("fields"); J.arrayBegin();
    for (auto *F : R->fields()) { J.objectBegin(); J.attribute("f", F->getNameAsString()); J.attribute("t", ty(F->getType())); J.attribute("ct", cty(F->getType())); J.attribute("l", (int64_t)line(F->getLocation())); J.objectEnd(); }
    J.arrayEnd(); J.attributeEnd();
    J.attribute("ucopy", R->hasUserDeclaredCopyConstructor());
    J.attribute("uassign", R->hasUserDeclaredCopyAssignment());
    J.attribute("udtor", R->hasUserDeclaredDestructor());
    J.attributeBegin("methods"); J.arrayBegin();
    for (auto *M : R->methods()) {
      J.objectBegin(); fnref(M); J.attribute("l", (int64_t)line(M->getLocation()));
      if (M->isVirtual()) J.attribute("virtual", true);
      if (M->isPureVirtual()) J.attribute("pure", true);
      if (M->isImplicit()) J.attribute("implicit", true);
      if (M->isDeleted()) J.attribute("deleted", true);
      if (M->isDefaulted()) J.attribute("defaulted", true);
      J.attribute("access", (int64_t)M->getAccess());
      if (M->isCopyAssignmentOperator()) J.attribute("copyassign", true);
      if (auto *K = dyn_cast<CXXConstructorDecl>(M)) { J.attribute("ctor", true); if (K->isCopyConstructor()) J.attribute("copyctor", true); }
      if (isa<CXXDestructorDecl>(M)) J.attribute("dtor", true);
      J.attribute("ret", cty(M->getReturnType()));
      J.attributeBegin("pn"); J.arrayBegin(); for (auto *P : M->parameters()) J.value(P->getNameAsString()); J.arrayEnd(); J.attributeEnd();
      J.attributeBegin("over"); J.arrayBegin(); over(M); J.arrayEnd(); J.attributeEnd();
      J.objectEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    J.objectEnd();
  }
  void enumd(const EnumDecl *D) {
    J.objectBegin(); J.attribute("kind", "enum"); J.attribute("qn", qn(D)); J.attribute("file", file(D->getLocation())); J.attribute("l", (int64_t)line(D->getLocation()));
    J.attributeBegin("v"); J.arrayBegin();
    for (auto *E : D->enumerators()) { J.objectBegin(); J.attribute("name", E->getNameAsString()); J.attribute("q", qn(E)); J.attribute("v", E->getInitVal().getSExtValue()); J.objectEnd(); }
    J.arrayEnd(); J.attributeEnd(); J.objectEnd();
  }
  void global(const VarDecl *V) {
    J.objectBegin(); J.attribute("kind", "global"); varref(V); J.attribute("file", file(V->getLocation())); J.attribute("l", (int64_t)line(V->getLocation())); child("e", V->getInit()); J.objectEnd();
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Emit &E;
  std::set<const Decl *> done, recs;
  Visitor(Emit &e) : E(e) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  void needRec(const CXXRecordDecl *R) {
    if (!R) return; R = R->getDefinition(); if (!R || R->isDependentContext()) return;
    if (!recs.insert(R).second) return;
    E.record(R);
    for (auto &B : R->bases()) needRec(B.getType()->getAsCXXRecordDecl());
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() || F->isDependentContext()) return true;
    if (!E.inRoot(F)) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    if (done.insert(F).second) E.function(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    if (E.inRoot(R)) needRec(R);
    else {
      std::string q = E.qn(R);
      if (q.compare(0, 3, "Osi") == 0 || q.compare(0, 3, "Cbc") == 0 || q.compare(0, 3, "Cgl") == 0 || q.compare(0, 7, "Ipopt::") == 0 || q.compare(0, 4, "Coin") == 0) {
        if (q.find('<') == std::string::npos) needRec(R);
      }
    }
    return true;
  }
  bool VisitEnumDecl(EnumDecl *D) {
    if (!D->isThisDeclarationADefinition()) return true;
    if (E.inRoot(D) || E.qn(D).compare(0, 7, "Ipopt::") == 0) { if (done.insert(D).second) E.enumd(D); }
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->hasGlobalStorage() && V->isThisDeclarationADefinition() && E.inRoot(V) && !V->isStaticLocal() && !V->getDeclContext()->isDependentContext())
      if (done.insert(V).second) E.global(V);
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &Ctx) override {
    json::OStream J(outs());
    Emit E(Ctx, J);
    J.arrayBegin();
    Visitor V(E);
    V.TraverseDecl(Ctx.getTranslationUnitDecl());
    J.arrayEnd();
    outs() << "\n"; outs().flush();
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, char **argv) {
  // bonfacts ROOT FILE -- flags
  if (argc < 4) return 3;
  Root = argv[1]; if (Root.back() != '/') Root += '/';
  std::vector<std::string> flags;
  for (int i = 4; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool Tool(DB, {std::string(argv[2])});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
