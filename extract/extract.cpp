// libTooling extractor: writes a resolved, macro-expanded, template-instantiated JSON tree of
// every function, class and enum defined under a root directory.  No execution of repo code.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Frontend/FrontendAction.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace clang;
using llvm::json::Array;
using llvm::json::Value;
using llvm::json::Object;
static std::string Root;

struct Ex {
  ASTContext &C; PrintingPolicy PP;
  std::map<const Decl*, int> ids;
  Ex(ASTContext &c) : C(c), PP(c.getLangOpts()) { PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true; }
  int id(const Decl *D) { D = D->getCanonicalDecl(); auto it = ids.find(D); if (it != ids.end()) return it->second; int n = ids.size() + 1; ids[D] = n; return n; }
  int line(SourceLocation L) { return (int)C.getSourceManager().getExpansionLineNumber(L); }
  std::string file(SourceLocation L) {
    auto &SM = C.getSourceManager(); L = SM.getExpansionLoc(L); auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!F) return ""; llvm::SmallString<256> P(F->getFileEntry().tryGetRealPathName()); if (P.empty()) P = F->getName(); return P.str().str();
  }
  bool inRoot(SourceLocation L) { std::string f = file(L); return f.compare(0, Root.size(), Root) == 0; }
  static const CXXRecordDecl *rec(QualType T) {
    T = T.getNonReferenceType(); if (T->isPointerType()) T = T->getPointeeType(); return T.getCanonicalType()->getAsCXXRecordDecl();
  }
  static bool isEigen(const CXXRecordDecl *R) {
    if (!R) return false; std::string q = R->getQualifiedNameAsString(); if (q.compare(0, 7, "Eigen::") == 0) return true;
    R = R->getDefinition(); if (!R || R->isDependentType()) return false;
    for (auto &B : R->bases()) if (auto *BR = B.getType()->getAsCXXRecordDecl()) if (isEigen(BR)) return true;
    return false;
  }
  std::string tag(QualType T) {
    if (T.isNull()) return "?";
    T = T.getNonReferenceType().getCanonicalType();
    if (T->isVoidType()) return "v";
    if (T->isBooleanType()) return "b"; if (T->isEnumeralType()) return "e";
    if (T->isIntegerType()) return "i"; if (T->isRealFloatingType()) return "f";
    if (T->isPointerType()) return "p"; if (T->isArrayType()) return "a";
    if (auto *R = T->getAsCXXRecordDecl()) return (isEigen(R) ? "M:" : "o:") + R->getQualifiedNameAsString();
    if (T->isDependentType()) return "d";
    return "?";
  }
  std::string tstr(QualType T) { return T.isNull() ? "" : T.getAsString(PP); }
  std::string qual(const NamedDecl *D) { return D->getQualifiedNameAsString(); }
  std::string key(const FunctionDecl *F) {
    std::string s = qual(F) + "(";
    for (unsigned i = 0; i < F->getNumParams(); i++) { if (i) s += ","; s += tstr(F->getParamDecl(i)->getType()); }
    s += ")"; if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) s += " const";
    return s;
  }
  // ---- expressions
  Value E(const Expr *X);
  Array EL(llvm::iterator_range<CallExpr::const_arg_iterator> R) { Array A; for (auto *x : R) A.push_back(E(x)); return A; }
  Value call(const FunctionDecl *F, const Expr *recv, Array args, QualType T, const Expr *X, bool arrow=false) {
    Array A{"call", qual(F), recv ? E(recv) : Value(nullptr), std::move(args), tag(T), key(F), line(X->getBeginLoc())};
    auto *M = dyn_cast<CXXMethodDecl>(F);
    std::string fl; if (M && M->isConst()) fl += "c"; if (M && M->isVirtual()) fl += "v"; if (M && M->isStatic()) fl += "s";
    QualType RT = F->getReturnType();
    if (RT->isLValueReferenceType()) fl += RT.getNonReferenceType().isConstQualified() ? "k" : "r";
    A.push_back(fl);
    // explicit template args that are integers (Eigen head<3>() etc.)
    Array TA;
    if (auto *L = F->getTemplateSpecializationArgs()) for (auto &a : L->asArray()) if (a.getKind() == TemplateArgument::Integral) TA.push_back((int64_t)a.getAsIntegral().getExtValue()); else if (a.getKind()==TemplateArgument::Type) TA.push_back(tstr(a.getAsType()));
    A.push_back(std::move(TA));
    if (!fl.size()) {}
    // constness of explicit params (which args can be written): bitmask string
    std::string pm; for (auto *P : F->parameters()) { QualType pt = P->getType(); bool mut = false;
      if (pt->isLValueReferenceType()) mut = !pt->getPointeeType().isConstQualified(); else if (pt->isPointerType()) mut = !pt->getPointeeType().isConstQualified();
      pm += mut ? 'm' : '-'; }
    A.push_back(pm);
    return A;
  }
  // ---- statements
  Value S(const Stmt *X);
  Array block(const Stmt *X) { Array A; if (!X) return A; if (auto *B = dyn_cast<CompoundStmt>(X)) for (auto *s : B->body()) A.push_back(S(s)); else A.push_back(S(X)); return A; }
  Value decl(const VarDecl *V) {
    QualType T = V->getType();
    Array A{"decl", V->getNameAsString(), id(V), tag(T), V->hasInit() ? E(V->getInit()) : Value(nullptr), T->isReferenceType() ? (T.getNonReferenceType().isConstQualified()? "k":"r") : "", line(V->getBeginLoc()), tstr(T), V->isStaticLocal()};
    return A;
  }
  Value cond(const Stmt *init, const VarDecl *cv, const Expr *c) {
    return E(c);
  }
};

Value Ex::E(const Expr *X) {
  if (!X) return nullptr;
  X = X->IgnoreParens();
  if (auto *Y = dyn_cast<ExprWithCleanups>(X)) return E(Y->getSubExpr());
  if (auto *Y = dyn_cast<MaterializeTemporaryExpr>(X)) return E(Y->getSubExpr());
  if (auto *Y = dyn_cast<CXXBindTemporaryExpr>(X)) return E(Y->getSubExpr());
  if (auto *Y = dyn_cast<ConstantExpr>(X)) return E(Y->getSubExpr());
  if (auto *Y = dyn_cast<SubstNonTypeTemplateParmExpr>(X)) return E(Y->getReplacement());
  if (auto *Y = dyn_cast<CXXDefaultArgExpr>(X)) return E(Y->getExpr());
  if (auto *Y = dyn_cast<CXXDefaultInitExpr>(X)) return E(Y->getExpr());
  if (auto *Y = dyn_cast<OpaqueValueExpr>(X)) return E(Y->getSourceExpr());
  if (auto *Y = dyn_cast<CXXStdInitializerListExpr>(X)) return E(Y->getSubExpr());
  if (auto *Y = dyn_cast<ImplicitCastExpr>(X)) {
    if (Y->getCastKind() == CK_FloatingToIntegral) return Array{"cast", "i", E(Y->getSubExpr())};
    return E(Y->getSubExpr());
  }
  if (auto *Y = dyn_cast<ExplicitCastExpr>(X)) {
    if (Y->getType()->isVoidType()) return Array{"cast", "v", E(Y->getSubExpr())};
    if (Y->getSubExpr()->getType()->isRealFloatingType() && Y->getType()->isIntegerType()) return Array{"cast", "i", E(Y->getSubExpr())};
    if (Y->getCastKind() == CK_FloatingToIntegral) return Array{"cast", "i", E(Y->getSubExpr())};
    if (Y->getType()->isIntegerType() && !Y->getType()->isBooleanType() && !Y->getType()->isEnumeralType())
      if (auto *R = dyn_cast<DeclRefExpr>(Y->getSubExpr()->IgnoreParenImpCasts()))
        if (auto *K = dyn_cast<EnumConstantDecl>(R->getDecl()))
          return Array{"num", std::to_string(K->getInitVal().getExtValue()), "i"};
    return E(Y->getSubExpr());
  }
  if (auto *Y = dyn_cast<IntegerLiteral>(X)) { llvm::SmallString<32> s; Y->getValue().toString(s, 10, Y->getType()->isSignedIntegerType()); return Array{"num", s.str().str(), "i"}; }
  if (auto *Y = dyn_cast<FloatingLiteral>(X)) { char b[64]; snprintf(b, 64, "%.17g", Y->getValueAsApproximateDouble()); return Array{"num", std::string(b), "f"}; }
  if (auto *Y = dyn_cast<CharacterLiteral>(X)) return Array{"num", std::to_string(Y->getValue()), "i"};
  if (auto *Y = dyn_cast<StringLiteral>(X)) return Array{"str", Y->isOrdinary() ? Y->getString().str() : ""};
  if (auto *Y = dyn_cast<CXXBoolLiteralExpr>(X)) return Array{"bool", Y->getValue()};
  if (isa<CXXNullPtrLiteralExpr>(X) || isa<GNUNullExpr>(X)) return Array{"null"};
  if (isa<CXXThisExpr>(X)) return Array{"this"};
  if (auto *Y = dyn_cast<DeclRefExpr>(X)) {
    auto *D = Y->getDecl();
    if (auto *K = dyn_cast<EnumConstantDecl>(D)) {
      std::string q = qual(K); return Array{"enum", q, (int64_t)K->getInitVal().getExtValue(), K->getNameAsString()}; }
    if (auto *V = dyn_cast<VarDecl>(D)) {
      std::string sc = isa<ParmVarDecl>(V) ? "param" : V->isLocalVarDecl() ? (V->isStaticLocal() ? "static" : "local") : "global";
      Array A{"var", sc == "global" ? qual(V) : V->getNameAsString(), id(V), sc, tag(V->getType())};
      // compile-time constants
      if (sc == "global" && V->getType().isConstQualified() && V->hasInit() && !V->getInit()->isValueDependent() && (tag(V->getType()) == "i" || tag(V->getType()) == "f")) A.push_back(E(V->getInit()));
      return A; }
    if (auto *F = dyn_cast<FunctionDecl>(D)) return Array{"fnref", qual(F), key(F)};
    if (auto *B = dyn_cast<BindingDecl>(D)) return Array{"var", B->getNameAsString(), id(B), "local", tag(B->getType())};
    if (auto *F = dyn_cast<FieldDecl>(D)) return Array{"fieldref", qual(F)};
    return Array{"var", D->getNameAsString(), id(D), "other", tag(D->getType())};
  }
  if (auto *Y = dyn_cast<MemberExpr>(X)) {
    auto *D = Y->getMemberDecl();
    if (auto *F = dyn_cast<FieldDecl>(D)) return Array{"fld", E(Y->getBase()), F->getNameAsString(), qual(cast<NamedDecl>(F->getParent())), tag(F->getType())};
    if (auto *V = dyn_cast<VarDecl>(D)) { Array A{"var", qual(V), id(V), "global", tag(V->getType())};
      if (V->getType().isConstQualified() && V->getAnyInitializer() && (tag(V->getType()) == "i" || tag(V->getType()) == "f")) A.push_back(E(V->getAnyInitializer())); return A; }
    if (auto *F = dyn_cast<FunctionDecl>(D)) return Array{"fnref", qual(F), key(F), E(Y->getBase())};
    if (auto *K = dyn_cast<EnumConstantDecl>(D)) return Array{"enum", qual(K), (int64_t)K->getInitVal().getExtValue(), K->getNameAsString()};
    return Array{"unk", "member"};
  }
  if (auto *Y = dyn_cast<CXXOperatorCallExpr>(X)) {
    auto *F = Y->getDirectCallee();
    if (F) {
      auto *M = dyn_cast<CXXMethodDecl>(F);
      Array args; const Expr *recv = nullptr; unsigned i = 0;
      if (M && !M->isStatic()) { recv = Y->getArg(0); i = 1; }
      for (; i < Y->getNumArgs(); i++) args.push_back(E(Y->getArg(i)));
      return call(F, recv, std::move(args), Y->getType(), X);
    }
    Array args; for (auto *a : Y->arguments()) args.push_back(E(a));
    return Array{"dcall", getOperatorSpelling(Y->getOperator()), std::move(args), line(X->getBeginLoc())};
  }
  if (auto *Y = dyn_cast<CXXMemberCallExpr>(X)) {
    if (auto *M = Y->getMethodDecl()) return call(M, Y->getImplicitObjectArgument(), EL(Y->arguments()), Y->getType(), X);
    return Array{"icall", E(Y->getCallee()), EL(Y->arguments()), tag(Y->getType()), line(X->getBeginLoc())};
  }
  if (auto *Y = dyn_cast<CallExpr>(X)) {
    if (auto *F = Y->getDirectCallee()) return call(F, nullptr, EL(Y->arguments()), Y->getType(), X);
    return Array{"icall", E(Y->getCallee()), EL(Y->arguments()), tag(Y->getType()), line(X->getBeginLoc())};
  }
  if (auto *Y = dyn_cast<CXXConstructExpr>(X)) {
    auto *K = Y->getConstructor();
    if (Y->getNumArgs() == 1 && (K->isCopyOrMoveConstructor())) return E(Y->getArg(0));
    Array args; for (auto *a : Y->arguments()) args.push_back(E(a));
    return Array{"ctor", qual(K->getParent()), std::move(args), tag(Y->getType()), key(K), line(X->getBeginLoc()), tstr(Y->getType())};
  }
  if (auto *Y = dyn_cast<InitListExpr>(X)) { Array A; for (auto *a : Y->inits()) A.push_back(E(a)); return Array{"init", std::move(A), tag(Y->getType()), tstr(Y->getType())}; }
  if (auto *Y = dyn_cast<CXXNewExpr>(X)) return Array{"new", tstr(Y->getAllocatedType()), Y->isArray() ? E(*Y->getArraySize()) : Value(nullptr), Y->getInitializer() ? E(Y->getInitializer()) : Value(nullptr), line(X->getBeginLoc())};
  if (auto *Y = dyn_cast<CXXDeleteExpr>(X)) return Array{"delete", E(Y->getArgument()), line(X->getBeginLoc())};
  if (auto *Y = dyn_cast<CXXThrowExpr>(X)) return Array{"throw", E(Y->getSubExpr()), line(X->getBeginLoc())};
  if (auto *Y = dyn_cast<LambdaExpr>(X)) {
    Array P; for (auto *p : Y->getCallOperator()->parameters()) P.push_back(Array{p->getNameAsString(), id(p), tag(p->getType()), tstr(p->getType())});
    return Array{"lambda", std::move(P), block(Y->getBody()), line(X->getBeginLoc())};
  }
  if (auto *Y = dyn_cast<CompoundAssignOperator>(X)) return Array{"asg", Y->getOpcodeStr().str(), E(Y->getLHS()), E(Y->getRHS()), tag(Y->getLHS()->getType()), line(Y->getOperatorLoc())};
  if (auto *Y = dyn_cast<BinaryOperator>(X)) {
    if (Y->isAssignmentOp()) return Array{"asg", "=", E(Y->getLHS()), E(Y->getRHS()), tag(Y->getLHS()->getType()), line(Y->getOperatorLoc())};
    // type tag: operand type for comparisons
    return Array{"bin", Y->getOpcodeStr().str(), E(Y->getLHS()), E(Y->getRHS()), Y->isComparisonOp() ? tag(Y->getLHS()->getType()) : tag(Y->getType()), line(Y->getOperatorLoc())};
  }
  if (auto *Y = dyn_cast<CXXRewrittenBinaryOperator>(X)) return E(Y->getSemanticForm());
  if (auto *Y = dyn_cast<UnaryOperator>(X)) {
    if (Y->isIncrementDecrementOp()) return Array{"asg", Y->isIncrementOp() ? "+=" : "-=", E(Y->getSubExpr()), Array{"num", "1", "i"}, tag(Y->getSubExpr()->getType()), line(X->getBeginLoc()), Y->isPostfix() ? "post" : "pre"};
    return Array{"un", UnaryOperator::getOpcodeStr(Y->getOpcode()).str(), E(Y->getSubExpr())};
  }
  if (auto *Y = dyn_cast<AbstractConditionalOperator>(X)) return Array{"cond", E(Y->getCond()), E(Y->getTrueExpr()), E(Y->getFalseExpr())};
  if (auto *Y = dyn_cast<ArraySubscriptExpr>(X)) return Array{"idx", E(Y->getBase()), E(Y->getIdx())};
  if (isa<CXXScalarValueInitExpr>(X) || isa<ImplicitValueInitExpr>(X)) {
    std::string t = tag(X->getType()); if (t == "i" || t == "f") return Array{"num", "0", t}; if (t == "b") return Array{"bool", false}; return Array{"null"}; }
  if (auto *Y = dyn_cast<UnaryExprOrTypeTraitExpr>(X)) { return Array{"sizeof", Y->isArgumentType() ? tstr(Y->getArgumentType()) : tstr(Y->getArgumentExpr()->getType())}; }
  if (auto *Y = dyn_cast<TypeTraitExpr>(X)) { if (!Y->isValueDependent()) return Array{"bool", Y->getValue()}; }
  if (auto *Y = dyn_cast<PredefinedExpr>(X)) return Array{"str", "__func__"};
  if (auto *Y = dyn_cast<PackExpansionExpr>(X)) return E(Y->getPattern());
  Array sub; for (auto *c : X->children()) if (auto *e = dyn_cast_or_null<Expr>(c)) sub.push_back(E(e));
  return Array{"unk", X->getStmtClassName(), std::move(sub)};
}

Value Ex::S(const Stmt *X) {
  if (!X) return Array{"nop"};
  int L = line(X->getBeginLoc());
  if (auto *Y = dyn_cast<CompoundStmt>(X)) return Array{"block", block(Y), L};
  if (auto *Y = dyn_cast<DeclStmt>(X)) { Array A; for (auto *d : Y->decls()) if (auto *V = dyn_cast<VarDecl>(d)) A.push_back(decl(V)); return Array{"decls", std::move(A), L}; }
  if (auto *Y = dyn_cast<IfStmt>(X)) {
    Array r{"if", E(Y->getCond()), block(Y->getThen()), block(Y->getElse()), L};
    if (Y->getInit() || Y->getConditionVariable()) { Array b; if (Y->getInit()) b.push_back(S(Y->getInit())); if (auto *V = Y->getConditionVariable()) b.push_back(Array{"decls", Array{decl(V)}, L}); b.push_back(std::move(r)); return Array{"block", std::move(b), L}; }
    return r; }
  if (auto *Y = dyn_cast<ForStmt>(X)) return Array{"for", Y->getInit() ? S(Y->getInit()) : Value(nullptr), E(Y->getCond()), E(Y->getInc()), block(Y->getBody()), L};
  if (auto *Y = dyn_cast<WhileStmt>(X)) return Array{"while", E(Y->getCond()), block(Y->getBody()), L};
  if (auto *Y = dyn_cast<DoStmt>(X)) return Array{"do", E(Y->getCond()), block(Y->getBody()), L};
  if (auto *Y = dyn_cast<CXXForRangeStmt>(X)) return Array{"rfor", decl(Y->getLoopVariable()), E(Y->getRangeInit()), block(Y->getBody()), L};
  if (auto *Y = dyn_cast<ReturnStmt>(X)) return Array{"ret", E(Y->getRetValue()), L};
  if (isa<BreakStmt>(X)) return Array{"break", L};
  if (isa<ContinueStmt>(X)) return Array{"cont", L};
  if (isa<NullStmt>(X)) return Array{"nop"};
  if (auto *Y = dyn_cast<SwitchStmt>(X)) {
    Array groups; // flat list: ["case", expr|null] or statement
    std::function<void(const Stmt*)> flat = [&](const Stmt *s) {
      if (auto *c = dyn_cast<CaseStmt>(s)) { groups.push_back(Array{"case", E(c->getLHS())}); flat(c->getSubStmt()); }
      else if (auto *d = dyn_cast<DefaultStmt>(s)) { groups.push_back(Array{"case", nullptr}); flat(d->getSubStmt()); }
      else groups.push_back(S(s)); };
    if (auto *B = dyn_cast<CompoundStmt>(Y->getBody())) for (auto *s : B->body()) flat(s); else flat(Y->getBody());
    return Array{"switch", E(Y->getCond()), std::move(groups), L};
  }
  if (auto *Y = dyn_cast<CXXTryStmt>(X)) { Array H; for (unsigned i = 0; i < Y->getNumHandlers(); i++) { auto *h = Y->getHandler(i); H.push_back(Array{h->getExceptionDecl() ? tstr(h->getExceptionDecl()->getType()) : "...", h->getExceptionDecl() ? h->getExceptionDecl()->getNameAsString() : "", block(h->getHandlerBlock()), h->getExceptionDecl() ? id(h->getExceptionDecl()) : 0}); }
    return Array{"try", block(Y->getTryBlock()), std::move(H), L}; }
  if (auto *Y = dyn_cast<GotoStmt>(X)) return Array{"goto", Y->getLabel()->getNameAsString(), L};
  if (auto *Y = dyn_cast<LabelStmt>(X)) return Array{"label", Y->getDecl()->getNameAsString(), S(Y->getSubStmt()), L};
  if (auto *Y = dyn_cast<AttributedStmt>(X)) return S(Y->getSubStmt());
  if (auto *Y = dyn_cast<Expr>(X)) return Array{"expr", E(Y), L};
  return Array{"unks", X->getStmtClassName(), L};
}

struct V : RecursiveASTVisitor<V> {
  Ex &X; llvm::json::Array fns, classes, enums; std::set<std::string> seenF, seenC; ASTContext &C;
  V(Ex &x, ASTContext &c) : X(x), C(c) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool TraverseDecl(Decl *D) {
    if (D && !isa<TranslationUnitDecl>(D) && !isa<NamespaceDecl>(D) && !isa<LinkageSpecDecl>(D) && D->getLocation().isValid() && !X.inRoot(D->getLocation()) && !C.getSourceManager().isInMainFile(C.getSourceManager().getExpansionLoc(D->getLocation()))) return true;
    return RecursiveASTVisitor<V>::TraverseDecl(D);
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() || F->isDependentContext() || F->isImplicit() || F->isDefaulted()) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    if (!X.inRoot(F->getLocation())) return true;
    std::string k = X.key(F); if (!seenF.insert(k).second) return true;
    Object O; O["key"] = k; O["qual"] = X.qual(F); O["name"] = F->getNameAsString(); O["file"] = X.file(F->getLocation()); O["line"] = X.line(F->getBeginLoc()); O["endline"] = X.line(F->getEndLoc());
    Array P; for (auto *p : F->parameters()) { QualType T = p->getType(); P.push_back(Array{p->getNameAsString(), X.id(p), X.tag(T), T->isLValueReferenceType() ? (T.getNonReferenceType().isConstQualified() ? "k" : "r") : "", X.tstr(T), p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() ? X.E(p->getDefaultArg()) : Value(nullptr)}); }
    O["params"] = std::move(P); O["ret"] = X.tag(F->getReturnType()); O["rtype"] = X.tstr(F->getReturnType());
    O["retref"] = F->getReturnType()->isLValueReferenceType() ? (F->getReturnType().getNonReferenceType().isConstQualified() ? "k" : "r") : "";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { O["cls"] = X.qual(M->getParent()); O["const"] = M->isConst(); O["virtual"] = M->isVirtual(); O["static"] = M->isStatic();
      O["access"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_private ? "private" : "protected"; }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) { Array I; for (auto *i : K->inits()) { if (i->isAnyMemberInitializer()) I.push_back(Array{i->getAnyMember()->getNameAsString(), X.E(i->getInit()), i->isWritten()}); else if (i->isBaseInitializer()) I.push_back(Array{"<base>", X.E(i->getInit()), i->isWritten()}); } O["inits"] = std::move(I); }
    O["body"] = X.block(F->getBody());
    fns.push_back(std::move(O)); return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda() || !X.inRoot(R->getLocation())) return true;
    std::string k = X.tstr(C.getRecordType(R)); if (!seenC.insert(k).second) return true;
    Object O; O["qual"] = X.qual(R); O["type"] = k; O["file"] = X.file(R->getLocation()); O["line"] = X.line(R->getLocation());
    Array F; for (auto *f : R->fields()) F.push_back(Array{f->getNameAsString(), X.tag(f->getType()), X.tstr(f->getType()), f->hasInClassInitializer() ? X.E(f->getInClassInitializer()) : Value(nullptr), X.line(f->getLocation())});
    O["fields"] = std::move(F);
    Array M; for (auto *m : R->methods()) if (!m->isImplicit()) M.push_back(Array{X.key(m), m->getNameAsString(), m->isVirtual(), m->getAccess() == AS_public ? "public" : m->getAccess() == AS_private ? "private" : "protected", m->isDeleted()});
    O["methods"] = std::move(M);
    Array B; for (auto &b : R->bases()) B.push_back(X.tag(b.getType())); O["bases"] = std::move(B);
    classes.push_back(std::move(O)); return true;
  }
  bool VisitEnumDecl(EnumDecl *D) {
    if (!D->isThisDeclarationADefinition() || !X.inRoot(D->getLocation())) return true;
    Object O; O["qual"] = X.qual(D); O["line"] = X.line(D->getLocation()); O["file"] = X.file(D->getLocation());
    Array K; for (auto *k : D->enumerators()) K.push_back(Array{k->getNameAsString(), (int64_t)k->getInitVal().getExtValue(), X.line(k->getLocation())});
    O["consts"] = std::move(K); enums.push_back(std::move(O)); return true;
  }
};
struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    Ex X(C); V v(X, C); v.TraverseDecl(C.getTranslationUnitDecl());
    Object O; O["fns"] = std::move(v.fns); O["classes"] = std::move(v.classes); O["enums"] = std::move(v.enums);
    O["errors"] = (int)C.getDiagnostics().hasErrorOccurred();
    llvm::outs() << Value(std::move(O)) << "\n"; llvm::outs().flush();
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Cons>(); }
};
int main(int argc, char **argv) {
  // extract ROOT FILE -- flags...
  Root = argv[1]; std::string file = argv[2]; std::vector<std::string> flags;
  for (int i = 3; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB("/", flags);
  tooling::ClangTool T(DB, {file});
  T.appendArgumentsAdjuster([](const tooling::CommandLineArguments &A, llvm::StringRef) { auto B = A; B.insert(B.begin() + 1, "-resource-dir=/usr/lib/llvm-18/lib/clang/18"); return B; });
  int r = T.run(tooling::newFrontendActionFactory<Act>().get());
  return r ? 3 : 0;
}
