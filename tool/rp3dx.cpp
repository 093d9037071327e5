// rp3dx: dumps the resolved program (type-checked syntax tree with every name, callee, implicit conversion
// and template instantiation resolved by clang) of reactphysics3d as one JSON object per line.
// The rules run over this dump (see /verif/rp3d/*.py). Nothing of the analysed program is executed.
#include "clang/AST/AST.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/RecordLayout.h"
#include "clang/Frontend/ASTUnit.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <cstdio>
#include <set>
#include <string>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::set<std::string> gSeen;
static std::string gRoot;
static llvm::raw_ostream* gOut;

struct Dumper {
  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.Bool = true; PP.SuppressUnwrittenScope = true;
  }

  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    return P.isValid() ? std::string(P.getFilename()) : std::string();
  }
  int line(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    return P.isValid() ? (int)P.getLine() : 0;
  }
  std::string type(QualType T) {
    if (T.isNull()) return "";
    std::string s = T.getCanonicalType().getAsString(PP);
    static const std::string ns = "reactphysics3d::";
    size_t p;
    while ((p = s.find(ns)) != std::string::npos) s.erase(p, ns.size());
    return s;
  }
  std::string qname(const NamedDecl* D) {
    std::string s; llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP); os.flush();
    static const std::string ns = "reactphysics3d::";
    if (s.compare(0, ns.size(), ns) == 0) s = s.substr(ns.size());
    return s;
  }
  std::string recName(const RecordDecl* R) {
    if (!R) return "";
    return type(C.getRecordType(R));
  }
  // key: qualified name + canonical signature (+file for internal linkage)
  std::string fkey(const FunctionDecl* F) {
    std::string cls;
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) cls = recName(M->getParent()) + "::";
    else {
      const DeclContext* DC = F->getDeclContext();
      if (auto* N = dyn_cast<NamespaceDecl>(DC)) { std::string q = qname(N); if (q != "reactphysics3d" && !q.empty()) cls = q + "::"; }
    }
    std::string n = F->getNameAsString();
    if (auto* CD = dyn_cast<CXXConversionDecl>(F)) n = "operator " + type(CD->getConversionType());
    if (isa<CXXConstructorDecl>(F)) { n = "ctor"; }
    if (isa<CXXDestructorDecl>(F)) { n = "dtor"; }
    if (auto* TA = F->getTemplateSpecializationArgs()) {
      n += "<";
      for (auto& A : TA->asArray()) { std::string t; llvm::raw_string_ostream os(t); A.print(PP, os, true); os.flush(); n += t + ","; }
      n += ">";
    }
    std::string s = cls + n + "(";
    for (unsigned i = 0; i < F->getNumParams(); i++) { if (i) s += ", "; s += type(F->getParamDecl(i)->getType()); }
    s += ")";
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) s += " const";
    if (F->getFormalLinkage() == Linkage::Internal && !isa<CXXMethodDecl>(F)) s += " @" + rel(file(F->getLocation()));
    return s;
  }
  std::string rel(std::string f) {
    if (f.compare(0, gRoot.size(), gRoot) == 0) return f.substr(gRoot.size() + (f.size() > gRoot.size() ? 1 : 0));
    return f;
  }
  std::string simpleName(const FunctionDecl* F) {
    if (isa<CXXConstructorDecl>(F)) return "ctor";
    if (isa<CXXDestructorDecl>(F)) return "dtor";
    return F->getNameAsString();
  }
  std::string declClass(const FunctionDecl* F) {
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) return recName(M->getParent());
    return "";
  }
  std::string varKey(const ValueDecl* D) {
    if (auto* V = dyn_cast<VarDecl>(D)) {
      if (V->isLocalVarDeclOrParm() && !V->isStaticLocal()) return D->getNameAsString() + "#" + std::to_string(V->getLocation().getRawEncoding());
    }
    return qname(D);
  }
  Value callee(const FunctionDecl* F, Object& o) {
    o["f"] = fkey(F); o["n"] = simpleName(F);
    std::string c = declClass(F); if (!c.empty()) o["cls"] = c;
    std::string fl = file(F->getLocation());
    if (fl.compare(0, gRoot.size(), gRoot) != 0) o["ext"] = true;
    return nullptr;
  }
  Array exprs(ArrayRef<const Expr*> v) { Array a; for (auto* e : v) a.push_back(expr(e)); return a; }

  Value expr(const Expr* E) {
    if (!E) return nullptr;
    // transparent wrappers
    if (auto* X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto* X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
    if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto* X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
    if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto* X = dyn_cast<CXXDefaultInitExpr>(E)) { return expr(X->getExpr()); }
    if (auto* X = dyn_cast<CXXDefaultArgExpr>(E)) { return expr(X->getExpr()); }
    Object o; o["l"] = line(E->getExprLoc());
    auto ty = [&]() { o["t"] = type(E->getType()); };
    if (auto* X = dyn_cast<ImplicitCastExpr>(E)) {
      switch (X->getCastKind()) {
        case CK_FloatingCast: case CK_IntegralCast: case CK_FloatingToIntegral: case CK_IntegralToFloating:
        case CK_PointerToBoolean: case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToIntegral:
          o["k"] = "cast"; o["imp"] = true; o["ck"] = X->getCastKindName(); ty(); o["st"] = type(X->getSubExpr()->getType());
          o["a"] = Array{expr(X->getSubExpr())}; return o;
        default: return expr(X->getSubExpr());
      }
    }
    if (auto* X = dyn_cast<ExplicitCastExpr>(E)) {
      if (auto* FC = dyn_cast<CXXFunctionalCastExpr>(X))
        if (FC->getCastKind() == CK_ConstructorConversion || FC->getCastKind() == CK_NoOp) return expr(X->getSubExpr());
      o["k"] = "cast"; o["ck"] = X->getCastKindName(); ty(); o["st"] = type(X->getSubExpr()->getType());
      o["sty"] = X->getStmtClassName();
      o["tw"] = X->getTypeAsWritten().getAsString(PP);
      o["a"] = Array{expr(X->getSubExpr())}; return o;
    }
    if (auto* X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl* D = X->getDecl();
      if (auto* F = dyn_cast<FunctionDecl>(D)) { o["k"] = "fref"; callee(F, o); return o; }
      if (isa<EnumConstantDecl>(D)) {
        o["k"] = "enum"; o["n"] = qname(D); o["v"] = (int64_t)cast<EnumConstantDecl>(D)->getInitVal().getExtValue(); ty(); return o;
      }
      o["k"] = "ref"; o["d"] = varKey(D); o["n"] = D->getNameAsString(); ty();
      if (auto* V = dyn_cast<VarDecl>(D)) {
        o["dk"] = isa<ParmVarDecl>(V) ? "param" : (V->isLocalVarDecl() && !V->isStaticLocal()) ? "local" : "global";
        if (V->getType()->isReferenceType()) o["isref"] = true;
        if (!V->isLocalVarDeclOrParm()) {
          std::string fl = file(V->getLocation());
          if (fl.compare(0, gRoot.size(), gRoot) != 0) o["ext"] = true;
          if (V->getType().isConstQualified() || V->isConstexpr()) o["const"] = true;
        }
      } else o["dk"] = "other";
      return o;
    }
    if (auto* X = dyn_cast<MemberExpr>(E)) {
      if (auto* F = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        o["k"] = "mem"; o["n"] = F->getNameAsString(); o["c"] = recName(F->getParent()); ty();
        if (X->isArrow()) o["ar"] = true;
        o["b"] = expr(X->getBase()); return o;
      }
      if (auto* V = dyn_cast<VarDecl>(X->getMemberDecl())) {
        o["k"] = "ref"; o["dk"] = "global"; o["d"] = qname(V); o["n"] = V->getNameAsString(); ty();
        if (V->getType().isConstQualified() || V->isConstexpr()) o["const"] = true;
        return o;
      }
      if (auto* F = dyn_cast<FunctionDecl>(X->getMemberDecl())) { o["k"] = "fref"; callee(F, o); o["b"] = expr(X->getBase()); return o; }
    }
    if (isa<CXXThisExpr>(E)) { o["k"] = "this"; ty(); return o; }
    if (auto* X = dyn_cast<CXXOperatorCallExpr>(E)) {
      const FunctionDecl* F = X->getDirectCallee();
      o["k"] = "call"; ty(); o["op"] = getOperatorSpelling(X->getOperator());
      if (F) callee(F, o);
      unsigned i0 = 0;
      if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic() && X->getNumArgs() > 0) { o["o"] = expr(X->getArg(0)); i0 = 1; if (isa<CXXMethodDecl>(F) && cast<CXXMethodDecl>(F)->isConst()) o["cm"] = true; }
      Array a; for (unsigned i = i0; i < X->getNumArgs(); i++) a.push_back(expr(X->getArg(i)));
      o["a"] = std::move(a); return o;
    }
    if (auto* X = dyn_cast<CXXMemberCallExpr>(E)) {
      o["k"] = "call"; ty();
      const CXXMethodDecl* M = X->getMethodDecl();
      if (M) {
        callee(M, o);
        if (M->isConst()) o["cm"] = true;
        bool virt = M->isVirtual();
        if (auto* ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) { if (ME->hasQualifier()) virt = false; if (ME->isArrow()) o["ar"] = true; }
        if (virt) o["virt"] = true;
      } else o["fe"] = expr(X->getCallee());
      o["o"] = expr(X->getImplicitObjectArgument());
      Array a; for (auto* e : X->arguments()) a.push_back(expr(e));
      o["a"] = std::move(a); return o;
    }
    if (auto* X = dyn_cast<CallExpr>(E)) {
      o["k"] = "call"; ty();
      if (auto* F = X->getDirectCallee()) callee(F, o); else o["fe"] = expr(X->getCallee());
      Array a; for (auto* e : X->arguments()) a.push_back(expr(e));
      o["a"] = std::move(a); return o;
    }
    if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
      if (X->isElidable() && X->getNumArgs() >= 1) return expr(X->getArg(0));
      o["k"] = "ctor"; ty(); callee(X->getConstructor(), o);
      if (X->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = true;
      if (X->getConstructor()->isTrivial() ) o["triv"] = true;
      if (X->requiresZeroInitialization()) o["zi"] = true;
      Array a; for (auto* e : X->arguments()) a.push_back(expr(e));
      o["a"] = std::move(a); return o;
    }
    if (auto* X = dyn_cast<BinaryOperator>(E)) {
      o["k"] = X->isAssignmentOp() ? "asg" : "bin"; o["op"] = X->getOpcodeStr().str(); ty();
      o["a"] = Array{expr(X->getLHS()), expr(X->getRHS())}; return o;
    }
    if (auto* X = dyn_cast<UnaryOperator>(E)) {
      o["k"] = "un"; o["op"] = (UnaryOperator::getOpcodeStr(X->getOpcode()).str() + (X->isPostfix() ? "p" : "")); ty();
      o["a"] = Array{expr(X->getSubExpr())}; return o;
    }
    if (auto* X = dyn_cast<ArraySubscriptExpr>(E)) { o["k"] = "idx"; ty(); o["a"] = Array{expr(X->getBase()), expr(X->getIdx())}; return o; }
    if (auto* X = dyn_cast<ConditionalOperator>(E)) { o["k"] = "cond"; ty(); o["a"] = Array{expr(X->getCond()), expr(X->getTrueExpr()), expr(X->getFalseExpr())}; return o; }
    if (auto* X = dyn_cast<IntegerLiteral>(E)) { o["k"] = "lit"; ty(); o["v"] = (int64_t)X->getValue().getLimitedValue(INT64_MAX); return o; }
    if (auto* X = dyn_cast<FloatingLiteral>(E)) { o["k"] = "lit"; ty(); o["v"] = X->getValueAsApproximateDouble(); if (!X->isExact()) o["inexact"] = true; return o; }
    if (auto* X = dyn_cast<CXXBoolLiteralExpr>(E)) { o["k"] = "lit"; o["t"] = "bool"; o["v"] = X->getValue(); return o; }
    if (auto* X = dyn_cast<CharacterLiteral>(E)) { o["k"] = "lit"; ty(); o["v"] = (int64_t)X->getValue(); return o; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o["k"] = "null"; return o; }
    if (auto* X = dyn_cast<clang::StringLiteral>(E)) { o["k"] = "str"; o["v"] = X->isOrdinary() ? llvm::json::fixUTF8(X->getString()) : std::string(); return o; }
    if (auto* X = dyn_cast<CXXNewExpr>(E)) {
      o["k"] = "new"; o["t"] = type(X->getAllocatedType()); Array pl; for (unsigned i = 0; i < X->getNumPlacementArgs(); i++) pl.push_back(expr(X->getPlacementArg(i)));
      o["pl"] = std::move(pl); if (X->isArray()) o["arr"] = true;
      if (X->getInitializer()) o["init"] = expr(X->getInitializer()); return o;
    }
    if (auto* X = dyn_cast<CXXDeleteExpr>(E)) { o["k"] = "delete"; o["a"] = Array{expr(X->getArgument())}; return o; }
    if (auto* X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      o["k"] = "sizeof"; o["kind"] = (int)X->getKind(); o["st"] = type(X->getTypeOfArgument());
      Expr::EvalResult R; if (X->EvaluateAsInt(R, C)) o["v"] = (int64_t)R.Val.getInt().getExtValue();
      return o;
    }
    if (auto* X = dyn_cast<InitListExpr>(E)) { o["k"] = "ilist"; ty(); Array a; for (auto* e : X->inits()) a.push_back(expr(e)); o["a"] = std::move(a); return o; }
    if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
    if (auto* X = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "lambda"; callee(X->getCallOperator(), o);
      Array caps; for (auto& cp : X->captures()) if (cp.capturesVariable()) caps.push_back(varKey(cp.getCapturedVar()));
      o["caps"] = std::move(caps); fn(X->getCallOperator(), true); o["body"] = stmt(X->getBody()); return o;
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { o["k"] = "zero"; ty(); return o; }
    o["k"] = std::string("x:") + E->getStmtClassName(); ty();
    Array a; for (const Stmt* c : E->children()) if (c) { if (auto* e = dyn_cast<Expr>(c)) a.push_back(expr(e)); else a.push_back(stmt(c)); }
    o["a"] = std::move(a);
    return o;
  }

  Value var(const VarDecl* V) {
    Object o; o["k"] = "var"; o["d"] = varKey(V); o["n"] = V->getNameAsString(); o["t"] = type(V->getType()); o["l"] = line(V->getLocation());
    o["tw"] = V->getType().getAsString(PP);
    if (V->getType()->isReferenceType()) o["isref"] = true;
    if (V->isStaticLocal()) { o["static"] = true; if (V->getType().isConstQualified() || V->isConstexpr()) o["const"] = true; }
    if (V->getInit()) o["i"] = expr(V->getInit());
    return o;
  }

  Value stmt(const Stmt* S) {
    if (!S) return nullptr;
    if (auto* E = dyn_cast<Expr>(S)) return expr(E);
    Object o; o["l"] = line(S->getBeginLoc());
    if (auto* X = dyn_cast<CompoundStmt>(S)) { o["k"] = "block"; Array a; for (auto* s : X->body()) a.push_back(stmt(s)); o["a"] = std::move(a); o["el"] = line(X->getEndLoc()); return o; }
    if (auto* X = dyn_cast<DeclStmt>(S)) { o["k"] = "decl"; Array a; for (auto* d : X->decls()) if (auto* V = dyn_cast<VarDecl>(d)) a.push_back(var(V)); o["a"] = std::move(a); return o; }
    if (auto* X = dyn_cast<IfStmt>(S)) {
      o["k"] = "if"; if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariableDeclStmt()) o["cv"] = stmt(X->getConditionVariableDeclStmt());
      o["c"] = expr(X->getCond()); o["th"] = stmt(X->getThen()); if (X->getElse()) o["el"] = stmt(X->getElse()); return o; }
    if (auto* X = dyn_cast<ForStmt>(S)) { o["k"] = "for"; if (X->getInit()) o["init"] = stmt(X->getInit()); if (X->getCond()) o["c"] = expr(X->getCond()); if (X->getInc()) o["inc"] = expr(X->getInc()); o["b"] = stmt(X->getBody()); return o; }
    if (auto* X = dyn_cast<WhileStmt>(S)) { o["k"] = "while"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); return o; }
    if (auto* X = dyn_cast<DoStmt>(S)) { o["k"] = "do"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); return o; }
    if (auto* X = dyn_cast<CXXForRangeStmt>(S)) { o["k"] = "forr"; o["range"] = expr(X->getRangeInit()); o["v"] = var(X->getLoopVariable()); o["b"] = stmt(X->getBody()); o["begin"] = stmt(X->getBeginStmt()); return o; }
    if (auto* X = dyn_cast<SwitchStmt>(S)) { o["k"] = "switch"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); o["ct"] = type(X->getCond()->IgnoreImpCasts()->getType()); return o; }
    if (auto* X = dyn_cast<CaseStmt>(S)) { o["k"] = "case"; o["v"] = expr(X->getLHS()); o["b"] = stmt(X->getSubStmt()); return o; }
    if (auto* X = dyn_cast<DefaultStmt>(S)) { o["k"] = "default"; o["b"] = stmt(X->getSubStmt()); return o; }
    if (auto* X = dyn_cast<ReturnStmt>(S)) { o["k"] = "ret"; if (X->getRetValue()) o["e"] = expr(X->getRetValue()); return o; }
    if (isa<BreakStmt>(S)) { o["k"] = "break"; return o; }
    if (isa<ContinueStmt>(S)) { o["k"] = "continue"; return o; }
    if (isa<NullStmt>(S)) { o["k"] = "null_s"; return o; }
    o["k"] = std::string("s:") + S->getStmtClassName();
    Array a; for (const Stmt* c : S->children()) if (c) a.push_back(stmt(c));
    o["a"] = std::move(a); return o;
  }

  bool inRoot(SourceLocation L) { std::string f = file(L); return f.compare(0, gRoot.size(), gRoot) == 0 || f.find("/verif/") == 0; }

  void fn(const FunctionDecl* F, bool lambda = false) {
    if (!F->doesThisDeclarationHaveABody() && !F->isDefaulted()) return;
    if (F->isDependentContext()) return;
    if (F->isDefaulted() && !F->hasBody()) return;
    if (!lambda && !inRoot(F->getLocation())) return;
    std::string key = fkey(F);
    if (!gSeen.insert("F" + key).second) return;
    Object o; o["rec"] = "fn"; o["f"] = key; o["n"] = simpleName(F); o["q"] = qname(F);
    o["file"] = rel(file(F->getLocation())); o["l"] = line(F->getLocation()); o["el"] = line(F->getEndLoc());
    o["rt"] = type(F->getReturnType());
    if (lambda) o["lambda"] = true;
    if (F->isImplicit()) o["impl"] = true;
    if (F->isVariadic()) o["variadic"] = true;
    if (F->isTemplateInstantiation()) o["inst"] = true;
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = recName(M->getParent());
      if (M->isStatic()) o["static"] = true;
      if (M->isConst()) o["const"] = true;
      if (M->isVirtual()) o["virt"] = true;
      Array ov; for (auto* x : M->overridden_methods()) ov.push_back(fkey(x)); if (!ov.empty()) o["ov"] = std::move(ov);
      o["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
    }
    Array ps; for (auto* p : F->parameters()) { Object po; po["d"] = varKey(p); po["n"] = p->getNameAsString(); po["t"] = type(p->getType()); ps.push_back(std::move(po)); }
    o["ps"] = std::move(ps);
    if (auto* CD = dyn_cast<CXXConstructorDecl>(F)) {
      Array in;
      for (auto* I : CD->inits()) {
        Object io; if (I->isMemberInitializer()) { io["field"] = I->getMember()->getNameAsString(); } else if (I->isBaseInitializer()) io["base"] = type(QualType(I->getBaseClass(), 0)); else if (I->isDelegatingInitializer()) io["deleg"] = true; else io["other"] = true;
        io["w"] = I->isWritten(); io["e"] = expr(I->getInit()); io["l"] = line(I->getSourceLocation());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    o["body"] = stmt(F->getBody());
    *gOut << Value(std::move(o)) << "\n";
  }

  void rec(const CXXRecordDecl* R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
    if (!inRoot(R->getLocation())) return;
    std::string n = recName(R);
    if (!gSeen.insert("R" + n).second) return;
    Object o; o["rec"] = "class"; o["n"] = n; o["file"] = rel(file(R->getLocation())); o["l"] = line(R->getLocation());
    Array bs; for (auto& b : R->bases()) bs.push_back(type(b.getType())); o["bases"] = std::move(bs);
    Array fs; for (auto* f : R->fields()) {
      Object fo; fo["n"] = f->getNameAsString(); fo["t"] = type(f->getType()); fo["l"] = line(f->getLocation());
      fo["acc"] = f->getAccess() == AS_public ? "public" : "np";
      if (f->hasInClassInitializer()) fo["init"] = true;
      if (f->isMutable()) fo["mut"] = true;
      QualType T = f->getType();
      while (T->isArrayType()) T = QualType(T->getArrayElementTypeNoTypeQual(), 0);
      fo["scalar"] = T->isScalarType(); fo["ptr"] = T->isPointerType(); 
      if (auto* RD = T->getAsCXXRecordDecl()) { if (RD->hasDefinition()) fo["trivdtor"] = RD->hasTrivialDestructor(); }
      if (T->isPointerType()) { QualType P = T->getPointeeType(); if (auto* RD = P->getAsCXXRecordDecl()) { if (RD->hasDefinition()) { fo["ptrivdtor"] = RD->hasTrivialDestructor(); } } else fo["ptrivdtor"] = true; }
      fs.push_back(std::move(fo)); }
    o["fields"] = std::move(fs);
    Array ms; for (auto* d : R->decls()) {
      const FunctionDecl* m = dyn_cast<FunctionDecl>(d);
      if (!m) continue;
      Object mo; mo["f"] = fkey(m); mo["n"] = simpleName(m); mo["acc"] = m->getAccess() == AS_public ? "public" : "np";
      if (m->isImplicit()) mo["impl"] = true; if (m->isDeleted()) mo["del"] = true; if (m->isDefaulted()) mo["dflt"] = true;
      auto* mm = dyn_cast<CXXMethodDecl>(m);
      if (mm) { if (mm->isVirtual()) mo["virt"] = true; if (mm->isPureVirtual()) mo["pure"] = true; if (mm->isConst()) mo["const"] = true; if (mm->isStatic()) mo["static"] = true;
        Array ov; for (auto* x : mm->overridden_methods()) ov.push_back(fkey(x)); if (!ov.empty()) mo["ov"] = std::move(ov); }
      ms.push_back(std::move(mo)); }
    o["methods"] = std::move(ms);
    Array fr; for (auto* f : R->friends()) { if (f->getFriendType()) fr.push_back(type(f->getFriendType()->getType())); } o["friends"] = std::move(fr);
    if (!R->isInvalidDecl()) { const ASTRecordLayout& L = C.getASTRecordLayout(R); o["size"] = (int64_t)L.getSize().getQuantity(); o["trivdtor"] = R->hasTrivialDestructor(); o["trivcopy"] = R->isTriviallyCopyable(); o["abstract"] = R->isAbstract(); }
    *gOut << Value(std::move(o)) << "\n";
  }
  void global(const VarDecl* V) {
    if (V->isLocalVarDeclOrParm() && !V->isStaticLocal()) return;
    if (V->isStaticDataMember() && !V->isOutOfLine() && !V->isInline() && V->getType().isConstQualified()) { /* keep */ }
    if (!inRoot(V->getLocation())) return;
    if (V->getDeclContext()->isDependentContext()) return;
    std::string k = varKey(V); bool def = V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
    if (!gSeen.insert("V" + k + (def ? "D" : "d") ).second) return;
    Object o; o["rec"] = "var"; o["d"] = k; o["t"] = type(V->getType()); o["tw"] = V->getType().getAsString(PP); o["file"] = rel(file(V->getLocation())); o["l"] = line(V->getLocation());
    o["const"] = V->getType().isConstQualified() || V->isConstexpr() ; o["def"] = def; o["staticlocal"] = V->isStaticLocal(); o["tls"] = V->getTLSKind() != VarDecl::TLS_None;
    if (V->getInit()) o["i"] = expr(V->getInit());
    *gOut << Value(std::move(o)) << "\n";
  }
  void en(const EnumDecl* E) {
    if (!E->isThisDeclarationADefinition() || E->isDependentContext() || !inRoot(E->getLocation())) return;
    std::string k = type(C.getEnumType(E));
    if (!gSeen.insert("E" + k).second) return;
    Object o; o["rec"] = "enum"; o["n"] = k; Array a; for (auto* c : E->enumerators()) { a.push_back(Object{{"n", qname(c)}, {"v", (int64_t)c->getInitVal().getExtValue()}}); }
    o["a"] = std::move(a); *gOut << Value(std::move(o)) << "\n";
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Dumper D;
  Visitor(ASTContext& c) : D(c) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* F) { if (auto* M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true; D.fn(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl* R) { D.rec(R); return true; }
  bool VisitVarDecl(VarDecl* V) { D.global(V); return true; }
  bool VisitEnumDecl(EnumDecl* E) { D.en(E); return true; }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext& C) override { Visitor v(C); v.TraverseDecl(C.getTranslationUnitDecl()); }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(); }
};
struct Factory : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); } };

// usage: rp3dx ROOT OUT file... -- flags...
int main(int argc, const char** argv) {
  if (argc < 4) return 2;
  gRoot = argv[1];
  std::error_code ec; llvm::raw_fd_ostream os(argv[2], ec); if (ec) return 2; gOut = &os;
  std::vector<std::string> files, flags; bool fl = false;
  for (int i = 3; i < argc; i++) { std::string a = argv[i]; if (!fl && a == "--") { fl = true; continue; } (fl ? flags : files).push_back(a); }
  tooling::FixedCompilationDatabase db("/", flags);
  tooling::ClangTool tool(db, files);
  Factory f;
  int rc = tool.run(&f);
  os.flush();
  return rc;
}
