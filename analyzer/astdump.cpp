// Serialises the type-checked, instantiated program (functions defined under --root) as JSON.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Sema/Scope.h"
#include "clang/Sema/Sema.h"
#include "clang/Sema/Template.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> Roots;
static std::vector<std::string> Excludes;
static std::string OutFile;

namespace {
class Dumper : public RecursiveASTVisitor<Dumper> {
 public:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  Object Funcs, Records, Globals, Enums;
  Array Templates;
  std::map<const Decl *, int> Ids;
  std::set<const FunctionDecl *> Done;

  explicit Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.PrintCanonicalTypes = true;
    PP.Bool = true;
    PP.SuppressUnwrittenScope = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = Ids.find(D);
    if (it != Ids.end()) return it->second;
    int n = (int)Ids.size() + 1;
    Ids[D] = n;
    return n;
  }
  std::string fid(const Decl *D) { return "f" + std::to_string(id(D)); }
  std::string vid(const Decl *D) { return "v" + std::to_string(id(D)); }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return SM.getFilename(L).str();
  }
  bool inRoot(SourceLocation L) {
    std::string f = fileOf(L);
    for (auto &e : Excludes) if (f.find(e) != std::string::npos) return false;
    for (auto &r : Roots) if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  int line(SourceLocation L) { return (int)SM.getExpansionLineNumber(L); }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string qn(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy P2 = PP;
    D->printQualifiedName(os, P2);
    return os.str();
  }

  Value un(const Stmt *S, const char *why) {
    return Object{{"k", "unk"}, {"w", std::string(why) + ":" + S->getStmtClassName()}, {"l", line(S->getBeginLoc())}};
  }

  Array args(llvm::ArrayRef<const Expr *> A) {
    Array r;
    for (auto *e : A) r.push_back(E(e));
    return r;
  }
  template <class R> Array argsR(R range) {
    Array r;
    for (const Expr *e : range) r.push_back(E(e));
    return r;
  }

  void calleeInfo(Object &o, const FunctionDecl *F) {
    o["f"] = fid(F);
    o["q"] = qn(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = ty(C.getRecordType(M->getParent()));
      o["mconst"] = M->isConst();
      if (M->isStatic()) o["static"] = true;
      if (M->isVirtual()) o["virt"] = true;
    }
    o["n"] = F->getNameAsString();
    if (F->isOverloadedOperator()) o["oo"] = getOperatorSpelling(F->getOverloadedOperator());
    QualType RT = F->getReturnType();
    if (RT->isLValueReferenceType() && !RT.getNonReferenceType().isConstQualified()) o["lv"] = true;
    Array pt;
    for (auto *P : F->parameters()) pt.push_back(ty(P->getType()));
    o["pt"] = std::move(pt);
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      Array ta;
      for (auto &A : TA->asArray()) {
        std::string s; llvm::raw_string_ostream os(s); A.print(PP, os, true); ta.push_back(os.str());
      }
      o["ta"] = std::move(ta);
    }
    if (F->isNoReturn() || F->hasAttr<NoReturnAttr>() || F->hasAttr<AnalyzerNoReturnAttr>()) o["noret"] = true;
  }

  Value E(const Expr *e) {
    if (!e) return nullptr;
    int ln = line(e->getBeginLoc());
    auto mk = [&](const char *k) { return Object{{"k", k}, {"l", ln}, {"t", ty(e->getType())}}; };
    switch (e->getStmtClass()) {
      case Stmt::ParenExprClass: return E(cast<ParenExpr>(e)->getSubExpr());
      case Stmt::ExprWithCleanupsClass: return E(cast<ExprWithCleanups>(e)->getSubExpr());
      case Stmt::MaterializeTemporaryExprClass: return E(cast<MaterializeTemporaryExpr>(e)->getSubExpr());
      case Stmt::CXXBindTemporaryExprClass: return E(cast<CXXBindTemporaryExpr>(e)->getSubExpr());
      case Stmt::ConstantExprClass: return E(cast<ConstantExpr>(e)->getSubExpr());
      case Stmt::SubstNonTypeTemplateParmExprClass: return E(cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement());
      case Stmt::CXXDefaultArgExprClass: return E(cast<CXXDefaultArgExpr>(e)->getExpr());
      case Stmt::CXXDefaultInitExprClass: return E(cast<CXXDefaultInitExpr>(e)->getExpr());
      case Stmt::CXXStdInitializerListExprClass: {
        Value v = E(cast<CXXStdInitializerListExpr>(e)->getSubExpr());
        if (auto *o = v.getAsObject()) (*o)["std"] = true;
        return v;
      }
      default: break;
    }
    if (auto *ic = dyn_cast<CastExpr>(e)) {
      switch (ic->getCastKind()) {
        case CK_IntegralCast: case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_FloatingCast:
        case CK_IntegralToBoolean: case CK_PointerToBoolean: case CK_FloatingToBoolean: case CK_BitCast: {
          Object o = mk("cast");
          o["ck"] = ic->getCastKindName();
          o["e"] = E(ic->getSubExpr());
          if (isa<ExplicitCastExpr>(e)) o["x"] = true;
          return o;
        }
        case CK_ConstructorConversion: case CK_UserDefinedConversion:
        default: return E(ic->getSubExpr());
      }
    }
    if (auto *d = dyn_cast<DeclRefExpr>(e)) {
      Object o = mk("ref");
      const ValueDecl *D = d->getDecl();
      o["n"] = D->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["dk"] = "func"; calleeInfo(o, F); }
      else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        o["dk"] = "enum"; o["q"] = qn(EC); o["v"] = EC->getInitVal().getExtValue();
      } else if (isa<BindingDecl>(D)) { o["dk"] = "binding"; o["d"] = vid(D); }
      else if (auto *V = dyn_cast<VarDecl>(D)) {
        o["d"] = vid(D);
        if (isa<ParmVarDecl>(V)) o["dk"] = "param";
        else if (V->isLocalVarDecl() && !V->isStaticLocal()) o["dk"] = "var";
        else { o["dk"] = "global"; o["q"] = qn(V); noteGlobal(V); }
      } else { o["dk"] = "other"; o["q"] = qn(D); o["d"] = vid(D); }
      return o;
    }
    if (auto *m = dyn_cast<MemberExpr>(e)) {
      const ValueDecl *D = m->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) {  // static data member
        Object o = mk("ref"); o["n"] = V->getNameAsString(); o["dk"] = "global"; o["q"] = qn(V); o["d"] = vid(V); noteGlobal(V); return o;
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        Object o = mk("ref"); o["n"] = EC->getNameAsString(); o["dk"] = "enum"; o["q"] = qn(EC); o["v"] = EC->getInitVal().getExtValue(); return o;
      }
      Object o = mk("mem");
      o["n"] = D->getNameAsString();
      o["b"] = E(m->getBase());
      o["arrow"] = m->isArrow();
      if (auto *FD = dyn_cast<FieldDecl>(D)) {
        o["cls"] = ty(C.getRecordType(FD->getParent()));
        if (FD->getType()->isReferenceType()) o["fref"] = true;
      } else if (auto *F = dyn_cast<FunctionDecl>(D)) { o["mf"] = true; calleeInfo(o, F); }
      return o;
    }
    if (auto *oc = dyn_cast<CXXOperatorCallExpr>(e)) {
      Object o = mk("call");
      o["oo"] = getOperatorSpelling(oc->getOperator());
      const FunctionDecl *F = oc->getDirectCallee();
      if (!F) return un(e, "opcall");
      calleeInfo(o, F);
      Array a;
      unsigned st = 0;
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
        if (!M->isStatic()) { o["this"] = E(oc->getArg(0)); st = 1; }
      }
      for (unsigned i = st; i < oc->getNumArgs(); ++i) a.push_back(E(oc->getArg(i)));
      o["a"] = std::move(a);
      return o;
    }
    if (auto *mc = dyn_cast<CXXMemberCallExpr>(e)) {
      Object o = mk("call");
      const CXXMethodDecl *M = mc->getMethodDecl();
      if (!M) { o["unkcallee"] = E(mc->getCallee()); o["a"] = argsR(mc->arguments()); return o; }
      calleeInfo(o, M);
      if (auto *me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens()))
        o["arrow"] = me->isArrow();
      o["this"] = E(mc->getImplicitObjectArgument());
      o["a"] = argsR(mc->arguments());
      return o;
    }
    if (auto *ce = dyn_cast<CallExpr>(e)) {
      Object o = mk("call");
      const FunctionDecl *F = ce->getDirectCallee();
      if (F) {
        calleeInfo(o, F);
        if (unsigned b = F->getBuiltinID()) o["builtin"] = (int)b;
      } else o["callee"] = E(ce->getCallee());
      o["a"] = argsR(ce->arguments());
      return o;
    }
    if (auto *ic = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      Object o = mk("ctor"); o["f"] = fid(ic->getConstructor()); o["q"] = qn(ic->getConstructor()); o["inherited"] = true; o["a"] = Array(); return o;
    }
    if (auto *cc = dyn_cast<CXXConstructExpr>(e)) {
      const CXXConstructorDecl *CD = cc->getConstructor();
      if (cc->isElidable() && cc->getNumArgs() >= 1) return E(cc->getArg(0));
      Object o = mk("ctor");
      calleeInfo(o, CD);
      if (CD->isCopyConstructor()) o["copy"] = true;
      if (CD->isMoveConstructor()) o["move"] = true;
      if (CD->isDefaultConstructor()) o["dflt"] = true;
      if (cc->isListInitialization()) o["list"] = true;
      o["a"] = argsR(cc->arguments());
      return o;
    }
    if (isa<CXXThisExpr>(e)) return mk("this");
    if (auto *i = dyn_cast<IntegerLiteral>(e)) { Object o = mk("lit"); llvm::SmallString<32> s; i->getValue().toStringUnsigned(s); 
      if (i->getValue().getActiveBits() <= 62) o["v"] = (int64_t)i->getValue().getZExtValue(); else o["v"] = s.str().str(); o["lk"] = "int"; return o; }
    if (auto *f = dyn_cast<FloatingLiteral>(e)) { Object o = mk("lit"); o["v"] = f->getValueAsApproximateDouble(); o["lk"] = "float"; return o; }
    if (auto *b = dyn_cast<CXXBoolLiteralExpr>(e)) { Object o = mk("lit"); o["v"] = b->getValue(); o["lk"] = "bool"; return o; }
    if (auto *s = dyn_cast<StringLiteral>(e)) { Object o = mk("lit"); std::string str = s->isOrdinary() ? s->getString().str() : "?"; 
      if (!llvm::json::isUTF8(str)) str = llvm::json::fixUTF8(str); o["v"] = str; o["lk"] = "str"; return o; }
    if (auto *ch = dyn_cast<CharacterLiteral>(e)) { Object o = mk("lit"); o["v"] = (int64_t)ch->getValue(); o["lk"] = "char"; return o; }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { Object o = mk("lit"); o["v"] = nullptr; o["lk"] = "null"; return o; }
    if (auto *pd = dyn_cast<PredefinedExpr>(e)) { Object o = mk("lit"); o["v"] = "__func__"; o["lk"] = "str"; return o; }
    if (auto *a = dyn_cast<ArraySubscriptExpr>(e)) { Object o = mk("sub"); o["b"] = E(a->getBase()); o["i"] = E(a->getIdx()); return o; }
    if (auto *u = dyn_cast<UnaryOperator>(e)) {
      Object o = mk("un"); o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
      if (u->isPostfix()) o["post"] = true;
      o["e"] = E(u->getSubExpr()); return o;
    }
    if (auto *b = dyn_cast<BinaryOperator>(e)) {
      Object o = mk(b->isAssignmentOp() ? "asg" : "bin");
      o["op"] = b->getOpcodeStr().str();
      o["a"] = E(b->getLHS()); o["b"] = E(b->getRHS()); return o;
    }
    if (auto *c = dyn_cast<ConditionalOperator>(e)) {
      Object o = mk("cond"); o["c"] = E(c->getCond()); o["a"] = E(c->getTrueExpr()); o["b"] = E(c->getFalseExpr()); return o;
    }
    if (auto *n = dyn_cast<CXXNewExpr>(e)) {
      Object o = mk("new"); o["at"] = ty(n->getAllocatedType());
      if (n->isArray()) { o["arr"] = n->getArraySize() ? E(*n->getArraySize()) : Value(nullptr); }
      if (n->getNumPlacementArgs()) o["placement"] = true;
      if (n->hasInitializer()) o["init"] = E(n->getInitializer());
      else if (auto *ce = n->getConstructExpr()) o["init"] = E(ce);
      return o;
    }
    if (auto *d = dyn_cast<CXXDeleteExpr>(e)) { Object o = mk("delete"); o["e"] = E(d->getArgument()); o["arr"] = d->isArrayForm(); return o; }
    if (auto *il = dyn_cast<InitListExpr>(e)) {
      if (il->isSemanticForm() == false && il->getSemanticForm()) il = il->getSemanticForm();
      Object o = mk("il"); Array a; for (auto *x : il->inits()) a.push_back(E(x)); o["a"] = std::move(a); return o;
    }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) { return mk("zero"); }
    if (auto *l = dyn_cast<LambdaExpr>(e)) {
      Object o = mk("lambda");
      const CXXMethodDecl *M = l->getCallOperator();
      o["f"] = fid(M);
      Array caps;
      for (auto &cap : l->captures()) {
        Object co;
        if (cap.capturesThis()) co["this"] = true;
        else if (cap.capturesVariable()) { co["d"] = vid(cap.getCapturedVar()); co["n"] = cap.getCapturedVar()->getNameAsString(); co["ref"] = cap.getCaptureKind() == LCK_ByRef; 
          if (l->isInitCapture(&cap)) { if (auto *V = dyn_cast<VarDecl>(cap.getCapturedVar())) co["init"] = E(V->getInit()); } }
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      Array ps;
      for (auto *P : M->parameters()) ps.push_back(Object{{"d", vid(P)}, {"n", P->getNameAsString()}, {"t", ty(P->getType())}});
      o["ps"] = std::move(ps);
      o["body"] = M->isDependentContext() ? Value(nullptr) : S(l->getBody());
      // generic lambdas: dump instantiations of operator()
      if (auto *FT = M->getDescribedFunctionTemplate()) {
        Array sp;
        for (auto *s : FT->specializations()) {
          if (!s->hasBody()) continue;
          Array ps2;
          for (auto *P : s->parameters()) ps2.push_back(Object{{"d", vid(P)}, {"n", P->getNameAsString()}, {"t", ty(P->getType())}});
          sp.push_back(Object{{"f", fid(s)}, {"ps", std::move(ps2)}, {"body", S(s->getBody())}});
        }
        o["specs"] = std::move(sp);
      }
      return o;
    }
    if (auto *t = dyn_cast<CXXThrowExpr>(e)) { Object o = mk("throw"); if (t->getSubExpr()) o["e"] = E(t->getSubExpr()); return o; }
    if (auto *s = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      Object o = mk("lit"); Expr::EvalResult R;
      if (e->EvaluateAsInt(R, C)) { o["v"] = R.Val.getInt().getExtValue(); o["lk"] = "int"; o["sizeof"] = s->isArgumentType() ? ty(s->getArgumentType()) : ty(s->getArgumentExpr()->getType()); return o; }
      return un(e, "sizeof");
    }
    if (isa<TypeTraitExpr>(e) || isa<CXXNoexceptExpr>(e) || isa<SizeOfPackExpr>(e)) {
      Expr::EvalResult R; Object o = mk("lit");
      if (e->EvaluateAsInt(R, C)) { o["v"] = R.Val.getInt().getExtValue(); o["lk"] = "int"; return o; }
      return un(e, "trait");
    }
    if (auto *ai = dyn_cast<ArrayInitLoopExpr>(e)) return un(e, "arrayinit");
    if (auto *ov = dyn_cast<OpaqueValueExpr>(e)) return E(ov->getSourceExpr());
    if (auto *rw = dyn_cast<CXXRewrittenBinaryOperator>(e)) return E(rw->getSemanticForm());
    return un(e, "expr");
  }

  Object var(const VarDecl *V) {
    Object o{{"d", vid(V)}, {"n", V->getNameAsString()}, {"t", ty(V->getType())}, {"l", line(V->getLocation())}};
    if (V->getInit()) o["init"] = E(V->getInit());
    if (V->isStaticLocal()) o["static"] = true;
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      Array b;
      for (auto *B : DD->bindings()) {
        Object bo{{"d", vid(B)}, {"n", B->getNameAsString()}, {"t", ty(B->getType())}};
        if (auto *ME = dyn_cast_or_null<MemberExpr>(B->getBinding() ? B->getBinding()->IgnoreParenImpCasts() : nullptr))
          bo["field"] = ME->getMemberDecl()->getNameAsString();
        b.push_back(std::move(bo));
      }
      o["binds"] = std::move(b);
    }
    return o;
  }

  Value S(const Stmt *s) {
    if (!s) return nullptr;
    int ln = line(s->getBeginLoc());
    auto mk = [&](const char *k) { return Object{{"k", k}, {"l", ln}}; };
    if (auto *e = dyn_cast<Expr>(s)) { Object o = mk("expr"); o["e"] = E(e); return o; }
    if (auto *b = dyn_cast<CompoundStmt>(s)) { Object o = mk("block"); Array a; for (auto *x : b->body()) a.push_back(S(x)); o["b"] = std::move(a); o["el"] = line(b->getEndLoc()); return o; }
    if (auto *d = dyn_cast<DeclStmt>(s)) {
      Object o = mk("decl"); Array a;
      for (auto *D : d->decls()) if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(var(V));
      o["v"] = std::move(a); return o;
    }
    if (auto *i = dyn_cast<IfStmt>(s)) {
      if (i->isConstexpr()) {
        Expr::EvalResult R;
        if (i->getCond() && !i->getCond()->isValueDependent() && i->getCond()->EvaluateAsRValue(R, C) && R.Val.isInt()) {
          const Stmt *t = R.Val.getInt().getBoolValue() ? i->getThen() : i->getElse();
          if (!t) return mk("null");
          return S(t);
        }
      }
      Object o = mk("if");
      if (i->getInit()) o["init"] = S(i->getInit());
      if (i->getConditionVariable()) o["cv"] = var(i->getConditionVariable());
      o["c"] = E(i->getCond()); o["a"] = S(i->getThen()); o["b"] = S(i->getElse()); return o;
    }
    if (auto *f = dyn_cast<ForStmt>(s)) { Object o = mk("for"); o["init"] = S(f->getInit()); o["c"] = E(f->getCond()); o["inc"] = f->getInc() ? E(f->getInc()) : Value(nullptr); o["b"] = S(f->getBody()); 
      if (f->getConditionVariable()) o["cv"] = var(f->getConditionVariable()); return o; }
    if (auto *w = dyn_cast<WhileStmt>(s)) { Object o = mk("while"); o["c"] = E(w->getCond()); o["b"] = S(w->getBody()); if (w->getConditionVariable()) o["cv"] = var(w->getConditionVariable()); return o; }
    if (auto *d = dyn_cast<DoStmt>(s)) { Object o = mk("do"); o["c"] = E(d->getCond()); o["b"] = S(d->getBody()); return o; }
    if (auto *r = dyn_cast<CXXForRangeStmt>(s)) {
      Object o = mk("rfor"); o["v"] = var(r->getLoopVariable()); 
      if (auto *lv = o["v"].getAsObject()) lv->erase("init");
      o["r"] = E(r->getRangeInit()); o["b"] = S(r->getBody());
      if (r->getInit()) o["init"] = S(r->getInit());
      return o;
    }
    if (auto *sw = dyn_cast<SwitchStmt>(s)) { Object o = mk("switch"); o["c"] = E(sw->getCond()); o["b"] = S(sw->getBody()); 
      if (sw->getInit()) o["init"] = S(sw->getInit()); if (sw->getConditionVariable()) o["cv"] = var(sw->getConditionVariable()); return o; }
    if (auto *c = dyn_cast<CaseStmt>(s)) { Object o = mk("case"); o["c"] = E(c->getLHS()); 
      Expr::EvalResult R; if (!c->getLHS()->isValueDependent() && c->getLHS()->EvaluateAsInt(R, C)) o["v"] = R.Val.getInt().getExtValue();
      o["b"] = S(c->getSubStmt()); return o; }
    if (auto *c = dyn_cast<DefaultStmt>(s)) { Object o = mk("default"); o["b"] = S(c->getSubStmt()); return o; }
    if (isa<BreakStmt>(s)) return mk("break");
    if (isa<ContinueStmt>(s)) return mk("continue");
    if (auto *r = dyn_cast<ReturnStmt>(s)) { Object o = mk("ret"); if (r->getRetValue()) o["e"] = E(r->getRetValue()); return o; }
    if (isa<NullStmt>(s)) return mk("null");
    if (auto *t = dyn_cast<CXXTryStmt>(s)) {
      Object o = mk("try"); o["b"] = S(t->getTryBlock()); Array h;
      for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
        auto *H = t->getHandler(i); Object ho;
        if (H->getExceptionDecl()) { ho["t"] = ty(H->getCaughtType()); ho["v"] = var(H->getExceptionDecl()); }
        else ho["all"] = true;
        ho["b"] = S(H->getHandlerBlock()); ho["l"] = line(H->getBeginLoc());
        h.push_back(std::move(ho));
      }
      o["h"] = std::move(h); return o;
    }
    if (auto *om = dyn_cast<OMPExecutableDirective>(s)) {
      Object o = mk("omp"); o["dir"] = llvm::omp::getOpenMPDirectiveName(om->getDirectiveKind()).str();
      Array cl;
      for (auto *c : om->clauses()) {
        Object co{{"c", llvm::omp::getOpenMPClauseName(c->getClauseKind()).str()}};
        Array vs;
        for (auto *ch : c->children()) if (auto *e = dyn_cast_or_null<Expr>(ch)) vs.push_back(E(e));
        co["v"] = std::move(vs); cl.push_back(std::move(co));
      }
      o["cl"] = std::move(cl);
      if (om->hasAssociatedStmt()) {
        const Stmt *b = om->getAssociatedStmt();
        while (auto *cs = dyn_cast<CapturedStmt>(b)) b = cs->getCapturedStmt();
        o["b"] = S(b);
      }
      return o;
    }
    if (auto *a = dyn_cast<AttributedStmt>(s)) return S(a->getSubStmt());
    if (auto *l = dyn_cast<LabelStmt>(s)) { Object o = mk("label"); o["n"] = l->getName(); o["b"] = S(l->getSubStmt()); return o; }
    if (auto *g = dyn_cast<GotoStmt>(s)) { Object o = mk("goto"); o["n"] = g->getLabel()->getNameAsString(); return o; }
    if (auto *cs = dyn_cast<CapturedStmt>(s)) return S(cs->getCapturedStmt());
    return un(s, "stmt");
  }

  void noteGlobal(const VarDecl *V) {
    const VarDecl *D = V;
    std::string k = vid(V);
    if (Globals.find(k) != Globals.end()) return;
    Globals[k] = Object{{"q", qn(V)}};
    Object o{{"q", qn(V)}, {"t", ty(V->getType())}, {"const", V->getType().isConstQualified()}};
    const Expr *I = V->getAnyInitializer(D);
    if (I && !I->isValueDependent() && inRoot(V->getLocation())) {
      o["init"] = E(I);
      Expr::EvalResult R;
      if (V->getType()->isIntegralOrEnumerationType() && I->EvaluateAsInt(R, C)) o["v"] = R.Val.getInt().getExtValue();
    }
    o["file"] = fileOf(V->getLocation()); o["line"] = line(V->getLocation());
    Globals[k] = std::move(o);
  }

  void dumpFunction(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() && !F->isDefaulted()) return;
    if (F->isDependentContext()) return;
    if (!inRoot(F->getLocation())) return;
    if (!F->hasBody()) return;
    if (!Done.insert(F->getCanonicalDecl()).second) return;
    Object o;
    calleeInfo(o, F);
    o["file"] = fileOf(F->getLocation());
    o["line"] = line(F->getLocation());
    o["ret"] = ty(F->getReturnType());
    Array ps;
    for (auto *P : F->parameters()) {
      Object po{{"d", vid(P)}, {"n", P->getNameAsString()}, {"t", ty(P->getType())}};
      if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) po["def"] = E(P->getDefaultArg());
      ps.push_back(std::move(po));
    }
    o["ps"] = std::move(ps);
    if (F->isImplicit() || F->isDefaulted()) o["implicit"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["access"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      if (auto *R = M->getParent()) if (R->isLambda()) o["islambda"] = true;
      if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
        o["kind"] = "ctor";
        if (CD->isCopyConstructor()) o["copy"] = true;
        if (CD->isMoveConstructor()) o["move"] = true;
        Array in;
        for (auto *I : CD->inits()) {
          Object io;
          if (I->isAnyMemberInitializer()) io["field"] = I->getAnyMember()->getNameAsString();
          else if (I->isDelegatingInitializer()) io["delegate"] = true;
          else if (I->isBaseInitializer()) io["base"] = ty(QualType(I->getBaseClass(), 0));
          io["init"] = E(I->getInit()); io["l"] = line(I->getSourceLocation());
          in.push_back(std::move(io));
        }
        o["inits"] = std::move(in);
      } else if (isa<CXXDestructorDecl>(F)) o["kind"] = "dtor";
      else if (isa<CXXConversionDecl>(F)) o["kind"] = "conv";
      if (M->isConst()) o["const"] = true;
      if (M->isStatic()) o["static"] = true;
      if (M->isCopyAssignmentOperator()) o["copyasg"] = true;
      if (M->isMoveAssignmentOperator()) o["moveasg"] = true;
    }
    o["body"] = S(F->getBody());
    Funcs[fid(F)] = std::move(o);
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isTemplated() && F->isDependentContext()) {
      if (F->hasBody() && inRoot(F->getLocation()))
        Templates.push_back(Object{{"q", qn(F)}, {"file", fileOf(F->getLocation())}, {"line", line(F->getLocation())}});
      return true;
    }
    dumpFunction(F);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->isFileVarDecl() && inRoot(V->getLocation()) && !V->getDeclContext()->isDependentContext() && !V->getType()->isDependentType()) noteGlobal(V);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *D) {
    if (!inRoot(D->getLocation())) return true;
    Array a;
    for (auto *c : D->enumerators()) a.push_back(Object{{"n", c->getNameAsString()}, {"v", c->getInitVal().getExtValue()}});
    Enums[qn(D)] = std::move(a);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext()) return true;
    SourceLocation RL = R->getLocation();
    if (auto *Pt = R->getTemplateInstantiationPattern()) RL = Pt->getLocation();
    if (!inRoot(RL)) return true;
    Array fs, bs, ms;
    for (auto *f : R->fields()) {
      Object fo{{"n", f->getNameAsString()}, {"t", ty(f->getType())}, {"l", line(f->getLocation())}};
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = E(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    for (auto &b : R->bases()) bs.push_back(ty(b.getType()));
    for (auto *m : R->methods()) {
      ms.push_back(Object{{"n", m->getNameAsString()}, {"f", fid(m)}, {"const", m->isConst()}, {"ret", ty(m->getReturnType())},
        {"access", m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private"}, {"implicit", m->isImplicit()}, {"deleted", m->isDeleted()}});
    }
    Records[ty(C.getRecordType(R))] = Object{{"q", qn(R)}, {"fields", std::move(fs)}, {"bases", std::move(bs)}, {"methods", std::move(ms)}, {"file", fileOf(RL)}, {"line", line(RL)}};
    return true;
  }
};

// Collects function templates under the roots so that they can be instantiated with the types named in
// namespace astdump_inst (one alias per template parameter name).
class TemplCollector : public RecursiveASTVisitor<TemplCollector> {
 public:
  Dumper &D; std::vector<FunctionTemplateDecl *> L;
  explicit TemplCollector(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitFunctionTemplateDecl(FunctionTemplateDecl *F) {
    if (!D.inRoot(F->getLocation())) return true;
    if (F->getDeclContext()->isDependentContext()) return true;
    if (auto *R = dyn_cast<CXXRecordDecl>(F->getDeclContext())) if (R->isLambda()) return true;
    if (F->getCanonicalDecl() != F) return true;
    { bool def = F->getTemplatedDecl()->getTemplateInstantiationPattern(false) || F->getTemplatedDecl()->hasBody(); if (F->getInstantiatedFromMemberTemplate()) def = true; if (!def) return true; }
    L.push_back(F);
    return true;
  }
};
static void instantiateAll(CompilerInstance &CI, ASTContext &Ctx, Dumper &D) {
  std::map<std::string, QualType> M;
  for (auto *X : Ctx.getTranslationUnitDecl()->decls())
    if (auto *N = dyn_cast<NamespaceDecl>(X)) if (N->getName() == "astdump_inst")
      for (auto *Y : N->decls()) if (auto *T = dyn_cast<TypedefNameDecl>(Y)) M[T->getNameAsString()] = T->getUnderlyingType();
  if (M.empty()) return;
  Sema &S = CI.getSema();
  Scope Sc(nullptr, Scope::DeclScope, CI.getDiagnostics());
  Sc.setEntity(Ctx.getTranslationUnitDecl());
  S.TUScope = &Sc;
  TemplCollector TC(D);
  TC.TraverseDecl(Ctx.getTranslationUnitDecl());
  // instantiating can make unsuitable substitutions; those are reported as notes of the analysis, not as errors of the program
  for (auto *F : TC.L) {
    std::vector<std::vector<TemplateArgument>> sets(1);
    bool ok = true;
    for (auto *P : *F->getTemplateParameters()) {
      if (auto *T = dyn_cast<TemplateTypeParmDecl>(P)) {
        auto it = M.find(F->getNameAsString() + "__" + T->getNameAsString());
        if (it == M.end()) it = M.find(T->getNameAsString());
        if (it == M.end()) { ok = false; break; }
        for (auto &v : sets) v.push_back(TemplateArgument(it->second));
      } else if (auto *N = dyn_cast<NonTypeTemplateParmDecl>(P)) {
        std::vector<std::vector<TemplateArgument>> n2;
        if (!N->getType()->isCharType()) { ok = false; break; }
        for (char c : {'l', 'r'}) for (auto v : sets) {
          v.push_back(TemplateArgument(Ctx, llvm::APSInt(llvm::APInt(8, (uint64_t)c), false), N->getType()));
          n2.push_back(v);
        }
        sets = n2;
      } else ok = false;
    }
    if (!ok) { llvm::errs() << "astdump: not instantiated " << F->getNameAsString() << "\n"; continue; }
    for (auto &v : sets) {
      auto *TL = TemplateArgumentList::CreateCopy(Ctx, v);
      FunctionDecl *FD = S.InstantiateFunctionDeclaration(F, TL, F->getLocation());
      if (!FD) { llvm::errs() << "astdump: not instantiated " << F->getNameAsString() << "\n"; continue; }
      S.InstantiateFunctionDefinition(F->getLocation(), FD, true, true, true);
    }
  }
  S.PerformPendingInstantiations();
  S.TUScope = nullptr;
}

class Consumer : public ASTConsumer {
 public:
  CompilerInstance &CI;
  explicit Consumer(CompilerInstance &c) : CI(c) {}
  void HandleTranslationUnit(ASTContext &Ctx) override {
    Dumper D(Ctx);
    instantiateAll(CI, Ctx, D);
    D.TraverseDecl(Ctx.getTranslationUnitDecl());
    Object top{{"functions", std::move(D.Funcs)}, {"records", std::move(D.Records)}, {"globals", std::move(D.Globals)},
               {"enums", std::move(D.Enums)}, {"templates", std::move(D.Templates)},
               {"errors", (int64_t)CI.getDiagnostics().getClient()->getNumErrors()}};
    std::error_code EC;
    llvm::raw_fd_ostream os(OutFile, EC);
    os << Value(std::move(top));
  }
};
class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    CI.getFrontendOpts().SkipFunctionBodies = false;
    return std::make_unique<Consumer>(CI);
  }
};
struct Factory : public tooling::FrontendActionFactory {
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};
}  // namespace

// usage: astdump OUT.json ROOT[,ROOT..] EXCLUDE[,..] FILE.cpp -- clang args
static std::vector<std::string> split(std::string s) {
  std::vector<std::string> r; size_t p;
  while ((p = s.find(',')) != std::string::npos) { if (p) r.push_back(s.substr(0, p)); s = s.substr(p + 1); }
  if (!s.empty()) r.push_back(s);
  return r;
}
int main(int argc, const char **argv) {
  if (argc < 6) { llvm::errs() << "usage\n"; return 64; }
  OutFile = argv[1];
  Roots = split(argv[2]);
  Excludes = split(argv[3]);
  std::vector<std::string> args(argv + 6, argv + argc);
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool T(DB, {argv[4]});
  Factory F;
  return T.run(&F);
}
