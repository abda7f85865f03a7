// tqfacts: exports the resolved program (type-checked clang AST, template
// instantiations included) of the given translation units as JSON lines.
// One line per record / function.  No behaviour is judged here.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace clang;
using llvm::json::Value; using llvm::json::Object; using llvm::json::Array;

static std::vector<std::string> Roots;
static llvm::raw_ostream* OUT;
static std::set<std::string> Done;

struct Exporter : RecursiveASTVisitor<Exporter> {
  ASTContext& C; SourceManager& SM; PrintingPolicy PP;
  std::map<const Decl*, int> ids; int next = 1;
  std::vector<const CXXRecordDecl*> lambdas;
  Exporter(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.Bool = true;
    PP.PrintCanonicalTypes = true; PP.SuppressDefaultTemplateArgs = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return true; }

  int id(const Decl* d) { d = d->getCanonicalDecl(); auto it = ids.find(d); if (it != ids.end()) return it->second; return ids[d] = next++; }
  std::string ty(QualType q) { return q.isNull() ? "" : q.getCanonicalType().getAsString(PP); }
  std::string loc(SourceLocation l) {
    l = SM.getExpansionLoc(l); if (l.isInvalid()) return "";
    auto p = SM.getPresumedLoc(l); if (p.isInvalid()) return "";
    return std::string(p.getFilename()) + ":" + std::to_string(p.getLine());
  }
  bool inRoot(SourceLocation l) {
    l = SM.getExpansionLoc(l); if (l.isInvalid()) return false;
    auto f = SM.getFilename(l); for (auto& r : Roots) if (f.starts_with(r)) return true; return false;
  }
  std::string recName(const CXXRecordDecl* r) {
    if (r->isLambda()) return "lambda@" + loc(r->getBeginLoc()) + "#" + std::to_string(id(r));
    return ty(C.getRecordType(r));
  }
  std::string fname(const FunctionDecl* f) {
    std::string s;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) { s = recName(m->getParent()) + "::"; 
      s += isa<CXXConstructorDecl>(f) ? "ctor" : isa<CXXDestructorDecl>(f) ? "dtor" : f->getNameAsString();
    } else s = f->getQualifiedNameAsString();
    if (auto* ta = f->getTemplateSpecializationArgs()) {
      s += "<"; bool first = true;
      for (auto& a : ta->asArray()) { if (!first) s += ","; first = false; std::string t; llvm::raw_string_ostream os(t); a.print(PP, os, true); s += os.str(); }
      s += ">";
    }
    s += "(";
    for (unsigned i = 0; i < f->getNumParams(); ++i) { if (i) s += ","; s += ty(f->getParamDecl(i)->getType()); }
    s += ")";
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->isConst()) s += "const";
    return s;
  }
  std::string shortName(const FunctionDecl* f) {
    if (isa<CXXConstructorDecl>(f)) return "ctor"; if (isa<CXXDestructorDecl>(f)) return "dtor";
    return f->getNameAsString();
  }
  Object fref(const FunctionDecl* f) {
    Object o; o["f"] = fname(f); o["n"] = shortName(f);
    std::string cls;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) { auto* p = m->getParent(); cls = p->isLambda() ? recName(p) : p->getQualifiedNameAsString();
      if (m->isConst()) o["const"] = true; if (m->isVirtual()) o["virt"] = true; if (m->isStatic()) o["static"] = true; 
      if (m->isImplicit() || m->isDefaulted()) o["impl"] = true; }
    else { auto q = f->getQualifiedNameAsString(); auto p = q.rfind("::"); cls = p == std::string::npos ? "" : q.substr(0, p); }
    o["q"] = cls.empty() ? shortName(f) : cls + "::" + shortName(f);
    if (f->isNoReturn()) o["noret"] = true;
    Array pr; for (auto* p : f->parameters()) { auto t = p->getType(); pr.push_back(t->isReferenceType() ? (t->getPointeeType().isConstQualified() ? "cref" : "ref") : t->isPointerType() ? "ptr" : "val"); }
    o["pk"] = std::move(pr);
    return o;
  }

  Value L(const Stmt* s) { return loc(s->getBeginLoc()); }

  Value ex(const Expr* e) {
    if (!e) return nullptr;
    if (auto* x = dyn_cast<ExprWithCleanups>(e)) return ex(x->getSubExpr());
    if (auto* x = dyn_cast<ParenExpr>(e)) return ex(x->getSubExpr());
    if (auto* x = dyn_cast<ConstantExpr>(e)) return ex(x->getSubExpr());
    if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) return ex(x->getSubExpr());
    if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return ex(x->getSubExpr());
    if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return ex(x->getReplacement());
    if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) { return ex(x->getExpr()); }
    if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) { return ex(x->getExpr()); }
    if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) return ex(x->getSubExpr());
    Object o; o["l"] = L(e);
    if (auto* x = dyn_cast<CastExpr>(e)) {
      switch (x->getCastKind()) {
        case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_IntegralCast:
        case CK_FloatingCast: case CK_IntegralToBoolean: case CK_FloatingToBoolean:
        case CK_PointerToBoolean: case CK_Dynamic: case CK_BaseToDerived: case CK_ToVoid:
        case CK_NullToPointer: case CK_BitCast:
          o["k"] = "cast"; o["c"] = x->getCastKindName(); o["e"] = ex(x->getSubExpr()); o["t"] = ty(x->getType());
          o["st"] = ty(x->getSubExpr()->getType());
          return Value(std::move(o));
        default: return ex(x->getSubExpr());   // l-to-rvalue, decay, user conversions, derived-to-base ...
      }
    }
    o["t"] = ty(e->getType());
    if (e->isLValue()) o["lv"] = true;
    if (auto* x = dyn_cast<IntegerLiteral>(e)) { o["k"] = "int"; llvm::SmallString<32> s; x->getValue().toString(s, 10, x->getType()->isSignedIntegerType()); o["v"] = std::string(s); return Value(std::move(o)); }
    if (auto* x = dyn_cast<FloatingLiteral>(e)) { o["k"] = "float"; llvm::SmallString<40> s; x->getValue().toString(s); o["v"] = std::string(s); return Value(std::move(o)); }
    if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"] = "bool"; o["v"] = x->getValue(); return Value(std::move(o)); }
    if (auto* x = dyn_cast<CharacterLiteral>(e)) { o["k"] = "int"; o["ch"] = true; o["v"] = std::to_string(x->getValue()); return Value(std::move(o)); }
    if (auto* x = dyn_cast<StringLiteral>(e)) { o["k"] = "str"; o["v"] = x->isOrdinary() ? x->getString().str() : std::string("?"); return Value(std::move(o)); }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "null"; return Value(std::move(o)); }
    if (isa<CXXThisExpr>(e)) { o["k"] = "this"; return Value(std::move(o)); }
    if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      auto* d = x->getDecl(); o["name"] = d->getNameAsString();
      if (auto* ec = dyn_cast<EnumConstantDecl>(d)) { o["k"] = "enum"; o["q"] = ec->getQualifiedNameAsString(); llvm::SmallString<32> s; ec->getInitVal().toString(s, 10); o["v"] = std::string(s); return Value(std::move(o)); }
      if (auto* f = dyn_cast<FunctionDecl>(d)) { o["k"] = "fref"; o["f"] = fref(f); return Value(std::move(o)); }
      if (auto* b = dyn_cast<BindingDecl>(d); b && b->getHoldingVar()) {
        auto* dd = cast<DecompositionDecl>(b->getDecomposedDecl());
        int ix = 0, n = 0;
        for (auto* y : dd->bindings()) { if (y == b) ix = n; ++n; }
        std::string dt = ty(dd->getType());
        if (n == 2 && dt.find("std::pair<") != std::string::npos) {
          Object r; r["k"] = "ref"; r["id"] = id(dd); r["name"] = ""; r["t"] = ty(dd->getType().getNonReferenceType()); r["lv"] = true; r["l"] = loc(e->getBeginLoc());
          o["k"] = "mem"; o["b"] = std::move(r); o["n"] = ix ? "second" : "first"; o["o"] = "std::pair"; o["ft"] = ty(b->getType().getNonReferenceType());
        } else o["k"] = "unk";
        return Value(std::move(o)); }
      if (auto* b = dyn_cast<BindingDecl>(d)) { o["k"] = "bind"; o["e"] = ex(b->getBinding()); return Value(std::move(o)); }
      o["k"] = "ref"; o["id"] = id(d);
      if (auto* v = dyn_cast<VarDecl>(d)) {
        if (v->hasGlobalStorage() && !v->isStaticLocal()) { o["g"] = v->getQualifiedNameAsString();
          if (v->getType().isConstQualified() || v->isConstexpr()) if (auto* i = v->getAnyInitializer()) { if (!i->isValueDependent()) o["init"] = cval(i); } }
      }
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<MemberExpr>(e)) {
      auto* d = x->getMemberDecl();
      if (auto* f = dyn_cast<FieldDecl>(d)) {
        o["k"] = "mem"; o["b"] = ex(x->getBase()); o["n"] = f->getNameAsString(); o["o"] = f->getParent()->getQualifiedNameAsString();
        o["ft"] = ty(f->getType());
        return Value(std::move(o));
      }
      if (auto* v = dyn_cast<VarDecl>(d)) { o["k"] = "ref"; o["id"] = id(v); o["name"] = v->getNameAsString(); o["g"] = v->getQualifiedNameAsString(); return Value(std::move(o)); }
      if (auto* f = dyn_cast<FunctionDecl>(d)) { o["k"] = "mref"; o["b"] = ex(x->getBase()); o["f"] = fref(f); return Value(std::move(o)); }
      if (auto* ec = dyn_cast<EnumConstantDecl>(d)) { o["k"] = "enum"; o["q"] = ec->getQualifiedNameAsString(); llvm::SmallString<32> s; ec->getInitVal().toString(s, 10); o["v"] = std::string(s); return Value(std::move(o)); }
    }
    if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      auto* f = x->getDirectCallee();
      o["k"] = "call"; o["op"] = getOperatorSpelling(x->getOperator());
      if (f) o["f"] = fref(f);
      Array a; unsigned st = 0;
      if (f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic()) { o["o"] = ex(x->getArg(0)); st = 1; }
      for (unsigned i = st; i < x->getNumArgs(); ++i) a.push_back(ex(x->getArg(i)));
      o["a"] = std::move(a); return Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "call";
      if (auto* f = x->getMethodDecl()) { 
        o["f"] = fref(f);
        if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) if (me->hasQualifier()) o["qual"] = true;
      }
      o["o"] = ex(x->getImplicitObjectArgument());
      Array a; for (auto* p : x->arguments()) a.push_back(ex(p)); o["a"] = std::move(a); return Value(std::move(o));
    }
    if (auto* x = dyn_cast<CallExpr>(e)) {
      o["k"] = "call";
      if (auto* f = x->getDirectCallee()) o["f"] = fref(f); else o["fx"] = ex(x->getCallee());
      Array a; for (auto* p : x->arguments()) a.push_back(ex(p)); o["a"] = std::move(a); return Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(e)) {   // also CXXTemporaryObjectExpr
      o["k"] = "ctor"; o["f"] = fref(x->getConstructor());
      if (x->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = true;
      Array a; for (auto* p : x->arguments()) a.push_back(ex(p)); o["a"] = std::move(a); 
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { o["k"] = "ctor"; o["f"] = fref(x->getConstructor()); o["a"] = Array(); return Value(std::move(o)); }
    if (auto* x = dyn_cast<InitListExpr>(e)) {
      o["k"] = "ilist"; Array a; for (auto* p : x->inits()) a.push_back(ex(p)); o["a"] = std::move(a); 
      if (auto* r = x->getType()->getAsCXXRecordDecl()) { Array fs; for (auto* f : r->fields()) fs.push_back(f->getNameAsString()); o["fields"] = std::move(fs); }
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXNewExpr>(e)) { o["k"] = "new"; o["nt"] = ty(x->getAllocatedType()); o["e"] = x->getInitializer() ? ex(x->getInitializer()) : Value(nullptr); 
      if (!x->getInitializer() && x->getConstructExpr()) o["e"] = ex(x->getConstructExpr()); return Value(std::move(o)); }
    if (auto* x = dyn_cast<CXXDeleteExpr>(e)) { o["k"] = "delete"; o["t"] = ty(x->getDestroyedType()); o["e"] = ex(x->getArgument()); return Value(std::move(o)); }
    if (auto* x = dyn_cast<UnaryOperator>(e)) { o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()); if (x->isPostfix()) o["post"] = true; o["e"] = ex(x->getSubExpr()); return Value(std::move(o)); }
    if (auto* x = dyn_cast<BinaryOperator>(e)) { o["k"] = "bin"; o["op"] = x->getOpcodeStr(); o["a"] = ex(x->getLHS()); o["b"] = ex(x->getRHS()); 
      o["at"] = ty(x->getLHS()->getType()); o["bt"] = ty(x->getRHS()->getType()); return Value(std::move(o)); }
    if (auto* x = dyn_cast<ConditionalOperator>(e)) { o["k"] = "cond"; o["c"] = ex(x->getCond()); o["a"] = ex(x->getTrueExpr()); o["b"] = ex(x->getFalseExpr()); return Value(std::move(o)); }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) { o["k"] = "sub"; o["a"] = ex(x->getBase()); o["b"] = ex(x->getIdx()); return Value(std::move(o)); }
    if (auto* x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "lambda"; o["f"] = fname(x->getCallOperator());
      auto* op = x->getCallOperator();
      Array ps; for (auto* p : op->parameters()) ps.push_back(param(p)); o["params"] = std::move(ps);
      o["rt"] = ty(op->getReturnType());
      Array caps; for (auto& cp : x->captures()) { Object c; if (cp.capturesThis()) c["this"] = true; else if (cp.capturesVariable()) { c["id"] = id(cp.getCapturedVar()); c["ref"] = cp.getCaptureKind() == LCK_ByRef; } caps.push_back(std::move(c)); }
      o["caps"] = std::move(caps);
      if (auto* td = op->getDescribedFunctionTemplate()) {
        // generic lambda: the bodies of its instantiations
        o["body"] = Value(nullptr);
        Array is;
        if (!x->getLambdaClass()->isDependentContext()) for (auto* sp : td->specializations()) if (sp->getBody()) {
          Object y; y["f"] = fname(sp); Array qs; for (auto* p : sp->parameters()) qs.push_back(param(p)); y["params"] = std::move(qs); y["rt"] = ty(sp->getReturnType()); y["body"] = st(sp->getBody()); is.push_back(std::move(y)); }
        o["insts"] = std::move(is);
      }
      else o["body"] = op->getTemplateInstantiationPattern() || !op->isDependentContext() ? st(x->getBody()) : Value(nullptr);
      return Value(std::move(o));
    }
    if (auto* x = dyn_cast<CXXThrowExpr>(e)) { o["k"] = "throw"; o["e"] = ex(x->getSubExpr()); return Value(std::move(o)); }
    if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { o["k"] = "sizeof"; return Value(std::move(o)); }
    if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) { o["k"] = "zero"; return Value(std::move(o)); }
    if (auto* x = dyn_cast<ArrayInitLoopExpr>(e)) { return ex(x->getCommonExpr()->getSourceExpr()); }
    if (auto* x = dyn_cast<OpaqueValueExpr>(e)) { return ex(x->getSourceExpr()); }
    if (auto* x = dyn_cast<PredefinedExpr>(e)) { o["k"] = "str"; o["v"] = "__func__"; return Value(std::move(o)); }
    if (auto* x = dyn_cast<TypeTraitExpr>(e)) { o["k"] = "bool"; o["v"] = x->getValue(); return Value(std::move(o)); }
    o["k"] = "unk"; o["cls"] = e->getStmtClassName();
    return Value(std::move(o));
  }
  Value cval(const Expr* e) { // initialiser of a constant global: literal when clang can fold it
    Expr::EvalResult r;
    if (e->EvaluateAsRValue(r, C)) {
      Object o; 
      if (r.Val.isInt()) { o["k"] = "int"; llvm::SmallString<32> s; r.Val.getInt().toString(s, 10); o["v"] = std::string(s); return Value(std::move(o)); }
      if (r.Val.isFloat()) { o["k"] = "float"; llvm::SmallString<40> s; r.Val.getFloat().toString(s); o["v"] = std::string(s); return Value(std::move(o)); }
    }
    return nullptr;
  }
  Value param(const ParmVarDecl* p) { Object o; o["id"] = id(p); o["name"] = p->getNameAsString(); o["t"] = ty(p->getType()); 
    if (p->hasDefaultArg() && !p->hasUnparsedDefaultArg() && !p->hasUninstantiatedDefaultArg()) o["def"] = ex(p->getDefaultArg());
    return Value(std::move(o)); }

  Value vardecl(const VarDecl* v) {
    Object o; o["id"] = id(v); o["name"] = v->getNameAsString(); o["t"] = ty(v->getType()); o["l"] = loc(v->getLocation());
    if (v->isStaticLocal()) o["static"] = true;
    if (v->hasInit()) o["init"] = ex(v->getInit());
    if (auto* d = dyn_cast<DecompositionDecl>(v)) { Array b; for (auto* x : d->bindings()) { Object y; y["name"] = x->getNameAsString(); y["id"] = id(x); b.push_back(std::move(y)); } o["binds"] = std::move(b); }
    return Value(std::move(o));
  }
  Value st(const Stmt* s) {
    if (!s) return nullptr;
    if (auto* e = dyn_cast<Expr>(s)) { Object o; o["k"] = "expr"; o["l"] = L(s); o["e"] = ex(e); return Value(std::move(o)); }
    Object o; o["l"] = L(s);
    if (auto* x = dyn_cast<CompoundStmt>(s)) { o["k"] = "block"; Array a; for (auto* c : x->body()) a.push_back(st(c)); o["s"] = std::move(a); return Value(std::move(o)); }
    if (auto* x = dyn_cast<DeclStmt>(s)) { o["k"] = "decl"; Array a; for (auto* d : x->decls()) if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(vardecl(v)); o["v"] = std::move(a); return Value(std::move(o)); }
    if (auto* x = dyn_cast<IfStmt>(s)) {
      if (x->isConstexpr()) if (auto n = x->getNondiscardedCase(C)) return *n ? st(*n) : st((Stmt*)nullptr);
      o["k"] = "if"; o["i"] = st(x->getInit()); if (x->getConditionVariable()) o["cv"] = vardecl(x->getConditionVariable());
      o["c"] = ex(x->getCond()); o["a"] = st(x->getThen()); o["b"] = st(x->getElse()); return Value(std::move(o)); }
    if (auto* x = dyn_cast<ForStmt>(s)) { o["k"] = "for"; o["i"] = st(x->getInit()); o["c"] = ex(x->getCond()); o["inc"] = ex(x->getInc()); o["b"] = st(x->getBody()); return Value(std::move(o)); }
    if (auto* x = dyn_cast<WhileStmt>(s)) { o["k"] = "while"; if (x->getConditionVariable()) o["cv"] = vardecl(x->getConditionVariable()); o["c"] = ex(x->getCond()); o["b"] = st(x->getBody()); return Value(std::move(o)); }
    if (auto* x = dyn_cast<DoStmt>(s)) { o["k"] = "do"; o["c"] = ex(x->getCond()); o["b"] = st(x->getBody()); return Value(std::move(o)); }
    if (auto* x = dyn_cast<CXXForRangeStmt>(s)) { o["k"] = "rfor"; o["v"] = vardecl(x->getLoopVariable()); o["r"] = ex(x->getRangeInit()); o["b"] = st(x->getBody()); return Value(std::move(o)); }
    if (auto* x = dyn_cast<ReturnStmt>(s)) { o["k"] = "ret"; o["e"] = ex(x->getRetValue()); return Value(std::move(o)); }
    if (isa<BreakStmt>(s)) { o["k"] = "break"; return Value(std::move(o)); }
    if (isa<ContinueStmt>(s)) { o["k"] = "continue"; return Value(std::move(o)); }
    if (isa<NullStmt>(s)) { o["k"] = "nop"; return Value(std::move(o)); }
    if (auto* x = dyn_cast<SwitchStmt>(s)) { o["k"] = "switch"; o["c"] = ex(x->getCond()); o["b"] = st(x->getBody()); return Value(std::move(o)); }
    if (auto* x = dyn_cast<CaseStmt>(s)) { o["k"] = "case"; o["c"] = ex(x->getLHS()); o["s"] = st(x->getSubStmt()); return Value(std::move(o)); }
    if (auto* x = dyn_cast<DefaultStmt>(s)) { o["k"] = "default"; o["s"] = st(x->getSubStmt()); return Value(std::move(o)); }
    if (auto* x = dyn_cast<CXXTryStmt>(s)) { o["k"] = "try"; o["b"] = st(x->getTryBlock()); Array a;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) { auto* h = x->getHandler(i); Object c; c["t"] = h->getExceptionDecl() ? ty(h->getCaughtType()) : std::string("..."); if (h->getExceptionDecl()) c["id"] = id(h->getExceptionDecl()); c["b"] = st(h->getHandlerBlock()); a.push_back(std::move(c)); }
      o["h"] = std::move(a); return Value(std::move(o)); }
    if (auto* x = dyn_cast<AttributedStmt>(s)) return st(x->getSubStmt());
    if (auto* x = dyn_cast<LabelStmt>(s)) return st(x->getSubStmt());
    o["k"] = "unk"; o["cls"] = s->getStmtClassName(); return Value(std::move(o));
  }

  void emit(Object&& o, const std::string& key) {
    if (!Done.insert(key).second) return;
    *OUT << Value(std::move(o)) << "\n";
  }

  bool VisitFunctionDecl(FunctionDecl* f) {
    if (!f->doesThisDeclarationHaveABody() || f->isDependentContext()) return true;
    if (!inRoot(f->getLocation())) return true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
    if (f->isDefaulted()) return true;
    std::string n = fname(f); if (Done.count("F" + n)) return true;
    Object o = fref(f); o["K"] = "fun"; o["l"] = loc(f->getLocation());
    o["rt"] = ty(f->getReturnType());
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = m->getParent()->getQualifiedNameAsString(); o["clst"] = recName(m->getParent()); o["acc"] = (int)m->getAccess();
      Array ov; for (auto* b : m->overridden_methods()) ov.push_back(fname(b)); o["over"] = std::move(ov);
    }
    Array ps; for (auto* p : f->parameters()) ps.push_back(param(p)); o["params"] = std::move(ps);
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      Array is; for (auto* i : c->inits()) { Object y; if (i->isAnyMemberInitializer()) { y["m"] = i->getAnyMember()->getNameAsString(); y["mt"] = ty(i->getAnyMember()->getType()); } else if (i->isBaseInitializer()) y["base"] = ty(QualType(i->getBaseClass(), 0)); else y["deleg"] = true;
        y["w"] = i->isWritten(); y["e"] = ex(i->getInit()); is.push_back(std::move(y)); }
      o["inits"] = std::move(is);
    }
    o["body"] = st(f->getBody());
    emit(std::move(o), "F" + n);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda()) return true;
    if (!inRoot(r->getLocation())) return true;
    std::string n = recName(r); if (Done.count("R" + n)) return true;
    Object o; o["K"] = "rec"; o["t"] = n; o["q"] = r->getQualifiedNameAsString(); o["l"] = loc(r->getLocation());
    Array fs; for (auto* f : r->fields()) { Object y; y["n"] = f->getNameAsString(); y["t"] = ty(f->getType()); y["acc"] = (int)f->getAccess(); fs.push_back(std::move(y)); }
    o["fields"] = std::move(fs);
    Array bs; for (auto& b : r->bases()) bs.push_back(ty(b.getType())); o["bases"] = std::move(bs);
    if (auto* d = r->getDestructor()) o["vdtor"] = d->isVirtual(); else o["vdtor"] = false;
    emit(std::move(o), "R" + n);
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    if (!v->hasGlobalStorage() || v->isStaticLocal() || !v->hasInit() || v->getDeclContext()->isDependentContext() || !inRoot(v->getLocation())) return true;
    if (v->getType()->isDependentType() || isa<VarTemplatePartialSpecializationDecl>(v)) return true;
    std::string n = v->getQualifiedNameAsString(); if (Done.count("V" + n)) return true;
    Object o; o["K"] = "gvar"; o["g"] = n; o["t"] = ty(v->getType()); o["l"] = loc(v->getLocation()); o["init"] = ex(v->getInit());
    emit(std::move(o), "V" + n); return true;
  }
  bool VisitEnumDecl(EnumDecl* e) {
    if (!e->isThisDeclarationADefinition() || e->isDependentContext() || !inRoot(e->getLocation())) return true;
    std::string n = e->getQualifiedNameAsString(); if (Done.count("E" + n)) return true;
    Object o; o["K"] = "enum"; o["q"] = n; Array v; for (auto* c : e->enumerators()) v.push_back(c->getNameAsString()); o["v"] = std::move(v);
    emit(std::move(o), "E" + n); return true;
  }
};

struct Consumer : ASTConsumer { void HandleTranslationUnit(ASTContext& C) override { if (C.getDiagnostics().hasErrorOccurred()) return; Exporter(C).TraverseDecl(C.getTranslationUnitDecl()); } };
struct Action : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(); } };

// usage: tqfacts ROOT OUT file... -- flags
int main(int argc, char** argv) {
  { llvm::StringRef a(argv[1]); llvm::SmallVector<llvm::StringRef,4> v; a.split(v, ':'); for (auto r : v) Roots.push_back(r.str()); } std::vector<std::string> files, flags; bool fl = false;
  for (int i = 3; i < argc; ++i) { std::string a = argv[i]; if (!fl && a == "--") { fl = true; continue; } (fl ? flags : files).push_back(a); }
  std::error_code ec; llvm::raw_fd_ostream os(argv[2], ec); OUT = &os;
  tooling::FixedCompilationDatabase db("/", flags);
  tooling::ClangTool tool(db, files);
  int r = tool.run(tooling::newFrontendActionFactory<Action>().get());
  os.flush(); return r;
}
