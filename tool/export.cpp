// AST exporter: parses one translation unit with clang and writes, as JSON, the resolved
// program that belongs to a source directory (default /repo/src): functions (including all
// implicit template instantiations, lambdas and defaulted members), records, globals, types.
// It never executes the program; constants are folded by the frontend only.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> Roots;
static std::string OutFile;

static std::string latin1(llvm::StringRef s) { // bytes -> utf8 codepoints 0..255
  std::string r;
  for (unsigned char c : s) {
    if (c < 0x80) r += (char)c;
    else { r += (char)(0xC0 | (c >> 6)); r += (char)(0x80 | (c & 0x3F)); }
  }
  return r;
}

class Exporter : public RecursiveASTVisitor<Exporter> {
public:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const void *, int> ids;
  int nextId = 1;
  std::map<const void *, int> typeIds;
  std::vector<Value> types;
  Object funcs, records, globals;
  std::set<int> doneF, doneR, doneG;
  std::deque<const FunctionDecl *> queue;

  explicit Exporter(ASTContext &C_) : C(C_), SM(C_.getSourceManager()), PP(C_.getLangOpts()) {
    PP.SuppressInlineNamespace = true; PP.SuppressTagKeyword = true; PP.Bool = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  int id(const void *p) { auto it = ids.find(p); if (it != ids.end()) return it->second; return ids[p] = nextId++; }
  int did(const Decl *d) {
    if (auto *f = dyn_cast<FunctionDecl>(d)) return id(f->getCanonicalDecl());
    return id(d->getCanonicalDecl());
  }
  std::string fileOf(SourceLocation l) {
    auto e = SM.getExpansionLoc(l);
    auto f = SM.getFilename(e);
    return f.str();
  }
  int lineOf(SourceLocation l) { return SM.getExpansionLineNumber(l); }
  bool inRoot(const Decl *d) {
    SourceLocation l = d->getLocation();
    if (l.isInvalid()) return false;
    std::string f = fileOf(l);
    for (auto &r : Roots) if (f.rfind(r, 0) == 0) return true;
    return false;
  }
  bool inRootFn(const FunctionDecl *f) {
    if (inRoot(f)) return true;
    if (auto *p = f->getTemplateInstantiationPattern()) return inRoot(p);
    return false;
  }
  int type(QualType q) {
    if (q.isNull()) return -1;
    QualType c = q.getCanonicalType();
    void *key = c.getAsOpaquePtr();
    auto it = typeIds.find(key);
    if (it != typeIds.end()) return it->second;
    int n = types.size();
    typeIds[key] = n;
    types.emplace_back(nullptr);
    Object o;
    o["s"] = c.getAsString(PP);
    if (c.isConstQualified()) o["c"] = 1;
    const Type *t = c.getTypePtr();
    if (t->isDependentType()) o["k"] = "dep";
    else if (t->isBooleanType()) { o["k"] = "bool"; o["w"] = 8; o["sg"] = 0; }
    else if (t->isEnumeralType()) {
      o["k"] = "enum";
      auto *ed = t->castAs<EnumType>()->getDecl();
      QualType it2 = ed->getIntegerType();
      if (!it2.isNull()) { o["w"] = (int)C.getTypeSize(it2); o["sg"] = it2->isSignedIntegerType() ? 1 : 0; }
    }
    else if (t->isIntegerType()) { o["k"] = "int"; o["w"] = (int)C.getTypeSize(c); o["sg"] = t->isSignedIntegerType() ? 1 : 0; if (t->isCharType()) o["ch"] = 1; }
    else if (t->isRealFloatingType()) { o["k"] = "float"; o["w"] = (int)C.getTypeSize(c); }
    else if (t->isVoidType()) o["k"] = "void";
    else if (t->isNullPtrType()) o["k"] = "nullptr";
    else if (t->isPointerType()) { o["k"] = "ptr"; o["p"] = type(t->getPointeeType()); }
    else if (t->isReferenceType()) { o["k"] = t->isRValueReferenceType() ? "rref" : "ref"; o["p"] = type(t->getPointeeType()); }
    else if (auto *at = dyn_cast<ConstantArrayType>(t)) { o["k"] = "arr"; o["p"] = type(at->getElementType()); o["n"] = (int64_t)at->getSize().getZExtValue(); }
    else if (auto *rt = dyn_cast<RecordType>(t)) {
      o["k"] = "rec";
      auto *rd = rt->getDecl();
      o["q"] = rd->getQualifiedNameAsString();
      o["r"] = record(rd);
      if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
        Array a;
        for (auto &ta : sp->getTemplateArgs().asArray()) targ(ta, a);
        o["ta"] = std::move(a);
      }
    }
    else if (t->isFunctionType()) o["k"] = "fn";
    else o["k"] = "other";
    types[n] = std::move(o);
    return n;
  }
  void targ(const TemplateArgument &ta, Array &a) {
    switch (ta.getKind()) {
      case TemplateArgument::Type: a.push_back(Object{{"t", type(ta.getAsType())}}); break;
      case TemplateArgument::Integral: { llvm::SmallString<32> s; ta.getAsIntegral().toString(s, 10); a.push_back(Object{{"i", std::string(s)}}); break; }
      case TemplateArgument::Pack: for (auto &x : ta.pack_elements()) targ(x, a); break;
      default: a.push_back(Object{{"o", 1}});
    }
  }
  int record(const RecordDecl *rd0) {
    const RecordDecl *rd = rd0->getDefinition() ? rd0->getDefinition() : rd0;
    int i = did(rd);
    if (doneR.count(i)) return i;
    doneR.insert(i);
    Object o;
    o["n"] = rd->getNameAsString();
    o["q"] = rd->getQualifiedNameAsString();
    o["file"] = fileOf(rd->getLocation());
    o["line"] = lineOf(rd->getLocation());
    bool rep = inRoot(rd);
    if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) if (!rep) rep = inRoot(sp->getSpecializedTemplate());
    o["repo"] = rep ? 1 : 0;
    Array fs;
    for (auto *f : rd->fields()) {
      Object fo;
      fo["n"] = f->getNameAsString();
      fo["d"] = did(f);
      fo["t"] = type(f->getType());
      fo["acc"] = (int)f->getAccess();
      fo["line"] = lineOf(f->getLocation());
      if (rep && f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    if (auto *cr = dyn_cast<CXXRecordDecl>(rd)) {
      if (cr->isLambda()) o["lambda"] = 1;
      if (cr->hasDefinition()) {
        Array bs;
        for (auto &b : cr->bases()) bs.push_back(type(b.getType()));
        o["bases"] = std::move(bs);
        if (cr->isEffectivelyFinal()) o["final"] = 1;
        if (cr->isAggregate()) o["agg"] = 1;
        if (auto *d = cr->getDestructor()) if (d->isUserProvided()) o["dtor"] = did(d);
        Array ms;
        if (rep) for (auto *m : cr->methods()) ms.push_back(did(m));
        o["methods"] = std::move(ms);
      }
    }
    records[std::to_string(i)] = std::move(o);
    return i;
  }

  // ---------------------------------------------------------------- APValue
  Value apv(const APValue &v, QualType t) {
    switch (v.getKind()) {
      case APValue::Int: { llvm::SmallString<40> s; v.getInt().toString(s, 10); return Object{{"i", std::string(s)}}; }
      case APValue::Float: { llvm::SmallString<64> s; v.getFloat().toString(s, 0, 0); return Object{{"f", std::string(s)}}; }
      case APValue::Array: {
        Array a; unsigned n = v.getArraySize(), m = v.getArrayInitializedElts();
        QualType et = C.getAsArrayType(t) ? C.getAsArrayType(t)->getElementType() : QualType();
        for (unsigned i = 0; i < n; i++) a.push_back(apv(i < m ? v.getArrayInitializedElt(i) : v.getArrayFiller(), et));
        return Object{{"a", std::move(a)}};
      }
      case APValue::Struct: {
        Object o; auto *rd = t->getAsRecordDecl(); if (!rd) return nullptr;
        if (auto *cr = dyn_cast<CXXRecordDecl>(rd)) { unsigned bi = 0; for (auto &b : cr->bases()) { o["$base" + std::to_string(bi)] = apv(v.getStructBase(bi), b.getType()); bi++; } }
        unsigned i = 0;
        for (auto *f : rd->fields()) o[f->getNameAsString()] = apv(v.getStructField(i++), f->getType());
        return Object{{"s", std::move(o)}};
      }
      case APValue::LValue: {
        Object o; o["off"] = (int64_t)v.getLValueOffset().getQuantity();
        if (v.isNullPointer()) { o["null"] = 1; return Object{{"l", std::move(o)}}; }
        auto b = v.getLValueBase();
        if (auto *e = b.dyn_cast<const Expr *>()) { if (auto *sl = dyn_cast<StringLiteral>(e)) if (sl->getCharByteWidth() == 1) o["str"] = latin1(sl->getBytes()); }
        if (auto *d = b.dyn_cast<const ValueDecl *>()) { o["decl"] = did(d); o["name"] = d->getNameAsString(); }
        return Object{{"l", std::move(o)}};
      }
      default: return nullptr;
    }
  }

  // ---------------------------------------------------------------- decl refs
  void needFunc(const FunctionDecl *f) {
    f = f->getCanonicalDecl();
    int i = did(f);
    if (doneF.count(i)) return;
    doneF.insert(i);
    queue.push_back(f);
  }
  void emitFunc(const FunctionDecl *f0) {
    const FunctionDecl *f = f0;
    const FunctionDecl *def = nullptr;
    if (f0->hasBody(def) && def) f = def;
    else if (auto *dd = f0->getDefinition()) f = dd;
    Object o;
    o["n"] = f->getNameAsString();
    o["q"] = f->getQualifiedNameAsString();
    {
      std::string sig; llvm::raw_string_ostream os(sig);
      os << f->getType().getCanonicalType().getAsString(PP);
      o["sig"] = os.str();
    }
    o["file"] = fileOf(f->getLocation());
    o["line"] = lineOf(f->getLocation());
    bool rep = inRootFn(f);
    o["repo"] = rep ? 1 : 0;
    bool dep = f->isDependentContext();
    if (dep) o["dep"] = 1;
    o["ret"] = type(f->getReturnType());
    Array ps;
    for (auto *p : f->parameters()) {
      Object po; po["d"] = did(p); po["n"] = p->getNameAsString(); po["t"] = type(p->getType());
      if (rep && p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg() && p->getDefaultArg()) po["def"] = expr(p->getDefaultArg());
      ps.push_back(std::move(po));
    }
    o["ps"] = std::move(ps);
    if (f->isVariadic()) o["variadic"] = 1;
    if (f->isNoReturn()) o["noreturn"] = 1;
    if (f->isConstexpr()) o["constexpr"] = 1;
    if (f->isDeleted()) o["deleted"] = 1;
    if (f->isDefaulted()) o["defaulted"] = 1;
    if (f->isOverloadedOperator()) o["oper"] = 1;
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = record(m->getParent());
      o["acc"] = (int)m->getAccess();
      if (m->isStatic()) o["static"] = 1;
      if (m->isConst()) o["const"] = 1;
      if (m->isVirtual()) o["virtual"] = 1;
      o["refq"] = (int)m->getRefQualifier();
      if (m->isCopyAssignmentOperator()) o["cassign"] = 1;
      if (m->isMoveAssignmentOperator()) o["massign"] = 1;
      if (m->size_overridden_methods()) { Array ov; for (auto *x : m->overridden_methods()) ov.push_back(did(x)); o["overrides"] = std::move(ov); }
    }
    if (auto *fd = f->getFriendObjectKind() ? f : nullptr) { (void)fd; o["friend"] = 1; }
    if (auto *ta = f->getTemplateSpecializationArgs()) { Array a; for (auto &x : ta->asArray()) targ(x, a); o["ta"] = std::move(a); }
    if (auto *pat = f->getTemplateInstantiationPattern()) o["pat"] = did(pat);
    if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
      o["ctor"] = 1;
      if (c->isCopyConstructor()) o["copyctor"] = 1;
      if (c->isMoveConstructor()) o["movector"] = 1;
      if (c->isDefaultConstructor()) o["defctor"] = 1;
      if (c->isExplicit()) o["explicit"] = 1;
      if (rep && !dep) {
        Array is;
        for (auto *i : c->inits()) {
          Object io;
          if (i->isAnyMemberInitializer()) { io["m"] = i->getAnyMember()->getNameAsString(); io["mt"] = type(i->getAnyMember()->getType()); }
          else if (i->isBaseInitializer()) io["b"] = type(QualType(i->getBaseClass(), 0));
          else if (i->isDelegatingInitializer()) io["deleg"] = 1;
          io["w"] = i->isWritten() ? 1 : 0;
          io["e"] = expr(i->getInit());
          is.push_back(std::move(io));
        }
        o["inits"] = std::move(is);
      }
    }
    if (isa<CXXDestructorDecl>(f)) o["dtor"] = 1;
    if (rep && f->hasBody() && f->getBody()) o["body"] = stmt(f->getBody());
    funcs[std::to_string(did(f0))] = std::move(o);
  }
  void drain() { while (!queue.empty()) { auto *f = queue.front(); queue.pop_front(); emitFunc(f); } }

  void emitGlobal(const VarDecl *v0) {
    const VarDecl *v = v0->getDefinition(C) ? v0->getDefinition(C) : v0;
    int i = did(v);
    if (doneG.count(i)) return;
    doneG.insert(i);
    bool rep = inRoot(v);
    if (!rep) if (auto *p = v->getTemplateInstantiationPattern()) rep = inRoot(p);
    Object o;
    o["n"] = v->getNameAsString(); o["q"] = v->getQualifiedNameAsString(); o["t"] = type(v->getType());
    o["file"] = fileOf(v->getLocation()); o["line"] = lineOf(v->getLocation());
    o["repo"] = rep ? 1 : 0;
    if (v->isConstexpr()) o["constexpr"] = 1;
    if (v->isStaticLocal()) o["slocal"] = 1;
    if (v->getType().isConstQualified()) o["const"] = 1;
    const VarDecl *iv = nullptr;
    const Expr *in = v->getAnyInitializer(iv);
    if (in && !in->isValueDependent() && !v->getType()->isDependentType()) {
      if (v->isConstexpr() || (v->getType().isConstQualified() && v->getType()->isIntegralOrEnumerationType()))
        if (iv) if (auto *av = iv->evaluateValue()) o["cv"] = apv(*av, v->getType());
      if (rep) o["init"] = expr(in);
    }
    globals[std::to_string(i)] = std::move(o);
  }

  // ---------------------------------------------------------------- statements
  Value loc(SourceLocation l) { return lineOf(l); }
  Value varDecl(const VarDecl *v) {
    Object o; o["d"] = did(v); o["n"] = v->getNameAsString(); o["t"] = type(v->getType());
    if (v->isStaticLocal()) { o["static"] = 1; emitGlobal(v); }
    if (v->isConstexpr()) o["constexpr"] = 1;
    if (v->getInit()) o["i"] = expr(v->getInit());
    if (auto *dd = dyn_cast<DecompositionDecl>(v)) {
      Array bs;
      for (auto *b : dd->bindings()) {
        Object bo; bo["d"] = did(b); bo["n"] = b->getNameAsString();
        if (auto *hv = b->getHoldingVar()) { bo["hv"] = did(hv); if (hv->getInit()) bo["hi"] = expr(hv->getInit()); bo["ht"] = type(hv->getType()); }
        if (b->getBinding()) bo["e"] = expr(b->getBinding());
        bs.push_back(std::move(bo));
      }
      o["bind"] = std::move(bs);
    }
    return o;
  }
  Value stmt(const Stmt *s) {
    if (!s) return nullptr;
    Object o;
    o["ln"] = lineOf(s->getBeginLoc());
    if (auto *e = dyn_cast<Expr>(s)) { o["k"] = "e"; o["e"] = expr(e); return o; }
    switch (s->getStmtClass()) {
      case Stmt::CompoundStmtClass: { o["k"] = "{"; Array a; for (auto *c : cast<CompoundStmt>(s)->body()) a.push_back(stmt(c)); o["b"] = std::move(a); break; }
      case Stmt::DeclStmtClass: {
        o["k"] = "decl"; Array a;
        for (auto *d : cast<DeclStmt>(s)->decls()) {
          if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v));
          else if (auto *rd = dyn_cast<RecordDecl>(d)) record(rd);
        }
        o["v"] = std::move(a); break;
      }
      case Stmt::IfStmtClass: {
        auto *i = cast<IfStmt>(s); o["k"] = "if";
        if (i->getInit()) o["init"] = stmt(i->getInit());
        if (i->getConditionVariable()) o["cv"] = varDecl(i->getConditionVariable());
        if (i->isConstexpr()) o["cx"] = 1;
        if (i->getCond()) o["c"] = expr(i->getCond());
        o["a"] = stmt(i->getThen()); if (i->getElse()) o["b"] = stmt(i->getElse());
        break;
      }
      case Stmt::WhileStmtClass: { auto *w = cast<WhileStmt>(s); o["k"] = "while"; if (w->getConditionVariable()) o["cv"] = varDecl(w->getConditionVariable()); o["c"] = expr(w->getCond()); o["b"] = stmt(w->getBody()); break; }
      case Stmt::DoStmtClass: { auto *w = cast<DoStmt>(s); o["k"] = "do"; o["c"] = expr(w->getCond()); o["b"] = stmt(w->getBody()); break; }
      case Stmt::ForStmtClass: { auto *w = cast<ForStmt>(s); o["k"] = "for"; if (w->getInit()) o["i"] = stmt(w->getInit()); if (w->getCond()) o["c"] = expr(w->getCond()); if (w->getInc()) o["n"] = expr(w->getInc()); o["b"] = stmt(w->getBody()); break; }
      case Stmt::CXXForRangeStmtClass: {
        auto *w = cast<CXXForRangeStmt>(s); o["k"] = "frange";
        if (w->getInit()) o["init"] = stmt(w->getInit());
        if (w->getRangeStmt()) o["range"] = stmt(w->getRangeStmt());
        if (w->getBeginStmt()) o["begin"] = stmt(w->getBeginStmt());
        if (w->getEndStmt()) o["end"] = stmt(w->getEndStmt());
        if (w->getCond()) o["c"] = expr(w->getCond());
        if (w->getInc()) o["n"] = expr(w->getInc());
        if (w->getLoopVarStmt()) o["var"] = stmt(w->getLoopVarStmt());
        if (w->getRangeInit()) o["ri"] = expr(w->getRangeInit());
        o["b"] = stmt(w->getBody()); break;
      }
      case Stmt::ReturnStmtClass: { o["k"] = "ret"; if (auto *e = cast<ReturnStmt>(s)->getRetValue()) o["e"] = expr(e); break; }
      case Stmt::BreakStmtClass: o["k"] = "break"; break;
      case Stmt::ContinueStmtClass: o["k"] = "continue"; break;
      case Stmt::NullStmtClass: o["k"] = "null"; break;
      case Stmt::SwitchStmtClass: { auto *w = cast<SwitchStmt>(s); o["k"] = "switch"; if (w->getInit()) o["init"] = stmt(w->getInit()); o["c"] = expr(w->getCond()); o["b"] = stmt(w->getBody()); break; }
      case Stmt::CaseStmtClass: { auto *w = cast<CaseStmt>(s); o["k"] = "case"; o["v"] = expr(w->getLHS()); o["b"] = stmt(w->getSubStmt()); break; }
      case Stmt::DefaultStmtClass: { o["k"] = "default"; o["b"] = stmt(cast<DefaultStmt>(s)->getSubStmt()); break; }
      case Stmt::CXXTryStmtClass: {
        auto *w = cast<CXXTryStmt>(s); o["k"] = "try"; o["b"] = stmt(w->getTryBlock()); Array hs;
        for (unsigned i = 0; i < w->getNumHandlers(); i++) { auto *h = w->getHandler(i); Object ho; if (h->getExceptionDecl()) { ho["v"] = varDecl(h->getExceptionDecl()); ho["t"] = type(h->getCaughtType()); } else ho["all"] = 1; ho["b"] = stmt(h->getHandlerBlock()); hs.push_back(std::move(ho)); }
        o["h"] = std::move(hs); break;
      }
      case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(s)->getSubStmt());
      default: { o["k"] = "unk"; o["c"] = s->getStmtClassName(); Array a; for (auto *c : s->children()) if (c) a.push_back(stmt(c)); o["ch"] = std::move(a); }
    }
    return o;
  }

  // ---------------------------------------------------------------- expressions
  Value expr(const Expr *e) {
    if (!e) return nullptr;
    // transparent wrappers
    if (auto *x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<ExprWithCleanups>(e)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<ConstantExpr>(e)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
    if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
    if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
    if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return expr(x->getSemanticForm());
    if (auto *x = dyn_cast<OpaqueValueExpr>(e)) if (x->getSourceExpr()) return expr(x->getSourceExpr());
    Object o;
    o["ln"] = lineOf(e->getExprLoc());
    o["t"] = type(e->getType());
    if (e->isLValue()) o["lv"] = 1; else if (e->isXValue()) o["lv"] = 2;
    bool dep = e->isValueDependent() || e->isTypeDependent() || e->isInstantiationDependent();
    if (!dep && e->isPRValue() && !e->getType().isNull() && e->getType()->isIntegralOrEnumerationType() && !isa<CallExpr>(e) ) {
      Expr::EvalResult r;
      if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects) && !r.HasSideEffects) { llvm::SmallString<40> s; r.Val.getInt().toString(s, 10); o["cv"] = std::string(s); }
    }
    switch (e->getStmtClass()) {
      case Stmt::IntegerLiteralClass: case Stmt::CharacterLiteralClass: case Stmt::CXXBoolLiteralExprClass: o["k"] = "int"; break;
      case Stmt::FloatingLiteralClass: { llvm::SmallString<64> s; cast<FloatingLiteral>(e)->getValue().toString(s, 0, 0); o["k"] = "float"; o["v"] = std::string(s); break; }
      case Stmt::UserDefinedLiteralClass: goto call;
      case Stmt::StringLiteralClass: { auto *sl = cast<StringLiteral>(e); o["k"] = "str"; o["v"] = sl->getCharByteWidth() == 1 ? latin1(sl->getBytes()) : std::string("?"); break; }
      case Stmt::PredefinedExprClass: o["k"] = "str"; o["v"] = "?"; break;
      case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: o["k"] = "null"; break;
      case Stmt::CXXThisExprClass: o["k"] = "this"; break;
      case Stmt::DeclRefExprClass: {
        auto *d = cast<DeclRefExpr>(e)->getDecl();
        o["k"] = "ref"; o["d"] = did(d); o["n"] = d->getNameAsString();
        if (auto *f = dyn_cast<FunctionDecl>(d)) { o["dk"] = "func"; needFunc(f); }
        else if (auto *v = dyn_cast<VarDecl>(d)) {
          if (isa<ParmVarDecl>(v)) o["dk"] = "param";
          else if (v->hasGlobalStorage()) { o["dk"] = "gvar"; emitGlobal(v); }
          else o["dk"] = "var";
        }
        else if (isa<BindingDecl>(d)) o["dk"] = "bind";
        else if (auto *ec = dyn_cast<EnumConstantDecl>(d)) { o["dk"] = "enumc"; llvm::SmallString<40> s; ec->getInitVal().toString(s, 10); o["cv"] = std::string(s); o["q"] = ec->getQualifiedNameAsString(); }
        else o["dk"] = "other";
        break;
      }
      case Stmt::MemberExprClass: {
        auto *m = cast<MemberExpr>(e);
        auto *md = m->getMemberDecl();
        o["n"] = md->getNameAsString(); o["d"] = did(md);
        if (auto *v = dyn_cast<VarDecl>(md)) { o["k"] = "ref"; o["dk"] = "gvar"; emitGlobal(v); }
        else if (auto *f = dyn_cast<FunctionDecl>(md)) { o["k"] = "mfn"; needFunc(f); o["b"] = expr(m->getBase()); o["arrow"] = m->isArrow() ? 1 : 0; }
        else if (isa<EnumConstantDecl>(md)) { o["k"] = "ref"; o["dk"] = "enumc"; }
        else { o["k"] = "mem"; o["b"] = expr(m->getBase()); o["arrow"] = m->isArrow() ? 1 : 0; }
        break;
      }
      case Stmt::UnaryOperatorClass: { auto *u = cast<UnaryOperator>(e); o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode()).str(); if (u->isPostfix()) o["post"] = 1; o["e"] = expr(u->getSubExpr()); break; }
      case Stmt::BinaryOperatorClass: { auto *b = cast<BinaryOperator>(e); o["k"] = "bin"; o["op"] = b->getOpcodeStr().str(); o["l"] = expr(b->getLHS()); o["r"] = expr(b->getRHS()); break; }
      case Stmt::CompoundAssignOperatorClass: { auto *b = cast<CompoundAssignOperator>(e); o["k"] = "cas"; o["op"] = b->getOpcodeStr().str(); o["l"] = expr(b->getLHS()); o["r"] = expr(b->getRHS()); o["ct"] = type(b->getComputationResultType()); o["clt"] = type(b->getComputationLHSType()); break; }
      case Stmt::ConditionalOperatorClass: { auto *c = cast<ConditionalOperator>(e); o["k"] = "cond"; o["c"] = expr(c->getCond()); o["a"] = expr(c->getTrueExpr()); o["b"] = expr(c->getFalseExpr()); break; }
      case Stmt::CallExprClass: case Stmt::CXXMemberCallExprClass: case Stmt::CXXOperatorCallExprClass: call: {
        auto *c = cast<CallExpr>(e);
        o["k"] = "call";
        const FunctionDecl *f = c->getDirectCallee();
        const CXXMethodDecl *m = f ? dyn_cast<CXXMethodDecl>(f) : nullptr;
        Array as;
        unsigned st = 0;
        if (f) { needFunc(f); o["f"] = did(f); o["fn"] = f->getNameAsString(); }
        if (auto *mc = dyn_cast<CXXMemberCallExpr>(c)) {
          if (auto *obj = mc->getImplicitObjectArgument()) { o["obj"] = expr(obj); if (obj->getType()->isPointerType()) o["arrow"] = 1; }
          if (m && m->isVirtual()) if (auto *me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens())) if (!me->hasQualifier()) o["virt"] = 1;
        } else if (isa<CXXOperatorCallExpr>(c) && m && !m->isStatic()) { o["obj"] = expr(c->getArg(0)); st = 1; }
        if (!f) o["ce"] = expr(c->getCallee());
        for (unsigned i = st; i < c->getNumArgs(); i++) as.push_back(expr(c->getArg(i)));
        o["as"] = std::move(as);
        if (auto *oc = dyn_cast<CXXOperatorCallExpr>(c)) o["oc"] = getOperatorSpelling(oc->getOperator());
        break;
      }
      case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: {
        auto *c = cast<CXXConstructExpr>(e); o["k"] = "ctor"; needFunc(c->getConstructor()); o["f"] = did(c->getConstructor());
        Array as; for (auto *a : c->arguments()) as.push_back(expr(a)); o["as"] = std::move(as);
        if (c->isElidable()) o["el"] = 1;
        if (c->isListInitialization()) o["li"] = 1;
        if (c->requiresZeroInitialization()) o["zi"] = 1;
        break;
      }
      case Stmt::CXXInheritedCtorInitExprClass: { auto *c = cast<CXXInheritedCtorInitExpr>(e); o["k"] = "inhctor"; needFunc(c->getConstructor()); o["f"] = did(c->getConstructor()); break; }
      case Stmt::InitListExprClass: {
        auto *il = cast<InitListExpr>(e); if (il->isSyntacticForm() && il->getSemanticForm()) il = il->getSemanticForm();
        o["k"] = "init"; Array as; for (auto *a : il->inits()) as.push_back(expr(a)); o["es"] = std::move(as);
        if (il->hasArrayFiller()) o["fill"] = expr(il->getArrayFiller());
        break;
      }
      case Stmt::CXXParenListInitExprClass: { auto *il = cast<CXXParenListInitExpr>(e); o["k"] = "init"; Array as; for (auto *a : il->getInitExprs()) as.push_back(expr(a)); o["es"] = std::move(as); break; }
      case Stmt::ParenListExprClass: { auto *il = cast<ParenListExpr>(e); o["k"] = "init"; Array as; for (unsigned i = 0; i < il->getNumExprs(); i++) as.push_back(expr(il->getExpr(i))); o["es"] = std::move(as); break; }
      case Stmt::CXXStdInitializerListExprClass: { o["k"] = "inilist"; o["e"] = expr(cast<CXXStdInitializerListExpr>(e)->getSubExpr()); break; }
      case Stmt::MaterializeTemporaryExprClass: { o["k"] = "tmp"; o["e"] = expr(cast<MaterializeTemporaryExpr>(e)->getSubExpr()); break; }
      case Stmt::ImplicitValueInitExprClass: case Stmt::CXXScalarValueInitExprClass: o["k"] = "zero"; break;
      case Stmt::ArraySubscriptExprClass: { auto *a = cast<ArraySubscriptExpr>(e); o["k"] = "idx"; o["l"] = expr(a->getBase()); o["r"] = expr(a->getIdx()); break; }
      case Stmt::LambdaExprClass: {
        auto *l = cast<LambdaExpr>(e); o["k"] = "lambda";
        auto *rd = l->getLambdaClass(); o["r"] = record(rd);
        if (l->isGenericLambda()) { o["generic"] = 1; Array sp; if (auto *ft = l->getDependentCallOperator()) for (auto *s : ft->specializations()) { needFunc(s); sp.push_back(did(s)); } o["specs"] = std::move(sp); }
        else { needFunc(l->getCallOperator()); o["op"] = did(l->getCallOperator()); }
        Array caps; auto fit = rd->field_begin(); auto iit = l->capture_init_begin();
        for (auto &cp : l->captures()) {
          Object co;
          if (cp.capturesThis()) { co["by"] = cp.getCaptureKind() == LCK_StarThis ? "starthis" : "this"; }
          else if (cp.capturesVariable()) { co["by"] = cp.getCaptureKind() == LCK_ByRef ? "ref" : "copy"; co["d"] = did(cp.getCapturedVar()); co["n"] = cp.getCapturedVar()->getNameAsString(); if (iit != l->capture_init_end() && *iit) co["i"] = expr(*iit); }
          if (fit != rd->field_end()) { co["ft"] = type(fit->getType()); ++fit; }
          ++iit; caps.push_back(std::move(co));
        }
        o["caps"] = std::move(caps);
        break;
      }
      case Stmt::CXXThrowExprClass: { o["k"] = "throw"; if (auto *x = cast<CXXThrowExpr>(e)->getSubExpr()) { o["e"] = expr(x); o["tt"] = type(x->getType()); } break; }
      case Stmt::CXXNewExprClass: { auto *n = cast<CXXNewExpr>(e); o["k"] = "new"; o["at"] = type(n->getAllocatedType()); if (n->isArray()) o["arr"] = n->getArraySize() && *n->getArraySize() ? expr(*n->getArraySize()) : Value(nullptr); if (n->getInitializer()) o["i"] = expr(n->getInitializer()); break; }
      case Stmt::CXXDeleteExprClass: { o["k"] = "del"; o["e"] = expr(cast<CXXDeleteExpr>(e)->getArgument()); break; }
      case Stmt::CXXPseudoDestructorExprClass: o["k"] = "unk"; o["c"] = "pseudodtor"; break;
      case Stmt::ImplicitCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXStaticCastExprClass: case Stmt::CXXFunctionalCastExprClass:
      case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXDynamicCastExprClass: case Stmt::BuiltinBitCastExprClass: {
        auto *c = cast<CastExpr>(e);
        switch (c->getCastKind()) {
          case CK_NoOp: case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_FunctionToPointerDecay: {
            Value v = expr(c->getSubExpr());
            return v;
          }
          case CK_LValueToRValue: o["k"] = "load"; o["e"] = expr(c->getSubExpr()); break;
          default: o["k"] = "cast"; o["ck"] = c->getCastKindName(); o["e"] = expr(c->getSubExpr()); break;
        }
        break;
      }
      case Stmt::UnaryExprOrTypeTraitExprClass: case Stmt::TypeTraitExprClass: case Stmt::CXXNoexceptExprClass: case Stmt::SizeOfPackExprClass: case Stmt::ConceptSpecializationExprClass: case Stmt::RequiresExprClass: case Stmt::ArrayTypeTraitExprClass:
        o["k"] = "const"; break;
      case Stmt::UnresolvedLookupExprClass: o["k"] = "unres"; o["n"] = cast<UnresolvedLookupExpr>(e)->getName().getAsString(); break;
      case Stmt::UnresolvedMemberExprClass: { auto *u = cast<UnresolvedMemberExpr>(e); o["k"] = "unres"; o["n"] = u->getMemberName().getAsString(); if (!u->isImplicitAccess()) o["b"] = expr(u->getBase()); break; }
      case Stmt::CXXDependentScopeMemberExprClass: { auto *u = cast<CXXDependentScopeMemberExpr>(e); o["k"] = "unres"; o["n"] = u->getMember().getAsString(); if (!u->isImplicitAccess()) o["b"] = expr(u->getBase()); break; }
      case Stmt::DependentScopeDeclRefExprClass: o["k"] = "unres"; o["n"] = cast<DependentScopeDeclRefExpr>(e)->getDeclName().getAsString(); break;
      default: {
        o["k"] = "unk"; o["c"] = e->getStmtClassName(); Array a;
        for (auto *c : e->children()) if (c) { if (auto *ce = dyn_cast<Expr>(c)) a.push_back(expr(ce)); }
        o["ch"] = std::move(a);
      }
    }
    return o;
  }

  // ---------------------------------------------------------------- visiting
  bool VisitFunctionDecl(FunctionDecl *f) {
    if (!inRootFn(f)) return true;
    needFunc(f);
    return true;
  }
  bool VisitVarDecl(VarDecl *v) {
    if (isa<ParmVarDecl>(v) || !v->hasGlobalStorage()) return true;
    if (inRoot(v)) emitGlobal(v);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) {
    if (inRoot(r) && !r->isDependentContext()) record(r);
    return true;
  }
};

static Object *Result;
class Cons : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    Exporter x(C);
    x.TraverseDecl(C.getTranslationUnitDecl());
    x.drain();
    Object o;
    o["funcs"] = std::move(x.funcs); o["records"] = std::move(x.records); o["globals"] = std::move(x.globals);
    Array ts; for (auto &t : x.types) ts.push_back(std::move(t)); o["types"] = std::move(ts);
    Array incs; // inclusion structure: file -> files it includes directly is not needed; list of repo files parsed
    auto &SM = C.getSourceManager();
    for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) incs.push_back(it->first.getName().str());
    o["files"] = std::move(incs);
    Result = new Object(std::move(o));
  }
};
class Diag : public DiagnosticConsumer {
public:
  Array errs;
  void HandleDiagnostic(DiagnosticsEngine::Level l, const Diagnostic &info) override {
    DiagnosticConsumer::HandleDiagnostic(l, info);
    if (l >= DiagnosticsEngine::Error) {
      llvm::SmallString<256> m; info.FormatDiagnostic(m);
      Object o; o["m"] = std::string(m);
      if (info.hasSourceManager() && info.getLocation().isValid()) { auto &SM = info.getSourceManager(); auto l2 = SM.getExpansionLoc(info.getLocation()); o["file"] = SM.getFilename(l2).str(); o["line"] = (int)SM.getExpansionLineNumber(l2); }
      errs.push_back(std::move(o));
    }
  }
};
class Act : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};

// usage: export OUT.json ROOT[:ROOT..] file.cpp [compiler flags...]
int main(int argc, const char **argv) {
  if (argc < 4) return 2;
  OutFile = argv[1];
  { std::string r = argv[2]; size_t p = 0; while (p <= r.size()) { size_t q = r.find(':', p); if (q == std::string::npos) q = r.size(); if (q > p) Roots.push_back(r.substr(p, q - p)); p = q + 1; } }
  std::string file = argv[3];
  std::vector<std::string> flags;
  for (int i = 4; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {file});
  Diag diag;
  tool.setDiagnosticConsumer(&diag);
  int rc = tool.run(tooling::newFrontendActionFactory<Act>().get());
  if (!Result) { llvm::errs() << "no AST\n"; return 2; }
  (*Result)["errors"] = std::move(diag.errs);
  (*Result)["rc"] = rc;
  std::error_code ec;
  llvm::raw_fd_ostream os(OutFile, ec);
  if (ec) return 2;
  os << Value(std::move(*Result));
  return 0;
}
