// Clang plugin: exports the instantiated AST of the functions under
// verification as JSON, mechanically, on every run.
//
//   clang++ -fplugin=lruvf_plugin.so -fplugin-arg-lruvf-out=FILE
//           -fplugin-arg-lruvf-root=DIR (repeatable) ... -fsyntax-only driver.cpp
//
// Every non-dependent function whose definition lies under one of the roots is
// exported with its body and constructor initialisers; functions of the
// standard library are exported as declarations only (except the small set of
// pure wrappers named in kInlineStd, whose bodies are exported, too).
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::string gOut;
static std::vector<std::string> gRoots;
static const std::set<std::string> kInlineStd = {"std::swap", "std::make_unique", "std::max",
                                                 "std::min", "std::exchange", "std::as_const"};

namespace {

struct Exporter {
  ASTContext& ctx;
  SourceManager& sm;
  json::Array types, funcs, records, vars;
  std::map<const void*, int> typeIds, funcIds, recIds, varIds, fieldOwner;
  std::vector<const FunctionDecl*> todo;
  std::vector<const CXXRecordDecl*> recTodo;

  explicit Exporter(ASTContext& c) : ctx(c), sm(c.getSourceManager()) {}

  std::string fileOf(SourceLocation l) {
    if (l.isInvalid()) return "";
    l = sm.getExpansionLoc(l);
    auto f = sm.getFilename(l);
    llvm::SmallString<256> p(f);
    return std::string(p);
  }
  std::string realFile(SourceLocation l) {
    if (l.isInvalid()) return "";
    l = sm.getExpansionLoc(l);
    if (auto e = sm.getFileEntryRefForID(sm.getFileID(l)))
      return e->getFileEntry().tryGetRealPathName().str();
    return "";
  }
  int lineOf(SourceLocation l) {
    if (l.isInvalid()) return 0;
    return sm.getExpansionLineNumber(l);
  }
  bool underRoot(SourceLocation l) {
    std::string f = realFile(l);
    for (auto& r : gRoots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }

  // ---- types -------------------------------------------------------------
  int type(QualType q) {
    if (q.isNull()) return -1;
    q = ctx.getCanonicalType(q);
    const void* key = q.getAsOpaquePtr();
    auto it = typeIds.find(key);
    if (it != typeIds.end()) return it->second;
    int id = typeIds.size();
    typeIds[key] = id;
    types.push_back(nullptr);
    json::Object o;
    o["s"] = q.getAsString(pp());
    if (q.isConstQualified()) o["const"] = true;
    const Type* t = q.getTypePtr();
    if (auto r = dyn_cast<ReferenceType>(t)) {
      o["k"] = isa<LValueReferenceType>(t) ? "lref" : "rref";
      o["to"] = type(r->getPointeeType());
    } else if (auto p = dyn_cast<PointerType>(t)) {
      o["k"] = "ptr";
      o["to"] = type(p->getPointeeType());
    } else if (auto b = dyn_cast<BuiltinType>(t)) {
      o["k"] = "builtin";
      o["name"] = q.getUnqualifiedType().getAsString(pp());
      o["bits"] = b->isVoidType() || b->isPlaceholderType() || b->isDependentType() || b->getKind() == BuiltinType::NullPtr ? 0 : (int)ctx.getTypeSize(t);
      o["signed"] = b->isSignedInteger();
      o["float"] = b->isFloatingPoint();
    } else if (auto r = dyn_cast<RecordType>(t)) {
      o["k"] = "rec";
      if (auto d = dyn_cast<CXXRecordDecl>(r->getDecl())) {
        o["rec"] = record(d);
        o["qn"] = qname(d);
        if (auto s = dyn_cast<ClassTemplateSpecializationDecl>(d)) o["args"] = targs(s->getTemplateArgs().asArray());
      }
    } else if (isa<EnumType>(t)) {
      o["k"] = "enum";
    } else if (auto f = dyn_cast<FunctionProtoType>(t)) {
      o["k"] = "func";
      o["ret"] = type(f->getReturnType());
      json::Array ps;
      for (auto p : f->param_types()) ps.push_back(type(p));
      o["params"] = std::move(ps);
    } else if (auto a = dyn_cast<ConstantArrayType>(t)) {
      o["k"] = "array";
      o["of"] = type(a->getElementType());
      o["n"] = (int64_t)a->getSize().getZExtValue();
    } else {
      o["k"] = "other";
    }
    types[id] = std::move(o);
    return id;
  }
  PrintingPolicy pp() {
    PrintingPolicy p(ctx.getLangOpts());
    p.SuppressTagKeyword = true;
    p.FullyQualifiedName = true;
    return p;
  }
  json::Array targs(ArrayRef<TemplateArgument> as) {
    json::Array r;
    for (auto& a : as) {
      switch (a.getKind()) {
        case TemplateArgument::Type: r.push_back(json::Object{{"type", type(a.getAsType())}}); break;
        case TemplateArgument::Integral: r.push_back(json::Object{{"int", a.getAsIntegral().getExtValue()}}); break;
        case TemplateArgument::Pack: r.push_back(json::Object{{"pack", targs(a.pack_elements())}}); break;
        default: r.push_back(json::Object{{"other", true}});
      }
    }
    return r;
  }
  std::string qname(const NamedDecl* d) {
    // Qualified name without template arguments.
    std::string s;
    llvm::raw_string_ostream os(s);
    std::vector<std::string> parts;
    parts.push_back(d->getNameAsString());
    for (const DeclContext* c = d->getDeclContext(); c; c = c->getParent()) {
      if (auto ns = dyn_cast<NamespaceDecl>(c)) {
        if (ns->isInline() || ns->isAnonymousNamespace()) continue;
        parts.push_back(ns->getNameAsString());
      } else if (auto r = dyn_cast<RecordDecl>(c)) {
        parts.push_back(r->getNameAsString());
      } else if (auto f = dyn_cast<FunctionDecl>(c)) {
        parts.push_back(f->getNameAsString());
      }
    }
    for (size_t i = parts.size(); i-- > 0;) {
      os << parts[i];
      if (i) os << "::";
    }
    return os.str();
  }

  // ---- records -----------------------------------------------------------
  int record(const CXXRecordDecl* d) {
    if (auto def = d->getDefinition()) d = def;
    const void* key = d->getCanonicalDecl();
    auto it = recIds.find(key);
    if (it != recIds.end()) return it->second;
    int id = recIds.size();
    recIds[key] = id;
    records.push_back(nullptr);
    recTodo.push_back(d);
    return id;
  }
  void fillRecord(const CXXRecordDecl* d) {
    int id = record(d);
    json::Object o;
    o["qn"] = qname(d);
    o["line"] = lineOf(d->getLocation());
    o["file"] = fileOf(d->getLocation());
    o["inroot"] = underRoot(d->getLocation());
    if (d->hasDefinition()) {
      json::Array bases, fields, methods;
      bool inroot = underRoot(d->getLocation()) || d->isLambda();
      for (auto& b : d->bases()) bases.push_back(type(b.getType()));
      for (auto f : d->fields()) {
        json::Object fo{{"n", f->getNameAsString()}, {"t", type(f->getType())}, {"i", (int)f->getFieldIndex()}, {"mutable", f->isMutable()}};
        if (inroot && f->hasInClassInitializer() && f->getInClassInitializer() && !f->getInClassInitializer()->isValueDependent())
          fo["init"] = expr(f->getInClassInitializer());
        fields.push_back(std::move(fo));
      }
      if (inroot) {
        for (auto m : d->methods()) methods.push_back(func(m));
        for (auto dd : d->decls())
          if (auto ft = dyn_cast<FunctionTemplateDecl>(dd))
            for (auto s : ft->specializations()) methods.push_back(func(s));
        if (d->isLambda()) {
          json::Array caps;
          llvm::DenseMap<const ValueDecl*, FieldDecl*> cm;
          FieldDecl* th = nullptr;
          d->getCaptureFields(cm, th);
          for (auto& kv : cm) caps.push_back(json::Object{{"var", var(cast<VarDecl>(kv.first))}, {"field", (int)kv.second->getFieldIndex()}});
          o["captures"] = std::move(caps);
          if (th) o["this_field"] = (int)th->getFieldIndex();
        }
      }
      o["lambda"] = d->isLambda();
      o["bases"] = std::move(bases);
      o["fields"] = std::move(fields);
      o["methods"] = std::move(methods);
      o["poly"] = d->isPolymorphic();
      o["abstract"] = d->isAbstract();
      if (auto dt = d->getDestructor()) o["dtor"] = func(dt);
    }
    records[id] = std::move(o);
  }

  // ---- variables ---------------------------------------------------------
  int var(const VarDecl* v) {
    const void* key = v->getCanonicalDecl();
    auto it = varIds.find(key);
    if (it != varIds.end()) return it->second;
    int id = varIds.size();
    varIds[key] = id;
    vars.push_back(nullptr);
    json::Object o{{"n", v->getNameAsString()}, {"t", type(v->getType())}, {"l", lineOf(v->getLocation())}};
    if (v->hasGlobalStorage()) {
      o["global"] = true;
      o["qn"] = qname(v);
      o["static_local"] = v->isStaticLocal();
      if (v->getInit() && !v->isStaticLocal() && !v->getInit()->isValueDependent() && !v->getType()->isDependentType()) {
        if (v->getType()->isIntegralOrEnumerationType()) {
          if (auto* val = v->evaluateValue())
            if (val->isInt()) o["value"] = val->getInt().getExtValue();
        }
      }
    }
    vars[id] = std::move(o);
    return id;
  }

  // ---- functions ---------------------------------------------------------
  int func(const FunctionDecl* f) {
    f = f->getCanonicalDecl();
    auto it = funcIds.find(f);
    if (it != funcIds.end()) return it->second;
    int id = funcIds.size();
    funcIds[f] = id;
    funcs.push_back(nullptr);
    todo.push_back(f);
    return id;
  }
  bool wantBody(const FunctionDecl* f) {
    if (f->isDependentContext() || f->isInvalidDecl()) return false;
    const FunctionDecl* def = nullptr;
    if (!f->isDefined(def) && !f->isDefaulted()) return false;
    if (underRoot((def ? def : f)->getLocation())) return true;
    if (auto m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) return underRoot(m->getParent()->getLocation());
    if (kInlineStd.count(qname(f)) && !isa<CXXMethodDecl>(f)) return true;
    return false;
  }
  void fillFunc(const FunctionDecl* f) {
    int id = func(f);
    json::Object o;
    o["qn"] = qname(f);
    o["n"] = f->getNameAsString();
    o["ret"] = type(f->getReturnType());
    json::Array ps;
    const FunctionDecl* def = nullptr;
    if (!f->isDefined(def)) def = nullptr;
    const FunctionDecl* src = def ? def : f;
    for (auto p : src->parameters()) {
      json::Object po{{"v", var(p)}, {"n", p->getNameAsString()}, {"t", type(p->getType())}};
      if (p->hasDefaultArg() && !p->hasUnparsedDefaultArg() && !p->hasUninstantiatedDefaultArg()) po["def"] = expr(p->getDefaultArg());
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    o["file"] = fileOf(src->getLocation());
    o["line"] = lineOf(src->getLocation());
    o["variadic"] = f->isVariadic();
    if (auto ta = f->getTemplateSpecializationArgs()) o["targs"] = targs(ta->asArray());
    if (auto m = dyn_cast<CXXMethodDecl>(f)) {
      o["rec"] = record(m->getParent());
      o["static"] = m->isStatic();
      o["constm"] = m->isConst();
      o["virtual"] = m->isVirtual();
      o["pure"] = m->isPureVirtual();
      o["access"] = (int)m->getAccess();
      json::Array ov;
      for (auto x : m->overridden_methods()) ov.push_back(func(x));
      o["overrides"] = std::move(ov);
      o["copyassign"] = m->isCopyAssignmentOperator();
      o["moveassign"] = m->isMoveAssignmentOperator();
      if (auto c = dyn_cast<CXXConstructorDecl>(f)) {
        o["ctor"] = true;
        o["copyctor"] = c->isCopyConstructor();
        o["movector"] = c->isMoveConstructor();
        o["defctor"] = c->isDefaultConstructor();
      }
      if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
      if (isa<CXXConversionDecl>(f)) o["conv"] = true;
    }
    o["implicit"] = f->isImplicit();
    o["defaulted"] = f->isDefaulted();
    o["deleted"] = f->isDeleted();
    o["trivial"] = f->isTrivial();
    if (auto fpt = f->getType()->getAs<FunctionProtoType>()) {
      auto es = fpt->getExceptionSpecType();
      if (!isUnresolvedExceptionSpec(es) && !isComputedNoexceptDependent(es)) o["noexcept"] = fpt->isNothrow();
    }
    if (wantBody(f)) {
      o["inroot"] = true;
      if (def) {
        if (auto c = dyn_cast<CXXConstructorDecl>(def)) {
          json::Array inits;
          for (auto in : c->inits()) {
            json::Object io;
            if (in->isBaseInitializer()) io["base"] = type(QualType(in->getBaseClass(), 0));
            else if (in->isDelegatingInitializer()) io["deleg"] = true;
            else if (in->isAnyMemberInitializer()) {
              io["field"] = in->getAnyMember()->getNameAsString();
              io["i"] = (int)in->getAnyMember()->getFieldIndex();
            }
            io["e"] = expr(in->getInit());
            inits.push_back(std::move(io));
          }
          o["inits"] = std::move(inits);
        }
        if (def->getBody()) o["body"] = stmt(def->getBody());
      }
    }
    funcs[id] = std::move(o);
  }
  static bool isComputedNoexceptDependent(ExceptionSpecificationType es) { return es == EST_DependentNoexcept; }

  // ---- statements --------------------------------------------------------
  json::Value stmt(const Stmt* s) {
    if (!s) return nullptr;
    if (auto e = dyn_cast<Expr>(s)) return json::Object{{"k", "expr"}, {"e", expr(e)}, {"l", lineOf(e->getBeginLoc())}};
    json::Object o;
    o["l"] = lineOf(s->getBeginLoc());
    if (auto c = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "block";
      json::Array a;
      for (auto x : c->body()) a.push_back(stmt(x));
      o["s"] = std::move(a);
    } else if (auto d = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl";
      json::Array a;
      for (auto x : d->decls()) {
        if (auto v = dyn_cast<VarDecl>(x)) {
          json::Object vo{{"v", var(v)}, {"t", type(v->getType())}, {"n", v->getNameAsString()}, {"static", v->isStaticLocal()}, {"cst", v->getType().isConstQualified()}};
          if (v->getInit()) vo["init"] = expr(v->getInit());
          if (auto dd = dyn_cast<DecompositionDecl>(v)) {
            json::Array bs;
            for (auto b : dd->bindings()) bs.push_back(json::Object{{"n", b->getNameAsString()}, {"e", expr(b->getBinding())}, {"id", bindingId(b)}});
            vo["bindings"] = std::move(bs);
          }
          a.push_back(std::move(vo));
        } else if (isa<TypedefNameDecl>(x) || isa<UsingDecl>(x) || isa<StaticAssertDecl>(x) || isa<UsingDirectiveDecl>(x) || isa<EmptyDecl>(x) || isa<UsingShadowDecl>(x) || isa<CXXRecordDecl>(x)) {
        } else {
          a.push_back(json::Object{{"unsupported", x->getDeclKindName()}});
        }
      }
      o["d"] = std::move(a);
    } else if (auto i = dyn_cast<IfStmt>(s)) {
      o["k"] = "if";
      if (i->getInit()) o["init"] = stmt(i->getInit());
      if (i->getConditionVariableDeclStmt()) o["var"] = stmt(i->getConditionVariableDeclStmt());
      if (i->isConstexpr()) {
        Expr::EvalResult r;
        if (!i->getCond()->isValueDependent() && i->getCond()->EvaluateAsConstantExpr(r, ctx)) o["constexpr"] = r.Val.getInt().getBoolValue();
      }
      o["c"] = expr(i->getCond());
      o["t"] = stmt(i->getThen());
      o["f"] = stmt(i->getElse());
    } else if (auto w = dyn_cast<WhileStmt>(s)) {
      o["k"] = "while";
      if (w->getConditionVariableDeclStmt()) o["var"] = stmt(w->getConditionVariableDeclStmt());
      o["c"] = expr(w->getCond());
      o["b"] = stmt(w->getBody());
    } else if (auto w = dyn_cast<DoStmt>(s)) {
      o["k"] = "do";
      o["c"] = expr(w->getCond());
      o["b"] = stmt(w->getBody());
    } else if (auto f = dyn_cast<ForStmt>(s)) {
      o["k"] = "for";
      o["i"] = stmt(f->getInit());
      if (f->getConditionVariableDeclStmt()) o["var"] = stmt(f->getConditionVariableDeclStmt());
      o["c"] = f->getCond() ? expr(f->getCond()) : json::Value(nullptr);
      o["inc"] = f->getInc() ? expr(f->getInc()) : json::Value(nullptr);
      o["b"] = stmt(f->getBody());
    } else if (auto f = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "rangefor";
      if (f->getInit()) o["init"] = stmt(f->getInit());
      o["range"] = stmt(f->getRangeStmt());
      o["begin"] = stmt(f->getBeginStmt());
      o["end"] = stmt(f->getEndStmt());
      o["c"] = f->getCond() ? expr(f->getCond()) : json::Value(nullptr);
      o["inc"] = f->getInc() ? expr(f->getInc()) : json::Value(nullptr);
      o["var"] = stmt(f->getLoopVarStmt());
      o["b"] = stmt(f->getBody());
    } else if (auto r = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "return";
      o["e"] = r->getRetValue() ? expr(r->getRetValue()) : json::Value(nullptr);
    } else if (isa<BreakStmt>(s)) {
      o["k"] = "break";
    } else if (isa<ContinueStmt>(s)) {
      o["k"] = "continue";
    } else if (isa<NullStmt>(s)) {
      o["k"] = "null";
    } else if (auto t = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "try";
      o["b"] = stmt(t->getTryBlock());
      json::Array hs;
      for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
        auto h = t->getHandler(i);
        json::Object ho;
        if (h->getExceptionDecl()) {
          ho["v"] = var(h->getExceptionDecl());
          ho["t"] = type(h->getCaughtType());
        }
        ho["b"] = stmt(h->getHandlerBlock());
        hs.push_back(std::move(ho));
      }
      o["h"] = std::move(hs);
    } else if (auto a = dyn_cast<AttributedStmt>(s)) {
      return stmt(a->getSubStmt());
    } else {
      o["k"] = "unsupported";
      o["cls"] = s->getStmtClassName();
    }
    return o;
  }
  std::map<const BindingDecl*, int> bindIds;
  int bindingId(const BindingDecl* b) { return bindIds.emplace(b, (int)bindIds.size()).first->second; }

  // ---- expressions -------------------------------------------------------
  json::Array args(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
    json::Array a;
    for (auto x : r) a.push_back(expr(x));
    return a;
  }
  json::Value expr(const Expr* e) {
    if (!e) return nullptr;
    if (auto p = dyn_cast<ParenExpr>(e)) return expr(p->getSubExpr());
    if (auto p = dyn_cast<ExprWithCleanups>(e)) {
      json::Object o{{"k", "cleanups"}, {"e", expr(p->getSubExpr())}};
      return o;
    }
    if (auto p = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(p->getSubExpr());
    if (auto p = dyn_cast<ConstantExpr>(e)) return expr(p->getSubExpr());
    if (auto p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(p->getReplacement());
    if (auto p = dyn_cast<CXXRewrittenBinaryOperator>(e)) return expr(p->getSemanticForm());
    json::Object o;
    o["t"] = type(e->getType());
    o["l"] = lineOf(e->getBeginLoc());
    o["vc"] = e->isLValue() ? "l" : e->isXValue() ? "x" : "r";
    if (auto x = dyn_cast<DeclRefExpr>(e)) {
      if (auto v = dyn_cast<VarDecl>(x->getDecl())) {
        o["k"] = "var";
        o["v"] = var(v);
        o["n"] = v->getNameAsString();
        if (x->refersToEnclosingVariableOrCapture()) o["captured"] = true;
      } else if (auto f = dyn_cast<FunctionDecl>(x->getDecl())) {
        o["k"] = "fn";
        o["f"] = func(f);
      } else if (auto b = dyn_cast<BindingDecl>(x->getDecl())) {
        o["k"] = "binding";
        o["id"] = bindingId(b);
        if (b->getBinding()) o["e"] = expr(b->getBinding());
      } else if (auto c = dyn_cast<EnumConstantDecl>(x->getDecl())) {
        o["k"] = "int";
        o["val"] = c->getInitVal().getExtValue();
      } else {
        o["k"] = "unsupported";
        o["cls"] = "DeclRef";
      }
    } else if (auto x = dyn_cast<MemberExpr>(e)) {
      if (auto f = dyn_cast<FieldDecl>(x->getMemberDecl())) {
        o["k"] = "member";
        o["b"] = expr(x->getBase());
        o["arrow"] = x->isArrow();
        o["n"] = f->getNameAsString();
        o["i"] = (int)f->getFieldIndex();
        if (auto r = dyn_cast<CXXRecordDecl>(f->getParent())) o["rec"] = record(r);
        o["ft"] = type(f->getType());
      } else if (auto v = dyn_cast<VarDecl>(x->getMemberDecl())) {
        o["k"] = "var";
        o["v"] = var(v);
        o["n"] = v->getNameAsString();
      } else if (auto f = dyn_cast<CXXMethodDecl>(x->getMemberDecl())) {
        o["k"] = "memfn";
        o["b"] = expr(x->getBase());
        o["arrow"] = x->isArrow();
        o["f"] = func(f);
      } else {
        o["k"] = "unsupported";
        o["cls"] = "MemberExpr";
      }
    } else if (auto x = dyn_cast<CXXOperatorCallExpr>(e)) {
      o["k"] = "call";
      o["op"] = true;
      if (auto f = x->getDirectCallee()) {
        o["f"] = func(f);
        auto m = dyn_cast<CXXMethodDecl>(f);
        if (m && !m->isStatic()) {
          o["k"] = "mcall";
          o["obj"] = expr(x->getArg(0));
          o["virt"] = m->isVirtual();
          json::Array a;
          for (unsigned i = 1; i < x->getNumArgs(); ++i) a.push_back(expr(x->getArg(i)));
          o["args"] = std::move(a);
        } else
          o["args"] = args(x->arguments());
      } else {
        o["k"] = "unsupported";
        o["cls"] = "OperatorCall";
      }
    } else if (auto x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "mcall";
      auto m = x->getMethodDecl();
      if (!m) {
        o["k"] = "unsupported";
        o["cls"] = "MemberPointerCall";
      } else {
        o["f"] = func(m);
        auto obj = x->getImplicitObjectArgument();
        auto me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens());
        o["arrow"] = me ? me->isArrow() : false;
        o["virt"] = m->isVirtual() && !(me && me->hasQualifier());
        o["obj"] = expr(obj);
        o["args"] = args(x->arguments());
      }
    } else if (auto x = dyn_cast<CallExpr>(e)) {
      o["k"] = "call";
      if (auto f = x->getDirectCallee()) o["f"] = func(f);
      else o["callee"] = expr(x->getCallee());
      o["args"] = args(x->arguments());
      if (isa<CXXPseudoDestructorExpr>(x->getCallee()->IgnoreParens())) o["k"] = "null";
    } else if (auto x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      o["k"] = "unsupported";
      o["cls"] = "InheritedCtor";
    } else if (auto x = dyn_cast<CXXConstructExpr>(e)) {
      o["k"] = "ctor";
      o["f"] = func(x->getConstructor());
      json::Array a;
      for (unsigned i = 0; i < x->getNumArgs(); ++i) a.push_back(expr(x->getArg(i)));
      o["args"] = std::move(a);
      o["elidable"] = x->isElidable();
      o["zero"] = x->requiresZeroInitialization();
      if (x->isStdInitListInitialization()) o["stdinit"] = true;
    } else if (auto x = dyn_cast<CastExpr>(e)) {
      o["k"] = "cast";
      o["ck"] = x->getCastKindName();
      o["e"] = expr(x->getSubExpr());
      o["cls"] = x->getStmtClassName();
    } else if (auto x = dyn_cast<MaterializeTemporaryExpr>(e)) {
      o["k"] = "mat";
      o["e"] = expr(x->getSubExpr());
      o["ext"] = x->getExtendingDecl() != nullptr;
    } else if (auto x = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode());
      o["post"] = x->isPostfix();
      o["e"] = expr(x->getSubExpr());
    } else if (auto x = dyn_cast<BinaryOperator>(e)) {
      o["k"] = x->isCompoundAssignmentOp() ? "cassign" : "bin";
      o["op"] = x->getOpcodeStr();
      o["a"] = expr(x->getLHS());
      o["b"] = expr(x->getRHS());
      if (auto c = dyn_cast<CompoundAssignOperator>(x)) o["ct"] = type(c->getComputationResultType());
    } else if (auto x = dyn_cast<ConditionalOperator>(e)) {
      o["k"] = "cond";
      o["c"] = expr(x->getCond());
      o["a"] = expr(x->getTrueExpr());
      o["b"] = expr(x->getFalseExpr());
    } else if (auto x = dyn_cast<IntegerLiteral>(e)) {
      o["k"] = "int";
      o["val"] = x->getValue().getBitWidth() <= 64 ? json::Value(std::to_string(x->getValue().getZExtValue())) : json::Value("0");
    } else if (auto x = dyn_cast<CharacterLiteral>(e)) {
      o["k"] = "int";
      o["val"] = std::to_string(x->getValue());
    } else if (auto x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      o["k"] = "bool";
      o["val"] = x->getValue();
    } else if (auto x = dyn_cast<FloatingLiteral>(e)) {
      o["k"] = "float";
      o["val"] = x->getValue().convertToDouble();
    } else if (auto x = dyn_cast<StringLiteral>(e)) {
      o["k"] = "str";
      o["val"] = "";
    } else if (isa<PredefinedExpr>(e)) {
      o["k"] = "str";
    } else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      o["k"] = "nullptr";
    } else if (isa<CXXThisExpr>(e)) {
      o["k"] = "this";
    } else if (auto x = dyn_cast<CXXThrowExpr>(e)) {
      o["k"] = "throw";
      o["e"] = x->getSubExpr() ? expr(x->getSubExpr()) : json::Value(nullptr);
    } else if (auto x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "lambda";
      o["rec"] = record(x->getLambdaClass());
      json::Array a;
      for (auto i = x->capture_init_begin(); i != x->capture_init_end(); ++i) a.push_back(expr(*i));
      o["inits"] = std::move(a);
    } else if (auto x = dyn_cast<InitListExpr>(e)) {
      o["k"] = "initlist";
      json::Array a;
      for (auto i : x->inits()) a.push_back(expr(i));
      o["e"] = std::move(a);
    } else if (auto x = dyn_cast<CXXStdInitializerListExpr>(e)) {
      o["k"] = "stdinit";
      o["e"] = expr(x->getSubExpr());
    } else if (auto x = dyn_cast<CXXDefaultArgExpr>(e)) {
      o["k"] = "wrap";
      o["e"] = expr(x->getExpr());
    } else if (auto x = dyn_cast<CXXDefaultInitExpr>(e)) {
      o["k"] = "wrap";
      o["e"] = expr(x->getExpr());
    } else if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) {
      o["k"] = "zero";
    } else if (auto x = dyn_cast<CXXTypeidExpr>(e)) {
      o["k"] = "typeid";
      if (x->isTypeOperand()) o["of"] = type(x->getTypeOperand(ctx));
    } else if (auto x = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "new";
      o["of"] = type(x->getAllocatedType());
      o["placement"] = x->getNumPlacementArgs() > 0;
      o["array"] = x->isArray();
      o["init"] = x->getInitializer() ? expr(x->getInitializer()) : json::Value(nullptr);
    } else if (auto x = dyn_cast<CXXDeleteExpr>(e)) {
      o["k"] = "delete";
      o["e"] = expr(x->getArgument());
    } else if (auto x = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "index";
      o["a"] = expr(x->getBase());
      o["b"] = expr(x->getIdx());
    } else {
      Expr::EvalResult r;
      if (!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && e->EvaluateAsInt(r, ctx)) {
        o["k"] = "int";
        o["val"] = std::to_string(r.Val.getInt().getExtValue());
      } else {
        o["k"] = "unsupported";
        o["cls"] = e->getStmtClassName();
      }
    }
    return o;
  }

  void drain() {
    while (!todo.empty() || !recTodo.empty()) {
      if (!todo.empty()) {
        auto f = todo.back();
        todo.pop_back();
        fillFunc(f);
      } else {
        auto r = recTodo.back();
        recTodo.pop_back();
        fillRecord(r);
      }
    }
  }
};

struct Finder : RecursiveASTVisitor<Finder> {
  Exporter& x;
  explicit Finder(Exporter& e) : x(e) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (f->isDependentContext() || f->isInvalidDecl()) return true;
    if (!x.underRoot(f->getLocation())) return true;
    if (f->isDefined() || f->isDefaulted()) x.func(f);
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext& ctx) override {
    if (ctx.getDiagnostics().hasErrorOccurred()) return;
    Exporter x(ctx);
    Finder f(x);
    f.TraverseDecl(ctx.getTranslationUnitDecl());
    x.drain();
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    json::Object top;
    top["types"] = std::move(x.types);
    top["funcs"] = std::move(x.funcs);
    top["records"] = std::move(x.records);
    top["vars"] = std::move(x.vars);
    os << json::Value(std::move(top));
  }
};

struct Action : PluginASTAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Consumer>(); }
  bool ParseArgs(const CompilerInstance&, const std::vector<std::string>& a) override {
    for (auto& s : a) {
      if (s.rfind("out=", 0) == 0) gOut = s.substr(4);
      if (s.rfind("root=", 0) == 0) gRoots.push_back(s.substr(5));
    }
    return true;
  }
  ActionType getActionType() override { return AddAfterMainAction; }
};
}  // namespace

static FrontendPluginRegistry::Add<Action> X("lruvf", "export verification AST");
