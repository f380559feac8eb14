// Semantic extractor: parses translation units with clang and writes a compact,
// type-checked, name-resolved JSON form of every function and record of the
// code base under analysis.  Nothing of the analysed program is executed.
//
// usage: extract OUTDIR REPO FILE... -- clang flags
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::string gRepo;
static std::string gOutDir;

namespace {

class Dumper {
 public:
  Dumper(ASTContext& ctx)
      : ctx_(ctx), sm_(ctx.getSourceManager()), pp_(ctx.getLangOpts()),
        mangle_(ctx.createMangleContext()) {
    pp_.SuppressTagKeyword = true;
    pp_.FullyQualifiedName = true;
    pp_.PrintCanonicalTypes = true;
    pp_.Bool = true;
  }

  std::string fileOf(SourceLocation loc) {
    loc = sm_.getExpansionLoc(loc);
    auto f = sm_.getFilename(loc);
    return f.str();
  }
  static std::string canonPath(std::string f) {
    llvm::SmallString<256> p(f);
    llvm::sys::path::remove_dots(p, true);
    return p.str().str();
  }
  // Path relative to the analysed tree, or empty when outside of it.
  std::string relFile(SourceLocation loc) {
    std::string f = canonPath(fileOf(loc));
    if (f.rfind(gRepo + "/", 0) != 0) return "";
    f = f.substr(gRepo.size() + 1);
    if (f.rfind("cartographer/", 0) != 0) return "";
    if (f.size() > 5 && f.find(".pb.h") != std::string::npos) return "";
    return f;
  }
  int line(SourceLocation loc) {
    return sm_.getExpansionLineNumber(loc);
  }
  json::Value typeId(QualType t) {
    if (t.isNull()) return -1;
    QualType c = t.getCanonicalType();
    void* key = c.getAsOpaquePtr();
    auto it = types_.find(key);
    if (it != types_.end()) return it->second;
    std::string s = c.getAsString(pp_);
    auto jt = typeByName_.find(s);
    int id;
    if (jt != typeByName_.end()) {
      id = jt->second;
    } else {
      id = typeNames_.size();
      typeNames_.push_back(s);
      typeByName_[s] = id;
    }
    types_[key] = id;
    return id;
  }

  std::string qn(const NamedDecl* d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy p(ctx_.getLangOpts());
    p.SuppressUnwrittenScope = true;
    p.AnonymousTagLocations = false;
    d->printQualifiedName(os, p);
    return os.str();
  }

  bool internalLinkage(const FunctionDecl* f) {
    return !f->isExternallyVisible();
  }

  std::string funcId(const FunctionDecl* f) {
    f = f->getCanonicalDecl();
    auto it = ids_.find(f);
    if (it != ids_.end()) return it->second;
    std::string id;
    const auto* ctx = f->getDeclContext();
    bool dependent = ctx->isDependentContext() || f->isDependentContext();
    if (dependent) {
      id = "dep:" + qn(f) + ":" + std::to_string(line(f->getLocation()));
    } else {
      llvm::raw_string_ostream os(id);
      GlobalDecl gd;
      if (const auto* c = dyn_cast<CXXConstructorDecl>(f))
        gd = GlobalDecl(c, Ctor_Complete);
      else if (const auto* d = dyn_cast<CXXDestructorDecl>(f))
        gd = GlobalDecl(d, Dtor_Complete);
      else
        gd = GlobalDecl(f);
      if (mangle_->shouldMangleDeclName(f))
        mangle_->mangleName(gd, os);
      else
        os << f->getNameAsString();
      os.flush();
      if (internalLinkage(f)) {
        id = canonPath(fileOf(f->getLocation())) + "#" + id;
      }
    }
    ids_[f] = id;
    return id;
  }

  bool isProto(const CXXRecordDecl* r) {
    if (!r) return false;
    r = r->getDefinition();
    if (!r) return false;
    auto it = proto_.find(r);
    if (it != proto_.end()) return it->second;
    bool res = false;
    std::string f = fileOf(r->getLocation());
    if (f.size() > 5 && f.substr(f.size() - 5) == ".pb.h") {
      for (const auto& b : r->bases()) {
        std::string s = b.getType().getCanonicalType().getAsString(pp_);
        if (s == "google::protobuf::Message" ||
            s == "google::protobuf::MessageLite" ||
            s == "google::protobuf::internal::ZeroFieldsBase")
          res = true;
      }
    }
    proto_[r] = res;
    return res;
  }

  int declId(const ValueDecl* d) {
    d = cast<ValueDecl>(d->getCanonicalDecl());
    auto it = declIds_.find(d);
    if (it != declIds_.end()) return it->second;
    int id = declIds_.size();
    declIds_[d] = id;
    return id;
  }

  json::Value expr(const Expr* e) {
    if (!e) return nullptr;
    // Transparent wrappers.
    while (true) {
      if (auto* x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<ExprWithCleanups>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
      if (auto* x = dyn_cast<ConstantExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) { e = x->getExpr(); continue; }
      if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) { e = x->getExpr(); continue; }
      if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<OpaqueValueExpr>(e)) {
        if (x->getSourceExpr()) { e = x->getSourceExpr(); continue; }
        break;
      }
      if (auto* x = dyn_cast<CastExpr>(e)) {
        bool keep = false;
        switch (x->getCastKind()) {
          case CK_IntegralCast:
          case CK_FloatingCast:
          case CK_IntegralToFloating:
          case CK_FloatingToIntegral:
          case CK_Dynamic:
          case CK_BaseToDerived:
          case CK_BitCast:
          case CK_ToVoid:
            keep = true;
            break;
          case CK_IntegralToBoolean:
          case CK_PointerToBoolean:
          case CK_FloatingToBoolean:
            keep = true;
            break;
          default:
            keep = false;
        }
        if (x->getCastKind() == CK_ToVoid) keep = false;
        if (!keep) { e = x->getSubExpr(); continue; }
        break;
      }
      break;
    }
    json::Object o;
    o["l"] = line(e->getBeginLoc());
    auto T = [&]() { o["t"] = typeId(e->getType()); };
    if (!e->isValueDependent() && !e->isTypeDependent()) {
      if (isa<IntegerLiteral>(e) || isa<CharacterLiteral>(e) ||
          isa<CXXBoolLiteralExpr>(e) || isa<UnaryExprOrTypeTraitExpr>(e)) {
        Expr::EvalResult r;
        if (e->EvaluateAsInt(r, ctx_)) {
          o["k"] = "lit";
          o["v"] = llvm::toString(r.Val.getInt(), 10);
          T();
          return o;
        }
      }
    }
    if (auto* x = dyn_cast<FloatingLiteral>(e)) {
      o["k"] = "lit";
      llvm::SmallString<32> s;
      x->getValue().toString(s);
      o["v"] = s.str().str();
      T();
      return o;
    }
    if (auto* x = dyn_cast<StringLiteral>(e)) {
      o["k"] = "str";
      if (x->getCharByteWidth() == 1) {
        std::string s = x->getString().str();
        if (json::isUTF8(s)) o["v"] = s; else o["v"] = json::fixUTF8(s);
      }
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      o["k"] = "null";
      return o;
    }
    if (isa<CXXThisExpr>(e)) {
      o["k"] = "this";
      T();
      return o;
    }
    if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl* d = x->getDecl();
      o["k"] = "ref";
      o["n"] = d->getNameAsString();
      T();
      if (auto* f = dyn_cast<FunctionDecl>(d)) {
        o["dk"] = "fn";
        o["f"] = funcId(f);
        o["qn"] = qn(f);
      } else if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        o["dk"] = "enum";
        o["qn"] = qn(ec);
        o["v"] = llvm::toString(ec->getInitVal(), 10);
        if (auto* ed = dyn_cast<EnumDecl>(ec->getDeclContext())) {
          json::Array sib;
          int k = 0;
          for (const auto* y : ed->enumerators()) {
            json::Object p;
            p["n"] = qn(y);
            p["v"] = llvm::toString(y->getInitVal(), 10);
            sib.push_back(std::move(p));
            ++k;
          }
          if (k > 1 && k <= 8 && (ed->isScoped() || qn(ec).find("cartographer::mapping::PoseGraph") == 0)) o["sib"] = std::move(sib);
        }
      } else if (auto* v = dyn_cast<VarDecl>(d)) {
        if (v->hasGlobalStorage() && !v->isLocalVarDecl()) {
          o["dk"] = "global";
          o["qn"] = qn(v);
          if (v->isConstexpr() || v->getType().isConstQualified()) {
            if (const Expr* init = v->getAnyInitializer()) {
              if (!init->isValueDependent()) {
                Expr::EvalResult r;
                if (v->getType()->isIntegralOrEnumerationType() &&
                    init->EvaluateAsInt(r, ctx_))
                  o["v"] = llvm::toString(r.Val.getInt(), 10);
                else if (auto* sl = dyn_cast<StringLiteral>(init->IgnoreParenImpCasts()))
                  if (sl->getCharByteWidth() == 1 && json::isUTF8(sl->getString()))
                    o["sv"] = sl->getString().str();
              }
            }
          }
        } else {
          o["dk"] = "var";
          o["d"] = declId(v);
          if (v->isStaticLocal()) o["sl"] = true;
          if (v->isConstexpr() || v->getType().isConstQualified()) {
            if (const Expr* init = v->getAnyInitializer()) {
              if (auto* sl = dyn_cast<StringLiteral>(init->IgnoreParenImpCasts()))
                if (sl->getCharByteWidth() == 1 && json::isUTF8(sl->getString()))
                  o["sv"] = sl->getString().str();
              Expr::EvalResult r;
              if (v->isConstexpr() && !init->isValueDependent() &&
                  v->getType()->isIntegralOrEnumerationType() &&
                  init->EvaluateAsInt(r, ctx_))
                o["v"] = llvm::toString(r.Val.getInt(), 10);
            }
          }
        }
      } else if (auto* b = dyn_cast<BindingDecl>(d)) {
        o["dk"] = "var";
        o["d"] = declId(b);
      } else {
        o["dk"] = "other";
      }
      return o;
    }
    if (auto* x = dyn_cast<MemberExpr>(e)) {
      const ValueDecl* d = x->getMemberDecl();
      if (auto* f = dyn_cast<FieldDecl>(d)) {
        o["k"] = "mem";
        o["n"] = f->getNameAsString();
        o["cls"] = qn(f->getParent());
        o["b"] = expr(x->getBase());
        if (x->isArrow()) o["a"] = 1;
        T();
        return o;
      }
      if (auto* v = dyn_cast<VarDecl>(d)) {
        o["k"] = "ref";
        o["dk"] = "global";
        o["n"] = v->getNameAsString();
        o["qn"] = qn(v);
        T();
        return o;
      }
      if (auto* m = dyn_cast<CXXMethodDecl>(d)) {
        o["k"] = "memfn";
        o["f"] = funcId(m);
        o["qn"] = qn(m);
        o["b"] = expr(x->getBase());
        return o;
      }
    }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "call";
      callee(o, x->getMethodDecl());
      if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParenImpCasts())) {
        if (me->hasQualifier()) o["nv"] = 1;  // explicitly qualified call
        if (me->isArrow()) o["a"] = 1;
        o["o"] = expr(me->getBase());
      } else {
        o["o"] = expr(x->getImplicitObjectArgument());
        if (!x->getMethodDecl()) o["fp"] = expr(x->getCallee());
      }
      args(o, x);
      T();
      return o;
    }
    if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      o["k"] = "call";
      const FunctionDecl* f = x->getDirectCallee();
      callee(o, f);
      o["op"] = getOperatorSpelling(x->getOperator());
      unsigned start = 0;
      if (f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic()) {
        o["o"] = expr(x->getArg(0));
        start = 1;
      }
      json::Array a;
      for (unsigned i = start; i < x->getNumArgs(); ++i) a.push_back(expr(x->getArg(i)));
      o["args"] = std::move(a);
      T();
      return o;
    }
    if (auto* x = dyn_cast<UserDefinedLiteral>(e)) {
      o["k"] = "call";
      callee(o, x->getDirectCallee());
      args(o, x);
      T();
      return o;
    }
    if (auto* x = dyn_cast<CallExpr>(e)) {
      o["k"] = "call";
      const FunctionDecl* f = x->getDirectCallee();
      if (f) callee(o, f);
      else o["fp"] = expr(x->getCallee());
      args(o, x);
      T();
      return o;
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      const CXXConstructorDecl* c = x->getConstructor();
      // Elidable copies/moves of temporaries vanish.
      if (x->isElidable() && x->getNumArgs() >= 1) return expr(x->getArg(0));
      o["k"] = "ctor";
      o["f"] = funcId(c);
      o["cls"] = qn(c->getParent());
      if (c->isCopyConstructor()) o["cp"] = 1;
      if (c->isMoveConstructor()) o["mv"] = 1;
      if (isProto(c->getParent())) o["pb"] = 1;
      json::Array a;
      bool ours = !relFile(c->getLocation()).empty();
      for (unsigned i = 0; i < x->getNumArgs(); ++i) {
        // Defaulted allocator and enable_if arguments of library classes carry no information.
        if (!ours && isa<CXXDefaultArgExpr>(x->getArg(i))) continue;
        a.push_back(expr(x->getArg(i)));
      }
      o["args"] = std::move(a);
      T();
      return o;
    }
    if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      o["k"] = "ctor";
      o["f"] = funcId(x->getConstructor());
      o["cls"] = qn(x->getConstructor()->getParent());
      o["args"] = json::Array();
      T();
      return o;
    }
    if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "new";
      o["nt"] = typeId(x->getAllocatedType());
      o["init"] = expr(x->getInitializer());
      if (x->isArray() && x->getArraySize()) o["n"] = expr(*x->getArraySize());
      T();
      return o;
    }
    if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
      o["k"] = "delete";
      o["e"] = expr(x->getArgument());
      return o;
    }
    if (auto* x = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str() +
                (x->isPostfix() ? "post" : "");
      o["e"] = expr(x->getSubExpr());
      T();
      return o;
    }
    if (auto* x = dyn_cast<BinaryOperator>(e)) {
      o["k"] = "bin";
      o["op"] = x->getOpcodeStr().str();
      o["a"] = expr(x->getLHS());
      o["b"] = expr(x->getRHS());
      T();
      return o;
    }
    if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) {
      return expr(x->getSemanticForm());
    }
    if (auto* x = dyn_cast<ConditionalOperator>(e)) {
      o["k"] = "cond";
      o["c"] = expr(x->getCond());
      o["a"] = expr(x->getTrueExpr());
      o["b"] = expr(x->getFalseExpr());
      T();
      return o;
    }
    if (auto* x = dyn_cast<BinaryConditionalOperator>(e)) {
      o["k"] = "cond";
      o["c"] = expr(x->getCommon());
      o["a"] = expr(x->getCommon());
      o["b"] = expr(x->getFalseExpr());
      T();
      return o;
    }
    if (auto* x = dyn_cast<CastExpr>(e)) {
      o["k"] = "cast";
      o["ck"] = x->getCastKindName();
      if (isa<ExplicitCastExpr>(x)) o["x"] = 1;
      o["e"] = expr(x->getSubExpr());
      o["ft"] = typeId(x->getSubExpr()->getType());
      T();
      return o;
    }
    if (auto* x = dyn_cast<LambdaExpr>(e)) {
      return lambda(x);
    }
    if (auto* x = dyn_cast<InitListExpr>(e)) {
      if (x->isTransparent() && x->getNumInits() == 1) return expr(x->getInit(0));
      const InitListExpr* s = x->isSemanticForm() ? x : x->getSemanticForm();
      if (!s) s = x;
      o["k"] = "ilist";
      T();
      const auto* rt = s->getType()->getAsCXXRecordDecl();
      if (rt && rt->isAggregate() && !s->getType()->isArrayType()) {
        json::Array fs;
        unsigned i = 0;
        for (const auto& b : rt->bases()) {
          (void)b;
          if (i < s->getNumInits()) {
            fs.push_back(json::Array{"<base>", expr(s->getInit(i))});
            ++i;
          }
        }
        for (const auto* f : rt->fields()) {
          if (f->isUnnamedBitfield()) continue;
          if (i >= s->getNumInits()) break;
          fs.push_back(json::Array{f->getNameAsString(), expr(s->getInit(i))});
          ++i;
        }
        o["fields"] = std::move(fs);
        o["cls"] = qn(rt);
      } else {
        json::Array el;
        for (unsigned i = 0; i < s->getNumInits(); ++i) el.push_back(expr(s->getInit(i)));
        o["elems"] = std::move(el);
      }
      return o;
    }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "idx";
      o["b"] = expr(x->getBase());
      o["i"] = expr(x->getIdx());
      T();
      return o;
    }
    if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) {
      o["k"] = "zero";
      T();
      return o;
    }
    if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
      o["k"] = "throw";
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    // Generic fallback: keep the children.
    o["k"] = "other";
    o["sk"] = e->getStmtClassName();
    json::Array ch;
    for (const Stmt* c : e->children()) {
      if (!c) continue;
      if (auto* ce = dyn_cast<Expr>(c)) ch.push_back(expr(ce));
    }
    o["ch"] = std::move(ch);
    T();
    return o;
  }

  void callee(json::Object& o, const FunctionDecl* f) {
    if (!f) return;
    o["f"] = funcId(f);
    o["qn"] = qn(f);
    o["n"] = f->getNameAsString();
    if (f->isNoReturn() || f->hasAttr<NoReturnAttr>()) o["nr"] = 1;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isVirtual()) o["virt"] = 1;
      if (m->isConst()) o["const"] = 1;
      if (m->isStatic()) o["static"] = 1;
      if (isProto(m->getParent())) o["pb"] = 1;
    }
    if (auto* ta = f->getTemplateSpecializationArgs()) {
      json::Array a;
      for (unsigned i = 0; i < ta->size() && i < 3; ++i) {
        const TemplateArgument& t = ta->get(i);
        if (t.getKind() == TemplateArgument::Type) a.push_back(typeId(t.getAsType()));
        else if (t.getKind() == TemplateArgument::Integral)
          a.push_back("#" + llvm::toString(t.getAsIntegral(), 10));
        else a.push_back(nullptr);
      }
      o["ta"] = std::move(a);
    }
    // mutability of reference/pointer parameters: 'w' = callee may write through it
    std::string pm;
    for (const ParmVarDecl* p : f->parameters()) {
      QualType t = p->getType();
      char c = 'v';
      if (t->isRValueReferenceType()) c = 'm';
      else if (t->isReferenceType() || t->isPointerType())
        c = t->getPointeeType().isConstQualified() ? 'c' : 'w';
      pm += c;
    }
    o["pm"] = pm;
  }

  template <class C>
  void args(json::Object& o, const C* x) {
    json::Array a;
    for (const Expr* arg : x->arguments()) a.push_back(expr(arg));
    o["args"] = std::move(a);
  }

  json::Value lambda(const LambdaExpr* x) {
    json::Object o;
    o["k"] = "lambda";
    o["l"] = line(x->getBeginLoc());
    json::Array caps;
    auto fit = x->getLambdaClass()->field_begin();
    unsigned i = 0;
    for (const LambdaCapture& c : x->captures()) {
      json::Object co;
      if (c.capturesThis()) {
        co["this"] = 1;
      } else if (c.capturesVariable()) {
        const ValueDecl* v = c.getCapturedVar();
        co["n"] = v->getNameAsString();
        co["d"] = declId(v);
        co["ref"] = c.getCaptureKind() == LCK_ByRef;
        co["t"] = typeId(v->getType());
        if (auto* vd = dyn_cast<VarDecl>(v))
          if (vd->isInitCapture()) co["init"] = expr(vd->getInit());
      }
      caps.push_back(std::move(co));
      ++i;
    }
    (void)fit;
    o["caps"] = std::move(caps);
    const CXXMethodDecl* m = x->getCallOperator();
    o["generic"] = x->isGenericLambda();
    if (x->isGenericLambda()) {
      if (auto* ft = x->getDependentCallOperator()) {
        for (auto* s : ft->specializations()) {
          if (s->hasBody()) { m = cast<CXXMethodDecl>(s); break; }
        }
      }
    }
    functionCommon(o, m);
    o["body"] = m->hasBody() ? stmt(m->getBody()) : stmt(x->getBody());
    return o;
  }

  json::Value var(const VarDecl* v) {
    json::Object o;
    o["n"] = v->getNameAsString();
    o["d"] = declId(v);
    o["t"] = typeId(v->getType());
    o["l"] = line(v->getLocation());
    if (v->getType()->isReferenceType()) o["ref"] = 1;
    if (v->isStaticLocal()) o["static"] = 1;
    if (v->hasInit()) o["init"] = expr(v->getInit());
    if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
      json::Array b;
      for (const BindingDecl* bd : dd->bindings()) {
        json::Object bo;
        bo["n"] = bd->getNameAsString();
        bo["d"] = declId(bd);
        b.push_back(std::move(bo));
      }
      o["bind"] = std::move(b);
    }
    return o;
  }

  json::Value stmt(const Stmt* s) {
    if (!s) return nullptr;
    if (auto* e = dyn_cast<Expr>(s)) {
      return expr(e);
    }
    json::Object o;
    o["l"] = line(s->getBeginLoc());
    if (auto* x = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "block";
      json::Array a;
      for (const Stmt* c : x->body()) a.push_back(stmt(c));
      o["s"] = std::move(a);
      o["el"] = line(x->getRBracLoc());
      return o;
    }
    if (auto* x = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl";
      json::Array a;
      for (const Decl* d : x->decls())
        if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(var(v));
      o["vars"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<IfStmt>(s)) {
      o["k"] = "if";
      if (x->getInit()) o["i"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["var"] = var(x->getConditionVariable());
      o["c"] = expr(x->getCond());
      o["t"] = stmt(x->getThen());
      o["e"] = stmt(x->getElse());
      return o;
    }
    if (auto* x = dyn_cast<WhileStmt>(s)) {
      o["k"] = "while";
      if (x->getConditionVariable()) o["var"] = var(x->getConditionVariable());
      o["c"] = expr(x->getCond());
      o["b"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<DoStmt>(s)) {
      o["k"] = "do";
      o["c"] = expr(x->getCond());
      o["b"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<ForStmt>(s)) {
      o["k"] = "for";
      o["i"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["var"] = var(x->getConditionVariable());
      o["c"] = expr(x->getCond());
      o["inc"] = expr(x->getInc());
      o["b"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "rfor";
      o["var"] = var(x->getLoopVariable());
      o["r"] = expr(x->getRangeInit());
      if (x->getBeginStmt() && x->getBeginStmt()->isSingleDecl())
        if (auto* bv = dyn_cast<VarDecl>(x->getBeginStmt()->getSingleDecl()))
          if (bv->getInit())
            if (auto* mc = dyn_cast<CXXMemberCallExpr>(bv->getInit()->IgnoreImplicit())) {
              json::Object bo;
              callee(bo, mc->getMethodDecl());
              o["beg"] = std::move(bo);
            }
      o["b"] = stmt(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "switch";
      if (x->getInit()) o["i"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["var"] = var(x->getConditionVariable());
      o["c"] = expr(x->getCond());
      o["b"] = stmt(x->getBody());
      const auto* et = x->getCond()->IgnoreParenImpCasts()->getType()->getAs<EnumType>();
      if (et && et->getDecl()->getDefinition()) {
        json::Array ev;
        for (const auto* ec : et->getDecl()->getDefinition()->enumerators())
          ev.push_back(json::Array{qn(ec), llvm::toString(ec->getInitVal(), 10)});
        o["enum"] = std::move(ev);
      }
      return o;
    }
    if (auto* x = dyn_cast<CaseStmt>(s)) {
      o["k"] = "case";
      o["v"] = expr(x->getLHS());
      o["s"] = stmt(x->getSubStmt());
      return o;
    }
    if (auto* x = dyn_cast<DefaultStmt>(s)) {
      o["k"] = "default";
      o["s"] = stmt(x->getSubStmt());
      return o;
    }
    if (isa<BreakStmt>(s)) { o["k"] = "break"; return o; }
    if (isa<ContinueStmt>(s)) { o["k"] = "continue"; return o; }
    if (isa<NullStmt>(s)) { o["k"] = "nop"; return o; }
    if (auto* x = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "return";
      o["e"] = expr(x->getRetValue());
      return o;
    }
    if (auto* x = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "try";
      o["b"] = stmt(x->getTryBlock());
      json::Array h;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i)
        h.push_back(stmt(x->getHandler(i)->getHandlerBlock()));
      o["h"] = std::move(h);
      return o;
    }
    if (auto* x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
    if (auto* x = dyn_cast<LabelStmt>(s)) {
      o["k"] = "label";
      o["n"] = x->getName();
      o["s"] = stmt(x->getSubStmt());
      return o;
    }
    if (auto* x = dyn_cast<GotoStmt>(s)) {
      o["k"] = "goto";
      o["n"] = x->getLabel()->getNameAsString();
      return o;
    }
    o["k"] = "unk";
    o["sk"] = s->getStmtClassName();
    json::Array ch;
    for (const Stmt* c : s->children()) if (c) ch.push_back(stmt(c));
    o["ch"] = std::move(ch);
    return o;
  }

  json::Value attrExprs(const Expr* const* b, const Expr* const* e) {
    json::Array a;
    for (; b != e; ++b) a.push_back(expr(*b));
    return a;
  }

  void functionCommon(json::Object& o, const FunctionDecl* f) {
    o["id"] = funcId(f);
    json::Array ps;
    for (const ParmVarDecl* p : f->parameters()) {
      json::Object po;
      po["n"] = p->getNameAsString();
      po["d"] = declId(p);
      po["t"] = typeId(p->getType());
      if (p->getType()->isReferenceType()) {
        po["ref"] = 1;
        if (!p->getType()->getPointeeType().isConstQualified()) po["mut"] = 1;
      } else if (p->getType()->isPointerType()) {
        po["ptr"] = 1;
        if (!p->getType()->getPointeeType().isConstQualified()) po["mut"] = 1;
      }
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    o["ret"] = typeId(f->getReturnType());
    json::Array req, excl;
    for (const FunctionDecl* r : f->redecls()) {
      for (const auto* a : r->specific_attrs<RequiresCapabilityAttr>())
        for (const Expr* e : a->args()) req.push_back(expr(e));
      for (const auto* a : r->specific_attrs<LocksExcludedAttr>())
        for (const Expr* e : a->args()) excl.push_back(expr(e));
    }
    if (!req.empty()) o["req"] = std::move(req);
    if (!excl.empty()) o["excl"] = std::move(excl);
  }

  json::Value function(const FunctionDecl* f) {
    declIds_.clear();
    json::Object o;
    functionCommon(o, f);
    o["qn"] = qn(f);
    o["n"] = f->getNameAsString();
    o["file"] = relFile(f->getLocation());
    o["l"] = line(f->getBeginLoc());
    o["el"] = line(f->getEndLoc());
    o["kind"] = isa<CXXConstructorDecl>(f)  ? "ctor"
                : isa<CXXDestructorDecl>(f) ? "dtor"
                : isa<CXXMethodDecl>(f)     ? "method"
                                            : "fn";
    o["internal"] = internalLinkage(f);
    if (f->isTemplateInstantiation()) o["inst"] = 1;
    if (f->isDefaulted() || f->isImplicit()) o["implicit"] = 1;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = qn(m->getParent());
      o["clst"] = typeId(ctx_.getRecordType(m->getParent()));
      if (m->isVirtual()) o["virt"] = 1;
      if (m->isStatic()) o["static"] = 1;
      if (m->isConst()) o["const"] = 1;
      if (m->getAccess() == AS_private) o["priv"] = 1;
      if (m->getAccess() == AS_protected) o["prot"] = 1;
      json::Array ov;
      for (const CXXMethodDecl* b : m->overridden_methods()) ov.push_back(funcId(b));
      if (!ov.empty()) o["over"] = std::move(ov);
    }
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      if (c->isCopyOrMoveConstructor()) o["cpctor"] = 1;
      if (c->isDelegatingConstructor()) o["deleg"] = 1;
      json::Array is;
      for (const CXXCtorInitializer* i : c->inits()) {
        json::Object io;
        if (i->isAnyMemberInitializer()) io["field"] = i->getAnyMember()->getNameAsString();
        else if (i->isBaseInitializer())
          io["base"] = typeId(QualType(i->getBaseClass(), 0));
        else io["deleg"] = 1;
        io["written"] = i->isWritten();
        io["e"] = expr(i->getInit());
        if (i->getInit()) io["l"] = line(i->getSourceLocation().isValid() ? i->getSourceLocation() : c->getLocation());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    o["body"] = stmt(f->getBody());
    return o;
  }

  json::Value record(const CXXRecordDecl* r) {
    declIds_.clear();
    json::Object o;
    o["qn"] = qn(r);
    o["t"] = typeId(ctx_.getRecordType(r));
    o["file"] = relFile(r->getLocation());
    o["l"] = line(r->getLocation());
    o["agg"] = r->isAggregate();
    o["udctor"] = r->hasUserDeclaredConstructor();
    if (isa<ClassTemplateSpecializationDecl>(r)) o["inst"] = 1;
    json::Array fs;
    for (const FieldDecl* f : r->fields()) {
      json::Object fo;
      fo["n"] = f->getNameAsString();
      fo["t"] = typeId(f->getType());
      fo["l"] = line(f->getLocation());
      fo["dinit"] = f->hasInClassInitializer();
      QualType ft = f->getType();
      bool pod = ft->isScalarType() || ft->isEnumeralType();
      if (ft->isArrayType()) {
        QualType et = ctx_.getBaseElementType(ft);
        pod = et->isScalarType();
      }
      fo["scalar"] = pod;
      fo["mutable"] = f->isMutable();
      fo["const"] = ft.isConstQualified();
      fo["isref"] = ft->isReferenceType();
      if (auto* rt = ft->getAsCXXRecordDecl()) fo["cls"] = qn(rt);
      json::Array g;
      for (const auto* a : f->specific_attrs<GuardedByAttr>()) g.push_back(expr(a->getArg()));
      if (!g.empty()) fo["guard"] = std::move(g);
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    json::Array bs;
    for (const auto& b : r->bases()) {
      if (auto* br = b.getType()->getAsCXXRecordDecl()) bs.push_back(qn(br));
    }
    o["bases"] = std::move(bs);
    json::Array ms;
    for (const CXXMethodDecl* m : r->methods()) {
      if (m->isImplicit()) continue;
      json::Object mo;
      mo["n"] = m->getNameAsString();
      mo["id"] = funcId(m);
      mo["acc"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_private ? "private" : "protected";
      if (m->isPureVirtual()) mo["pure"] = 1;
      if (m->isVirtual()) mo["virt"] = 1;
      if (m->isDeleted()) mo["del"] = 1;
      if (m->isConst()) mo["const"] = 1;
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    return o;
  }

  json::Value global(const VarDecl* v) {
    declIds_.clear();
    json::Object o;
    o["qn"] = qn(v);
    o["t"] = typeId(v->getType());
    o["file"] = relFile(v->getLocation());
    o["l"] = line(v->getLocation());
    o["const"] = v->getType().isConstQualified();
    if (v->hasInit()) o["init"] = expr(v->getInit());
    return o;
  }

  std::vector<std::string> typeNames_;

 private:
  ASTContext& ctx_;
  SourceManager& sm_;
  PrintingPolicy pp_;
  std::unique_ptr<MangleContext> mangle_;
  std::unordered_map<void*, int> types_;
  std::unordered_map<std::string, int> typeByName_;
  std::unordered_map<const FunctionDecl*, std::string> ids_;
  std::unordered_map<const CXXRecordDecl*, bool> proto_;
  std::unordered_map<const ValueDecl*, int> declIds_;
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  Visitor(ASTContext& ctx, Dumper& d, json::Array& fns, json::Array& recs,
          json::Array& globals)
      : ctx_(ctx), d_(d), fns_(fns), recs_(recs), globals_(globals) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  bool VisitFunctionDecl(FunctionDecl* f) {
    if (!f->doesThisDeclarationHaveABody()) return true;
    if (f->isDependentContext()) return true;
    if (d_.relFile(f->getLocation()).empty()) return true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) return true;
    if (f->isDefaulted() && !isa<CXXConstructorDecl>(f)) return true;
    std::string id = d_.funcId(f);
    if (!seen_.insert(id).second) return true;
    fns_.push_back(d_.function(f));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    if (!r->isThisDeclarationADefinition() || r->isLambda()) return true;
    if (r->isDependentContext()) return true;
    if (d_.relFile(r->getLocation()).empty()) return true;
    recs_.push_back(d_.record(r));
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    if (!v->hasGlobalStorage() || v->isLocalVarDecl()) return true;
    if (v->getDeclContext()->isDependentContext()) return true;
    if (d_.relFile(v->getLocation()).empty()) return true;
    if (v->isThisDeclarationADefinition() == VarDecl::DeclarationOnly &&
        !v->hasInit()) return true;
    globals_.push_back(d_.global(v));
    return true;
  }

 private:
  ASTContext& ctx_;
  Dumper& d_;
  json::Array& fns_;
  json::Array& recs_;
  json::Array& globals_;
  std::set<std::string> seen_;
};

class Consumer : public ASTConsumer {
 public:
  Consumer(CompilerInstance& ci, std::string file) : ci_(ci), file_(file) {}
  void HandleTranslationUnit(ASTContext& ctx) override {
    Dumper d(ctx);
    json::Array fns, recs, globals;
    Visitor v(ctx, d, fns, recs, globals);
    v.TraverseDecl(ctx.getTranslationUnitDecl());
    json::Object o;
    std::string f = Dumper::canonPath(file_);
    o["tu"] = f;
    o["errors"] = (int)ci_.getDiagnostics().getClient()->getNumErrors();
    o["functions"] = std::move(fns);
    o["records"] = std::move(recs);
    o["globals"] = std::move(globals);
    json::Array ts;
    for (auto& t : d.typeNames_) ts.push_back(json::isUTF8(t) ? t : json::fixUTF8(t));
    o["types"] = std::move(ts);
    json::Array deps;
    auto& sm = ctx.getSourceManager();
    for (auto it = sm.fileinfo_begin(); it != sm.fileinfo_end(); ++it) {
      std::string p = Dumper::canonPath(it->first.getName().str());
      if (p.rfind(gRepo + "/", 0) == 0) deps.push_back(p.substr(gRepo.size() + 1));
    }
    o["deps"] = std::move(deps);
    std::string rel = f;
    if (rel.rfind(gRepo + "/", 0) == 0) rel = rel.substr(gRepo.size() + 1);
    for (auto& c : rel) if (c == '/') c = '+';
    std::string out = gOutDir + "/" + rel + ".json";
    std::error_code ec;
    llvm::raw_fd_ostream os(out + ".tmp", ec);
    os << json::Value(std::move(o));
    os.close();
    llvm::sys::fs::rename(out + ".tmp", out);
  }

 private:
  CompilerInstance& ci_;
  std::string file_;
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci,
                                                 StringRef file) override {
    return std::make_unique<Consumer>(ci, file.str());
  }
};

}  // namespace

int main(int argc, const char** argv) {
  if (argc < 4) return 2;
  gOutDir = argv[1];
  gRepo = argv[2];
  std::vector<std::string> files, flags;
  bool after = false;
  for (int i = 3; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--") { after = true; continue; }
    (after ? flags : files).push_back(a);
  }
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, files);
  tool.setPrintErrorMessage(true);
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
