// maliput static-analysis fact extractor.
//
// Parses one translation unit with the real clang front end and writes, as JSON, the type-resolved program that the
// rules under /verif/sa analyse: every function defined under the given source roots (structured statements with
// resolved callees, fields, enumerators and conversions), every class (bases, fields, methods, special members), every
// enum, and every namespace-scope or static-member variable with its initialiser.  Nothing is executed.
#include <fstream>
#include <map>
#include <set>
#include <string>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> g_roots;
static std::string g_out;

namespace {

class Emitter {
 public:
  explicit Emitter(ASTContext& ctx) : ctx_(ctx), sm_(ctx.getSourceManager()), pp_(ctx.getPrintingPolicy()) {
    pp_.FullyQualifiedName = true;
    pp_.SuppressTagKeyword = true;
    pp_.PrintCanonicalTypes = true;
  }

  std::string Usr(const Decl* d) {
    llvm::SmallString<128> buf;
    if (index::generateUSRForDecl(d, buf)) return "";
    return std::string(buf.str());
  }

  std::string Ty(QualType t) {
    if (t.isNull()) return "";
    return t.getCanonicalType().getAsString(pp_);
  }
  std::string TyS(QualType t) {
    if (t.isNull()) return "";
    std::string s = Ty(t);
    if (s.size() > 400) s.resize(400);
    return s;
  }

  int Line(SourceLocation l) { return static_cast<int>(sm_.getExpansionLineNumber(l)); }
  std::string File(SourceLocation l) {
    auto fid = sm_.getFileID(sm_.getExpansionLoc(l));
    if (auto fe = sm_.getFileEntryRefForID(fid)) {
      llvm::SmallString<256> p(fe->getName());
      sm_.getFileManager().makeAbsolutePath(p);
      llvm::sys::path::remove_dots(p, true);
      return std::string(p.str());
    }
    return "";
  }
  bool InRoots(SourceLocation l) {
    if (l.isInvalid()) return false;
    std::string f = File(l);
    for (auto& r : g_roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }

  int Id(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = ids_.find(d);
    if (it != ids_.end()) return it->second;
    int n = static_cast<int>(ids_.size()) + 1;
    ids_[d] = n;
    return n;
  }

  std::string QN(const NamedDecl* d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, pp_);
    return os.str();
  }

  // Qualified name with no template arguments.
  std::string QNPlain(const NamedDecl* d) {
    std::string name = d->getDeclName() ? d->getNameAsString() : std::string("(anonymous)");
    std::vector<std::string> parts;
    const DeclContext* dc = d->getDeclContext();
    while (dc && !dc->isTranslationUnit()) {
      if (auto* ns = dyn_cast<NamespaceDecl>(dc)) {
        if (ns->isAnonymousNamespace())
          parts.push_back("(anon)");
        else if (!ns->isInline())
          parts.push_back(ns->getNameAsString());
      } else if (auto* r = dyn_cast<RecordDecl>(dc)) {
        std::string rn = r->getNameAsString();
        if (auto* cr = dyn_cast<CXXRecordDecl>(r))
          if (cr->isLambda()) rn = "(lambda)";
        parts.push_back(rn.empty() ? "(anon)" : rn);
      } else if (auto* e = dyn_cast<EnumDecl>(dc)) {
        parts.push_back(e->getNameAsString());
      } else if (auto* f = dyn_cast<FunctionDecl>(dc)) {
        parts.push_back(f->getNameAsString());
      }
      dc = dc->getParent();
    }
    std::string out;
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) out += *it + "::";
    return out + name;
  }

  // Set when the expression being emitted is only read (an lvalue-to-rvalue or add-const conversion was stripped).
  bool ro_{false};

  static const Expr* Strip(const Expr* e, bool* ro = nullptr) {
    while (e) {
      if (auto* x = dyn_cast<FullExpr>(e)) {
        e = x->getSubExpr();
      } else if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
        if (ro && (x->getCastKind() == CK_LValueToRValue ||
                   ((x->getCastKind() == CK_NoOp || x->getCastKind() == CK_DerivedToBase ||
                     x->getCastKind() == CK_UncheckedDerivedToBase) &&
                    (x->getType().isConstQualified() ||
                     (x->getType()->isPointerType() && x->getType()->getPointeeType().isConstQualified())))))
          *ro = true;
        e = x->getSubExpr();
      } else if (auto* x = dyn_cast<ParenExpr>(e)) {
        e = x->getSubExpr();
      } else if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) {
        e = x->getSubExpr();
      } else if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) {
        e = x->getSubExpr();
      } else if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) {
        e = x->getReplacement();
      } else if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) {
        e = x->getExpr();
      } else if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) {
        e = x->getExpr();
      } else if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) {
        e = x->getSubExpr();
      } else if (auto* x = dyn_cast<OpaqueValueExpr>(e)) {
        if (!x->getSourceExpr()) return e;
        e = x->getSourceExpr();
      } else if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) {
        e = x->getSemanticForm();
      } else {
        return e;
      }
    }
    return e;
  }

  json::Array Args(const Expr* const* b, unsigned n) {
    json::Array a;
    for (unsigned i = 0; i < n; ++i) a.push_back(E(b[i]));
    return a;
  }

  void CalleeInfo(json::Object& o, const FunctionDecl* f, bool qualified) {
    o["n"] = QNPlain(f);
    o["c"] = Usr(f);
    if (f->isNoReturn() || f->hasAttr<NoReturnAttr>() || f->hasAttr<CXX11NoReturnAttr>() ||
        f->getType()->castAs<FunctionType>()->getNoReturnAttr())
      o["nr"] = true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isVirtual() && !qualified && !m->hasAttr<FinalAttr>()) o["virt"] = true;
      if (m->isConst()) o["cst"] = true;
      if (m->isStatic()) o["st"] = true;
    }
    o["rt"] = TyS(f->getReturnType());
  }

  json::Value E(const Expr* e0, bool ro_in = false) {
    bool ro = ro_in;
    const Expr* e = Strip(e0, &ro);
    if (!e) return json::Object{{"k", "null"}};
    json::Object o;
    auto loc = [&](const Expr* x) { o["l"] = Line(x->getBeginLoc()); };
    if (auto* x = dyn_cast<IntegerLiteral>(e)) {
      llvm::SmallString<24> s;
      x->getValue().toStringSigned(s);
      o["k"] = "int";
      o["v"] = std::string(s.str());
      return o;
    }
    if (auto* x = dyn_cast<FloatingLiteral>(e)) {
      o["k"] = "flt";
      llvm::SmallString<32> s;
      x->getValue().toString(s);
      o["v"] = std::string(s.str());
      return o;
    }
    if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      o["k"] = "bool";
      o["v"] = x->getValue();
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      o["k"] = "nullptr";
      return o;
    }
    if (auto* x = dyn_cast<StringLiteral>(e)) {
      o["k"] = "str";
      std::string s = x->isOrdinary() ? x->getString().str() : std::string("?");
      if (!json::isUTF8(s)) s = json::fixUTF8(s);
      o["v"] = s;
      return o;
    }
    if (auto* x = dyn_cast<CharacterLiteral>(e)) {
      o["k"] = "chr";
      o["v"] = static_cast<int64_t>(x->getValue());
      return o;
    }
    if (isa<PredefinedExpr>(e)) {
      o["k"] = "str";
      o["v"] = "__func__";
      return o;
    }
    if (isa<CXXThisExpr>(e)) {
      o["k"] = "this";
      return o;
    }
    if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl* d = x->getDecl();
      if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        o["k"] = "enum";
        o["q"] = QNPlain(ec);
        if (auto* ed = dyn_cast<EnumDecl>(ec->getDeclContext())) o["e"] = QNPlain(ed);
        return o;
      }
      if (auto* f = dyn_cast<FunctionDecl>(d)) {
        o["k"] = "fn";
        CalleeInfo(o, f, true);
        return o;
      }
      o["k"] = "ref";
      o["id"] = Id(d);
      o["n"] = d->getNameAsString();
      o["t"] = TyS(d->getType());
      if (auto* v = dyn_cast<VarDecl>(d)) {
        if (!v->isLocalVarDeclOrParm() || v->isStaticLocal()) {
          if (!v->isInitCapture()) {
            o["g"] = QNPlain(v);
          }
        }
        if (v->isStaticLocal()) o["sl"] = true;
      }
      if (isa<BindingDecl>(d)) o["b"] = true;
      if (ro || d->getType().isConstQualified()) o["ro"] = true;
      return o;
    }
    if (auto* x = dyn_cast<MemberExpr>(e)) {
      const ValueDecl* d = x->getMemberDecl();
      if (auto* v = dyn_cast<VarDecl>(d)) {
        o["k"] = "ref";
        o["id"] = Id(v);
        o["n"] = v->getNameAsString();
        o["g"] = QNPlain(v);
        o["t"] = TyS(v->getType());
        return o;
      }
      if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        o["k"] = "enum";
        o["q"] = QNPlain(ec);
        return o;
      }
      if (auto* m = dyn_cast<CXXMethodDecl>(d)) {
        o["k"] = "mfn";
        CalleeInfo(o, m, x->hasQualifier());
        o["b"] = E(x->getBase());
        return o;
      }
      o["k"] = "mem";
      o["f"] = QNPlain(d);
      o["b"] = E(x->getBase(), ro || x->isArrow());
      if (ro) o["ro"] = true;
      if (x->isArrow()) o["ar"] = true;
      o["t"] = TyS(d->getType());
      loc(x);
      return o;
    }
    if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      o["k"] = "op";
      o["op"] = getOperatorSpelling(x->getOperator());
      if (auto* f = x->getDirectCallee()) CalleeInfo(o, f, false);
      o["a"] = Args(x->getArgs(), x->getNumArgs());
      if (x->getNumArgs()) o["at"] = TyS(x->getArg(0)->getType());
      o["t"] = TyS(x->getType());
      loc(x);
      return o;
    }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "call";
      if (auto* m = x->getMethodDecl()) {
        bool q = false;
        if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) q = me->hasQualifier();
        CalleeInfo(o, m, q);
        if (isa<CXXConversionDecl>(m)) o["conv"] = true;
        o["o"] = E(x->getImplicitObjectArgument());
        o["ot"] = TyS(x->getImplicitObjectArgument()->getType());
      } else {
        o["k"] = "icall";
        o["f"] = E(x->getCallee());
      }
      o["a"] = Args(x->getArgs(), x->getNumArgs());
      o["t"] = TyS(x->getType());
      loc(x);
      return o;
    }
    if (auto* x = dyn_cast<CallExpr>(e)) {
      if (auto* f = x->getDirectCallee()) {
        o["k"] = "call";
        CalleeInfo(o, f, true);
        if (auto* ta = f->getTemplateSpecializationArgs()) {
          json::Array tas;
          for (auto& a : ta->asArray()) {
            if (a.getKind() == TemplateArgument::Type)
              tas.push_back(TyS(a.getAsType()));
            else
              tas.push_back("?");
            break;
          }
          o["ta"] = std::move(tas);
        }
      } else {
        o["k"] = "icall";
        o["f"] = E(x->getCallee());
      }
      o["a"] = Args(x->getArgs(), x->getNumArgs());
      o["t"] = TyS(x->getType());
      loc(x);
      return o;
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      const CXXConstructorDecl* c = x->getConstructor();
      if (c->isCopyOrMoveConstructor() && x->getNumArgs() >= 1) {
        o["k"] = c->isMoveConstructor() ? "move" : "copy";
        o["e"] = E(x->getArg(0), c->isCopyConstructor());
        o["t"] = TyS(x->getType());
        return o;
      }
      o["k"] = "ctor";
      o["q"] = QNPlain(c->getParent());
      o["c"] = Usr(c);
      o["t"] = TyS(x->getType());
      o["a"] = Args(x->getArgs(), x->getNumArgs());
      json::Array dp;
      for (unsigned i = 0; i < x->getNumArgs(); ++i)
        if (isa<CXXDefaultArgExpr>(x->getArg(i))) dp.push_back(static_cast<int64_t>(i));
      if (!dp.empty()) o["da"] = std::move(dp);
      if (c->isDefaultConstructor() && !c->isUserProvided()) o["dflt"] = true;
      loc(x);
      return o;
    }
    if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      o["k"] = "ctor";
      o["q"] = QNPlain(x->getConstructor()->getParent());
      o["c"] = Usr(x->getConstructor());
      o["a"] = json::Array{};
      return o;
    }
    if (auto* x = dyn_cast<InitListExpr>(e)) {
      const InitListExpr* s = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
      o["k"] = "init";
      o["t"] = TyS(s->getType());
      json::Array a;
      for (unsigned i = 0; i < s->getNumInits(); ++i) a.push_back(E(s->getInit(i)));
      o["a"] = std::move(a);
      if (auto* rt = s->getType()->getAsCXXRecordDecl()) {
        o["q"] = QNPlain(rt);
        json::Array fs;
        for (auto& b : rt->bases()) fs.push_back("base:" + TyS(b.getType()));
        for (auto* f : rt->fields()) fs.push_back(QNPlain(f));
        o["fs"] = std::move(fs);
      }
      loc(x);
      return o;
    }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
      o["k"] = "zero";
      o["t"] = TyS(e->getType());
      return o;
    }
    if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "new";
      o["t"] = TyS(x->getAllocatedType());
      if (x->getConstructExpr())
        o["e"] = E(x->getConstructExpr());
      else if (x->getInitializer())
        o["e"] = E(x->getInitializer());
      loc(x);
      return o;
    }
    if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
      o["k"] = "delete";
      o["e"] = E(x->getArgument());
      loc(x);
      return o;
    }
    if (auto* x = dyn_cast<ExplicitCastExpr>(e)) {
      const Expr* sub = Strip(x->getSubExpr());
      if (isa<CXXConstructExpr>(sub) || isa<InitListExpr>(sub)) return E(sub);
      o["k"] = "cast";
      if (isa<CXXDynamicCastExpr>(x))
        o["ck"] = "dynamic";
      else if (isa<CXXConstCastExpr>(x))
        o["ck"] = "const";
      else if (isa<CXXReinterpretCastExpr>(x))
        o["ck"] = "reinterpret";
      else if (isa<CStyleCastExpr>(x))
        o["ck"] = "c";
      else
        o["ck"] = "static";
      o["t"] = TyS(x->getTypeAsWritten());
      o["ft"] = TyS(x->getSubExpr()->getType());
      o["e"] = E(x->getSubExpr());
      loc(x);
      return o;
    }
    if (auto* x = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) o["post"] = true;
      o["e"] = E(x->getSubExpr());
      o["t"] = TyS(x->getType());
      loc(x);
      return o;
    }
    if (auto* x = dyn_cast<BinaryOperator>(e)) {
      o["k"] = x->isAssignmentOp() ? "asg" : "bin";
      o["op"] = x->getOpcodeStr().str();
      o["a"] = E(x->getLHS());
      o["b"] = E(x->getRHS());
      o["t"] = TyS(x->getType());
      o["lt"] = TyS(x->getLHS()->IgnoreParenImpCasts()->getType());
      loc(x);
      return o;
    }
    if (auto* x = dyn_cast<AbstractConditionalOperator>(e)) {
      o["k"] = "cond";
      o["c"] = E(x->getCond());
      o["a"] = E(x->getTrueExpr());
      o["b"] = E(x->getFalseExpr());
      return o;
    }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "idx";
      o["b"] = E(x->getBase(), ro);
      o["i"] = E(x->getIdx());
      return o;
    }
    if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
      o["k"] = "throw";
      if (x->getSubExpr()) {
        o["e"] = E(x->getSubExpr());
        o["t"] = TyS(x->getSubExpr()->getType());
      }
      loc(x);
      return o;
    }
    if (auto* x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "lam";
      loc(x);
      json::Array caps;
      auto ii = x->capture_init_begin();
      for (auto c = x->capture_begin(); c != x->capture_end(); ++c, ++ii) {
        json::Object co;
        if (c->capturesThis()) {
          co["k"] = "this";
          co["ref"] = true;
        } else if (c->capturesVariable()) {
          co["k"] = "var";
          co["id"] = Id(c->getCapturedVar());
          co["n"] = c->getCapturedVar()->getNameAsString();
          co["ref"] = c->getCaptureKind() == LCK_ByRef;
          if (auto* vd = dyn_cast<VarDecl>(c->getCapturedVar()))
            if (vd->isInitCapture()) co["init"] = E(vd->getInit());
        }
        caps.push_back(std::move(co));
      }
      o["cap"] = std::move(caps);
      const CXXMethodDecl* op = x->getCallOperator();
      if (x->isGenericLambda()) {
        if (auto* ft = op->getDescribedFunctionTemplate())
          for (auto* sp : ft->specializations())
            if (sp->hasBody() && sp->getBody()) {
              op = cast<CXXMethodDecl>(sp);
              break;
            }
      }
      o["f"] = LambdaFn(op, x);
      return o;
    }
    if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      o["k"] = "sizeof";
      return o;
    }
    if (auto* x = dyn_cast<CXXDependentScopeMemberExpr>(e)) {
      o["k"] = "dmem";
      o["n"] = x->getMember().getAsString();
      if (!x->isImplicitAccess()) o["b"] = E(x->getBase());
      loc(x);
      return o;
    }
    if (auto* x = dyn_cast<OverloadExpr>(e)) {
      o["k"] = "ovl";
      o["n"] = x->getName().getAsString();
      if (auto* m = dyn_cast<UnresolvedMemberExpr>(x))
        if (!m->isImplicitAccess()) o["b"] = E(m->getBase());
      return o;
    }
    if (auto* x = dyn_cast<CXXUnresolvedConstructExpr>(e)) {
      o["k"] = "uctor";
      o["t"] = TyS(x->getTypeAsWritten());
      json::Array a;
      for (auto* s : x->arguments()) a.push_back(E(s));
      o["a"] = std::move(a);
      return o;
    }
    // Fallback: class name plus children expressions.
    o["k"] = "other";
    o["cls"] = e->getStmtClassName();
    json::Array ch;
    for (const Stmt* c : e->children()) {
      if (!c) continue;
      if (auto* ce = dyn_cast<Expr>(c))
        ch.push_back(E(ce));
    }
    o["ch"] = std::move(ch);
    loc(e);
    return o;
  }

  json::Object LambdaFn(const CXXMethodDecl* op, const LambdaExpr* x) {
    json::Object f;
    json::Array ps;
    for (auto* p : op->parameters()) ps.push_back(Parm(p));
    f["params"] = std::move(ps);
    f["ret"] = TyS(op->getReturnType());
    const Stmt* body = op->getBody() ? op->getBody() : x->getBody();
    f["body"] = S(body);
    f["line"] = Line(x->getBeginLoc());
    f["file"] = File(x->getBeginLoc());
    return f;
  }

  json::Object Parm(const ParmVarDecl* p) {
    json::Object o;
    o["id"] = Id(p);
    o["n"] = p->getNameAsString();
    o["t"] = TyS(p->getType());
    if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg() && p->getDefaultArg())
      o["d"] = E(p->getDefaultArg());
    return o;
  }

  json::Object VarD(const VarDecl* v) {
    json::Object o;
    o["id"] = Id(v);
    o["n"] = v->getNameAsString();
    o["t"] = TyS(v->getType());
    o["l"] = Line(v->getBeginLoc());
    if (v->isStaticLocal()) o["sl"] = true;
    if (v->getType()->isReferenceType()) o["r"] = true;
    if (v->getType().isConstQualified()) o["cq"] = true;
    if (v->getInit()) o["i"] = E(v->getInit());
    if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
      json::Array bs;
      int idx = 0;
      for (auto* b : dd->bindings()) {
        json::Object bo;
        bo["id"] = Id(b);
        bo["n"] = b->getNameAsString();
        bo["x"] = idx++;
        if (auto* hv = b->getHoldingVar()) bo["hid"] = Id(hv);
        if (auto* be = b->getBinding()) {
          const Expr* s = Strip(be);
          if (auto* me = dyn_cast_or_null<MemberExpr>(s)) bo["f"] = QNPlain(me->getMemberDecl());
        }
        bs.push_back(std::move(bo));
      }
      o["bind"] = std::move(bs);
    }
    return o;
  }

  json::Value S(const Stmt* s) {
    if (!s) return nullptr;
    json::Object o;
    o["l"] = Line(s->getBeginLoc());
    if (auto* x = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "blk";
      json::Array a;
      for (auto* c : x->body()) a.push_back(S(c));
      o["s"] = std::move(a);
      o["el"] = Line(x->getEndLoc());
      return o;
    }
    if (auto* x = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl";
      json::Array a;
      for (auto* d : x->decls()) {
        if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(VarD(v));
      }
      o["d"] = std::move(a);
      return o;
    }
    if (auto* x = dyn_cast<IfStmt>(s)) {
      o["k"] = "if";
      if (x->isConstexpr()) {
        o["ce"] = true;
      }
      if (x->getInit()) o["init"] = S(x->getInit());
      if (x->getConditionVariable()) o["cv"] = VarD(x->getConditionVariable());
      o["c"] = E(x->getCond());
      o["t"] = S(x->getThen());
      if (x->getElse()) o["e"] = S(x->getElse());
      return o;
    }
    if (auto* x = dyn_cast<ForStmt>(s)) {
      o["k"] = "for";
      if (x->getInit()) o["init"] = S(x->getInit());
      if (x->getCond()) o["c"] = E(x->getCond());
      if (x->getInc()) o["inc"] = E(x->getInc());
      o["b"] = S(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "rfor";
      if (x->getInit()) o["init"] = S(x->getInit());
      o["v"] = VarD(x->getLoopVariable());
      o["r"] = E(x->getRangeInit());
      o["rt"] = TyS(x->getRangeInit()->getType());
      o["b"] = S(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<WhileStmt>(s)) {
      o["k"] = "while";
      if (x->getConditionVariable()) o["cv"] = VarD(x->getConditionVariable());
      o["c"] = E(x->getCond());
      o["b"] = S(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<DoStmt>(s)) {
      o["k"] = "do";
      o["c"] = E(x->getCond());
      o["b"] = S(x->getBody());
      return o;
    }
    if (auto* x = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "ret";
      if (x->getRetValue()) o["e"] = E(x->getRetValue());
      return o;
    }
    if (isa<BreakStmt>(s)) {
      o["k"] = "brk";
      return o;
    }
    if (isa<ContinueStmt>(s)) {
      o["k"] = "cont";
      return o;
    }
    if (auto* x = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "sw";
      if (x->getInit()) o["init"] = S(x->getInit());
      if (x->getConditionVariable()) o["cv"] = VarD(x->getConditionVariable());
      o["c"] = E(x->getCond());
      o["b"] = S(x->getBody());
      o["t"] = TyS(Strip(x->getCond())->getType());
      return o;
    }
    if (auto* x = dyn_cast<CaseStmt>(s)) {
      o["k"] = "case";
      o["v"] = E(x->getLHS());
      o["s"] = S(x->getSubStmt());
      return o;
    }
    if (auto* x = dyn_cast<DefaultStmt>(s)) {
      o["k"] = "dflt";
      o["s"] = S(x->getSubStmt());
      return o;
    }
    if (auto* x = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "try";
      o["b"] = S(x->getTryBlock());
      json::Array hs;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        auto* h = x->getHandler(i);
        json::Object ho;
        if (h->getExceptionDecl()) {
          ho["t"] = TyS(h->getCaughtType());
          ho["v"] = VarD(h->getExceptionDecl());
        }
        ho["b"] = S(h->getHandlerBlock());
        hs.push_back(std::move(ho));
      }
      o["h"] = std::move(hs);
      return o;
    }
    if (isa<NullStmt>(s)) {
      o["k"] = "nop";
      return o;
    }
    if (auto* x = dyn_cast<AttributedStmt>(s)) return S(x->getSubStmt());
    if (auto* x = dyn_cast<Expr>(s)) {
      o["k"] = "x";
      o["e"] = E(x);
      return o;
    }
    o["k"] = "other";
    o["cls"] = s->getStmtClassName();
    return o;
  }

  json::Object Fn(const FunctionDecl* f) {
    json::Object o;
    o["q"] = QNPlain(f);
    o["c"] = Usr(f);
    o["file"] = File(f->getLocation());
    o["line"] = Line(f->getLocation());
    o["eline"] = Line(f->getEndLoc());
    o["ret"] = TyS(f->getReturnType());
    json::Array ps;
    for (auto* p : f->parameters()) ps.push_back(Parm(p));
    o["params"] = std::move(ps);
    o["dep"] = f->isDependentContext();
    if (f->isTemplateInstantiation()) o["inst"] = true;
    if (f->isDefaulted()) o["dflt"] = true;
    o["lnk"] = f->isExternallyVisible();
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = QNPlain(m->getParent());
      o["virt"] = m->isVirtual();
      o["cst"] = m->isConst();
      o["static"] = m->isStatic();
      json::Array ov;
      for (auto* b : m->overridden_methods()) ov.push_back(Usr(b));
      o["ov"] = std::move(ov);
    }
    switch (f->getAccess()) {
      case AS_public:
        o["acc"] = "public";
        break;
      case AS_protected:
        o["acc"] = "protected";
        break;
      case AS_private:
        o["acc"] = "private";
        break;
      default:
        o["acc"] = "none";
    }
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      o["ctor"] = true;
      json::Array is;
      for (auto* i : c->inits()) {
        json::Object io;
        io["l"] = Line(i->getSourceLocation());
        io["w"] = i->isWritten();
        if (i->isAnyMemberInitializer()) {
          io["f"] = QNPlain(i->getAnyMember());
        } else if (i->isBaseInitializer()) {
          io["base"] = TyS(QualType(i->getBaseClass(), 0));
        } else if (i->isDelegatingInitializer()) {
          io["deleg"] = true;
        }
        io["e"] = E(i->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
    o["body"] = S(f->getBody());
    return o;
  }

  json::Object Cls(const CXXRecordDecl* r) {
    json::Object o;
    o["q"] = QNPlain(r);
    o["c"] = Usr(r);
    o["file"] = File(r->getLocation());
    o["line"] = Line(r->getLocation());
    o["dep"] = r->isDependentContext();
    o["abstract"] = !r->isDependentContext() && r->isAbstract();
    json::Array bs;
    for (auto& b : r->bases()) {
      json::Object bo;
      bo["t"] = TyS(b.getType());
      bo["acc"] = static_cast<int>(b.getAccessSpecifier());
      if (auto* br = b.getType()->getAsCXXRecordDecl()) bo["q"] = QNPlain(br);
      bs.push_back(std::move(bo));
    }
    o["bases"] = std::move(bs);
    json::Array fs;
    for (auto* f : r->fields()) {
      json::Object fo;
      fo["q"] = QNPlain(f);
      fo["n"] = f->getNameAsString();
      fo["t"] = TyS(f->getType());
      fo["mut"] = f->isMutable();
      fo["acc"] = static_cast<int>(f->getAccess());
      fo["cq"] = f->getType().isConstQualified();
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["i"] = E(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    json::Array ms;
    for (auto* m : r->methods()) {
      json::Object mo;
      mo["q"] = QNPlain(m);
      mo["n"] = m->getNameAsString();
      mo["c"] = Usr(m);
      mo["acc"] = static_cast<int>(m->getAccess());
      mo["virt"] = m->isVirtual();
      mo["pure"] = m->isPureVirtual();
      mo["del"] = m->isDeleted();
      mo["cst"] = m->isConst();
      mo["static"] = m->isStatic();
      mo["impl"] = m->isImplicit();
      mo["dflt"] = m->isDefaulted();
      mo["ret"] = TyS(m->getReturnType());
      json::Array ps;
      for (auto* p : m->parameters()) ps.push_back(TyS(p->getType()));
      mo["params"] = std::move(ps);
      if (auto* c = dyn_cast<CXXConstructorDecl>(m)) {
        mo["ctor"] = true;
        mo["copy"] = c->isCopyConstructor();
        mo["move"] = c->isMoveConstructor();
      }
      if (m->isCopyAssignmentOperator()) mo["casg"] = true;
      if (m->isMoveAssignmentOperator()) mo["masg"] = true;
      if (isa<CXXDestructorDecl>(m)) mo["dtor"] = true;
      json::Array ov;
      for (auto* b : m->overridden_methods()) ov.push_back(Usr(b));
      mo["ov"] = std::move(ov);
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    json::Array fr;
    for (auto* f : r->friends()) {
      if (f->getFriendType()) fr.push_back(TyS(f->getFriendType()->getType()));
    }
    o["friends"] = std::move(fr);
    return o;
  }

  ASTContext& ctx_;
  SourceManager& sm_;
  PrintingPolicy pp_;
  std::map<const Decl*, int> ids_;
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  explicit Visitor(ASTContext& ctx) : em_(ctx) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  bool VisitFunctionDecl(FunctionDecl* f) {
    if (!f->doesThisDeclarationHaveABody() && !f->isDefaulted()) return true;
    if (!f->doesThisDeclarationHaveABody() || !f->getBody()) return true;
    if (!em_.InRoots(f->getLocation())) return true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) return true;
    std::string usr = em_.Usr(f);
    if (!seen_.insert(usr + (f->isDependentContext() ? "#d" : "")).second) return true;
    fns.push_back(em_.Fn(f));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    if (!r->isThisDeclarationADefinition() || r->isLambda()) return true;
    if (!em_.InRoots(r->getLocation())) return true;
    if (!seen_.insert(em_.Usr(r)).second) return true;
    classes.push_back(em_.Cls(r));
    return true;
  }
  bool VisitEnumDecl(EnumDecl* e) {
    if (!e->isThisDeclarationADefinition()) return true;
    if (!em_.InRoots(e->getLocation())) return true;
    json::Object o;
    o["q"] = em_.QNPlain(e);
    o["file"] = em_.File(e->getLocation());
    o["line"] = em_.Line(e->getLocation());
    json::Array cs, vs;
    for (auto* c : e->enumerators()) {
      cs.push_back(em_.QNPlain(c));
      vs.push_back(c->getInitVal().getExtValue());
    }
    o["vals"] = std::move(vs);
    o["consts"] = std::move(cs);
    enums.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    if (v->isLocalVarDeclOrParm() || !v->getInit()) return true;
    if (isa<ParmVarDecl>(v) || v->isInitCapture()) return true;
    if (!em_.InRoots(v->getLocation())) return true;
    if (v->getDeclContext()->isDependentContext()) return true;
    json::Object o;
    o["q"] = em_.QNPlain(v);
    o["file"] = em_.File(v->getLocation());
    o["line"] = em_.Line(v->getLocation());
    o["t"] = em_.TyS(v->getType());
    o["i"] = em_.E(v->getInit());
    vars.push_back(std::move(o));
    return true;
  }

  Emitter em_;
  std::set<std::string> seen_;
  json::Array fns, classes, enums, vars;
};

class Consumer : public ASTConsumer {
 public:
  explicit Consumer(CompilerInstance& ci) : ci_(ci) {}
  void HandleTranslationUnit(ASTContext& ctx) override {
    Visitor v(ctx);
    v.TraverseDecl(ctx.getTranslationUnitDecl());
    json::Object o;
    auto& sm = ctx.getSourceManager();
    json::Array files;
    for (auto it = sm.fileinfo_begin(); it != sm.fileinfo_end(); ++it) {
      llvm::SmallString<256> p(it->first.getName());
      sm.getFileManager().makeAbsolutePath(p);
      llvm::sys::path::remove_dots(p, true);
      std::string s(p.str());
      for (auto& r : g_roots)
        if (s.compare(0, r.size(), r) == 0) {
          files.push_back(s);
          break;
        }
    }
    o["files"] = std::move(files);
    o["errors"] = static_cast<int64_t>(ci_.getDiagnostics().getClient()->getNumErrors());
    o["fns"] = std::move(v.fns);
    o["classes"] = std::move(v.classes);
    o["enums"] = std::move(v.enums);
    o["vars"] = std::move(v.vars);
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    os << json::Value(std::move(o));
  }
  CompilerInstance& ci_;
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, StringRef) override {
    return std::make_unique<Consumer>(ci);
  }
};

}  // namespace

int main(int argc, char** argv) {
  // extract OUT ROOTS(comma separated) FILE -- flags...
  if (argc < 5) return 2;
  g_out = argv[1];
  std::string roots = argv[2];
  std::string file = argv[3];
  size_t p = 0;
  while (p < roots.size()) {
    size_t q = roots.find(',', p);
    if (q == std::string::npos) q = roots.size();
    g_roots.push_back(roots.substr(p, q - p));
    p = q + 1;
  }
  std::vector<std::string> args;
  for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db("/", args);
  tooling::ClangTool tool(db, {file});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
