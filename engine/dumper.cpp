// AST extractor: parses one translation unit of /repo with clang and writes the
// resolved program (functions, classes, expression trees with overload-resolved
// callees) as JSON.  No analysis here; see ir.py and friends.
#include <set>
#include <map>
#include <string>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprOpenMP.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/DeclOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::string Root = "/repo/";

class Dumper : public RecursiveASTVisitor<Dumper> {
 public:
  explicit Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.SuppressUnwrittenScope = true;
    PP.Bool = true;
  }
  ASTContext& C;
  const SourceManager& SM;
  PrintingPolicy PP;
  json::Array Funcs, Recs, Vars;
  std::set<const Decl*> SeenF, SeenR;
  std::map<const Decl*, int> Ids;

  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  int id(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = Ids.find(d);
    if (it != Ids.end()) return it->second;
    int n = Ids.size() + 1;
    Ids[d] = n;
    return n;
  }
  std::string file(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    auto f = SM.getFilename(l);
    return f.str();
  }
  bool inUser(SourceLocation l) {
    if (l.isInvalid()) return false;
    std::string f = file(l);
    return f.rfind(Root, 0) == 0;
  }
  std::string loc(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    std::string f = SM.getFilename(l).str();
    if (f.rfind(Root, 0) == 0) f = f.substr(Root.size());
    return f + ":" + std::to_string(SM.getSpellingLineNumber(l));
  }
  // short type name
  std::string ty(QualType q, int depth = 0) {
    if (q.isNull()) return "?";
    std::string pre, suf;
    q = q.getCanonicalType();
    if (q->isReferenceType()) { suf = "&"; q = q->getPointeeType(); }
    if (q.isConstQualified()) pre = "const ";
    q = q.getUnqualifiedType();
    if (q->isPointerType()) return pre + ty(q->getPointeeType(), depth) + "*" + suf;
    if (auto* rt = q->getAs<RecordType>()) {
      auto* rd = rt->getDecl();
      std::string n = rd->getQualifiedNameAsString();
      if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
        bool full = n == "std::vector" || n == "std::shared_ptr" || n == "Eigen::Matrix" ||
                    n == "boost::circular_buffer" || n == "std::unique_ptr" || n=="Eigen::LLT" || n=="Eigen::Ref";
        if (full && depth < 4) {
          n += "<";
          auto& as = sp->getTemplateArgs();
          int lim = (n.rfind("Eigen::Matrix", 0) == 0) ? 3 : 1;
          for (unsigned i = 0; i < as.size() && (int)i < lim; i++) {
            if (i) n += ",";
            n += targ(as[i], depth + 1);
          }
          n += ">";
        }
      }
      return pre + n + suf;
    }
    if (q->isBuiltinType() || q->isEnumeralType()) return pre + q.getAsString(PP) + suf;
    std::string s = q.getAsString(PP);
    if (s.size() > 120) s = s.substr(0, 120);
    return pre + s + suf;
  }
  std::string targ(const TemplateArgument& a, int depth) {
    switch (a.getKind()) {
      case TemplateArgument::Type: return ty(a.getAsType(), depth);
      case TemplateArgument::Integral: {
        llvm::SmallString<16> s; a.getAsIntegral().toString(s, 10); return std::string(s.str());
      }
      default: return "_";
    }
  }
  std::string fid(const FunctionDecl* f) {
    std::string s = f->getQualifiedNameAsString() + "(";
    for (unsigned i = 0; i < f->getNumParams(); i++) {
      if (i) s += ",";
      s += ty(f->getParamDecl(i)->getType());
    }
    s += ")";
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->isConst()) s += "c";
    return s;
  }

  json::Value E(const Expr* e) {
    if (!e) return nullptr;
    e = e->IgnoreParens();
    json::Object o;
    SourceLocation L = e->getExprLoc();
    // transparent wrappers
    if (auto* x = dyn_cast<ExprWithCleanups>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<ConstantExpr>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return E(x->getReplacement());
    if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) {
      o["k"] = "defarg"; o["x"] = E(x->getExpr()); return std::move(o);
    }
    if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return E(x->getExpr());
    if (auto* x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) return E(x->getSourceExpr()); }
    if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
      switch (x->getCastKind()) {
        case CK_FloatingToIntegral: case CK_FloatingToBoolean: case CK_IntegralToBoolean:
        case CK_PointerToBoolean: case CK_FloatingCast: {
          o["k"] = "icast"; o["ck"] = x->getCastKindName(); o["ty"] = ty(x->getType());
          o["l"] = loc(L); o["x"] = E(x->getSubExpr()); return std::move(o);
        }
        case CK_IntegralCast: {
          // only conversions that can lose a count are of interest
          QualType to = x->getType(), from = x->getSubExpr()->getType();
          if (!to->isBooleanType() && to->isIntegerType() && from->isIntegerType() && C.getTypeSize(to) < 32 &&
              C.getTypeSize(to) < C.getTypeSize(from)) {
            o["k"] = "icast"; o["ck"] = x->getCastKindName(); o["ty"] = ty(x->getType());
            o["l"] = loc(L); o["x"] = E(x->getSubExpr()); return std::move(o);
          }
          return E(x->getSubExpr());
        }
        default: return E(x->getSubExpr());
      }
    }
    o["l"] = loc(L);
    if (auto* x = dyn_cast<ExplicitCastExpr>(e)) {
      o["k"] = "cast"; o["ck"] = x->getCastKindName(); o["ty"] = ty(x->getTypeAsWritten());
      o["sty"] = ty(x->getSubExpr()->IgnoreParenImpCasts()->getType());
      o["how"] = x->getStmtClassName();
      o["x"] = E(x->getSubExpr());
      return std::move(o);
    }
    if (auto* x = dyn_cast<IntegerLiteral>(e)) {
      llvm::SmallString<32> s; x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
      o["k"] = "int"; o["v"] = std::string(s.str()); return std::move(o);
    }
    if (auto* x = dyn_cast<FloatingLiteral>(e)) {
      llvm::SmallString<32> s; x->getValue().toString(s);
      o["k"] = "float"; o["v"] = std::string(s.str()); return std::move(o);
    }
    if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"] = "bool"; o["v"] = x->getValue(); return std::move(o); }
    if (isa<CXXNullPtrLiteralExpr>(e)) { o["k"] = "null"; return std::move(o); }
    if (auto* x = dyn_cast<clang::StringLiteral>(e)) {
      o["k"] = "str"; o["v"] = json::fixUTF8(x->getBytes()); return std::move(o);
    }
    if (isa<CharacterLiteral>(e)) { o["k"] = "char"; return std::move(o); }
    if (isa<CXXThisExpr>(e)) { o["k"] = "this"; o["ty"]=ty(e->getType()); return std::move(o); }
    if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      auto* d = x->getDecl();
      if (auto* ce = dyn_cast<OMPCapturedExprDecl>(d)) if (ce->getInit()) return E(ce->getInit());
      o["k"] = "ref"; o["n"] = d->getNameAsString(); o["ty"] = ty(d->getType());
      if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        o["dk"] = "enum"; o["q"] = ec->getQualifiedNameAsString();
        llvm::SmallString<16> s; ec->getInitVal().toString(s, 10); o["v"] = std::string(s.str());
      } else if (auto* f = dyn_cast<FunctionDecl>(d)) {
        o["dk"] = "func"; o["q"] = f->getQualifiedNameAsString(); o["fid"] = fid(f);
      } else if (auto* v = dyn_cast<VarDecl>(d)) {
        o["dk"] = isa<ParmVarDecl>(v) ? "parm" : (v->isLocalVarDecl() ? "var" : "global");
        if (v->isStaticLocal()) o["static"] = true;
        o["id"] = id(v);
        if (!v->isLocalVarDeclOrParm()) o["q"] = v->getQualifiedNameAsString();
      } else if (auto* b = dyn_cast<BindingDecl>(d)) {
        o["dk"] = "binding"; o["id"] = id(b);
        if (b->getBinding()) o["x"] = E(b->getBinding());
      } else { o["dk"] = "other"; }
      return std::move(o);
    }
    if (auto* x = dyn_cast<MemberExpr>(e)) {
      auto* d = x->getMemberDecl();
      o["k"] = "mem"; o["f"] = d->getNameAsString(); o["ty"] = ty(d->getType());
      if (auto* rc = dyn_cast<CXXRecordDecl>(d->getDeclContext())) o["cls"] = rc->getQualifiedNameAsString();
      if (isa<CXXMethodDecl>(d)) { o["meth"] = true; o["fid"] = fid(cast<CXXMethodDecl>(d)); }
      o["b"] = E(x->getBase());
      return std::move(o);
    }
    if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      o["k"] = "op"; o["op"] = getOperatorSpelling(x->getOperator());
      callee(o, x->getDirectCallee());
      json::Array a; for (auto* y : x->arguments()) a.push_back(E(y));
      o["a"] = std::move(a); o["ty"] = ty(x->getType());
      return std::move(o);
    }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "mcall";
      auto* m = x->getMethodDecl();
      callee(o, m);
      if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) if (me->hasQualifier()) o["nonvirt"] = true;
      if (auto* rd = x->getRecordDecl()) o["rcls"] = rd->getQualifiedNameAsString();
      o["o"] = E(x->getImplicitObjectArgument());
      o["oty"] = ty(x->getImplicitObjectArgument()->getType());
      json::Array a; for (auto* y : x->arguments()) a.push_back(E(y));
      o["a"] = std::move(a); o["ty"] = ty(x->getType());
      if (m && isa<CXXConversionDecl>(m)) o["conv"] = true;
      return std::move(o);
    }
    if (auto* x = dyn_cast<CallExpr>(e)) {
      o["k"] = "call"; callee(o, x->getDirectCallee());
      if (!x->getDirectCallee()) o["c"] = E(x->getCallee());
      json::Array a; for (auto* y : x->arguments()) a.push_back(E(y));
      o["a"] = std::move(a); o["ty"] = ty(x->getType());
      return std::move(o);
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      auto* ct = x->getConstructor();
      if (ct->isCopyOrMoveConstructor() && x->getNumArgs() >= 1) {
        // record construction from same-type value
        return E(x->getArg(0));
      }
      o["k"] = "ctor"; o["ty"] = ty(x->getType()); o["fid"] = fid(ct);
      json::Array a; for (auto* y : x->arguments()) a.push_back(E(y));
      o["a"] = std::move(a);
      return std::move(o);
    }
    if (auto* x = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) o["post"] = true;
      o["x"] = E(x->getSubExpr()); o["ty"] = ty(x->getType());
      return std::move(o);
    }
    if (auto* x = dyn_cast<BinaryOperator>(e)) {
      o["k"] = x->isAssignmentOp() ? "asg" : "bin";
      o["op"] = x->getOpcodeStr().str();
      o["L"] = E(x->getLHS()); o["R"] = E(x->getRHS()); o["ty"] = ty(x->getType());
      o["oty"] = ty(x->getLHS()->getType());
      if (auto* c = dyn_cast<CompoundAssignOperator>(e)) o["cty"] = ty(c->getComputationResultType());
      return std::move(o);
    }
    if (auto* x = dyn_cast<ConditionalOperator>(e)) {
      o["k"] = "cond"; o["c"] = E(x->getCond()); o["t"] = E(x->getTrueExpr()); o["e"] = E(x->getFalseExpr());
      return std::move(o);
    }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "sub"; o["b"] = E(x->getBase()); o["i"] = E(x->getIdx()); return std::move(o);
    }
    if (auto* x = dyn_cast<InitListExpr>(e)) {
      o["k"] = "init"; o["ty"] = ty(x->getType());
      json::Array a; for (auto* y : x->inits()) a.push_back(E(y));
      o["a"] = std::move(a); return std::move(o);
    }
    if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
      o["k"] = "throw"; if (x->getSubExpr()) o["x"] = E(x->getSubExpr()); return std::move(o);
    }
    if (auto* x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "lambda";
      auto* m = x->getCallOperator();
      json::Array ps; for (auto* p : m->parameters()) ps.push_back(var(p));
      o["ps"] = std::move(ps); o["body"] = S(x->getBody());
      json::Array cs;
      for (auto& cp : x->captures()) {
        json::Object c;
        if (cp.capturesThis()) c["this"] = true;
        else if (cp.capturesVariable()) { c["id"] = id(cp.getCapturedVar()); c["n"] = cp.getCapturedVar()->getNameAsString(); c["byref"] = cp.getCaptureKind() == LCK_ByRef;
          if (auto* vd = dyn_cast<VarDecl>(cp.getCapturedVar())) if (vd->isInitCapture() && vd->getInit()) c["init"]=E(vd->getInit()); }
        cs.push_back(std::move(c));
      }
      o["caps"] = std::move(cs);
      return std::move(o);
    }
    if (auto* x = dyn_cast<CXXNewExpr>(e)) { o["k"] = "new"; o["ty"] = ty(x->getAllocatedType()); return std::move(o); }
    if (auto* x = dyn_cast<CXXScalarValueInitExpr>(e)) { o["k"] = "zero"; o["ty"] = ty(x->getType()); return std::move(o); }
    if (auto* x = dyn_cast<ImplicitValueInitExpr>(e)) { o["k"] = "zero"; o["ty"] = ty(x->getType()); return std::move(o); }
    if (isa<UnaryExprOrTypeTraitExpr>(e)) {
      Expr::EvalResult r; o["k"] = "int";
      if (e->EvaluateAsInt(r, C)) { llvm::SmallString<16> s; r.Val.getInt().toString(s, 10); o["v"] = std::string(s.str()); } else o["v"]="0";
      return std::move(o);
    }
    o["k"] = "unk"; o["cls"] = e->getStmtClassName();
    json::Array a;
    for (auto* ch : e->children()) if (auto* ce = dyn_cast_or_null<Expr>(ch)) a.push_back(E(ce));
    o["a"] = std::move(a);
    return std::move(o);
  }
  void callee(json::Object& o, const FunctionDecl* f) {
    if (!f) return;
    o["n"] = f->getNameAsString();
    o["q"] = f->getQualifiedNameAsString();
    if (inUser(f->getLocation())) o["fid"] = fid(f);
    else { std::string ps; for (unsigned i = 0; i < f->getNumParams(); i++) { if (i) ps += ","; ps += ty(f->getParamDecl(i)->getType()); } o["ps"] = ps; }
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) { if (m->isVirtual()) o["virt"] = true; if (m->isStatic()) o["static"]=true; if (m->isConst()) o["const"]=true; }
    if (auto* ta = f->getTemplateSpecializationArgs()) {
      json::Array a; for (unsigned i = 0; i < ta->size(); i++) a.push_back(targ(ta->get(i), 3));
      o["ta"] = std::move(a);
    }
    // which params are non-const lvalue references / pointers (may be written)
    json::Array outs;
    for (unsigned i = 0; i < f->getNumParams(); i++) {
      QualType q = f->getParamDecl(i)->getType();
      if (q->isLValueReferenceType() && !q->getPointeeType().isConstQualified()) outs.push_back((int)i);
      else if (auto* rt = q.getCanonicalType().getNonReferenceType()->getAs<RecordType>()) {
        if (rt->getDecl()->getQualifiedNameAsString() == "Eigen::Ref") {
          if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rt->getDecl()))
            if (!sp->getTemplateArgs()[0].getAsType().isConstQualified()) outs.push_back((int)i);
        }
      }
    }
    if (!outs.empty()) o["outs"] = std::move(outs);
  }
  json::Value var(const VarDecl* v) {
    json::Object o;
    o["id"] = id(v); o["n"] = v->getNameAsString(); o["ty"] = ty(v->getType());
    o["l"] = loc(v->getLocation());
    if (v->isStaticLocal()) o["static"] = true;
    if (!isa<ParmVarDecl>(v) && v->getInit()) o["init"] = E(v->getInit());
    if (auto* p = dyn_cast<ParmVarDecl>(v)) if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) o["def"] = E(p->getDefaultArg());
    if (auto* d = dyn_cast<DecompositionDecl>(v)) {
      json::Array bs; for (auto* b : d->bindings()) { json::Object bo; bo["id"] = id(b); bo["n"] = b->getNameAsString(); bs.push_back(std::move(bo)); }
      o["bindings"] = std::move(bs);
    }
    return std::move(o);
  }
  json::Value S(const Stmt* s) {
    json::Object o;
    if (!s) return nullptr;
    if (auto* e = dyn_cast<Expr>(s)) {
      o["k"] = "expr"; o["l"] = loc(e->getBeginLoc()); o["x"] = E(e);
      if (e->getBeginLoc().isMacroID()) o["macro"] = Lexer::getImmediateMacroName(e->getBeginLoc(), SM, C.getLangOpts()).str();
      return std::move(o);
    }
    o["l"] = loc(s->getBeginLoc());
    if (auto* x = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "block"; json::Array a; for (auto* y : x->body()) a.push_back(S(y));
      o["b"] = std::move(a); o["end"] = loc(x->getEndLoc()); return std::move(o);
    }
    if (auto* x = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl"; json::Array a;
      for (auto* d : x->decls()) if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(var(v));
      o["v"] = std::move(a); return std::move(o);
    }
    if (auto* x = dyn_cast<IfStmt>(s)) {
      o["k"] = "if"; if (x->getInit()) o["init"] = S(x->getInit());
      if (x->getConditionVariableDeclStmt()) o["cv"] = S(x->getConditionVariableDeclStmt());
      o["c"] = E(x->getCond()); o["t"] = S(x->getThen());
      if (x->getElse()) o["e"] = S(x->getElse());
      return std::move(o);
    }
    if (auto* x = dyn_cast<ForStmt>(s)) {
      o["k"] = "for"; o["init"] = S(x->getInit()); o["c"] = E(x->getCond()); o["inc"] = E(x->getInc()); o["b"] = S(x->getBody());
      return std::move(o);
    }
    if (auto* x = dyn_cast<WhileStmt>(s)) { o["k"] = "while"; o["c"] = E(x->getCond()); o["b"] = S(x->getBody()); return std::move(o); }
    if (auto* x = dyn_cast<DoStmt>(s)) { o["k"] = "do"; o["c"] = E(x->getCond()); o["b"] = S(x->getBody()); return std::move(o); }
    if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "rfor"; o["v"] = var(x->getLoopVariable()); o["r"] = E(x->getRangeInit()); o["b"] = S(x->getBody());
      return std::move(o);
    }
    if (auto* x = dyn_cast<ReturnStmt>(s)) { o["k"] = "ret"; if (x->getRetValue()) o["x"] = E(x->getRetValue()); return std::move(o); }
    if (isa<BreakStmt>(s)) { o["k"] = "break"; return std::move(o); }
    if (isa<ContinueStmt>(s)) { o["k"] = "continue"; return std::move(o); }
    if (isa<NullStmt>(s)) { o["k"] = "nop"; return std::move(o); }
    if (auto* x = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "try"; o["b"] = S(x->getTryBlock()); json::Array a;
      for (unsigned i = 0; i < x->getNumHandlers(); i++) {
        json::Object h; auto* hh = x->getHandler(i);
        h["ty"] = hh->getExceptionDecl() ? ty(hh->getCaughtType()) : std::string("...");
        h["b"] = S(hh->getHandlerBlock()); a.push_back(std::move(h));
      }
      o["h"] = std::move(a); return std::move(o);
    }
    if (auto* x = dyn_cast<SwitchStmt>(s)) { o["k"] = "switch"; o["c"] = E(x->getCond()); o["b"] = S(x->getBody()); return std::move(o); }
    if (auto* x = dyn_cast<CaseStmt>(s)) { o["k"] = "case"; o["v"] = E(x->getLHS()); o["b"] = S(x->getSubStmt()); return std::move(o); }
    if (auto* x = dyn_cast<DefaultStmt>(s)) { o["k"] = "default"; o["b"] = S(x->getSubStmt()); return std::move(o); }
    if (auto* x = dyn_cast<OMPExecutableDirective>(s)) {
      o["k"] = "omp"; o["d"] = llvm::omp::getOpenMPDirectiveName(x->getDirectiveKind()).str();
      json::Array cs;
      for (auto* c : x->clauses()) {
        json::Object co; co["c"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
        json::Array vs;
        if (auto* r = dyn_cast<OMPReductionClause>(c)) {
          co["op"] = r->getNameInfo().getAsString();
          for (auto* v : r->varlists()) vs.push_back(E(v));
        } else if (auto* r = dyn_cast<OMPPrivateClause>(c)) { for (auto* v : r->varlists()) vs.push_back(E(v)); }
        else if (auto* r = dyn_cast<OMPFirstprivateClause>(c)) { if (r->getBeginLoc().isValid()) for (auto* v : r->varlists()) vs.push_back(E(v)); }
        else if (auto* r = dyn_cast<OMPLastprivateClause>(c)) { for (auto* v : r->varlists()) vs.push_back(E(v)); }
        else if (auto* r = dyn_cast<OMPNumThreadsClause>(c)) { vs.push_back(E(r->getNumThreads())); }
        co["v"] = std::move(vs);
        cs.push_back(std::move(co));
      }
      o["cl"] = std::move(cs);
      const Stmt* body = x->hasAssociatedStmt() ? x->getAssociatedStmt() : nullptr;
      while (body && isa<CapturedStmt>(body)) body = cast<CapturedStmt>(body)->getCapturedStmt();
      if (auto* oc = dyn_cast_or_null<OMPCanonicalLoop>(body)) body = oc->getLoopStmt();
      o["b"] = S(body);
      return std::move(o);
    }
    if (auto* x = dyn_cast<AttributedStmt>(s)) return S(x->getSubStmt());
    if (auto* x = dyn_cast<CapturedStmt>(s)) return S(x->getCapturedStmt());
    if (auto* x = dyn_cast<LabelStmt>(s)) return S(x->getSubStmt());
    o["k"] = "unk"; o["cls"] = s->getStmtClassName();
    return std::move(o);
  }

  bool VisitFunctionDecl(FunctionDecl* f) {
    if (!f->isThisDeclarationADefinition() || f->isDependentContext()) return true;
    if (!inUser(f->getLocation())) return true;
    if (f->isImplicit() || f->isDefaulted()) return true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
    if (!SeenF.insert(f->getCanonicalDecl()).second) return true;
    json::Object o;
    o["fid"] = fid(f); o["q"] = f->getQualifiedNameAsString(); o["n"] = f->getNameAsString();
    o["l"] = loc(f->getLocation()); o["rty"] = ty(f->getReturnType());
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = m->getParent()->getQualifiedNameAsString();
      o["virt"] = m->isVirtual(); o["const"] = m->isConst(); o["static"] = m->isStatic();
      o["acc"] = (int)m->getAccess();
    }
    json::Array ps; for (auto* p : f->parameters()) ps.push_back(var(p));
    o["ps"] = std::move(ps);
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      o["ctor"] = true;
      json::Array is;
      for (auto* i : c->inits()) {
        json::Object io;
        if (i->isMemberInitializer()) io["f"] = i->getMember()->getNameAsString();
        else if (i->isBaseInitializer()) io["base"] = ty(QualType(i->getBaseClass(), 0));
        io["written"] = i->isWritten();
        io["x"] = E(i->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
    o["body"] = S(f->getBody());
    Funcs.push_back(std::move(o));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda()) return true;
    std::string q = r->getQualifiedNameAsString();
    bool keep = inUser(r->getLocation());
    if (!keep) return true;
    rec(r);
    for (auto& b : r->bases()) if (auto* br = b.getType()->getAsCXXRecordDecl()) recUp(br);
    return true;
  }
  void recUp(CXXRecordDecl* r) {
    r = r->getDefinition(); if (!r) return;
    rec(r);
    for (auto& b : r->bases()) if (auto* br = b.getType()->getAsCXXRecordDecl()) recUp(br);
  }
  void rec(CXXRecordDecl* r) {
    if (!SeenR.insert(r->getCanonicalDecl()).second) return;
    json::Object o;
    o["q"] = r->getQualifiedNameAsString(); o["l"] = loc(r->getLocation()); o["user"] = inUser(r->getLocation());
    json::Array fs, bs, ms;
    for (auto* f : r->fields()) {
      json::Object fo; fo["n"] = f->getNameAsString(); fo["ty"] = ty(f->getType()); fo["acc"] = (int)f->getAccess(); fo["l"] = loc(f->getLocation());
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = E(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    for (auto& b : r->bases()) if (auto* br = b.getType()->getAsCXXRecordDecl()) bs.push_back(br->getQualifiedNameAsString());
    for (auto* m : r->methods()) {
      if (m->isImplicit()) continue;
      json::Object mo; mo["n"] = m->getNameAsString(); mo["fid"] = fid(m); mo["virt"] = m->isVirtual(); mo["const"] = m->isConst(); mo["acc"] = (int)m->getAccess();
      mo["rty"] = ty(m->getReturnType()); mo["np"] = (int)m->getNumParams(); mo["l"] = loc(m->getLocation());
      json::Array ov; for (auto* om : m->overridden_methods()) ov.push_back(fid(om)); mo["ov"] = std::move(ov);
      ms.push_back(std::move(mo));
    }
    o["fields"] = std::move(fs); o["bases"] = std::move(bs); o["methods"] = std::move(ms);
    Recs.push_back(std::move(o));
  }
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& c) override {
    Dumper d(c);
    d.TraverseDecl(c.getTranslationUnitDecl());
    json::Object o; o["funcs"] = std::move(d.Funcs); o["recs"] = std::move(d.Recs);
    o["errors"] = (int)c.getDiagnostics().hasErrorOccurred();
    llvm::outs() << json::Value(std::move(o)) << "\n";
  }
};
class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, const char** argv) {
  // usage: dumper ROOT FILE -- flags
  Root = argv[1];
  if (Root.back() != '/') Root += '/';
  std::string file = argv[2];
  std::vector<std::string> args;
  for (int i = 4; i < argc; i++) args.push_back(argv[i]);
  clang::tooling::FixedCompilationDatabase db(".", args);
  clang::tooling::ClangTool tool(db, {file});
  return tool.run(clang::tooling::newFrontendActionFactory<Action>().get());
}
