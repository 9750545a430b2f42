// Fact extractor: parses C++ translation units with clang and dumps, for every
// function defined under the given roots, its control flow graph and resolved
// expression nodes as one JSON line.  It decides nothing; the rules do.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> g_roots;
static std::set<std::string> g_seen;
static std::set<std::string> g_seen_rec;

namespace {

struct Dumper {
  ASTContext &C;
  const SourceManager &SM;
  PrintingPolicy P;
  llvm::raw_ostream &OS;
  std::map<const Decl *, int> declIds;
  int nextDecl{1};

  Dumper(ASTContext &c, llvm::raw_ostream &os)
      : C(c), SM(c.getSourceManager()), P(c.getPrintingPolicy()), OS(os) {
    P.SuppressTagKeyword = true;
    P.FullyQualifiedName = true;
    P.SuppressUnwrittenScope = true;
    P.AnonymousTagLocations = false;
    P.TerseOutput = true;
  }

  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    return F.str();
  }
  bool inRoots(SourceLocation L) {
    if (L.isInvalid()) return false;
    auto f = file(L);
    for (auto &r : g_roots)
      if (f.rfind(r, 0) == 0) return true;
    return false;
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  int col(SourceLocation L) { return SM.getExpansionColumnNumber(L); }

  std::string typeStr(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(P);
  }

  int declId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = declIds.find(D);
    if (it != declIds.end()) return it->second;
    return declIds[D] = nextDecl++;
  }

  std::string qname(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, P);
    return s;
  }

  std::string funcId(const FunctionDecl *F) {
    if (!F) return "";
    std::string s;
    llvm::raw_string_ostream os(s);
    // (lambda types with their place: instantiations for different lambdas are different functions)
    PrintingPolicy PL(P);
    PL.AnonymousTagLocations = true;
    F->getNameForDiagnostic(os, PL, true);
    os << "(";
    bool first = true;
    for (auto *p : F->parameters()) {
      if (!first) os << ",";
      first = false;
      os << p->getType().getCanonicalType().getAsString(PL);
    }
    os << ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isConst()) os << "const";
    }
    const FunctionDecl *Def = nullptr;
    bool lam = false;
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      lam = M->getParent()->isLambda();
    bool local = !F->hasExternalFormalLinkage() || F->isInAnonymousNamespace();
    if (lam || local) {
      auto L = F->getLocation();
      F->hasBody(Def);
      if (Def) L = Def->getLocation();
      os << "@" << file(L) << ":" << line(L);
      if (lam) {
        os << ":" << col(L);
        // distinguish instantiations of the enclosing function
        const DeclContext *DC = cast<CXXMethodDecl>(F)->getParent()->getDeclContext();
        while (DC && !isa<FunctionDecl>(DC)) DC = DC->getParent();
        if (DC) os << "<in " << funcId(cast<FunctionDecl>(DC)) << ">";
      }
    }
    return s;
  }

  // ---- nodes ----
  std::map<const Stmt *, int> nodeIds;
  json::Array nodes;

  const FunctionDecl *curF{nullptr};

  static int64_t ci64(const llvm::APSInt &v, bool &ok) {
    ok = true;
    if (v.isSigned()) {
      if (v.getSignificantBits() > 64) { ok = false; return 0; }
      return v.getSExtValue();
    }
    if (v.getActiveBits() > 64) { ok = false; return 0; }
    return (int64_t)v.getZExtValue();
  }

  json::Object declRef(const ValueDecl *D) {
    json::Object o;
    o["did"] = declId(D);
    o["name"] = D->getNameAsString();
    if (auto *V = dyn_cast<VarDecl>(D)) {
      o["vk"] = V->isLocalVarDecl() || isa<ParmVarDecl>(V)
                    ? (V->isStaticLocal() ? "static" : isa<ParmVarDecl>(V) ? "param" : "local")
                    : "global";
      if (!V->isLocalVarDeclOrParm() || V->isStaticLocal()) o["q"] = qname(V);
    } else if (isa<FunctionDecl>(D)) {
      o["vk"] = "func";
      o["q"] = qname(D);
      o["fid"] = funcId(cast<FunctionDecl>(D));
    } else if (isa<EnumConstantDecl>(D)) {
      o["vk"] = "enum";
      o["q"] = qname(D);
    } else if (isa<BindingDecl>(D)) {
      o["vk"] = "binding";
      auto *B = cast<BindingDecl>(D);
      if (auto *DD = B->getDecomposedDecl()) {
        o["dd"] = declId(cast<ValueDecl>(DD));
        int i = 0;
        for (auto *b : cast<DecompositionDecl>(DD)->bindings()) {
          if (b == B) o["bi"] = i;
          ++i;
        }
      }
    } else {
      o["vk"] = "other";
    }
    return o;
  }

  void calleeInfo(json::Object &o, const FunctionDecl *F) {
    if (!F) return;
    o["fid"] = funcId(F);
    o["q"] = qname(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual()) o["virt"] = true;
      if (M->isConst()) o["const"] = true;
      if (M->isStatic()) o["smeth"] = true;
      o["cls"] = qname(M->getParent());
    }
    json::Array pt;
    for (auto *p : F->parameters()) pt.push_back(typeStr(p->getType()));
    o["pt"] = std::move(pt);
    if (F->isNoReturn()) o["noret"] = true;
    const FunctionDecl *Def = nullptr;
    if (F->hasBody(Def) && Def && inRoots(Def->getLocation())) o["own"] = true;
    else if (inRoots(F->getLocation())) o["own"] = true;
  }

  int node(const Stmt *S) {
    if (!S) return -1;
    auto it = nodeIds.find(S);
    if (it != nodeIds.end()) return it->second;
    int id = (int)nodes.size();
    nodeIds[S] = id;
    nodes.push_back(nullptr);
    json::Object o;
    o["k"] = S->getStmtClassName();
    o["l"] = line(S->getBeginLoc());
    auto kids = [&](std::initializer_list<const Stmt *> l) {
      json::Array a;
      for (auto *s : l) a.push_back(node(s));
      o["c"] = std::move(a);
    };
    if (auto *E = dyn_cast<Expr>(S)) {
      auto T = E->getType();
      if (!T.isNull()) {
        o["t"] = typeStr(T);
        if (T->isIntegralOrEnumerationType() && !T->isDependentType() && !T->isIncompleteType()) {
          o["w"] = (int64_t)C.getTypeSize(T) * (T->isUnsignedIntegerOrEnumerationType() ? 1 : -1);
        }
        if (!E->isValueDependent() && !E->isTypeDependent() &&
            (T->isIntegralOrEnumerationType() || T->isNullPtrType()) && !E->isLValue() &&
            !isa<DeclRefExpr>(E) ) {
          Expr::EvalResult R;
          if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects) && R.Val.isInt()) {
            bool ok; auto v = ci64(R.Val.getInt(), ok);
            if (ok) o["ci"] = v;
            if (R.Val.getInt().isUnsigned() && v < 0) o["ciu"] = true;
          }
        }
      }
      if (E->isLValue()) o["lv"] = true;
    }
    switch (S->getStmtClass()) {
      case Stmt::DeclRefExprClass: {
        auto *E = cast<DeclRefExpr>(S);
        o["d"] = declRef(E->getDecl());
        if (auto *V = dyn_cast<VarDecl>(E->getDecl())) {
          o["dt"] = typeStr(V->getType());
          Expr::EvalResult R;
          if (!E->isValueDependent() && !E->isTypeDependent() &&
              (V->isConstexpr() || (V->getType().isConstQualified() && V->hasInit())) &&
              V->getType()->isIntegralOrEnumerationType() &&
              E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects) && R.Val.isInt()) {
            bool ok; auto v = ci64(R.Val.getInt(), ok);
            if (ok) o["ci"] = v;
          }
        }
        if (auto *EC = dyn_cast<EnumConstantDecl>(E->getDecl())) {
          bool ok; auto v = ci64(EC->getInitVal(), ok);
          if (ok) o["ci"] = v;
        }
        break;
      }
      case Stmt::MemberExprClass: {
        auto *E = cast<MemberExpr>(S);
        kids({E->getBase()});
        o["arrow"] = E->isArrow();
        auto *D = E->getMemberDecl();
        o["name"] = D->getNameAsString();
        o["q"] = qname(D);
        if (auto *V = dyn_cast<VarDecl>(D)) { o["sv"] = declId(V); }
        o["mk"] = isa<FieldDecl>(D) ? "field" : isa<FunctionDecl>(D) ? "method" : "static";
        o["dt"] = typeStr(D->getType());
        break;
      }
      case Stmt::IntegerLiteralClass:
      case Stmt::CharacterLiteralClass:
      case Stmt::CXXBoolLiteralExprClass:
      case Stmt::CXXNullPtrLiteralExprClass:
        break;
      case Stmt::FloatingLiteralClass:
        o["f"] = cast<FloatingLiteral>(S)->getValueAsApproximateDouble();
        break;
      case Stmt::StringLiteralClass: {
        auto *L = cast<clang::StringLiteral>(S);
        if (L->getCharByteWidth() == 1) {
          auto str = L->getString().str();
          if (json::isUTF8(str)) o["s"] = str; else o["s"] = "?";
        }
        o["sl"] = (int64_t)L->getLength();
        break;
      }
      case Stmt::UnaryOperatorClass: {
        auto *E = cast<UnaryOperator>(S);
        std::string op = UnaryOperator::getOpcodeStr(E->getOpcode()).str();
        if (E->isPostfix()) op = "post" + op;
        o["op"] = op;
        kids({E->getSubExpr()});
        break;
      }
      case Stmt::BinaryOperatorClass:
      case Stmt::CompoundAssignOperatorClass: {
        auto *E = cast<BinaryOperator>(S);
        o["op"] = E->getOpcodeStr().str();
        kids({E->getLHS(), E->getRHS()});
        break;
      }
      case Stmt::ConditionalOperatorClass: {
        auto *E = cast<ConditionalOperator>(S);
        kids({E->getCond(), E->getTrueExpr(), E->getFalseExpr()});
        break;
      }
      case Stmt::ArraySubscriptExprClass: {
        auto *E = cast<ArraySubscriptExpr>(S);
        kids({E->getBase(), E->getIdx()});
        break;
      }
      case Stmt::CallExprClass:
      case Stmt::CXXMemberCallExprClass:
      case Stmt::CXXOperatorCallExprClass:
      case Stmt::UserDefinedLiteralClass: {
        auto *E = cast<CallExpr>(S);
        auto *F = E->getDirectCallee();
        calleeInfo(o, F);
        json::Array a;
        if (auto *M = dyn_cast<CXXMemberCallExpr>(E)) {
          if (auto *ME = dyn_cast<MemberExpr>(E->getCallee()->IgnoreParens())) {
            o["obj"] = node(ME->getBase());
            o["arrow"] = ME->isArrow();
            if (ME->hasQualifier()) o["qualcall"] = true;
          } else {
            o["fn"] = node(E->getCallee());
          }
          for (auto *x : E->arguments()) a.push_back(node(x));
        } else if (isa<CXXOperatorCallExpr>(E)) {
          o["opc"] = getOperatorSpelling(cast<CXXOperatorCallExpr>(E)->getOperator());
          auto *M = F ? dyn_cast<CXXMethodDecl>(F) : nullptr;
          unsigned i = 0;
          if (M && !M->isStatic()) {
            o["obj"] = node(E->getArg(0));
            i = 1;
          }
          for (; i < E->getNumArgs(); ++i) a.push_back(node(E->getArg(i)));
        } else {
          if (!F) o["fn"] = node(E->getCallee());
          for (auto *x : E->arguments()) a.push_back(node(x));
        }
        o["a"] = std::move(a);
        break;
      }
      case Stmt::CXXConstructExprClass:
      case Stmt::CXXTemporaryObjectExprClass: {
        auto *E = cast<CXXConstructExpr>(S);
        calleeInfo(o, E->getConstructor());
        json::Array a;
        for (auto *x : E->arguments()) a.push_back(node(x));
        o["a"] = std::move(a);
        if (E->getConstructor()->isCopyConstructor()) o["cc"] = "copy";
        if (E->getConstructor()->isMoveConstructor()) o["cc"] = "move";
        if (E->isElidable()) o["elid"] = true;
        break;
      }
      case Stmt::CXXInheritedCtorInitExprClass:
        break;
      case Stmt::CXXNewExprClass: {
        auto *E = cast<CXXNewExpr>(S);
        json::Array a;
        if (E->isArray() && E->getArraySize()) o["asz"] = node(*E->getArraySize());
        if (E->getInitializer()) o["init"] = node(E->getInitializer());
        for (unsigned i = 0; i < E->getNumPlacementArgs(); ++i) a.push_back(node(E->getPlacementArg(i)));
        o["a"] = std::move(a);
        o["at"] = typeStr(E->getAllocatedType());
        break;
      }
      case Stmt::CXXDeleteExprClass:
        kids({cast<CXXDeleteExpr>(S)->getArgument()});
        break;
      case Stmt::LambdaExprClass: {
        auto *E = cast<LambdaExpr>(S);
        o["fid"] = funcId(E->getCallOperator());
        json::Array caps;
        auto ii = E->capture_init_begin();
        for (auto &cap : E->captures()) {
          json::Object c;
          if (cap.capturesVariable()) {
            c["d"] = declRef(cap.getCapturedVar());
          } else if (cap.capturesThis()) {
            c["this"] = true;
          }
          c["ref"] = cap.getCaptureKind() == LCK_ByRef || cap.getCaptureKind() == LCK_This;
          c["n"] = node(*ii);
          caps.push_back(std::move(c));
          ++ii;
        }
        o["caps"] = std::move(caps);
        break;
      }
      case Stmt::InitListExprClass: {
        auto *E = cast<InitListExpr>(S);
        json::Array a;
        for (auto *x : E->inits()) a.push_back(node(x));
        o["c"] = std::move(a);
        if (auto *RD = E->getType()->getAsCXXRecordDecl()) {
          json::Array f;
          if (RD->hasDefinition())
            for (auto *fd : RD->fields()) f.push_back(fd->getNameAsString());
          o["fields"] = std::move(f);
        }
        break;
      }
      case Stmt::ReturnStmtClass:
        kids({cast<ReturnStmt>(S)->getRetValue()});
        break;
      case Stmt::CoreturnStmtClass:
        kids({cast<CoreturnStmt>(S)->getOperand()});
        break;
      case Stmt::CoawaitExprClass:
      case Stmt::CoyieldExprClass:
        kids({cast<CoroutineSuspendExpr>(S)->getOperand()});
        break;
      case Stmt::CXXThrowExprClass:
        kids({cast<CXXThrowExpr>(S)->getSubExpr()});
        break;
      case Stmt::DeclStmtClass: {
        json::Array a;
        for (auto *D : cast<DeclStmt>(S)->decls()) {
          if (auto *V = dyn_cast<VarDecl>(D)) {
            json::Object v;
            v["did"] = declId(V);
            v["name"] = V->getNameAsString();
            v["t"] = typeStr(V->getType());
            v["init"] = V->getInit() ? node(V->getInit()) : -1;
            if (V->isStaticLocal()) { v["static"] = true; v["q"] = qname(V); }
            if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
              json::Array b;
              for (auto *bd : DD->bindings()) {
                json::Object bo;
                bo["did"] = declId(bd);
                bo["name"] = bd->getNameAsString();
                if (bd->getBinding()) bo["n"] = node(bd->getBinding());
                b.push_back(std::move(bo));
              }
              v["bind"] = std::move(b);
            }
            a.push_back(std::move(v));
          }
        }
        o["vars"] = std::move(a);
        break;
      }
      case Stmt::CXXDefaultArgExprClass:
        kids({cast<CXXDefaultArgExpr>(S)->getExpr()});
        break;
      case Stmt::CXXDefaultInitExprClass:
        kids({cast<CXXDefaultInitExpr>(S)->getExpr()});
        break;
      case Stmt::CXXCatchStmtClass: {
        auto *H = cast<CXXCatchStmt>(S);
        o["ct"] = H->getCaughtType().isNull() ? std::string("...") : typeStr(H->getCaughtType());
        if (H->getExceptionDecl()) o["d"] = declRef(H->getExceptionDecl());
        break;
      }
      case Stmt::CaseStmtClass: {
        auto *E = cast<CaseStmt>(S);
        o["lhs"] = node(E->getLHS());
        if (E->getRHS()) o["rhs"] = node(E->getRHS());
        break;
      }
      case Stmt::CXXForRangeStmtClass: {
        auto *E = cast<CXXForRangeStmt>(S);
        o["rng"] = node(E->getRangeInit());
        break;
      }
      case Stmt::CompoundStmtClass:
      case Stmt::IfStmtClass:
      case Stmt::WhileStmtClass:
      case Stmt::ForStmtClass:
      case Stmt::DoStmtClass:
      case Stmt::SwitchStmtClass:
      case Stmt::CXXTryStmtClass:
      case Stmt::CoroutineBodyStmtClass:
      case Stmt::DefaultStmtClass:
        break;
      case Stmt::OpaqueValueExprClass:
        kids({cast<OpaqueValueExpr>(S)->getSourceExpr()});
        break;
      default: {
        if (auto *CE = dyn_cast<CastExpr>(S)) {
          o["ck"] = CE->getCastKindName();
          if (auto *CF = dyn_cast_or_null<FunctionDecl>(CE->getConversionFunction())) calleeInfo(o, CF);
          kids({CE->getSubExpr()});
          break;
        }
        json::Array a;
        for (auto *ch : S->children())
          if (ch) a.push_back(node(ch));
        o["c"] = std::move(a);
      }
    }
    nodes[id] = std::move(o);
    return id;
  }

  void record(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
    if (!inRoots(R->getLocation())) return;
    std::string n = typeStr(C.getTypeDeclType(R));
    if (!g_seen_rec.insert(n).second) return;
    json::Object o;
    o["rec"] = n;
    o["q"] = qname(R);
    o["file"] = file(R->getLocation());
    o["line"] = line(R->getLocation());
    json::Array f;
    for (auto *fd : R->fields()) {
      json::Object x;
      x["name"] = fd->getNameAsString();
      x["t"] = typeStr(fd->getType());
      x["acc"] = (int)fd->getAccess();
      x["hasinit"] = fd->hasInClassInitializer();
      f.push_back(std::move(x));
    }
    o["fields"] = std::move(f);
    json::Array b;
    for (auto &bs : R->bases()) b.push_back(typeStr(bs.getType()));
    o["bases"] = std::move(b);
    json::Array m;
    for (auto *md : R->methods()) {
      if (md->isImplicit() && !isa<CXXConstructorDecl>(md) && !isa<CXXDestructorDecl>(md)) continue;
      json::Object x;
      x["fid"] = funcId(md);
      x["q"] = qname(md);
      x["acc"] = (int)md->getAccess();
      x["virt"] = md->isVirtual();
      x["pure"] = md->isPureVirtual();
      x["del"] = md->isDeleted();
      json::Array ov;
      for (auto *om : md->overridden_methods()) ov.push_back(funcId(om));
      x["ov"] = std::move(ov);
      m.push_back(std::move(x));
    }
    o["methods"] = std::move(m);
    OS << json::Value(std::move(o)) << "\n";
  }

  void function(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody()) return;
    if (F->isDependentContext()) return;
    if (!inRoots(F->getLocation())) return;
    if (F->isDefaulted() && !F->isUserProvided() && !isa<CXXConstructorDecl>(F) ) return;
    auto id = funcId(F);
    std::string key = id + "@" + file(F->getLocation());
    if (!g_seen.insert(key).second) return;
    nodeIds.clear();
    nodes = json::Array();
    curF = F;
    json::Object o;
    o["fid"] = id;
    o["q"] = qname(F);
    o["file"] = file(F->getLocation());
    o["line"] = line(F->getLocation());
    o["eline"] = line(F->getEndLoc());
    o["ret"] = typeStr(F->getReturnType());
    o["ext"] = F->hasExternalFormalLinkage() && !F->isInAnonymousNamespace();
    if (auto *FPT = F->getType()->getAs<FunctionProtoType>())
      o["noexc"] = FPT->isNothrow();
    json::Array ps;
    for (auto *p : F->parameters()) {
      json::Object po;
      po["did"] = declId(p);
      po["name"] = p->getNameAsString();
      po["t"] = typeStr(p->getType());
      if (p->getType()->isIntegralOrEnumerationType() && !p->getType()->isIncompleteType())
        po["w"] = (int64_t)C.getTypeSize(p->getType()) * (p->getType()->isUnsignedIntegerOrEnumerationType() ? 1 : -1);
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = qname(M->getParent());
      o["clst"] = typeStr(C.getTypeDeclType(M->getParent()));
      o["acc"] = (int)M->getAccess();
      o["static"] = M->isStatic();
      o["virt"] = M->isVirtual();
      o["const"] = M->isConst();
      o["lambda"] = M->getParent()->isLambda();
      if (isa<CXXConstructorDecl>(F)) o["ctor"] = true;
      if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
      json::Array ov;
      for (auto *om : M->overridden_methods()) ov.push_back(funcId(om));
      o["ov"] = std::move(ov);
      if (M->getParent()->isLambda()) {
        const DeclContext *DC = M->getParent()->getDeclContext();
        while (DC && !isa<FunctionDecl>(DC)) DC = DC->getParent();
        if (DC) o["encl"] = funcId(cast<FunctionDecl>(DC));
      }
    }
    bool coro = isa_and_nonnull<CoroutineBodyStmt>(F->getBody());
    o["coro"] = coro;
    const Stmt *body = F->getBody();
    CFG::BuildOptions BO;
    BO.AddInitializers = true;
    BO.AddImplicitDtors = true;
    BO.AddTemporaryDtors = true;
    BO.AddEHEdges = false;
    BO.AddCXXDefaultInitExprInCtors = true;
    BO.AddCXXDefaultInitExprInAggregates = false;
    BO.PruneTriviallyFalseEdges = true;
    BO.setAllAlwaysAdd();
    Stmt *cfgBody = const_cast<Stmt *>(body);
    if (coro) cfgBody = cast<CoroutineBodyStmt>(cfgBody)->getBody();
    auto cfg = CFG::buildCFG(F, cfgBody, &C, BO);
    json::Array blocks;
    if (!cfg) {
      o["nocfg"] = true;
    } else {
      o["entry"] = cfg->getEntry().getBlockID();
      o["exit"] = cfg->getExit().getBlockID();
      for (auto *B : *cfg) {
        json::Object b;
        b["id"] = B->getBlockID();
        json::Array els;
        for (auto &E : *B) {
          json::Object e;
          switch (E.getKind()) {
            case CFGElement::Statement:
            case CFGElement::Constructor:
            case CFGElement::CXXRecordTypedCall:
              els.push_back(node(E.castAs<CFGStmt>().getStmt()));
              continue;
            case CFGElement::Initializer: {
              auto *I = E.castAs<CFGInitializer>().getInitializer();
              e["k"] = "init";
              if (I->isAnyMemberInitializer()) e["m"] = I->getAnyMember()->getNameAsString();
              else if (I->isBaseInitializer()) e["base"] = typeStr(QualType(I->getBaseClass(), 0));
              else e["deleg"] = true;
              e["n"] = node(I->getInit());
              break;
            }
            case CFGElement::AutomaticObjectDtor: {
              auto D = E.castAs<CFGAutomaticObjDtor>();
              e["k"] = "dtor";
              e["did"] = declId(D.getVarDecl());
              e["name"] = D.getVarDecl()->getNameAsString();
              e["t"] = typeStr(D.getVarDecl()->getType());
              if (auto *DD = D.getDestructorDecl(C)) e["fid"] = funcId(DD);
              e["l"] = line(D.getTriggerStmt() ? D.getTriggerStmt()->getEndLoc() : F->getEndLoc());
              break;
            }
            case CFGElement::TemporaryDtor: {
              auto D = E.castAs<CFGTemporaryDtor>();
              e["k"] = "tdtor";
              e["n"] = node(D.getBindTemporaryExpr());
              e["t"] = typeStr(D.getBindTemporaryExpr()->getType());
              if (auto *DD = D.getDestructorDecl(C)) e["fid"] = funcId(DD);
              break;
            }
            case CFGElement::DeleteDtor: {
              auto D = E.castAs<CFGDeleteDtor>();
              e["k"] = "ddtor";
              e["n"] = node(D.getDeleteExpr()->getArgument());
              if (auto *DD = D.getDestructorDecl(C)) e["fid"] = funcId(DD);
              break;
            }
            case CFGElement::MemberDtor: {
              auto D = E.castAs<CFGMemberDtor>();
              e["k"] = "mdtor";
              e["m"] = D.getFieldDecl()->getNameAsString();
              e["t"] = typeStr(D.getFieldDecl()->getType());
              if (auto *DD = D.getDestructorDecl(C)) e["fid"] = funcId(DD);
              break;
            }
            default:
              continue;
          }
          els.push_back(std::move(e));
        }
        b["e"] = std::move(els);
        if (auto *L = B->getLabel()) b["lab"] = node(L);
        auto T = B->getTerminator();
        if (T.isValid() && T.getStmt()) {
          json::Object t;
          t["k"] = T.getStmt()->getStmtClassName();
          t["tk"] = (int)T.getKind();
          t["l"] = line(T.getStmt()->getBeginLoc());
          if (auto *BOp = dyn_cast<BinaryOperator>(T.getStmt())) t["op"] = BOp->getOpcodeStr().str();
          if (auto *X = dyn_cast<Expr>(T.getStmt())) t["n"] = node(X);
          if (auto *Cd = B->getTerminatorCondition(false)) t["c"] = node(Cd);
          if (isa<CXXTryStmt>(T.getStmt())) t["try"] = true;
          b["t"] = std::move(t);
        }
        json::Array su;
        for (auto &s : B->succs()) {
          if (auto *r = s.getReachableBlock()) su.push_back(r->getBlockID());
          else if (auto *u = s.getPossiblyUnreachableBlock()) su.push_back(-(int)u->getBlockID() - 2);
          else su.push_back(-1);
        }
        b["s"] = std::move(su);
        if (auto *lt = B->getLoopTarget()) { b["back"] = true; (void)lt; }
        if (B->hasNoReturnElement()) b["noret"] = true;
        blocks.push_back(std::move(b));
      }
    }
    // try statement structure: which blocks' source ranges lie in which try
    json::Array tries;
    struct TV : RecursiveASTVisitor<TV> {
      Dumper &D; json::Array &A;
      TV(Dumper &d, json::Array &a) : D(d), A(a) {}
      bool TraverseLambdaExpr(LambdaExpr *) { return true; }
      bool VisitCXXTryStmt(CXXTryStmt *T) {
        json::Object t;
        t["l"] = D.line(T->getTryBlock()->getBeginLoc());
        t["e"] = D.line(T->getTryBlock()->getEndLoc());
        json::Array st;
        struct NV : RecursiveASTVisitor<NV> {
          Dumper &D; json::Array &A;
          NV(Dumper &d, json::Array &a) : D(d), A(a) {}
          bool TraverseLambdaExpr(LambdaExpr *) { return true; }
          bool shouldVisitImplicitCode() const { return true; }
          bool VisitStmt(Stmt *S) {
            auto it = D.nodeIds.find(S);
            if (it != D.nodeIds.end()) A.push_back(it->second);
            return true;
          }
        } nv(D, st);
        nv.TraverseStmt(T->getTryBlock());
        t["nodes"] = std::move(st);
        json::Array hs;
        for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
          auto *H = T->getHandler(i);
          hs.push_back(D.node(H));
        }
        t["h"] = std::move(hs);
        A.push_back(std::move(t));
        return true;
      }
    } tv(*this, tries);
    tv.TraverseStmt(const_cast<Stmt *>(body));
    if (!tries.empty()) o["tries"] = std::move(tries);
    o["blocks"] = std::move(blocks);
    o["nodes"] = std::move(nodes);
    nodes = json::Array();
    OS << json::Value(std::move(o)) << "\n";
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Dumper &D;
  Visitor(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) { D.function(F); return true; }
  bool VisitLambdaExpr(LambdaExpr *L) {
    if (L->getCallOperator()) D.function(L->getCallOperator());
    if (auto *FT = L->getLambdaClass()->getDependentLambdaCallOperator()) {
      for (auto *s : FT->specializations()) D.function(s);
    }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { D.record(R); return true; }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isComplete() || !D.inRoots(E->getLocation())) return true;
    auto n = D.qname(E);
    if (!g_seen_rec.insert("enum " + n).second) return true;
    json::Object o;
    o["enum"] = n;
    json::Array a;
    for (auto *c : E->enumerators()) {
      json::Object x;
      x["name"] = c->getNameAsString();
      bool ok; x["v"] = Dumper::ci64(c->getInitVal(), ok);
      a.push_back(std::move(x));
    }
    o["vals"] = std::move(a);
    D.OS << json::Value(std::move(o)) << "\n";
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->isLocalVarDeclOrParm() || !V->hasGlobalStorage()) return true;
    if (!D.inRoots(V->getLocation())) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    auto n = D.qname(V);
    if (!g_seen_rec.insert("gvar " + n).second) return true;
    json::Object o;
    o["gvar"] = n;
    o["t"] = D.typeStr(V->getType());
    o["file"] = D.file(V->getLocation());
    o["line"] = D.line(V->getLocation());
    o["tls"] = V->getTLSKind() != VarDecl::TLS_None;
    D.OS << json::Value(std::move(o)) << "\n";
    return true;
  }
};

struct Consumer : ASTConsumer {
  llvm::raw_ostream &OS;
  Consumer(llvm::raw_ostream &os) : OS(os) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasUncompilableErrorOccurred()) return;
    Dumper D(C, OS);
    Visitor V(D);
    V.TraverseDecl(C.getTranslationUnitDecl());
  }
};

struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    return std::make_unique<Consumer>(llvm::outs());
  }
};

struct Factory : tooling::FrontendActionFactory {
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};

} // namespace

// extract ROOT[,ROOT...] FILE... -- FLAGS...
int main(int argc, const char **argv) {
  std::vector<std::string> files, flags;
  std::string roots = argv[1];
  size_t p = 0;
  while (p <= roots.size()) {
    auto q = roots.find(',', p);
    if (q == std::string::npos) q = roots.size();
    if (q > p) g_roots.push_back(roots.substr(p, q - p));
    p = q + 1;
  }
  int i = 2;
  for (; i < argc && std::string(argv[i]) != "--"; ++i) files.push_back(argv[i]);
  for (++i; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB("/", flags);
  tooling::ClangTool T(DB, files);
  Factory F;
  return T.run(&F);
}
