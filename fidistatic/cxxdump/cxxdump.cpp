// cxxdump: parse one C++ translation unit and print, as JSON, the resolved
// bodies of all functions whose definition lies under a given root directory
// (template instantiations included).  No analysis happens here.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root;

namespace {
struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  ASTNameGenerator NG;
  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), NG(C) {}
  std::map<const Decl *, int> ids;
  std::set<const FunctionDecl *> queued;
  std::vector<const FunctionDecl *> todo;
  std::set<const CXXRecordDecl *> recs;
  std::vector<const CXXRecordDecl *> recTodo;

  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1;
    ids[D] = n;
    return n;
  }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return false;
    llvm::StringRef F(P.getFilename());
    return F.starts_with(Root);
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    return P.isInvalid() ? "" : P.getFilename();
  }
  int line(SourceLocation L) {
    if (L.isInvalid()) return 0;
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    return P.isInvalid() ? 0 : (int)P.getLine();
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    T = T.getCanonicalType();
    T = T.getUnqualifiedType();
    const Type *t = T.getTypePtr();
    if (auto *R = dyn_cast<ReferenceType>(t)) return "ref<" + ty(R->getPointeeType()) + ">";
    if (auto *P = dyn_cast<PointerType>(t)) return "ptr<" + ty(P->getPointeeType()) + ">";
    if (auto *A = dyn_cast<ConstantArrayType>(t))
      return "carr<" + ty(A->getElementType()) + "," + std::to_string(A->getSize().getZExtValue()) + ">";
    if (auto *A = dyn_cast<ArrayType>(t)) return "carr<" + ty(A->getElementType()) + ",?>";
    if (auto *B = dyn_cast<BuiltinType>(t)) {
      if (B->getKind() == BuiltinType::Bool) return "bool";
      if (B->getKind() == BuiltinType::Void) return "void";
      if (B->isFloatingPoint()) return "f" + std::to_string(C.getTypeSize(T));
      if (B->getKind() == BuiltinType::Char_S || B->getKind() == BuiltinType::Char_U) return "char";
      if (B->isSignedInteger()) return "i" + std::to_string(C.getTypeSize(T));
      if (B->isUnsignedInteger()) return "u" + std::to_string(C.getTypeSize(T));
      return B->getName(C.getPrintingPolicy()).str();
    }
    if (auto *E = dyn_cast<EnumType>(t)) {
      (void)E;
      return "enum";
    }
    if (isa<FunctionProtoType>(t)) return "fn";
    if (auto *R = dyn_cast<RecordType>(t)) {
      auto *D = R->getDecl();
      std::string q = D->getQualifiedNameAsString();
      if (auto *CR = dyn_cast<CXXRecordDecl>(D)) {
        if (recIn(CR)) noteRec(CR);
        if (CR->isLambda()) return "lambda";
      }
      if (q == "std::basic_string" || q == "std::__cxx11::basic_string") return "string";
      std::string s = q;
      for (const char *p : {"std::__cxx11::", "std::", "__gnu_cxx::"}) {
        if (llvm::StringRef(s).starts_with(p)) { s = s.substr(strlen(p)); break; }
      }
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(D)) {
        unsigned maxn = 99;
        if (s == "vector" || s == "list" || s == "set" || s == "deque") maxn = 1;
        if (s == "map" || s == "unordered_map") maxn = 2;
        s += "<";
        unsigned n = 0;
        for (auto &A : S->getTemplateArgs().asArray()) {
          if (n >= maxn) break;
          if (n) s += ",";
          n++;
          if (A.getKind() == TemplateArgument::Type) s += ty(A.getAsType());
          else if (A.getKind() == TemplateArgument::Integral) s += llvm::toString(A.getAsIntegral(), 10);
          else s += "?";
        }
        s += ">";
      }
      return s;
    }
    return T.getAsString();
  }
  bool recIn(const CXXRecordDecl *R) {
    // an explicit instantiation is located where it is requested
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) return inRoot(S->getSpecializedTemplate()->getLocation());
    return inRoot(R->getLocation());
  }
  void noteRec(const CXXRecordDecl *R) {
    R = R->getDefinition();
    if (!R) return;
    if (recs.insert(R).second) recTodo.push_back(R);
  }
  const FunctionDecl *defOf(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    if (F->hasBody(D)) return D;
    if (auto *P = F->getTemplateInstantiationPattern())
      if (P->hasBody(D)) return F;
    return F;
  }
  std::string qname(const NamedDecl *D) {
    std::string q = D->getQualifiedNameAsString();
    return q;
  }
  int fnref(const FunctionDecl *F) {
    const FunctionDecl *D = defOf(F);
    const FunctionDecl *B = nullptr;
    if (D->hasBody(B) && inRoot(B->getLocation())) {
      if (queued.insert(B).second) todo.push_back(B);
    }
    return id(F);
  }
  Object node(const char *k, const Stmt *S) {
    Object o;
    o["k"] = k;
    SourceLocation L = S->getBeginLoc();
    if (auto *B = dyn_cast<BinaryOperator>(S)) L = B->getOperatorLoc();
    o["ln"] = line(L);
    return o;
  }
  Value st(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) return ex(E);
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      Object o = node("block", S);
      o["file"] = file(S->getBeginLoc());
      o["eln"] = line(S->getEndLoc());
      Array a;
      for (auto *c : X->body()) a.push_back(st(c));
      o["c"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      Object o = node("decl", S);
      Array a;
      for (auto *D : X->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(var(V));
      o["vars"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      Object o = node("if", S);
      if (X->getInit()) o["init"] = st(X->getInit());
      if (X->getConditionVariable()) o["cvar"] = var(X->getConditionVariable());
      o["cond"] = ex(X->getCond());
      o["then"] = st(X->getThen());
      if (X->getElse()) o["else"] = st(X->getElse());
      return o;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      Object o = node("for", S);
      o["file"] = file(S->getBeginLoc());
      o["eln"] = line(S->getEndLoc());
      if (X->getInit()) o["init"] = st(X->getInit());
      if (X->getCond()) o["cond"] = ex(X->getCond());
      if (X->getInc()) o["inc"] = ex(X->getInc());
      o["body"] = st(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      Object o = node("rangefor", S);
      o["range"] = ex(X->getRangeInit());
      o["var"] = var(X->getLoopVariable(), false);
      o["body"] = st(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      Object o = node("while", S);
      if (X->getConditionVariable()) o["cvar"] = var(X->getConditionVariable());
      o["cond"] = ex(X->getCond());
      o["body"] = st(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<DoStmt>(S)) {
      Object o = node("do", S);
      o["cond"] = ex(X->getCond());
      o["body"] = st(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) {
      Object o = node("return", S);
      if (X->getRetValue()) o["e"] = ex(X->getRetValue());
      return o;
    }
    if (isa<BreakStmt>(S)) return node("break", S);
    if (isa<ContinueStmt>(S)) return node("continue", S);
    if (isa<NullStmt>(S)) return node("null", S);
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      Object o = node("switch", S);
      o["cond"] = ex(X->getCond());
      o["body"] = st(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      Object o = node("case", S);
      o["e"] = ex(X->getLHS());
      o["body"] = st(X->getSubStmt());
      return o;
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) {
      Object o = node("default", S);
      o["body"] = st(X->getSubStmt());
      return o;
    }
    if (auto *X = dyn_cast<CapturedStmt>(S)) return st(X->getCapturedStmt());
    if (auto *X = dyn_cast<AttributedStmt>(S)) return st(X->getSubStmt());
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      Object o = node("try", S);
      o["body"] = st(X->getTryBlock());
      return o;
    }
    if (auto *X = dyn_cast<OMPCanonicalLoop>(S)) return st(X->getLoopStmt());
    if (auto *X = dyn_cast<OMPExecutableDirective>(S)) {
      Object o = node("omp", S);
      o["file"] = file(S->getBeginLoc());
      o["dir"] = llvm::omp::getOpenMPDirectiveName(X->getDirectiveKind()).str();
      Array cl;
      for (auto *c : X->clauses()) {
        if (!c || c->isImplicit()) { 
          // implicit clauses (e.g. implicit firstprivate/map) are recorded as such
        }
        Object co;
        co["c"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
        co["implicit"] = c->isImplicit();
        clauseInfo(c, co);
        cl.push_back(std::move(co));
      }
      o["clauses"] = std::move(cl);
      if (X->hasAssociatedStmt() && X->getAssociatedStmt()) {
        const Stmt *A = X->getAssociatedStmt();
        while (auto *CS = dyn_cast<CapturedStmt>(A)) A = CS->getCapturedStmt();
        o["body"] = st(A);
      }
      return o;
    }
    Object o = node("unknown", S);
    o["cls"] = S->getStmtClassName();
    return o;
  }
  template <class T> void varlist(T *c, Object &co) {
    Array a;
    for (auto *E : c->varlists()) a.push_back(ex(cast<Expr>(E)));
    co["vars"] = std::move(a);
  }
  void clauseInfo(const OMPClause *c, Object &co) {
    if (auto *x = dyn_cast<OMPPrivateClause>(c)) varlist(x, co);
    else if (auto *x = dyn_cast<OMPFirstprivateClause>(c)) varlist(x, co);
    else if (auto *x = dyn_cast<OMPLastprivateClause>(c)) varlist(x, co);
    else if (auto *x = dyn_cast<OMPSharedClause>(c)) varlist(x, co);
    else if (auto *x = dyn_cast<OMPReductionClause>(c)) {
      varlist(x, co);
      co["op"] = x->getNameInfo().getAsString();
    }
    else if (auto *x = dyn_cast<OMPMapClause>(c)) {
      varlist(x, co);
      const char *m = "tofrom";
      switch (x->getMapType()) {
      case OMPC_MAP_to: m = "to"; break;
      case OMPC_MAP_from: m = "from"; break;
      case OMPC_MAP_tofrom: m = "tofrom"; break;
      case OMPC_MAP_alloc: m = "alloc"; break;
      case OMPC_MAP_release: m = "release"; break;
      case OMPC_MAP_delete: m = "delete"; break;
      default: m = "unknown";
      }
      co["map"] = m;
    }
    else if (auto *x = dyn_cast<OMPToClause>(c)) varlist(x, co);
    else if (auto *x = dyn_cast<OMPFromClause>(c)) varlist(x, co);
    else if (auto *x = dyn_cast<OMPIsDevicePtrClause>(c)) varlist(x, co);
    else if (auto *x = dyn_cast<OMPUseDevicePtrClause>(c)) varlist(x, co);
    else if (auto *x = dyn_cast<OMPLinearClause>(c)) varlist(x, co);
    else if (auto *x = dyn_cast<OMPScheduleClause>(c)) {
      if (x->getChunkSize()) co["e"] = ex(x->getChunkSize());
    }
    else if (auto *x = dyn_cast<OMPCollapseClause>(c)) co["e"] = ex(x->getNumForLoops());
    else if (auto *x = dyn_cast<OMPNumThreadsClause>(c)) co["e"] = ex(x->getNumThreads());
    else if (auto *x = dyn_cast<OMPIfClause>(c)) co["e"] = ex(x->getCondition());
    else if (auto *x = dyn_cast<OMPDefaultClause>(c)) co["n"] = (int)x->getDefaultKind();
    else if (auto *x = dyn_cast<OMPFinalClause>(c)) co["e"] = ex(x->getCondition());
  }
  Value var(const VarDecl *V, bool init = true) {
    Object o;
    o["id"] = id(V);
    o["n"] = V->getNameAsString();
    o["ty"] = ty(V->getType());
    o["ln"] = line(V->getLocation());
    o["isref"] = V->getType()->isReferenceType();
    if (V->isStaticLocal()) o["static"] = true;
    if (init && V->hasInit()) {
      o["init"] = ex(V->getInit());
      o["style"] = (int)V->getInitStyle();
    }
    return o;
  }
  Object enode(const char *k, const Expr *E) {
    Object o = node(k, E);
    o["ty"] = ty(E->getType());
    return o;
  }
  Array args(llvm::ArrayRef<const Expr *> as) {
    Array a;
    for (auto *e : as) a.push_back(ex(e));
    return a;
  }
  std::string mname(const FunctionDecl *F) {
    std::string s = NG.getName(F);
    if (F->getFormalLinkage() == Linkage::Internal) s += "@" + file(F->getLocation());
    return s;
  }
  void callee(Object &o, const FunctionDecl *F) {
    o["fn"] = qname(F);
    o["mn"] = mname(F);
    o["fid"] = fnref(F);
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      Array a;
      for (auto &A : TA->asArray()) {
        if (A.getKind() == TemplateArgument::Type) a.push_back(ty(A.getAsType()));
        else if (A.getKind() == TemplateArgument::Integral) a.push_back(llvm::toString(A.getAsIntegral(), 10));
        else a.push_back("?");
      }
      o["targs"] = std::move(a);
    }
    Array p;
    for (auto *P : F->parameters()) p.push_back(P->getType()->isReferenceType() ? 1 : 0);
    o["prefs"] = std::move(p);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) o["const"] = M->isConst();
  }
  Value ex(const Expr *E) {
    if (!E) return nullptr;
    if (auto *X = dyn_cast<ParenExpr>(E)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<FullExpr>(E)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return ex(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return ex(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return ex(X->getExpr());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      Object o = enode("int", E);
      o["v"] = llvm::toString(X->getValue(), 10, X->getType()->isSignedIntegerType());
      return o;
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      Object o = enode("float", E);
      llvm::SmallString<32> s;
      X->getValue().toString(s, 0, 0);
      o["v"] = s.str().str();
      return o;
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      Object o = enode("bool", E);
      o["v"] = X->getValue();
      return o;
    }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      Object o = enode("char", E);
      o["v"] = (int)X->getValue();
      return o;
    }
    if (auto *X = dyn_cast<clang::StringLiteral>(E)) {
      Object o = enode("str", E);
      o["v"] = X->getString().str();
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return enode("nullptr", E);
    if (isa<CXXThisExpr>(E)) return enode("this", E);
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        Object o = enode("fnref", E);
        callee(o, F);
        return o;
      }
      if (auto *K = dyn_cast<EnumConstantDecl>(D)) {
        Object o = enode("int", E);
        o["v"] = llvm::toString(K->getInitVal(), 10);
        o["en"] = qname(K);
        return o;
      }
      Object o = enode("var", E);
      o["id"] = id(D);
      o["n"] = D->getNameAsString();
      if (auto *V = dyn_cast<VarDecl>(D)) {
        o["isref"] = V->getType()->isReferenceType();
        if (V->hasGlobalStorage()) {
          o["global"] = qname(V);
          const VarDecl *DD = nullptr;
          if (!V->isStaticLocal())
            if (const Expr *I = V->getAnyInitializer(DD))
              if (inRoot(DD->getLocation())) o["ginit"] = ex(I);
        }
      }
      return o;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      if (auto *F = dyn_cast<FunctionDecl>(X->getMemberDecl())) {
        Object o = enode("mfn", E);
        callee(o, F);
        o["base"] = ex(X->getBase());
        o["arrow"] = X->isArrow();
        return o;
      }
      Object o = enode("mem", E);
      o["base"] = ex(X->getBase());
      o["arrow"] = X->isArrow();
      o["n"] = X->getMemberDecl()->getNameAsString();
      if (auto *FD = dyn_cast<FieldDecl>(X->getMemberDecl())) o["isref"] = FD->getType()->isReferenceType();
      return o;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      Object o = enode("sub", E);
      o["base"] = ex(X->getBase());
      o["i"] = ex(X->getIdx());
      return o;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      Object o = enode("un", E);
      o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      o["post"] = X->isPostfix();
      o["e"] = ex(X->getSubExpr());
      return o;
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      Object o = enode("casg", E);
      std::string s = BinaryOperator::getOpcodeStr(X->getOpcode()).str();
      s.pop_back();
      o["op"] = s;
      o["l"] = ex(X->getLHS());
      o["r"] = ex(X->getRHS());
      o["cty"] = ty(X->getComputationLHSType());
      o["lty"] = ty(X->getLHS()->getType());
      return o;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      Object o = enode("bin", E);
      o["op"] = X->getOpcodeStr().str();
      o["l"] = ex(X->getLHS());
      o["r"] = ex(X->getRHS());
      return o;
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      Object o = enode("cond", E);
      o["c"] = ex(X->getCond());
      o["a"] = ex(X->getTrueExpr());
      o["b"] = ex(X->getFalseExpr());
      return o;
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      switch (X->getCastKind()) {
      case CK_NoOp:
      case CK_ConstructorConversion:
      case CK_UserDefinedConversion:
      case CK_UncheckedDerivedToBase:
      case CK_DerivedToBase:
        return ex(X->getSubExpr());
      default:
        break;
      }
      Object o = enode("cast", E);
      o["ck"] = X->getCastKindName();
      o["e"] = ex(X->getSubExpr());
      return o;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      Object o = enode("lambda", E);
      const CXXMethodDecl *M = X->getCallOperator();
      Array ps;
      for (auto *P : M->parameters()) ps.push_back(var(P));
      o["params"] = std::move(ps);
      o["body"] = st(X->getBody());
      Array cs;
      unsigned n = 0;
      auto ii = X->capture_init_begin();
      for (auto &cap : X->captures()) {
        Object c;
        if (cap.capturesThis()) c["this"] = true;
        else if (cap.capturesVariable()) {
          c["id"] = id(cap.getCapturedVar());
          c["byref"] = cap.getCaptureKind() == LCK_ByRef;
          if (auto *V = dyn_cast<VarDecl>(cap.getCapturedVar()))
            if (V->isInitCapture() && V->getInit()) c["init"] = ex(V->getInit());
        }
        cs.push_back(std::move(c));
        ++n; ++ii;
      }
      o["caps"] = std::move(cs);
      return o;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      Object o = enode("opcall", E);
      o["op"] = getOperatorSpelling(X->getOperator());
      if (auto *F = X->getDirectCallee()) callee(o, F);
      else o["fn"] = "?";
      Array a;
      for (auto *e : X->arguments()) a.push_back(ex(e));
      o["args"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      Object o = enode("mcall", E);
      if (auto *F = X->getMethodDecl()) callee(o, F);
      else o["fn"] = "?";
      const Expr *Ob = X->getImplicitObjectArgument();
      o["obj"] = ex(Ob);
      if (Ob && Ob->getType()->isPointerType()) o["arrow"] = true;
      o["oty"] = ty(Ob ? Ob->getType() : QualType());
      Array a;
      for (auto *e : X->arguments()) a.push_back(ex(e));
      o["args"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      Object o = enode("call", E);
      if (auto *F = X->getDirectCallee()) callee(o, F);
      else {
        o["fn"] = "?";
        o["ce"] = ex(X->getCallee());
      }
      Array a;
      for (auto *e : X->arguments()) a.push_back(ex(e));
      o["args"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      Object o = enode("ctor", E);
      const CXXConstructorDecl *K = X->getConstructor();
      callee(o, K);
      o["copy"] = K->isCopyOrMoveConstructor();
      o["zero"] = X->requiresZeroInitialization();
      o["list"] = X->isListInitialization();
      o["stdlist"] = X->isStdInitListInitialization();
      Array a;
      for (auto *e : X->arguments()) a.push_back(ex(e));
      o["args"] = std::move(a);
      return o;
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) return enode("zeroinit", E);
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      Object o = enode("ilist", E);
      Array a;
      for (auto *e : X->inits()) a.push_back(ex(e));
      o["c"] = std::move(a);
      if (X->getArrayFiller()) o["filler"] = ex(X->getArrayFiller());
      return o;
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R;
      if (X->EvaluateAsInt(R, C)) {
        Object o = enode("int", E);
        o["v"] = llvm::toString(R.Val.getInt(), 10);
        return o;
      }
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      Object o = enode("new", E);
      o["ety"] = ty(X->getAllocatedType());
      if (X->isArray() && X->getArraySize()) o["n"] = ex(*X->getArraySize());
      o["array"] = X->isArray();
      if (X->getInitializer()) o["init"] = ex(X->getInitializer());
      return o;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      Object o = enode("delete", E);
      o["array"] = X->isArrayForm();
      o["e"] = ex(X->getArgument());
      return o;
    }
    if (auto *X = dyn_cast<ArraySectionExpr_t>(E)) {
      Object o = enode("section", E);
      o["base"] = ex(X->getBase());
      if (X->getLowerBound()) o["lo"] = ex(X->getLowerBound());
      if (X->getLength()) o["len"] = ex(X->getLength());
      return o;
    }
    if (isa<CXXThrowExpr>(E)) return enode("throw", E);
    if (auto *X = dyn_cast<PredefinedExpr>(E)) {
      Object o = enode("str", E);
      o["v"] = X->getFunctionName() ? X->getFunctionName()->getString().str() : "";
      return o;
    }
    Object o = enode("unknown", E);
    o["cls"] = E->getStmtClassName();
    return o;
  }
  using ArraySectionExpr_t = OMPArraySectionExpr;

  Value func(const FunctionDecl *F) {
    Object o;
    o["id"] = id(F);
    o["q"] = qname(F);
    o["mn"] = mname(F);
    o["file"] = file(F->getLocation());
    o["ln"] = line(F->getLocation());
    o["ret"] = ty(F->getReturnType());
    o["retref"] = F->getReturnType()->isReferenceType();
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      Array a;
      for (auto &A : TA->asArray()) {
        if (A.getKind() == TemplateArgument::Type) a.push_back(ty(A.getAsType()));
        else if (A.getKind() == TemplateArgument::Integral) a.push_back(llvm::toString(A.getAsIntegral(), 10));
        else a.push_back("?");
      }
      o["targs"] = std::move(a);
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = ty(C.getRecordType(M->getParent()));
      o["static"] = M->isStatic();
      o["const"] = M->isConst();
      o["access"] = M->getAccess() == AS_public ? "public" : "private";
      o["ctor"] = isa<CXXConstructorDecl>(M);
      o["dtor"] = isa<CXXDestructorDecl>(M);
    }
    Array ps;
    for (auto *P : F->parameters()) ps.push_back(var(P));
    o["params"] = std::move(ps);
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      Array in;
      for (auto *I : K->inits()) {
        Object x;
        if (I->isAnyMemberInitializer()) x["field"] = I->getAnyMember()->getNameAsString();
        else if (I->isDelegatingInitializer()) x["delegate"] = true;
        else x["base"] = true;
        x["written"] = I->isWritten();
        x["e"] = ex(I->getInit());
        in.push_back(std::move(x));
      }
      o["inits"] = std::move(in);
    }
    o["body"] = st(F->getBody());
    return o;
  }
};

struct V : RecursiveASTVisitor<V> {
  Dumper &D;
  std::vector<std::string> classTemplates;
  Array globals;
  V(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext()) return true;
    const FunctionDecl *B = nullptr;
    if (!F->hasBody(B) || B != F) return true;
    if (F->isImplicit()) return true;
    if (!D.inRoot(F->getLocation())) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return true;
    if (D.queued.insert(F).second) D.todo.push_back(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isDependentContext() || !R->isThisDeclarationADefinition()) return true;
    if (D.recIn(R) && !R->isLambda()) D.noteRec(R);
    return true;
  }
  bool VisitClassTemplateDecl(ClassTemplateDecl *T) {
    if (D.inRoot(T->getLocation())) {
      std::string s = T->getNameAsString() + "|";
      for (auto *P : *T->getTemplateParameters()) s += isa<NonTypeTemplateParmDecl>(P) ? "v" : "t";
      classTemplates.push_back(s);
    }
    return true;
  }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    V v(D);
    v.TraverseDecl(C.getTranslationUnitDecl());
    Array fs;
    for (size_t i = 0; i < D.todo.size(); ++i) fs.push_back(D.func(D.todo[i]));
    Array rs;
    for (size_t i = 0; i < D.recTodo.size(); ++i) {
      const CXXRecordDecl *R = D.recTodo[i];
      if (R->isDependentContext() || R->isLambda()) continue;
      Object o;
      o["n"] = D.ty(C.getRecordType(R));
      o["file"] = D.file(R->getLocation());
      o["ln"] = D.line(R->getLocation());
      o["hasdtor"] = R->hasUserDeclaredDestructor();
      o["userctor"] = R->hasUserDeclaredConstructor();
      Array bs;
      for (auto &B : R->bases()) bs.push_back(D.ty(B.getType()));
      o["bases"] = std::move(bs);
      Array fl;
      for (auto *F : R->fields()) {
        Object x;
        x["n"] = F->getNameAsString();
        x["ty"] = D.ty(F->getType());
        x["ln"] = D.line(F->getLocation());
        if (F->hasInClassInitializer() && F->getInClassInitializer()) x["init"] = D.ex(F->getInClassInitializer());
        fl.push_back(std::move(x));
      }
      o["fields"] = std::move(fl);
      Array ms;
      for (auto *M : R->methods()) {
        Object x;
        x["n"] = M->getNameAsString();
        x["id"] = D.id(M);
        x["access"] = M->getAccess() == AS_public ? "public" : "private";
        x["np"] = (int)M->getNumParams();
        Array pt;
        for (auto *P : M->parameters()) pt.push_back(D.ty(P->getType()));
        x["ptys"] = std::move(pt);
        x["implicit"] = M->isImplicit();
        ms.push_back(std::move(x));
      }
      o["methods"] = std::move(ms);
      rs.push_back(std::move(o));
      // a field initialiser may have queued functions
      for (size_t j = fs.size(); j < D.todo.size(); ++j) fs.push_back(D.func(D.todo[j]));
    }
    for (size_t j = fs.size(); j < D.todo.size(); ++j) fs.push_back(D.func(D.todo[j]));
    Object top;
    top["functions"] = std::move(fs);
    top["records"] = std::move(rs);
    Array ct;
    for (auto &s : v.classTemplates) ct.push_back(s);
    top["class_templates"] = std::move(ct);
    llvm::outs() << Value(std::move(top)) << "\n";
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override {
    return std::make_unique<Cons>();
  }
};
} // namespace

// usage: cxxdump ROOT FILE -- compiler flags
int main(int argc, const char **argv) {
  if (argc < 4) return 2;
  Root = argv[1];
  std::string File = argv[2];
  std::vector<std::string> flags;
  for (int i = 4; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {File});
  T.appendArgumentsAdjuster(tooling::getInsertArgumentAdjuster("-fsyntax-only"));
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
