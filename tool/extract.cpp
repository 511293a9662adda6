// extract.cpp -- libTooling front end: parses one translation unit and writes a
// simplified, type-checked AST (functions, records, enums, globals declared under
// the repository root) as JSON. It runs nothing of the repository.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/Path.h"
#include <set>
#include <fstream>

using namespace clang;
namespace json = llvm::json;

static std::string g_root;
static std::string g_out;

namespace {

class Emitter {
public:
  Emitter(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressInlineNamespace = true;
    PP.SuppressUnwrittenScope = true;
    PP.FullyQualifiedName = true;
  }

  bool inRepo(SourceLocation L, std::string &File, unsigned &Line) {
    if (L.isInvalid()) return false;
    SourceLocation E = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(E, false);
    if (P.isInvalid()) return false;
    llvm::SmallString<256> F(P.getFilename());
    llvm::sys::fs::make_absolute(F);
    llvm::sys::path::remove_dots(F, true);
    StringRef S(F);
    if (!S.starts_with(g_root)) return false;
    File = S.substr(g_root.size()).str();
    Line = P.getLine();
    return true;
  }
  unsigned line(SourceLocation L) {
    if (L.isInvalid()) return 0;
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L), false);
    return P.isInvalid() ? 0 : P.getLine();
  }

  std::string typeStr(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  // type id through a per-TU table (types repeat a lot)
  int64_t ty(QualType T) {
    std::string S = typeStr(T);
    auto It = Types.find(S);
    if (It != Types.end()) return It->second;
    int64_t N = (int64_t)TypeList.size();
    Types[S] = N; TypeList.push_back(S);
    return N;
  }
  std::string usr(const Decl *D) {
    llvm::SmallString<128> B;
    if (index::generateUSRForDecl(D, B)) return "";
    return std::string(B.str());
  }
  int64_t declId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = Ids.find(D);
    if (It != Ids.end()) return It->second;
    int64_t N = (int64_t)Ids.size() + 1;
    Ids[D] = N;
    return N;
  }
  std::string qual(const NamedDecl *D) {
    std::string S; llvm::raw_string_ostream O(S);
    PrintingPolicy P2 = PP; 
    D->printQualifiedName(O, P2);
    return O.str();
  }

  json::Value fnRef(const FunctionDecl *F) {
    json::Object O;
    O["q"] = qual(F);
    O["u"] = usr(F);
    O["n"] = F->getNameAsString();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = qual(M->getParent());
      O["cn"] = M->getParent()->getNameAsString();
      if (M->isVirtual()) O["virt"] = true;
      if (M->isConst()) O["const"] = true;
      if (M->isStatic()) O["static"] = true;
      if (M->isImplicit() || M->isDefaulted()) O["defaulted"] = true;
      if (isa<CXXConstructorDecl>(M)) {
        auto *Cn = cast<CXXConstructorDecl>(M);
        if (Cn->isCopyConstructor()) O["ctor"] = "copy";
        else if (Cn->isMoveConstructor()) O["ctor"] = "move";
        else if (Cn->isDefaultConstructor()) O["ctor"] = "default";
        else O["ctor"] = "other";
      }
    }
    std::string File; unsigned L;
    if (inRepo(F->getLocation(), File, L)) O["repo"] = true;
    if (F->isNoReturn()) O["noret"] = true;
    // parameter passing modes
    json::Array PM;
    for (auto *P : F->parameters()) {
      QualType T = P->getType();
      if (T->isReferenceType()) PM.push_back(T->getPointeeType().isConstQualified() ? "cr" : (T->isRValueReferenceType() ? "rr" : "r"));
      else if (T->isPointerType()) PM.push_back(T->getPointeeType().isConstQualified() ? "cp" : "p");
      else PM.push_back("v");
    }
    O["pm"] = std::move(PM);
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      json::Array A;
      for (auto &X : TA->asArray()) {
        std::string S; llvm::raw_string_ostream OS(S);
        X.print(PP, OS, true);
        A.push_back(OS.str());
      }
      O["targs"] = std::move(A);
    }
    return O;
  }

  json::Value varRef(const ValueDecl *D) {
    json::Object O;
    O["k"] = "ref";
    O["n"] = D->getNameAsString();
    O["id"] = declId(D);
    if (isa<ParmVarDecl>(D)) O["dk"] = "param";
    else if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->isLocalVarDecl() && !V->isStaticLocal()) O["dk"] = "var";
      else { O["dk"] = V->isStaticLocal() ? "staticlocal" : "global"; O["q"] = qual(V); O["u"] = usr(V); 
        if (V->getType().isConstQualified() || V->isConstexpr()) O["const"] = true; }
    } else if (isa<EnumConstantDecl>(D)) { O["dk"] = "enum"; O["q"] = qual(D);
      O["v"] = (int64_t)cast<EnumConstantDecl>(D)->getInitVal().getExtValue(); }
    else if (isa<FunctionDecl>(D)) { O["dk"] = "func"; O["f"] = fnRef(cast<FunctionDecl>(D)); }
    else if (isa<FieldDecl>(D)) O["dk"] = "field";
    else O["dk"] = "other";
    return O;
  }

  json::Value mk(const char *K, const Stmt *S) {
    json::Object O; O["k"] = K; O["l"] = (int64_t)line(S->getBeginLoc());
    return O;
  }

  const Expr *strip(const Expr *E) {
    while (E) {
      const Expr *P = E;
      if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
      if (E == P) break;
    }
    return E;
  }

  json::Array exprs(llvm::ArrayRef<const Expr*> A) {
    json::Array R; for (auto *E : A) R.push_back(expr(E)); return R;
  }
  template<class Call> json::Array callArgs(const Call *C, unsigned From = 0) {
    json::Array R;
    for (unsigned I = From; I < C->getNumArgs(); ++I) R.push_back(expr(C->getArg(I)));
    return R;
  }

  json::Value expr(const Expr *E0) {
    if (!E0) return nullptr;
    bool DefArg = isa<CXXDefaultArgExpr>(E0);
    const Expr *E = strip(E0);
    json::Object O;
    O["l"] = (int64_t)line(E0->getBeginLoc());
    O["t"] = ty(E->getType());
    if (DefArg) O["def"] = true;
    auto setk = [&](const char *K) { O["k"] = K; };

    // assert pattern: cond ? void(0) : __assert_fail(...)
    if (auto *C = dyn_cast<ConditionalOperator>(E)) {
      const Expr *F = strip(C->getFalseExpr());
      if (auto *CE = dyn_cast<CallExpr>(F)) if (auto *FD = CE->getDirectCallee())
        if (FD->getName() == "__assert_fail") {
          setk("assert");
          const Expr *Cond = C->getCond();
          O["c"] = expr(Cond);
          return O;
        }
      setk("cond");
      O["c"] = expr(C->getCond()); O["a"] = expr(C->getTrueExpr()); O["b"] = expr(C->getFalseExpr());
      return O;
    }
    if (auto *IC = dyn_cast<ImplicitCastExpr>(E)) {
      switch (IC->getCastKind()) {
      case CK_IntegralCast: case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_FloatingCast:
      case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToBoolean: {
        setk("icast"); O["ck"] = IC->getCastKindName(); O["e"] = expr(IC->getSubExpr()); return O;
      }
      default: return expr(IC->getSubExpr());
      }
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { setk("int"); 
      llvm::SmallString<32> S; X->getValue().toString(S, 10, X->getType()->isSignedIntegerType()); O["v"] = S.str().str(); return O; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { setk("char"); O["v"] = (int64_t)X->getValue(); return O; }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { setk("float"); 
      llvm::SmallString<32> S; X->getValue().toString(S); O["v"] = S.str().str(); return O; }
    if (auto *X = dyn_cast<clang::StringLiteral>(E)) { setk("str"); O["v"] = json::fixUTF8(X->isOrdinary() ? X->getString() : StringRef("")); return O; }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { setk("bool"); O["v"] = X->getValue(); return O; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { setk("null"); return O; }
    if (isa<CXXThisExpr>(E)) { setk("this"); return O; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      json::Value V = varRef(X->getDecl());
      json::Object *VO = V.getAsObject();
      (*VO)["l"] = (int64_t)line(E->getBeginLoc()); (*VO)["t"] = ty(E->getType());
      return V;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      if (auto *F = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        setk("mem"); O["n"] = F->getNameAsString(); O["cls"] = qual(F->getParent()); O["arrow"] = X->isArrow();
        O["b"] = expr(X->getBase()); return O;
      }
      if (auto *M = dyn_cast<CXXMethodDecl>(X->getMemberDecl())) {
        setk("memfn"); O["f"] = fnRef(M); O["b"] = expr(X->getBase()); return O;
      }
      json::Value V = varRef(cast<ValueDecl>(X->getMemberDecl()));
      return V;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      setk("opcall"); O["op"] = getOperatorSpelling(X->getOperator());
      O["args"] = callArgs(X);
      if (auto *F = X->getDirectCallee()) O["f"] = fnRef(F);
      return O;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      setk("mcall");
      const Expr *Obj = X->getImplicitObjectArgument();
      O["obj"] = expr(Obj);
      if (auto *M = X->getMethodDecl()) {
        O["f"] = fnRef(M);
        if (auto *ME = dyn_cast<MemberExpr>(strip(X->getCallee()))) {
          if (ME->hasQualifier()) O["nonvirt"] = true;
          O["arrow"] = ME->isArrow();
        }
        O["rt"] = ty(X->getObjectType());
      }
      O["args"] = callArgs(X);
      return O;
    }
    if (auto *X = dyn_cast<UserDefinedLiteral>(E)) { setk("call"); O["args"] = callArgs(X); if (auto*F=X->getDirectCallee()) O["f"]=fnRef(F); return O; }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      setk("call");
      if (auto *F = X->getDirectCallee()) O["f"] = fnRef(F);
      else O["callee"] = expr(X->getCallee());
      O["args"] = callArgs(X);
      return O;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      setk(isa<CXXTemporaryObjectExpr>(E) ? "tctor" : "ctor");
      O["f"] = fnRef(X->getConstructor());
      O["args"] = callArgs(X);
      if (X->isElidable()) O["elide"] = true;
      if (X->isListInitialization()) O["list"] = true;
      return O;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { setk("ctor"); O["f"] = fnRef(X->getConstructor()); O["args"] = json::Array(); return O; }
    if (auto *X = dyn_cast<CXXFunctionalCastExpr>(E)) {
      // T{...}/T(...) around a constructor: transparent
      const Expr *S = strip(X->getSubExpr());
      if (isa<CXXConstructExpr>(S) || isa<InitListExpr>(S)) return expr(S);
      setk("cast"); O["ck"] = X->getCastKindName(); O["e"] = expr(X->getSubExprAsWritten()); return O;
    }
    if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
      setk("cast"); O["ck"] = X->getCastKindName();
      if (isa<CXXDynamicCastExpr>(E)) O["dyn"] = true;
      if (isa<CXXConstCastExpr>(E)) O["constc"] = true;
      if (isa<CXXReinterpretCastExpr>(E)) O["rein"] = true;
      O["e"] = expr(X->getSubExprAsWritten()); return O;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      setk("un"); O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); O["post"] = X->isPostfix();
      O["e"] = expr(X->getSubExpr()); return O;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      setk(X->isAssignmentOp() ? "asg" : "bin"); O["op"] = X->getOpcodeStr().str();
      O["a"] = expr(X->getLHS()); O["b"] = expr(X->getRHS()); return O;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { setk("sub"); O["a"] = expr(X->getBase()); O["b"] = expr(X->getIdx()); return O; }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      setk("ilist"); json::Array A; for (auto *I : X->inits()) A.push_back(expr(I)); O["args"] = std::move(A); 
      return O; }
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { setk("zeroinit"); return O; }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      setk("new"); O["nt"] = ty(X->getAllocatedType()); O["array"] = X->isArray();
      if (X->isArray()) if (auto S = X->getArraySize()) O["size"] = expr(*S);
      if (X->getNumPlacementArgs()) O["placement"] = true;
      if (auto *I = X->getInitializer()) O["init"] = expr(I); return O;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { setk("delete"); O["array"] = X->isArrayForm(); O["e"] = expr(X->getArgument()); return O; }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      setk("sizeof"); O["at"] = ty(X->getTypeOfArgument());
      Expr::EvalResult R; if (!E->isValueDependent() && E->EvaluateAsInt(R, Ctx)) O["v"] = (int64_t)R.Val.getInt().getExtValue();
      return O; }
    if (auto *X = dyn_cast<OffsetOfExpr>(E)) {
      Expr::EvalResult R; if (!E->isValueDependent() && E->EvaluateAsInt(R, Ctx)) { setk("int"); O["v"] = std::to_string(R.Val.getInt().getExtValue()); return O; } }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { setk("throw"); O["e"] = expr(X->getSubExpr()); return O; }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      setk("lambda");
      json::Array Ps;
      for (auto *P : X->getCallOperator()->parameters()) Ps.push_back(param(P));
      O["params"] = std::move(Ps);
      json::Array Cs;
      for (auto &C : X->captures()) {
        json::Object CO; CO["ref"] = C.getCaptureKind() == LCK_ByRef;
        if (C.capturesVariable()) CO["id"] = declId(C.getCapturedVar());
        else if (C.capturesThis()) CO["this"] = true;
        Cs.push_back(std::move(CO));
      }
      O["caps"] = std::move(Cs);
      O["body"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) return X->getSourceExpr() ? expr(X->getSourceExpr()) : json::Value(nullptr);
    if (auto *X = dyn_cast<CXXDependentScopeMemberExpr>(E)) { setk("depmem"); O["n"] = X->getMember().getAsString(); 
      if (!X->isImplicitAccess()) O["b"] = expr(X->getBase()); return O; }
    if (auto *X = dyn_cast<UnresolvedLookupExpr>(E)) { setk("unres"); O["n"] = X->getName().getAsString(); return O; }
    if (auto *X = dyn_cast<UnresolvedMemberExpr>(E)) { setk("depmem"); O["n"] = X->getMemberName().getAsString(); if(!X->isImplicitAccess()) O["b"] = expr(X->getBase()); return O; }
    if (auto *X = dyn_cast<CXXUnresolvedConstructExpr>(E)) { setk("unresctor"); json::Array A; for (auto *I : X->arguments()) A.push_back(expr(I)); O["args"] = std::move(A); return O; }
    if (auto *X = dyn_cast<ParenListExpr>(E)) { setk("ilist"); json::Array A; for (unsigned i = 0; i < X->getNumExprs(); ++i) A.push_back(expr(X->getExpr(i))); O["args"] = std::move(A); return O; }
    if (isa<CXXTypeidExpr>(E)) { setk("typeid"); 
      auto *X = cast<CXXTypeidExpr>(E); if (X->isTypeOperand()) O["at"] = ty(X->getTypeOperand(Ctx)); else O["e"] = expr(X->getExprOperand());
      return O; }
    if (isa<RecoveryExpr>(E)) { setk("recovery"); json::Array A; for (auto *I : cast<RecoveryExpr>(E)->subExpressions()) A.push_back(expr(I)); O["args"] = std::move(A); return O; }
    // generic
    setk("other"); O["cn"] = E->getStmtClassName();
    json::Array A;
    for (const Stmt *S : E->children()) if (S) { if (auto *CE = dyn_cast<Expr>(S)) A.push_back(expr(CE)); else A.push_back(stmt(S)); }
    O["args"] = std::move(A);
    return O;
  }

  json::Value param(const ParmVarDecl *P) {
    json::Object O; O["n"] = P->getNameAsString(); O["id"] = declId(P); O["t"] = ty(P->getType());
    return O;
  }

  json::Value varDecl(const VarDecl *V) {
    json::Object O; O["n"] = V->getNameAsString(); O["id"] = declId(V); O["t"] = ty(V->getType());
    O["l"] = (int64_t)line(V->getLocation());
    if (V->isStaticLocal()) O["static"] = true;
    if (V->hasInit()) { O["init"] = expr(V->getInit()); O["list"] = V->getInitStyle() == VarDecl::ListInit; }
    return O;
  }

  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    json::Object O; O["l"] = (int64_t)line(S->getBeginLoc());
    auto setk = [&](const char *K) { O["k"] = K; };
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      setk("block"); json::Array A; for (auto *C : X->body()) A.push_back(stmt(C)); O["s"] = std::move(A);
      O["e"] = (int64_t)line(X->getEndLoc()); return O; }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      setk("decl"); json::Array A;
      for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(varDecl(V));
      O["vars"] = std::move(A); return O; }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      setk("if");
      if (X->getInit()) O["init"] = stmt(X->getInit());
      if (X->getConditionVariableDeclStmt()) O["cv"] = stmt(X->getConditionVariableDeclStmt());
      O["c"] = expr(X->getCond()); O["a"] = stmt(X->getThen());
      if (X->getElse()) O["b"] = stmt(X->getElse()); return O; }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      setk("for"); O["init"] = stmt(X->getInit()); O["c"] = X->getCond() ? expr(X->getCond()) : json::Value(nullptr);
      O["inc"] = X->getInc() ? expr(X->getInc()) : json::Value(nullptr); O["body"] = stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      setk("rfor"); O["var"] = varDecl(X->getLoopVariable()); O["range"] = X->getRangeInit() ? expr(X->getRangeInit()) : json::Value(nullptr);
      O["body"] = stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<WhileStmt>(S)) { setk("while"); O["c"] = expr(X->getCond()); O["body"] = stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<DoStmt>(S)) { setk("do"); O["c"] = expr(X->getCond()); O["body"] = stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<SwitchStmt>(S)) { setk("switch"); O["c"] = expr(X->getCond()); O["body"] = stmt(X->getBody()); 
      O["allenum"] = X->isAllEnumCasesCovered(); return O; }
    if (auto *X = dyn_cast<CaseStmt>(S)) { setk("case"); O["v"] = expr(X->getLHS()); O["s"] = stmt(X->getSubStmt()); return O; }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { setk("default"); O["s"] = stmt(X->getSubStmt()); return O; }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { setk("ret"); if (X->getRetValue()) O["e"] = expr(X->getRetValue()); return O; }
    if (isa<BreakStmt>(S)) { setk("break"); return O; }
    if (isa<ContinueStmt>(S)) { setk("continue"); return O; }
    if (isa<NullStmt>(S)) { setk("nop"); return O; }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      setk("try"); O["body"] = stmt(X->getTryBlock()); json::Array A;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
        auto *H = X->getHandler(i); json::Object HO;
        if (H->getExceptionDecl()) HO["var"] = varDecl(H->getExceptionDecl());
        HO["body"] = stmt(H->getHandlerBlock()); A.push_back(std::move(HO)); }
      O["h"] = std::move(A); return O; }
    if (auto *X = dyn_cast<Expr>(S)) { setk("expr"); O["x"] = expr(X); return O; }
    if (auto *X = dyn_cast<LabelStmt>(S)) { return stmt(X->getSubStmt()); }
    if (auto *X = dyn_cast<AttributedStmt>(S)) { return stmt(X->getSubStmt()); }
    setk("sother"); O["cn"] = S->getStmtClassName(); 
    json::Array A;
    for (const Stmt *C : S->children()) if (C) { if (auto *CE = dyn_cast<Expr>(C)) A.push_back(expr(CE)); else A.push_back(stmt(C)); }
    O["args"] = std::move(A);
    return O;
  }

  ASTContext &Ctx; SourceManager &SM; PrintingPolicy PP;
  std::map<std::string, int64_t> Types; std::vector<std::string> TypeList;
  llvm::DenseMap<const Decl*, int64_t> Ids;
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Visitor(ASTContext &C) : Ctx(C), Em(C) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() && !F->isDefaulted() && !F->isDeleted()) return true;
    if (isa<CXXMethodDecl>(F) && cast<CXXMethodDecl>(F)->getParent()->isLambda()) return true;
    std::string File; unsigned Line;
    if (!Em.inRepo(F->getLocation(), File, Line)) return true;
    if (!F->doesThisDeclarationHaveABody()) return true;
    std::string U = Em.usr(F);
    std::string Key = U + "@" + File;
    // internal-linkage functions in different files share a USR only if same file; fine
    std::string S; llvm::raw_string_ostream OS(S);
    json::Object O;
    O["fn"] = Em.fnRef(F);
    O["name"] = F->getNameAsString();
    O["file"] = File; O["line"] = (int64_t)Line;
    O["ret"] = Em.ty(F->getReturnType());
    if (F->isDependentContext()) O["dep"] = true;
    if (F->isTemplateInstantiation()) O["inst"] = true;
    if (F->getStorageClass() == SC_Static && !isa<CXXMethodDecl>(F)) O["internal"] = true;
    if (!F->isExternallyVisible()) O["internal"] = true;
    json::Array Ps; for (auto *P : F->parameters()) Ps.push_back(Em.param(P));
    O["params"] = std::move(Ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      json::Array Ov; for (auto *B : M->overridden_methods()) Ov.push_back(Em.usr(B));
      O["over"] = std::move(Ov);
    }
    if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
      json::Array In;
      for (auto *I : C->inits()) {
        json::Object IO;
        if (I->isAnyMemberInitializer()) { IO["field"] = I->getAnyMember()->getNameAsString(); }
        else if (I->isBaseInitializer()) IO["base"] = Em.ty(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) IO["deleg"] = true;
        IO["written"] = I->isWritten();
        IO["l"] = (int64_t)Em.line(I->getSourceLocation());
        IO["e"] = Em.expr(I->getInit());
        In.push_back(std::move(IO));
      }
      O["inits"] = std::move(In);
    }
    if (isa<CXXDestructorDecl>(F)) O["dtor"] = true;
    O["body"] = Em.stmt(F->getBody());
    O["endline"] = (int64_t)Em.line(F->getBodyRBrace());
    Fns.push_back(std::move(O));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isLambda() || R->isDependentContext()) return true;
    std::string File; unsigned Line;
    if (!Em.inRepo(R->getLocation(), File, Line)) return true;
    json::Object O; O["q"] = Em.qual(R); O["file"] = File; O["line"] = (int64_t)Line;
    O["final"] = R->hasAttr<FinalAttr>();
    O["abstract"] = R->isAbstract(); O["poly"] = R->isPolymorphic();
    if (R->hasDefinition()) if (auto *D = R->getDestructor()) O["vdtor"] = D->isVirtual();
    json::Array B; for (auto &X : R->bases()) B.push_back(Em.typeStr(X.getType())); O["bases"] = std::move(B);
    json::Array F;
    for (auto *X : R->fields()) { json::Object FO; FO["n"] = X->getNameAsString(); FO["t"] = Em.typeStr(X->getType());
      FO["l"] = (int64_t)Em.line(X->getLocation()); if (X->hasInClassInitializer()) FO["init"] = Em.expr(X->getInClassInitializer());
      FO["pod"] = X->getType()->isScalarType() || X->getType()->isEnumeralType();
      if (!R->isInvalidDecl() && !X->getParent()->isDependentType()) FO["off"] = (int64_t)(Ctx.getFieldOffset(X) / 8);
      F.push_back(std::move(FO)); }
    O["fields"] = std::move(F);
    json::Array M;
    for (auto *X : R->methods()) {
      json::Object MO; MO["n"] = X->getNameAsString(); MO["u"] = Em.usr(X); MO["virt"] = X->isVirtual(); MO["pure"] = X->isPureVirtual();
      MO["const"] = X->isConst(); MO["static"] = X->isStatic(); MO["implicit"] = X->isImplicit(); MO["defaulted"] = X->isDefaulted(); MO["deleted"] = X->isDeleted();
      MO["t"] = Em.typeStr(X->getType()); MO["l"] = (int64_t)Em.line(X->getLocation());
      MO["access"] = (int64_t)X->getAccess();
      if (auto *C = dyn_cast<CXXConstructorDecl>(X)) { MO["ctor"] = C->isCopyConstructor() ? "copy" : C->isMoveConstructor() ? "move" : C->isDefaultConstructor() ? "default" : "other"; }
      if (X->isCopyAssignmentOperator()) MO["assign"] = "copy";
      if (X->isMoveAssignmentOperator()) MO["assign"] = "move";
      if (isa<CXXDestructorDecl>(X)) MO["dtor"] = true;
      json::Array Ov; for (auto *Bm : X->overridden_methods()) Ov.push_back(Em.usr(Bm)); MO["over"] = std::move(Ov);
      M.push_back(std::move(MO));
    }
    O["methods"] = std::move(M);
    Recs.push_back(std::move(O));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    std::string File; unsigned Line;
    if (!E->isThisDeclarationADefinition() || !Em.inRepo(E->getLocation(), File, Line)) return true;
    json::Object O; O["q"] = Em.qual(E); O["file"] = File; O["line"] = (int64_t)Line;
    json::Array A; for (auto *C : E->enumerators()) A.push_back(C->getNameAsString()); O["vals"] = std::move(A);
    Enums.push_back(std::move(O)); return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || isa<ParmVarDecl>(V)) return true;
    std::string File; unsigned Line;
    if (!Em.inRepo(V->getLocation(), File, Line)) return true;
    json::Object O; O["q"] = Em.qual(V); O["u"] = Em.usr(V); O["file"] = File; O["line"] = (int64_t)Line; O["t"] = Em.typeStr(V->getType());
    O["const"] = V->getType().isConstQualified(); O["local"] = V->isStaticLocal(); O["id"] = Em.declId(V);
    if (V->hasInit()) O["init"] = Em.expr(V->getInit());
    Globals.push_back(std::move(O)); return true;
  }
  ASTContext &Ctx; Emitter Em;
  json::Array Fns, Recs, Enums, Globals;
};

class Consumer : public ASTConsumer {
public:
  Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &Ctx) override {
    Visitor V(Ctx);
    V.TraverseDecl(Ctx.getTranslationUnitDecl());
    json::Object O;
    O["fns"] = std::move(V.Fns); O["recs"] = std::move(V.Recs); O["enums"] = std::move(V.Enums); O["globals"] = std::move(V.Globals);
    json::Array T; for (auto &S : V.Em.TypeList) T.push_back(S); O["types"] = std::move(T);
    O["errors"] = (int64_t)CI.getDiagnostics().getClient()->getNumErrors();
    std::error_code EC; llvm::raw_fd_ostream OS(g_out, EC);
    OS << json::Value(std::move(O));
  }
  CompilerInstance &CI;
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(CI); }
};
} // namespace

// usage: extract ROOT OUT.json SRC -- flags...
int main(int argc, const char **argv) {
  if (argc < 5) return 3;
  g_root = argv[1]; if (g_root.empty() || g_root.back() != '/') g_root += '/';
  g_out = argv[2]; std::string Src = argv[3];
  std::vector<std::string> Flags(argv + 5, argv + argc);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {Src});
  Tool.appendArgumentsAdjuster(tooling::getInsertArgumentAdjuster({"-ferror-limit=0", "-w", "-resource-dir=/usr/lib/llvm-18/lib/clang/18"}, tooling::ArgumentInsertPosition::END));
  Tool.run(tooling::newFrontendActionFactory<Action>().get());
  return 0;
}
