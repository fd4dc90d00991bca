// factdump: writes the type-resolved program (every function defined under a root
// directory, instantiated templates included) as JSON for the Python rules.
//
//   factdump --root /repo/include --out facts.json TU.cpp -- <clang args>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprConcepts.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Sema/Sema.h"
#include "clang/Sema/SemaConsumer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
using llvm::json::OStream;

static std::vector<std::string> Roots;
static std::string OutPath;
static std::vector<std::string> SkipNs;

namespace {

class Dumper {
public:
  Dumper(ASTContext& C, OStream& J)
      : Ctx(C), SM(C.getSourceManager()), J(J), PP(C.getLangOpts())
  {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.SuppressInlineNamespace = PrintingPolicy(C.getLangOpts()).SuppressInlineNamespace;
    PP.PrintCanonicalTypes = true;
    PP.Bool = true;
    PP.SuppressUnwrittenScope = true;
  }

  std::string type(QualType T)
  {
    if (T.isNull())
      return "";
    return T.getCanonicalType().getAsString(PP);
  }

  unsigned id(const Decl* D)
  {
    if (!D)
      return 0;
    D = D->getCanonicalDecl();
    auto it = Ids.find(D);
    if (it != Ids.end())
      return it->second;
    unsigned n = Ids.size() + 1;
    Ids[D] = n;
    return n;
  }

  std::string qn(const NamedDecl* D)
  {
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy P = PP;
    D->printNestedNameSpecifier(os, P);
    os << D->getDeclName();
    return os.str();
  }

  std::string fileOf(SourceLocation L)
  {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    return P.isValid() ? P.getFilename() : "";
  }
  int lineOf(SourceLocation L)
  {
    L = SM.getExpansionLoc(L);
    return SM.getPresumedLineNumber(L);
  }

  bool inRoot(SourceLocation L)
  {
    if (L.isInvalid())
      return false;
    std::string f = fileOf(L);
    for (auto& r : Roots)
      if (llvm::StringRef(f).starts_with(r))
        return true;
    return false;
  }

  void tmplArgs(const TemplateArgumentList* TAL)
  {
    if (!TAL)
      return;
    J.attributeArray("targs", [&] {
      for (auto& A : TAL->asArray()) {
        targ(A);
      }
    });
  }
  void targ(const TemplateArgument& A)
  {
    if (A.getKind() == TemplateArgument::Pack) {
      for (auto& B : A.pack_elements())
        targ(B);
      return;
    }
    std::string s;
    llvm::raw_string_ostream os(s);
    if (A.getKind() == TemplateArgument::Type)
      os << type(A.getAsType());
    else
      A.print(PP, os, true);
    J.value(os.str());
  }

  void declRef(const ValueDecl* D)
  {
    J.attribute("id", id(D));
    J.attribute("n", D->getNameAsString());
    const char* dk = D->getDeclKindName();
    J.attribute("dk", dk);
    if (isa<FunctionDecl>(D) || isa<FieldDecl>(D) || isa<EnumConstantDecl>(D)
        || (isa<VarDecl>(D) && !cast<VarDecl>(D)->isLocalVarDecl()))
      J.attribute("qn", qn(D));
    if (auto* V = dyn_cast<VarDecl>(D)) {
      if (V->hasGlobalStorage())
        J.attribute("glob", true);
    }
    if (auto* F = dyn_cast<FunctionDecl>(D)) {
      if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
        J.attribute("rec", type(Ctx.getRecordType(M->getParent())));
        if (M->isConst())
          J.attribute("cst", true);
        if (M->isStatic())
          J.attribute("stat", true);
      }
      tmplArgs(F->getTemplateSpecializationArgs());
      if (auto* FPT = F->getType()->getAs<FunctionProtoType>())
        if (FPT->isNothrow())
          J.attribute("nothrow", true);
      if (inRoot(F->getLocation()))
        J.attribute("own", true);
    }
    if (auto* O = dyn_cast<TemplateParamObjectDecl>(D))
      chars(O->getValue());
  }

  // a template parameter object that is nothing but an array of characters
  void chars(const APValue& V)
  {
    const APValue* P = &V;
    while (P->isStruct() && P->getStructNumFields() == 1 && P->getStructNumBases() == 0)
      P = &P->getStructField(0);
    std::string s;
    if (!P->isArray() && !(P->isStruct() && P->getStructNumFields() == 0 && P->getStructNumBases() == 0))
      return;
    for (unsigned i = 0; P->isArray() && i < P->getArraySize(); ++i) {
      const APValue& C = i < P->getArrayInitializedElts() ? P->getArrayInitializedElt(i) : P->getArrayFiller();
      if (!C.isInt())
        return;
      s += static_cast<char>(C.getInt().getExtValue());
    }
    J.attribute("tpo", s);
  }

  void constVal(const Expr* E)
  {
    if (E->isValueDependent() || E->isTypeDependent())
      return;
    if (E->getType().isNull())
      return;
    if (!E->getType()->isIntegralOrEnumerationType())
      return;
    Expr::EvalResult R;
    if (E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) {
      llvm::SmallString<32> S;
      R.Val.getInt().toString(S, 10);
      J.attribute("cv", std::string(S.str()));
    }
  }

  void children(const Stmt* S)
  {
    J.attributeArray("c", [&] {
      for (const Stmt* K : S->children())
        node(K);
    });
  }

  void list(const char* name, llvm::ArrayRef<const Stmt*> L)
  {
    J.attributeArray(name, [&] {
      for (auto* s : L)
        node(s);
    });
  }

  void child(const char* name, const Stmt* S)
  {
    if (!S)
      return;
    J.attributeBegin(name);
    node(S);
    J.attributeEnd();
  }

  void loc(const Stmt* S)
  {
    auto L = S->getBeginLoc();
    if (auto* B = dyn_cast<BinaryOperator>(S))
      L = B->getOperatorLoc();
    if (auto* M = dyn_cast<CXXMemberCallExpr>(S))
      L = M->getExprLoc();
    J.attribute("l", lineOf(L));
  }

  void varDecl(const VarDecl* V)
  {
    J.attribute("id", id(V));
    J.attribute("n", V->getNameAsString());
    J.attribute("t", type(V->getType()));
    J.attribute("l", lineOf(V->getLocation()));
    if (V->isStaticLocal())
      J.attribute("static", true);
    if (V->isConstexpr())
      J.attribute("constexpr", true);
    if (auto* D = dyn_cast<DecompositionDecl>(V)) {
      J.attributeArray("binds", [&] {
        for (auto* B : D->bindings())
          J.object([&] {
            J.attribute("id", id(B));
            J.attribute("n", B->getNameAsString());
            if (B->getBinding())
              child("e", B->getBinding());
          });
      });
    }
    if (V->getInit())
      child("init", V->getInit());
    if (V->hasGlobalStorage() && V->getInit() && !V->getInit()->isValueDependent())
      if (auto* AV = const_cast<VarDecl*>(V)->getEvaluatedValue())
        apvalue(*AV, V->getType());
  }

  void apvalue(const APValue& A, QualType T)
  {
    if (A.isArray() || A.isStruct() || A.isInt()) {
      J.attributeBegin("val");
      apv(A, T);
      J.attributeEnd();
    }
  }
  void apv(const APValue& A, QualType T)
  {
    if (A.isInt()) {
      llvm::SmallString<32> S;
      A.getInt().toString(S, 10);
      J.value(std::string(S.str()));
    } else if (A.isArray()) {
      J.array([&] {
        for (unsigned i = 0; i < A.getArraySize(); ++i)
          apv(i < A.getArrayInitializedElts() ? A.getArrayInitializedElt(i)
                                              : A.getArrayFiller(),
              T);
      });
    } else if (A.isStruct()) {
      J.array([&] {
        for (unsigned i = 0; i < A.getStructNumBases(); ++i)
          apv(A.getStructBase(i), T);
        for (unsigned i = 0; i < A.getStructNumFields(); ++i)
          apv(A.getStructField(i), T);
      });
    } else {
      std::string s;
      llvm::raw_string_ostream os(s);
      A.printPretty(os, PP, T, &Ctx);
      J.value(os.str());
    }
  }

  void node(const Stmt* S)
  {
    if (!S) {
      J.value(nullptr);
      return;
    }
    // transparent wrappers
    if (auto* E = dyn_cast<ExprWithCleanups>(S)) return node(E->getSubExpr());
    if (auto* E = dyn_cast<CXXBindTemporaryExpr>(S)) return node(E->getSubExpr());
    if (auto* E = dyn_cast<ParenExpr>(S)) return node(E->getSubExpr());
    if (auto* E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) return node(E->getReplacement());
    if (auto* E = dyn_cast<ConstantExpr>(S)) return node(E->getSubExpr());
    if (auto* E = dyn_cast<CXXDefaultInitExpr>(S)) return node(E->getExpr());
    if (auto* E = dyn_cast<AttributedStmt>(S)) return node(E->getSubStmt());
    if (auto* E = dyn_cast<CoroutineBodyStmt>(S)) return node(E->getBody());
    if (auto* E = dyn_cast<CXXRewrittenBinaryOperator>(S)) return node(E->getSemanticForm());
    if (auto* E = dyn_cast<CXXStdInitializerListExpr>(S)) return node(E->getSubExpr());

    J.objectBegin();
    J.attribute("k", S->getStmtClassName());
    loc(S);
    if (auto* E = dyn_cast<Expr>(S)) {
      J.attribute("t", type(E->getType()));
      if (E->isLValue()) J.attribute("lv", 1);
      else if (E->isXValue()) J.attribute("lv", 2);
      if (!isa<CastExpr>(E) || isa<ImplicitCastExpr>(E) || isa<ExplicitCastExpr>(E))
        constVal(E);
    }
    body(S);
    J.objectEnd();
  }

  void callee(const CallExpr* E)
  {
    if (auto* D = E->getCalleeDecl())
      if (auto* V = dyn_cast<ValueDecl>(D)) {
        J.attributeObject("fn", [&] { declRef(V); });
      }
  }

  void body(const Stmt* S)
  {
    if (auto* E = dyn_cast<MaterializeTemporaryExpr>(S)) {
      child("e", E->getSubExpr());
      if (E->getExtendingDecl())
        J.attribute("ext", true);
      return;
    }
    if (auto* E = dyn_cast<DeclRefExpr>(S)) {
      declRef(E->getDecl());
      if (E->refersToEnclosingVariableOrCapture())
        J.attribute("cap", true);
      return;
    }
    if (auto* E = dyn_cast<MemberExpr>(S)) {
      declRef(E->getMemberDecl());
      if (E->isArrow()) J.attribute("arrow", true);
      child("e", E->getBase());
      return;
    }
    if (auto* E = dyn_cast<CXXOperatorCallExpr>(S)) {
      J.attribute("op", getOperatorSpelling(E->getOperator()));
      callee(E);
      list("args", std::vector<const Stmt*>(E->arg_begin(), E->arg_end()));
      return;
    }
    if (auto* E = dyn_cast<CXXMemberCallExpr>(S)) {
      callee(E);
      child("obj", E->getImplicitObjectArgument());
      if (!E->getMethodDecl()) child("callee", E->getCallee());
      if (auto* ME = dyn_cast<MemberExpr>(E->getCallee()->IgnoreParens()))
        if (ME->isArrow()) J.attribute("arrow", true);
      list("args", std::vector<const Stmt*>(E->arg_begin(), E->arg_end()));
      return;
    }
    if (auto* E = dyn_cast<CallExpr>(S)) {
      callee(E);
      if (!E->getDirectCallee()) child("callee", E->getCallee());
      list("args", std::vector<const Stmt*>(E->arg_begin(), E->arg_end()));
      return;
    }
    if (auto* E = dyn_cast<CXXConstructExpr>(S)) {
      auto* D = E->getConstructor();
      J.attributeObject("fn", [&] { declRef(D); });
      J.attribute("cls", type(Ctx.getRecordType(D->getParent())));
      if (D->isCopyConstructor()) J.attribute("ctor", "copy");
      else if (D->isMoveConstructor()) J.attribute("ctor", "move");
      else if (D->isDefaultConstructor()) J.attribute("ctor", "default");
      if (E->isListInitialization()) J.attribute("listinit", true);
      if (E->isStdInitListInitialization()) J.attribute("ilist", true);
      if (E->isElidable()) J.attribute("elide", true);
      list("args", std::vector<const Stmt*>(E->arg_begin(), E->arg_end()));
      return;
    }
    if (auto* E = dyn_cast<CXXDefaultArgExpr>(S)) {
      J.attribute("param", id(E->getParam()));
      child("e", E->getExpr());
      return;
    }
    if (auto* E = dyn_cast<CastExpr>(S)) {
      J.attribute("ck", E->getCastKindName());
      if (auto* X = dyn_cast<CXXNamedCastExpr>(E)) J.attribute("cast", X->getCastName());
      child("e", E->getSubExpr());
      return;
    }
    if (auto* E = dyn_cast<IntegerLiteral>(S)) {
      (void)E;
      return;
    }
    if (auto* E = dyn_cast<StringLiteral>(S)) {
      if (E->getCharByteWidth() == 1) {
        std::string s;
        bool ascii = true;
        for (char c : E->getBytes())
          if ((unsigned char)c >= 0x80) ascii = false;
        if (ascii) J.attribute("s", E->getBytes());
      }
      return;
    }
    if (auto* E = dyn_cast<UnaryOperator>(S)) {
      J.attribute("op", UnaryOperator::getOpcodeStr(E->getOpcode()));
      if (E->isPostfix()) J.attribute("post", true);
      child("e", E->getSubExpr());
      return;
    }
    if (auto* E = dyn_cast<BinaryOperator>(S)) {
      J.attribute("op", E->getOpcodeStr());
      if (auto* CA = dyn_cast<CompoundAssignOperator>(E))
        J.attribute("ct", type(CA->getComputationResultType()));
      child("a", E->getLHS());
      child("b", E->getRHS());
      return;
    }
    if (auto* E = dyn_cast<ConditionalOperator>(S)) {
      child("cond", E->getCond());
      child("a", E->getTrueExpr());
      child("b", E->getFalseExpr());
      return;
    }
    if (auto* E = dyn_cast<ArraySubscriptExpr>(S)) {
      child("a", E->getBase());
      child("b", E->getIdx());
      return;
    }
    if (auto* E = dyn_cast<LambdaExpr>(S)) {
      auto* CO = E->getCallOperator();
      J.attribute("call", id(CO));
      J.attribute("cls", type(E->getType()));
      if (E->isGenericLambda()) J.attribute("generic", true);
      J.attributeArray("caps", [&] {
        auto it = E->capture_init_begin();
        for (auto& Cp : E->captures()) {
          J.object([&] {
            if (Cp.capturesThis()) {
              J.attribute("kind", Cp.getCaptureKind() == LCK_StarThis ? "*this" : "this");
            } else if (Cp.capturesVariable()) {
              J.attribute("kind", Cp.getCaptureKind() == LCK_ByRef ? "ref" : "copy");
              J.attribute("id", id(Cp.getCapturedVar()));
              J.attribute("n", Cp.getCapturedVar()->getNameAsString());
              if (auto* V = dyn_cast<VarDecl>(Cp.getCapturedVar())) {
                J.attribute("t", type(V->getType()));
                if (V->isInitCapture()) J.attribute("initcap", true);
              }
            }
            if (*it) child("init", *it);
          });
          ++it;
        }
      });
      if (E->isGenericLambda()) {
        if (auto* FT = CO->getDescribedFunctionTemplate()) {
          J.attributeArray("inst", [&] {
            for (auto* Sp : FT->specializations()) J.value(id(Sp));
          });
          for (auto* Sp : FT->specializations())
            function(Sp, true);
        }
      } else
        function(CO, true);
      return;
    }
    if (auto* E = dyn_cast<InitListExpr>(S)) {
      const InitListExpr* I = E->isSemanticForm() ? E : E->getSemanticForm();
      if (!I) I = E;
      list("args", std::vector<const Stmt*>(I->begin(), I->end()));
      return;
    }
    if (auto* E = dyn_cast<CXXParenListInitExpr>(S)) {
      std::vector<const Stmt*> v;
      for (auto* x : const_cast<CXXParenListInitExpr*>(E)->getInitExprs()) v.push_back(x);
      list("args", v);
      return;
    }
    if (auto* E = dyn_cast<CoroutineSuspendExpr>(S)) {
      const Expr* Op = nullptr;
      if (auto* A = dyn_cast<CoawaitExpr>(E)) {
        Op = A->getOperand();
        if (A->isImplicit()) J.attribute("impl", true);
      } else if (auto* Y = dyn_cast<CoyieldExpr>(E))
        Op = Y->getOperand();
      child("e", Op);
      return;
    }
    if (auto* E = dyn_cast<CXXThrowExpr>(S)) {
      child("e", E->getSubExpr());
      return;
    }
    if (auto* E = dyn_cast<CXXNewExpr>(S)) {
      J.attribute("at", type(E->getAllocatedType()));
      if (E->isArray()) child("size", E->getArraySize().value_or(nullptr));
      std::vector<const Stmt*> v;
      for (unsigned i = 0; i < E->getNumPlacementArgs(); ++i) v.push_back(E->getPlacementArg(i));
      list("place", v);
      child("init", E->getInitializer());
      return;
    }
    if (auto* E = dyn_cast<CXXTypeidExpr>(S)) {
      if (E->isTypeOperand())
        J.attribute("ty", type(E->getTypeOperand(Ctx)));
    }
    if (auto* E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      (void)E;
      return;
    }
    if (auto* E = dyn_cast<OpaqueValueExpr>(S)) {
      child("e", E->getSourceExpr());
      return;
    }
    // ---- statements
    if (auto* E = dyn_cast<DeclStmt>(S)) {
      J.attributeArray("vars", [&] {
        for (auto* D : E->decls())
          if (auto* V = dyn_cast<VarDecl>(D))
            J.object([&] { varDecl(V); });
      });
      return;
    }
    if (auto* E = dyn_cast<IfStmt>(S)) {
      child("init", E->getInit());
      if (E->getConditionVariable())
        J.attributeObject("var", [&] { varDecl(E->getConditionVariable()); });
      child("cond", E->getCond());
      if (E->isConstexpr()) {
        J.attribute("constexpr", true);
        bool v = false;
        if (!E->getCond()->isValueDependent()
            && E->getCond()->EvaluateAsBooleanCondition(v, Ctx))
          J.attribute("cx", v);
      }
      if (E->isConsteval()) J.attribute("consteval", true);
      child("then", E->getThen());
      child("else", E->getElse());
      return;
    }
    if (auto* E = dyn_cast<SwitchStmt>(S)) {
      child("init", E->getInit());
      if (E->getConditionVariable())
        J.attributeObject("var", [&] { varDecl(E->getConditionVariable()); });
      child("cond", E->getCond());
      child("body", E->getBody());
      if (E->isAllEnumCasesCovered()) J.attribute("covered", true);
      return;
    }
    if (auto* E = dyn_cast<CaseStmt>(S)) {
      child("lhs", E->getLHS());
      child("rhs", E->getRHS());
      child("sub", E->getSubStmt());
      return;
    }
    if (auto* E = dyn_cast<DefaultStmt>(S)) {
      child("sub", E->getSubStmt());
      return;
    }
    if (auto* E = dyn_cast<WhileStmt>(S)) {
      if (E->getConditionVariable())
        J.attributeObject("var", [&] { varDecl(E->getConditionVariable()); });
      child("cond", E->getCond());
      child("body", E->getBody());
      return;
    }
    if (auto* E = dyn_cast<DoStmt>(S)) {
      child("body", E->getBody());
      child("cond", E->getCond());
      return;
    }
    if (auto* E = dyn_cast<ForStmt>(S)) {
      child("init", E->getInit());
      if (E->getConditionVariable())
        J.attributeObject("var", [&] { varDecl(E->getConditionVariable()); });
      child("cond", E->getCond());
      child("inc", E->getInc());
      child("body", E->getBody());
      return;
    }
    if (auto* E = dyn_cast<CXXForRangeStmt>(S)) {
      child("init", E->getInit());
      child("range", E->getRangeInit());
      if (E->getLoopVariable())
        J.attributeObject("var", [&] { varDecl(E->getLoopVariable()); });
      child("body", E->getBody());
      return;
    }
    if (auto* E = dyn_cast<ReturnStmt>(S)) {
      child("e", E->getRetValue());
      return;
    }
    if (auto* E = dyn_cast<CoreturnStmt>(S)) {
      child("e", E->getOperand());
      return;
    }
    if (auto* E = dyn_cast<CXXTryStmt>(S)) {
      child("body", E->getTryBlock());
      J.attributeArray("catch", [&] {
        for (unsigned i = 0; i < E->getNumHandlers(); ++i)
          J.object([&] {
            auto* H = E->getHandler(i);
            J.attribute("k", "Catch");
            J.attribute("l", lineOf(H->getCatchLoc()));
            if (H->getExceptionDecl()) {
              J.attribute("t", type(H->getCaughtType()));
              J.attributeObject("var", [&] { varDecl(H->getExceptionDecl()); });
            } else
              J.attribute("all", true);
            child("body", H->getHandlerBlock());
          });
      });
      return;
    }
    if (auto* E = dyn_cast<RequiresExpr>(S)) {
      (void)E;
      return;
    }
    children(S);
  }

  void function(const FunctionDecl* F, bool nested = false)
  {
    const FunctionDecl* Def = nullptr;
    bool has = F->isDefined(Def) && Def->hasBody();
    if (!has)
      Def = F;
    if (Def->isDependentContext())
      return;
    if (!Done.insert(Def->getCanonicalDecl()).second)
      return;
    Pending.push_back(Def);
    (void)nested;
  }

  void flush()
  {
    while (!Pending.empty()) {
      auto* F = Pending.back();
      Pending.pop_back();
      emitFunction(F);
    }
  }

  void emitFunction(const FunctionDecl* F)
  {
    J.object([&] {
      J.attribute("rk", "fn");
      J.attribute("id", id(F));
      J.attribute("n", F->getNameAsString());
      J.attribute("qn", qn(F));
      std::string full;
      {
        llvm::raw_string_ostream os(full);
        F->getNameForDiagnostic(os, PP, true);
      }
      J.attribute("full", full);
      J.attribute("file", fileOf(F->getLocation()));
      J.attribute("l", lineOf(F->getLocation()));
      J.attribute("el", lineOf(F->getEndLoc()));
      J.attribute("ret", type(F->getReturnType()));
      tmplArgs(F->getTemplateSpecializationArgs());
      if (F->isDeleted()) J.attribute("deleted", true);
      if (F->isDefaulted()) J.attribute("defaulted", true);
      if (F->isConstexpr()) J.attribute("constexpr", true);
      if (F->getBody() && isa<CoroutineBodyStmt>(F->getBody()))
        J.attribute("coro", true);
      if (auto* FPT = F->getType()->getAs<FunctionProtoType>())
        if (!isUnresolvedExceptionSpec(FPT->getExceptionSpecType()) && FPT->isNothrow())
          J.attribute("nothrow", true);
      J.attribute("access", F->getAccess() == AS_public ? "public" : F->getAccess() == AS_private ? "private" : F->getAccess() == AS_protected ? "protected" : "none");
      if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
        J.attribute("rec", type(Ctx.getRecordType(M->getParent())));
        J.attribute("recqn", qn(M->getParent()));
        if (M->isConst()) J.attribute("cst", true);
        if (M->isStatic()) J.attribute("stat", true);
        if (M->isVirtual()) J.attribute("virt", true);
        if (M->getRefQualifier() == RQ_LValue) J.attribute("refq", "&");
        if (M->getRefQualifier() == RQ_RValue) J.attribute("refq", "&&");
        if (M->getParent()->isLambda()) J.attribute("lambda", true);
        J.attributeArray("over", [&] {
          for (auto* O : M->overridden_methods()) J.value(id(O));
        });
      }
      if (auto* D = dyn_cast<CXXConstructorDecl>(F)) {
        J.attribute("kind", "ctor");
        if (D->isCopyConstructor()) J.attribute("ctor", "copy");
        else if (D->isMoveConstructor()) J.attribute("ctor", "move");
        else if (D->isDefaultConstructor()) J.attribute("ctor", "default");
        if (D->isExplicit()) J.attribute("explicit", true);
        J.attributeArray("inits", [&] {
          for (auto* I : D->inits())
            J.object([&] {
              if (I->isAnyMemberInitializer()) {
                J.attribute("field", I->getAnyMember()->getNameAsString());
                J.attribute("id", id(I->getAnyMember()));
              } else if (I->isBaseInitializer())
                J.attribute("base", type(QualType(I->getBaseClass(), 0)));
              else
                J.attribute("deleg", true);
              if (I->isWritten()) J.attribute("written", true);
              J.attribute("l", lineOf(I->getSourceLocation()));
              child("e", I->getInit());
            });
        });
      } else if (isa<CXXDestructorDecl>(F))
        J.attribute("kind", "dtor");
      else if (isa<CXXConversionDecl>(F))
        J.attribute("kind", "conv");
      J.attributeArray("params", [&] {
        for (auto* P : F->parameters())
          J.object([&] {
            J.attribute("id", id(P));
            J.attribute("n", P->getNameAsString());
            J.attribute("t", type(P->getType()));
          });
      });
      if (auto* MD = dyn_cast<CXXMethodDecl>(F))
        if (auto* A = dyn_cast<CXXMethodDecl>(F)) {
          if (A->isCopyAssignmentOperator()) J.attribute("assign", "copy");
          if (A->isMoveAssignmentOperator()) J.attribute("assign", "move");
          (void)MD;
        }
      if (F->getBody() && !F->isDefaulted())
        child("body", F->getBody());
      else if (F->getBody())
        child("body", F->getBody());
    });
  }

  void record(const CXXRecordDecl* R)
  {
    if (!R->isCompleteDefinition() || R->isDependentContext())
      return;
    J.object([&] {
      J.attribute("rk", "rec");
      J.attribute("id", id(R));
      J.attribute("qn", qn(R));
      J.attribute("t", type(Ctx.getRecordType(R)));
      J.attribute("file", fileOf(R->getLocation()));
      J.attribute("l", lineOf(R->getLocation()));
      if (R->isUnion()) J.attribute("union", true);
      if (auto* Sp = dyn_cast<ClassTemplateSpecializationDecl>(R))
        tmplArgs(&Sp->getTemplateArgs());
      J.attributeArray("fields", [&] {
        for (auto* F : R->fields())
          J.object([&] {
            J.attribute("id", id(F));
            J.attribute("n", F->getNameAsString());
            J.attribute("t", type(F->getType()));
            if (F->hasInClassInitializer() && F->getInClassInitializer())
              child("init", F->getInClassInitializer());
          });
      });
      J.attributeArray("bases", [&] {
        for (auto& B : R->bases())
          J.value(type(B.getType()));
      });
      J.attribute("copyable", !R->defaultedCopyConstructorIsDeleted() || R->hasUserDeclaredCopyConstructor());
      J.attributeArray("special", [&] {
        for (auto* M : R->methods()) {
          const char* k = nullptr;
          if (auto* C = dyn_cast<CXXConstructorDecl>(M)) {
            if (C->isCopyConstructor()) k = "copy_ctor";
            else if (C->isMoveConstructor()) k = "move_ctor";
          } else if (isa<CXXDestructorDecl>(M))
            k = "dtor";
          else if (M->isCopyAssignmentOperator()) k = "copy_assign";
          else if (M->isMoveAssignmentOperator()) k = "move_assign";
          if (k)
            J.object([&] {
              J.attribute("k", k);
              J.attribute("deleted", M->isDeleted());
              J.attribute("defaulted", M->isDefaulted());
              J.attribute("user", M->isUserProvided());
              J.attribute("implicit", M->isImplicit());
              J.attribute("id", id(M));
              J.attribute("l", lineOf(M->getLocation()));
            });
        }
      });
    });
  }

  void enumeration(const EnumDecl* E)
  {
    J.object([&] {
      J.attribute("rk", "enum");
      J.attribute("qn", qn(E));
      J.attribute("file", fileOf(E->getLocation()));
      J.attribute("l", lineOf(E->getLocation()));
      J.attributeArray("vals", [&] {
        for (auto* C : E->enumerators())
          J.array([&] {
            J.value(C->getNameAsString());
            llvm::SmallString<32> S;
            C->getInitVal().toString(S, 10);
            J.value(std::string(S.str()));
            J.value(id(C));
          });
      });
    });
  }

  void globalVar(const VarDecl* V)
  {
    J.object([&] {
      J.attribute("rk", "var");
      J.attribute("qn", qn(V));
      J.attribute("file", fileOf(V->getLocation()));
      varDecl(V);
    });
  }

  void staticAssert(const StaticAssertDecl* D)
  {
    J.object([&] {
      J.attribute("rk", "sa");
      J.attribute("file", fileOf(D->getLocation()));
      J.attribute("l", lineOf(D->getLocation()));
      child("e", D->getAssertExpr());
    });
  }

  ASTContext& Ctx;
  SourceManager& SM;
  OStream& J;
  PrintingPolicy PP;
  std::map<const Decl*, unsigned> Ids;
  std::set<const Decl*> Done;
  std::vector<const FunctionDecl*> Pending;
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Visitor(Dumper& D) : D(D) { }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool TraverseDecl(Decl* X)
  {
    // skip namespaces that cannot contain anything of ours
    if (auto* N = dyn_cast_or_null<NamespaceDecl>(X))
      for (auto& s : SkipNs)
        if (N->getName() == s && N->getParent()->isTranslationUnit())
          if (!D.inRoot(N->getLocation()))
            return true;
    return RecursiveASTVisitor::TraverseDecl(X);
  }
  bool VisitFunctionDecl(FunctionDecl* F)
  {
    if (F->isDependentContext() || !D.inRoot(F->getLocation()))
      return true;
    if (F->isThisDeclarationADefinition() || F->isDeleted() || F->isDefaulted()) {
      D.function(F);
      D.flush();
    }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* R)
  {
    if (D.inRoot(R->getLocation()) && R->isThisDeclarationADefinition())
      D.record(R);
    return true;
  }
  bool VisitClassTemplateSpecializationDecl(ClassTemplateSpecializationDecl*) { return true; }
  // our partial specialisations of a template that lives elsewhere (fmt::formatter)
  bool VisitClassTemplatePartialSpecializationDecl(ClassTemplatePartialSpecializationDecl* P)
  {
    if (!D.inRoot(P->getLocation()) || D.inRoot(P->getSpecializedTemplate()->getCanonicalDecl()->getLocation()))
      return true;
    for (auto* S : P->getSpecializedTemplate()->specializations())
      if (D.inRoot(S->getLocation()) && S->getSpecializationKind() == TSK_ImplicitInstantiation)
        TraverseDecl(S);
    return true;
  }
  bool VisitEnumDecl(EnumDecl* E)
  {
    if (D.inRoot(E->getLocation()) && E->isCompleteDefinition() && !E->isDependentContext())
      D.enumeration(E);
    return true;
  }
  bool VisitVarDecl(VarDecl* V)
  {
    if (V->hasGlobalStorage() && !V->isLocalVarDecl() && D.inRoot(V->getLocation())
        && !V->getDeclContext()->isDependentContext()
        && !V->getType()->isDependentType() && !isa<VarTemplatePartialSpecializationDecl>(V)
        && !V->getDescribedVarTemplate())
      D.globalVar(V);
    return true;
  }
  Dumper& D;
};

class Consumer : public SemaConsumer {
public:
  Consumer(CompilerInstance& CI) : CI(CI) { }
  void InitializeSema(Sema& S) override { SemaP = &S; }
  void ForgetSema() override { SemaP = nullptr; }

  bool wanted(const ValueDecl* D)
  {
    auto& SM = CI.getSourceManager();
    auto L = SM.getExpansionLoc(D->getLocation());
    auto P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return true;
    llvm::StringRef f = P.getFilename();
    if (f.contains("/boost/") || f.contains("/fmt/")) return false;
    return true;
  }

  bool HandleTopLevelDecl(DeclGroupRef G) override
  {
    for (auto* D : G)
      if (D->isFromASTFile())
        return true;
    drain();
    return true;
  }
  void drain()
  {
    if (Busy || !SemaP || !SemaP->CodeSynthesisContexts.empty())
      return;
    Busy = true;
    auto& S = *SemaP;
    while (!S.PendingInstantiations.empty()) {
      auto P = S.PendingInstantiations.front();
      S.PendingInstantiations.pop_front();
      if (!wanted(P.first)) {
        ++Dropped;
        continue;
      }
      if (auto* F = dyn_cast<FunctionDecl>(P.first)) {
        if (F->isDefined() || !Tried.insert(F).second) continue;
        S.InstantiateFunctionDefinition(P.second, F, false, false, true);
        ++Instantiated;
      } else if (auto* V = dyn_cast<VarDecl>(P.first)) {
        S.InstantiateVariableDefinition(P.second, V, false, false, true);
      }
    }
    Busy = false;
  }

  void HandleTranslationUnit(ASTContext& C) override
  {
    auto& D = C.getDiagnostics();
    if (D.hasErrorOccurred())
      return;
    std::error_code ec;
    llvm::raw_fd_ostream os(OutPath, ec);
    OStream J(os);
    J.arrayBegin();
    Dumper Du(C, J);
    Visitor V(Du);
    V.TraverseDecl(C.getTranslationUnitDecl());
    Du.flush();
    J.arrayEnd();
  }

  CompilerInstance& CI;
  Sema* SemaP = nullptr;
  bool Busy = false;
  std::set<const Decl*> Tried;
  unsigned Dropped = 0, Instantiated = 0;
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, llvm::StringRef) override
  {
    return std::make_unique<Consumer>(CI);
  }
};

} // namespace

int main(int argc, const char** argv)
{
  std::string Tu;
  std::vector<std::string> Args;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--") {
      for (++i; i < argc; ++i) Args.push_back(argv[i]);
      break;
    }
    if (a == "--root") Roots.push_back(argv[++i]);
    else if (a == "--out") OutPath = argv[++i];
    else if (a == "--skip-ns") SkipNs.push_back(argv[++i]);
    else Tu = a;
  }
  tooling::FixedCompilationDatabase DB(".", Args);
  tooling::ClangTool Tool(DB, { Tu });
  Tool.clearArgumentsAdjusters();
  Tool.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
