// Front end of the static checks: parses one translation unit with the flags
// of the real build and writes the resolved program (functions, template
// instantiations, lambdas, records, globals) that lies under a root folder as
// JSON. It decides nothing.
#include <map>
#include <set>
#include <string>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root;
static std::string OutFile;

namespace
{
class Emitter
{
public:
  Emitter(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy())
  {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.FullyQualifiedName = true;
    PP.SuppressDefaultTemplateArgs = true;
    MC.reset(C.createMangleContext());
  }

  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::unique_ptr<MangleContext> MC;
  std::map<const Decl *, int> Ids;

  int id(const Decl *D)
  {
    D = D->getCanonicalDecl();
    auto it = Ids.find(D);
    if (it != Ids.end()) return it->second;
    int n = Ids.size() + 1;
    Ids[D] = n;
    return n;
  }

  std::string file(SourceLocation L)
  {
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    if (P.isInvalid()) return "";
    std::string F = P.getFilename();
    llvm::SmallString<256> S(F);
    llvm::sys::fs::make_absolute(S);
    llvm::sys::path::remove_dots(S, true);
    return std::string(S.str());
  }
  int line(SourceLocation L)
  {
    if (L.isInvalid()) return 0;
    return SM.getExpansionLineNumber(L);
  }
  bool inRoot(SourceLocation L)
  {
    if (L.isInvalid()) return false;
    std::string F = file(L);
    return F.compare(0, Root.size(), Root) == 0;
  }
  std::string type(QualType T)
  {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string qn(const NamedDecl *D)
  {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    OS.flush();
    return S;
  }
  // A key that names the same function in every translation unit.
  std::string key(const FunctionDecl *F)
  {
    std::string S;
    llvm::raw_string_ostream OS(S);
    if (F->isDependentContext()) {
      OS << "dep:" << qn(F);
      return OS.str();
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F))
      MC->mangleName(GlobalDecl(CD, Ctor_Complete), OS);
    else if (auto *DD = dyn_cast<CXXDestructorDecl>(F))
      MC->mangleName(GlobalDecl(DD, Dtor_Complete), OS);
    else if (MC->shouldMangleDeclName(F))
      MC->mangleName(GlobalDecl(F), OS);
    else
      OS << F->getNameAsString();
    OS.flush();
    if (F->getFormalLinkage() != Linkage::External && inRoot(F->getLocation()))
      S = file(F->getCanonicalDecl()->getLocation()) + "::" + S;
    return S;
  }

  Array targs(const FunctionDecl *F)
  {
    Array A;
    if (auto *TA = F->getTemplateSpecializationArgs())
      for (unsigned i = 0; i < TA->size(); ++i) {
        std::string S;
        llvm::raw_string_ostream OS(S);
        const TemplateArgument &T = TA->get(i);
        if (T.getKind() == TemplateArgument::Type)
          OS << type(T.getAsType());
        else
          T.print(PP, OS, false);
        A.push_back(OS.str());
      }
    return A;
  }

  // Statements ----------------------------------------------------------
  Value stmt(const Stmt *S)
  {
    if (!S) return nullptr;
    Object O;
    O["l"] = line(S->getBeginLoc());
    if (auto *CS = dyn_cast<CompoundStmt>(S)) {
      O["s"] = "block";
      Array A;
      for (auto *X : CS->body())
        A.push_back(stmt(X));
      O["b"] = std::move(A);
      O["e"] = line(CS->getRBracLoc());
    } else if (auto *DS = dyn_cast<DeclStmt>(S)) {
      O["s"] = "decl";
      Array A;
      for (auto *D : DS->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(var(V));
      O["v"] = std::move(A);
    } else if (auto *I = dyn_cast<IfStmt>(S)) {
      O["s"] = "if";
      if (I->getInit()) O["init"] = stmt(I->getInit());
      if (I->getConditionVariableDeclStmt())
        O["cv"] = stmt(I->getConditionVariableDeclStmt());
      O["c"] = expr(I->getCond());
      O["t"] = stmt(I->getThen());
      O["f"] = stmt(I->getElse());
    } else if (auto *F = dyn_cast<ForStmt>(S)) {
      O["s"] = "for";
      O["init"] = stmt(F->getInit());
      O["c"] = F->getCond() ? expr(F->getCond()) : Value(nullptr);
      O["inc"] = F->getInc() ? expr(F->getInc()) : Value(nullptr);
      O["b"] = stmt(F->getBody());
    } else if (auto *W = dyn_cast<WhileStmt>(S)) {
      O["s"] = "while";
      if (W->getConditionVariableDeclStmt())
        O["cv"] = stmt(W->getConditionVariableDeclStmt());
      O["c"] = expr(W->getCond());
      O["b"] = stmt(W->getBody());
    } else if (auto *D = dyn_cast<DoStmt>(S)) {
      O["s"] = "do";
      O["c"] = expr(D->getCond());
      O["b"] = stmt(D->getBody());
    } else if (auto *R = dyn_cast<CXXForRangeStmt>(S)) {
      O["s"] = "rangefor";
      O["r"] = expr(R->getRangeInit());
      O["v"] = var(R->getLoopVariable());
      O["b"] = stmt(R->getBody());
    } else if (auto *SW = dyn_cast<SwitchStmt>(S)) {
      O["s"] = "switch";
      if (SW->getConditionVariableDeclStmt())
        O["cv"] = stmt(SW->getConditionVariableDeclStmt());
      O["c"] = expr(SW->getCond());
      O["b"] = stmt(SW->getBody());
    } else if (auto *CS = dyn_cast<CaseStmt>(S)) {
      O["s"] = "case";
      O["v"] = expr(CS->getLHS());
      O["b"] = stmt(CS->getSubStmt());
    } else if (auto *DS = dyn_cast<DefaultStmt>(S)) {
      O["s"] = "default";
      O["b"] = stmt(DS->getSubStmt());
    } else if (auto *R = dyn_cast<ReturnStmt>(S)) {
      O["s"] = "return";
      if (R->getRetValue()) O["v"] = expr(R->getRetValue());
    } else if (isa<BreakStmt>(S)) {
      O["s"] = "break";
    } else if (isa<ContinueStmt>(S)) {
      O["s"] = "continue";
    } else if (isa<NullStmt>(S)) {
      O["s"] = "null";
    } else if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      O["s"] = "try";
      O["b"] = stmt(T->getTryBlock());
      Array A;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
        Object H;
        H["t"] = T->getHandler(i)->getExceptionDecl()
                     ? type(T->getHandler(i)->getCaughtType())
                     : "...";
        H["b"] = stmt(T->getHandler(i)->getHandlerBlock());
        A.push_back(std::move(H));
      }
      O["h"] = std::move(A);
    } else if (auto *L = dyn_cast<LabelStmt>(S)) {
      O["s"] = "label";
      O["n"] = L->getName();
      O["b"] = stmt(L->getSubStmt());
    } else if (auto *G = dyn_cast<GotoStmt>(S)) {
      O["s"] = "goto";
      O["n"] = G->getLabel()->getName();
    } else if (auto *A = dyn_cast<AttributedStmt>(S)) {
      return stmt(A->getSubStmt());
    } else if (auto *E = dyn_cast<Expr>(S)) {
      O["s"] = "expr";
      O["x"] = expr(E);
    } else {
      O["s"] = "other";
      O["n"] = S->getStmtClassName();
    }
    return O;
  }

  Value var(const VarDecl *V)
  {
    Object O;
    O["d"] = id(V);
    O["n"] = V->getNameAsString();
    O["t"] = type(V->getType());
    O["l"] = line(V->getLocation());
    if (V->isStaticLocal()) O["st"] = true;
    if (V->getTLSKind() != VarDecl::TLS_None) O["tls"] = true;
    if (auto *VT = dyn_cast<VariableArrayType>(V->getType().getTypePtr()))
      if (VT->getSizeExpr()) O["vla"] = expr(VT->getSizeExpr());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      Array A;
      for (auto *B : DD->bindings()) {
        Object BO;
        BO["d"] = id(B);
        BO["n"] = B->getNameAsString();
        if (B->getBinding()) BO["x"] = expr(B->getBinding());
        A.push_back(std::move(BO));
      }
      O["bind"] = std::move(A);
    }
    if (V->hasInit() && V->getInit()) O["i"] = expr(V->getInit());
    return O;
  }

  // Expressions ---------------------------------------------------------
  static const Expr *skip(const Expr *E)
  {
    while (true) {
      if (auto *X = dyn_cast<ParenExpr>(E))
        E = X->getSubExpr();
      else if (auto *X = dyn_cast<FullExpr>(E))
        E = X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E))
        E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E))
        E = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
        E = X->getReplacement();
      else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E))
        E = X->getExpr();
      else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E))
        E = X->getExpr();
      else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E))
        E = X->getSubExpr();
      else if (auto *X = dyn_cast<CastExpr>(E)) {
        switch (X->getCastKind()) {
          case CK_LValueToRValue:
          case CK_NoOp:
          case CK_ArrayToPointerDecay:
          case CK_FunctionToPointerDecay:
          case CK_DerivedToBase:
          case CK_UncheckedDerivedToBase:
          case CK_BaseToDerived:
          case CK_ConstructorConversion:
          case CK_UserDefinedConversion:
          case CK_BuiltinFnToFnPtr: E = X->getSubExpr(); continue;
          default: return E;
        }
      } else if (auto *X = dyn_cast<UnaryOperator>(E)) {
        if (X->getOpcode() == UO_Extension || X->getOpcode() == UO_Plus)
          E = X->getSubExpr();
        else
          return E;
      } else
        return E;
    }
  }

  void callee(Object &O, const FunctionDecl *F)
  {
    O["fn"] = qn(F);
    O["key"] = key(F);
    O["in"] = inRoot(F->getLocation());
    Array T = targs(F);
    if (!T.empty()) O["ta"] = std::move(T);
    if (F->isNoReturn()) O["nr"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual()) O["virt"] = true;
      if (M->isStatic()) O["static"] = true;
      if (M->isConst()) O["const"] = true;
      O["cls"] = qn(M->getParent());
    }
    Array PT;
    for (auto *P : F->parameters())
      PT.push_back(type(P->getType()));
    O["pt"] = std::move(PT);
  }

  Array args(llvm::iterator_range<CallExpr::const_arg_iterator> R)
  {
    Array A;
    for (auto *X : R)
      A.push_back(expr(X));
    return A;
  }

  Value expr(const Expr *E0)
  {
    const Expr *E = skip(E0);
    Object O;
    O["l"] = line(E->getBeginLoc());
    O["t"] = type(E->getType());

    // Constants.
    if (E->isPRValue() && !E->isValueDependent() && !E->isTypeDependent()) {
      Expr::EvalResult R;
      QualType T = E->getType();
      if (T->isIntegralOrEnumerationType() &&
          E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
        O["k"] = T->isBooleanType() ? "bool" : "int";
        if (T->isBooleanType())
          O["v"] = R.Val.getInt().getBoolValue();
        else {
          llvm::SmallString<40> S;
          R.Val.getInt().toString(S, 10);
          O["v"] = std::string(S.str());
        }
        if (auto *DR = dyn_cast<DeclRefExpr>(skip(E)))
          O["n"] = DR->getDecl()->getNameAsString();
        return O;
      }
      llvm::APFloat F(0.0);
      if (T->isRealFloatingType() &&
          E->EvaluateAsFloat(F, C, Expr::SE_NoSideEffects)) {
        O["k"] = "flt";
        bool lose;
        F.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &lose);
        char buf[64];
        snprintf(buf, sizeof buf, "%.17g", F.convertToDouble());
        O["v"] = std::string(buf);
        return O;
      }
    }
    // A constant variable used as an lvalue (e.g. bound to a const reference).
    if (auto *DR = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = DR->getDecl();
      O["k"] = "ref";
      O["n"] = D->getNameAsString();
      O["d"] = id(D);
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        O["dk"] = "func";
        callee(O, F);
      } else if (isa<EnumConstantDecl>(D)) {
        O["dk"] = "enum";
      } else if (isa<BindingDecl>(D)) {
        O["dk"] = "local";
      } else if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->isLocalVarDeclOrParm() && !V->isStaticLocal())
          O["dk"] = "local";
        else {
          O["dk"] = "global";
          O["qn"] = V->isStaticLocal()
                        ? file(V->getLocation()) + ":" +
                              std::to_string(line(V->getLocation())) + ":" +
                              V->getNameAsString()
                        : qn(V);
          if (V->getType().isConstQualified() || V->isConstexpr()) {
            if (const APValue *AV =
                    (V->hasInit() && !V->getInit()->isValueDependent()) ? V->evaluateValue() : nullptr) {
              if (AV->isInt()) {
                llvm::SmallString<40> S;
                AV->getInt().toString(S, 10);
                O["cval"] = std::string(S.str());
              }
            }
          }
        }
      } else
        O["dk"] = "other";
      return O;
    }
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      O["k"] = "str";
      O["v"] = X->isOrdinary() || X->isUTF8() ? llvm::json::fixUTF8(X->getString()) : std::string("?");
    } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      O["k"] = "null";
    } else if (isa<CXXThisExpr>(E)) {
      O["k"] = "this";
    } else if (auto *X = dyn_cast<MemberExpr>(E)) {
      if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) {
        O["k"] = "ref";
        O["n"] = V->getNameAsString();
        O["d"] = id(V);
        O["dk"] = "global";
        O["qn"] = qn(V);
      } else {
        O["k"] = "mem";
        O["f"] = X->getMemberDecl()->getNameAsString();
        if (auto *P = dyn_cast<RecordDecl>(X->getMemberDecl()->getDeclContext()))
          O["cls"] = qn(P);
        O["arrow"] = X->isArrow();
        O["b"] = expr(X->getBase());
        if (auto *FD = dyn_cast<FieldDecl>(X->getMemberDecl()))
          if (FD->isAnonymousStructOrUnion()) O["anon"] = true;
        if (auto *M = dyn_cast<CXXMethodDecl>(X->getMemberDecl())) {
          O["k"] = "memfn";
          callee(O, M);
        }
      }
    } else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      O["k"] = "sub";
      O["b"] = expr(X->getBase());
      O["i"] = expr(X->getIdx());
    } else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      O["k"] = "call";
      O["op"] = getOperatorSpelling(X->getOperator());
      if (auto *F = X->getDirectCallee()) {
        callee(O, F);
        if (auto *M = dyn_cast<CXXMethodDecl>(F))
          if (M->isInstance()) {
            O["obj"] = expr(X->getArg(0));
            Array A;
            for (unsigned i = 1; i < X->getNumArgs(); ++i)
              A.push_back(expr(X->getArg(i)));
            O["a"] = std::move(A);
            return O;
          }
      }
      O["a"] = args(X->arguments());
    } else if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      O["k"] = "call";
      if (auto *M = X->getMethodDecl()) {
        callee(O, M);
        const Expr *CE = X->getCallee()->IgnoreParens();
        if (auto *ME = dyn_cast<MemberExpr>(CE)) {
          O["arrow"] = ME->isArrow();
          if (ME->hasQualifier()) O["qual"] = true;
        }
        O["obj"] = expr(X->getImplicitObjectArgument());
      } else
        O["cx"] = expr(X->getCallee());
      O["a"] = args(X->arguments());
    } else if (auto *X = dyn_cast<CallExpr>(E)) {
      O["k"] = "call";
      if (auto *F = X->getDirectCallee())
        callee(O, F);
      else
        O["cx"] = expr(X->getCallee());
      O["a"] = args(X->arguments());
    } else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      auto *CD = X->getConstructor();
      if (X->isElidable() && X->getNumArgs() == 1) return expr(X->getArg(0));
      O["k"] = "ctor";
      callee(O, CD);
      O["cls"] = qn(CD->getParent());
      if (CD->isCopyConstructor()) O["copy"] = true;
      if (CD->isMoveConstructor()) O["move"] = true;
      if (CD->isDefaultConstructor() && X->getNumArgs() == 0) O["def"] = true;
      if (X->isListInitialization()) O["list"] = true;
      if (isa<CXXTemporaryObjectExpr>(X)) O["tmp"] = true;
      Array A;
      for (auto *Y : X->arguments())
        A.push_back(expr(Y));
      O["a"] = std::move(A);
    } else if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) {
      O["k"] = "zero";
    } else if (isa<ImplicitValueInitExpr>(E)) {
      O["k"] = "zero";
    } else if (auto *X = dyn_cast<BinaryOperator>(E)) {
      if (auto *CA = dyn_cast<CompoundAssignOperator>(X)) {
        O["k"] = "casgn";
        O["ct"] = type(CA->getComputationResultType());
        O["op"] = BinaryOperator::getOpcodeStr(
                      BinaryOperator::getOpForCompoundAssignment(X->getOpcode()))
                      .str();
      } else if (X->getOpcode() == BO_Assign) {
        O["k"] = "asgn";
      } else {
        O["k"] = "bin";
        O["op"] = X->getOpcodeStr().str();
      }
      O["a"] = expr(X->getLHS());
      O["b"] = expr(X->getRHS());
    } else if (auto *X = dyn_cast<UnaryOperator>(E)) {
      O["k"] = "un";
      switch (X->getOpcode()) {
        case UO_PostInc: O["op"] = "p++"; break;
        case UO_PostDec: O["op"] = "p--"; break;
        case UO_PreInc: O["op"] = "++"; break;
        case UO_PreDec: O["op"] = "--"; break;
        case UO_AddrOf: O["op"] = "&"; break;
        case UO_Deref: O["op"] = "*"; break;
        default: O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      }
      O["a"] = expr(X->getSubExpr());
    } else if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      O["k"] = "cond";
      O["c"] = expr(X->getCond());
      O["a"] = expr(X->getTrueExpr());
      O["b"] = expr(X->getFalseExpr());
    } else if (auto *X = dyn_cast<CastExpr>(E)) {
      if (X->getCastKind() == CK_NullToPointer) {
        O["k"] = "null";
        return O;
      }
      O["k"] = "cast";
      O["ck"] = X->getCastKindName();
      O["st"] = type(X->getSubExpr()->getType());
      if (isa<ExplicitCastExpr>(X)) O["x"] = true;
      O["a"] = expr(X->getSubExpr());
    } else if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      O["k"] = "new";
      O["at"] = type(X->getAllocatedType());
      if (X->isArray() && X->getArraySize() && *X->getArraySize())
        O["n"] = expr(*X->getArraySize());
      if (X->getInitializer()) O["i"] = expr(X->getInitializer());
    } else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      O["k"] = "delete";
      O["arr"] = X->isArrayForm();
      O["a"] = expr(X->getArgument());
      if (!X->getDestroyedType().isNull()) {
        O["dt"] = type(X->getDestroyedType());
      }
    } else if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      O["k"] = "throw";
      if (X->getSubExpr()) O["a"] = expr(X->getSubExpr());
    } else if (auto *X = dyn_cast<LambdaExpr>(E)) {
      O["k"] = "lambda";
      Array Ps;
      for (auto *P : X->getCallOperator()->parameters())
        Ps.push_back(param(P));
      O["p"] = std::move(Ps);
      Array Caps;
      auto ii = X->capture_init_begin();
      for (auto &Cp : X->captures()) {
        Object CO;
        if (Cp.capturesThis()) {
          CO["this"] = true;
        } else if (Cp.capturesVariable()) {
          CO["d"] = id(Cp.getCapturedVar());
          CO["n"] = Cp.getCapturedVar()->getNameAsString();
          CO["ref"] = Cp.getCaptureKind() == LCK_ByRef;
          if (auto *VD = dyn_cast<VarDecl>(Cp.getCapturedVar()))
            if (VD->isInitCapture()) CO["i"] = expr(VD->getInit());
        }
        ++ii;
        Caps.push_back(std::move(CO));
      }
      O["c"] = std::move(Caps);
      const CXXMethodDecl *Op = X->getCallOperator();
      if (auto *FT = X->getDependentCallOperator()) {
        // Generic lambda: the first instantiation, and all of them.
        Array Alts;
        bool First = true;
        for (auto *Sp : FT->specializations())
          if (Sp->hasBody()) {
            auto *M = cast<CXXMethodDecl>(Sp);
            auto params = [&] {
              Array Ps2;
              for (auto *P : M->parameters())
                Ps2.push_back(param(P));
              return Ps2;
            };
            Object AO;
            AO["key"] = key(M);
            AO["p"] = params();
            AO["b"] = stmt(M->getBody());
            Alts.push_back(std::move(AO));
            if (First) {
              Op = M;
              O["p"] = params();
            }
            First = false;
          }
        O["alts"] = std::move(Alts);
      }
      O["key"] = key(Op);
      O["b"] = stmt(Op->getBody());
    } else if (auto *X = dyn_cast<InitListExpr>(E)) {
      O["k"] = "init";
      if (auto *RT = X->getType()->getAs<RecordType>()) {
        O["cls"] = qn(RT->getDecl());
        Array Fs;
        for (auto *F : RT->getDecl()->fields())
          Fs.push_back(F->getNameAsString());
        O["fs"] = std::move(Fs);
      }
      Array A;
      for (auto *Y : X->inits())
        A.push_back(expr(Y));
      O["a"] = std::move(A);
    } else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      O["k"] = "sizeof";
      if (X->isArgumentType()) O["st"] = type(X->getArgumentType());
    } else if (auto *X = dyn_cast<OpaqueValueExpr>(E)) {
      if (X->getSourceExpr()) return expr(X->getSourceExpr());
      O["k"] = "other";
      O["n"] = "opaque";
    } else if (auto *X = dyn_cast<CXXTypeidExpr>(E)) {
      O["k"] = "other";
      O["n"] = "typeid";
    } else if (auto *X = dyn_cast<StmtExpr>(E)) {
      O["k"] = "stmtexpr";
      O["b"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<PredefinedExpr>(E)) {
      O["k"] = "str";
      O["v"] = "?func";
    } else {
      O["k"] = "other";
      O["n"] = E->getStmtClassName();
      Array A;
      for (auto *Ch : E->children())
        if (auto *CE = dyn_cast_or_null<Expr>(Ch)) A.push_back(expr(CE));
      O["a"] = std::move(A);
    }
    return O;
  }

  Value param(const ParmVarDecl *P)
  {
    Object O;
    O["d"] = id(P);
    O["n"] = P->getNameAsString();
    O["t"] = type(P->getType());
    return O;
  }

  Value function(const FunctionDecl *F)
  {
    Object O;
    O["qn"] = qn(F);
    O["n"] = F->getNameAsString();
    O["key"] = key(F);
    O["file"] = file(F->getLocation());
    O["line"] = line(F->getBeginLoc());
    O["end"] = line(F->getEndLoc());
    O["ret"] = type(F->getReturnType());
    if (F->getFormalLinkage() == Linkage::External) O["ext"] = true;
    if (F->isExternC()) O["c"] = true;
    Array T = targs(F);
    if (!T.empty()) O["ta"] = std::move(T);
    Array Ps;
    for (auto *P : F->parameters())
      Ps.push_back(param(P));
    O["p"] = std::move(Ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = qn(M->getParent());
      O["static"] = M->isStatic();
      O["virt"] = M->isVirtual();
      Array Ov;
      for (auto *X : M->overridden_methods())
        Ov.push_back(key(X));
      O["ov"] = std::move(Ov);
      O["acc"] = (int)M->getAccess();
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      O["ctor"] = true;
      Array A;
      for (auto *I : CD->inits()) {
        Object IO;
        if (I->isAnyMemberInitializer())
          IO["f"] = I->getAnyMember()->getNameAsString();
        else if (I->isDelegatingInitializer())
          IO["deleg"] = true;
        else if (I->isBaseInitializer())
          IO["base"] = type(QualType(I->getBaseClass(), 0));
        IO["x"] = expr(I->getInit());
        IO["w"] = I->isWritten();
        A.push_back(std::move(IO));
      }
      O["inits"] = std::move(A);
    }
    if (isa<CXXDestructorDecl>(F)) O["dtor"] = true;
    O["b"] = stmt(F->getBody());
    return O;
  }
};

class Visitor : public RecursiveASTVisitor<Visitor>
{
public:
  Visitor(ASTContext &C) : Em(C) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitLambdaBody() const { return false; }
  Emitter Em;
  Array Funcs, Recs, Globs;
  std::set<std::string> Seen;

  bool VisitFunctionDecl(FunctionDecl *F)
  {
    if (!F->doesThisDeclarationHaveABody()) return true;
    if (F->isDependentContext() || F->getDescribedFunctionTemplate()) return true;
    if (!Em.inRoot(F->getLocation())) return true;
    if (F->isDefaulted() && !F->isUserProvided()) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return true;
    if (!Seen.insert(Em.key(F)).second) return true;
    Funcs.push_back(Em.function(F));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R)
  {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext()) return true;
    if (R->isLambda() || !Em.inRoot(R->getLocation())) return true;
    Object O;
    O["qn"] = Em.qn(R);
    O["file"] = Em.file(R->getLocation());
    O["line"] = Em.line(R->getLocation());
    Array A;
    for (auto *F : R->fields()) {
      Object FO;
      FO["n"] = F->getNameAsString();
      FO["t"] = Em.type(F->getType());
      FO["acc"] = (int)F->getAccess();
      if (F->hasInClassInitializer() && F->getInClassInitializer())
        FO["i"] = Em.expr(F->getInClassInitializer());
      A.push_back(std::move(FO));
    }
    O["f"] = std::move(A);
    Array B;
    for (auto &Bs : R->bases())
      B.push_back(Em.type(Bs.getType()));
    O["b"] = std::move(B);
    O["union"] = R->isUnion();
    O["dtor"] = R->hasUserDeclaredDestructor();
    Array M;
    for (auto *X : R->methods()) {
      if (X->isImplicit()) continue;
      Object MO;
      MO["n"] = X->getNameAsString();
      MO["key"] = Em.key(X);
      MO["pure"] = X->isPureVirtual();
      MO["acc"] = (int)X->getAccess();
      M.push_back(std::move(MO));
    }
    O["m"] = std::move(M);
    Recs.push_back(std::move(O));
    return true;
  }
  bool VisitVarDecl(VarDecl *V)
  {
    if (V->isLocalVarDeclOrParm() || !Em.inRoot(V->getLocation())) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    Object O;
    O["qn"] = Em.qn(V);
    O["t"] = Em.type(V->getType());
    O["file"] = Em.file(V->getLocation());
    O["line"] = Em.line(V->getLocation());
    O["def"] = V->isThisDeclarationADefinition() == VarDecl::Definition;
    if (V->hasInit() && V->getInit() && !V->getInit()->isValueDependent())
      O["i"] = Em.expr(V->getInit());
    Globs.push_back(std::move(O));
    return true;
  }
};

class Consumer : public ASTConsumer
{
public:
  void HandleTranslationUnit(ASTContext &C) override
  {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Visitor V(C);
    V.TraverseDecl(C.getTranslationUnitDecl());
    Object O;
    O["main"] = V.Em.file(C.getSourceManager().getLocForStartOfFile(
        C.getSourceManager().getMainFileID()));
    O["functions"] = std::move(V.Funcs);
    O["records"] = std::move(V.Recs);
    O["globals"] = std::move(V.Globs);
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    OS << Value(std::move(O));
  }
};

class Action : public ASTFrontendAction
{
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override
  {
    return std::make_unique<Consumer>();
  }
};
}  // namespace

// usage: apollo-ir ROOT OUT SOURCE FLAGS...
int main(int argc, const char **argv)
{
  if (argc < 4) return 2;
  Root = argv[1];
  if (Root.back() != '/') Root += '/';
  OutFile = argv[2];
  std::vector<std::string> Flags(argv + 4, argv + argc);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {argv[3]});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
