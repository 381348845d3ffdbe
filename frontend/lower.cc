// lower: a libTooling front end. Lowers the type-checked clang AST of one
// translation unit (functions with a body whose definition is in a file below
// one of the given roots, template instantiations and lambdas included) to a
// compact JSON form that the analyses in ../engine read. It only parses and
// type-checks: nothing of the program is run.
//
// usage: lower OUT.json FILE ROOT[,ROOT...] -- <clang flags>
#include <clang/AST/AST.h>
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <fstream>
#include <map>
#include <set>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> Roots;
static std::string OutPath;

namespace {
class Lower {
 public:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const FunctionDecl *, std::string> FnKeys;
  std::set<const FunctionDecl *> Done;
  std::vector<const FunctionDecl *> Queue;
  std::set<const RecordDecl *> RecDone;
  Object Functions, Records, Globals;
  std::map<std::string, int> TypeIds;
  Array Types;

  Lower(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressInlineNamespace = true;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    return F ? F->getName().str() : "";
  }
  bool inRoots(SourceLocation L) {
    std::string F = fileOf(L);
    for (auto &R : Roots)
      if (F.compare(0, R.size(), R) == 0) return true;
    return false;
  }
  Value loc(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return Value(fileOf(L) + ":" + std::to_string(SM.getExpansionLineNumber(L)));
  }
  Value line(SourceLocation L) { return Value((int64_t)SM.getExpansionLineNumber(SM.getExpansionLoc(L))); }

  // ------------------------------------------------------------- types
  int typeId(QualType T) {
    T = T.getCanonicalType();
    std::string S = T.getAsString(PP);
    auto It = TypeIds.find(S);
    if (It != TypeIds.end()) return It->second;
    int Id = Types.size();
    TypeIds[S] = Id;
    Types.push_back(Value(nullptr));
    Object O;
    O["s"] = S;
    if (T.isConstQualified()) O["const"] = true;
    if (T->isReferenceType()) {
      O["k"] = T->isRValueReferenceType() ? "rref" : "ref";
      O["t"] = typeId(T.getNonReferenceType());
    } else if (T->isPointerType()) {
      O["k"] = "ptr";
      O["t"] = typeId(T->getPointeeType());
    } else if (T->isBooleanType()) {
      O["k"] = "bool";
    } else if (T->isEnumeralType()) {
      O["k"] = "enum";
      O["n"] = T->castAs<EnumType>()->getDecl()->getQualifiedNameAsString();
    } else if (T->isIntegerType()) {
      O["k"] = "int";
      O["w"] = (int64_t)C.getIntWidth(T);
      O["u"] = T->isUnsignedIntegerType();
    } else if (T->isArrayType()) {
      O["k"] = "arr";
      const ArrayType *A = C.getAsArrayType(T);
      O["t"] = typeId(A->getElementType());
      if (auto *CA = dyn_cast<ConstantArrayType>(A)) O["n"] = (int64_t)CA->getSize().getZExtValue();
    } else if (T->isVoidType()) {
      O["k"] = "void";
    } else if (T->isFloatingType()) {
      O["k"] = "float";
    } else if (T->isVectorType()) {
      O["k"] = "simd";
    } else if (auto *RD = T->getAsCXXRecordDecl()) {
      O["k"] = "rec";
      O["n"] = recName(RD);
      O["q"] = RD->getQualifiedNameAsString();
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        Array A;
        for (auto &Arg : S->getTemplateArgs().asArray()) pushArg(A, Arg);
        O["a"] = std::move(A);
      }
      if (RD->isLambda()) O["lambda"] = true;
      needRecord(RD);
    } else if (T->isFunctionType()) {
      O["k"] = "fn";
    } else
      O["k"] = "other";
    Types[Id] = Value(std::move(O));
    return Id;
  }
  void pushArg(Array &A, const TemplateArgument &Arg) {
    switch (Arg.getKind()) {
      case TemplateArgument::Type: A.push_back(typeId(Arg.getAsType())); break;
      case TemplateArgument::Integral: {
        Object O; llvm::SmallString<32> S; Arg.getAsIntegral().toString(S, 10); O["i"] = S.str().str();
        A.push_back(std::move(O)); break; }
      case TemplateArgument::Pack:
        for (auto &P : Arg.pack_elements()) pushArg(A, P);
        break;
      default: A.push_back(nullptr);
    }
  }
  std::string recName(const CXXRecordDecl *RD) {
    if (RD->isLambda())
      return "lambda@" + loc(RD->getBeginLoc()).getAsString()->str() + ":" +
             std::to_string(SM.getExpansionColumnNumber(RD->getBeginLoc())) + "#" + lambdaCtx(RD);
    return C.getRecordType(RD).getCanonicalType().getUnqualifiedType().getAsString(PP);
  }
  std::string lambdaCtx(const CXXRecordDecl *RD) {
    // lambdas inside template instantiations: told apart by the function
    const DeclContext *D = RD->getDeclContext();
    while (D && !isa<FunctionDecl>(D)) D = D->getParent();
    if (!D) return "";
    return fnKey(cast<FunctionDecl>(D));
  }
  void needRecord(const CXXRecordDecl *RD) {
    RD = RD->getDefinition() ? RD->getDefinition() : RD;
    if (!RD->isCompleteDefinition() || RD->isDependentContext()) return;
    if (!inRoots(RD->getLocation())) return;
    if (!RecDone.insert(RD).second) return;
    Object O;
    O["loc"] = loc(RD->getLocation());
    O["q"] = RD->getQualifiedNameAsString();
    Array F;
    for (auto *FD : RD->fields()) {
      Object X;
      X["n"] = fieldName(FD);
      X["t"] = typeId(FD->getType());
      X["acc"] = (int64_t)FD->getAccess();
      X["line"] = line(FD->getLocation());
      if (FD->isMutable()) X["mutable"] = true;
      if (FD->hasInClassInitializer() && FD->getInClassInitializer()) X["init"] = expr(FD->getInClassInitializer());
      F.push_back(std::move(X));
    }
    O["fields"] = std::move(F);
    Array B;
    for (auto &Base : RD->bases())
      if (auto *BD = Base.getType()->getAsCXXRecordDecl()) {
        B.push_back(recName(BD));
        needRecord(BD);
      }
    O["bases"] = std::move(B);
    if (RD->isAggregate()) O["agg"] = true;
    if (RD->isPolymorphic()) O["poly"] = true;
    if (RD->isLambda()) {
      Array Caps;
      llvm::DenseMap<const ValueDecl *, FieldDecl *> M;
      FieldDecl *ThisF = nullptr;
      RD->getCaptureFields(M, ThisF);
      for (auto &Cap : RD->captures()) {
        Object X;
        if (Cap.capturesThis()) { X["this"] = true; X["ref"] = Cap.getCaptureKind() == LCK_This; }
        else if (Cap.capturesVariable()) { X["v"] = varId(Cap.getCapturedVar()); X["ref"] = Cap.getCaptureKind() == LCK_ByRef; X["name"] = Cap.getCapturedVar()->getNameAsString(); }
        Caps.push_back(std::move(X));
      }
      O["caps"] = std::move(Caps);
      if (auto *Op = RD->getLambdaCallOperator()) O["op"] = fnRef(Op);
    }
    Array Meth;
    for (auto *M : RD->methods()) {
      if (M->isImplicit() && !M->hasBody()) continue;
      Meth.push_back(fnRef(M));
    }
    // member templates' specializations are reached through calls
    O["methods"] = std::move(Meth);
    Records[recName(RD)] = Value(std::move(O));
  }
  std::string fieldName(const FieldDecl *FD) {
    if (FD->getDeclName()) return FD->getNameAsString();
    return "$f" + std::to_string(FD->getFieldIndex());
  }

  // ------------------------------------------------------------- functions
  std::string fnKey(const FunctionDecl *FD) {
    FD = FD->getCanonicalDecl();
    auto It = FnKeys.find(FD);
    if (It != FnKeys.end()) return It->second;
    FnKeys[FD] = "?rec";
    std::string S;
    llvm::raw_string_ostream OS(S);
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      OS << recName(MD->getParent()) << "::";
      if (isa<CXXConstructorDecl>(FD)) OS << "#ctor";
      else if (isa<CXXDestructorDecl>(FD)) OS << "#dtor";
      else FD->printName(OS);
    } else {
      FD->printQualifiedName(OS);
      if (FD->getStorageClass() == SC_Static || FD->isInAnonymousNamespace()) OS << "@" << fileOf(FD->getLocation());
    }
    if (auto *TA = FD->getTemplateSpecializationArgs()) {
      OS << "<";
      for (auto &A : TA->asArray()) { A.print(PP, OS, true); OS << ","; }
      OS << ">";
    }
    OS << "(";
    for (auto *P : FD->parameters()) OS << P->getType().getCanonicalType().getAsString(PP) << ",";
    OS << ")";
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) if (MD->isConst()) OS << "const";
    OS.flush();
    if (FD->isMain()) S += "@" + fileOf(FD->getLocation());
    FnKeys[FD] = S;
    return S;
  }
  // {"k": key, "q": qualified name (no template arguments), "n": name, ...}
  Value fnRef(const FunctionDecl *FD) {
    Object O;
    O["k"] = fnKey(FD);
    O["q"] = FD->getQualifiedNameAsString();
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      if (MD->isVirtual()) O["v"] = true;
      if (MD->isStatic()) O["st"] = true;
      if (MD->isConst()) O["c"] = true;
      O["cls"] = recName(MD->getParent());
    }
    O["rt"] = typeId(FD->getReturnType());
    if (auto *TA = FD->getTemplateSpecializationArgs()) {
      Array A;
      for (auto &X : TA->asArray()) pushArg(A, X);
      O["ta"] = std::move(A);
    }
    const FunctionDecl *Def = nullptr;
    if (FD->hasBody(Def) && Def) { if (inRoots(Def->getLocation())) need(Def); }
    else if (auto *Pat = FD->getTemplateInstantiationPattern()) { (void)Pat; }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
      if (CD->isCopyConstructor()) O["copy"] = true;
      if (CD->isMoveConstructor()) O["move"] = true;
      if (CD->isDefaultConstructor()) O["default"] = true;
      if (CD->isImplicit() || CD->isDefaulted()) O["implicit"] = true;
    }
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      if (MD->isCopyAssignmentOperator() && (MD->isDefaulted() || MD->isImplicit())) O["copyassign"] = true;
      if (MD->isMoveAssignmentOperator() && (MD->isDefaulted() || MD->isImplicit())) O["copyassign"] = true;
    }
    Array PT;
    for (auto *P : FD->parameters()) PT.push_back(typeId(P->getType()));
    O["pt"] = std::move(PT);
    return Value(std::move(O));
  }
  void need(const FunctionDecl *FD) {
    if (FD->isDependentContext()) return;
    if (Done.insert(FD).second) Queue.push_back(FD);
  }
  std::string varId(const ValueDecl *VD) {
    VD = cast<ValueDecl>(VD->getCanonicalDecl());
    if (auto *V = dyn_cast<VarDecl>(VD))
      if (V->hasGlobalStorage() && !V->isStaticLocal()) {
        noteGlobal(V);
        return "g:" + V->getQualifiedNameAsString() + (V->isStaticDataMember() ? "@" + recOf(V) : "");
      }
    std::string S = VD->getNameAsString() + "#" + std::to_string(SM.getExpansionLineNumber(SM.getExpansionLoc(VD->getLocation()))) + "." +
                    std::to_string(SM.getExpansionColumnNumber(SM.getExpansionLoc(VD->getLocation())));
    // several declarations expanded from one macro share a position
    if (VD->getLocation().isMacroID()) S += "." + std::to_string(SM.getSpellingLineNumber(SM.getSpellingLoc(VD->getLocation()))) + "." + std::to_string(SM.getSpellingColumnNumber(SM.getSpellingLoc(VD->getLocation())));
    return S;
  }
  std::string recOf(const VarDecl *V) {
    if (auto *R = dyn_cast<CXXRecordDecl>(V->getDeclContext())) return recName(R);
    return "";
  }
  std::set<const VarDecl *> GDone;
  void noteGlobal(const VarDecl *V) {
    if (!GDone.insert(V).second) return;
    const VarDecl *Def = V->getDefinition() ? V->getDefinition() : V;
    const Expr *Init = Def->getAnyInitializer();
    Object O;
    O["t"] = typeId(V->getType());
    O["loc"] = loc(V->getLocation());
    std::string K = "g:" + V->getQualifiedNameAsString() + (V->isStaticDataMember() ? "@" + recOf(V) : "");
    if (V->getType().isConstQualified()) O["constv"] = true;
    if (Init && inRoots(Def->getLocation()) && !Init->isValueDependent()) O["init"] = expr(Init);
    Globals[K] = Value(std::move(O));
  }

  void emitFn(const FunctionDecl *FD) {
    Object O;
    std::string Key = fnKey(FD);
    O["q"] = FD->getQualifiedNameAsString();
    O["file"] = fileOf(FD->getLocation());
    O["line"] = line(FD->getLocation());
    O["rt"] = typeId(FD->getReturnType());
    Array P;
    for (auto *PD : FD->parameters()) {
      Object X;
      X["v"] = varId(PD);
      X["n"] = PD->getNameAsString();
      X["t"] = typeId(PD->getType());
      P.push_back(std::move(X));
    }
    O["params"] = std::move(P);
    if (FD->isVariadic()) O["variadic"] = true;
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      O["cls"] = recName(MD->getParent());
      needRecord(MD->getParent());
      if (MD->isStatic()) O["st"] = true;
      if (MD->isVirtual()) O["v"] = true;
      if (MD->isConst()) O["c"] = true;
      O["acc"] = (int64_t)MD->getAccess();
      Array Ov;
      for (auto *B : MD->overridden_methods()) Ov.push_back(fnKey(B));
      O["over"] = std::move(Ov);
    }
    if (auto *TA = FD->getTemplateSpecializationArgs()) {
      Array A;
      for (auto &X : TA->asArray()) pushArg(A, X);
      O["ta"] = std::move(A);
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
      O["ctor"] = true;
      if (CD->isCopyConstructor() ) O["copy"] = true;
      if (CD->isMoveConstructor()) O["move"] = true;
      if (CD->isDefaulted()) O["defaulted"] = true;
      Array I;
      for (auto *In : CD->inits()) {
        Object X;
        if (In->isAnyMemberInitializer()) X["f"] = fieldName(In->getAnyMember());
        else if (In->isBaseInitializer()) X["b"] = typeId(QualType(In->getBaseClass(), 0));
        else X["d"] = true;
        X["e"] = expr(In->getInit());
        X["w"] = In->isWritten();
        X["line"] = line(In->getSourceLocation());
        I.push_back(std::move(X));
      }
      O["inits"] = std::move(I);
    }
    if (isa<CXXDestructorDecl>(FD)) O["dtor"] = true;
    O["body"] = stmt(FD->getBody());
    Functions[Key] = Value(std::move(O));
  }

  // ------------------------------------------------------------- statements
  Value S(const char *K, const Stmt *St, std::initializer_list<Value> Xs = {}) {
    Array A;
    A.push_back(K);
    A.push_back(line(St->getBeginLoc()));
    for (auto &X : Xs) A.push_back(X);
    return Value(std::move(A));
  }
  Value stmtOrNull(const Stmt *St) { return St ? stmt(St) : Value(nullptr); }
  Value stmt(const Stmt *St) {
    if (!St) return Value(Array{"block", 0, Array{}});
    if (auto *X = dyn_cast<CompoundStmt>(St)) {
      Array B;
      for (auto *Y : X->body()) B.push_back(stmt(Y));
      return S("block", St, {Value(std::move(B))});
    }
    if (auto *X = dyn_cast<DeclStmt>(St)) {
      Array B;
      for (auto *D : X->decls()) {
        if (auto *V = dyn_cast<VarDecl>(D)) {
          Array A{"decl", line(V->getLocation()), varId(V), typeId(V->getType())};
          A.push_back(V->hasInit() ? expr(V->getInit()) : Value(nullptr));
          A.push_back(V->isStaticLocal());
          if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
            Array Bs;
            for (auto *Bd : DD->bindings()) {
              Object O; O["v"] = varId(Bd); if (Bd->getBinding()) O["e"] = expr(Bd->getBinding());
              if (auto *HV = Bd->getHoldingVar()) { O["hv"] = varId(HV); if (HV->hasInit()) O["hi"] = expr(HV->getInit()); O["ht"] = typeId(HV->getType()); }
              Bs.push_back(std::move(O));
            }
            A.push_back(std::move(Bs));
          }
          B.push_back(std::move(A));
        }
      }
      if (B.size() == 1) return B[0];
      return S("decls", St, {Value(std::move(B))});
    }
    if (auto *X = dyn_cast<IfStmt>(St)) {
      if (X->isConstexpr()) {
        if (auto N = X->getNondiscardedCase(C)) return *N ? stmt(*N) : S("block", St, {Value(Array{})});
      }
      Value R = S("if", St, {expr(X->getCond()), stmt(X->getThen()), stmtOrNull(X->getElse())});
      Array Pre;
      if (X->getInit()) Pre.push_back(stmt(X->getInit()));
      if (X->getConditionVariableDeclStmt()) Pre.push_back(stmt(X->getConditionVariableDeclStmt()));
      if (Pre.empty()) return R;
      Pre.push_back(R);
      return S("block", St, {Value(std::move(Pre))});
    }
    if (auto *X = dyn_cast<ForStmt>(St)) {
      Value R = S("for", St, {stmtOrNull(X->getInit()), X->getCond() ? expr(X->getCond()) : Value(nullptr),
                           X->getInc() ? expr(X->getInc()) : Value(nullptr), stmt(X->getBody())});
      return R;
    }
    if (auto *X = dyn_cast<WhileStmt>(St)) return S("for", St, {Value(nullptr), expr(X->getCond()), Value(nullptr), stmt(X->getBody())});
    if (auto *X = dyn_cast<DoStmt>(St)) return S("do", St, {expr(X->getCond()), stmt(X->getBody())});
    if (auto *X = dyn_cast<CXXForRangeStmt>(St)) {
      auto *V = X->getLoopVariable();
      Value R = S("rfor", St, {varId(V), typeId(V->getType()), expr(X->getRangeInit()), stmt(X->getBody()), V->hasInit() ? expr(V->getInit()) : Value(nullptr)});
      if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
        Array Bs;
        for (auto *Bd : DD->bindings()) {
          Object O; O["v"] = varId(Bd); if (Bd->getBinding()) O["e"] = expr(Bd->getBinding());
          if (auto *HV = Bd->getHoldingVar()) { O["hv"] = varId(HV); if (HV->hasInit()) O["hi"] = expr(HV->getInit()); O["ht"] = typeId(HV->getType()); }
          Bs.push_back(std::move(O));
        }
        R.getAsArray()->push_back(std::move(Bs));
      }
      return R;
    }
    if (auto *X = dyn_cast<ReturnStmt>(St)) return S("ret", St, {X->getRetValue() ? expr(X->getRetValue()) : Value(nullptr)});
    if (isa<BreakStmt>(St)) return S("break", St);
    if (isa<ContinueStmt>(St)) return S("cont", St);
    if (isa<NullStmt>(St)) return S("block", St, {Value(Array{})});
    if (auto *X = dyn_cast<CXXTryStmt>(St)) {
      Array H;
      for (unsigned I = 0; I < X->getNumHandlers(); ++I) {
        auto *Ht = X->getHandler(I);
        Object O;
        if (Ht->getExceptionDecl()) { O["t"] = typeId(Ht->getCaughtType()); O["v"] = varId(Ht->getExceptionDecl()); }
        O["body"] = stmt(Ht->getHandlerBlock());
        H.push_back(std::move(O));
      }
      return S("try", St, {stmt(X->getTryBlock()), Value(std::move(H))});
    }
    if (auto *X = dyn_cast<SwitchStmt>(St)) {
      // list of [ [labels or null for default], statements... ] in order, with fallthrough made explicit
      Array Items;
      std::function<void(const Stmt *)> Add = [&](const Stmt *Y) {
        if (auto *Cs = dyn_cast<CaseStmt>(Y)) {
          Items.push_back(Array{"case", expr(Cs->getLHS())});
          Add(Cs->getSubStmt());
        } else if (auto *D = dyn_cast<DefaultStmt>(Y)) {
          Items.push_back(Array{"default"});
          Add(D->getSubStmt());
        } else Items.push_back(Array{"s", stmt(Y)});
      };
      if (auto *B = dyn_cast<CompoundStmt>(X->getBody())) for (auto *Y : B->body()) Add(Y);
      else Add(X->getBody());
      return S("switch", St, {expr(X->getCond()), Value(std::move(Items))});
    }
    if (auto *X = dyn_cast<AttributedStmt>(St)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(St)) return S("opaque", St, {"label"});
    if (auto *X = dyn_cast<Expr>(St)) return S("expr", St, {expr(X)});
    return S("opaque", St, {St->getStmtClassName()});
  }

  // ------------------------------------------------------------- expressions
  std::string apstr(const llvm::APSInt &V) { llvm::SmallString<40> S; V.toString(S, 10); return S.str().str(); }
  Value expr(const Expr *E) {
    if (!E) return Value(nullptr);
    Value V = expr0(E);
    return V;
  }
  Array mk(const char *K, const Expr *E) { return Array{K, line(E->getExprLoc()), typeId(E->getType())}; }
  Array args(llvm::iterator_range<CallExpr::const_arg_iterator> R) {
    Array A;
    for (auto *X : R) A.push_back(expr(X));
    return A;
  }
  Value opaque(const Expr *E, const char *Why) {
    Array A = mk("opaque", E);
    A.push_back(Why);
    return Value(std::move(A));
  }
  Value expr0(const Expr *E0) {
    const Expr *E = E0->IgnoreParens();
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) {
      Array A = mk("temp", E);
      A.push_back(expr(X->getSubExpr()));
      return Value(std::move(A));
    }
    // integral constants
    if (E->isPRValue() && E->getType()->isIntegralOrEnumerationType() && !E->isValueDependent() && !isa<CXXDefaultArgExpr>(E)) {
      Expr::EvalResult R;
      if (!E->HasSideEffects(C) && E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
        Array A = mk("int", E);
        A.push_back(apstr(R.Val.getInt()));
        const Expr *I = E->IgnoreParenImpCasts();
        if (auto *D = dyn_cast<DeclRefExpr>(I)) A.push_back(D->getDecl()->getNameAsString());
        return Value(std::move(A));
      }
    }
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      Array A = mk("str", E);
      A.push_back(X->isOrdinary() ? X->getString().str() : "?");
      return Value(std::move(A));
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return Value(mk("null", E));
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return Value(mk("zero", E));
    if (isa<CXXThisExpr>(E)) return Value(mk("this", E));
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      Array A;
      if (auto *F = dyn_cast<FunctionDecl>(X->getDecl())) {
        A = mk("fn", E);
        A.push_back(fnRef(F));
      } else if (auto *B = dyn_cast<BindingDecl>(X->getDecl())) {
        A = mk("var", E);
        A.push_back(B->getHoldingVar() ? varId(B->getHoldingVar()) : varId(B));
      } else {
        A = mk("var", E);
        A.push_back(varId(X->getDecl()));
      }
      return Value(std::move(A));
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      if (auto *F = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        Array A = mk("mem", E);
        Value B = expr(X->getBase());
        if (X->isArrow()) {
          Array D{"deref", line(E->getExprLoc()), typeId(X->getBase()->getType()->getPointeeType())};
          D.push_back(std::move(B));
          B = Value(std::move(D));
        }
        A.push_back(std::move(B));
        A.push_back(fieldName(F));
        A.push_back(recName(cast<CXXRecordDecl>(F->getParent())));
        return Value(std::move(A));
      }
      if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) {
        Array A = mk("var", E);
        A.push_back(varId(V));
        return Value(std::move(A));
      }
      return opaque(E, "member");
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      switch (X->getCastKind()) {
        case CK_LValueToRValue: case CK_NoOp: case CK_DerivedToBase: case CK_UncheckedDerivedToBase:
        case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr: case CK_ConstructorConversion:
        case CK_UserDefinedConversion: case CK_BaseToDerived: case CK_Dynamic: case CK_LValueBitCast: {
          if (X->getCastKind() == CK_LValueBitCast) return opaque(E, "lvalue bit cast");
          Value V = expr(X->getSubExpr());
          if (isa<ExplicitCastExpr>(X) && X->getType()->isRValueReferenceType()) return V;
          return V;
        }
        case CK_ArrayToPointerDecay: { Array A = mk("decay", E); A.push_back(expr(X->getSubExpr())); return Value(std::move(A)); }
        case CK_IntegralCast: case CK_IntegralToBoolean: case CK_PointerToBoolean: case CK_FloatingToIntegral:
        case CK_IntegralToFloating: case CK_BooleanToSignedIntegral: case CK_FloatingCast: {
          Array A = mk("cast", E); A.push_back("int"); A.push_back(expr(X->getSubExpr())); return Value(std::move(A)); }
        case CK_BitCast: { Array A = mk("cast", E); A.push_back("bit"); A.push_back(expr(X->getSubExpr())); return Value(std::move(A)); }
        case CK_ToVoid: { Array A = mk("cast", E); A.push_back("void"); A.push_back(expr(X->getSubExpr())); return Value(std::move(A)); }
        case CK_NullToPointer: return Value(mk("null", E));
        default: { Array A = mk("cast", E); A.push_back(X->getCastKindName()); A.push_back(expr(X->getSubExpr())); return Value(std::move(A)); }
      }
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      if (X->isIncrementDecrementOp()) {
        Array A = mk("incdec", E);
        A.push_back(UnaryOperator::getOpcodeStr(X->getOpcode()).str());
        A.push_back(X->isPrefix());
        A.push_back(expr(X->getSubExpr()));
        return Value(std::move(A));
      }
      const char *K = X->getOpcode() == UO_Deref ? "deref" : X->getOpcode() == UO_AddrOf ? "addr" : "un";
      Array A = mk(K, E);
      if (*K == 'u') A.push_back(UnaryOperator::getOpcodeStr(X->getOpcode()).str());
      A.push_back(expr(X->getSubExpr()));
      return Value(std::move(A));
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      Array A = mk("opassign", E);
      A.push_back(BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(X->getOpcode())).str());
      A.push_back(expr(X->getLHS()));
      A.push_back(expr(X->getRHS()));
      A.push_back(typeId(X->getComputationResultType()));
      return Value(std::move(A));
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      const char *K = X->getOpcode() == BO_Assign ? "assign" : "bin";
      Array A = mk(K, E);
      if (*K == 'b') A.push_back(X->getOpcodeStr().str());
      A.push_back(expr(X->getLHS()));
      A.push_back(expr(X->getRHS()));
      return Value(std::move(A));
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      Array A = mk("cond", E);
      A.push_back(expr(X->getCond()));
      A.push_back(expr(X->getTrueExpr()));
      A.push_back(expr(X->getFalseExpr()));
      return Value(std::move(A));
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      Array A = mk("idx", E);
      A.push_back(expr(X->getBase()));
      A.push_back(expr(X->getIdx()));
      return Value(std::move(A));
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto *F = X->getDirectCallee();
      if (!F) return opaque(E, "operator");
      if (auto *M = dyn_cast<CXXMethodDecl>(F); M && !M->isStatic()) {
        Array A = mk("mcall", E);
        A.push_back(fnRef(F));
        A.push_back(expr(X->getArg(0)));
        Array As;
        for (unsigned I = 1; I < X->getNumArgs(); ++I) As.push_back(expr(X->getArg(I)));
        A.push_back(std::move(As));
        A.push_back(false);
        return Value(std::move(A));
      }
      Array A = mk("call", E);
      A.push_back(fnRef(F));
      A.push_back(args(X->arguments()));
      return Value(std::move(A));
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      auto *M = X->getMethodDecl();
      if (!M) return opaque(E, "member pointer call");
      auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens());
      Array A = mk("mcall", E);
      A.push_back(fnRef(M));
      Value B = expr(X->getImplicitObjectArgument());
      if (ME && ME->isArrow()) {
        Array D{"deref", line(E->getExprLoc()), typeId(X->getImplicitObjectArgument()->getType()->getPointeeType())};
        D.push_back(std::move(B));
        B = Value(std::move(D));
      }
      A.push_back(std::move(B));
      A.push_back(args(X->arguments()));
      A.push_back(M->isVirtual() && !(ME && ME->hasQualifier()));  // dynamic dispatch
      return Value(std::move(A));
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      if (auto *F = X->getDirectCallee()) {
        Array A = mk("call", E);
        A.push_back(fnRef(F));
        A.push_back(args(X->arguments()));
        return Value(std::move(A));
      }
      Array A = mk("icall", E);
      A.push_back(expr(X->getCallee()));
      A.push_back(args(X->arguments()));
      return Value(std::move(A));
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      Array A = mk("ctor", E);
      A.push_back(fnRef(X->getConstructor()));
      Array As;
      for (auto *Y : X->arguments()) As.push_back(expr(Y));
      A.push_back(std::move(As));
      if (X->isListInitialization()) A.push_back("list");
      return Value(std::move(A));
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) return opaque(E, "inherited ctor");
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      Array A = mk("initlist", E);
      Array As;
      for (auto *Y : X->inits()) As.push_back(expr(Y));
      A.push_back(std::move(As));
      A.push_back(X->hasArrayFiller() ? expr(X->getArrayFiller()) : Value(nullptr));
      return Value(std::move(A));
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      Array A = mk("lambda", E);
      needRecord(X->getLambdaClass());
      A.push_back(recName(X->getLambdaClass()));
      Array Ci;
      for (auto *I : X->capture_inits()) Ci.push_back(I ? expr(I) : Value(nullptr));
      A.push_back(std::move(Ci));
      need(X->getCallOperator());
      return Value(std::move(A));
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      Array A = mk("throw", E);
      A.push_back(expr(X->getSubExpr()));
      return Value(std::move(A));
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      Array A = mk("new", E);
      A.push_back(typeId(X->getAllocatedType()));
      A.push_back(X->isArray() && X->getArraySize() ? expr(*X->getArraySize()) : Value(nullptr));
      A.push_back(X->getInitializer() ? expr(X->getInitializer()) : X->getConstructExpr() ? expr(X->getConstructExpr()) : Value(nullptr));
      return Value(std::move(A));
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      Array A = mk("delete", E);
      A.push_back(expr(X->getArgument()));
      return Value(std::move(A));
    }
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) return expr(X->getCommonExpr()->getSourceExpr());
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) return X->getSourceExpr() ? expr(X->getSourceExpr()) : opaque(E, "ov");
    if (isa<FloatingLiteral>(E)) return opaque(E, "float");
    if (isa<PredefinedExpr>(E)) return Value(Array{"str", line(E->getExprLoc()), typeId(E->getType()), "?"});
    if (isa<StmtExpr>(E)) {
      Array A = mk("stmtexpr", E);
      A.push_back(stmt(cast<StmtExpr>(E)->getSubStmt()));
      return Value(std::move(A));
    }
    if (auto *X = dyn_cast<CXXFoldExpr>(E)) return opaque(E, "fold");
    return opaque(E, E->getStmtClassName());
  }
};

class V : public RecursiveASTVisitor<V> {
 public:
  Lower &L;
  V(Lower &L) : L(L) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *FD) {
    if (!FD->doesThisDeclarationHaveABody() || FD->isDependentContext()) return true;
    if (!L.inRoots(FD->getLocation())) return true;
    L.need(FD);
    return true;
  }
};

class Cons : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Lower L(C);
    V(L).TraverseDecl(C.getTranslationUnitDecl());
    while (!L.Queue.empty()) {
      auto *F = L.Queue.back();
      L.Queue.pop_back();
      L.emitFn(F);
    }
    Object O;
    O["functions"] = std::move(L.Functions);
    O["records"] = std::move(L.Records);
    O["globals"] = std::move(L.Globals);
    O["types"] = std::move(L.Types);
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    OS << Value(std::move(O));
  }
};
class Act : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};
struct Fac : tooling::FrontendActionFactory {
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); }
};
}  // namespace

int main(int argc, const char **argv) {
  std::string Err;
  int N = argc;
  auto DB = tooling::FixedCompilationDatabase::loadFromCommandLine(N, argv, Err);
  if (!DB || N < 4) { llvm::errs() << "usage: lower OUT FILE ROOTS -- flags " << Err << "\n"; return 2; }
  OutPath = argv[1];
  std::string R = argv[3], Cur;
  for (char ch : R + ",") if (ch == ',') { if (!Cur.empty()) Roots.push_back(Cur); Cur.clear(); } else Cur += ch;
  tooling::ClangTool T(*DB, {std::string(argv[2])});
  Fac F;
  return T.run(&F);
}
