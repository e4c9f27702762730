// lpx: mechanical extractor.  Parses one C++ translation unit with clang and
// prints, as JSON, the bodies of every function that belongs to the project
// (files under --root, or under --also), including implicit members, template
// instantiations and lambdas, with every overload, conversion and template
// argument already resolved by clang's semantic analysis.
// Nothing is rewritten: the output is the typed AST of the code that is built.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;     // user code lives here
static std::vector<std::string> Excluded;  // except here (generated schemas)

struct Emitter {
  ASTContext &C;
  SourceManager &SM;
  std::map<const void *, int> TypeIds;
  std::vector<json::Value> Types;
  std::map<const Decl *, int> FnIds;
  std::vector<const FunctionDecl *> Fns;
  std::deque<const FunctionDecl *> Work;
  std::map<const Decl *, int> DeclIds;
  std::map<const CXXRecordDecl *, int> LambdaIds;
  std::set<const CXXRecordDecl *> Recs;
  std::vector<const CXXRecordDecl *> RecOrder;
  Emitter(ASTContext &C) : C(C), SM(C.getSourceManager()) {}

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    return P.isValid() ? std::string(P.getFilename()) : std::string();
  }
  int lineOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    return P.isValid() ? (int)P.getLine() : 0;
  }
  std::map<FileID, bool> UserFile;
  bool userLoc(SourceLocation L) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    FileID F = SM.getFileID(L);
    auto It = UserFile.find(F);
    if (It != UserFile.end()) return It->second;
    std::string N = fileOf(L);
    bool U = false;
    for (auto &R : Roots) if (N.rfind(R, 0) == 0) U = true;
    for (auto &R : Excluded) if (N.find(R) != std::string::npos) U = false;
    UserFile[F] = U;
    return U;
  }
  bool isUser(const Decl *D) {
    if (!D) return false;
    SourceLocation L = D->getLocation();
    if (L.isInvalid()) if (auto *DC = dyn_cast_or_null<Decl>(D->getDeclContext())) L = DC->getLocation();
    if (userLoc(L)) return true;
    return false;
  }
  int declId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = DeclIds.find(D);
    if (It != DeclIds.end()) return It->second;
    int N = DeclIds.size() + 1;
    DeclIds[D] = N;
    return N;
  }
  std::string qname(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    PrintingPolicy PP(C.getLangOpts());
    PP.SuppressUnwrittenScope = true;
    PP.adjustForCPlusPlus();
    D->printQualifiedName(OS, PP);
    OS.flush();
    for (const char *Ns : {"__cxx11::", "_V2::"}) {
      size_t P;
      while ((P = S.find(Ns)) != std::string::npos) S.erase(P, strlen(Ns));
    }
    return S;
  }
  std::string typeStr(QualType T) {
    PrintingPolicy PP(C.getLangOpts());
    PP.adjustForCPlusPlus();
    PP.SuppressUnwrittenScope = true;
    std::string S = T.getCanonicalType().getAsString(PP);
    size_t P;
    while ((P = S.find("__cxx11::")) != std::string::npos) S.erase(P, 9);
    const std::string BS = "std::basic_string<char>";
    while ((P = S.find(BS)) != std::string::npos) S.replace(P, BS.size(), "std::string");
    return S;
  }
  json::Value targ(const TemplateArgument &A) {
    switch (A.getKind()) {
    case TemplateArgument::Type: return typeId(A.getAsType());
    case TemplateArgument::Integral: return json::Object{{"v", A.getAsIntegral().getExtValue()}};
    case TemplateArgument::Pack: {
      json::Array R;
      for (auto &E : A.pack_elements()) R.push_back(targ(E));
      return json::Object{{"pack", std::move(R)}};
    }
    default: return json::Object{{"other", true}};
    }
  }
  void noteRec(const CXXRecordDecl *R) {
    if (!R) return;
    if (auto *Def = R->getDefinition()) R = Def;
    if (Recs.insert(R).second) RecOrder.push_back(R);
  }
  int typeId(QualType QT) {
    if (QT.isNull()) return -1;
    QualType CT = QT.getCanonicalType();
    const void *Key = CT.getAsOpaquePtr();
    auto It = TypeIds.find(Key);
    if (It != TypeIds.end()) return It->second;
    int Id = Types.size();
    TypeIds[Key] = Id;
    Types.push_back(nullptr);
    json::Object O;
    O["s"] = typeStr(CT);
    if (CT.isConstQualified()) O["const"] = true;
    const Type *T = CT.getTypePtr();
    if (auto *BT = dyn_cast<BuiltinType>(T)) {
      if (BT->getKind() == BuiltinType::Bool) O["k"] = "bool";
      else if (BT->isInteger()) {
        O["k"] = "int"; O["w"] = (int)C.getTypeSize(CT); O["sg"] = BT->isSignedInteger();
        O["char"] = BT->isAnyCharacterType();
      }
      else if (BT->isFloatingPoint()) { O["k"] = "float"; O["w"] = (int)C.getTypeSize(CT); }
      else if (BT->getKind() == BuiltinType::Void) O["k"] = "void";
      else if (BT->getKind() == BuiltinType::NullPtr) O["k"] = "nullptr";
      else O["k"] = "other";
    } else if (auto *ET = dyn_cast<EnumType>(T)) {
      O["k"] = "enum"; O["n"] = qname(ET->getDecl());
      QualType IT = ET->getDecl()->getIntegerType();
      O["w"] = IT.isNull() ? 32 : (int)C.getTypeSize(IT);
      O["sg"] = IT.isNull() ? true : IT->isSignedIntegerType();
      json::Object EC;
      for (auto *E : ET->getDecl()->enumerators()) EC[E->getNameAsString()] = (int64_t)E->getInitVal().getExtValue();
      O["consts"] = std::move(EC);
    } else if (auto *RT = dyn_cast<RecordType>(T)) {
      O["k"] = "rec"; O["n"] = qname(RT->getDecl());
      if (auto *RD = dyn_cast<CXXRecordDecl>(RT->getDecl())) {
        bool U = isUser(RD);
        O["user"] = U;
        if (RD->isLambda()) { O["k"] = "lambda"; O["user"] = false; O["decl"] = declId(RD); }
        else if (U) noteRec(RD);
        if (auto *SD = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
          json::Array A;
          for (auto &X : SD->getTemplateArgs().asArray()) A.push_back(targ(X));
          O["a"] = std::move(A);
        }
      }
    } else if (auto *PT = dyn_cast<PointerType>(T)) {
      O["k"] = "ptr"; O["to"] = typeId(PT->getPointeeType());
    } else if (auto *RfT = dyn_cast<ReferenceType>(T)) {
      O["k"] = "ref"; O["to"] = typeId(RfT->getPointeeType()); O["rv"] = isa<RValueReferenceType>(RfT);
    } else if (auto *AT = dyn_cast<ConstantArrayType>(T)) {
      O["k"] = "arr"; O["to"] = typeId(AT->getElementType()); O["n"] = (int64_t)AT->getSize().getZExtValue();
    } else if (isa<FunctionType>(T)) O["k"] = "fn";
    else O["k"] = "other";
    Types[Id] = std::move(O);
    return Id;
  }

  int fnId(const FunctionDecl *F) {
    const Decl *K = F->getCanonicalDecl();
    auto It = FnIds.find(K);
    if (It != FnIds.end()) return It->second;
    int N = Fns.size();
    FnIds[K] = N;
    Fns.push_back(F);
    if (isUserFn(F)) Work.push_back(F);
    return N;
  }
  bool isUserFn(const FunctionDecl *F) {
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->getParent()->isLambda()) return userLoc(M->getParent()->getLocation());
      return isUser(M->getParent()) || isUser(M);
    }
    return isUser(F);
  }

  static const Expr *strip(const Expr *E) {
    while (true) {
      if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if (auto *X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
      else if (auto *B = dyn_cast<CXXBindTemporaryExpr>(E)) E = B->getSubExpr();
      else if (auto *K = dyn_cast<ConstantExpr>(E)) E = K->getSubExpr();
      else if (auto *S = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = S->getReplacement();
      else if (auto *D = dyn_cast<CXXDefaultArgExpr>(E)) E = D->getExpr();
      else if (auto *D = dyn_cast<CXXDefaultInitExpr>(E)) E = D->getExpr();
      else if (auto *I = dyn_cast<ImplicitCastExpr>(E)) {
        if (I->getCastKind() == CK_NoOp) E = I->getSubExpr(); else break;
      } else break;
    }
    return E;
  }
  json::Array exprs(ArrayRef<const Expr *> Es) {
    json::Array A;
    for (auto *E : Es) A.push_back(expr(E));
    return A;
  }
  // The constructor that std::make_shared / emplace / construct finally runs.
  const CXXConstructExpr *findConstruct(const FunctionDecl *F, const CXXRecordDecl *Target, int Depth, std::set<const FunctionDecl *> &Seen, int &NP) {
    if (!F || Depth > 14) return nullptr;
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def) || !Def) return nullptr;
    if (!Seen.insert(Def).second) return nullptr;
    struct V : RecursiveASTVisitor<V> {
      const CXXRecordDecl *T; const CXXConstructExpr *Found = nullptr;
      std::vector<const FunctionDecl *> Callees;
      bool shouldVisitImplicitCode() const { return true; }
      bool VisitCXXNewExpr(CXXNewExpr *N) {
        if (auto *CE = N->getConstructExpr())
          if (CE->getConstructor()->getParent()->getCanonicalDecl() == T->getCanonicalDecl()) Found = CE;
        return true;
      }
      bool VisitCallExpr(CallExpr *CE) { if (auto *D = CE->getDirectCallee()) Callees.push_back(D); return true; }
      bool VisitCXXConstructExpr(CXXConstructExpr *CE) { Callees.push_back(CE->getConstructor()); return true; }
    } Vis;
    Vis.T = Target;
    Vis.TraverseStmt(Def->getBody());
    if (auto *CD = dyn_cast<CXXConstructorDecl>(Def)) for (auto *I : CD->inits()) Vis.TraverseStmt(I->getInit());
    if (Vis.Found) { NP = (int)Def->getNumParams(); return Vis.Found; }
    for (auto *D : Vis.Callees) {
      if (isUserFn(D)) continue;
      if (auto *R = findConstruct(D, Target, Depth + 1, Seen, NP)) return R;
    }
    return nullptr;
  }
  json::Value varDecl(const VarDecl *V) {
    json::Object O;
    O["d"] = declId(V); O["n"] = V->getNameAsString(); O["t"] = typeId(V->getType());
    O["l"] = lineOf(V->getLocation());
    if (V->isStaticLocal()) { O["static"] = true; if (V->getTLSKind() != VarDecl::TLS_None) O["tls"] = true; }
    if (auto *I = V->getInit()) O["init"] = expr(I);
    return O;
  }
  json::Value unsupported(const char *What, const Stmt *S) {
    json::Object O; O["k"] = "unsup"; O["what"] = std::string(What) + ":" + S->getStmtClassName(); O["l"] = lineOf(S->getBeginLoc());
    return O;
  }
  json::Value expr(const Expr *E0) {
    const Expr *E = strip(E0);
    json::Object O;
    O["t"] = typeId(E->getType());
    O["l"] = lineOf(E->getBeginLoc());
    if (E->isGLValue()) O["lv"] = true;
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      auto *D = X->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { O["k"] = "fref"; O["fn"] = fnId(F); return O; }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { O["k"] = "int"; O["v"] = EC->getInitVal().getExtValue(); O["en"] = qname(EC); return O; }
      O["k"] = "ref"; O["d"] = declId(D); O["n"] = D->getNameAsString();
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage() && !V->isStaticLocal()) {
          O["global"] = (V->getTLSKind() != VarDecl::TLS_None ? "tls:" : "") + qname(V);
          const VarDecl *DefV = nullptr;
          if (auto *I = V->getAnyInitializer(DefV)) { if (V->getType().isConstQualified()) O["ginit"] = expr(I); else if (DefV && isUser(DefV)) O["gdef"] = expr(I); }
        }
      }
      return O;
    }
    if (isa<CXXThisExpr>(E)) { O["k"] = "this"; return O; }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      auto *D = X->getMemberDecl();
      if (auto *F = dyn_cast<FieldDecl>(D)) {
        O["k"] = "mem"; O["b"] = expr(X->getBase()); O["n"] = F->getNameAsString(); O["arrow"] = X->isArrow();
        noteRecIfUser(F->getParent());
        O["cls"] = typeStr(C.getRecordType(F->getParent()));
        return O;
      }
      if (auto *V = dyn_cast<VarDecl>(D)) { O["k"] = "ref"; O["d"] = declId(V); O["n"] = V->getNameAsString(); O["global"] = (V->getTLSKind() != VarDecl::TLS_None ? "tls:" : "") + qname(V); return O; }
      return unsupported("member", E);
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      auto *M = X->getMethodDecl();
      if (!M) return unsupported("memptr", E);
      auto *ME = dyn_cast<MemberExpr>(strip(X->getCallee()));
      O["k"] = "mcall"; O["fn"] = fnId(M);
      O["obj"] = expr(X->getImplicitObjectArgument());
      O["arrow"] = ME ? ME->isArrow() : false;
      if (M->isVirtual() && ME && !ME->hasQualifier()) O["virt"] = true;
      json::Array A;
      for (auto *Arg : X->arguments()) A.push_back(expr(Arg));
      O["args"] = std::move(A);
      addCtor(O, M, X->getType());
      return O;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto *F = X->getDirectCallee();
      if (!F) return unsupported("opcall", E);
      O["k"] = "opcall"; O["op"] = getOperatorSpelling(X->getOperator()); O["fn"] = fnId(F);
      json::Array A;
      for (auto *Arg : X->arguments()) A.push_back(expr(Arg));
      O["args"] = std::move(A);
      O["member"] = isa<CXXMethodDecl>(F);
      return O;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      auto *F = X->getDirectCallee();
      json::Array A;
      if (F) { O["k"] = "call"; O["fn"] = fnId(F); }
      else { O["k"] = "icall"; O["f"] = expr(X->getCallee()); }
      for (auto *Arg : X->arguments()) A.push_back(expr(Arg));
      O["args"] = std::move(A);
      if (F) addCtor(O, F, X->getType());
      return O;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      O["k"] = "construct"; O["fn"] = fnId(X->getConstructor());
      O["elide"] = X->isElidable();
      O["zero"] = X->requiresZeroInitialization();
      O["ilist"] = X->isStdInitListInitialization();
      json::Array A;
      for (auto *Arg : X->arguments()) A.push_back(expr(Arg));
      O["args"] = std::move(A);
      noteRecIfUser(X->getConstructor()->getParent());
      return O;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { (void)X; return unsupported("inhctor", E); }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      O["k"] = "int"; llvm::SmallString<32> S; X->getValue().toString(S, 10, X->getType()->isSignedIntegerType()); O["vs"] = std::string(S); return O;
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { O["k"] = "bool"; O["v"] = X->getValue(); return O; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { O["k"] = "int"; O["v"] = (int64_t)X->getValue(); return O; }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { O["k"] = "float"; O["v"] = X->getValueAsApproximateDouble(); return O; }
    if (auto *X = dyn_cast<clang::StringLiteral>(E)) {
      O["k"] = "str"; json::Array B; 
      if (X->getCharByteWidth() == 1) for (unsigned char c : X->getString()) B.push_back((int)c);
      O["v"] = std::move(B); return O;
    }
    if (isa<PredefinedExpr>(E)) { O["k"] = "str"; O["v"] = json::Array(); return O; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { O["k"] = "null"; return O; }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      O["k"] = "un"; O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); O["post"] = X->isPostfix(); O["e"] = expr(X->getSubExpr()); return O;
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      O["k"] = "cassign"; O["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(X->getOpcode())).str();
      O["ct"] = typeId(X->getComputationResultType());
      O["a"] = expr(X->getLHS()); O["b"] = expr(X->getRHS()); return O;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      O["k"] = X->getOpcode() == BO_Assign ? "assign" : "bin";
      O["op"] = X->getOpcodeStr().str(); O["a"] = expr(X->getLHS()); O["b"] = expr(X->getRHS()); return O;
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      O["k"] = "cond"; O["c"] = expr(X->getCond()); O["a"] = expr(X->getTrueExpr()); O["b"] = expr(X->getFalseExpr()); return O;
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      O["k"] = "cast"; O["ck"] = X->getCastKindName(); O["e"] = expr(X->getSubExpr());
      if (isa<CXXDynamicCastExpr>(X)) O["dyn"] = true;
      if (auto *FD = X->getConversionFunction()) if (auto *FF = dyn_cast<FunctionDecl>(FD)) O["conv"] = fnId(FF);
      return O;
    }
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { O["k"] = "mtemp"; O["e"] = expr(X->getSubExpr()); return O; }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      O["k"] = "lambda"; O["fn"] = fnId(X->getCallOperator()); O["decl"] = declId(X->getLambdaClass());
      json::Array Caps;
      auto InitIt = X->capture_init_begin();
      for (auto &Cp : X->captures()) {
        json::Object CO;
        if (Cp.capturesThis()) { CO["this"] = true; if (Cp.getCaptureKind() == LCK_StarThis) CO["copy"] = true; }
        else if (Cp.capturesVariable()) {
          auto *V = Cp.getCapturedVar();
          CO["d"] = declId(V); CO["n"] = V->getNameAsString();
          CO["byref"] = Cp.getCaptureKind() == LCK_ByRef;
          CO["t"] = typeId(V->getType());
          if (*InitIt) CO["init"] = expr(*InitIt);
        }
        ++InitIt;
        Caps.push_back(std::move(CO));
      }
      O["caps"] = std::move(Caps);
      return O;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (X->isTransparent()) return expr(X->getInit(0));
      O["k"] = "ilist"; json::Array A; for (auto *I : X->inits()) A.push_back(expr(I)); O["args"] = std::move(A);
      if (X->hasArrayFiller()) O["filler"] = true;
      return O;
    }
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { O["k"] = "stdilist"; O["e"] = expr(X->getSubExpr()); return O; }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { O["k"] = "sub"; O["a"] = expr(X->getBase()); O["b"] = expr(X->getIdx()); return O; }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R;
      if (X->EvaluateAsInt(R, C)) { O["k"] = "int"; O["v"] = R.Val.getInt().getExtValue(); return O; }
      return unsupported("sizeof", E);
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) { O["k"] = "zero"; return O; }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      O["k"] = "new"; O["of"] = typeId(X->getAllocatedType());
      if (X->isArray() && X->getArraySize() && *X->getArraySize()) O["size"] = expr(*X->getArraySize());
      if (X->getNumPlacementArgs()) return unsupported("placement", E);
      if (X->getInitializer()) O["init"] = expr(X->getInitializer());
      return O;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { O["k"] = "delete"; O["arr"] = X->isArrayForm(); O["e"] = expr(X->getArgument()); return O; }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { O["k"] = "throw"; if (X->getSubExpr()) O["e"] = expr(X->getSubExpr()); return O; }
    if (auto *X = dyn_cast<StmtExpr>(E)) { O["k"] = "stmtexpr"; O["body"] = stmt(X->getSubStmt()); return O; }
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (X->getSourceExpr()) return expr(X->getSourceExpr()); }
    return unsupported("expr", E);
  }
  void noteRecIfUser(const RecordDecl *R) {
    if (auto *X = dyn_cast<CXXRecordDecl>(R)) if (isUser(X) && !X->isLambda()) { noteRec(X); typeId(C.getRecordType(X)); }
  }
  void addCtor(json::Object &O, const FunctionDecl *F, QualType Ret) {
    if (isUserFn(F) || !F->isTemplateInstantiation()) return;
    std::string N = F->getNameAsString();
    const CXXRecordDecl *Target = nullptr;
    if (N == "make_shared" || N == "make_unique") {
      if (auto *FS = F->getTemplateSpecializationArgs()) if (FS->size() && FS->get(0).getKind() == TemplateArgument::Type)
        Target = FS->get(0).getAsType()->getAsCXXRecordDecl();
    } else if (N.rfind("emplace", 0) == 0) {
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (auto *SD = dyn_cast<ClassTemplateSpecializationDecl>(M->getParent()))
        if (SD->getTemplateArgs().size() && SD->getTemplateArgs()[0].getKind() == TemplateArgument::Type)
          Target = SD->getTemplateArgs()[0].getAsType()->getAsCXXRecordDecl();
    }
    if (!Target) return;
    if (!isUser(Target)) return;
    noteRec(Target);
    std::set<const FunctionDecl *> Seen;
    int NP = 0;
    if (auto *CE = findConstruct(F, Target, 0, Seen, NP)) {
      O["ctornp"] = NP;
      O["ctor"] = fnId(CE->getConstructor());
      // default arguments and implicit conversions made inside the library
      json::Array A;
      int NArgs = CE->getNumArgs();
      O["ctornargs"] = NArgs;
      for (int i = 0; i < NArgs; ++i) A.push_back(json::Value(convChain(CE->getArg(i))));
      O["ctorargs"] = std::move(A);
    }
  }
  // how make_shared's forwarded argument reaches the constructor parameter
  json::Value convChain(const Expr *E) {
    json::Object O;
    const Expr *S = strip(E);
    if (auto *M = dyn_cast<MaterializeTemporaryExpr>(S)) return convChain(M->getSubExpr());
    if (isa<CXXDefaultArgExpr>(E)) { O["k"] = "default"; O["e"] = expr(E); return O; }
    if (auto *CE = dyn_cast<CXXConstructExpr>(S)) {
      O["k"] = "construct"; O["fn"] = fnId(CE->getConstructor()); O["t"] = typeId(CE->getType());
      json::Array A; for (auto *X : CE->arguments()) { if (isa<CXXDefaultArgExpr>(X)) continue; A.push_back(convChain(X)); } O["args"] = std::move(A);
      return O;
    }
    if (auto *CE = dyn_cast<CastExpr>(S)) {
      O["k"] = "cast"; O["ck"] = CE->getCastKindName(); O["t"] = typeId(CE->getType()); O["e"] = convChain(CE->getSubExpr());
      if (auto *FD = CE->getConversionFunction()) if (auto *FF = dyn_cast<FunctionDecl>(FD)) O["conv"] = fnId(FF);
      return O;
    }
    if (auto *CE = dyn_cast<CallExpr>(S)) {
      if (auto *D = CE->getDirectCallee()) if (D->getNameAsString() == "forward" || D->getNameAsString() == "move") {
        const Expr *A0 = strip(CE->getArg(0));
        if (auto *DR = dyn_cast<DeclRefExpr>(A0)) if (auto *PV = dyn_cast<ParmVarDecl>(DR->getDecl())) { O["k"] = "fwd"; O["i"] = (int)PV->getFunctionScopeIndex(); return O; }
      }
    }
    O["k"] = "opaque";
    return O;
  }
  json::Value stmt(const Stmt *S) {
    json::Object O;
    if (!S) return nullptr;
    O["l"] = lineOf(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      O["k"] = "block"; O["le"] = lineOf(S->getEndLoc()); json::Array A; for (auto *B : X->body()) A.push_back(stmt(B)); O["b"] = std::move(A); return O;
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      O["k"] = "decl"; json::Array A;
      for (auto *D : X->decls()) {
        if (auto *V = dyn_cast<DecompositionDecl>(D)) {
          json::Object DO = *varDecl(V).getAsObject();
          json::Array Bs;
          for (auto *B : V->bindings()) { json::Object BO; BO["d"] = declId(B); BO["n"] = B->getNameAsString(); if (B->getHoldingVar()) BO["hold"] = varDecl(B->getHoldingVar()); else if (B->getBinding()) BO["e"] = expr(B->getBinding()); Bs.push_back(std::move(BO)); }
          DO["bindings"] = std::move(Bs); A.push_back(std::move(DO));
        }
        else if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(varDecl(V));
      }
      O["v"] = std::move(A); return O;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      O["k"] = "if";
      if (X->getInit()) O["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) O["var"] = varDecl(X->getConditionVariable());
      O["c"] = expr(X->getCond()); O["a"] = stmt(X->getThen()); if (X->getElse()) O["b"] = stmt(X->getElse()); return O;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) { O["k"] = "while"; if (X->getConditionVariable()) O["var"] = varDecl(X->getConditionVariable()); O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<DoStmt>(S)) { O["k"] = "do"; O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      O["k"] = "for"; if (X->getInit()) O["init"] = stmt(X->getInit()); if (X->getConditionVariable()) return unsupported("forvar", S);
      if (X->getCond()) O["c"] = expr(X->getCond()); if (X->getInc()) O["inc"] = expr(X->getInc()); O["b"] = stmt(X->getBody()); return O;
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      O["k"] = "rangefor";
      O["range"] = stmt(X->getRangeStmt()); O["begin"] = stmt(X->getBeginStmt()); O["end"] = stmt(X->getEndStmt());
      O["c"] = expr(X->getCond()); O["inc"] = expr(X->getInc()); O["var"] = stmt(X->getLoopVarStmt()); O["b"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) { O["k"] = "switch"; if (X->getConditionVariable()) O["var"] = varDecl(X->getConditionVariable()); if (X->getInit()) O["init"] = stmt(X->getInit()); O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      O["k"] = "case"; Expr::EvalResult R;
      if (X->getLHS()->EvaluateAsInt(R, C)) O["v"] = R.Val.getInt().getExtValue(); else return unsupported("case", S);
      if (X->getRHS()) return unsupported("caserange", S);
      O["b"] = stmt(X->getSubStmt()); return O;
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { O["k"] = "default"; O["b"] = stmt(X->getSubStmt()); return O; }
    if (isa<BreakStmt>(S)) { O["k"] = "break"; return O; }
    if (isa<ContinueStmt>(S)) { O["k"] = "continue"; return O; }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { O["k"] = "return"; if (X->getRetValue()) O["e"] = expr(X->getRetValue()); return O; }
    if (isa<NullStmt>(S)) { O["k"] = "block"; O["b"] = json::Array(); return O; }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      O["k"] = "try"; O["b"] = stmt(X->getTryBlock()); json::Array A;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
        auto *H = X->getHandler(i); json::Object HO;
        if (H->getExceptionDecl()) { HO["d"] = declId(H->getExceptionDecl()); HO["n"] = H->getExceptionDecl()->getNameAsString(); HO["t"] = typeId(H->getCaughtType()); }
        HO["b"] = stmt(H->getHandlerBlock()); A.push_back(std::move(HO));
      }
      O["h"] = std::move(A); return O;
    }
    if (auto *X = dyn_cast<Expr>(S)) { O["k"] = "expr"; O["e"] = expr(X); return O; }
    return unsupported("stmt", S);
  }
  json::Value fnHeader(const FunctionDecl *F, int Id) {
    json::Object O;
    O["id"] = Id; O["q"] = qname(F); O["n"] = F->getNameAsString();
    O["ret"] = typeId(F->getReturnType());
    json::Array P; for (auto *A : F->parameters()) P.push_back(typeId(A->getType())); O["ptypes"] = std::move(P);
    O["user"] = isUserFn(F);
    O["file"] = fileOf(F->getLocation()); O["line"] = lineOf(F->getLocation());
    if (F->isVariadic()) O["variadic"] = true;
    if (auto *TA = F->getTemplateSpecializationArgs()) { json::Array A; for (auto &X : TA->asArray()) A.push_back(targ(X)); O["targs"] = std::move(A); }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = typeStr(C.getRecordType(M->getParent())); O["clst"] = typeId(C.getRecordType(M->getParent()));
      if (M->isStatic()) O["static"] = true;
      if (M->isVirtual()) O["virtual"] = true;
      if (M->isPureVirtual()) O["pure"] = true;
      if (M->isConst()) O["cmeth"] = true;
      if (M->isCopyAssignmentOperator()) O["copyassign"] = true;
      if (M->isMoveAssignmentOperator()) O["moveassign"] = true;
      if (M->getParent()->isLambda()) O["lambda"] = declId(M->getParent());
      json::Array Ov; for (auto *B : M->overridden_methods()) Ov.push_back(fnId(B)); if (!Ov.empty()) O["overrides"] = std::move(Ov);
      if (!M->isStatic() && M->getParent() && !M->getParent()->isLambda()) {
        if (M->isVirtual()) O["virtual"] = true;
      }
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      O["ctor"] = true; if (K->isCopyConstructor()) O["copyctor"] = true; if (K->isMoveConstructor()) O["movector"] = true; if (K->isDefaultConstructor()) O["defctor"] = true;
    }
    if (isa<CXXDestructorDecl>(F)) O["dtor"] = true;
    if (isa<CXXConversionDecl>(F)) O["convfn"] = true;
    O["implicit"] = F->isImplicit() || F->isDefaulted();
    return O;
  }
  json::Value fnBody(const FunctionDecl *F0, int Id) {
    const FunctionDecl *F = nullptr;
    if (!F0->hasBody(F) || !F) { json::Object O; O["nobody"] = true; return O; }
    json::Object O;
    json::Array P;
    for (auto *A : F->parameters()) { json::Object PO; PO["d"] = declId(A); PO["n"] = A->getNameAsString(); PO["t"] = typeId(A->getType()); P.push_back(std::move(PO)); }
    O["params"] = std::move(P);
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      json::Array I;
      for (auto *X : K->inits()) {
        json::Object IO;
        if (X->isMemberInitializer()) { IO["f"] = X->getMember()->getNameAsString(); IO["cls"] = typeStr(C.getRecordType(X->getMember()->getParent())); IO["ft"] = typeId(X->getMember()->getType()); }
        else if (X->isBaseInitializer()) IO["base"] = typeId(QualType(X->getBaseClass(), 0));
        else if (X->isDelegatingInitializer()) IO["deleg"] = true;
        IO["e"] = expr(X->getInit()); IO["written"] = X->isWritten();
        I.push_back(std::move(IO));
      }
      O["inits"] = std::move(I);
    }
    O["bfile"] = fileOf(F->getLocation()); O["bline"] = lineOf(F->getLocation());
    O["body"] = stmt(F->getBody());
    return O;
  }
  json::Value rec(const CXXRecordDecl *R) {
    json::Object O;
    QualType T = C.getRecordType(R);
    O["n"] = typeStr(T); O["t"] = typeId(T);
    if (!R->hasDefinition()) return O;
    json::Array B; for (auto &X : R->bases()) B.push_back(typeId(X.getType())); O["bases"] = std::move(B);
    json::Array F; for (auto *X : R->fields()) { json::Object FO; FO["n"] = X->getNameAsString(); FO["t"] = typeId(X->getType()); if (X->hasInClassInitializer() && X->getInClassInitializer()) FO["init"] = expr(X->getInClassInitializer()); F.push_back(std::move(FO)); } O["fields"] = std::move(F);
    json::Array M;
    for (auto *X : R->methods()) { M.push_back(fnId(X)); }
    for (auto *D : R->decls()) if (auto *FT = dyn_cast<FunctionTemplateDecl>(D)) for (auto *Sp : FT->specializations()) M.push_back(fnId(Sp));
    O["methods"] = std::move(M);
    O["poly"] = R->isPolymorphic();
    return O;
  }
  struct Collect : RecursiveASTVisitor<Collect> {
    Emitter &E; Collect(Emitter &E) : E(E) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *F) {
      if (F->isDependentContext() || F->isTemplated() ) { if (!F->isTemplateInstantiation()) { if (F->getDescribedFunctionTemplate() || F->isDependentContext()) return true; } }
      if (E.isUserFn(F)) E.fnId(F);
      return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
      if (R->isDependentContext() || R->isLambda()) return true;
      if (E.isUser(R) && R->hasDefinition()) { E.noteRec(R); }
      return true;
    }
  };
  void run(llvm::raw_ostream &OS) {
    Collect V(*this);
    V.TraverseDecl(C.getTranslationUnitDecl());
    std::map<int, json::Value> Bodies;
    size_t RecDone = 0;
    json::Array RecsOut;
    while (!Work.empty() || RecDone < RecOrder.size()) {
      while (!Work.empty()) { auto *F = Work.front(); Work.pop_front(); int Id = fnId(F); Bodies.emplace(Id, fnBody(F, Id)); }
      while (RecDone < RecOrder.size()) RecsOut.push_back(rec(RecOrder[RecDone++]));
    }
    json::Array FO;
    for (size_t i = 0; i < Fns.size(); ++i) {
      json::Value H = fnHeader(Fns[i], i);
      auto It = Bodies.find(i);
      if (It != Bodies.end()) { auto *HO = H.getAsObject(); for (auto &KV : *It->second.getAsObject()) (*HO)[KV.first] = std::move(KV.second); }
      FO.push_back(std::move(H));
    }
    // headers may have queued more work (overridden methods): bodies not needed there
    json::Array TA; for (auto &T : Types) TA.push_back(std::move(T));
    json::Object Top; Top["types"] = std::move(TA); Top["fns"] = std::move(FO); Top["recs"] = std::move(RecsOut);
    OS << json::Value(std::move(Top)) << "\n";
  }
};
struct Consumer : ASTConsumer {
  std::string Out;
  Consumer(std::string O) : Out(std::move(O)) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    std::error_code EC; llvm::raw_fd_ostream OS(Out, EC);
    Emitter E(C); E.run(OS);
  }
};
static std::string OutFile;
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(OutFile); }
};
struct Factory : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); } };
// usage: lpx OUT.json SRC --root=DIR [--root=DIR] [--exclude=SUBSTR] -- compiler flags
int main(int argc, char **argv) {
  if (argc < 3) return 2;
  OutFile = argv[1];
  std::string Src = argv[2];
  std::vector<std::string> Flags;
  bool After = false;
  for (int i = 3; i < argc; ++i) {
    std::string A = argv[i];
    if (After) Flags.push_back(A);
    else if (A == "--") After = true;
    else if (A.rfind("--root=", 0) == 0) Roots.push_back(A.substr(7));
    else if (A.rfind("--exclude=", 0) == 0) Excluded.push_back(A.substr(10));
  }
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {Src});
  Factory F;
  return Tool.run(&F);
}
