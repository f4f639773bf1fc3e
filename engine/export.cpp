// Exports the resolved syntax tree of /repo's own functions as JSON, one file per translation unit.
// The Python analyses in /verif/checks read this; nothing of the program under analysis is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string g_root;   // only declarations in files under this prefix are exported
static std::string g_out;

namespace {
struct Exporter : RecursiveASTVisitor<Exporter> {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  Object funcs, records, enums, globals;
  std::set<std::string> doneFuncs;
  std::map<const Decl *, std::string> ids;
  std::map<std::string, int> localCount;
  std::string curFn;
  int localSeq = 0;
  explicit Exporter(ASTContext &Ctx) : C(Ctx), SM(Ctx.getSourceManager()), PP(Ctx.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressScope = false;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L, false);
    return P.isValid() ? std::string(P.getFilename()) : std::string();
  }
  unsigned lineOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return L.isValid() ? SM.getSpellingLineNumber(L) : 0;
  }
  static bool norm(std::string &f) {
    llvm::SmallString<256> s(f);
    llvm::sys::path::remove_dots(s, true);
    f = std::string(s.str());
    return true;
  }
  bool inRoot(SourceLocation L) {
    std::string f = fileOf(L); norm(f);
    return f.rfind(g_root, 0) == 0 && f.find("basic_thrid_libs") == std::string::npos;
  }
  std::string relFile(SourceLocation L) {
    std::string f = fileOf(L); norm(f);
    if (f.rfind(g_root, 0) == 0) return f.substr(g_root.size());
    return f;
  }
  Object tinfo;
  // canonical spelling of a type; its layout facts go to the "types" table once
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    QualType Q = T.getCanonicalType();
    std::string s = Q.getAsString(PP);
    if (!tinfo.get(s) && !Q->isPlaceholderType() && !Q->isInstantiationDependentType() && !Q->isDependentType() && !Q->isUndeducedType()) {
      Object o;
      QualType N = Q.getNonReferenceType();
      auto size = [&](QualType X) -> int64_t { if (X->isPlaceholderType() || X->isInstantiationDependentType() || X->isIncompleteType() || X->isFunctionType() || X->isDependentType() || X->isSizelessType()) return X->isVoidType() ? 1 : -1; return C.getTypeSizeInChars(X).getQuantity(); };
      if (N->isFunctionType()) { o["fun"] = 1; }
      else {
        o["s"] = size(N);
        if (N->isPointerType()) { o["p"] = N->getPointeeType().getCanonicalType().getAsString(PP); o["ps"] = size(N->getPointeeType()); if (N->getPointeeType().isConstQualified()) o["pc"] = 1; }
        if (auto *A = C.getAsArrayType(N)) { o["e"] = A->getElementType().getCanonicalType().getAsString(PP); o["es"] = size(A->getElementType()); if (auto *CA = dyn_cast<ConstantArrayType>(A)) o["n"] = (int64_t)CA->getSize().getZExtValue(); }
        if (N->isRecordType()) { o["rec"] = 1; if (auto *R = N->getAsCXXRecordDecl()) o["rn"] = recName(R); }
        if (N->isIntegralOrEnumerationType() && !N->isIncompleteType()) { o["int"] = N->isUnsignedIntegerOrEnumerationType() ? "u" : "s"; o["bits"] = (int64_t)C.getIntWidth(N->isEnumeralType() ? N->castAs<EnumType>()->getDecl()->getIntegerType() : N); }
        if (N->isFloatingType()) o["flt"] = 1;
      }
      if (Q->isReferenceType()) { o["ref"] = 1; if (N.isConstQualified()) o["rc"] = 1; o["nr"] = N.getCanonicalType().getUnqualifiedType().getAsString(PP); if (Q->isRValueReferenceType()) o["rv"] = 1; }
      if (Q.isConstQualified()) { o["cq"] = 1; }
      if (Q.hasQualifiers()) o["uq"] = Q.getUnqualifiedType().getAsString(PP);
      tinfo[s] = std::move(o);
    }
    return s;
  }
  // stable id of a declaration
  std::string idOf(const Decl *D) {
    if (!D) return "";
    D = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    std::string r;
    if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->isLocalVarDeclOrParm() ) {
        r = "L" + std::to_string(localSeq++) + ":" + V->getNameAsString();
        ids[D] = r; return r;
      }
    }
    if (auto *FD = dyn_cast<FunctionDecl>(D)) { r = fnId(FD); ids[D] = r; return r; }
    if (auto *F = dyn_cast<FieldDecl>(D)) {
      std::string s; llvm::raw_string_ostream os(s);
      F->getParent()->getNameForDiagnostic(os, PP, true);
      r = os.str() + "::" + F->getNameAsString(); ids[D] = r; return r;
    }
    if (auto *ND = dyn_cast<NamedDecl>(D)) {
      std::string s; llvm::raw_string_ostream os(s);
      ND->getNameForDiagnostic(os, PP, true);
      r = os.str();
      if (auto *V = dyn_cast<VarDecl>(D)) if (V->getStorageClass() == SC_Static && !V->isStaticDataMember()) r = relFile(V->getLocation()) + "::" + r;
    }
    ids[D] = r;
    return r;
  }
  std::string fnId(const FunctionDecl *F) {
    std::string s; llvm::raw_string_ostream os(s);
    F->getNameForDiagnostic(os, PP, true);
    os << "(";
    bool first = true;
    for (auto *P : F->parameters()) { if (!first) os << ","; first = false; os << ty(P->getType()); }
    os << ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) os << " const";
    std::string r = os.str();
    if (F->getStorageClass() == SC_Static && !isa<CXXMethodDecl>(F)) r = relFile(F->getLocation()) + "::" + r;
    return r;
  }
  std::string recName(const RecordDecl *R) {
    std::string s; llvm::raw_string_ostream os(s);
    R->getNameForDiagnostic(os, PP, true);
    return os.str();
  }

  std::string macroOf(SourceLocation L) {
    if (!L.isMacroID()) return "";
    // outermost macro whose expansion contains L
    SourceLocation X = L; std::string name;
    while (X.isMacroID()) {
      if (SM.isMacroArgExpansion(X)) { X = SM.getImmediateExpansionRange(X).getBegin(); if (X.isMacroID()) continue; else return name.empty() ? "@arg" : name; }
      name = Lexer_name(X);
      X = SM.getImmediateExpansionRange(X).getBegin();
    }
    return name;
  }
  std::string Lexer_name(SourceLocation L) {
    SourceLocation E = SM.getImmediateExpansionRange(L).getBegin();
    SourceLocation S = SM.getSpellingLoc(E);
    bool inv = false;
    const char *p = SM.getCharacterData(S, &inv);
    std::string r;
    while (!inv && p && (isalnum((unsigned char)*p) || *p == '_')) r += *p++;
    return r;
  }

  Value ex(const Stmt *S) {
    if (!S) return nullptr;
    // transparent nodes
    if (auto *X = dyn_cast<ParenExpr>(S)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<ConstantExpr>(S)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<ExprWithCleanups>(S)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(S)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(S)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) return ex(X->getReplacement());
    if (auto *X = dyn_cast<AttributedStmt>(S)) return ex(X->getSubStmt());
    if (auto *X = dyn_cast<CapturedStmt>(S)) return ex(X->getCapturedStmt());
    if (auto *X = dyn_cast<OMPCanonicalLoop>(S)) return ex(X->getLoopStmt());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(S)) return ex(X->getExpr());
    if (auto *X = dyn_cast<ImplicitCastExpr>(S)) {
      auto K = X->getCastKind();
      Value v = ex(X->getSubExpr());
      if (K == CK_LValueToRValue) { if (auto *o = v.getAsObject()) (*o)["r"] = 1; return v; }
      if (K == CK_NoOp || K == CK_FunctionToPointerDecay || K == CK_BuiltinFnToFnPtr) return v;
      if (K == CK_ArrayToPointerDecay) { if (auto *o = v.getAsObject()) (*o)["dec"] = 1; return v; }
      if (K == CK_ConstructorConversion) return v;
      Object o; o["k"] = "ICast"; o["ck"] = X->getCastKindName(); o["t"] = ty(X->getType()); o["l"] = (int64_t)lineOf(X->getBeginLoc());
      addCV(o, X);
      o["c"] = Array{std::move(v)};
      return std::move(o);
    }
    Object o;
    o["l"] = (int64_t)lineOf(S->getBeginLoc());
    if (S->getBeginLoc().isMacroID()) { auto m = macroOf(S->getBeginLoc()); if (!m.empty()) o["mc"] = m; }
    Array c;
    auto kids = [&]() { for (auto *ch : S->children()) c.push_back(ex(ch)); };
    std::string k = S->getStmtClassName();
    if (auto *E = dyn_cast<Expr>(S)) { o["t"] = ty(E->getType()); if (E->isLValue()) o["lv"] = 1; }

    if (auto *X = dyn_cast<DeclRefExpr>(S)) {
      k = "Ref"; const ValueDecl *D = X->getDecl();
      o["n"] = D->getNameAsString(); o["d"] = idOf(D);
      if (isa<ParmVarDecl>(D)) o["dk"] = "parm";
      else if (auto *V = dyn_cast<VarDecl>(D)) { o["dk"] = V->isStaticLocal() ? "slocal" : V->isLocalVarDecl() ? "local" : "global"; if (!V->isLocalVarDecl()) noteGlobal(V); }
      else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { o["dk"] = "enum"; o["cv"] = EC->getInitVal().getExtValue(); if (auto *ED = dyn_cast<EnumDecl>(EC->getDeclContext())) o["en"] = idOf(ED); }
      else if (isa<FunctionDecl>(D)) o["dk"] = "func";
      else o["dk"] = "other";
      if (D->getType()->isReferenceType()) o["ref"] = 1;
    } else if (auto *X = dyn_cast<MemberExpr>(S)) {
      k = "Member"; o["n"] = X->getMemberDecl()->getNameAsString(); o["d"] = idOf(X->getMemberDecl());
      if (X->isArrow()) o["ar"] = 1;
      if (isa<CXXMethodDecl>(X->getMemberDecl())) o["meth"] = 1;
      if (X->getMemberDecl()->getType()->isReferenceType()) o["ref"] = 1;
      if (auto *EC = dyn_cast<EnumConstantDecl>(X->getMemberDecl())) o["cv"] = EC->getInitVal().getExtValue();
      if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) { o["sm"] = 1; noteGlobal(V); }
      kids();
    } else if (isa<CXXThisExpr>(S)) { k = "This"; }
    else if (auto *X = dyn_cast<IntegerLiteral>(S)) {
      k = "Int"; llvm::SmallString<32> s; X->getValue().toString(s, 10, X->getType()->isSignedIntegerType());
      int64_t v; if (!llvm::StringRef(s).getAsInteger(10, v)) o["v"] = v; else o["vs"] = s.str();
    } else if (auto *X = dyn_cast<CharacterLiteral>(S)) { k = "Int"; o["v"] = (int64_t)X->getValue(); o["ch"] = 1; }
    else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(S)) { k = "Int"; o["v"] = X->getValue() ? 1 : 0; o["bool"] = 1; }
    else if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) { k = "Int"; o["v"] = 0; o["null"] = 1; }
    else if (auto *X = dyn_cast<FloatingLiteral>(S)) { k = "Float"; o["v"] = X->getValueAsApproximateDouble(); }
    else if (auto *X = dyn_cast<clang::StringLiteral>(S)) {
      k = "Str"; std::string s;
      if (X->getCharByteWidth() == 1) s = X->getString().str();
      else for (unsigned i = 0; i < X->getLength(); ++i) { uint32_t u = X->getCodeUnit(i); if (u < 128) s += (char)u; else s += "\\u" + std::to_string(u); }
      if (!llvm::json::isUTF8(s)) s = llvm::json::fixUTF8(s);
      o["v"] = s; o["len"] = (int64_t)X->getLength();
    } else if (auto *X = dyn_cast<BinaryOperator>(S)) {
      k = isa<CompoundAssignOperator>(S) ? "CAssign" : (X->isAssignmentOp() ? "Assign" : "Bin");
      o["op"] = X->getOpcodeStr().str();
      c.push_back(ex(X->getLHS())); c.push_back(ex(X->getRHS()));
      addCV(o, X);
    } else if (auto *X = dyn_cast<UnaryOperator>(S)) {
      k = "Un"; o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); if (X->isPostfix()) o["post"] = 1; kids(); addCV(o, X);
    } else if (isa<ArraySubscriptExpr>(S)) {
      auto *X = cast<ArraySubscriptExpr>(S); k = "Index"; c.push_back(ex(X->getBase())); c.push_back(ex(X->getIdx()));
    } else if (isa<ConditionalOperator>(S)) { auto *X = cast<ConditionalOperator>(S); k = "Cond"; c.push_back(ex(X->getCond())); c.push_back(ex(X->getTrueExpr())); c.push_back(ex(X->getFalseExpr())); addCV(o, X); }
    else if (auto *X = dyn_cast<ExplicitCastExpr>(S)) {
      k = "Cast"; o["ck"] = X->getCastKindName(); o["style"] = S->getStmtClassName(); c.push_back(ex(X->getSubExpr())); addCV(o, X);
    } else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      k = "SizeOf"; if (X->isArgumentType()) o["at"] = ty(X->getArgumentType()); else { o["at"] = ty(X->getArgumentExpr()->getType()); }
      addCV(o, X);
    } else if (auto *X = dyn_cast<CXXOperatorCallExpr>(S)) {
      k = "OpCall"; o["op"] = std::string(getOperatorSpelling(X->getOperator()));
      if (auto *F = X->getDirectCallee()) { o["f"] = idOf(F); o["fn"] = F->getNameAsString(); o["meth"] = isa<CXXMethodDecl>(F) ? 1 : 0; noteExt(F); }
      for (auto *a : X->arguments()) c.push_back(ex(a));
    } else if (auto *X = dyn_cast<CXXMemberCallExpr>(S)) {
      k = "MCall"; auto *F = X->getMethodDecl();
      if (F) { o["f"] = idOf(F); o["fn"] = F->getNameAsString(); o["cls"] = recName(F->getParent()); if (F->isConst()) o["cm"] = 1; if (F->isVirtual()) o["virt"] = 1; noteExt(F); if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) { if (ME->hasQualifier()) o["qual"] = 1; if (ME->isArrow()) o["ar"] = 1; } }
      c.push_back(ex(X->getImplicitObjectArgument()));
      for (auto *a : X->arguments()) c.push_back(ex(a));
    } else if (auto *X = dyn_cast<CallExpr>(S)) {
      k = "Call";
      if (auto *F = X->getDirectCallee()) { o["f"] = idOf(F); o["fn"] = F->getNameAsString(); noteExt(F); if (auto *M = dyn_cast<CXXMethodDecl>(F)) o["cls"] = recName(M->getParent()); }
      else o["callee"] = ex(X->getCallee());
      for (auto *a : X->arguments()) c.push_back(ex(a));
      addCV(o, X);
    } else if (auto *X = dyn_cast<CXXConstructExpr>(S)) {
      if (X->isElidable() && X->getNumArgs() == 1) { return ex(X->getArg(0)); }
      k = "New_"; k = "Construct"; auto *F = X->getConstructor(); o["f"] = idOf(F); o["cls"] = recName(F->getParent());
      if (F->isCopyConstructor()) o["copy"] = 1; if (F->isMoveConstructor()) o["move"] = 1; if (isa<CXXTemporaryObjectExpr>(S)) o["tmp"] = 1;
      if (F->isImplicit() || F->isDefaulted()) o["impl"] = 1;
      for (auto *a : X->arguments()) c.push_back(ex(a));
    } else if (auto *X = dyn_cast<CXXDefaultArgExpr>(S)) { o["k"] = "DefArg"; c.push_back(ex(X->getExpr())); o["c"] = std::move(c); addCV(o, X); return std::move(o); }
    else if (auto *X = dyn_cast<CXXNewExpr>(S)) {
      k = "New"; o["at"] = ty(X->getAllocatedType()); if (X->isArray()) { o["arr"] = 1; c.push_back(X->getArraySize() ? ex(*X->getArraySize()) : Value(nullptr)); } else c.push_back(nullptr);
      if (X->getNumPlacementArgs()) o["place"] = 1;
      c.push_back(X->getInitializer() ? ex(X->getInitializer()) : Value(nullptr));
      for (unsigned i = 0; i < X->getNumPlacementArgs(); ++i) c.push_back(ex(X->getPlacementArg(i)));
    } else if (auto *X = dyn_cast<CXXDeleteExpr>(S)) { k = "Delete"; if (X->isArrayForm()) o["arr"] = 1; c.push_back(ex(X->getArgument())); }
    else if (auto *X = dyn_cast<DeclStmt>(S)) {
      k = "Decl";
      for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) c.push_back(var(V));
    } else if (auto *X = dyn_cast<IfStmt>(S)) {
      k = "If"; c.push_back(ex(X->getCond())); c.push_back(ex(X->getThen())); c.push_back(ex(X->getElse()));
      if (X->getInit()) o["init"] = ex(X->getInit()); if (X->getConditionVariable()) o["cvar"] = var(X->getConditionVariable());
    } else if (auto *X = dyn_cast<ForStmt>(S)) { k = "For"; c.push_back(ex(X->getInit())); c.push_back(ex(X->getCond())); c.push_back(ex(X->getInc())); c.push_back(ex(X->getBody())); }
    else if (auto *X = dyn_cast<WhileStmt>(S)) { k = "While"; c.push_back(ex(X->getCond())); c.push_back(ex(X->getBody())); }
    else if (auto *X = dyn_cast<DoStmt>(S)) { k = "Do"; c.push_back(ex(X->getBody())); c.push_back(ex(X->getCond())); }
    else if (auto *X = dyn_cast<SwitchStmt>(S)) { k = "Switch"; c.push_back(ex(X->getCond())); c.push_back(ex(X->getBody())); if (X->isAllEnumCasesCovered()) o["allenum"] = 1; }
    else if (auto *X = dyn_cast<CaseStmt>(S)) { k = "Case"; c.push_back(ex(X->getLHS())); if (X->getRHS()) o["range"] = 1; c.push_back(ex(X->getSubStmt())); }
    else if (auto *X = dyn_cast<DefaultStmt>(S)) { k = "Default"; c.push_back(ex(X->getSubStmt())); }
    else if (auto *X = dyn_cast<ReturnStmt>(S)) { k = "Return"; if (X->getRetValue()) c.push_back(ex(X->getRetValue())); }
    else if (isa<BreakStmt>(S)) k = "Break"; else if (isa<ContinueStmt>(S)) k = "Continue";
    else if (isa<NullStmt>(S)) k = "Null";
    else if (isa<CompoundStmt>(S)) { k = "Block"; kids(); }
    else if (auto *X = dyn_cast<GotoStmt>(S)) { k = "Goto"; o["n"] = X->getLabel()->getNameAsString(); }
    else if (auto *X = dyn_cast<LabelStmt>(S)) { k = "Label"; o["n"] = X->getDecl()->getNameAsString(); c.push_back(ex(X->getSubStmt())); }
    else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      k = "RangeFor"; c.push_back(var(X->getLoopVariable())); c.push_back(ex(X->getRangeInit())); c.push_back(ex(X->getBody()));
    } else if (auto *X = dyn_cast<LambdaExpr>(S)) {
      k = "Lambda"; Array ps; for (auto *P : X->getCallOperator()->parameters()) ps.push_back(var(P)); o["params"] = std::move(ps);
      Array caps; for (auto &cp : X->captures()) { Object co; co["byref"] = cp.getCaptureKind() == LCK_ByRef ? 1 : 0; if (cp.capturesVariable()) { co["d"] = idOf(cp.getCapturedVar()); } else co["this"] = 1; caps.push_back(std::move(co)); }
      o["caps"] = std::move(caps);
      c.push_back(ex(X->getBody()));
    } else if (auto *X = dyn_cast<OMPExecutableDirective>(S)) {
      k = "OMP"; o["dir"] = llvm::omp::getOpenMPDirectiveName(X->getDirectiveKind()).str();
      Array cl;
      for (auto *K : X->clauses()) {
        Object co; co["k"] = llvm::omp::getOpenMPClauseName(K->getClauseKind()).str();
        if (K->isImplicit()) co["implicit"] = 1;
        Array vs; for (auto *ch : K->children()) if (ch) vs.push_back(ex(ch)); co["c"] = std::move(vs);
        cl.push_back(std::move(co));
      }
      o["clauses"] = std::move(cl);
      if (X->hasAssociatedStmt()) c.push_back(ex(X->getInnermostCapturedStmt()->getCapturedStmt()));
    } else if (auto *X = dyn_cast<InitListExpr>(S)) {
      k = "InitList"; if (X->isSemanticForm() || !X->getSemanticForm()) kids(); else return ex(X->getSemanticForm());
      if (X->hasArrayFiller()) o["filler"] = 1;
    } else if (isa<ImplicitValueInitExpr>(S) || isa<CXXScalarValueInitExpr>(S)) { k = "ZeroInit"; }
    else if (auto *X = dyn_cast<CXXThrowExpr>(S)) { k = "Throw"; kids(); (void)X; }
    else { o["raw"] = 1; kids(); if (auto *X = dyn_cast<CXXDependentScopeMemberExpr>(S)) { o["n"] = X->getMember().getAsString(); } }
    o["k"] = k;
    if (!c.empty()) o["c"] = std::move(c);
    return std::move(o);
  }
  void addCV(Object &o, const Expr *E) {
    if (E->isValueDependent() || E->isTypeDependent()) return;
    if (!E->getType()->isIntegralOrEnumerationType()) return;
    Expr::EvalResult R;
    if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
      auto &I = R.Val.getInt();
      if (I.getSignificantBits() <= 64) o["cv"] = I.isUnsigned() ? (int64_t)I.getZExtValue() : I.getExtValue();
    }
  }
  Object var(const VarDecl *V) {
    Object o; o["k"] = "Var"; o["n"] = V->getNameAsString(); o["d"] = idOf(V); o["t"] = ty(V->getType()); o["l"] = (int64_t)lineOf(V->getLocation());
    if (V->isStaticLocal()) o["static"] = 1;
    if (V->getType()->isReferenceType()) o["ref"] = 1;
    if (V->hasInit() && !isa<ParmVarDecl>(V)) { o["c"] = Array{ex(V->getInit())}; if (V->getInitStyle() == VarDecl::CallInit) o["ci"] = 1; }
    return o;
  }
  void noteExt(const FunctionDecl *) {}
  void noteGlobal(const VarDecl *V0) {
    if (V0->isLocalVarDecl()) return;
    std::string id = idOf(V0);
    if (globals.get(id)) return;
    if (!inRoot(V0->getLocation())) return;
    globals[id] = nullptr;
    const VarDecl *Def = V0->getDefinition(); const Expr *I = V0->getAnyInitializer(Def ? Def : V0);
    const VarDecl *V = Def ? Def : V0; (void)I;
    if (V->isTemplated()) return;
    Object o = var(V); o["file"] = relFile(V->getLocation());
    if (const VarDecl *ID = nullptr; const Expr *E = V0->getAnyInitializer(ID)) { if (!V->hasInit()) o["c"] = Array{ex(E)}; }
    o["def"] = Def ? 1 : 0; o["sm"] = V->isStaticDataMember() ? 1 : 0;
    globals[id] = std::move(o);
  }

  void doFunc(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() && !F->isPureVirtual()) return;
    if (!inRoot(F->getLocation())) return;
    bool dep = F->isDependentContext();
    std::string id = fnId(F);
    if (dep) id = "<T>" + id + "@" + std::to_string(lineOf(F->getLocation()));
    if (doneFuncs.count(id)) return;
    doneFuncs.insert(id);
    Object o;
    o["name"] = F->getNameAsString(); o["q"] = F->getQualifiedNameAsString(); o["file"] = relFile(F->getLocation()); o["line"] = (int64_t)lineOf(F->getLocation());
    o["ret"] = ty(F->getReturnType());
    if (dep) o["dep"] = 1;
    if (F->isPureVirtual()) o["pure"] = 1;
    if (F->isImplicit() || F->isDefaulted()) o["implicit"] = 1;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = recName(M->getParent());
      if (M->isConst()) o["const"] = 1; if (M->isStatic()) o["static"] = 1; if (M->isVirtual()) o["virt"] = 1;
      Array ov; for (auto *B : M->overridden_methods()) ov.push_back(idOf(B)); if (!ov.empty()) o["over"] = std::move(ov);
      o["access"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      if (isa<CXXConstructorDecl>(M)) o["ctor"] = 1; if (isa<CXXDestructorDecl>(M)) o["dtor"] = 1;
    }
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      Array ta; for (auto &A : TA->asArray()) { std::string s; llvm::raw_string_ostream os(s); if (A.getKind() == TemplateArgument::Type) os << ty(A.getAsType()); else A.print(PP, os, false); ta.push_back(os.str()); }
      o["targs"] = std::move(ta);
    }
    Array ps; for (auto *P : F->parameters()) ps.push_back(var(P)); o["params"] = std::move(ps);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      Array in;
      for (auto *I : CD->inits()) {
        Object io;
        if (I->isMemberInitializer()) { io["m"] = idOf(I->getMember()); io["n"] = I->getMember()->getNameAsString(); }
        else if (I->isBaseInitializer()) io["base"] = ty(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) io["deleg"] = 1;
        io["w"] = I->isWritten() ? 1 : 0;
        io["e"] = ex(I->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    if (F->doesThisDeclarationHaveABody()) o["body"] = ex(F->getBody());
    o["end"] = (int64_t)lineOf(F->getEndLoc());
    funcs[id] = std::move(o);
  }
  bool VisitFunctionDecl(FunctionDecl *F) { doFunc(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || !inRoot(R->getLocation())) return true;
    if (R->isLambda()) return true;
    std::string n = recName(R); if (R->isDependentContext()) n = "<T>" + n;
    if (records.get(n)) return true;
    Object o; o["file"] = relFile(R->getLocation()); o["line"] = (int64_t)lineOf(R->getLocation());
    Array bs; if (!R->isDependentContext()) for (auto &B : R->bases()) bs.push_back(ty(B.getType())); o["bases"] = std::move(bs);
    Array fs; for (auto *F : R->fields()) { Object fo; fo["n"] = F->getNameAsString(); fo["d"] = idOf(F); fo["t"] = ty(F->getType()); fo["l"] = (int64_t)lineOf(F->getLocation()); if (F->hasInClassInitializer()) fo["init"] = 1; if (F->isBitField()) { if(!R->isDependentContext()) fo["bits"] = (int64_t)F->getBitWidthValue(C); } fs.push_back(std::move(fo)); } o["fields"] = std::move(fs);
    Array ms; for (auto *M : R->methods()) { Object mo; mo["n"] = M->getNameAsString(); mo["f"] = idOf(M); if (M->isVirtual()) mo["virt"] = 1; if (M->isPureVirtual()) mo["pure"] = 1; if (M->isImplicit()) mo["impl"] = 1; if (M->isDeleted()) mo["del"] = 1; if (isa<CXXDestructorDecl>(M)) mo["dtor"] = 1; if (auto *CC = dyn_cast<CXXConstructorDecl>(M)) { mo["ctor"] = 1; if (CC->isCopyConstructor()) mo["cpct"] = 1; } mo["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      if (M->isCopyAssignmentOperator()) mo["cpas"] = 1; Array ov; for (auto *B : M->overridden_methods()) ov.push_back(idOf(B)); if (!ov.empty()) mo["over"] = std::move(ov); mo["const"] = M->isConst() ? 1 : 0;
      ms.push_back(std::move(mo)); } o["methods"] = std::move(ms);
    for (auto *D : R->decls()) if (auto *V = dyn_cast<VarDecl>(D)) if (!R->isDependentContext()) noteGlobal(V);
    o["abstract"] = (!R->isDependentContext() && R->isAbstract()) ? 1 : 0;
    records[n] = std::move(o);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !inRoot(E->getLocation())) return true;
    std::string n = idOf(E); if (E->isDependentContext()) return true;
    Object o; o["file"] = relFile(E->getLocation()); o["line"] = (int64_t)lineOf(E->getLocation());
    Array cs; for (auto *K : E->enumerators()) { cs.push_back(Array{K->getNameAsString(), K->getInitVal().getExtValue()}); } o["consts"] = std::move(cs);
    enums[n] = std::move(o); return true;
  }
  bool VisitVarDecl(VarDecl *V) { if (V->isFileVarDecl() && inRoot(V->getLocation()) && !V->getType()->isDependentType() && !V->isTemplated()) noteGlobal(V); return true; }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    Exporter X(C);
    X.TraverseDecl(C.getTranslationUnitDecl());
    Object o; o["funcs"] = std::move(X.funcs); o["records"] = std::move(X.records); o["enums"] = std::move(X.enums); o["globals"] = std::move(X.globals); o["types"] = std::move(X.tinfo);
    o["errors"] = (int64_t)C.getDiagnostics().hasErrorOccurred();
    std::error_code EC; llvm::raw_fd_ostream os(g_out, EC);
    if (EC) { llvm::errs() << EC.message() << "\n"; exit(3); }
    os << Value(std::move(o));
  }
};
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Cons>(); } };
} // namespace

int main(int argc, char **argv) {
  // export ROOT OUT FILE -- flags...
  if (argc < 4) { llvm::errs() << "usage: export ROOT OUT FILE -- flags\n"; return 2; }
  g_root = argv[1]; g_out = argv[2];
  std::string file = argv[3];
  std::vector<std::string> flags; for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {file});
  T.clearArgumentsAdjusters();
  T.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
