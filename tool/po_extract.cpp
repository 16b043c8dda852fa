// po_extract: dumps a resolved, simplified AST of every function whose source
// lies below a given root (and of the records, enums, globals there) as JSON.
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
#include <map>
#include <fstream>
using namespace clang;
namespace J = llvm::json;

static std::string Root, ProbeRoot, OutFile, MainTag;

struct Ex : RecursiveASTVisitor<Ex> {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP; ASTNameGenerator NG;
  J::Array funcs, records, enums, globals; J::Object files;
  std::set<const Decl*> seen;
  std::map<const ValueDecl*, int> ids; int nid = 0;
  Ex(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()), NG(C) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressUnwrittenScope = true;
    PP.SuppressInlineNamespace = true; PP.SuppressDefaultTemplateArgs = true; PP.PrintCanonicalTypes = true;
    PP.AnonymousTagLocations = false;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return true; }

  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!F) return "";
    llvm::SmallString<256> P(F->getName());
    return P.str().str();
  }
  std::string rel(const std::string &f) {
    if (f.compare(0, Root.size(), Root) == 0) return f.substr(Root.size());
    return f;
  }
  bool inRoot(SourceLocation L) { return file(L).compare(0, Root.size(), Root) == 0; }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  std::string ty(QualType T) { return T.isNull() ? "?" : T.getCanonicalType().getAsString(PP); }
  // a member's name, told apart from a member of a base class it hides
  static bool hasField(const CXXRecordDecl *R, StringRef n) {
    for (auto *f : R->fields()) if (f->getName() == n) return true;
    return inBases(R, n);
  }
  static bool inBases(const CXXRecordDecl *R, StringRef n) {
    if (!R->hasDefinition()) return false;
    for (auto &b : R->bases()) if (auto *B = b.getType()->getAsCXXRecordDecl()) if (B->hasDefinition() && hasField(B->getDefinition(), n)) return true;
    return false;
  }
  std::string fname(const NamedDecl *D) {
    std::string n = D->getNameAsString();
    auto *FD = dyn_cast<FieldDecl>(D);
    auto *R = FD && !n.empty() ? dyn_cast<CXXRecordDecl>(FD->getParent()) : nullptr;
    if (R && inRoot(FD->getLocation()) && inBases(R, FD->getName())) return n + "@" + R->getNameAsString();
    return n;
  }
  std::string qn(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream os(s);
    // qualified name without template arguments
    std::vector<std::string> parts;
    const DeclContext *DC = D->getDeclContext();
    auto nm = [&](const NamedDecl *N) -> std::string {
      if (auto *M = dyn_cast<CXXConstructorDecl>(N)) return M->getParent()->getNameAsString();
      if (auto *M = dyn_cast<CXXDestructorDecl>(N)) return "~" + M->getParent()->getNameAsString();
      if (isa<CXXConversionDecl>(N)) return "operator " + ty(cast<CXXConversionDecl>(N)->getConversionType());
      if (auto *R = dyn_cast<CXXRecordDecl>(N)) if (R->isLambda()) return "(lambda)";
      return N->getNameAsString();
    };
    parts.push_back(nm(D));
    while (DC) {
      if (auto *ND = dyn_cast<NamespaceDecl>(DC)) {
        if (ND->isAnonymousNamespace()) parts.push_back("(anon)");
        else if (!ND->isInline()) parts.push_back(ND->getNameAsString());
      } else if (auto *N = dyn_cast<NamedDecl>(DC)) parts.push_back(nm(N));
      DC = DC->getParent();
    }
    for (size_t i = parts.size(); i-- > 0;) { os << parts[i]; if (i) os << "::"; }
    return os.str();
  }
  std::string uid(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    std::string m = NG.getName(F);
    if (m.empty()) m = qn(F) + "@" + std::to_string(line(F->getLocation()));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda())
      m += "@" + rel(file(F->getLocation())) + ":" + std::to_string(SM.getExpansionLineNumber(F->getLocation())) + ":" + std::to_string(SM.getExpansionColumnNumber(F->getLocation()));
    if (!F->isExternallyVisible() && inRoot(F->getLocation())) m += "@" + MainTag;
    return m;
  }
  int vid(const ValueDecl *V) {
    V = cast<ValueDecl>(V->getCanonicalDecl());
    auto it = ids.find(V); if (it != ids.end()) return it->second;
    return ids[V] = ++nid;
  }

  // ---------- expressions
  J::Value ex(const Expr *E) {
    if (!E) return nullptr;
    J::Value v = ex1(E);
    if (auto *o = v.getAsObject()) if (!o->get("l")) (*o)["l"] = line(E->getBeginLoc());
    return v;
  }
  J::Object k(const char *kind) { J::Object o; o["k"] = kind; return o; }
  J::Array args(llvm::ArrayRef<const Expr*> as) { J::Array a; for (auto *e : as) a.push_back(ex(e)); return a; }
  template<class T> J::Array argsOf(T *CE, unsigned from = 0) {
    J::Array a; for (unsigned i = from; i < CE->getNumArgs(); ++i) a.push_back(ex(CE->getArg(i))); return a;
  }
  J::Object fnref(const FunctionDecl *F) {
    J::Object o;
    o["q"] = qn(F); o["u"] = uid(F);
    J::Array pt; for (auto *p : F->parameters()) pt.push_back(ty(p->getType()));
    o["pt"] = std::move(pt);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = ty(C.getRecordType(M->getParent()));
      o["cm"] = M->isConst(); o["st"] = M->isStatic();
    }
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      J::Array t; for (auto &A : TA->asArray()) { std::string s; llvm::raw_string_ostream os(s); A.print(PP, os, true); t.push_back(os.str()); }
      o["ta"] = std::move(t);
    }
    if (inRoot(F->getLocation())) o["in"] = true;
    return o;
  }
  J::Value intv(const llvm::APSInt &I) { return J::Value((int64_t)(I.isUnsigned() ? (int64_t)I.getZExtValue() : I.getSExtValue())); }
  J::Value ex1(const Expr *E) {
    if (auto *P = dyn_cast<ParenExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<FullExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return ex(P->getReplacement());
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) return ex(P->getExpr());
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) return ex(P->getExpr());
    if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<OpaqueValueExpr>(E)) return ex(P->getSourceExpr());
    if (auto *P = dyn_cast<CastExpr>(E)) {
      const Expr *S = P->getSubExpr();
      switch (P->getCastKind()) {
      case CK_IntegralToBoolean: case CK_PointerToBoolean: case CK_FloatingToBoolean: case CK_MemberPointerToBoolean: {
        auto o = k("tobool"); o["e"] = ex(S); o["from"] = ty(S->getType()); return o; }
      case CK_IntegralCast: {
        auto o = k("icast"); o["to"] = ty(P->getType()); o["from"] = ty(S->getType()); o["imp"] = isa<ImplicitCastExpr>(P); o["e"] = ex(S); return o; }
      case CK_NullToPointer: case CK_NullToMemberPointer: { auto o = k("null"); return o; }
      case CK_ReinterpretMemberPointer: case CK_BitCast: case CK_IntegralToPointer: case CK_PointerToIntegral: {
        if (auto *sub = P->getSubExpr(); sub->isNullPointerConstant(C, Expr::NPC_ValueDependentIsNotNull)) return k("null");
        auto o = k("cast"); o["to"] = ty(P->getType()); o["ck"] = P->getCastKindName(); o["e"] = ex(S); return o; }
      case CK_ToVoid: return ex(S);
      case CK_Dynamic: { auto o = k("cast"); o["to"] = ty(P->getType()); o["ck"] = "Dynamic"; o["e"] = ex(S); return o; }
      default:
        if (isa<CXXConstCastExpr>(P)) { auto o = k("cast"); o["to"] = ty(P->getType()); o["ck"] = "const_cast"; o["e"] = ex(S); return o; }
        return ex(S);
      }
    }
    if (auto *P = dyn_cast<IntegerLiteral>(E)) { auto o = k("i"); o["v"] = P->getType()->isUnsignedIntegerType() ? (int64_t)P->getValue().getZExtValue() : P->getValue().getSExtValue(); return o; }
    if (auto *P = dyn_cast<CharacterLiteral>(E)) { auto o = k("ch"); o["v"] = (int64_t)P->getValue(); return o; }
    if (auto *P = dyn_cast<CXXBoolLiteralExpr>(E)) { auto o = k("b"); o["v"] = P->getValue(); return o; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return k("null");
    if (auto *P = dyn_cast<StringLiteral>(E)) {
      auto o = k("s"); std::string s;
      if (P->getCharByteWidth() == 1) s = P->getString().str();
      else for (unsigned i = 0; i < P->getLength(); ++i) s += (char)P->getCodeUnit(i);
      o["v"] = llvm::json::fixUTF8(s); o["w"] = P->getCharByteWidth() != 1; return o; }
    if (isa<PredefinedExpr>(E)) { auto o = k("s"); o["v"] = ""; o["w"] = false; return o; }
    if (auto *P = dyn_cast<FloatingLiteral>(E)) { auto o = k("fl"); o["v"] = P->getValueAsApproximateDouble(); return o; }
    if (auto *P = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = P->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { auto o = k("i"); o["v"] = intv(EC->getInitVal()); o["en"] = qn(EC); return o; }
      if (auto *F = dyn_cast<FunctionDecl>(D)) { auto o = fnref(F); o["k"] = "fn"; return o; }
      if (auto *B = dyn_cast<BindingDecl>(D)) { if (auto *HV = B->getHoldingVar()) { auto o = k("v"); o["id"] = vid(HV); o["n"] = B->getNameAsString(); o["t"] = ty(B->getType()); return o; } return ex(B->getBinding()); }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasLocalStorage()) { auto o = k("v"); o["id"] = vid(V); o["n"] = V->getNameAsString(); o["t"] = ty(V->getType()); return o; }
        // constants with known integral value
        if (V->getType().isConstQualified() && V->getType()->isIntegralOrEnumerationType() && !V->isStaticLocal()) {
          Expr::EvalResult R; if (P->EvaluateAsInt(R, C)) { auto o = k("i"); o["v"] = intv(R.Val.getInt()); o["en"] = qn(V); return o; } }
        auto o = k("g"); o["n"] = qn(V); o["t"] = ty(V->getType()); o["sl"] = V->isStaticLocal(); return o;
      }
      if (auto *TP = dyn_cast<TemplateParamObjectDecl>(D)) { auto o = k("unk"); (void)TP; return o; }
    }
    if (isa<CXXThisExpr>(E)) return k("this");
    if (auto *P = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = P->getMemberDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { auto o = k("i"); o["v"] = intv(EC->getInitVal()); o["en"] = qn(EC); return o; }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        Expr::EvalResult R;
        if (V->getType().isConstQualified() && V->getType()->isIntegralOrEnumerationType() && V->getInit()) { const VarDecl *DV; if (const Expr *I = V->getAnyInitializer(DV)) if (I->EvaluateAsInt(R, C)) { auto o = k("i"); o["v"] = intv(R.Val.getInt()); o["en"] = qn(V); return o; } }
        auto o = k("g"); o["n"] = qn(V); o["t"] = ty(V->getType()); o["sl"] = false; return o; }
      if (auto *F = dyn_cast<FunctionDecl>(D)) { auto o = fnref(F); o["k"] = "bm"; o["o"] = ex(P->getBase()); return o; }
      auto o = k("m"); o["b"] = ex(P->getBase()); o["f"] = fname(D); o["ar"] = P->isArrow(); o["t"] = ty(D->getType());
      if (auto *FD = dyn_cast<FieldDecl>(D)) o["cls"] = qn(FD->getParent());
      return o;
    }
    if (auto *P = dyn_cast<CXXMemberCallExpr>(E)) {
      const CXXMethodDecl *M = P->getMethodDecl();
      const Expr *O = P->getImplicitObjectArgument();
      if (M) {
        auto o = fnref(M); o["k"] = "c";
        o["o"] = ex(O); o["a"] = argsOf(P); o["r"] = ty(P->getType());
        bool arrow = false; if (auto *ME = dyn_cast<MemberExpr>(P->getCallee()->IgnoreParens())) arrow = ME->isArrow();
        o["ar"] = arrow;
        bool virt = M->isVirtual();
        if (virt) if (auto *ME = dyn_cast<MemberExpr>(P->getCallee()->IgnoreParens())) if (ME->hasQualifier()) virt = false;
        if (virt && (M->hasAttr<FinalAttr>() || M->getParent()->hasAttr<FinalAttr>())) virt = false;
        o["virt"] = virt;
        return o;
      }
      auto o = k("ci"); o["f"] = ex(P->getCallee()); o["a"] = argsOf(P); o["mp"] = true; return o;
    }
    if (auto *P = dyn_cast<CXXOperatorCallExpr>(E)) {
      const FunctionDecl *F = P->getDirectCallee();
      if (F) {
        auto o = fnref(F); o["k"] = "c"; o["op"] = getOperatorSpelling(P->getOperator()); o["r"] = ty(P->getType());
        auto *M = dyn_cast<CXXMethodDecl>(F);
        if (M && !M->isStatic()) { o["o"] = ex(P->getArg(0)); o["a"] = argsOf(P, 1); o["virt"] = M->isVirtual(); o["ar"] = false; }
        else o["a"] = argsOf(P);
        if (M && (M->isCopyAssignmentOperator() || M->isMoveAssignmentOperator()) && (M->isDefaulted() || !inRoot(M->getLocation()))) { o["asg"] = true; }
        return o;
      }
    }
    if (auto *P = dyn_cast<CallExpr>(E)) {
      if (const FunctionDecl *F = P->getDirectCallee()) {
        auto o = fnref(F); o["k"] = "c"; o["a"] = argsOf(P); o["r"] = ty(P->getType());
        if (F->isNoReturn()) o["nr"] = true;
        return o;
      }
      auto o = k("ci"); o["f"] = ex(P->getCallee()); o["a"] = argsOf(P); o["r"] = ty(P->getType()); return o;
    }
    if (auto *P = dyn_cast<CXXConstructExpr>(E)) {
      const CXXConstructorDecl *D = P->getConstructor();
      if (D->isCopyOrMoveConstructor() && P->getNumArgs() >= 1) {
        bool derivedSlice = false;
        if (!inRoot(D->getLocation()) || D->isDefaulted() || D->isImplicit() || true) {
          if (P->isElidable()) return ex(P->getArg(0));
          auto o = k("copy"); o["e"] = ex(P->getArg(0)); o["mv"] = D->isMoveConstructor(); o["t"] = ty(P->getType()); (void)derivedSlice;
          if (inRoot(D->getLocation()) && !D->isDefaulted()) o["u"] = uid(D);
          return o;
        }
      }
      auto o = fnref(D); o["k"] = "new"; o["t"] = ty(P->getType()); o["a"] = argsOf(P);
      if (D->isDefaultConstructor() ) o["dc"] = true;
      if (D->isImplicit() || D->isDefaulted()) o["impl"] = true;
      if (P->requiresZeroInitialization()) o["zi"] = true;
      if (isa<CXXTemporaryObjectExpr>(P)) o["tmp"] = true;
      return o;
    }
    if (auto *P = dyn_cast<CXXInheritedCtorInitExpr>(E)) { auto o = k("unk"); o["cls"] = "InheritedCtor"; (void)P; return o; }
    if (auto *P = dyn_cast<CXXNewExpr>(E)) { auto o = k("heap"); o["t"] = ty(P->getAllocatedType()); o["e"] = P->getInitializer() ? ex(P->getInitializer()) : (P->getConstructExpr() ? ex(P->getConstructExpr()) : J::Value(nullptr)); return o; }
    if (auto *P = dyn_cast<CXXDeleteExpr>(E)) { auto o = k("delete"); o["e"] = ex(P->getArgument()); return o; }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) { auto o = k("zero"); o["t"] = ty(E->getType()); return o; }
    if (auto *P = dyn_cast<InitListExpr>(E)) { 
      if (P->isTransparent()) return ex(P->getInit(0));
      auto o = k("il"); o["t"] = ty(P->getType()); J::Array a; for (unsigned i = 0; i < P->getNumInits(); ++i) a.push_back(ex(P->getInit(i))); o["a"] = std::move(a); 
      if (auto *RT = P->getType()->getAs<RecordType>()) { J::Array fs; for (auto *fd : RT->getDecl()->fields()) fs.push_back(fname(fd)); o["fs"] = std::move(fs); }
      return o; }
    if (auto *P = dyn_cast<LambdaExpr>(E)) {
      auto o = k("lam"); o["u"] = uid(P->getCallOperator()); J::Array caps;
      auto *CE = P->getLambdaClass();
      unsigned i = 0;
      for (auto &cap : P->captures()) {
        J::Object c; if (cap.capturesThis()) c["this"] = true;
        else if (cap.capturesVariable()) { c["id"] = vid(cap.getCapturedVar()); c["n"] = cap.getCapturedVar()->getNameAsString(); c["ref"] = cap.getCaptureKind() == LCK_ByRef;
          if (auto *VD = dyn_cast<VarDecl>(cap.getCapturedVar())) if (VD->isInitCapture()) c["init"] = ex(VD->getInit()); }
        (void)i; (void)CE;
        caps.push_back(std::move(c)); }
      o["cap"] = std::move(caps);
      J::Array ov; // generic lambda: no single operator
      addFunc(P->getCallOperator());
      return o;
    }
    if (auto *P = dyn_cast<UnaryOperator>(E)) {
      auto o = k("u"); o["op"] = UnaryOperator::getOpcodeStr(P->getOpcode()).str();
      if (P->isPostfix()) o["post"] = true;
      if (P->getOpcode() == UO_AddrOf) if (auto *DR = dyn_cast<DeclRefExpr>(P->getSubExpr()->IgnoreParens())) {
        if (auto *F = dyn_cast<FunctionDecl>(DR->getDecl())) { auto r = fnref(F); r["k"] = "fn"; return r; }
        if (auto *FD = dyn_cast<FieldDecl>(DR->getDecl())) { auto r = k("pf"); r["f"] = fname(FD); r["cls"] = qn(FD->getParent()); return r; }
      }
      o["e"] = ex(P->getSubExpr()); o["t"] = ty(P->getType()); return o; }
    if (auto *P = dyn_cast<CompoundAssignOperator>(E)) { auto o = k("ca"); o["op"] = BinaryOperator::getOpcodeStr(P->getOpcode()).drop_back().str(); o["a"] = ex(P->getLHS()); o["b"] = ex(P->getRHS()); o["t"] = ty(P->getType()); return o; }
    if (auto *P = dyn_cast<BinaryOperator>(E)) { auto o = k("bi"); o["op"] = P->getOpcodeStr().str(); o["a"] = ex(P->getLHS()); o["b"] = ex(P->getRHS()); o["t"] = ty(P->getType()); o["lt"] = ty(P->getLHS()->getType()); return o; }
    if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) return ex(P->getSemanticForm());
    if (auto *P = dyn_cast<ConditionalOperator>(E)) { auto o = k("cond"); o["c"] = ex(P->getCond()); o["a"] = ex(P->getTrueExpr()); o["b"] = ex(P->getFalseExpr()); return o; }
    if (auto *P = dyn_cast<ArraySubscriptExpr>(E)) { auto o = k("idx"); o["a"] = ex(P->getBase()); o["b"] = ex(P->getIdx()); return o; }
    if (auto *P = dyn_cast<CXXThrowExpr>(E)) { auto o = k("throw"); o["e"] = P->getSubExpr() ? ex(P->getSubExpr()) : J::Value(nullptr); if (P->getSubExpr()) o["t"] = ty(P->getSubExpr()->getType()); return o; }
    if (isa<UnaryExprOrTypeTraitExpr>(E) || isa<TypeTraitExpr>(E) || isa<CXXNoexceptExpr>(E) || isa<SizeOfPackExpr>(E)) {
      Expr::EvalResult R; if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) { auto o = k("i"); o["v"] = intv(R.Val.getInt()); return o; } }
    if (auto *P = dyn_cast<ArrayInitLoopExpr>(E)) { return ex(P->getCommonExpr()); }
    if (auto *P = dyn_cast<CXXTypeidExpr>(E)) { auto o = k("typeid"); if (P->isTypeOperand()) o["ty"] = ty(P->getTypeOperand(C)); else o["e"] = ex(P->getExprOperand()); return o; }
    auto o = k("unk"); o["cls"] = E->getStmtClassName();
    J::Array ch; for (auto *c : E->children()) if (auto *ce = dyn_cast_or_null<Expr>(c)) ch.push_back(ex(ce));
    o["ch"] = std::move(ch); return o;
  }

  // ---------- statements
  J::Object s(const char *kind, const Stmt *S) { J::Object o; o["s"] = kind; o["l"] = line(S->getBeginLoc()); return o; }
  J::Object var(const VarDecl *V) {
    J::Object o; o["id"] = vid(V); o["n"] = V->getNameAsString(); o["t"] = ty(V->getType());
    o["ref"] = V->getType()->isReferenceType();
    if (V->isStaticLocal()) { o["static"] = qn(V); }
    if (V->getInit()) o["init"] = ex(V->getInit());
    else if (V->getType()->isScalarType() || V->getType()->isArrayType()) o["uninit"] = true;
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) { J::Array bs; for (auto *b : DD->bindings()) if (auto *hv = b->getHoldingVar()) bs.push_back(var(hv)); o["bind"] = std::move(bs); }
    return o;
  }
  J::Value st(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *P = dyn_cast<CompoundStmt>(S)) { auto o = s("blk", S); J::Array a; for (auto *c : P->body()) a.push_back(st(c)); o["b"] = std::move(a); return o; }
    if (auto *P = dyn_cast<DeclStmt>(S)) { auto o = s("decl", S); J::Array a; for (auto *d : P->decls()) if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(var(v)); o["v"] = std::move(a); return o; }
    if (auto *P = dyn_cast<IfStmt>(S)) { auto o = s("if", S); if (P->getInit()) o["init"] = st(P->getInit()); if (P->getConditionVariableDeclStmt()) o["cv"] = st(P->getConditionVariableDeclStmt()); o["c"] = ex(P->getCond()); 
      if (P->isConstexpr()) { Expr::EvalResult R; if (!P->getCond()->isValueDependent() && P->getCond()->EvaluateAsInt(R, C)) { auto c = k("b"); c["v"] = R.Val.getInt().getBoolValue(); o["c"] = std::move(c); } }
      o["t"] = st(P->getThen()); o["e"] = st(P->getElse()); return o; }
    if (auto *P = dyn_cast<ForStmt>(S)) { auto o = s("for", S); o["init"] = st(P->getInit()); if (P->getConditionVariableDeclStmt()) o["cv"] = st(P->getConditionVariableDeclStmt()); o["c"] = ex(P->getCond()); o["inc"] = ex(P->getInc()); o["b"] = st(P->getBody()); return o; }
    if (auto *P = dyn_cast<WhileStmt>(S)) { auto o = s("while", S); if (P->getConditionVariableDeclStmt()) o["cv"] = st(P->getConditionVariableDeclStmt()); o["c"] = ex(P->getCond()); o["b"] = st(P->getBody()); return o; }
    if (auto *P = dyn_cast<DoStmt>(S)) { auto o = s("do", S); o["c"] = ex(P->getCond()); o["b"] = st(P->getBody()); return o; }
    if (auto *P = dyn_cast<CXXForRangeStmt>(S)) { auto o = s("rfor", S); if (P->getInit()) o["init"] = st(P->getInit()); o["range"] = ex(P->getRangeInit()); o["rt"] = ty(P->getRangeInit()->getType()); 
      J::Object vo = var(P->getLoopVariable()); o["v"] = std::move(vo); o["b"] = st(P->getBody()); return o; }
    if (auto *P = dyn_cast<ReturnStmt>(S)) { auto o = s("ret", S); o["e"] = ex(P->getRetValue()); return o; }
    if (isa<BreakStmt>(S)) return s("break", S);
    if (isa<ContinueStmt>(S)) return s("continue", S);
    if (isa<NullStmt>(S)) return s("null", S);
    if (auto *P = dyn_cast<SwitchStmt>(S)) { auto o = s("switch", S); if (P->getInit()) o["init"] = st(P->getInit()); if (P->getConditionVariableDeclStmt()) o["cv"] = st(P->getConditionVariableDeclStmt()); o["c"] = ex(P->getCond()); o["b"] = st(P->getBody()); o["ct"] = ty(P->getCond()->IgnoreImpCasts()->getType()); return o; }
    if (auto *P = dyn_cast<CaseStmt>(S)) { auto o = s("case", S); o["v"] = P->getLHS() ? J::Value(intv(P->getLHS()->EvaluateKnownConstInt(C))) : J::Value(nullptr); o["b"] = st(P->getSubStmt()); return o; }
    if (auto *P = dyn_cast<DefaultStmt>(S)) { auto o = s("default", S); o["b"] = st(P->getSubStmt()); return o; }
    if (auto *P = dyn_cast<CXXTryStmt>(S)) { auto o = s("try", S); o["b"] = st(P->getTryBlock()); J::Array hs;
      for (unsigned i = 0; i < P->getNumHandlers(); ++i) { auto *H = P->getHandler(i); J::Object h; h["l"] = line(H->getBeginLoc());
        if (H->getExceptionDecl()) { h["t"] = ty(H->getCaughtType()); h["v"] = var(H->getExceptionDecl()); } else h["t"] = "...";
        h["b"] = st(H->getHandlerBlock()); hs.push_back(std::move(h)); }
      o["h"] = std::move(hs); return o; }
    if (auto *P = dyn_cast<AttributedStmt>(S)) return st(P->getSubStmt());
    if (auto *P = dyn_cast<LabelStmt>(S)) { auto o = s("label", S); o["b"] = st(P->getSubStmt()); return o; }
    if (auto *P = dyn_cast<Expr>(S)) { auto o = s("expr", S); o["e"] = ex(P); return o; }
    auto o = s("unk", S); o["cls"] = S->getStmtClassName(); return o;
  }

  void addFunc(FunctionDecl *F) {
    FunctionDecl *D = F;
    if (D->isDependentContext()) return;
    if (D->isTemplated()) return;
    const FunctionDecl *Def = nullptr; if (!D->hasBody(Def) ) return;
    if (Def != D) return;
    if (D->isImplicit() && !(isa<CXXMethodDecl>(D) && cast<CXXMethodDecl>(D)->getParent()->isLambda())) return;
    if (!inRoot(D->getLocation()) ) return;
    if (!seen.insert(D).second) return;
    J::Object o = fnref(D);
    o["f"] = rel(file(D->getLocation())); o["l"] = line(D->getBeginLoc()); o["el"] = line(D->getEndLoc());
    J::Array ps; for (auto *p : D->parameters()) { J::Object po; po["id"] = vid(p); po["n"] = p->getNameAsString(); po["t"] = ty(p->getType()); po["ref"] = p->getType()->isReferenceType(); if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) if (auto *DE = p->getDefaultArg()) po["d"] = ex(DE); ps.push_back(std::move(po)); }
    o["ps"] = std::move(ps); o["ret"] = ty(D->getReturnType()); o["rref"] = D->getReturnType()->isReferenceType();
    o["linkage"] = D->isExternallyVisible();
    { bool h = false; const FunctionDecl *T = D->getTemplateInstantiationPattern() ? D->getTemplateInstantiationPattern() : D;
      for (auto *R : T->redecls()) if (rel(file(R->getLocation())).compare(0, 8, "include/") == 0) h = true;
      o["hdr"] = h; }
    if (auto *M = dyn_cast<CXXMethodDecl>(D)) {
      o["virt"] = M->isVirtual(); o["acc"] = (int)M->getAccess();
      o["rec"] = qn(M->getParent());
      J::Array ov; for (auto *b : M->overridden_methods()) ov.push_back(uid(b)); o["ovr"] = std::move(ov);
      if (M->getParent()->isLambda()) o["lam"] = true;
    }
    if (D->getExceptionSpecType() != EST_None && C.getLangOpts().CPlusPlus) { auto *FT = D->getType()->getAs<FunctionProtoType>(); if (FT && !isUnresolvedExceptionSpec(FT->getExceptionSpecType())) o["noexc"] = FT->isNothrow(); }
    if (auto *K = dyn_cast<CXXConstructorDecl>(D)) {
      o["ctor"] = true; J::Array is;
      for (auto *I : K->inits()) { J::Object io; io["wr"] = I->isWritten();
        if (I->isAnyMemberInitializer()) { io["f"] = fname(I->getAnyMember()); io["t"] = ty(I->getAnyMember()->getType()); }
        else if (I->isDelegatingInitializer()) io["deleg"] = true;
        else if (I->isBaseInitializer()) io["base"] = ty(QualType(I->getBaseClass(), 0));
        io["e"] = ex(I->getInit()); is.push_back(std::move(io)); }
      o["inits"] = std::move(is);
      if (K->isCopyOrMoveConstructor()) o["cpctor"] = true;
      if (D->isDefaulted()) o["dflt"] = true;
    }
    if (isa<CXXDestructorDecl>(D)) o["dtor"] = true;
    o["b"] = st(D->getBody());
    funcs.push_back(std::move(o));
  }
  bool VisitFunctionDecl(FunctionDecl *F) { addFunc(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    SourceLocation RL = R->getLocation();
    if (auto *PT = R->getTemplateInstantiationPattern()) RL = PT->getLocation();   // explicit instantiations are located at the instantiation
    if (!inRoot(RL)) return true;
    if (!seen.insert(R).second) return true;
    J::Object o; o["q"] = qn(R); o["t"] = ty(C.getRecordType(R)); o["f"] = rel(file(RL)); o["l"] = line(RL);
    J::Array bs, ba; for (auto &b : R->bases()) { bs.push_back(ty(b.getType())); ba.push_back((int)b.getAccessSpecifier()); } o["bases"] = std::move(bs); o["bacc"] = std::move(ba);
    J::Array fs; for (auto *f : R->fields()) { J::Object fo; fo["n"] = fname(f); fo["t"] = ty(f->getType()); fo["mut"] = f->isMutable(); fo["acc"] = (int)f->getAccess();
      fo["scalar"] = f->getType()->isScalarType(); fo["init"] = f->hasInClassInitializer(); fo["ref"] = f->getType()->isReferenceType(); fs.push_back(std::move(fo)); }
    o["fields"] = std::move(fs);
    J::Array ms; for (auto *m : R->methods()) { if (m->isImplicit()) continue; J::Object mo = fnref(m); mo["virt"] = m->isVirtual(); mo["pure"] = m->isPureVirtual(); mo["acc"] = (int)m->getAccess(); mo["ret"] = ty(m->getReturnType());
      mo["ctor"] = isa<CXXConstructorDecl>(m); mo["dtor"] = isa<CXXDestructorDecl>(m); mo["dflt"] = m->isDefaulted(); mo["del"] = m->isDeleted();
      J::Array ov; for (auto *b : m->overridden_methods()) ov.push_back(uid(b)); mo["ovr"] = std::move(ov); ms.push_back(std::move(mo)); }
    o["methods"] = std::move(ms);
    records.push_back(std::move(o)); return true;
  }
  bool VisitEnumDecl(EnumDecl *D) {
    if (!D->isThisDeclarationADefinition() || D->isDependentContext() || !inRoot(D->getLocation())) return true;
    if (!seen.insert(D).second) return true;
    J::Object o; o["q"] = qn(D); o["t"] = ty(C.getEnumType(D)); o["f"] = rel(file(D->getLocation())); o["l"] = line(D->getLocation()); J::Array vs;
    for (auto *e : D->enumerators()) { J::Object v; v["n"] = e->getNameAsString(); v["v"] = intv(e->getInitVal()); vs.push_back(std::move(v)); }
    o["vals"] = std::move(vs); enums.push_back(std::move(o)); return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->hasLocalStorage() || isa<ParmVarDecl>(V) || !inRoot(V->getLocation())) return true;
    if (V->getDeclContext()->isDependentContext() || V->isTemplated()) return true;
    if (!seen.insert(V).second) return true;
    J::Object o; o["q"] = qn(V); o["t"] = ty(V->getType()); o["const"] = V->getType().isConstQualified(); o["sl"] = V->isStaticLocal(); o["f"] = rel(file(V->getLocation())); o["l"] = line(V->getLocation());
    o["def"] = V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly; o["tls"] = V->getTLSKind() != VarDecl::TLS_None;
    if (V->getInit()) o["init"] = ex(V->getInit());
    globals.push_back(std::move(o)); return true;
  }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Ex x(C); x.TraverseDecl(C.getTranslationUnitDecl());
    J::Object o; o["tu"] = MainTag; o["funcs"] = std::move(x.funcs); o["records"] = std::move(x.records); o["enums"] = std::move(x.enums); o["globals"] = std::move(x.globals);
    // files read
    std::set<std::string> fs; auto &SM = C.getSourceManager();
    for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) fs.insert(it->first.getName().str());
    J::Array fa; for (auto &f : fs) if (f.find("program_options") != std::string::npos || f.compare(0, Root.size(), Root) == 0) fa.push_back(f);
    o["files"] = std::move(fa);
    std::error_code ec; llvm::raw_fd_ostream os(OutFile, ec); os << J::Value(std::move(o)); 
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};
int main(int argc, char **argv) {
  // po_extract ROOT TAG OUT SRC -- flags...
  if (argc < 6) return 2;
  Root = argv[1]; MainTag = argv[2]; OutFile = argv[3]; std::string src = argv[4];
  std::vector<std::string> flags; for (int i = 6; i < argc; ++i) flags.push_back(argv[i]);
  std::ifstream in(src); if (!in) return 2;
  std::string code((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  std::vector<std::string> cmd{"/usr/bin/clang++-18"}; cmd.insert(cmd.end(), flags.begin(), flags.end());
  cmd.push_back("-fsyntax-only"); cmd.push_back(src);
  IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation inv(cmd, std::make_unique<Act>(), FM.get());
  return inv.run() ? 0 : 2;
}
