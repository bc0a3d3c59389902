// psdd_ir: dumps the resolved, type-checked AST of the functions a translation
// unit defines under a root directory as compact JSON.  Implicit conversions,
// copies and temporaries are made explicit or stripped; callees, overloads and
// operators are resolved by clang, so nothing downstream works on text.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> Roots;
static std::vector<std::string> Excludes;

namespace {
class Dumper {
public:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> Ids;
  Array Funcs, Recs, Globals;
  std::set<const Decl *> Done;
  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.SuppressScope = false;
    PP.Bool = true;
    PP.SuppressInlineNamespace = true;
    PP.AnonymousTagLocations = false;
  }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = Ids.find(D);
    if (it != Ids.end()) return it->second;
    int n = Ids.size() + 1;
    Ids[D] = n;
    return n;
  }
  std::string ctxName(const DeclContext *DC) {
    std::string out;
    while (DC && !DC->isTranslationUnit()) {
      std::string part;
      if (auto *NS = dyn_cast<NamespaceDecl>(DC)) {
        if (NS->isAnonymousNamespace()) part = "(anon)";
        else if (!NS->isInline()) part = NS->getNameAsString();
      } else if (auto *RD = dyn_cast<CXXRecordDecl>(DC)) {
        part = RD->getNameAsString();
        if (RD->isLambda()) part = "(lambda)";
      } else if (auto *RD = dyn_cast<RecordDecl>(DC)) {
        part = RD->getNameAsString();
      } else if (auto *F = dyn_cast<FunctionDecl>(DC)) {
        part = F->getNameAsString();
      }
      if (!part.empty()) out = out.empty() ? part : part + "::" + out;
      DC = DC->getParent();
    }
    return out;
  }
  std::string qname(const NamedDecl *D) {
    std::string c = ctxName(D->getDeclContext());
    std::string n;
    if (auto *CD = dyn_cast<CXXConstructorDecl>(D)) n = CD->getParent()->getNameAsString();
    else if (auto *DD = dyn_cast<CXXDestructorDecl>(D)) n = "~" + DD->getParent()->getNameAsString();
    else if (isa<CXXConversionDecl>(D)) n = "operator " + ty(cast<CXXConversionDecl>(D)->getConversionType());
    else n = D->getNameAsString();
    return c.empty() ? n : c + "::" + n;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string sig(const FunctionDecl *F) {
    std::string s = qname(F) + "(";
    bool first = true;
    for (auto *P : F->parameters()) {
      if (!first) s += ", ";
      first = false;
      s += ty(P->getType());
    }
    s += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) s += " const";
    return s;
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!FE) return "";
    llvm::StringRef n = FE->getFileEntry().tryGetRealPathName();
    return n.empty() ? FE->getName().str() : n.str();
  }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string f = file(L);
    bool ok = false;
    for (auto &r : Roots) if (f.rfind(r, 0) == 0) ok = true;
    if (!ok) return false;
    for (auto &e : Excludes) if (f.find(e) != std::string::npos) return false;
    return true;
  }

  Object node(const char *k, const Expr *E) {
    Object o;
    o["k"] = k;
    o["t"] = ty(E->getType());
    o["l"] = line(E->getBeginLoc());
    return o;
  }
  Value un(const Expr *E, const std::string &why) {
    Object o = node("unk", E);
    o["why"] = why;
    Array xs;
    for (auto *c : E->children())
      if (auto *ce = dyn_cast_or_null<Expr>(c)) xs.push_back(ex(ce));
    o["xs"] = std::move(xs);
    return Value(std::move(o));
  }
  static bool isNoReturn(const FunctionDecl *F) {
    if (!F) return false;
    if (F->isNoReturn()) return true;
    if (auto *FT = F->getType()->getAs<FunctionType>()) if (FT->getNoReturnAttr()) return true;
    if (F->hasAttr<NoReturnAttr>() || F->hasAttr<CXX11NoReturnAttr>()) return true;
    return false;
  }
  void callee(Object &o, const FunctionDecl *F) {
    o["fn"] = qname(F);
    o["sig"] = sig(F);
    if (isNoReturn(F)) o["noret"] = true;
    if (inRoot(F->getLocation())) o["repo"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual()) o["virt"] = true;
      if (M->isConst()) o["const"] = true;
    }
    Array pt;
    for (auto *P : F->parameters()) pt.push_back(ty(P->getType()));
    o["pt"] = std::move(pt);
  }
  Array args(llvm::ArrayRef<const Expr *> as) {
    Array xs;
    for (auto *a : as) xs.push_back(ex(a));
    return xs;
  }
  Value deref(const Expr *E, Value inner, QualType pt) {
    Object o;
    o["k"] = "deref";
    o["t"] = ty(pt->getPointeeType());
    o["l"] = line(E->getBeginLoc());
    o["e"] = std::move(inner);
    return Value(std::move(o));
  }
  Value ex(const Expr *E) {
    E = E->IgnoreParens();
    switch (E->getStmtClass()) {
    case Stmt::ExprWithCleanupsClass: return ex(cast<ExprWithCleanups>(E)->getSubExpr());
    case Stmt::MaterializeTemporaryExprClass: return ex(cast<MaterializeTemporaryExpr>(E)->getSubExpr());
    case Stmt::CXXBindTemporaryExprClass: return ex(cast<CXXBindTemporaryExpr>(E)->getSubExpr());
    case Stmt::ConstantExprClass: return ex(cast<ConstantExpr>(E)->getSubExpr());
    case Stmt::SubstNonTypeTemplateParmExprClass: return ex(cast<SubstNonTypeTemplateParmExpr>(E)->getReplacement());
    case Stmt::CXXDefaultArgExprClass: {
      Value v = ex(cast<CXXDefaultArgExpr>(E)->getExpr());
      if (auto *o = v.getAsObject()) (*o)["dflt"] = true;
      return v;
    }
    case Stmt::CXXDefaultInitExprClass: return ex(cast<CXXDefaultInitExpr>(E)->getExpr());
    case Stmt::CXXRewrittenBinaryOperatorClass: return ex(cast<CXXRewrittenBinaryOperator>(E)->getSemanticForm());
    default: break;
    }
    if (auto *CE = dyn_cast<CastExpr>(E)) {
      switch (CE->getCastKind()) {
      case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay:
      case CK_ArrayToPointerDecay: case CK_ConstructorConversion:
      case CK_UserDefinedConversion: case CK_BuiltinFnToFnPtr:
        return ex(CE->getSubExpr());
      case CK_NullToPointer: case CK_NullToMemberPointer: {
        Object o = node("null", E);
        return Value(std::move(o));
      }
      default: {
        Object o = node("cast", E);
        o["ck"] = CE->getCastKindName();
        if (isa<ExplicitCastExpr>(CE)) o["expl"] = true;
        if (isa<CXXDynamicCastExpr>(CE)) o["dyn"] = true;
        o["e"] = ex(CE->getSubExpr());
        return Value(std::move(o));
      }
      }
    }
    if (auto *L = dyn_cast<IntegerLiteral>(E)) {
      Object o = node("int", E);
      llvm::SmallString<40> s;
      L->getValue().toString(s, 10, E->getType()->isSignedIntegerType());
      o["v"] = s.str().str();
      return Value(std::move(o));
    }
    if (auto *L = dyn_cast<CharacterLiteral>(E)) {
      Object o = node("int", E);
      o["v"] = std::to_string(L->getValue());
      o["chr"] = true;
      return Value(std::move(o));
    }
    if (auto *L = dyn_cast<FloatingLiteral>(E)) {
      Object o = node("flt", E);
      o["v"] = L->getValueAsApproximateDouble();
      return Value(std::move(o));
    }
    if (auto *L = dyn_cast<StringLiteral>(E)) {
      Object o = node("str", E);
      std::string s = L->getCharByteWidth() == 1 ? L->getString().str() : "";
      if (!llvm::json::isUTF8(s)) s = llvm::json::fixUTF8(s);
      o["v"] = s;
      return Value(std::move(o));
    }
    if (auto *L = dyn_cast<CXXBoolLiteralExpr>(E)) {
      Object o = node("bool", E);
      o["v"] = L->getValue();
      return Value(std::move(o));
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return Value(node("null", E));
    if (auto *T = dyn_cast<CXXThisExpr>(E)) { (void)T; return Value(node("this", E)); }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) return Value(node("zero", E));
    if (auto *D = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *V = D->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(V)) {
        Object o = node("int", E);
        llvm::SmallString<40> s;
        EC->getInitVal().toString(s, 10);
        o["v"] = s.str().str();
        return Value(std::move(o));
      }
      if (auto *F = dyn_cast<FunctionDecl>(V)) {
        Object o = node("fnref", E);
        callee(o, F);
        return Value(std::move(o));
      }
      Object o = node("var", E);
      o["n"] = V->getNameAsString();
      if (auto *VD = dyn_cast<VarDecl>(V)) {
        if (VD->hasGlobalStorage() && !VD->isStaticLocal()) o["g"] = qname(VD);
      }
      if (isa<BindingDecl>(V)) {
        auto *B = cast<BindingDecl>(V);
        if (B->getBinding()) return ex(B->getBinding());
      }
      o["id"] = id(V);
      return Value(std::move(o));
    }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      if (auto *VD = dyn_cast<VarDecl>(M->getMemberDecl())) {
        Object o = node("var", E);
        o["n"] = VD->getNameAsString();
        o["g"] = qname(VD);
        o["id"] = id(VD);
        return Value(std::move(o));
      }
      if (auto *F = dyn_cast<FunctionDecl>(M->getMemberDecl())) {
        Object o = node("fnref", E);
        callee(o, F);
        return Value(std::move(o));
      }
      Object o = node("field", E);
      o["f"] = qname(M->getMemberDecl());
      Value b = ex(M->getBase());
      if (M->isArrow()) b = deref(M, std::move(b), M->getBase()->getType());
      o["obj"] = std::move(b);
      return Value(std::move(o));
    }
    if (auto *OC = dyn_cast<CXXOperatorCallExpr>(E)) {
      Object o = node("call", E);
      if (auto *F = OC->getDirectCallee()) {
        callee(o, F);
        if (isa<CXXMethodDecl>(F)) o["mem"] = true;
      } else o["fn"] = "?";
      o["op"] = getOperatorSpelling(OC->getOperator());
      Array xs;
      for (auto *a : OC->arguments()) xs.push_back(ex(a));
      o["args"] = std::move(xs);
      return Value(std::move(o));
    }
    if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
      Object o = node("mcall", E);
      if (auto *F = MC->getMethodDecl()) callee(o, F);
      else o["fn"] = "?";
      if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) {
        const Expr *B = ME->getBase();
        Value b = ex(B);
        if (ME->isArrow()) b = deref(MC, std::move(b), B->getType());
        o["obj"] = std::move(b);
        if (ME->hasQualifier()) o["nonvirt"] = true;
      }
      Array xs;
      for (auto *a : MC->arguments()) xs.push_back(ex(a));
      o["args"] = std::move(xs);
      return Value(std::move(o));
    }
    if (auto *CE = dyn_cast<CallExpr>(E)) {
      Object o = node("call", E);
      if (auto *F = CE->getDirectCallee()) callee(o, F);
      else { o["fn"] = "?"; o["ce"] = ex(CE->getCallee()); }
      Array xs;
      for (auto *a : CE->arguments()) xs.push_back(ex(a));
      o["args"] = std::move(xs);
      return Value(std::move(o));
    }
    if (auto *CC = dyn_cast<CXXConstructExpr>(E)) {
      auto *CD = CC->getConstructor();
      if (CD->isCopyOrMoveConstructor() && CC->getNumArgs() >= 1) {
        Object o = node("copy", E);
        if (CD->isMoveConstructor()) o["mv"] = true;
        o["e"] = ex(CC->getArg(0));
        return Value(std::move(o));
      }
      Object o = node("ctor", E);
      callee(o, CD);
      o["cls"] = qname(CD->getParent());
      if (CC->isListInitialization()) o["li"] = true;
      Array xs;
      for (auto *a : CC->arguments()) xs.push_back(ex(a));
      o["args"] = std::move(xs);
      return Value(std::move(o));
    }
    if (auto *IL = dyn_cast<InitListExpr>(E)) {
      const InitListExpr *S = IL->isSemanticForm() ? IL : IL->getSemanticForm();
      if (!S) S = IL;
      if (S->isTransparent()) return ex(S->getInit(0));
      Object o = node("init", E);
      Array xs;
      for (auto *i : S->inits()) xs.push_back(ex(i));
      o["xs"] = std::move(xs);
      if (auto *RT = E->getType()->getAs<RecordType>()) {
        Array fs;
        for (auto *f : RT->getDecl()->fields()) fs.push_back(qname(f));
        o["fs"] = std::move(fs);
      }
      if (S->hasArrayFiller()) o["fill"] = true;
      return Value(std::move(o));
    }
    if (auto *SL = dyn_cast<CXXStdInitializerListExpr>(E)) {
      Object o = node("ilist", E);
      o["e"] = ex(SL->getSubExpr());
      return Value(std::move(o));
    }
    if (auto *U = dyn_cast<UnaryOperator>(E)) {
      if (U->getOpcode() == UO_Deref) return deref(E, ex(U->getSubExpr()), U->getSubExpr()->getType());
      if (U->getOpcode() == UO_Extension || U->getOpcode() == UO_Plus) return ex(U->getSubExpr());
      Object o = node("un", E);
      switch (U->getOpcode()) {
      case UO_PreInc: o["op"] = "++x"; break;
      case UO_PostInc: o["op"] = "x++"; break;
      case UO_PreDec: o["op"] = "--x"; break;
      case UO_PostDec: o["op"] = "x--"; break;
      default: o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      }
      o["e"] = ex(U->getSubExpr());
      return Value(std::move(o));
    }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      Object o = node(B->isAssignmentOp() ? "asg" : "bin", E);
      o["op"] = B->getOpcodeStr().str();
      if (auto *CA = dyn_cast<CompoundAssignOperator>(B)) o["ct"] = ty(CA->getComputationResultType());
      o["a"] = ex(B->getLHS());
      o["b"] = ex(B->getRHS());
      return Value(std::move(o));
    }
    if (auto *Q = dyn_cast<ConditionalOperator>(E)) {
      Object o = node("cond", E);
      o["c"] = ex(Q->getCond());
      o["a"] = ex(Q->getTrueExpr());
      o["b"] = ex(Q->getFalseExpr());
      return Value(std::move(o));
    }
    if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) {
      Object o = node("index", E);
      o["a"] = ex(A->getBase());
      o["b"] = ex(A->getIdx());
      return Value(std::move(o));
    }
    if (auto *N = dyn_cast<CXXNewExpr>(E)) {
      Object o = node("new", E);
      o["ty"] = ty(N->getAllocatedType());
      if (N->isArray()) {
        o["arr"] = true;
        if (N->getArraySize() && *N->getArraySize()) o["n"] = ex(*N->getArraySize());
      }
      if (N->getInitializer()) o["init"] = ex(N->getInitializer());
      return Value(std::move(o));
    }
    if (auto *D = dyn_cast<CXXDeleteExpr>(E)) {
      Object o = node("delete", E);
      if (D->isArrayForm()) o["arr"] = true;
      o["e"] = ex(D->getArgument());
      return Value(std::move(o));
    }
    if (auto *L = dyn_cast<LambdaExpr>(E)) return lambda(L);
    if (auto *S = dyn_cast<StmtExpr>(E)) {
      Object o = node("stmtexpr", E);
      o["s"] = st(S->getSubStmt());
      return Value(std::move(o));
    }
    if (auto *T = dyn_cast<CXXThrowExpr>(E)) {
      Object o = node("throw", E);
      if (T->getSubExpr()) o["e"] = ex(T->getSubExpr());
      return Value(std::move(o));
    }
    if (isa<UnaryExprOrTypeTraitExpr>(E) || isa<TypeTraitExpr>(E)) {
      Expr::EvalResult R;
      if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) {
        Object o = node("int", E);
        llvm::SmallString<40> s;
        R.Val.getInt().toString(s, 10);
        o["v"] = s.str().str();
        if (auto *U = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
          o["sizeof"] = true;
          if (!U->isArgumentType()) o["of"] = ex(U->getArgumentExpr());
        }
        return Value(std::move(o));
      }
    }
    if (auto *P = dyn_cast<PredefinedExpr>(E)) {
      Object o = node("str", E);
      o["v"] = P->getFunctionName() ? P->getFunctionName()->getString().str() : "";
      return Value(std::move(o));
    }
    if (auto *CL = dyn_cast<CompoundLiteralExpr>(E)) return ex(CL->getInitializer());
    return un(E, E->getStmtClassName());
  }
  Array params(const FunctionDecl *F) {
    Array ps;
    for (auto *P : F->parameters()) {
      Object p;
      p["id"] = id(P);
      p["n"] = P->getNameAsString();
      p["t"] = ty(P->getType());
      if (P->hasInit() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg())
        p["dflt"] = true;
      ps.push_back(std::move(p));
    }
    return ps;
  }
  Value lambda(const LambdaExpr *L) {
    Object o = node("lambda", L);
    const CXXMethodDecl *M = L->getCallOperator();
    if (auto *FT = L->getLambdaClass()->getDependentLambdaCallOperator()) {
      for (auto *S : FT->specializations())
        if (S->hasBody()) { M = cast<CXXMethodDecl>(S); break; }
    }
    o["params"] = params(M);
    o["ret"] = ty(M->getReturnType());
    Array caps;
    for (auto &c : L->captures()) {
      Object co;
      if (c.capturesVariable()) {
        co["id"] = id(c.getCapturedVar());
        co["n"] = c.getCapturedVar()->getNameAsString();
        co["ref"] = c.getCaptureKind() == LCK_ByRef;
        if (auto *VD = dyn_cast<VarDecl>(c.getCapturedVar())) if (VD->isInitCapture() && VD->getInit()) co["init"] = ex(VD->getInit());
      } else if (c.capturesThis()) co["this"] = true;
      caps.push_back(std::move(co));
    }
    o["caps"] = std::move(caps);
    if (M->hasBody()) o["body"] = st(M->getBody());
    return Value(std::move(o));
  }
  Object snode(const char *k, const Stmt *S) {
    Object o;
    o["k"] = k;
    o["l"] = line(S->getBeginLoc());
    return o;
  }
  Value var(const VarDecl *V) {
    Object o;
    o["k"] = "decl";
    o["l"] = line(V->getLocation());
    o["id"] = id(V);
    o["n"] = V->getNameAsString();
    o["t"] = ty(V->getType());
    if (V->isStaticLocal()) o["static"] = true;
    if (auto *AT = C.getAsConstantArrayType(V->getType())) o["asz"] = (int64_t)AT->getSize().getZExtValue();
    if (V->hasInit()) o["init"] = ex(V->getInit());
    return Value(std::move(o));
  }
  Value st(const Stmt *S) {
    if (!S) return Value(nullptr);
    if (auto *E = dyn_cast<Expr>(S)) {
      Object o = snode("expr", S);
      o["e"] = ex(E);
      return Value(std::move(o));
    }
    if (auto *CS = dyn_cast<CompoundStmt>(S)) {
      Object o = snode("block", S);
      Array xs;
      for (auto *c : CS->body()) xs.push_back(st(c));
      o["xs"] = std::move(xs);
      return Value(std::move(o));
    }
    if (auto *DS = dyn_cast<DeclStmt>(S)) {
      Object o = snode("decls", S);
      Array xs;
      for (auto *d : DS->decls()) {
        if (auto *V = dyn_cast<VarDecl>(d)) {
          xs.push_back(var(V));
          if (auto *DD = dyn_cast<DecompositionDecl>(V))
            for (auto *B : DD->bindings())
              if (auto *HV = B->getHoldingVar()) xs.push_back(var(HV));
        }
      }
      o["xs"] = std::move(xs);
      return Value(std::move(o));
    }
    if (auto *I = dyn_cast<IfStmt>(S)) {
      Object o = snode("if", S);
      if (I->getInit()) o["init"] = st(I->getInit());
      if (auto *DS = I->getConditionVariableDeclStmt()) o["cv"] = st(DS);
      o["c"] = ex(I->getCond());
      o["a"] = st(I->getThen());
      if (I->getElse()) o["b"] = st(I->getElse());
      return Value(std::move(o));
    }
    if (auto *W = dyn_cast<WhileStmt>(S)) {
      Object o = snode("while", S);
      if (auto *DS = W->getConditionVariableDeclStmt()) o["cv"] = st(DS);
      o["c"] = ex(W->getCond());
      o["body"] = st(W->getBody());
      return Value(std::move(o));
    }
    if (auto *W = dyn_cast<DoStmt>(S)) {
      Object o = snode("do", S);
      o["c"] = ex(W->getCond());
      o["body"] = st(W->getBody());
      return Value(std::move(o));
    }
    if (auto *F = dyn_cast<ForStmt>(S)) {
      Object o = snode("for", S);
      if (F->getInit()) o["init"] = st(F->getInit());
      if (F->getCond()) o["c"] = ex(F->getCond());
      if (F->getInc()) o["inc"] = ex(F->getInc());
      o["body"] = st(F->getBody());
      return Value(std::move(o));
    }
    if (auto *F = dyn_cast<CXXForRangeStmt>(S)) {
      Object o = snode("rfor", S);
      o["range"] = ex(F->getRangeInit());
      o["var"] = var(F->getLoopVariable());
      if (auto *DD = dyn_cast<DecompositionDecl>(F->getLoopVariable())) {
        Array hs;
        for (auto *B : DD->bindings())
          if (auto *HV = B->getHoldingVar()) hs.push_back(var(HV));
        o["holds"] = std::move(hs);
      }
      o["body"] = st(F->getBody());
      return Value(std::move(o));
    }
    if (auto *R = dyn_cast<ReturnStmt>(S)) {
      Object o = snode("ret", S);
      if (R->getRetValue()) o["e"] = ex(R->getRetValue());
      return Value(std::move(o));
    }
    if (isa<BreakStmt>(S)) return Value(snode("break", S));
    if (isa<ContinueStmt>(S)) return Value(snode("continue", S));
    if (isa<NullStmt>(S)) return Value(snode("nop", S));
    if (auto *SW = dyn_cast<SwitchStmt>(S)) {
      Object o = snode("switch", S);
      if (SW->getInit()) o["init"] = st(SW->getInit());
      o["c"] = ex(SW->getCond());
      o["body"] = st(SW->getBody());
      return Value(std::move(o));
    }
    if (auto *CS = dyn_cast<CaseStmt>(S)) {
      Object o = snode("case", S);
      o["v"] = ex(CS->getLHS());
      o["s"] = st(CS->getSubStmt());
      return Value(std::move(o));
    }
    if (auto *DS = dyn_cast<DefaultStmt>(S)) {
      Object o = snode("default", S);
      o["s"] = st(DS->getSubStmt());
      return Value(std::move(o));
    }
    if (auto *A = dyn_cast<AttributedStmt>(S)) return st(A->getSubStmt());
    if (auto *L = dyn_cast<LabelStmt>(S)) {
      Object o = snode("label", S);
      o["s"] = st(L->getSubStmt());
      return Value(std::move(o));
    }
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      Object o = snode("try", S);
      o["body"] = st(T->getTryBlock());
      Array hs;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) hs.push_back(st(T->getHandler(i)->getHandlerBlock()));
      o["hs"] = std::move(hs);
      return Value(std::move(o));
    }
    Object o = snode("unk", S);
    o["why"] = S->getStmtClassName();
    return Value(std::move(o));
  }
  void function(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() && !F->isDefaulted()) return;
    if (F->isDependentContext()) return;
    if (F->isImplicit()) return;
    if (!F->hasBody()) return;
    if (!inRoot(F->getLocation())) return;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return;
    if (!Done.insert(F->getCanonicalDecl()).second) return;
    Object o;
    callee(o, F);
    o["file"] = file(F->getLocation());
    o["line"] = line(F->getLocation());
    o["end"] = line(F->getEndLoc());
    o["params"] = params(F);
    o["ret"] = ty(F->getReturnType());
    if (F->isVariadic()) o["variadic"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = qname(M->getParent());
      if (M->isStatic()) o["static"] = true;
      Array ov;
      for (auto *b : M->overridden_methods()) ov.push_back(sig(b));
      o["over"] = std::move(ov);
      o["access"] = (int)M->getAccess();
    }
    o["kind"] = isa<CXXConstructorDecl>(F) ? "ctor" : isa<CXXDestructorDecl>(F) ? "dtor" : isa<CXXMethodDecl>(F) ? "method" : "fn";
    if (F->getFormalLinkage() == Linkage::Internal || F->isInAnonymousNamespace()) o["internal"] = true;
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      Array is;
      for (auto *I : CD->inits()) {
        Object io;
        if (I->isAnyMemberInitializer()) io["field"] = qname(I->getAnyMember());
        else if (I->isDelegatingInitializer()) io["deleg"] = true;
        else io["base"] = ty(QualType(I->getBaseClass(), 0));
        io["e"] = ex(I->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    o["body"] = st(F->getBody());
    Funcs.push_back(std::move(o));
  }
  void record(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
    if (!inRoot(R->getLocation())) return;
    if (!Done.insert(R).second) return;
    Object o;
    o["name"] = qname(R);
    o["file"] = file(R->getLocation());
    o["line"] = line(R->getLocation());
    Array bs, fs, ms;
    for (auto &b : R->bases()) bs.push_back(ty(b.getType()));
    for (auto *f : R->fields()) {
      Object fo;
      fo["n"] = qname(f);
      fo["t"] = ty(f->getType());
      if (auto *AT = C.getAsConstantArrayType(f->getType())) fo["asz"] = (int64_t)AT->getSize().getZExtValue();
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = ex(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    for (auto *m : R->methods()) {
      Object mo;
      mo["sig"] = sig(m);
      mo["fn"] = qname(m);
      mo["virt"] = m->isVirtual();
      mo["pure"] = m->isPureVirtual();
      mo["dflt"] = m->isDefaulted();
      mo["impl"] = m->isImplicit();
      ms.push_back(std::move(mo));
    }
    o["bases"] = std::move(bs);
    o["fields"] = std::move(fs);
    o["methods"] = std::move(ms);
    Recs.push_back(std::move(o));
  }
  void global(const VarDecl *V) {
    if (!V->isFileVarDecl() || !inRoot(V->getLocation())) return;
    if (V->getDeclContext()->isDependentContext()) return;
    if (V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) return;
    Object o;
    o["n"] = qname(V);
    o["t"] = ty(V->getType());
    if (V->hasInit()) o["init"] = ex(V->getInit());
    o["file"] = file(V->getLocation());
    o["line"] = line(V->getLocation());
    Globals.push_back(std::move(o));
  }
};
class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Dumper &D;
  explicit Visitor(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) { D.function(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { D.record(R); return true; }
  bool VisitVarDecl(VarDecl *V) { D.global(V); return true; }
};
class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C);
    Visitor V(D);
    V.TraverseDecl(C.getTranslationUnitDecl());
    Object o;
    auto FE = C.getSourceManager().getFileEntryRefForID(C.getSourceManager().getMainFileID());
    o["main"] = FE ? FE->getName().str() : "";
    o["errors"] = C.getDiagnostics().hasErrorOccurred();
    o["funcs"] = std::move(D.Funcs);
    o["recs"] = std::move(D.Recs);
    o["globals"] = std::move(D.Globals);
    llvm::outs() << Value(std::move(o)) << "\n";
    llvm::outs().flush();
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};
class Factory : public tooling::FrontendActionFactory {
public:
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};
} // namespace

// usage: psdd_ir FILE --root=DIR.. --exclude=SUBSTR.. -- compile flags
int main(int argc, const char **argv) {
  std::vector<std::string> flags;
  std::string src;
  bool after = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (after) flags.push_back(a);
    else if (a == "--") after = true;
    else if (a.rfind("--root=", 0) == 0) Roots.push_back(a.substr(7));
    else if (a.rfind("--exclude=", 0) == 0) Excludes.push_back(a.substr(10));
    else src = a;
  }
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {src});
  Factory F;
  return T.run(&F);
}
