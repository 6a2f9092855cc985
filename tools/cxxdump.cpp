// cxxdump: resolves a translation unit with clang and writes the type-checked syntax trees of every function defined
// in the project's own files (template instantiations included) as JSON, with casts/temporaries that carry no meaning
// for value flow removed and every callee, declaration and type resolved.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
using namespace clang;
namespace J = llvm::json;

static std::vector<std::string> Roots;
static std::string OutFile;

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> ids;
  J::Array funcs, records, globals;
  std::set<const Decl *> doneRec;
  std::set<const FunctionDecl *> doneFn;
  std::vector<const FunctionDecl *> work;

  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.Bool = true;
  }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1;
    return ids[D] = n;
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    return P.isValid() ? std::string(P.getFilename()) : "";
  }
  int line(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    return P.isValid() ? (int)P.getLine() : 0;
  }
  bool inProject(const Decl *D) {
    std::string f = file(D->getLocation());
    for (auto &r : Roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string qn(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    return os.str();
  }
  static bool strip(const Expr *E) { return false; }

  const Expr *skip(const Expr *E) {
    for (;;) {
      if (auto *X = dyn_cast<ParenExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<FullExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); continue; }
      if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        switch (X->getCastKind()) {
        case CK_FloatingToIntegral:
        case CK_IntegralToBoolean:
        case CK_PointerToBoolean:
        case CK_FloatingToBoolean:
          return E;
        case CK_UserDefinedConversion:
          E = X->getSubExpr();
          continue;
        default:
          E = X->getSubExpr();
          continue;
        }
      }
      return E;
    }
  }

  void need(const FunctionDecl *F) {
    if (!F) return;
    const FunctionDecl *Def = nullptr;
    if (F->isDefined(Def) && Def && inProject(Def)) {
      if (Def->isDependentContext()) return;
      if (doneFn.insert(Def).second) work.push_back(Def);
    }
  }

  J::Value callee(const FunctionDecl *F) {
    need(F);
    J::Object o;
    o["qn"] = qn(F);
    o["name"] = F->getNameAsString();
    o["id"] = id(F);
    J::Array ps;
    for (auto *p : F->parameters()) ps.push_back(ty(p->getType()));
    o["pt"] = std::move(ps);
    const FunctionDecl *Def = nullptr;
    bool has = F->isDefined(Def) && Def && inProject(Def);
    o["proj"] = has;
    if (has) o["def"] = id(Def);
    o["ret"] = ty(F->getReturnType());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = qn(M->getParent());
      o["const"] = M->isConst();
      o["static"] = M->isStatic();
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(M->getParent())) {
        o["clsT"] = ty(C.getRecordType(S));
      }
    }
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      J::Array ta;
      for (auto &a : TA->asArray()) {
        std::string s;
        llvm::raw_string_ostream os(s);
        a.print(PP, os, true);
        ta.push_back(os.str());
      }
      o["targs"] = std::move(ta);
    }
    return o;
  }

  J::Value args(llvm::iterator_range<CallExpr::const_arg_iterator> R) {
    J::Array a;
    for (const Expr *e : R) a.push_back(expr(e));
    return a;
  }

  J::Object mk(const char *k, const Expr *E) {
    J::Object o;
    o["k"] = k;
    o["l"] = line(E->getBeginLoc());
    return o;
  }

  J::Value expr(const Expr *E0) {
    if (!E0) return nullptr;
    const Expr *E = skip(E0);
    if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
    J::Object o;
    std::string t = ty(E->getType());
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      o = mk("int", E);
      llvm::SmallString<32> s;
      X->getValue().toString(s, 10, X->getType()->isSignedIntegerType());
      o["v"] = std::string(s.str());
    } else if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      o = mk("flt", E);
      llvm::SmallString<64> s;
      X->getValue().toString(s, 25);
      o["v"] = std::string(s.str());
    } else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      o = mk("bool", E);
      o["v"] = X->getValue();
    } else if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      o = mk("chr", E);
      o["v"] = (int64_t)X->getValue();
    } else if (auto *X = dyn_cast<clang::StringLiteral>(E)) {
      o = mk("str", E);
      o["v"] = J::fixUTF8(X->getBytes());
    } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      o = mk("null", E);
    } else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      o = mk("ref", E);
      const ValueDecl *D = X->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        o["k"] = "fnref";
        o["f"] = callee(F);
      } else {
        o["d"] = id(D);
        o["n"] = D->getNameAsString();
        if (auto *V = dyn_cast<VarDecl>(D)) {
          if (V->hasGlobalStorage() && !V->isStaticLocal()) {
            o["g"] = qn(V);
            globalVar(V);
          }
        } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
          o["k"] = "enum";
          o["v"] = EC->getInitVal().getExtValue();
          o["n"] = qn(EC);
        } else if (auto *B = dyn_cast<BindingDecl>(D)) {
          o["k"] = "bind";
          if (B->getBinding()) o["e"] = expr(B->getBinding());
          o["d"] = id(B);
          if (auto *HV = B->getHoldingVar()) o["hv"] = id(HV);
        }
      }
    } else if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) {
        o = mk("ref", E);
        o["d"] = id(V);
        o["n"] = V->getNameAsString();
        o["g"] = qn(V);
        globalVar(V);
      } else {
        o = mk("mem", E);
        o["b"] = expr(X->getBase());
        o["n"] = D->getNameAsString();
        o["arrow"] = X->isArrow();
        if (auto *FD = dyn_cast<FieldDecl>(D)) o["rec"] = qn(FD->getParent());
        if (auto *F = dyn_cast<FunctionDecl>(D)) o["f"] = callee(F);
      }
    } else if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      o = mk("mcall", E);
      const CXXMethodDecl *M = X->getMethodDecl();
      if (M) o["f"] = callee(M);
      const Expr *cal = X->getCallee()->IgnoreParens();
      if (auto *ME = dyn_cast<MemberExpr>(cal)) {
        o["b"] = expr(ME->getBase());
        o["arrow"] = ME->isArrow();
      } else
        o["b"] = expr(X->getImplicitObjectArgument());
      o["a"] = args(X->arguments());
    } else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      o = mk("opcall", E);
      o["op"] = getOperatorSpelling(X->getOperator());
      if (auto *F = X->getDirectCallee()) {
        o["f"] = callee(F);
        o["memb"] = isa<CXXMethodDecl>(F);
      }
      o["a"] = args(X->arguments());
    } else if (auto *X = dyn_cast<UserDefinedLiteral>(E)) {
      o = mk("call", E);
      if (auto *F = X->getDirectCallee()) o["f"] = callee(F);
      o["a"] = args(X->arguments());
    } else if (auto *X = dyn_cast<CallExpr>(E)) {
      o = mk("call", E);
      if (auto *F = X->getDirectCallee())
        o["f"] = callee(F);
      else
        o["fe"] = expr(X->getCallee());
      o["a"] = args(X->arguments());
    } else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      o = mk("ctor", E);
      o["f"] = callee(X->getConstructor());
      o["cls"] = qn(X->getConstructor()->getParent());
      o["copy"] = X->getConstructor()->isCopyOrMoveConstructor();
      o["deflt"] = X->getConstructor()->isDefaultConstructor();
      o["list"] = X->isStdInitListInitialization();
      J::Array a;
      for (auto *e : X->arguments()) a.push_back(expr(e));
      o["a"] = std::move(a);
      record(X->getConstructor()->getParent());
    } else if (auto *X = dyn_cast<InitListExpr>(E)) {
      o = mk("ilist", E);
      const InitListExpr *S = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
      J::Array a;
      for (auto *e : S->inits()) a.push_back(expr(e));
      o["a"] = std::move(a);
      if (auto *R = E->getType()->getAsCXXRecordDecl()) record(R);
    } else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
      o = mk("zero", E);
    } else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) {
      return expr(X->getExpr());
    } else if (auto *X = dyn_cast<UnaryOperator>(E)) {
      o = mk("un", E);
      o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode());
      o["post"] = X->isPostfix();
      o["e"] = expr(X->getSubExpr());
    } else if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      o = mk("casg", E);
      o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(X->getOpcode()));
      o["a"] = expr(X->getLHS());
      o["b"] = expr(X->getRHS());
    } else if (auto *X = dyn_cast<BinaryOperator>(E)) {
      o = mk(X->isAssignmentOp() ? "asg" : "bin", E);
      o["op"] = X->getOpcodeStr();
      o["a"] = expr(X->getLHS());
      o["b"] = expr(X->getRHS());
    } else if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      o = mk("cond", E);
      o["c"] = expr(X->getCond());
      o["a"] = expr(X->getTrueExpr());
      o["b"] = expr(X->getFalseExpr());
    } else if (auto *X = dyn_cast<OpaqueValueExpr>(E)) {
      return expr(X->getSourceExpr());
    } else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      o = mk("idx", E);
      o["a"] = expr(X->getBase());
      o["b"] = expr(X->getIdx());
    } else if (auto *X = dyn_cast<CastExpr>(E)) {
      // explicit casts, and implicit ones that change the value class
      switch (X->getCastKind()) {
      case CK_FloatingToIntegral:
        o = mk("f2i", E);
        o["e"] = expr(X->getSubExpr());
        break;
      case CK_IntegralToBoolean:
      case CK_PointerToBoolean:
      case CK_FloatingToBoolean:
        o = mk("tobool", E);
        o["e"] = expr(X->getSubExpr());
        break;
      case CK_ToVoid:
        return expr(X->getSubExpr());
      default:
        o = mk("cast", E);
        o["ck"] = X->getCastKindName();
        o["e"] = expr(X->getSubExpr());
      }
    } else if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      o = mk("new", E);
      o["arr"] = X->isArray();
      o["at"] = ty(X->getAllocatedType());
      if (X->isArray() && X->getArraySize()) o["n"] = expr(*X->getArraySize());
      if (X->getInitializer()) o["init"] = expr(X->getInitializer());
    } else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      o = mk("delete", E);
      o["arr"] = X->isArrayForm();
      o["e"] = expr(X->getArgument());
    } else if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      o = mk("throw", E);
      o["e"] = expr(X->getSubExpr());
    } else if (isa<CXXThisExpr>(E)) {
      o = mk("this", E);
    } else if (auto *X = dyn_cast<LambdaExpr>(E)) {
      o = mk("lambda", E);
      J::Array caps;
      for (auto &c : X->captures()) {
        J::Object co;
        if (c.capturesThis()) {
          co["this"] = true;
        } else if (c.capturesVariable()) {
          co["d"] = id(c.getCapturedVar());
          co["n"] = c.getCapturedVar()->getNameAsString();
          co["ref"] = c.getCaptureKind() == LCK_ByRef;
          if (X->isInitCapture(&c))
            if (auto *V = dyn_cast<VarDecl>(c.getCapturedVar())) co["init"] = expr(V->getInit());
        }
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      const CXXMethodDecl *M = X->getCallOperator();
      if (X->isGenericLambda()) {
        o["generic"] = true;
        if (auto *T = X->getDependentCallOperator())
          for (auto *S : T->specializations()) { M = cast<CXXMethodDecl>(S); break; }
        const FunctionDecl *Def = nullptr;
        if (M->isDefined(Def)) M = cast<CXXMethodDecl>(Def);
      }
      J::Array ps;
      for (auto *p : M->parameters()) ps.push_back(param(p));
      o["ps"] = std::move(ps);
      o["ret"] = ty(M->getReturnType());
      if (!M->isDependentContext()) o["body"] = stmt(M->getBody());
    } else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      o = mk("sizeof", E);
      o["of"] = ty(X->getTypeOfArgument());
      Expr::EvalResult R;
      if (!X->isValueDependent() && X->EvaluateAsInt(R, C)) o["v"] = R.Val.getInt().getExtValue();
    } else if (auto *X = dyn_cast<CXXTypeidExpr>(E)) {
      o = mk("typeid", E);
    } else if (auto *X = dyn_cast<StmtExpr>(E)) {
      o = mk("stmtexpr", E);
      o["s"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<CXXPseudoDestructorExpr>(E)) {
      o = mk("other", E);
    } else if (auto *X = dyn_cast<TypeTraitExpr>(E)) {
      o = mk("bool", E);
      o["v"] = X->getValue();
    } else if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) {
      return expr(X->getCommonExpr());
    } else if (auto *X = dyn_cast<PredefinedExpr>(E)) {
      o = mk("str", E);
      o["v"] = "";
    } else {
      o = mk("other", E);
      o["cls"] = E->getStmtClassName();
      J::Array a;
      for (const Stmt *s : E->children())
        if (auto *e = dyn_cast_or_null<Expr>(s)) a.push_back(expr(e));
      o["a"] = std::move(a);
    }
    o["t"] = t;
    if (E->isLValue()) o["lv"] = true;
    return o;
  }

  J::Value param(const ParmVarDecl *p) {
    J::Object o;
    o["d"] = id(p);
    o["n"] = p->getNameAsString();
    o["t"] = ty(p->getType());
    return o;
  }

  void globalVar(const VarDecl *V0) {
    const VarDecl *V = V0->getDefinition();
    if (!V) V = V0;
    if (!inProject(V)) return;
    if (!doneRec.insert(V->getCanonicalDecl()).second) return;
    J::Object o;
    o["d"] = id(V);
    o["qn"] = qn(V);
    o["t"] = ty(V->getType());
    o["constexpr"] = V->isConstexpr();
    o["file"] = file(V->getLocation());
    o["l"] = line(V->getLocation());
    o["internal"] = V->getStorageClass() == SC_Static;
    if (V->getInit() && !V->getType()->isDependentType()) o["init"] = expr(V->getInit());
    globals.push_back(std::move(o));
  }

  void record(const CXXRecordDecl *R0) {
    const CXXRecordDecl *R = R0->getDefinition();
    if (!R || !inProject(R) || R->isDependentContext()) return;
    if (!doneRec.insert(R).second) return;
    J::Object o;
    o["qn"] = qn(R);
    o["t"] = ty(C.getRecordType(R));
    o["union"] = R->isUnion();
    o["file"] = file(R->getLocation());
    o["l"] = line(R->getLocation());
    J::Array fs;
    for (auto *F : R->fields()) {
      J::Object f;
      f["n"] = F->getNameAsString();
      f["t"] = ty(F->getType());
      if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = expr(F->getInClassInitializer());
      fs.push_back(std::move(f));
    }
    o["f"] = std::move(fs);
    J::Array bs;
    for (auto &b : R->bases()) bs.push_back(ty(b.getType()));
    o["bases"] = std::move(bs);
    records.push_back(std::move(o));
  }

  J::Value var(const VarDecl *V) {
    J::Object o;
    o["d"] = id(V);
    o["n"] = V->getNameAsString();
    o["t"] = ty(V->getType());
    o["l"] = line(V->getLocation());
    o["static"] = V->isStaticLocal();
    if (V->getInit()) o["init"] = expr(V->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      J::Array bs;
      for (auto *B : DD->bindings()) {
        J::Object b;
        b["d"] = id(B);
        b["n"] = B->getNameAsString();
        if (auto *HV = B->getHoldingVar()) {
          b["hv"] = id(HV);
          if (HV->getInit()) b["hinit"] = expr(HV->getInit());
        } else if (B->getBinding())
          b["e"] = expr(B->getBinding());
        bs.push_back(std::move(b));
      }
      o["binds"] = std::move(bs);
    }
    if (auto *R = V->getType().getNonReferenceType()->getAsCXXRecordDecl()) {
      record(R);
      if (R->hasDefinition() && R->getDestructor()) need(R->getDestructor());
    }
    return o;
  }

  J::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) {
      J::Object o;
      o["k"] = "expr";
      o["l"] = line(S->getBeginLoc());
      o["e"] = expr(E);
      return o;
    }
    J::Object o;
    o["l"] = line(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      o["k"] = "block";
      o["end"] = line(X->getEndLoc());
      J::Array a;
      for (auto *s : X->body()) a.push_back(stmt(s));
      o["s"] = std::move(a);
    } else if (auto *X = dyn_cast<DeclStmt>(S)) {
      o["k"] = "decl";
      J::Array a;
      for (auto *d : X->decls())
        if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(var(v));
      o["v"] = std::move(a);
    } else if (auto *X = dyn_cast<IfStmt>(S)) {
      o["k"] = "if";
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariableDeclStmt()) o["cv"] = stmt(X->getConditionVariableDeclStmt());
      bool handled = false;
      if (X->isConstexpr()) {
        if (auto v = X->getNondiscardedCase(C)) {
          // only the taken branch exists
          const Stmt *tk = *v;
          J::Object b;
          b["k"] = "block";
          b["l"] = line(S->getBeginLoc());
          J::Array a;
          if (tk) a.push_back(stmt(tk));
          b["s"] = std::move(a);
          return b;
        }
      }
      if (!handled) {
        o["c"] = expr(X->getCond());
        o["a"] = stmt(X->getThen());
        o["b"] = stmt(X->getElse());
      }
    } else if (auto *X = dyn_cast<ForStmt>(S)) {
      o["k"] = "for";
      o["init"] = stmt(X->getInit());
      if (X->getCond()) o["c"] = expr(X->getCond());
      if (X->getInc()) o["inc"] = expr(X->getInc());
      o["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<WhileStmt>(S)) {
      o["k"] = "while";
      if (X->getConditionVariableDeclStmt()) o["cv"] = stmt(X->getConditionVariableDeclStmt());
      o["c"] = expr(X->getCond());
      o["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<DoStmt>(S)) {
      o["k"] = "do";
      o["c"] = expr(X->getCond());
      o["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      o["k"] = "rfor";
      o["v"] = var(X->getLoopVariable());
      o["r"] = expr(X->getRangeInit());
      o["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<ReturnStmt>(S)) {
      o["k"] = "ret";
      if (X->getRetValue()) o["e"] = expr(X->getRetValue());
    } else if (isa<BreakStmt>(S)) {
      o["k"] = "break";
    } else if (isa<ContinueStmt>(S)) {
      o["k"] = "continue";
    } else if (isa<NullStmt>(S)) {
      o["k"] = "block";
      o["s"] = J::Array();
    } else if (auto *X = dyn_cast<SwitchStmt>(S)) {
      o["k"] = "switch";
      o["c"] = expr(X->getCond());
      o["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<CaseStmt>(S)) {
      o["k"] = "case";
      o["c"] = expr(X->getLHS());
      o["s"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
      o["k"] = "default";
      o["s"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      o["k"] = "try";
      o["s"] = stmt(X->getTryBlock());
      J::Array a;
      for (unsigned i = 0; i < X->getNumHandlers(); i++) {
        J::Object h;
        auto *H = X->getHandler(i);
        if (H->getExceptionDecl()) h["v"] = var(H->getExceptionDecl());
        h["s"] = stmt(H->getHandlerBlock());
        a.push_back(std::move(h));
      }
      o["h"] = std::move(a);
    } else if (auto *X = dyn_cast<LabelStmt>(S)) {
      o["k"] = "label";
      o["s"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<AttributedStmt>(S)) {
      return stmt(X->getSubStmt());
    } else {
      o["k"] = "otherstmt";
      o["cls"] = S->getStmtClassName();
    }
    return o;
  }

  void function(const FunctionDecl *F) {
    J::Object o;
    o["id"] = id(F);
    o["qn"] = qn(F);
    o["name"] = F->getNameAsString();
    o["file"] = file(F->getLocation());
    o["l"] = line(F->getLocation());
    o["end"] = line(F->getEndLoc());
    o["ret"] = ty(F->getReturnType());
    o["internal"] = F->getStorageClass() == SC_Static;
    J::Array ps;
    for (auto *p : F->parameters()) ps.push_back(param(p));
    o["ps"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = qn(M->getParent());
      o["clsT"] = ty(C.getRecordType(M->getParent()));
      o["const"] = M->isConst();
      o["static"] = M->isStatic();
      record(M->getParent());
    }
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      J::Array ta;
      for (auto &a : TA->asArray()) {
        std::string s;
        llvm::raw_string_ostream os(s);
        a.print(PP, os, true);
        ta.push_back(os.str());
      }
      o["targs"] = std::move(ta);
    }
    if (auto *D = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = true;
      J::Array is;
      for (auto *I : D->inits()) {
        J::Object io;
        if (I->isMemberInitializer()) {
          io["n"] = I->getMember()->getNameAsString();
        } else {
          io["base"] = true;
        }
        io["e"] = expr(I->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    o["implicit"] = F->isImplicit() || F->isDefaulted();
    o["body"] = stmt(F->getBody());
    funcs.push_back(std::move(o));
  }

  void drain() {
    while (!work.empty()) {
      auto *F = work.back();
      work.pop_back();
      function(F);
    }
  }
};

struct V : RecursiveASTVisitor<V> {
  Dumper &D;
  V(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->doesThisDeclarationHaveABody() && !F->isDependentContext() && D.inProject(F)) {
      if (auto *M = dyn_cast<CXXMethodDecl>(F))
        if (M->getParent()->isLambda()) return true;
      D.need(F);
    }
    return true;
  }
  bool VisitVarDecl(VarDecl *X) {
    if (X->hasGlobalStorage() && !X->isStaticLocal() && D.inProject(X) && !X->getDeclContext()->isDependentContext() &&
        !X->getType()->isDependentType())
      D.globalVar(X);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isCompleteDefinition() && !R->isLambda()) D.record(R);
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C);
    V v(D);
    v.TraverseDecl(C.getTranslationUnitDecl());
    D.drain();
    std::error_code EC;
    llvm::raw_fd_ostream os(OutFile, EC);
    J::Object o;
    o["funcs"] = std::move(D.funcs);
    o["records"] = std::move(D.records);
    o["globals"] = std::move(D.globals);
    os << J::Value(std::move(o));
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};
struct Factory : tooling::FrontendActionFactory {
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};

// usage: cxxdump OUT ROOT[,ROOT...] FILE -- flags
int main(int argc, const char **argv) {
  if (argc < 5) return 2;
  OutFile = argv[1];
  std::string rs = argv[2];
  size_t p = 0;
  while (p <= rs.size()) {
    size_t q = rs.find(',', p);
    if (q == std::string::npos) q = rs.size();
    Roots.push_back(rs.substr(p, q - p));
    p = q + 1;
  }
  std::string f = argv[3];
  std::vector<std::string> flags(argv + 5, argv + argc);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {f});
  T.clearArgumentsAdjusters();
  Factory F;
  return T.run(&F);
}
