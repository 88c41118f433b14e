// Fact extractor: parses one translation unit with clang and prints, as JSON,
// every function defined below the source root: its control flow graph with
// fully linearised expressions, resolved callees, resolved fields, and types.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace J = llvm::json;

static std::string gRoot;

static std::string qname(const Decl *D) {
  std::vector<std::string> parts;
  const NamedDecl *ND = dyn_cast<NamedDecl>(D);
  if (!ND) return "?";
  std::string n;
  if (auto *C = dyn_cast<CXXConstructorDecl>(D)) n = C->getParent()->getNameAsString();
  else if (auto *Dt = dyn_cast<CXXDestructorDecl>(D)) n = "~" + Dt->getParent()->getNameAsString();
  else n = ND->getNameAsString();
  parts.push_back(n);
  const DeclContext *DC = D->getDeclContext();
  while (DC) {
    if (auto *NS = dyn_cast<NamespaceDecl>(DC)) {
      if (!NS->isInlineNamespace() && !NS->isAnonymousNamespace()) parts.push_back(NS->getNameAsString());
    } else if (auto *RD = dyn_cast<RecordDecl>(DC)) {
      parts.push_back(RD->getNameAsString());
    } else if (auto *FD = dyn_cast<FunctionDecl>(DC)) {
      parts.push_back(FD->getNameAsString() + "()");
    }
    DC = DC->getParent();
  }
  std::string r;
  for (auto it = parts.rbegin(); it != parts.rend(); ++it) {
    if (!r.empty()) r += "::";
    r += *it;
  }
  return r;
}

class Extractor {
public:
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  J::Array funcs;
  J::Object classes;
  std::set<const Decl *> seen;

  Extractor(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
  }

  bool inRoot(SourceLocation L, std::string *fn = nullptr) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    StringRef F = SM.getFilename(L);
    if (!F.starts_with(gRoot)) return false;
    if (fn) *fn = F.substr(gRoot.size()).str();
    return true;
  }
  int line(SourceLocation L) { return L.isValid() ? (int)SM.getExpansionLineNumber(L) : 0; }
  std::string ty(QualType T) { return T.isNull() ? "" : T.getCanonicalType().getUnqualifiedType().getAsString(PP); }

  std::string sig(const FunctionDecl *FD) {
    FD = FD->getCanonicalDecl();
    std::string s = qname(FD) + "(";
    bool first = true;
    for (auto *P : FD->parameters()) {
      if (!first) s += ",";
      first = false;
      s += P->getType().getCanonicalType().getAsString(PP);
    }
    s += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) if (M->isConst()) s += "const";
    return s;
  }

  // ---- per function state
  std::map<const Stmt *, int> ids;
  std::map<const Decl *, int> vids;
  J::Object nodes;
  J::Object vars;
  int nextId = 0;

  int vid(const ValueDecl *D) {
    const Decl *C = D->getCanonicalDecl();
    auto it = vids.find(C);
    if (it != vids.end()) return it->second;
    int n = (int)vids.size();
    vids[C] = n;
    J::Object o;
    o["n"] = D->getNameAsString();
    o["t"] = ty(D->getType());
    const char *k = "l";
    if (isa<ParmVarDecl>(D)) k = "p";
    else if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->isStaticLocal()) k = "s";
      else if (!V->isLocalVarDecl()) k = "g";
      if (V->hasGlobalStorage()) o["q"] = qname(V);
      o["const"] = V->getType().isConstQualified();
    }
    if (D->getType()->isReferenceType()) o["ref"] = true;
    o["k"] = k;
    vars[std::to_string(n)] = std::move(o);
    return n;
  }

  const Expr *strip(const Expr *E) {
    while (E) {
      if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<FullExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ImplicitCastExpr>(E)) {
        // keep user conversions (the sub-expression is the conversion call)
        if (P->getCastKind() == CK_FloatingToIntegral) return E;
        E = P->getSubExpr(); continue;
      }
      if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
      if (auto *P = dyn_cast<ExplicitCastExpr>(E)) {
        CastKind K = P->getCastKind();
        if (isa<CXXFunctionalCastExpr>(P) && K == CK_ConstructorConversion) { E = P->getSubExpr(); continue; }
        if (K == CK_NoOp || K == CK_LValueToRValue) { E = P->getSubExpr(); continue; }
      }
      if (auto *P = dyn_cast<CXXConstructExpr>(E)) {
        if (P->getNumArgs() == 1 && P->getConstructor()->isCopyOrMoveConstructor()) {
          // copies are value preserving for this analysis
          E = P->getArg(0); continue;
        }
      }
      break;
    }
    return E;
  }

  int id(const Expr *E0) {
    if (!E0) return -1;
    const Expr *E = strip(E0);
    if (!E) return -1;
    auto it = ids.find(E);
    if (it != ids.end()) return it->second;
    int n = nextId++;
    ids[E] = n;
    J::Array a = emit(E);
    nodes[std::to_string(n)] = std::move(a);
    return n;
  }

  J::Array kids(const Stmt *S) {
    J::Array r;
    for (auto *c : S->children())
      if (auto *E = dyn_cast_or_null<Expr>(c)) r.push_back(id(E));
    return r;
  }

  J::Array mk(const char *k, const Expr *E) {
    J::Array a;
    a.push_back(k);
    a.push_back(line(E->getExprLoc()));
    a.push_back(ty(E->getType()));
    return a;
  }

  J::Array emit(const Expr *E) {
    // constants first
    if (!E->isValueDependent() && !E->isTypeDependent() && E->isPRValue() &&
        (E->getType()->isIntegralOrEnumerationType()) ) {
      Expr::EvalResult R;
      if (!isa<CallExpr>(E) && E->EvaluateAsInt(R, Ctx) && !R.HasSideEffects) {
        J::Array a = mk("int", E);
        a.push_back((int64_t)R.Val.getInt().getExtValue());
        return a;
      }
    }
    if (auto *I = dyn_cast<IntegerLiteral>(E)) { auto a = mk("int", E); a.push_back((int64_t)I->getValue().getLimitedValue()); return a; }
    if (auto *I = dyn_cast<CharacterLiteral>(E)) { auto a = mk("int", E); a.push_back((int64_t)I->getValue()); return a; }
    if (auto *I = dyn_cast<CXXBoolLiteralExpr>(E)) { auto a = mk("int", E); a.push_back((int64_t)I->getValue()); return a; }
    if (auto *F = dyn_cast<FloatingLiteral>(E)) { auto a = mk("flt", E); a.push_back(F->getValueAsApproximateDouble()); return a; }
    if (auto *S = dyn_cast<StringLiteral>(E)) {
      auto a = mk("str", E);
      std::string v = S->getCharByteWidth() == 1 ? S->getString().str() : "?";
      if (!J::isUTF8(v)) v = J::fixUTF8(v);
      a.push_back(v); return a; }
    if (isa<PredefinedExpr>(E)) { auto a = mk("str", E); a.push_back("__func__"); return a; }
    if (isa<GNUNullExpr>(E) || isa<CXXNullPtrLiteralExpr>(E)) return mk("null", E);
    if (isa<CXXThisExpr>(E)) return mk("this", E);
    if (auto *D = dyn_cast<DeclRefExpr>(E)) {
      if (auto *EC = dyn_cast<EnumConstantDecl>(D->getDecl())) { auto a = mk("int", E); a.push_back((int64_t)EC->getInitVal().getExtValue()); return a; }
      if (isa<FunctionDecl>(D->getDecl())) { auto a = mk("fn", E); a.push_back(qname(D->getDecl())); return a; }
      if (auto *V = dyn_cast<VarDecl>(D->getDecl())) {
        auto a = mk("var", E); a.push_back(vid(V)); return a;
      }
      auto a = mk("opq", E); a.push_back(J::Array()); a.push_back(qname(D->getDecl())); return a;
    }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) {
        auto a = mk("fld", E); a.push_back(id(M->getBase())); a.push_back(qname(F)); a.push_back(M->isArrow()); return a;
      }
      if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) { auto a = mk("var", E); a.push_back(vid(V)); return a; }
      auto a = mk("opq", E); a.push_back(kids(E)); a.push_back("member"); return a;
    }
    if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) { auto a = mk("idx", E); a.push_back(id(A->getBase())); a.push_back(id(A->getIdx())); return a; }
    if (auto *U = dyn_cast<UnaryOperator>(E)) {
      switch (U->getOpcode()) {
      case UO_Deref: { auto a = mk("drf", E); a.push_back(id(U->getSubExpr())); return a; }
      case UO_AddrOf: { auto a = mk("adr", E); a.push_back(id(U->getSubExpr())); return a; }
      case UO_PreInc: case UO_PreDec: case UO_PostInc: case UO_PostDec: {
        auto a = mk("inc", E);
        a.push_back(U->isIncrementOp() ? (U->isPrefix() ? "++x" : "x++") : (U->isPrefix() ? "--x" : "x--"));
        a.push_back(id(U->getSubExpr())); return a; }
      case UO_Extension: case UO_Plus: { auto a = mk("un", E); a.push_back("+"); a.push_back(id(U->getSubExpr())); return a; }
      default: { auto a = mk("un", E); a.push_back(UnaryOperator::getOpcodeStr(U->getOpcode()).str()); a.push_back(id(U->getSubExpr())); return a; }
      }
    }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      if (B->isAssignmentOp()) {
        auto a = mk("asg", E); a.push_back(B->getOpcodeStr().str()); a.push_back(id(B->getLHS())); a.push_back(id(B->getRHS())); return a;
      }
      auto a = mk("bin", E); a.push_back(B->getOpcodeStr().str()); a.push_back(id(B->getLHS())); a.push_back(id(B->getRHS())); return a;
    }
    if (auto *C = dyn_cast<ConditionalOperator>(E)) {
      auto a = mk("cnd", E); a.push_back(id(C->getCond())); a.push_back(id(C->getTrueExpr())); a.push_back(id(C->getFalseExpr())); return a;
    }
    if (auto *C = dyn_cast<CallExpr>(E)) {
      auto a = mk("call", E);
      const FunctionDecl *FD = C->getDirectCallee();
      J::Array args;
      int obj = -1;
      bool virt = false;
      std::string op;
      unsigned start = 0;
      if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
        if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) {
          obj = id(MC->getImplicitObjectArgument());
          if (auto *MD = dyn_cast_or_null<CXXMethodDecl>(FD))
            virt = MD->isVirtual() && !ME->hasQualifier();
        }
      } else if (auto *OC = dyn_cast<CXXOperatorCallExpr>(E)) {
        op = getOperatorSpelling(OC->getOperator());
        if (FD && isa<CXXMethodDecl>(FD) && OC->getNumArgs() > 0) { obj = id(OC->getArg(0)); start = 1; }
      }
      for (unsigned i = start; i < C->getNumArgs(); ++i) args.push_back(id(C->getArg(i)));
      J::Array modes; // how each argument is passed: v value, r mutable ref, c const ref, p pointer to non-const, q pointer to const
      if (FD) for (auto *P : FD->parameters()) modes.push_back(mode(P->getType()));
      a.push_back(FD ? sig(FD) : std::string("?indirect"));
      a.push_back(FD ? qname(FD) : std::string("?indirect"));
      a.push_back(obj);
      a.push_back(std::move(args));
      a.push_back(virt);
      a.push_back(op);
      a.push_back(std::move(modes));
      bool cst = false;
      if (auto *MD = dyn_cast_or_null<CXXMethodDecl>(FD)) cst = MD->isConst() || MD->isStatic();
      a.push_back(cst);
      if (!FD) a.push_back(id(C->getCallee()));
      return a;
    }
    if (auto *N = dyn_cast<CXXNewExpr>(E)) {
      auto a = mk("new", E);
      a.push_back(ty(N->getAllocatedType()));
      a.push_back(N->isArray());
      a.push_back(N->getInitializer() ? id(N->getInitializer()) : -1);
      a.push_back(N->isArray() && N->getArraySize() ? id(*N->getArraySize()) : -1);
      return a;
    }
    if (auto *N = dyn_cast<CXXDeleteExpr>(E)) { auto a = mk("del", E); a.push_back(id(N->getArgument())); a.push_back(N->isArrayForm()); return a; }
    if (auto *N = dyn_cast<CXXConstructExpr>(E)) {
      auto a = mk("ctor", E);
      J::Array args, modes;
      for (auto *x : N->arguments()) args.push_back(id(x));
      for (auto *P : N->getConstructor()->parameters()) modes.push_back(mode(P->getType()));
      a.push_back(sig(N->getConstructor())); a.push_back(qname(N->getConstructor())); a.push_back(std::move(args)); a.push_back(std::move(modes));
      return a;
    }
    if (auto *N = dyn_cast<CastExpr>(E)) {
      auto a = mk("cast", E);
      const char *k = "c";
      if (isa<CXXDynamicCastExpr>(N)) k = "dyn";
      else if (isa<CXXReinterpretCastExpr>(N)) k = "re";
      else if (N->getCastKind() == CK_FloatingToIntegral) k = "f2i";
      else if (N->getCastKind() == CK_BaseToDerived) k = "b2d";
      a.push_back(k); a.push_back(id(N->getSubExpr())); return a;
    }
    if (auto *I = dyn_cast<InitListExpr>(E)) {
      auto a = mk("ilist", E); J::Array k; for (auto *x : I->inits()) k.push_back(id(x)); a.push_back(std::move(k)); return a; }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { 
      if (E->getType()->isPointerType()) return mk("null", E);
      auto a = mk("int", E); a.push_back((int64_t)0); return a; }
    if (auto *T = dyn_cast<CXXThrowExpr>(E)) { auto a = mk("throw", E); a.push_back(id(T->getSubExpr())); return a; }
    auto a = mk("opq", E);
    a.push_back(kids(E));
    a.push_back(E->getStmtClassName());
    return a;
  }

  std::string mode(QualType T) {
    if (T->isLValueReferenceType() || T->isRValueReferenceType()) return T->getPointeeType().isConstQualified() ? "c" : "r";
    if (T->isPointerType()) return T->getPointeeType().isConstQualified() ? "q" : "p";
    return "v";
  }

  void doFunction(const FunctionDecl *FD) {
    if (!FD->hasBody() || FD->isDependentContext()) return;
    if (!FD->isThisDeclarationADefinition()) return;
    if (FD->isImplicit() || FD->isDefaulted()) return;
    std::string file;
    if (!inRoot(FD->getLocation(), &file)) return;
    if (!seen.insert(FD).second) return;
    ids.clear(); vids.clear(); nodes = J::Object(); vars = J::Object(); nextId = 0;
    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddImplicitDtors = true;
    BO.AddInitializers = true;
    BO.AddEHEdges = false;
    BO.PruneTriviallyFalseEdges = false;
    std::unique_ptr<CFG> G = CFG::buildCFG(FD, FD->getBody(), &Ctx, BO);
    if (!G) { llvm::errs() << "no CFG for " << sig(FD) << "\n"; return; }
    J::Object f;
    f["sig"] = sig(FD);
    f["name"] = qname(FD);
    f["file"] = file;
    f["line"] = line(FD->getLocation());
    f["end"] = line(FD->getBody()->getEndLoc());
    f["ret"] = ty(FD->getReturnType());
    f["linkage"] = FD->isExternallyVisible();
    J::Array ps;
    for (auto *P : FD->parameters()) {
      J::Object p; p["v"] = vid(P); p["n"] = P->getNameAsString(); p["t"] = ty(P->getType()); p["m"] = mode(P->getType());
      ps.push_back(std::move(p));
    }
    f["params"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
      f["cls"] = qname(M->getParent());
      f["virt"] = M->isVirtual();
      f["const"] = M->isConst();
      f["static"] = M->isStatic();
      f["access"] = (int)M->getAccess();
      J::Array ov;
      for (auto *O : M->overridden_methods()) ov.push_back(sig(O));
      f["over"] = std::move(ov);
      f["kind"] = isa<CXXConstructorDecl>(FD) ? "ctor" : isa<CXXDestructorDecl>(FD) ? "dtor" : "method";
    } else f["kind"] = "func";

    J::Object blocks;
    for (CFGBlock *B : *G) {
      J::Object b;
      J::Array el;
      for (auto &Elt : *B) {
        if (auto S = Elt.getAs<CFGStmt>()) {
          const Stmt *St = S->getStmt();
          if (auto *DS = dyn_cast<DeclStmt>(St)) {
            for (auto *D : DS->decls())
              if (auto *V = dyn_cast<VarDecl>(D)) {
                J::Array a; a.push_back("decl"); a.push_back(line(V->getLocation())); a.push_back(vid(V));
                a.push_back(V->getInit() ? id(V->getInit()) : -1);
                el.push_back(std::move(a));
              }
          } else if (auto *R = dyn_cast<ReturnStmt>(St)) {
            J::Array a; a.push_back("ret"); a.push_back(line(R->getReturnLoc())); a.push_back(R->getRetValue() ? id(R->getRetValue()) : -1);
            el.push_back(std::move(a));
          } else if (auto *E = dyn_cast<Expr>(St)) {
            if (strip(E) != E) continue;
            el.push_back(id(E));
          }
        } else if (auto I = Elt.getAs<CFGInitializer>()) {
          const CXXCtorInitializer *CI = I->getInitializer();
          J::Array a;
          if (CI->isAnyMemberInitializer()) {
            a.push_back("init"); a.push_back(line(CI->getSourceLocation())); a.push_back(qname(CI->getAnyMember())); a.push_back(id(CI->getInit()));
          } else {
            a.push_back("binit"); a.push_back(line(CI->getSourceLocation()));
            a.push_back(CI->getBaseClass() ? ty(QualType(CI->getBaseClass(), 0)) : std::string("self"));
            a.push_back(id(CI->getInit()));
          }
          el.push_back(std::move(a));
        } else if (auto D = Elt.getAs<CFGAutomaticObjDtor>()) {
          J::Array a; a.push_back("dtor"); a.push_back(line(D->getTriggerStmt() ? D->getTriggerStmt()->getEndLoc() : SourceLocation()));
          a.push_back(vid(D->getVarDecl()));
          el.push_back(std::move(a));
        }
      }
      b["e"] = std::move(el);
      J::Array succ;
      for (auto &S : B->succs()) {
        CFGBlock *T = S.getReachableBlock();
        if (!T) T = S.getPossiblyUnreachableBlock();
        if (T) succ.push_back((int)T->getBlockID()); else succ.push_back(nullptr);
      }
      b["s"] = std::move(succ);
      if (const Stmt *T = B->getTerminatorStmt()) {
        J::Object t;
        t["k"] = T->getStmtClassName();
        t["line"] = line(T->getBeginLoc());
        if (auto *E = dyn_cast<Expr>(T)) {
          const Expr *SE = strip(E);
          t["own"] = id(SE);
        }
        const Expr *C = nullptr;
        if (B->succ_size() > 1) {
          if (isa<SwitchStmt>(T)) C = cast<SwitchStmt>(T)->getCond();
          else C = B->getLastCondition();
          if (!C) { if (auto *X = dyn_cast_or_null<Expr>(B->getTerminatorCondition())) C = X; }
        }
        t["c"] = C ? id(C) : -1;
        b["t"] = std::move(t);
      }
      if (const Stmt *L = B->getLabel()) {
        J::Array lab;
        const Stmt *X = L;
        // nested case labels share the block
        while (X) {
          if (auto *CS = dyn_cast<CaseStmt>(X)) {
            Expr::EvalResult R;
            if (CS->getLHS()->EvaluateAsInt(R, Ctx)) lab.push_back((int64_t)R.Val.getInt().getExtValue());
            break;
          } else if (isa<DefaultStmt>(X)) { lab.push_back("default"); break; }
          else if (isa<CXXCatchStmt>(X)) { lab.push_back("catch"); break; }
          else { lab.push_back("label"); break; }
        }
        b["l"] = std::move(lab);
      }
      blocks[std::to_string(B->getBlockID())] = std::move(b);
    }
    f["entry"] = (int)G->getEntry().getBlockID();
    f["exit"] = (int)G->getExit().getBlockID();
    f["b"] = std::move(blocks);
    f["x"] = std::move(nodes);
    f["v"] = std::move(vars);
    funcs.push_back(std::move(f));
  }

  void doClass(const CXXRecordDecl *RD) {
    RD = RD->getDefinition();
    if (!RD || RD->isDependentContext() || !inRoot(RD->getLocation())) return;
    std::string n = qname(RD);
    if (classes.get(n)) return;
    J::Object c;
    J::Array bases, fields, methods;
    for (auto &B : RD->bases()) bases.push_back(ty(B.getType()));
    for (auto *F : RD->fields()) { J::Array a; a.push_back(F->getNameAsString()); a.push_back(ty(F->getType())); a.push_back((int)F->getAccess());
      a.push_back(F->hasInClassInitializer()); fields.push_back(std::move(a)); }
    for (auto *M : RD->methods()) { if (M->isImplicit()) continue;
      J::Array a; a.push_back(sig(M)); a.push_back((int)M->getAccess()); a.push_back(M->isVirtual());
      J::Array ov; for (auto *O : M->overridden_methods()) ov.push_back(sig(O));
      a.push_back(std::move(ov)); a.push_back(M->isPureVirtual()); methods.push_back(std::move(a)); }
    std::string file; inRoot(RD->getLocation(), &file);
    c["bases"] = std::move(bases); c["fields"] = std::move(fields); c["methods"] = std::move(methods); c["file"] = file;
    c["line"] = line(RD->getLocation());
    classes[n] = std::move(c);
  }
};

class V : public RecursiveASTVisitor<V> {
public:
  Extractor &X;
  V(Extractor &E) : X(E) {}
  bool VisitFunctionDecl(FunctionDecl *FD) { X.doFunction(FD); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *RD) { if (RD->isThisDeclarationADefinition()) X.doClass(RD); return true; }
  J::Object globals;
  bool VisitVarDecl(VarDecl *VD) {
    if (!VD->hasGlobalStorage() || !VD->hasInit() || !X.inRoot(VD->getLocation())) return true;
    if (VD->getType()->isDependentType() || VD->getInit()->isValueDependent()) return true;
    J::Object o;
    o["t"] = X.ty(VD->getType());
    o["const"] = VD->getType().isConstQualified() || (VD->getType()->isArrayType() && VD->getType()->getAsArrayTypeUnsafe()->getElementType().isConstQualified());
    const Expr *I = X.strip(VD->getInit());
    J::Array items;
    if (auto *L = dyn_cast<InitListExpr>(I)) {
      for (auto *e : L->inits()) items.push_back(scalar(e));
    } else items.push_back(scalar(I));
    o["init"] = std::move(items);
    std::string file; X.inRoot(VD->getLocation(), &file); o["file"] = file; o["line"] = X.line(VD->getLocation());
    globals[qname(VD)] = std::move(o);
    return true;
  }
  J::Value scalar(const Expr *e) {
    e = X.strip(e);
    // std::string initialised from a literal
    const Expr *q = e;
    for (int i = 0; i < 12 && q; ++i) {
      if (auto *L = dyn_cast<StringLiteral>(q)) { if (L->getCharByteWidth() == 1) return L->getString().str(); break; }
      if (auto *W = dyn_cast<ExprWithCleanups>(q)) q = W->getSubExpr();
      else if (auto *B = dyn_cast<CXXBindTemporaryExpr>(q)) q = B->getSubExpr();
      else if (auto *M = dyn_cast<MaterializeTemporaryExpr>(q)) q = M->getSubExpr();
      else if (auto *K = dyn_cast<CastExpr>(q)) q = K->getSubExpr();
      else if (auto *CC = dyn_cast<CXXConstructExpr>(q)) q = CC->getNumArgs() ? CC->getArg(0) : nullptr;
      else break;
    }
    Expr::EvalResult R;
    if (auto *S = dyn_cast<StringLiteral>(e)) return J::Value(J::fixUTF8(S->getString()));
    if (auto *L = dyn_cast<InitListExpr>(e)) { J::Array a; for (auto *k : L->inits()) a.push_back(scalar(k)); return J::Value(std::move(a)); }
    if (e->getType()->isIntegralOrEnumerationType() && e->EvaluateAsInt(R, X.Ctx)) return J::Value((int64_t)R.Val.getInt().getExtValue());
    llvm::APFloat F(0.0);
    if (e->getType()->isRealFloatingType() && e->EvaluateAsFloat(F, X.Ctx)) return J::Value(F.convertToDouble());
    return J::Value(nullptr);
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
};

class Cons : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Extractor E(C);
    V v(E);
    v.TraverseDecl(C.getTranslationUnitDecl());
    J::Object o;
    o["funcs"] = std::move(E.funcs);
    o["classes"] = std::move(E.classes);
    o["globals"] = std::move(v.globals);
    llvm::outs() << J::Value(std::move(o)) << "\n";
  }
};
class Act : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};

int main(int argc, const char **argv) {
  if (argc < 3) return 2;
  gRoot = argv[1];
  std::vector<std::string> src{argv[2]};
  std::vector<std::string> fl(argv + 3, argv + argc);
  tooling::FixedCompilationDatabase DB(".", fl);
  tooling::ClangTool T(DB, src);
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
