// astx: export the type-resolved program (AST + clang::CFG) of the functions
// that are defined under a given root directory, as JSON.  No code of the
// analysed repository is executed: this is a frontend action over the sources.
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/RecordLayout.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> Roots;
static std::string OutFile;
static bool Light;  // declarations and layouts only

namespace {

class Exporter {
 public:
  ASTContext& Ctx;
  SourceManager& SM;
  Array Types;
  std::map<const void*, int> TypeIds;
  Object Functions, Records, Enums, Globals;
  Array Decls;
  std::set<std::string> Pending;
  std::map<const Stmt*, int> NodeIds;
  std::map<const Decl*, int> DeclIds;
  int NextNode = 1, NextDecl = 1;

  Exporter(ASTContext& C) : Ctx(C), SM(C.getSourceManager()) {}

  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    StringRef F = SM.getFilename(L);
    for (auto& R : Roots)
      if (F.starts_with(R)) return true;
    return false;
  }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return SM.getFilename(L).str();
  }
  int line(SourceLocation L) {
    if (L.isInvalid()) return 0;
    return (int)SM.getExpansionLineNumber(L);
  }
  int declId(const Decl* D) {
    D = D->getCanonicalDecl();
    auto it = DeclIds.find(D);
    if (it != DeclIds.end()) return it->second;
    return DeclIds[D] = NextDecl++;
  }
  std::string usr(const Decl* D) {
    llvm::SmallString<128> B;
    if (index::generateUSRForDecl(D, B)) return "";
    return std::string(B.str());
  }
  std::string qname(const NamedDecl* D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    PrintingPolicy P(Ctx.getLangOpts());
    P.SuppressTemplateArgsInCXXConstructors = true;
    // walk contexts to build a name without template arguments
    std::vector<std::string> parts;
    parts.push_back(D->getNameAsString());
    const DeclContext* DC = D->getDeclContext();
    while (DC && !DC->isTranslationUnit()) {
      if (auto* ND = dyn_cast<NamespaceDecl>(DC)) {
        if (!ND->isInline() && !ND->isAnonymousNamespace())
          parts.push_back(ND->getNameAsString());
      } else if (auto* RD = dyn_cast<RecordDecl>(DC))
        parts.push_back(RD->getNameAsString());
      else if (auto* FD = dyn_cast<FunctionDecl>(DC))
        parts.push_back(FD->getNameAsString());
      DC = DC->getParent();
    }
    std::string R;
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) {
      if (!R.empty()) R += "::";
      R += *it;
    }
    return R;
  }

  Array targs(llvm::ArrayRef<TemplateArgument> Args) {
    Array A;
    for (auto& T : Args) {
      switch (T.getKind()) {
        case TemplateArgument::Type:
          A.push_back(Object{{"t", type(T.getAsType())}});
          break;
        case TemplateArgument::Integral:
          A.push_back(Object{{"i", T.getAsIntegral().getExtValue()}});
          break;
        case TemplateArgument::Pack: {
          for (auto& x : targs(T.getPackAsArray())) A.push_back(std::move(x));
          break;
        }
        default:
          A.push_back(nullptr);
      }
    }
    return A;
  }

  int type(QualType Q) {
    if (Q.isNull()) return -1;
    Q = Q.getCanonicalType();
    const void* K = Q.getAsOpaquePtr();
    auto it = TypeIds.find(K);
    if (it != TypeIds.end()) return it->second;
    int id = (int)Types.size();
    TypeIds[K] = id;
    Types.push_back(nullptr);
    Object O;
    O["s"] = Q.getAsString().substr(0, 300);
    if (Q.isConstQualified()) O["c"] = 1;
    const Type* T = Q.getTypePtr();
    if (auto* B = dyn_cast<BuiltinType>(T)) {
      if (B->getKind() == BuiltinType::Bool) O["k"] = "bool";
      else if (B->isInteger()) {
        O["k"] = B->isUnsignedInteger() ? "uint" : "int";
        O["w"] = (int)Ctx.getTypeSize(Q);
      } else if (B->isFloatingPoint()) O["k"] = "float";
      else if (B->isVoidType()) O["k"] = "void";
      else O["k"] = "other";
    } else if (auto* P = dyn_cast<PointerType>(T)) {
      O["k"] = "ptr"; O["e"] = type(P->getPointeeType());
    } else if (auto* P = dyn_cast<ReferenceType>(T)) {
      O["k"] = isa<RValueReferenceType>(T) ? "rref" : "ref";
      O["e"] = type(P->getPointeeType());
    } else if (auto* A = dyn_cast<ConstantArrayType>(T)) {
      O["k"] = "arr"; O["e"] = type(A->getElementType());
      O["z"] = (int64_t)A->getSize().getZExtValue();
    } else if (isa<ArrayType>(T)) {
      O["k"] = "arr"; O["e"] = type(cast<ArrayType>(T)->getElementType());
    } else if (auto* E = dyn_cast<EnumType>(T)) {
      O["k"] = "enum"; O["n"] = qname(E->getDecl());
      exportEnum(E->getDecl());
    } else if (auto* F = dyn_cast<FunctionProtoType>(T)) {
      O["k"] = "fn"; O["e"] = type(F->getReturnType());
    } else if (auto* R = dyn_cast<RecordType>(T)) {
      const RecordDecl* RD = R->getDecl();
      O["k"] = "rec";
      O["n"] = qname(RD);
      if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(RD))
        O["a"] = targs(S->getTemplateArgs().asArray());
      if (auto* CX = dyn_cast<CXXRecordDecl>(RD))
        if (CX->isLambda()) O["lam"] = 1;
      if (inRoot(RD->getLocation())) {
        O["r"] = exportRecord(RD);
      }
    } else
      O["k"] = "other";
    Types[id] = std::move(O);
    return id;
  }

  std::set<const Decl*> doneRec;
  std::string exportRecord(const RecordDecl* RD) {
    std::string key = usr(RD);
    RD = RD->getDefinition();
    if (!RD) return key;
    if (!doneRec.insert(RD).second) return key;
    Object O;
    O["n"] = qname(RD);
    O["file"] = fileOf(RD->getLocation());
    O["l"] = line(RD->getLocation());
    Array F;
    for (auto* FD : RD->fields()) {
      Object f{{"n", FD->getNameAsString()}, {"t", type(FD->getType())},
               {"d", declId(FD)}, {"l", line(FD->getLocation())}};
      if (FD->isMutable()) f["mut"] = 1;
      if (!Light && FD->hasInClassInitializer() && FD->getInClassInitializer())
        f["init"] = node(FD->getInClassInitializer());
      F.push_back(std::move(f));
    }
    O["f"] = std::move(F);
    if (Light && !RD->isInvalidDecl() && !RD->isDependentType()) {
      const ASTRecordLayout& L = Ctx.getASTRecordLayout(RD);
      O["size"] = (int64_t)L.getSize().getQuantity();
      O["align"] = (int64_t)L.getAlignment().getQuantity();
      Array off;
      for (unsigned i = 0; i < L.getFieldCount(); ++i)
        off.push_back((int64_t)L.getFieldOffset(i));
      O["off"] = std::move(off);
    }
    if (auto* CX = dyn_cast<CXXRecordDecl>(RD)) {
      if (Light) {
        Array V;  // slots of the table of virtual functions, in order
        for (auto* M : CX->methods())
          if (M->isVirtual()) V.push_back(fkey(M));
        O["virt"] = std::move(V);
      }
      Array B;
      for (auto& b : CX->bases()) B.push_back(type(b.getType()));
      O["b"] = std::move(B);
      if (CX->isLambda()) O["lam"] = 1;
      O["ucopy"] = CX->hasUserDeclaredCopyConstructor();
      O["ucopyassign"] = CX->hasUserDeclaredCopyAssignment();
      O["udtor"] = CX->hasUserDeclaredDestructor();
      const FunctionDecl* Def = nullptr;
      if (auto* D = CX->getDestructor())
        if (D->isUserProvided() && D->hasBody(Def) && inRoot(Def->getLocation()))
          exportFunction(Def);
    }
    Records[key] = std::move(O);
    return key;
  }
  std::set<const Decl*> doneEnum;
  void exportEnum(const EnumDecl* E) {
    if (E->getDefinition()) E = E->getDefinition();
    if (!doneEnum.insert(E).second) return;
    Object O;
    O["n"] = qname(E);
    O["root"] = inRoot(E->getLocation());
    O["file"] = fileOf(E->getLocation());
    O["l"] = line(E->getLocation());
    O["size"] = (int64_t)Ctx.getTypeSize(E->getIntegerType());
    Array V;
    for (auto* C : E->enumerators())
      V.push_back(Object{{"n", C->getNameAsString()},
                         {"v", C->getInitVal().getExtValue()},
                         {"l", line(C->getLocation())}});
    O["v"] = std::move(V);
    Enums[usr(E)] = std::move(O);
  }

  Object callee(const FunctionDecl* FD) {
    Object O;
    O["n"] = qname(FD);
    O["u"] = fkey(FD);
    if (auto* A = FD->getTemplateSpecializationArgs())
      O["a"] = targs(A->asArray());
    O["r"] = type(FD->getReturnType());
    if (auto* M = dyn_cast<CXXMethodDecl>(FD)) {
      O["m"] = M->isStatic() ? 2 : 1;
      O["cls"] = type(Ctx.getRecordType(M->getParent()));
      if (M->isVirtual()) O["virt"] = 1;
      if (M->isConst()) O["const"] = 1;
      if (auto* CC = dyn_cast<CXXConstructorDecl>(M)) {
        if (CC->isCopyConstructor()) O["copy"] = 1;
        if (CC->isMoveConstructor()) O["move"] = 1;
        if (CC->isImplicit() || CC->isDefaulted()) O["impl"] = 1;
      } else if (M->isCopyAssignmentOperator() ||
                 M->isMoveAssignmentOperator()) {
        O["copy"] = 1;
        if (M->isImplicit() || M->isDefaulted()) O["impl"] = 1;
      }
    }
    Array P;
    for (auto* p : FD->parameters()) P.push_back(type(p->getType()));
    O["p"] = std::move(P);
    const FunctionDecl* Def = nullptr;
    if (FD->hasBody(Def) && inRoot(Def->getLocation())) {
      O["def"] = 1;
      exportFunction(Def);
    }
    return O;
  }
  std::string fkey(const FunctionDecl* FD) {
    std::string k = usr(FD->getCanonicalDecl());
    // a const parameter taken by value is not part of the signature: the
    // declaration and the definition may differ in it
    for (size_t p = 0; (p = k.find("#1", p)) != std::string::npos; ++p)
      k.erase(p + 1, 1);
    return k;
  }

  std::set<const Decl*> doneFn;
  void exportFunction(const FunctionDecl* FD) {
    if (FD->isDependentContext()) return;
    if (!doneFn.insert(FD->getCanonicalDecl()).second) return;
    if (Light || !FD->getBody()) return;
    Object O;
    O["n"] = qname(FD);
    O["file"] = fileOf(FD->getLocation());
    O["l"] = line(FD->getLocation());
    O["le"] = line(FD->getEndLoc());
    O["r"] = type(FD->getReturnType());
    if (auto* A = FD->getTemplateSpecializationArgs())
      O["a"] = targs(A->asArray());
    O["inl"] = FD->isInlined();
    O["ext"] = FD->isExternallyVisible();
    O["implicit"] = FD->isImplicit() || FD->isDefaulted();
    if (auto* M = dyn_cast<CXXMethodDecl>(FD)) {
      O["m"] = M->isStatic() ? 2 : 1;
      O["cls"] = type(Ctx.getRecordType(M->getParent()));
      if (M->isConst()) O["const"] = 1;
    }
    Array P;
    for (auto* p : FD->parameters()) {
      Object q{{"n", p->getNameAsString()}, {"d", declId(p)},
               {"t", type(p->getType())}};
      if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() &&
          !p->hasUnparsedDefaultArg())
        q["de"] = node(p->getDefaultArg());
      P.push_back(std::move(q));
    }
    O["p"] = std::move(P);
    if (auto* C = dyn_cast<CXXConstructorDecl>(FD)) {
      Array I;
      for (auto* in : C->inits()) {
        Object q;
        if (in->isMemberInitializer()) {
          q["f"] = in->getMember()->getNameAsString();
          q["d"] = declId(in->getMember());
        } else if (in->isBaseInitializer())
          q["base"] = type(QualType(in->getBaseClass(), 0));
        else if (in->isDelegatingInitializer())
          q["deleg"] = 1;
        if (in->isWritten()) q["w"] = 1;
        q["l"] = line(in->getSourceLocation());
        q["e"] = node(in->getInit());
        I.push_back(std::move(q));
      }
      O["ctor"] = 1;
      O["init"] = std::move(I);
    }
    if (isa<CXXDestructorDecl>(FD)) O["dtor"] = 1;
    O["body"] = node(FD->getBody());
    // CFG
    CFG::BuildOptions BO;
    BO.AddImplicitDtors = false;
    BO.AddInitializers = true;
    BO.setAllAlwaysAdd();
    auto cfg = CFG::buildCFG(FD, FD->getBody(), &Ctx, BO);
    if (cfg) {
      Array Bs;
      for (auto* B : *cfg) {
        Object b;
        b["id"] = (int)B->getBlockID();
        Array E;
        for (auto& el : *B)
          if (auto S = el.getAs<CFGStmt>()) {
            auto it = NodeIds.find(S->getStmt());
            if (it != NodeIds.end()) E.push_back(it->second);
          }
        b["e"] = std::move(E);
        Array S;
        for (auto s = B->succ_begin(); s != B->succ_end(); ++s) {
          if (const CFGBlock* t = s->getReachableBlock())
            S.push_back((int)t->getBlockID());
          else
            S.push_back(nullptr);
        }
        b["s"] = std::move(S);
        if (auto* T = B->getTerminatorStmt()) {
          auto it = NodeIds.find(T);
          b["t"] = it != NodeIds.end() ? it->second : 0;
          b["tk"] = T->getStmtClassName();
        }
        if (auto* T = B->getTerminatorCondition()) {
          const Stmt* t = T;
          if (auto* te = dyn_cast<Expr>(t)) t = te->IgnoreParenImpCasts();
          auto it = NodeIds.find(t);
          if (it != NodeIds.end()) b["tc"] = it->second;
        }
        if (B->hasNoReturnElement()) b["nr"] = 1;
        Bs.push_back(std::move(b));
      }
      O["cfg"] = Object{{"entry", (int)cfg->getEntry().getBlockID()},
                        {"exit", (int)cfg->getExit().getBlockID()},
                        {"b", std::move(Bs)}};
    }
    Functions[fkey(FD)] = std::move(O);
  }

  // what is declared: every declaration of a function or variable at
  // namespace or class scope (templates once, as written)
  void exportDecl(const FunctionDecl* F) {
    if (F->isImplicit() || F->isInvalidDecl()) return;
    if (F->getTemplateSpecializationKind() == TSK_ImplicitInstantiation) return;
    for (auto* C = F->getDeclContext(); C && !C->isFileContext();
         C = C->getParent()) {
      auto* R = dyn_cast<CXXRecordDecl>(C);
      if (!R) return;  // local to a function
      if (isa<ClassTemplateSpecializationDecl>(R) &&
          cast<ClassTemplateSpecializationDecl>(R)->getSpecializationKind() ==
              TSK_ImplicitInstantiation)
        return;
    }
    Object O;
    O["n"] = qname(F);
    O["u"] = fkey(F);
    O["file"] = fileOf(F->getLocation());
    O["l"] = line(F->getLocation());
    O["k"] = "function";
    O["def"] = F->isThisDeclarationADefinition();
    O["inl"] = F->isInlined();
    O["ext"] = F->isExternallyVisible();
    O["tmpl"] = F->isDependentContext() ||
                F->getDescribedFunctionTemplate() != nullptr;
    O["spec"] = (int)F->getTemplateSpecializationKind();
    O["gone"] = F->isDeleted() || F->isPureVirtual() ||
                (F->isDefaulted() && !F->isThisDeclarationADefinition());
    O["friend"] = F->getFriendObjectKind() != Decl::FOK_None;
    Array P;
    for (auto* p : F->parameters()) P.push_back(p->getType().getAsString());
    O["p"] = std::move(P);
    Decls.push_back(std::move(O));
  }
  void exportDecl(const VarDecl* V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal() || isa<ParmVarDecl>(V))
      return;
    if (V->getTemplateSpecializationKind() == TSK_ImplicitInstantiation) return;
    Object O;
    O["n"] = qname(V);
    O["u"] = usr(V->getCanonicalDecl());
    O["file"] = fileOf(V->getLocation());
    O["l"] = line(V->getLocation());
    O["k"] = "variable";
    O["def"] = V->isThisDeclarationADefinition() == VarDecl::Definition;
    O["inl"] = V->isInline();
    O["ext"] = V->isExternallyVisible();
    O["const"] = V->getType().isConstant(Ctx);
    O["tmpl"] = V->getDeclContext()->isDependentContext() ||
                V->getDescribedVarTemplate() != nullptr;
    Decls.push_back(std::move(O));
  }

  // expressions whose value is only read: a variable that is never mentioned
  // in any other way cannot change
  std::set<const Expr*> Reads;
  std::set<std::string> Written;
  void markRead(const Expr* E) {
    for (;;) {
      E = E->IgnoreParens();
      if (auto* I = dyn_cast<ImplicitCastExpr>(E)) {
        if (I->getCastKind() != CK_ArrayToPointerDecay &&
            I->getCastKind() != CK_NoOp &&
            I->getCastKind() != CK_DerivedToBase &&
            I->getCastKind() != CK_UncheckedDerivedToBase)
          return;
        E = I->getSubExpr();
      } else if (auto* A = dyn_cast<ArraySubscriptExpr>(E)) {
        E = A->getBase();
      } else if (auto* M = dyn_cast<MemberExpr>(E)) {
        if (M->isArrow()) return;
        E = M->getBase();
      } else {
        break;
      }
    }
    if (isa<DeclRefExpr>(E)) Reads.insert(E);
  }

  void exportGlobal(const VarDecl* V) {
    if (Light || !V->hasGlobalStorage()) return;
    std::string k = std::to_string(declId(V));
    if (Globals.find(k) != Globals.end()) return;
    Object O;
    O["n"] = qname(V);
    O["file"] = fileOf(V->getLocation());
    O["l"] = line(V->getLocation());
    O["t"] = type(V->getType());
    O["local"] = V->isStaticLocal();
    O["d"] = declId(V);
    O["const"] = V->getType().isConstQualified();
    if (V->getType()->isReferenceType())
      O["const"] = V->getType()->getPointeeType().isConstQualified();
    Globals[k] = nullptr;
    const VarDecl* D = nullptr;
    if (const Expr* I = V->getAnyInitializer(D))
      O["init"] = node(I);
    Globals[k] = std::move(O);
  }

  Value node(const Stmt* S) {
    if (!S) return nullptr;
    // transparent wrappers
    if (auto* E = dyn_cast<ExprWithCleanups>(S)) return node(E->getSubExpr());
    if (auto* E = dyn_cast<MaterializeTemporaryExpr>(S)) return node(E->getSubExpr());
    if (auto* E = dyn_cast<CXXBindTemporaryExpr>(S)) return node(E->getSubExpr());
    if (auto* E = dyn_cast<ParenExpr>(S)) return node(E->getSubExpr());
    if (auto* E = dyn_cast<ConstantExpr>(S)) return node(E->getSubExpr());
    if (auto* E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) return node(E->getReplacement());
    if (auto* E = dyn_cast<CXXDefaultArgExpr>(S)) return node(E->getExpr());
    if (auto* E = dyn_cast<CXXDefaultInitExpr>(S)) return node(E->getExpr());
    if (auto* E = dyn_cast<AttributedStmt>(S)) return node(E->getSubStmt());
    if (auto* E = dyn_cast<ImplicitCastExpr>(S)) {
      if (E->getCastKind() == CK_LValueToRValue ||
          (E->getCastKind() == CK_NoOp && E->getType().isConstQualified()))
        markRead(E->getSubExpr());
      switch (E->getCastKind()) {
        case CK_ArrayToPointerDecay:
        case CK_FloatingToIntegral:
        case CK_IntegralToFloating:
        case CK_IntegralToBoolean:
        case CK_FloatingToBoolean:
        case CK_PointerToBoolean:
        case CK_IntegralCast:
        case CK_BooleanToSignedIntegral:
        case CK_LValueToRValue:
          break;
        default: {
          Value v = node(E->getSubExpr());
          return v;
        }
      }
      if (E->getCastKind() == CK_LValueToRValue) return node(E->getSubExpr());
    }
    int id = NextNode++;
    NodeIds[S] = id;
    Object O;
    O["i"] = id;
    O["k"] = S->getStmtClassName();
    O["l"] = line(S->getBeginLoc());
    {
      SourceLocation B = S->getBeginLoc();
      if (B.isMacroID()) {
        O["mac"] = Lexer::getImmediateMacroName(B, SM, Ctx.getLangOpts()).str();
      }
    }
    if (auto* E = dyn_cast<Expr>(S)) O["t"] = type(E->getType());
    auto kids = [&](llvm::ArrayRef<const Stmt*> K) {
      Array A;
      for (auto* k : K) A.push_back(node(k));
      return A;
    };
    if (auto* E = dyn_cast<DeclRefExpr>(S)) {
      const ValueDecl* D = E->getDecl();
      O["d"] = declId(D);
      O["n"] = D->getNameAsString();
      if (auto* F = dyn_cast<FunctionDecl>(D)) {
        O["fn"] = callee(F);
      } else if (auto* C = dyn_cast<EnumConstantDecl>(D)) {
        O["v"] = C->getInitVal().getExtValue();
        O["dk"] = "enum";
      } else if (auto* V = dyn_cast<VarDecl>(D)) {
        O["q"] = qname(V);
        if (V->hasGlobalStorage()) {
          O["dk"] = V->isStaticLocal() ? "slocal" : "global";
          if (!Reads.count(E)) Written.insert(std::to_string(declId(V)));
          if (inRoot(V->getLocation())) exportGlobal(V);
          else {
            // constant-fold external constants when possible
            if (V->getType().isConstQualified() && V->getAnyInitializer())
              if (auto* val = V->evaluateValue()) {
                if (val->isInt()) O["v"] = val->getInt().getExtValue();
                else if (val->isFloat()) O["v"] = val->getFloat().convertToDouble();
              }
          }
        } else if (isa<ParmVarDecl>(V)) O["dk"] = "parm";
        else O["dk"] = "local";
      } else if (isa<BindingDecl>(D)) {
        O["dk"] = "binding";
      } else if (isa<FieldDecl>(D)) {
        O["dk"] = "field";
      }
      return O;
    }
    if (auto* E = dyn_cast<MemberExpr>(S)) {
      O["n"] = E->getMemberDecl()->getNameAsString();
      O["d"] = declId(E->getMemberDecl());
      O["arrow"] = E->isArrow();
      if (auto* F = dyn_cast<FunctionDecl>(E->getMemberDecl()))
        O["fn"] = callee(F);
      if (auto* V = dyn_cast<VarDecl>(E->getMemberDecl())) {
        O["dk"] = "global";
        if (inRoot(V->getLocation())) exportGlobal(V);
        else if (auto* val = V->getType().isConstQualified() && V->getAnyInitializer() ? V->evaluateValue() : nullptr) {
          if (val->isInt()) O["v"] = val->getInt().getExtValue();
        }
      }
      if (auto* FD = dyn_cast<FieldDecl>(E->getMemberDecl())) {
        O["cls"] = qname(FD->getParent());
      }
      O["b"] = node(E->getBase());
      return O;
    }
    if (auto* E = dyn_cast<IntegerLiteral>(S)) {
      if (E->getType()->isUnsignedIntegerType())
        O["v"] = (int64_t)E->getValue().getZExtValue();
      else
        O["v"] = E->getValue().getSExtValue();
      return O;
    }
    if (auto* E = dyn_cast<FloatingLiteral>(S)) {
      double d = E->getValue().convertToDouble();
      O["v"] = d;
      return O;
    }
    if (auto* E = dyn_cast<CXXBoolLiteralExpr>(S)) { O["v"] = E->getValue(); return O; }
    if (auto* E = dyn_cast<CharacterLiteral>(S)) { O["v"] = (int)E->getValue(); return O; }
    if (auto* E = dyn_cast<StringLiteral>(S)) {
      O["v"] = E->isOrdinary() ? E->getString().str() : "";
      return O;
    }
    if (auto* E = dyn_cast<SizeOfPackExpr>(S)) {
      O["k"] = "IntegerLiteral";
      O["v"] = (int64_t)E->getPackLength();
      return O;
    }
    if (auto* E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, Ctx)) O["v"] = R.Val.getInt().getExtValue();
      return O;
    }
    if (auto* E = dyn_cast<CallExpr>(S)) {
      const FunctionDecl* F = E->getDirectCallee();
      if (auto* M = dyn_cast<CXXMemberCallExpr>(E)) {
        if (auto* ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens())) {
          O["obj"] = node(ME->getBase());
          O["arrow"] = ME->isArrow();
          if (ME->hasQualifier()) O["qual"] = 1;
        }
      }
      if (auto* OC = dyn_cast<CXXOperatorCallExpr>(E)) {
        O["op"] = getOperatorSpelling(OC->getOperator());
        if (OC->getOperator() == OO_Call) O["op"] = "()";
        if (OC->getOperator() == OO_Subscript) O["op"] = "[]";
      }
      if (F) O["fn"] = callee(F);
      else O["callee"] = node(E->getCallee());
      Array A;
      for (auto* a : E->arguments()) A.push_back(node(a));
      O["args"] = std::move(A);
      return O;
    }
    if (auto* E = dyn_cast<CXXConstructExpr>(S)) {
      O["fn"] = callee(E->getConstructor());
      Array A;
      for (auto* a : E->arguments()) A.push_back(node(a));
      O["args"] = std::move(A);
      if (E->isListInitialization()) O["list"] = 1;
      if (E->isElidable()) O["elid"] = 1;
      if (E->requiresZeroInitialization()) O["zero"] = 1;
      return O;
    }
    if (auto* E = dyn_cast<CXXInheritedCtorInitExpr>(S)) {
      O["fn"] = callee(E->getConstructor());
      return O;
    }
    if (auto* E = dyn_cast<CastExpr>(S)) {
      O["ck"] = E->getCastKindName();
      O["e"] = node(E->getSubExpr());
      return O;
    }
    if (auto* E = dyn_cast<BinaryOperator>(S)) {
      O["op"] = E->getOpcodeStr().str();
      O["a"] = node(E->getLHS());
      O["b"] = node(E->getRHS());
      if (auto* CA = dyn_cast<CompoundAssignOperator>(E))
        O["ct"] = type(CA->getComputationResultType());
      return O;
    }
    if (auto* E = dyn_cast<UnaryOperator>(S)) {
      O["op"] = UnaryOperator::getOpcodeStr(E->getOpcode()).str();
      O["post"] = E->isPostfix();
      O["e"] = node(E->getSubExpr());
      return O;
    }
    if (auto* E = dyn_cast<ConditionalOperator>(S)) {
      O["c"] = node(E->getCond());
      O["a"] = node(E->getTrueExpr());
      O["b"] = node(E->getFalseExpr());
      return O;
    }
    if (auto* E = dyn_cast<ArraySubscriptExpr>(S)) {
      O["a"] = node(E->getBase());
      O["b"] = node(E->getIdx());
      return O;
    }
    if (auto* E = dyn_cast<InitListExpr>(S)) {
      const InitListExpr* SE = E->isSemanticForm() ? E : E->getSemanticForm();
      if (!SE) SE = E;
      Array A;
      for (auto* a : SE->inits()) A.push_back(node(a));
      O["args"] = std::move(A);
      if (SE->hasArrayFiller()) O["filler"] = node(SE->getArrayFiller());
      return O;
    }
    if (auto* E = dyn_cast<CXXStdInitializerListExpr>(S)) {
      O["e"] = node(E->getSubExpr());
      return O;
    }
    if (auto* E = dyn_cast<LambdaExpr>(S)) {
      O["fn"] = callee(E->getCallOperator());
      if (auto* FT = E->getDependentCallOperator()) {
        Array I;  // a generic lambda: its instantiations
        for (auto* F : FT->specializations()) {
          F->hasBody() ? exportFunction(F->getDefinition()) : (void)0;
          I.push_back(fkey(F));
        }
        O["specs"] = std::move(I);
      }
      Array C;
      auto ci = E->capture_init_begin();
      for (auto& c : E->captures()) {
        Object q;
        if (c.capturesThis()) q["this"] = 1;
        else if (c.capturesVariable()) {
          q["d"] = declId(c.getCapturedVar());
          q["n"] = c.getCapturedVar()->getName().str();
        }
        q["ref"] = c.getCaptureKind() == LCK_ByRef;
        if (ci != E->capture_init_end()) {
          q["e"] = node(*ci);
          ++ci;
        }
        C.push_back(std::move(q));
      }
      O["caps"] = std::move(C);
      return O;
    }
    if (auto* E = dyn_cast<CXXNewExpr>(S)) {
      O["nt"] = type(E->getAllocatedType());
      if (E->isArray() && E->getArraySize()) O["size"] = node(*E->getArraySize());
      if (E->getInitializer()) O["init"] = node(E->getInitializer());
      return O;
    }
    if (auto* E = dyn_cast<CXXDeleteExpr>(S)) {
      O["e"] = node(E->getArgument());
      O["arr"] = E->isArrayForm();
      return O;
    }
    if (auto* E = dyn_cast<CXXThrowExpr>(S)) {
      O["e"] = node(E->getSubExpr());
      return O;
    }
    if (auto* E = dyn_cast<CXXThisExpr>(S)) { (void)E; return O; }
    // statements
    if (auto* D = dyn_cast<DeclStmt>(S)) {
      Array A;
      for (auto* d : D->decls()) {
        if (auto* V = dyn_cast<VarDecl>(d)) {
          Object q{{"n", V->getNameAsString()}, {"d", declId(V)},
                   {"t", type(V->getType())}, {"l", line(V->getLocation())}};
          if (V->isStaticLocal()) { q["static"] = 1; exportGlobal(V); }
          if (V->getInit()) q["e"] = node(V->getInit());
          if (auto* DD = dyn_cast<DecompositionDecl>(V)) {
            Array B;
            for (auto* b : DD->bindings()) {
              Object bo{{"d", declId(b)}, {"n", b->getNameAsString()}};
              if (b->getBinding()) bo["e"] = node(b->getBinding());
              if (auto* hv = b->getHoldingVar()) {
                bo["hd"] = declId(hv);
                if (hv->getInit()) bo["he"] = node(hv->getInit());
              }
              B.push_back(std::move(bo));
            }
            q["bind"] = std::move(B);
          }
          A.push_back(std::move(q));
        }
      }
      O["ds"] = std::move(A);
      return O;
    }
    if (auto* I = dyn_cast<IfStmt>(S)) {
      if (I->getInit()) O["init"] = node(I->getInit());
      if (I->getConditionVariableDeclStmt()) O["cv"] = node(I->getConditionVariableDeclStmt());
      O["c"] = node(I->getCond());
      O["a"] = node(I->getThen());
      if (I->getElse()) O["b"] = node(I->getElse());
      if (I->isConstexpr()) O["cx"] = 1;
      return O;
    }
    if (auto* F = dyn_cast<ForStmt>(S)) {
      O["init"] = node(F->getInit());
      O["c"] = node(F->getCond());
      O["inc"] = node(F->getInc());
      O["body"] = node(F->getBody());
      return O;
    }
    if (auto* F = dyn_cast<CXXForRangeStmt>(S)) {
      O["range"] = node(F->getRangeInit());
      const VarDecl* V = F->getLoopVariable();
      Object q{{"n", V->getNameAsString()}, {"d", declId(V)}, {"t", type(V->getType())}};
      if (auto* DD = dyn_cast<DecompositionDecl>(V)) {
        Array B;
        for (auto* b : DD->bindings()) {
          Object bo{{"d", declId(b)}, {"n", b->getNameAsString()}};
          if (b->getBinding()) bo["e"] = node(b->getBinding());
          B.push_back(std::move(bo));
        }
        q["bind"] = std::move(B);
      }
      O["var"] = std::move(q);
      O["body"] = node(F->getBody());
      return O;
    }
    if (auto* W = dyn_cast<WhileStmt>(S)) {
      if (W->getConditionVariableDeclStmt()) O["cv"] = node(W->getConditionVariableDeclStmt());
      O["c"] = node(W->getCond());
      O["body"] = node(W->getBody());
      return O;
    }
    if (auto* W = dyn_cast<DoStmt>(S)) {
      O["c"] = node(W->getCond());
      O["body"] = node(W->getBody());
      return O;
    }
    if (auto* W = dyn_cast<SwitchStmt>(S)) {
      if (W->getInit()) O["init"] = node(W->getInit());
      if (W->getConditionVariableDeclStmt()) O["cv"] = node(W->getConditionVariableDeclStmt());
      O["c"] = node(W->getCond());
      O["body"] = node(W->getBody());
      return O;
    }
    if (auto* W = dyn_cast<CaseStmt>(S)) {
      O["e"] = node(W->getLHS());
      O["body"] = node(W->getSubStmt());
      return O;
    }
    if (auto* W = dyn_cast<DefaultStmt>(S)) {
      O["body"] = node(W->getSubStmt());
      return O;
    }
    if (auto* W = dyn_cast<LabelStmt>(S)) {
      O["n"] = W->getName();
      O["body"] = node(W->getSubStmt());
      return O;
    }
    if (auto* W = dyn_cast<GotoStmt>(S)) {
      O["n"] = W->getLabel()->getName().str();
      return O;
    }
    if (auto* W = dyn_cast<ReturnStmt>(S)) {
      if (W->getRetValue()) O["e"] = node(W->getRetValue());
      return O;
    }
    if (auto* T = dyn_cast<CXXTryStmt>(S)) {
      O["body"] = node(T->getTryBlock());
      Array H;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
        auto* C = T->getHandler(i);
        Object q;
        if (C->getExceptionDecl()) {
          q["t"] = type(C->getCaughtType());
          q["d"] = declId(C->getExceptionDecl());
        }
        q["body"] = node(C->getHandlerBlock());
        H.push_back(std::move(q));
      }
      O["h"] = std::move(H);
      return O;
    }
    // generic: export children
    Array A;
    for (const Stmt* c : S->children()) A.push_back(node(c));
    O["ch"] = std::move(A);
    return O;
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  Exporter& X;
  Visitor(Exporter& x) : X(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* F) {
    if (X.inRoot(F->getLocation())) X.exportDecl(F);
    if (F->isThisDeclarationADefinition() && X.inRoot(F->getLocation()) &&
        !F->isDependentContext() &&
        F->getTemplatedKind() != FunctionDecl::TK_FunctionTemplate)
      X.exportFunction(F);
    return true;
  }
  bool VisitRecordDecl(RecordDecl* R) {
    if (X.inRoot(R->getLocation()) && R->isThisDeclarationADefinition() &&
        !R->isDependentContext())
      X.exportRecord(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl* E) {
    if (X.inRoot(E->getLocation())) X.exportEnum(E);
    return true;
  }
  bool VisitVarDecl(VarDecl* V) {
    if (X.inRoot(V->getLocation())) X.exportDecl(V);
    if (V->hasGlobalStorage() && X.inRoot(V->getLocation()) &&
        !V->getDeclContext()->isDependentContext() &&
        !V->getType()->isDependentType())
      X.exportGlobal(V);
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  CompilerInstance& CI;
  Consumer(CompilerInstance& c) : CI(c) {}
  void HandleTranslationUnit(ASTContext& Ctx) override {
    if (CI.getDiagnostics().hasErrorOccurred()) return;
    Exporter X(Ctx);
    Visitor V(X);
    V.TraverseDecl(Ctx.getTranslationUnitDecl());
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    Object R;
    R["types"] = std::move(X.Types);
    R["functions"] = std::move(X.Functions);
    R["records"] = std::move(X.Records);
    R["enums"] = std::move(X.Enums);
    R["decls"] = std::move(X.Decls);
    for (auto& G : X.Globals)
      if (auto* O = G.second.getAsObject())
        (*O)["written"] = X.Written.count(G.first.str()) > 0;
    R["globals"] = std::move(X.Globals);
    OS << Value(std::move(R)) << "\n";
  }
};
class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI,
                                                 StringRef) override {
    return std::make_unique<Consumer>(CI);
  }
};
}  // namespace

// usage: astx OUT ROOT[:ROOT] FILE -- flags...
int main(int argc, const char** argv) {
  if (argc < 5) {
    llvm::errs() << "usage: astx OUT ROOT[:ROOT] FILE -- flags\n";
    return 2;
  }
  OutFile = argv[1];
  Light = getenv("ASTX_LIGHT") != nullptr;
  std::string r = argv[2];
  size_t p = 0;
  while (p <= r.size()) {
    size_t q = r.find(':', p);
    if (q == std::string::npos) q = r.size();
    if (q > p) Roots.push_back(r.substr(p, q - p));
    p = q + 1;
  }
  std::string file = argv[3];
  std::vector<std::string> flags;
  bool on = false;
  for (int i = 4; i < argc; ++i) {
    if (on) flags.push_back(argv[i]);
    if (std::string(argv[i]) == "--") on = true;
  }
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool Tool(DB, {file});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
