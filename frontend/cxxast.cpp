// cxxast: dumps the typed AST of every function *defined* in the given source
// roots (and of every template instantiation of such functions) as compact
// JSON.  Nothing is interpreted here: each clang node is printed one to one;
// only value-preserving wrappers (parentheses, no-op casts, temporaries,
// cleanups) are removed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/RecordLayout.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Lex/Lexer.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Value;

static std::vector<std::string> Roots;

struct Emitter {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> ids;
  Emitter(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
  }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1;
    ids[D] = n;
    return n;
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  std::string qname(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    // template args of enclosing records suppressed -> stable names
    const DeclContext *ctx = D->getDeclContext();
    std::vector<std::string> parts;
    while (ctx && !ctx->isTranslationUnit()) {
      if (auto *ns = dyn_cast<NamespaceDecl>(ctx)) {
        if (!ns->isInline() && !ns->isAnonymousNamespace())
          parts.push_back(ns->getNameAsString());
      } else if (auto *rd = dyn_cast<RecordDecl>(ctx))
        parts.push_back(rd->getNameAsString());
      else if (auto *fd = dyn_cast<FunctionDecl>(ctx))
        parts.push_back(fd->getNameAsString());
      ctx = ctx->getParent();
    }
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) os << *it << "::";
    if (auto *cd = dyn_cast<CXXConstructorDecl>(D))
      os << cd->getParent()->getNameAsString();
    else if (auto *dd = dyn_cast<CXXConversionDecl>(D)) {
      (void)dd;
      os << "operator conv";
    } else
      os << D->getNameAsString();
    return os.str();
  }
  Value type(QualType T, int depth = 0) {
    if (T.isNull()) return nullptr;
    T = T.getCanonicalType();
    if (auto *R = T->getAs<ReferenceType>())
      return Array{R->isRValueReferenceType() ? "&&" : "&",
                   type(R->getPointeeType(), depth + 1),
                   R->getPointeeType().isConstQualified()};
    if (auto *P = T->getAs<PointerType>())
      return Array{"*", type(P->getPointeeType(), depth + 1)};
    if (auto *A = C.getAsConstantArrayType(T))
      return Array{"arr", type(A->getElementType(), depth + 1),
                   (int64_t)A->getSize().getZExtValue()};
    if (auto *RT = T->getAs<RecordType>()) {
      auto *RD = RT->getDecl();
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        Array a{qname(S)};
        if (depth < 6) {
          const auto &args = S->getTemplateArgs();
          unsigned n = args.size();
          for (unsigned i = 0; i < n; i++) targ(args[i], a, depth);
        }
        return a;
      }
      if (RD->isLambda()) return Array{"lambda", id(RD)};
      return qname(RD);
    }
    if (auto *ET = T->getAs<EnumType>()) return Array{"enum", qname(ET->getDecl())};
    if (T->isFunctionPointerType() || T->isFunctionType()) return "fn";
    return T.getUnqualifiedType().getAsString(PP);
  }
  void targ(const TemplateArgument &A, Array &out, int depth) {
    switch (A.getKind()) {
    case TemplateArgument::Type: {
      Value v = type(A.getAsType(), depth + 1);
      // drop std::allocator / std::less / char_traits noise
      if (auto *arr = v.getAsArray())
        if (!arr->empty())
          if (auto s = (*arr)[0].getAsString())
            if (*s == "std::allocator" || *s == "std::less" ||
                *s == "std::char_traits" || *s == "std::default_delete")
              return;
      out.push_back(std::move(v));
      break;
    }
    case TemplateArgument::Integral:
      out.push_back((int64_t)A.getAsIntegral().getExtValue());
      break;
    case TemplateArgument::Pack:
      for (auto &x : A.pack_elements()) targ(x, out, depth);
      break;
    default:
      break;
    }
  }
  Value sig(const FunctionDecl *F) {
    Array a;
    for (auto *p : F->parameters()) a.push_back(type(p->getType()));
    return a;
  }
  bool inRoots(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    std::string f = SM.getFilename(L).str();
    for (auto &r : Roots)
      if (f.find(r) != std::string::npos) return true;
    return false;
  }

  // ---------------------------------------------------------------- exprs
  Value lst(std::initializer_list<Value> v) { return Array(v); }
  Array args(const Expr *const *B, const Expr *const *E) {
    Array a;
    for (auto p = B; p != E; ++p) {
      if (isa<CXXDefaultArgExpr>(*p)) {
        a.push_back(Array{"default", expr(cast<CXXDefaultArgExpr>(*p)->getExpr())});
      } else
        a.push_back(expr(*p));
    }
    return a;
  }
  Value expr(const Expr *E) {
    if (!E) return nullptr;
    // constants first (macros such as CV_64F, enumerators, sizeof)
    if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() &&
        !isa<CXXConstructExpr>(E)) {
      const Expr *S = E->IgnoreParenImpCasts();
      bool lit = isa<IntegerLiteral>(S) || isa<CXXBoolLiteralExpr>(S) ||
                 isa<CharacterLiteral>(S) || isa<BinaryOperator>(S) ||
                 isa<UnaryOperator>(S) || isa<UnaryExprOrTypeTraitExpr>(S) ||
                 isa<ConstantExpr>(S);
      if (auto *DR = dyn_cast<DeclRefExpr>(S)) lit = isa<EnumConstantDecl>(DR->getDecl());
      if (lit) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
          if (E->getType()->isBooleanType())
            return Array{"bool", R.Val.getInt().getBoolValue()};
          return Array{"int", (int64_t)R.Val.getInt().getExtValue()};
        }
      }
    }
    switch (E->getStmtClass()) {
    case Stmt::ParenExprClass: return expr(cast<ParenExpr>(E)->getSubExpr());
    case Stmt::ExprWithCleanupsClass: return expr(cast<ExprWithCleanups>(E)->getSubExpr());
    case Stmt::MaterializeTemporaryExprClass:
      return Array{"tmp", expr(cast<MaterializeTemporaryExpr>(E)->getSubExpr())};
    case Stmt::CXXBindTemporaryExprClass: return expr(cast<CXXBindTemporaryExpr>(E)->getSubExpr());
    case Stmt::ConstantExprClass: return expr(cast<ConstantExpr>(E)->getSubExpr());
    case Stmt::SubstNonTypeTemplateParmExprClass:
      return expr(cast<SubstNonTypeTemplateParmExpr>(E)->getReplacement());
    case Stmt::CXXDefaultArgExprClass: return expr(cast<CXXDefaultArgExpr>(E)->getExpr());
    case Stmt::CXXDefaultInitExprClass: return expr(cast<CXXDefaultInitExpr>(E)->getExpr());
    case Stmt::FloatingLiteralClass: {
      auto *F = cast<FloatingLiteral>(E);
      llvm::SmallString<32> s;
      F->getValue().toString(s, 20);
      std::string src = s.str().str();
      return Array{"float", src, type(E->getType())};
    }
    case Stmt::StringLiteralClass: return Array{"str", cast<StringLiteral>(E)->getBytes().str()};
    case Stmt::PredefinedExprClass: return Array{"str", "<predefined>"};
    case Stmt::CXXNullPtrLiteralExprClass: return Array{"null"};
    case Stmt::GNUNullExprClass: return Array{"null"};
    case Stmt::IntegerLiteralClass:
      return Array{"int", (int64_t)cast<IntegerLiteral>(E)->getValue().getSExtValue()};
    case Stmt::CXXBoolLiteralExprClass: return Array{"bool", cast<CXXBoolLiteralExpr>(E)->getValue()};
    case Stmt::CharacterLiteralClass: return Array{"int", (int64_t)cast<CharacterLiteral>(E)->getValue()};
    case Stmt::CXXThisExprClass: return Array{"this"};
    case Stmt::DeclRefExprClass: {
      auto *D = cast<DeclRefExpr>(E)->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) return Array{"fn", qname(F), sig(F)};
      if (auto *V = dyn_cast<VarDecl>(D)) {
        bool glob = !V->isLocalVarDeclOrParm();
        return Array{"var", id(D), glob ? qname(V) : V->getNameAsString(), type(V->getType()), glob};
      }
      if (auto *B = dyn_cast<BindingDecl>(D)) return Array{"binding", id(D), B->getNameAsString(), expr(B->getHoldingVar() ? B->getHoldingVar()->getInit() : B->getBinding())};
      return Array{"var", id(D), D->getNameAsString(), type(D->getType()), false};
    }
    case Stmt::MemberExprClass: {
      auto *M = cast<MemberExpr>(E);
      if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl()))
        return Array{"member", expr(M->getBase()), F->getNameAsString(), M->isArrow(),
                     qname(F->getParent()), type(F->getType())};
      if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl()))
        return Array{"var", id(V), qname(V), type(V->getType()), true};
      return Array{"memberfn", expr(M->getBase()), qname(M->getMemberDecl())};
    }
    case Stmt::ArraySubscriptExprClass: {
      auto *A = cast<ArraySubscriptExpr>(E);
      return Array{"sub", expr(A->getBase()), expr(A->getIdx())};
    }
    case Stmt::UnaryOperatorClass: {
      auto *U = cast<UnaryOperator>(E);
      return Array{"un", UnaryOperator::getOpcodeStr(U->getOpcode()).str(), U->isPostfix(),
                   expr(U->getSubExpr()), type(U->getType())};
    }
    case Stmt::CompoundAssignOperatorClass: {
      auto *B = cast<CompoundAssignOperator>(E);
      return Array{"cassign", B->getOpcodeStr().str(), expr(B->getLHS()), expr(B->getRHS()),
                   type(B->getType()), type(B->getComputationResultType())};
    }
    case Stmt::BinaryOperatorClass: {
      auto *B = cast<BinaryOperator>(E);
      return Array{B->isAssignmentOp() ? "assign" : "bin", B->getOpcodeStr().str(), expr(B->getLHS()),
                   expr(B->getRHS()), type(B->getType())};
    }
    case Stmt::ConditionalOperatorClass: {
      auto *B = cast<ConditionalOperator>(E);
      return Array{"cond", expr(B->getCond()), expr(B->getTrueExpr()), expr(B->getFalseExpr()), type(B->getType())};
    }
    case Stmt::CXXOperatorCallExprClass: {
      auto *O = cast<CXXOperatorCallExpr>(E);
      auto *F = O->getDirectCallee();
      std::string op = getOperatorSpelling(O->getOperator());
      return Array{"opcall", op, F ? qname(F) : "?", args(O->getArgs(), O->getArgs() + O->getNumArgs()),
                   type(O->getType()), F ? isa<CXXMethodDecl>(F) : false, F ? sig(F) : Value(nullptr),
                   line(O->getOperatorLoc()), F ? Value(id(F)) : Value(nullptr)};
    }
    case Stmt::CXXMemberCallExprClass: {
      auto *M = cast<CXXMemberCallExpr>(E);
      auto *F = M->getMethodDecl();
      auto *ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens());
      bool arrow = ME && ME->isArrow();
      Array ta;
      if (F)
        if (auto *TA = F->getTemplateSpecializationArgs())
          for (auto &x : TA->asArray()) targ(x, ta, 0);
      const Expr *obj = M->getImplicitObjectArgument();
      return Array{"mcall", expr(obj), F ? qname(F) : "?", args(M->getArgs(), M->getArgs() + M->getNumArgs()),
                   type(M->getType()), arrow || (obj && obj->getType()->isPointerType()), std::move(ta), F ? sig(F) : Value(nullptr),
                   type(obj ? (obj->getType()->isPointerType() ? obj->getType()->getPointeeType() : obj->getType()) : QualType()),
                   line(M->getExprLoc()), F ? Value(id(F)) : Value(nullptr)};
    }
    case Stmt::CallExprClass: {
      auto *K = cast<CallExpr>(E);
      auto *F = K->getDirectCallee();
      Array ta;
      if (F)
        if (auto *TA = F->getTemplateSpecializationArgs())
          for (auto &x : TA->asArray()) targ(x, ta, 0);
      return Array{"call", F ? Value(qname(F)) : expr(K->getCallee()),
                   args(K->getArgs(), K->getArgs() + K->getNumArgs()), type(K->getType()), std::move(ta),
                   F ? sig(F) : Value(nullptr), line(K->getExprLoc()), F ? Value(id(F)) : Value(nullptr)};
    }
    case Stmt::CXXTemporaryObjectExprClass:
    case Stmt::CXXConstructExprClass: {
      auto *K = cast<CXXConstructExpr>(E);
      auto *CD = K->getConstructor();
      if (K->isElidable() && K->getNumArgs() == 1) return expr(K->getArg(0));
      std::string kind = CD->isCopyConstructor() ? "copy" : CD->isMoveConstructor() ? "move" : CD->isDefaultConstructor() && K->getNumArgs() == 0 ? "default" : "other";
      return Array{"construct", type(K->getType()), args(K->getArgs(), K->getArgs() + K->getNumArgs()),
                   sig(CD), kind, K->isListInitialization(), line(K->getExprLoc()), id(CD)};
    }
    case Stmt::CXXFunctionalCastExprClass:
    case Stmt::CStyleCastExprClass:
    case Stmt::CXXStaticCastExprClass:
    case Stmt::CXXConstCastExprClass:
    case Stmt::CXXReinterpretCastExprClass:
    case Stmt::ImplicitCastExprClass: {
      auto *K = cast<CastExpr>(E);
      switch (K->getCastKind()) {
      case CK_LValueToRValue:
        return Array{"rv", expr(K->getSubExpr())};
      case CK_NoOp:
      case CK_FunctionToPointerDecay:
      case CK_ConstructorConversion:
      case CK_UserDefinedConversion:
      case CK_BuiltinFnToFnPtr:
        return expr(K->getSubExpr());
      case CK_UncheckedDerivedToBase:
      case CK_DerivedToBase:
        return Array{"tobase", expr(K->getSubExpr()), type(E->getType())};
      case CK_ArrayToPointerDecay:
        return Array{"decay", expr(K->getSubExpr())};
      case CK_NullToPointer: return Array{"null"};
      default:
        return Array{"cast", K->getCastKindName(), expr(K->getSubExpr()), type(E->getType())};
      }
    }
    case Stmt::InitListExprClass: {
      auto *I = cast<InitListExpr>(E);
      Array a;
      for (auto *x : I->inits()) a.push_back(expr(x));
      return Array{"initlist", type(I->getType()), std::move(a), I->hasArrayFiller()};
    }
    case Stmt::ImplicitValueInitExprClass: return Array{"zero", type(E->getType())};
    case Stmt::CXXScalarValueInitExprClass: return Array{"zero", type(E->getType())};
    case Stmt::CXXStdInitializerListExprClass:
      return Array{"stdinit", expr(cast<CXXStdInitializerListExpr>(E)->getSubExpr())};
    case Stmt::CXXNewExprClass: {
      auto *N = cast<CXXNewExpr>(E);
      return Array{"new", type(N->getAllocatedType()), expr(N->getInitializer()), N->isArray()};
    }
    case Stmt::CXXThrowExprClass: return Array{"throw"};
    case Stmt::UnaryExprOrTypeTraitExprClass: return Array{"sizeof"};
    case Stmt::LambdaExprClass: {
      auto *L = cast<LambdaExpr>(E);
      Array caps;
      for (auto &c : L->captures()) {
        if (c.capturesThis()) caps.push_back(Array{"this", true});
        else if (c.capturesVariable() && c.getCapturedVar()->isInitCapture()) {
          auto *V = cast<VarDecl>(c.getCapturedVar());
          caps.push_back(Array{id(V), V->getType()->isReferenceType(), type(V->getType()), expr(V->getInit())});
        } else if (c.capturesVariable())
          caps.push_back(Array{id(c.getCapturedVar()), c.getCaptureKind() == LCK_ByRef});
      }
      auto *F = L->getCallOperator();
      return Array{"lambda", std::move(caps), params(F), stmt(F->getBody()), type(F->getReturnType()), id(L->getLambdaClass())};
    }
    default: break;
    }
    return Array{"unsupported_expr", E->getStmtClassName(), line(E->getBeginLoc())};
  }
  // LOG_DEBUG << ... / BOOST_LOG_TRIVIAL(...) << ... : the statement starts in
  // the expansion of one of the repository's logging macros.
  bool logMacro(SourceLocation L) {
    while (L.isMacroID()) {
      StringRef n = Lexer::getImmediateMacroName(L, SM, C.getLangOpts());
      if (n.starts_with("LOG_") || n.starts_with("BOOST_LOG")) return true;
      L = SM.getImmediateMacroCallerLoc(L);
    }
    return false;
  }
  Array params(const FunctionDecl *F) {
    Array a;
    for (auto *p : F->parameters())
      a.push_back(Array{id(p), p->getNameAsString(), type(p->getType())});
    return a;
  }
  Value vardecl(const VarDecl *V) {
    Array binds;
    if (auto *DD = dyn_cast<DecompositionDecl>(V))
      for (auto *b : DD->bindings()) binds.push_back(Array{id(b), b->getNameAsString(), expr(b->getHoldingVar() ? b->getHoldingVar()->getInit() : b->getBinding())});
    return Array{"vardecl", id(V), V->getNameAsString(), type(V->getType()), expr(V->getInit()), !V->isStaticLocal() ? 0 : V->getType().isConstQualified() || V->isConstexpr() ? 2 : 1, std::move(binds),
       V->getInitStyle() == VarDecl::CInit ? "c" : "d"};
  }
  // ---------------------------------------------------------------- stmts
  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    int ln = line(S->getBeginLoc());
    if (logMacro(S->getBeginLoc())) return Array{"log", ln};
    if (auto *E = dyn_cast<Expr>(S)) {
      return Array{"expr", ln, expr(E)};
    }
    switch (S->getStmtClass()) {
    case Stmt::CompoundStmtClass: {
      Array a;
      for (auto *x : cast<CompoundStmt>(S)->body()) a.push_back(stmt(x));
      return Array{"block", ln, std::move(a)};
    }
    case Stmt::DeclStmtClass: {
      Array a;
      for (auto *d : cast<DeclStmt>(S)->decls()) {
        if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(vardecl(V));
        else if (isa<TypedefNameDecl>(d) || isa<UsingDecl>(d) || isa<UsingDirectiveDecl>(d) || isa<NamespaceAliasDecl>(d)) continue;
        else a.push_back(Array{"unsupported_decl", d->getDeclKindName()});
      }
      return Array{"decl", ln, std::move(a)};
    }
    case Stmt::IfStmtClass: {
      auto *I = cast<IfStmt>(S);
      return Array{"if", ln, I->getInit() ? stmt(I->getInit()) : Value(nullptr),
                   I->getConditionVariable() ? vardecl(I->getConditionVariable()) : Value(nullptr), expr(I->getCond()),
                   stmt(I->getThen()), stmt(I->getElse()), I->isConstexpr()};
    }
    case Stmt::ForStmtClass: {
      auto *F = cast<ForStmt>(S);
      return Array{"for", ln, stmt(F->getInit()), expr(F->getCond()), expr(F->getInc()), stmt(F->getBody())};
    }
    case Stmt::CXXForRangeStmtClass: {
      auto *F = cast<CXXForRangeStmt>(S);
      return Array{"forrange", ln, vardecl(F->getLoopVariable()), expr(F->getRangeInit()),
                   type(F->getRangeInit()->getType()), stmt(F->getBody())};
    }
    case Stmt::WhileStmtClass: {
      auto *W = cast<WhileStmt>(S);
      return Array{"while", ln, expr(W->getCond()), stmt(W->getBody())};
    }
    case Stmt::DoStmtClass: {
      auto *W = cast<DoStmt>(S);
      return Array{"do", ln, expr(W->getCond()), stmt(W->getBody())};
    }
    case Stmt::ReturnStmtClass:
      return Array{"return", ln, expr(cast<ReturnStmt>(S)->getRetValue())};
    case Stmt::BreakStmtClass: return Array{"break", ln};
    case Stmt::ContinueStmtClass: return Array{"continue", ln};
    case Stmt::NullStmtClass: return Array{"null", ln};
    case Stmt::SwitchStmtClass: {
      auto *W = cast<SwitchStmt>(S);
      return Array{"switch", ln, expr(W->getCond()), stmt(W->getBody())};
    }
    case Stmt::CaseStmtClass: {
      auto *W = cast<CaseStmt>(S);
      return Array{"case", ln, expr(W->getLHS()), stmt(W->getSubStmt())};
    }
    case Stmt::DefaultStmtClass: return Array{"defaultcase", ln, stmt(cast<DefaultStmt>(S)->getSubStmt())};
    case Stmt::CXXTryStmtClass: {
      auto *T = cast<CXXTryStmt>(S);
      return Array{"try", ln, stmt(T->getTryBlock())};
    }
    case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(S)->getSubStmt());
    default: break;
    }
    return Array{"unsupported_stmt", S->getStmtClassName(), ln};
  }
};

struct V : RecursiveASTVisitor<V> {
  Emitter &E;
  Array &fns, &recs, &globs;
  std::set<const Decl *> seen;
  V(Emitter &E, Array &f, Array &r, Array &g) : E(E), fns(f), recs(r), globs(g) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() || F->isDependentContext()) return true;
    if (F->isDefaulted() || F->isDeleted()) return true;
    if (!E.inRoots(F->getLocation())) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return true;
    if (!seen.insert(F->getCanonicalDecl()).second) return true;
    Array inits;
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F))
      for (auto *I : CD->inits()) {
        if (I->isAnyMemberInitializer())
          inits.push_back(Array{I->getAnyMember()->getNameAsString(), E.expr(I->getInit()), E.type(I->getAnyMember()->getType()), I->isWritten()});
        else inits.push_back(Array{"<base>", E.expr(I->getInit())});
      }
    Array ta;
    if (auto *TA = F->getTemplateSpecializationArgs())
      for (auto &x : TA->asArray()) E.targ(x, ta, 0);
    llvm::json::Object o;
    o["id"] = E.id(F);
    o["name"] = E.qname(F);
    o["file"] = E.SM.getFilename(E.SM.getExpansionLoc(F->getLocation())).str();
    o["line"] = E.line(F->getLocation());
    o["endline"] = E.line(F->getEndLoc());
    o["params"] = E.params(F);
    o["ret"] = E.type(F->getReturnType());
    o["targs"] = std::move(ta);
    o["method"] = isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic();
    o["ctor"] = isa<CXXConstructorDecl>(F);
    o["record"] = isa<CXXMethodDecl>(F) ? Value(E.type(E.C.getRecordType(cast<CXXMethodDecl>(F)->getParent()))) : Value(nullptr);
    o["inits"] = std::move(inits);
    o["body"] = E.stmt(F->getBody());
    fns.push_back(std::move(o));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    if (!E.inRoots(R->getLocation())) return true;
    Array fs;
    for (auto *f : R->fields())
      fs.push_back(Array{f->getNameAsString(), E.type(f->getType()), E.expr(f->getInClassInitializer()), f->getType().isConstQualified()});
    recs.push_back(llvm::json::Object{{"name", E.type(E.C.getRecordType(R))}, {"qname", E.qname(R)}, {"fields", std::move(fs)}});
    return true;
  }
  bool VisitVarDecl(VarDecl *D) {
    if (D->isLocalVarDeclOrParm() || !E.inRoots(D->getLocation()) || isa<ParmVarDecl>(D)) return true;
    if (D->getDeclContext()->isDependentContext() || D->getType()->isDependentType()) return true;
    globs.push_back(llvm::json::Object{{"name", E.qname(D)}, {"id", E.id(D)}, {"type", E.type(D->getType())}, {"init", E.expr(D->getInit())}, {"const", D->getType().isConstQualified() || D->isConstexpr()}});
    return true;
  }
};

struct Consumer : ASTConsumer {
  std::string out;
  Consumer(std::string o) : out(o) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Emitter E(C);
    Array fns, recs, globs;
    V v(E, fns, recs, globs);
    v.TraverseDecl(C.getTranslationUnitDecl());
    std::error_code ec;
    llvm::raw_fd_ostream os(out, ec);
    os << Value(llvm::json::Object{{"functions", std::move(fns)}, {"records", std::move(recs)}, {"globals", std::move(globs)}});
  }
};
struct Action : ASTFrontendAction {
  std::string out;
  Action(std::string o) : out(o) {}
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>(out);
  }
};
// usage: cxxast OUT.json SRC ROOT[,ROOT...] -- clang flags
int main(int argc, char **argv) {
  if (argc < 4) return 2;
  std::string out = argv[1], src = argv[2], roots = argv[3];
  size_t p = 0;
  while (true) {
    size_t q = roots.find(',', p);
    Roots.push_back(roots.substr(p, q == std::string::npos ? q : q - p));
    if (q == std::string::npos) break;
    p = q + 1;
  }
  std::vector<std::string> flags;
  int i = 4;
  if (i < argc && std::string(argv[i]) == "--") i++;
  for (; i < argc; i++) flags.push_back(argv[i]);
  std::string err;
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {src});
  struct F : tooling::FrontendActionFactory {
    std::string out;
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(out); }
  } f;
  f.out = out;
  return tool.run(&f);
}
