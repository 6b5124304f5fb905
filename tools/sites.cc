// sites FILE(suffix) -- source args : prints mutation sites of the file as tab separated lines
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/ASTContext.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Lex/Lexer.h>
#include <clang/Tooling/Tooling.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <cstdio>
using namespace clang;
static std::string Target;
struct V : RecursiveASTVisitor<V> {
  ASTContext &C; SourceManager &SM;
  explicit V(ASTContext &c) : C(c), SM(c.getSourceManager()) {}
  bool shouldVisitTemplateInstantiations() const { return false; }
  bool shouldVisitImplicitCode() const { return false; }
  bool rng(SourceLocation b, SourceLocation e, unsigned &bo, unsigned &eo) {
    if (b.isInvalid() || e.isInvalid() || b.isMacroID() || e.isMacroID()) return false;
    auto ee = Lexer::getLocForEndOfToken(e, 0, SM, C.getLangOpts());
    if (ee.isInvalid()) return false;
    auto f = SM.getFileEntryRefForID(SM.getFileID(b));
    if (!f || SM.getFileID(b) != SM.getFileID(ee)) return false;
    llvm::StringRef n = f->getName();
    if (!n.ends_with(Target)) return false;
    bo = SM.getFileOffset(b); eo = SM.getFileOffset(ee);
    return bo < eo;
  }
  void out(char const *kind, std::string op, const Stmt *w, const Stmt *l = nullptr, const Stmt *r = nullptr) {
    unsigned a, b, c = 0, d = 0, e = 0, f = 0;
    if (!rng(w->getBeginLoc(), w->getEndLoc(), a, b)) return;
    if (l && !rng(l->getBeginLoc(), l->getEndLoc(), c, d)) return;
    if (r && !rng(r->getBeginLoc(), r->getEndLoc(), e, f)) return;
    printf("%s\t%s\t%u\t%u\t%u\t%u\t%u\t%u\n", kind, op.c_str(), a, b, c, d, e, f);
  }
  // constant contexts are left out
  bool TraverseTypeLoc(TypeLoc) { return true; }
  bool TraverseTemplateArgumentLoc(const TemplateArgumentLoc &) { return true; }
  bool TraverseStaticAssertDecl(StaticAssertDecl *) { return true; }
  bool TraverseEnumConstantDecl(EnumConstantDecl *) { return true; }
  bool TraverseUnaryExprOrTypeTraitExpr(UnaryExprOrTypeTraitExpr *) { return true; }
  bool TraverseCXXNoexceptExpr(CXXNoexceptExpr *) { return true; }
  bool TraverseCaseStmt(CaseStmt *s) { return TraverseStmt(s->getSubStmt()); }
  bool TraverseVarDecl(VarDecl *d) { if (d->isConstexpr()) return true; return RecursiveASTVisitor::TraverseVarDecl(d); }
  bool TraverseIfStmt(IfStmt *s) {
    if (s->isConstexpr()) { TraverseStmt(s->getThen()); if (s->getElse()) TraverseStmt(s->getElse()); return true; }
    return RecursiveASTVisitor::TraverseIfStmt(s);
  }
  bool TraverseTemplateTypeParmDecl(TemplateTypeParmDecl *) { return true; }
  bool TraverseNonTypeTemplateParmDecl(NonTypeTemplateParmDecl *) { return true; }
  void cond(const Expr *e, const VarDecl *v) {
    if (v || !e) return;
    e = e->IgnoreParenImpCasts();
    if (isa<BinaryOperator>(e) || isa<CXXBoolLiteralExpr>(e)) return; // done there
    out("cond", "", e);
  }
  bool VisitIfStmt(IfStmt *s) { cond(s->getCond(), s->getConditionVariable()); stmt(s->getThen()); stmt(s->getElse()); return true; }
  bool VisitWhileStmt(WhileStmt *s) { cond(s->getCond(), s->getConditionVariable()); stmt(s->getBody()); return true; }
  bool VisitForStmt(ForStmt *s) { stmt(s->getBody()); return true; }
  bool VisitConditionalOperator(ConditionalOperator *s) { cond(s->getCond(), nullptr); return true; }
  void stmt(const Stmt *s) {
    if (!s) return;
    if (auto e = dyn_cast<Expr>(s)) {
      auto x = e->IgnoreImplicit();
      if (isa<CXXThrowExpr>(x)) return;
      out("stmt", "", s);
    } else if (isa<BreakStmt>(s) || isa<ContinueStmt>(s)) out("stmt", "", s);
  }
  bool VisitCompoundStmt(CompoundStmt *s) { for (auto x : s->body()) stmt(x); return true; }
  bool VisitSwitchCase(SwitchCase *s) { stmt(s->getSubStmt()); return true; }
  bool VisitBinaryOperator(BinaryOperator *b) { out("bin", std::string(b->getOpcodeStr()), b, b->getLHS(), b->getRHS()); return true; }
  bool VisitCXXRewrittenBinaryOperator(CXXRewrittenBinaryOperator *) { return true; }
  bool VisitCXXOperatorCallExpr(CXXOperatorCallExpr *e) {
    if (e->isInfixBinaryOp() && e->getNumArgs() == 2) out("bin", getOperatorSpelling(e->getOperator()), e, e->getArg(0), e->getArg(1));
    else if (e->getNumArgs() == 1 && e->getOperator() == OO_Exclaim) out("not", "", e, e->getArg(0));
    return true;
  }
  bool VisitUnaryOperator(UnaryOperator *u) {
    if (u->getOpcode() == UO_LNot) out("not", "", u, u->getSubExpr());
    if (u->getOpcode() == UO_Minus) out("minus", "", u, u->getSubExpr());
    if (u->getOpcode() == UO_Not) out("compl", "", u, u->getSubExpr());
    return true;
  }
  bool VisitIntegerLiteral(IntegerLiteral *l) { out("int", "", l); return true; }
  bool VisitCharacterLiteral(CharacterLiteral *l) { out("chr", "", l); return true; }
  bool VisitCXXBoolLiteralExpr(CXXBoolLiteralExpr *l) { out("bool", l->getValue() ? "true" : "false", l); return true; }
  bool VisitCallExpr(CallExpr *c) {
    if (isa<CXXOperatorCallExpr>(c)) return true;
    out("call", "", c);
    return true;
  }
};
struct Cons : ASTConsumer { void HandleTranslationUnit(ASTContext &c) override { V(c).TraverseDecl(c.getTranslationUnitDecl()); } };
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); } };
int main(int argc, char **argv) {
  Target = argv[1];
  std::string src = argv[2];
  std::vector<std::string> args(argv + 3, argv + argc);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool t(db, {src});
  return t.run(tooling::newFrontendActionFactory<Act>().get());
}
