// mpart-extract: parse one translation unit of /repo with clang and write the
// resolved program (classes, fields, functions, statements, expressions, call
// targets, types) of the code that lives under --root as one JSON document.
// Nothing of /repo is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;
using json::Array; using json::Object; using json::Value;

static std::string Root = "/repo";
static std::string OutFile;
static int MaxInst = 1;

namespace {

struct Dumper {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  std::map<std::string,int> typeIx; Array types;
  std::map<const Decl*,int> declIx;
  Array funcs, classes, enums, globals;
  std::map<std::string,int> instCount; std::set<std::string> seenSpec;
  std::set<const Decl*> doneClass;

  Dumper(ASTContext &c): C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true; PP.Bool = true;
  }
  int ty(QualType T){
    if(T.isNull()) return -1;
    std::string s = T.getCanonicalType().getAsString(PP);
    auto it = typeIx.find(s); if(it!=typeIx.end()) return it->second;
    int n = types.size(); types.push_back(s); typeIx[s]=n; return n;
  }
  int did(const Decl*D){ D = D->getCanonicalDecl(); auto it=declIx.find(D); if(it!=declIx.end()) return it->second; int n=declIx.size()+1; declIx[D]=n; return n; }
  bool inRoot(SourceLocation L, std::string *file=nullptr, unsigned *line=nullptr){
    L = SM.getExpansionLoc(L); if(L.isInvalid()) return false;
    PresumedLoc P = SM.getPresumedLoc(L); if(P.isInvalid()) return false;
    llvm::StringRef f(P.getFilename());
    llvm::SmallString<256> rp; 
    std::string fs;
    if(auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) { llvm::StringRef r = FE->getFileEntry().tryGetRealPathName(); fs = r.empty()? f.str() : r.str(); } else fs=f.str();
    if(fs.rfind(Root + "/",0)!=0) return false;
    if(file) *file = fs.substr(Root.size()+1);
    if(line) *line = P.getLine();
    return true;
  }
  unsigned line(SourceLocation L){ L=SM.getExpansionLoc(L); if(L.isInvalid()) return 0; return SM.getPresumedLoc(L).getLine(); }
  static const FunctionDecl* pattern(const FunctionDecl*F){
    if(const FunctionDecl*P = F->getTemplateInstantiationPattern()) return P;
    return F;
  }
  std::string usr(const Decl*D){ llvm::SmallString<128> b; if(index::generateUSRForDecl(D,b)) return ""; return std::string(b.str()); }
  std::string qn(const NamedDecl*D){ std::string s; llvm::raw_string_ostream os(s); D->printQualifiedName(os,PP); return os.str(); }

  // reference to a callee
  void callee(Object &o, const FunctionDecl*F){
    const FunctionDecl*P = pattern(F);
    o["q"]=qn(F);
    std::string f; unsigned l;
    o["u"]=usr(P);
    if(auto*M=dyn_cast<CXXMethodDecl>(F)){
      o["cls"]=qn(M->getParent());
      if(M->isVirtual()) o["virt"]=true;
      if(M->isConst()) o["cst"]=true;
      if(M->isStatic()) o["stat"]=true;
      if(M->getParent()->isLambda()) { o["lamcall"]=true; }
    }
    if(auto*TA=F->getTemplateSpecializationArgs()){
      Array ta; for(auto&A:TA->asArray()){ std::string s; llvm::raw_string_ostream os(s); A.print(PP,os,true); ta.push_back(os.str()); }
      o["ta"]=std::move(ta);
    }
    Array pt; for(auto*p:F->parameters()) pt.push_back(ty(p->getType()));
    o["pt"]=std::move(pt);
    o["rt"]=ty(F->getReturnType());
    if(inRoot(P->getLocation(),&f,&l)){ o["root"]=true; if(P!=F) o["iu"]=usr(F); }
  }

  Value E(const Expr*e){
    if(!e) return nullptr;
    // strip wrappers that do not matter
    for(;;){
      if(auto*x=dyn_cast<ExprWithCleanups>(e)) e=x->getSubExpr();
      else if(auto*x=dyn_cast<MaterializeTemporaryExpr>(e)) e=x->getSubExpr();
      else if(auto*x=dyn_cast<CXXBindTemporaryExpr>(e)) e=x->getSubExpr();
      else if(auto*x=dyn_cast<ParenExpr>(e)) e=x->getSubExpr();
      else if(auto*x=dyn_cast<ConstantExpr>(e)) e=x->getSubExpr();
      else if(auto*x=dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e=x->getReplacement();
      else if(auto*x=dyn_cast<CXXDefaultArgExpr>(e)) e=x->getExpr();
      else if(auto*x=dyn_cast<CXXDefaultInitExpr>(e)) e=x->getExpr();
      else if(auto*x=dyn_cast<CXXStdInitializerListExpr>(e)) e=x->getSubExpr();
      else if(auto*x=dyn_cast<ImplicitCastExpr>(e)) {
        e=x->getSubExpr();
      }
      else break;
    }
    Object o; o["l"]=(int64_t)line(e->getExprLoc()); o["t"]=ty(e->getType());
    if(auto*x=dyn_cast<DeclRefExpr>(e)){
      const ValueDecl*D=x->getDecl();
      o["k"]="ref"; o["n"]=D->getNameAsString(); o["id"]=did(D);
      if(isa<ParmVarDecl>(D)) o["d"]="param";
      else if(auto*V=dyn_cast<VarDecl>(D)){ o["d"]= V->isLocalVarDecl()? "local":"global"; if(!V->isLocalVarDecl()) o["q"]=qn(V); if(V->isStaticLocal()) o["slocal"]=true;
         if(const Expr*I = V->getAnyInitializer()) if(!I->isValueDependent() && V->getType().isConstQualified() && V->getType()->isIntegralOrEnumerationType()) { Expr::EvalResult R; if(I->EvaluateAsInt(R,C)) o["cv"]=(int64_t)R.Val.getInt().getExtValue(); } }
      else if(auto*F=dyn_cast<FunctionDecl>(D)){ o["d"]="func"; callee(o,F); }
      else if(auto*EC=dyn_cast<EnumConstantDecl>(D)){ o["d"]="enum"; o["q"]=qn(EC); o["v"]=(int64_t)EC->getInitVal().getExtValue(); }
      else if(isa<BindingDecl>(D)) o["d"]="local";
      else { o["d"]="other"; o["q"]=qn(D);}
      return o;
    }
    if(auto*x=dyn_cast<MemberExpr>(e)){
      o["k"]="mem"; o["n"]=x->getMemberDecl()->getNameAsString(); o["b"]=E(x->getBase());
      if(auto*F=dyn_cast<FieldDecl>(x->getMemberDecl())){ o["fc"]=qn(F->getParent()); 
        if(auto*RD=dyn_cast<CXXRecordDecl>(F->getParent())) o["fcp"]=className(RD);
      } else if(auto*M=dyn_cast<FunctionDecl>(x->getMemberDecl())) { o["d"]="func"; callee(o,M); }
      else if(auto*V=dyn_cast<VarDecl>(x->getMemberDecl())) { o["d"]="global"; o["q"]=qn(V);}
      if(x->isArrow()) o["arrow"]=true;
      return o;
    }
    if(isa<CXXThisExpr>(e)){ o["k"]="this"; return o; }
    if(auto*x=dyn_cast<CXXOperatorCallExpr>(e)){
      o["k"]="call"; o["opr"]=getOperatorSpelling(x->getOperator());
      if(const FunctionDecl*F=x->getDirectCallee()){ callee(o,F); bool mem=isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic();
        Array a; unsigned i0=0; if(mem){ o["obj"]=E(x->getArg(0)); i0=1; }
        for(unsigned i=i0;i<x->getNumArgs();++i) a.push_back(E(x->getArg(i))); o["a"]=std::move(a);
      } else { o["dep"]=true; Array a; if(x->getNumArgs()) o["obj"]=E(x->getArg(0)); for(unsigned i=1;i<x->getNumArgs();++i) a.push_back(E(x->getArg(i))); o["a"]=std::move(a);} 
      return o;
    }
    if(auto*x=dyn_cast<CallExpr>(e)){
      o["k"]="call";
      const FunctionDecl*F=x->getDirectCallee();
      if(F) callee(o,F);
      if(auto*m=dyn_cast<CXXMemberCallExpr>(x)){ if(auto*me=dyn_cast<MemberExpr>(m->getCallee()->IgnoreParenImpCasts())){ o["obj"]=E(me->getBase()); if(me->isArrow()) o["arrow"]=true; if(me->hasQualifier()) o["nonvirt"]=true; } else if(auto*IO=m->getImplicitObjectArgument()) o["obj"]=E(IO); }
      if(!F){ o["fn"]=E(x->getCallee()); o["dep"]=true; }
      Array a; for(auto*A:x->arguments()) a.push_back(E(A)); o["a"]=std::move(a);
      return o;
    }
    if(auto*x=dyn_cast<CXXConstructExpr>(e)){
      const CXXConstructorDecl*K=x->getConstructor();
      o["k"]="ctor"; o["cls"]=qn(K->getParent()); 
      callee(o,K);
      if(K->isCopyConstructor()) o["cp"]=true; if(K->isMoveConstructor()) o["mv"]=true; if(K->isDefaultConstructor()) o["def"]=true;
      if(K->isUserProvided()) o["up"]=true;
      Array a; for(auto*A:x->arguments()) a.push_back(E(A)); o["a"]=std::move(a);
      return o;
    }
    if(auto*x=dyn_cast<CXXFunctionalCastExpr>(e)){ if(isa<CXXConstructExpr>(x->getSubExpr()->IgnoreImplicit())) return E(x->getSubExpr()); o["k"]="cast"; o["e"]=E(x->getSubExpr()); return o; }
    if(auto*x=dyn_cast<ExplicitCastExpr>(e)){ o["k"]="cast"; o["ck"]=x->getStmtClassName(); o["e"]=E(x->getSubExpr()); return o; }
    if(auto*x=dyn_cast<UnaryOperator>(e)){ o["k"]="un"; o["op"]=UnaryOperator::getOpcodeStr(x->getOpcode()).str(); if(x->isPostfix()) o["post"]=true; o["e"]=E(x->getSubExpr()); return o; }
    if(auto*x=dyn_cast<CompoundAssignOperator>(e)){ o["k"]="asg"; o["op"]=x->getOpcodeStr().str(); o["x"]=E(x->getLHS()); o["y"]=E(x->getRHS()); return o; }
    if(auto*x=dyn_cast<BinaryOperator>(e)){ if(x->isAssignmentOp()) o["k"]="asg"; else o["k"]="bin"; o["op"]=x->getOpcodeStr().str(); o["x"]=E(x->getLHS()); o["y"]=E(x->getRHS()); return o; }
    if(auto*x=dyn_cast<ConditionalOperator>(e)){
      if(auto*ce=dyn_cast<CallExpr>(x->getFalseExpr()->IgnoreParenImpCasts())) if(ce->getDirectCallee() && ce->getDirectCallee()->getNameAsString()=="__assert_fail"){ o["k"]="assert"; o["c"]=E(x->getCond()); return o; }
      o["k"]="cond"; o["c"]=E(x->getCond()); o["x"]=E(x->getTrueExpr()); o["y"]=E(x->getFalseExpr()); return o; }
    if(auto*x=dyn_cast<IntegerLiteral>(e)){ o["k"]="int"; llvm::SmallString<32> s; x->getValue().toString(s,10,x->getType()->isSignedIntegerType()); o["v"]=(int64_t)x->getValue().getLimitedValue(INT64_MAX); return o; }
    if(auto*x=dyn_cast<FloatingLiteral>(e)){ o["k"]="flt"; o["v"]=x->getValueAsApproximateDouble(); 
        llvm::SmallString<32> s; x->getValue().toString(s); o["s"]=std::string(s.str()); if(!x->getValue().isFinite()) o["v"]=nullptr; return o; }
    if(auto*x=dyn_cast<CXXBoolLiteralExpr>(e)){ o["k"]="bool"; o["v"]=x->getValue(); return o; }
    if(auto*x=dyn_cast<StringLiteral>(e)){ o["k"]="str"; if(x->getCharByteWidth()==1){ std::string s=x->getString().str(); o["v"]= json::isUTF8(s)? s : json::fixUTF8(s);} return o; }
    if(auto*x=dyn_cast<CharacterLiteral>(e)){ o["k"]="chr"; o["v"]=(int64_t)x->getValue(); return o; }
    if(isa<CXXNullPtrLiteralExpr>(e)||isa<GNUNullExpr>(e)){ o["k"]="null"; return o; }
    if(auto*x=dyn_cast<ArraySubscriptExpr>(e)){ o["k"]="sub"; o["b"]=E(x->getBase()); o["i"]=E(x->getIdx()); return o; }
    if(auto*x=dyn_cast<LambdaExpr>(e)){
      o["k"]="lam"; Array caps;
      for(auto&c:x->captures()){ Object k; if(c.capturesVariable()){ k["n"]=c.getCapturedVar()->getNameAsString(); k["id"]=did(c.getCapturedVar()); k["ref"]=c.getCaptureKind()==LCK_ByRef; if(c.isPackExpansion()) k["pack"]=true; 
            if(auto*V=dyn_cast<VarDecl>(c.getCapturedVar())) if(V->isInitCapture() && V->getInit()) k["init"]=E(V->getInit()); }
        else if(c.capturesThis()){ k["n"]="this"; k["ref"]=c.getCaptureKind()!=LCK_StarThis; } else continue; caps.push_back(std::move(k)); }
      o["caps"]=std::move(caps);
      const CXXMethodDecl*M=x->getCallOperator(); 
      if(x->isGenericLambda()) { o["generic"]=true; }
      o["lid"]=did(M);
      Array ps; for(auto*p:M->parameters()) ps.push_back(param(p)); o["ps"]=std::move(ps);
      o["body"]=S(x->getBody()); 
      o["mut"]=!M->isConst();
      return o;
    }
    if(auto*x=dyn_cast<InitListExpr>(e)){ o["k"]="list"; Array a; const InitListExpr*sem = x->isSemanticForm()? x : (x->getSemanticForm()?x->getSemanticForm():x); for(auto*i:sem->inits()) a.push_back(E(i)); o["a"]=std::move(a); return o; }
    if(auto*x=dyn_cast<CXXNewExpr>(e)){ o["k"]="new"; o["nt"]=ty(x->getAllocatedType()); if(x->isArray()) o["sz"]=E(x->getArraySize().value_or(nullptr)); if(auto*K=x->getConstructExpr()) o["e"]=E(K); Array pa; for(unsigned i=0;i<x->getNumPlacementArgs();++i) pa.push_back(E(x->getPlacementArg(i))); if(!pa.empty()) o["place"]=std::move(pa); return o; }
    if(auto*x=dyn_cast<CXXDeleteExpr>(e)){ o["k"]="del"; o["e"]=E(x->getArgument()); return o; }
    if(auto*x=dyn_cast<CXXThrowExpr>(e)){ o["k"]="throw"; if(x->getSubExpr()) o["e"]=E(x->getSubExpr()); return o; }
    if(auto*x=dyn_cast<UnaryExprOrTypeTraitExpr>(e)){ o["k"]="sizeof"; o["at"]=ty(x->getTypeOfArgument()); return o; }
    if(auto*x=dyn_cast<CXXInheritedCtorInitExpr>(e)){ o["k"]="ctor"; callee(o,x->getConstructor()); o["inh"]=true; o["a"]=Array(); return o; }
    if(auto*x=dyn_cast<CXXTemporaryObjectExpr>(e)){ (void)x; }
    if(isa<CXXScalarValueInitExpr>(e)||isa<ImplicitValueInitExpr>(e)){ o["k"]="zero"; return o; }
    if(auto*x=dyn_cast<PackExpansionExpr>(e)){ return E(x->getPattern()); }
    if(auto*x=dyn_cast<UnresolvedLookupExpr>(e)){ o["k"]="dep"; o["n"]=x->getName().getAsString(); return o; }
    if(auto*x=dyn_cast<CXXDependentScopeMemberExpr>(e)){ o["k"]="dep"; o["n"]=x->getMember().getAsString(); if(!x->isImplicitAccess()) o["b"]=E(x->getBase()); return o; }
    if(auto*x=dyn_cast<UnresolvedMemberExpr>(e)){ o["k"]="dep"; o["n"]=x->getMemberName().getAsString(); if(!x->isImplicitAccess()) o["b"]=E(x->getBase()); return o; }
    if(auto*x=dyn_cast<DependentScopeDeclRefExpr>(e)){ o["k"]="dep"; o["n"]=x->getDeclName().getAsString(); return o; }
    if(auto*x=dyn_cast<CXXUnresolvedConstructExpr>(e)){ o["k"]="ctor"; o["dep"]=true; Array a; for(auto*A:x->arguments()) a.push_back(E(A)); o["a"]=std::move(a); return o; }
    if(auto*x=dyn_cast<TypeTraitExpr>(e)){ o["k"]="bool"; if(!x->isValueDependent()) o["v"]=x->getValue(); return o; }
    if(auto*x=dyn_cast<CXXParenListInitExpr>(e)){ (void)x; }
    o["k"]="other"; o["sc"]=e->getStmtClassName();
    Array a; for(auto*c:e->children()) if(c) if(auto*ce=dyn_cast<Expr>(c)) a.push_back(E(ce)); o["a"]=std::move(a);
    return o;
  }

  Object param(const ParmVarDecl*p){ Object o; o["n"]=p->getNameAsString(); o["t"]=ty(p->getType()); o["id"]=did(p); if(p->hasDefaultArg()) o["hd"]=true; if(p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) o["dv"]=E(p->getDefaultArg()); else if(p->hasUninstantiatedDefaultArg() && p->getUninstantiatedDefaultArg() && !p->getUninstantiatedDefaultArg()->isTypeDependent()) o["dv"]=E(p->getUninstantiatedDefaultArg()); return o; }

  Value varDecl(const VarDecl*V){
    Object o; o["k"]="var"; o["n"]=V->getNameAsString(); o["id"]=did(V); o["t"]=ty(V->getType()); o["l"]=(int64_t)line(V->getLocation());
    if(V->isStaticLocal()) o["static"]=true;
    if(auto*DD=dyn_cast<DecompositionDecl>(V)){ Array a; for(auto*B:DD->bindings()){ Object b; b["n"]=B->getNameAsString(); b["id"]=did(B);
        if(auto*be=B->getBinding()) if(auto*me=dyn_cast<MemberExpr>(be->IgnoreParenImpCasts())) b["f"]=me->getMemberDecl()->getNameAsString();
        a.push_back(std::move(b)); } o["binds"]=std::move(a); }
    if(V->getInit()) { o["init"]=E(V->getInit()); if(V->getInitStyle()!=VarDecl::CInit) o["is"]= V->getInitStyle()==VarDecl::CallInit? "call":"list"; }
    return o;
  }

  Value S(const Stmt*s){
    if(!s) return nullptr;
    if(auto*e=dyn_cast<Expr>(s)){ Object o; o["k"]="expr"; o["l"]=(int64_t)line(e->getBeginLoc()); o["e"]=E(e); return o; }
    Object o; o["l"]=(int64_t)line(s->getBeginLoc());
    if(auto*x=dyn_cast<CompoundStmt>(s)){ o["k"]="blk"; Array a; for(auto*c:x->body()) a.push_back(S(c)); o["a"]=std::move(a); return o; }
    if(auto*x=dyn_cast<DeclStmt>(s)){ o["k"]="decl"; Array a; for(auto*D:x->decls()){ if(auto*V=dyn_cast<VarDecl>(D)) a.push_back(varDecl(V)); } o["a"]=std::move(a); return o; }
    if(auto*x=dyn_cast<IfStmt>(s)){ o["k"]="if"; if(x->getInit()) o["init"]=S(x->getInit()); if(x->getConditionVariable()) o["cv"]=varDecl(x->getConditionVariable()); o["c"]=E(x->getCond()); o["then"]=S(x->getThen()); if(x->getElse()) o["els"]=S(x->getElse()); if(x->isConstexpr()) { o["cx"]=true;
        if(!x->getCond()->isValueDependent()) if(auto nd=x->getNondiscardedCase(C)) o["live"]= (*nd==x->getThen()) ? "then" : "else"; } return o; }
    if(auto*x=dyn_cast<ForStmt>(s)){ o["k"]="for"; if(x->getInit()) o["init"]=S(x->getInit()); if(x->getCond()) o["c"]=E(x->getCond()); if(x->getInc()) o["inc"]=E(x->getInc()); o["body"]=S(x->getBody()); return o; }
    if(auto*x=dyn_cast<WhileStmt>(s)){ o["k"]="while"; o["c"]=E(x->getCond()); o["body"]=S(x->getBody()); return o; }
    if(auto*x=dyn_cast<DoStmt>(s)){ o["k"]="do"; o["c"]=E(x->getCond()); o["body"]=S(x->getBody()); return o; }
    if(auto*x=dyn_cast<CXXForRangeStmt>(s)){ o["k"]="rfor"; o["var"]=varDecl(x->getLoopVariable()); o["range"]=E(x->getRangeInit()); o["body"]=S(x->getBody()); return o; }
    if(auto*x=dyn_cast<ReturnStmt>(s)){ o["k"]="ret"; if(x->getRetValue()) o["e"]=E(x->getRetValue()); return o; }
    if(auto*x=dyn_cast<SwitchStmt>(s)){ o["k"]="switch"; o["c"]=E(x->getCond()); o["body"]=S(x->getBody()); 
       o["alle"]=x->isAllEnumCasesCovered(); return o; }
    if(auto*x=dyn_cast<CaseStmt>(s)){ o["k"]="case"; o["v"]=E(x->getLHS()); o["s"]=S(x->getSubStmt()); return o; }
    if(auto*x=dyn_cast<DefaultStmt>(s)){ o["k"]="default"; o["s"]=S(x->getSubStmt()); return o; }
    if(isa<BreakStmt>(s)){ o["k"]="break"; return o; }
    if(isa<ContinueStmt>(s)){ o["k"]="cont"; return o; }
    if(isa<NullStmt>(s)){ o["k"]="nop"; return o; }
    if(auto*x=dyn_cast<CXXTryStmt>(s)){ o["k"]="try"; o["body"]=S(x->getTryBlock()); Array h; for(unsigned i=0;i<x->getNumHandlers();++i){ Object ho; if(x->getHandler(i)->getExceptionDecl()) ho["var"]=varDecl(x->getHandler(i)->getExceptionDecl()); ho["body"]=S(x->getHandler(i)->getHandlerBlock()); ho["l"]=(int64_t)line(x->getHandler(i)->getBeginLoc()); h.push_back(std::move(ho)); } o["h"]=std::move(h); return o; }
    if(auto*x=dyn_cast<AttributedStmt>(s)) return S(x->getSubStmt());
    if(auto*x=dyn_cast<LabelStmt>(s)) { o["k"]="label"; o["n"]=x->getName(); o["s"]=S(x->getSubStmt()); return o; }
    if(auto*x=dyn_cast<GotoStmt>(s)) { o["k"]="goto"; o["n"]=x->getLabel()->getName(); return o; }
    o["k"]="sother"; o["sc"]=s->getStmtClassName(); Array a; for(auto*c:s->children()) if(c) a.push_back(S(c)); o["a"]=std::move(a); return o;
  }

  // class template name without arguments
  std::string className(const CXXRecordDecl*R){ std::string s; llvm::raw_string_ostream os(s); PrintingPolicy P2=PP; R->printQualifiedName(os,P2); return os.str(); }

  void func(const FunctionDecl*F){
    if(!F->doesThisDeclarationHaveABody() && !F->isDefaulted()) return;
    if(F->isDefaulted() && !F->doesThisDeclarationHaveABody()) return;
    if(!F->getBody()) return;
    const FunctionDecl*P=pattern(F);
    std::string file; unsigned l;
    if(!inRoot(P->getLocation(),&file,&l)) return;
    if(auto*M=dyn_cast<CXXMethodDecl>(F)) if(M->getParent()->isLambda()) return;
    bool dep=F->isDependentContext();
    std::string u=usr(P);
    std::string key=u + (dep?"#dep":"");
    bool inst = (P!=F);
    if(inst){ if(instCount[u]>=MaxInst) return; instCount[u]++; }
    else { if(!seenSpec.insert(key).second) return; }
    Object o; o["u"]=u; o["q"]=qn(F); o["file"]=file; o["line"]=(int64_t)l; o["end"]=(int64_t)line(P->getEndLoc());
    o["iu"]=usr(F);
    if(dep) o["dep"]=true; if(inst) o["inst"]=true;
    o["ret"]=ty(F->getReturnType());
    if(auto*TA=F->getTemplateSpecializationArgs()){ Array ta; for(auto&A:TA->asArray()){ std::string s; llvm::raw_string_ostream os(s); A.print(PP,os,true); ta.push_back(os.str()); } o["ta"]=std::move(ta); }
    Array ps; for(auto*p:F->parameters()) ps.push_back(param(p)); o["ps"]=std::move(ps);
    if(auto*M=dyn_cast<CXXMethodDecl>(F)){
      o["cls"]=qn(M->getParent()); o["clst"]=ty(C.getTypeDeclType(M->getParent()));
      if(M->isConst()) o["cst"]=true; if(M->isStatic()) o["stat"]=true; if(M->isVirtual()) o["virt"]=true;
      Array ov; for(auto*b:M->overridden_methods()) ov.push_back(usr(pattern(b))); if(!ov.empty()) o["ov"]=std::move(ov);
      o["acc"]=(int64_t)M->getAccess();
    }
    if(auto*K=dyn_cast<CXXConstructorDecl>(F)){
      o["isctor"]=true; if(K->isCopyConstructor()) o["cp"]=true; if(K->isMoveConstructor()) o["mv"]=true; if(K->isDelegatingConstructor()) o["delegating"]=true;
      Array in; for(auto*I:K->inits()){ Object io; if(I->isAnyMemberInitializer()) io["f"]=I->getAnyMember()->getNameAsString(); else if(I->isBaseInitializer()) { io["base"]=ty(QualType(I->getBaseClass(),0)); } else if(I->isDelegatingInitializer()) io["deleg"]=true;
        if(I->isWritten()) io["w"]=true; io["l"]=(int64_t)line(I->getSourceLocation()); io["e"]=E(I->getInit()); in.push_back(std::move(io)); }
      o["inits"]=std::move(in);
    }
    if(isa<CXXDestructorDecl>(F)) o["isdtor"]=true;
    o["body"]=S(F->getBody());
    funcs.push_back(std::move(o));
  }

  void cls(const CXXRecordDecl*R){
    if(!R->isThisDeclarationADefinition()||R->isLambda()) return;
    std::string file; unsigned l;
    const CXXRecordDecl*P=R; if(auto*TP=R->getTemplateInstantiationPattern()) P=TP;
    if(!inRoot(P->getLocation(),&file,&l)) return;
    if(!doneClass.insert(R).second) return;
    Object o; o["q"]=qn(R); o["tn"]=ty(C.getTypeDeclType(R)); o["file"]=file; o["line"]=(int64_t)l;
    if(R->isDependentContext()) o["dep"]=true; 
    o["pu"]=usr(P);
    Array bs; for(auto&b:R->bases()){ Object bo; bo["t"]=ty(b.getType()); if(auto*BR=b.getType()->getAsCXXRecordDecl()) bo["q"]=qn(BR); bs.push_back(std::move(bo)); } o["bases"]=std::move(bs);
    Array fs; for(auto*F:R->fields()){ Object fo; fo["n"]=F->getNameAsString(); fo["t"]=ty(F->getType()); fo["acc"]=(int64_t)F->getAccess(); fo["l"]=(int64_t)line(F->getLocation()); if(F->isMutable()) fo["mut"]=true; if(F->hasInClassInitializer() && F->getInClassInitializer()) fo["init"]=E(F->getInClassInitializer()); 
       fo["scalar"]=F->getType()->isScalarType(); fs.push_back(std::move(fo)); } o["fields"]=std::move(fs);
    Array ms; for(auto*M:R->methods()){ if(M->isImplicit()) continue; Object mo; mo["n"]=M->getNameAsString(); mo["u"]=usr(pattern(M)); mo["ret"]=ty(M->getReturnType()); Array pt; for(auto*p:M->parameters()) pt.push_back(param(p)); mo["ps"]=std::move(pt); mo["acc"]=(int64_t)M->getAccess(); if(M->isVirtual()) mo["virt"]=true; if(M->isPureVirtual()) mo["pure"]=true; if(M->isConst()) mo["cst"]=true; if(M->isStatic()) mo["stat"]=true; if(M->isDeleted()) mo["del"]=true; if(M->isDefaulted()) mo["dflt"]=true; 
       Array ov; for(auto*b:M->overridden_methods()) ov.push_back(usr(pattern(b))); if(!ov.empty()) mo["ov"]=std::move(ov);
       mo["l"]=(int64_t)line(M->getLocation()); ms.push_back(std::move(mo)); } o["methods"]=std::move(ms);
    classes.push_back(std::move(o));
  }
};

struct V : RecursiveASTVisitor<V> {
  Dumper &D; V(Dumper&d):D(d){}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool TraverseDecl(Decl*d){
    // Skip whole top-level system namespaces quickly: only descend when in root or a namespace/TU.
    return RecursiveASTVisitor<V>::TraverseDecl(d);
  }
  bool VisitFunctionDecl(FunctionDecl*F){ D.func(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl*R){ D.cls(R); return true; }
  bool VisitEnumDecl(EnumDecl*En){ std::string f; unsigned l; if(!En->isThisDeclarationADefinition()||!D.inRoot(En->getLocation(),&f,&l)) return true; Object o; o["q"]=D.qn(En); o["file"]=f; o["line"]=(int64_t)l; Array cs; for(auto*c:En->enumerators()){ Object co; co["n"]=c->getNameAsString(); co["v"]=(int64_t)c->getInitVal().getExtValue(); cs.push_back(std::move(co)); } o["cs"]=std::move(cs); D.enums.push_back(std::move(o)); return true; }
  bool VisitVarDecl(VarDecl*Va){ if(!Va->hasGlobalStorage()||Va->isStaticLocal()) return true; if(isa<ParmVarDecl>(Va)) return true; std::string f; unsigned l; if(!D.inRoot(Va->getLocation(),&f,&l)) return true; if(Va->getDeclContext()->isDependentContext()) return true; Object o; o["q"]=D.qn(Va); o["file"]=f; o["line"]=(int64_t)l; o["t"]=D.ty(Va->getType()); if(Va->getInit()) o["init"]=D.E(Va->getInit()); if(Va->isStaticDataMember()) o["sdm"]=true; D.globals.push_back(std::move(o)); return true; }
};

struct Consumer : ASTConsumer {
  std::string In; Consumer(std::string f):In(f){}
  void HandleTranslationUnit(ASTContext&C) override {
    if(C.getDiagnostics().hasErrorOccurred()) { llvm::errs()<<"parse errors in "<<In<<"\n"; }
    Dumper D(C); V v(D); v.TraverseDecl(C.getTranslationUnitDecl());
    Object o; o["tu"]=In; o["err"]=C.getDiagnostics().hasErrorOccurred(); o["types"]=std::move(D.types); o["funcs"]=std::move(D.funcs); o["classes"]=std::move(D.classes); o["enums"]=std::move(D.enums); o["globals"]=std::move(D.globals);
    std::error_code ec; llvm::raw_fd_ostream os(OutFile,ec); os<<Value(std::move(o)); os.close();
  }
};
struct Action : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef f) override { return std::make_unique<Consumer>(f.str()); } };
struct Factory : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); } };
}

int main(int argc,const char**argv){
  std::vector<std::string> flags; std::string src; int i=1;
  for(;i<argc;++i){ std::string a=argv[i]; if(a=="--root") Root=argv[++i]; else if(a=="--out") OutFile=argv[++i]; else if(a=="--max-inst") MaxInst=atoi(argv[++i]); else if(a=="--") { ++i; break; } else src=a; }
  for(;i<argc;++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".",flags);
  tooling::ClangTool T(db,{src});
  Factory f; int rc=T.run(&f); 
  return rc?2:0;
}
