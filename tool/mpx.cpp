// mpx: mechanical extractor. Parses a driver translation unit that includes the real /repo headers/sources and
// dumps, as JSON, the fully type-checked body of every non-dependent function (template instantiations included)
// whose definition lies under the given root directory.  Nothing is interpreted here: casts, calls, overload
// resolution, virtual dispatch, default arguments and conversions are the ones clang's Sema resolved.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <vector>
#include <string>
#include <fstream>
using namespace clang;
namespace json = llvm::json;

static std::string gOut; static std::vector<std::string> gRoots;

struct Ex {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  std::map<const Decl*,int> ids; int next=1;
  std::map<const Type*,int> typeIds; json::Array types; std::vector<QualType> typeQ;
  std::map<int,const FunctionDecl*> fns; std::vector<int> fnWork; std::set<int> fnDone;
  json::Object fnTab; json::Object recTab; std::set<const CXXRecordDecl*> recDone; std::vector<const CXXRecordDecl*> recWork;
  Ex(ASTContext&c):C(c),SM(c.getSourceManager()),PP(c.getPrintingPolicy()){ PP.SuppressTagKeyword=true; PP.AnonymousTagLocations=false; PP.PrintCanonicalTypes=true; PP.SuppressInlineNamespace=false; PP.UsePreferredNames=false;}
  int idOf(const Decl*d){ auto it=ids.find(d); if(it!=ids.end())return it->second; return ids[d]=next++; }
  bool inRepo(SourceLocation L){ L=SM.getExpansionLoc(L); auto f=SM.getFilename(L); for(auto&r:gRoots) if(f.starts_with(r)) return true; return false; }
  // explicit instantiations carry the location of the instantiation: use the pattern's
  bool recInRepo(const CXXRecordDecl*r){ if(inRepo(r->getLocation())) return true; if(auto*p=r->getTemplateInstantiationPattern()) return inRepo(p->getLocation()); return false; }
  std::string locS(SourceLocation L){ L=SM.getExpansionLoc(L); return (SM.getFilename(L)+":"+llvm::Twine(SM.getSpellingLineNumber(L))).str(); }
  // ---- types
  std::string tstr(QualType q){ q=q.getCanonicalType(); std::string s=q.getAsString(PP); return s; }
  void needRec(const CXXRecordDecl*r){ if(!r)return; if(r->getDefinition()) r=r->getDefinition(); if(recDone.insert(r).second) recWork.push_back(r); }
  json::Object tyObj(QualType q){
    q=q.getCanonicalType(); json::Object o; 
    bool cst=q.isConstQualified(); q=q.getUnqualifiedType();
    const Type*t=q.getTypePtr(); std::string s=tstr(q);
    if(t->isBooleanType()){o["k"]="bool";}
    else if(t->isEnumeralType()){ o["k"]="enum"; o["bits"]=(int64_t)C.getTypeSize(q); o["s"]=s; }
    else if(t->isIntegerType()){o["k"]="int"; o["sg"]=t->isSignedIntegerType(); o["bits"]=(int64_t)C.getTypeSize(q);}
    else if(t->isRealFloatingType()){o["k"]="real"; o["bits"]=(int64_t)C.getTypeSize(q);}
    else if(t->isVoidType()) o["k"]="void";
    else if(t->isNullPtrType()) o["k"]="nullptr";
    else if(auto*p=t->getAs<PointerType>()){o["k"]="ptr"; o["to"]=ty(p->getPointeeType());}
    else if(auto*p=t->getAs<ReferenceType>()){o["k"]="ref"; o["to"]=ty(p->getPointeeType()); o["rv"]=isa<RValueReferenceType>(t);}
    else if(auto*a=dyn_cast<ConstantArrayType>(t)){o["k"]="arr"; o["to"]=ty(a->getElementType()); o["n"]=(int64_t)a->getSize().getZExtValue();}
    else if(auto*a=dyn_cast<ArrayType>(t)){o["k"]="arr"; o["to"]=ty(a->getElementType()); o["n"]=-1;}
    else if(auto*r=t->getAsCXXRecordDecl()){ o["k"]="rec"; if(r->isLambda()){ o["lam"]=idOf(r->getCanonicalDecl()); s="(lambda#"+std::to_string(idOf(r->getCanonicalDecl()))+")";} o["s"]=s; 
       o["tn"]=r->getQualifiedNameAsString(); addTArgs(o,r); needRec(r); }
    else { o["k"]="other"; o["s"]=s; }
    if(cst) o["c"]=true;
    return o;
  }
  json::Value tArg(const TemplateArgument&a){
    switch(a.getKind()){
      case TemplateArgument::Type: return json::Object{{"ty",ty(a.getAsType())}};
      case TemplateArgument::Integral: { llvm::SmallString<32> b; a.getAsIntegral().toString(b); return json::Object{{"int",std::string(b.str())}}; }
      case TemplateArgument::Pack: { json::Array v; for(auto&x:a.pack_elements()) v.push_back(tArg(x)); return json::Object{{"pack",std::move(v)}}; }
      default: return json::Object{{"other",1}};
    }
  }
  void addTArgs(json::Object&o,const CXXRecordDecl*r){ if(auto*s=dyn_cast<ClassTemplateSpecializationDecl>(r)){ json::Array v; for(auto&a:s->getTemplateArgs().asArray()) v.push_back(tArg(a)); o["ta"]=std::move(v);} }
  std::map<std::string,int> tyKey;
  int ty(QualType q){
    q=q.getCanonicalType(); void*k=q.getAsOpaquePtr();
    auto it=tmap.find(k); if(it!=tmap.end()) return it->second;
    int id=types.size(); types.push_back(nullptr); tmap[k]=id;
    json::Object o=tyObj(q); types[id]=std::move(o); return id;
  }
  std::map<void*,int> tmap;
  // ---- functions
  const FunctionDecl* canon(const FunctionDecl*f){ const FunctionDecl*d=nullptr; if(f->isDefined(d)) {} return f->getCanonicalDecl(); }
  int fref(const FunctionDecl*f){ f=canon(f); int id=idOf(f); if(fnDone.insert(id).second){ fns[id]=f; fnWork.push_back(id);} return id; }
  void emitFn(int id){
    const FunctionDecl*f=fns[id]; json::Object o;
    const FunctionDecl*def=nullptr; bool hasDef=f->isDefined(def);
    if(hasDef && def->isDependentContext()) hasDef=false;
    const FunctionDecl*g=hasDef?def:f;
    o["q"]=g->getQualifiedNameAsString(); o["n"]=g->getNameAsString();
    if(auto*ta=g->getTemplateSpecializationArgs()){ json::Array v; for(auto&a:ta->asArray()) v.push_back(tArg(a)); o["ta"]=std::move(v);}
    o["ret"]=ty(g->getReturnType());
    json::Array ps; for(auto*p:g->parameters()){ ps.push_back(json::Object{{"id",idOf(p)},{"n",p->getNameAsString()},{"t",ty(p->getType())}}); }
    o["ps"]=std::move(ps);
    o["repo"]=inRepo(g->getLocation()); o["loc"]=locS(g->getLocation());
    if(auto*m=dyn_cast<CXXMethodDecl>(g)){ 
      o["cls"]=ty(C.getRecordType(m->getParent()));
      if(m->isVirtual()){o["virt"]=true; json::Array ov; for(auto*x:m->overridden_methods()) ov.push_back(fref(x)); o["ov"]=std::move(ov); if(m->isPureVirtual()) o["pure"]=true;}
      if(m->isStatic())o["static"]=true; if(m->isConst())o["const"]=true;
      if(isa<CXXConstructorDecl>(m)) {o["ctor"]=true; auto*c=cast<CXXConstructorDecl>(m); if(c->isCopyConstructor())o["copy"]=true; if(c->isMoveConstructor())o["move"]=true; if(c->isDefaultConstructor())o["dflt"]=true;}
      if(isa<CXXDestructorDecl>(m)) o["dtor"]=true;
      if(m->isCopyAssignmentOperator())o["cassign"]=true; if(m->isMoveAssignmentOperator()) o["massign"]=true;
      if(m->isDefaulted()||m->isImplicit()) o["dfl"]=true;
    }
    if(auto*c=dyn_cast<CXXConversionDecl>(g)) o["conv"]=true;
    if(g->isVariadic()) o["variadic"]=true;
    if(hasDef && (o.getBoolean("repo").value_or(false))){
      if(auto*c=dyn_cast<CXXConstructorDecl>(g)){ json::Array in; for(auto*i:c->inits()){ json::Object io; if(i->isBaseInitializer()) io["base"]=ty(QualType(i->getBaseClass(),0)); else if(i->isMemberInitializer()) io["mem"]=i->getMember()->getNameAsString(); else if(i->isDelegatingInitializer()) io["deleg"]=true; else io["other"]=true; io["e"]=expr(i->getInit()); in.push_back(std::move(io)); } o["inits"]=std::move(in);} 
      if(g->getBody()) o["body"]=stmt(g->getBody());
    }
    fnTab[std::to_string(id)]=std::move(o);
  }
  void emitRec(const CXXRecordDecl*r){
    json::Object o; if(!r->hasDefinition()) return; r=r->getDefinition();
    QualType q=C.getRecordType(r); int t=ty(q);
    o["t"]=t; o["repo"]=recInRepo(r); o["loc"]=locS(r->getLocation());
    if(!o.getBoolean("repo").value_or(false) && !r->isLambda()){ // keep only base names for library records
      return; }
    json::Array fs; for(auto*f:r->fields()){ json::Object fo{{"n",f->getNameAsString()},{"t",ty(f->getType())}}; if(f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"]=expr(f->getInClassInitializer()); fs.push_back(std::move(fo)); }
    o["fs"]=std::move(fs);
    json::Array bs; for(auto&b:r->bases()) bs.push_back(ty(b.getType())); o["bs"]=std::move(bs);
    if(r->isAbstract()) o["abs"]=true;
    json::Array ms; for(auto*m:r->methods()) if(!m->isDependentContext()) ms.push_back(json::Object{{"n",m->getNameAsString()},{"f",idOf(canon(m))}}); o["ms"]=std::move(ms);
    recTab[std::to_string(t)]=std::move(o);
  }
  // ---- exprs
  json::Value unsup(const char*what,const Stmt*s){ return json::Object{{"k","unsup"},{"c",what},{"cls",s?s->getStmtClassName():""},{"l",s?locS(s->getBeginLoc()):""}}; }
  json::Value intv(const llvm::APSInt&v,QualType q){ llvm::SmallString<32> b; v.toString(b,10); return json::Object{{"k","int"},{"v",std::string(b.str())},{"t",ty(q)}}; }
  json::Array args(llvm::ArrayRef<const Expr*> a){ json::Array v; for(auto*x:a) v.push_back(expr(x)); return v; }
  template<class R> json::Array argsR(R r){ json::Array v; for(auto*x:r) v.push_back(expr(x)); return v; }
  json::Value expr(const Expr*e){
    if(!e) return nullptr;
    while(true){
      if(auto*p=dyn_cast<ParenExpr>(e)){e=p->getSubExpr();continue;}
      if(auto*p=dyn_cast<ExprWithCleanups>(e)){e=p->getSubExpr();continue;}
      if(auto*p=dyn_cast<MaterializeTemporaryExpr>(e)){e=p->getSubExpr();continue;}
      if(auto*p=dyn_cast<CXXBindTemporaryExpr>(e)){e=p->getSubExpr();continue;}
      if(auto*p=dyn_cast<SubstNonTypeTemplateParmExpr>(e)){e=p->getReplacement();continue;}
      if(auto*p=dyn_cast<CXXDefaultArgExpr>(e)){e=p->getExpr();continue;}
      if(auto*p=dyn_cast<CXXDefaultInitExpr>(e)){e=p->getExpr();continue;}
      if(auto*p=dyn_cast<ConstantExpr>(e)){e=p->getSubExpr();continue;}
      if(auto*p=dyn_cast<CXXStdInitializerListExpr>(e)){ return json::Object{{"k","stdil"},{"e",expr(p->getSubExpr())},{"t",ty(e->getType())}}; }
      break;
    }
    QualType T=e->getType();
    // integer constant references (static constexpr / template constants)
    if(auto*l=dyn_cast<IntegerLiteral>(e)){ llvm::APSInt v(l->getValue(),!T->isSignedIntegerType()); return intv(v,T);} 
    if(auto*l=dyn_cast<FloatingLiteral>(e)){ llvm::SmallString<64> b; l->getValue().toString(b,0,0,false); char buf[64]; snprintf(buf,64,"%.17g",l->getValueAsApproximateDouble()); return json::Object{{"k","flt"},{"v",std::string(buf)},{"t",ty(T)}}; }
    if(auto*l=dyn_cast<CXXBoolLiteralExpr>(e)) return json::Object{{"k","bool"},{"v",l->getValue()},{"t",ty(T)}};
    if(auto*l=dyn_cast<StringLiteral>(e)) { std::string s; if(l->isOrdinary()) s=l->getString().str(); return json::Object{{"k","str"},{"v",json::fixUTF8(s)},{"t",ty(T)}}; }
    if(auto*l=dyn_cast<CharacterLiteral>(e)) { return json::Object{{"k","int"},{"v",std::to_string(l->getValue())},{"t",ty(T)}}; }
    if(isa<CXXNullPtrLiteralExpr>(e)||isa<GNUNullExpr>(e)) return json::Object{{"k","null"},{"t",ty(T)}};
    if(isa<CXXThisExpr>(e)) return json::Object{{"k","this"},{"t",ty(T)}};
    if(auto*d=dyn_cast<DeclRefExpr>(e)){
      const ValueDecl*v=d->getDecl();
      if(auto*f=dyn_cast<FunctionDecl>(v)) return json::Object{{"k","fn"},{"f",fref(f)},{"t",ty(T)}};
      if(auto*en=dyn_cast<EnumConstantDecl>(v)) { json::Object o{{"k","int"},{"t",ty(T)},{"en",en->getQualifiedNameAsString()}}; llvm::SmallString<32> b; en->getInitVal().toString(b,10); o["v"]=std::string(b.str()); return o; }
      if(auto*x=dyn_cast<VarDecl>(v)){
        json::Object o{{"k","var"},{"id",idOf(x->getCanonicalDecl())},{"n",x->getNameAsString()},{"t",ty(T)}};
        if(!x->isLocalVarDeclOrParm()) { o["q"]=x->getQualifiedNameAsString(); Expr::EvalResult r; if(x->getAnyInitializer() && !x->getAnyInitializer()->isValueDependent() && x->getType().isConstQualified() && T->isIntegralOrEnumerationType() && d->EvaluateAsInt(r,C)) return intv(r.Val.getInt(),T); if(x->getAnyInitializer() && !x->getType()->isDependentType() && x->getType()->isFloatingType() && x->getType().isConstQualified()) o["init"]=expr(x->getAnyInitializer());
          else if(auto*def=x->getDefinition()) { if(def->getInit() && inRepo(def->getLocation())) o["init"]=expr(def->getInit()); } }
        return o; }
      if(auto*b=dyn_cast<BindingDecl>(v)) { if(b->getBinding()) return expr(b->getBinding()); }
      return unsup("declref",e);
    }
    if(auto*m=dyn_cast<MemberExpr>(e)){
      if(auto*x=dyn_cast<VarDecl>(m->getMemberDecl())) { Expr::EvalResult r; if(T->isIntegralOrEnumerationType() && m->EvaluateAsInt(r,C)) return intv(r.Val.getInt(),T); json::Object o{{"k","var"},{"id",idOf(x->getCanonicalDecl())},{"n",x->getNameAsString()},{"q",x->getQualifiedNameAsString()},{"t",ty(T)}}; if(x->getAnyInitializer()) o["init"]=expr(x->getAnyInitializer()); return o; }
      if(isa<FieldDecl>(m->getMemberDecl())) return json::Object{{"k","mem"},{"b",expr(m->getBase())},{"n",m->getMemberDecl()->getNameAsString()},{"ar",m->isArrow()},{"t",ty(T)}};
      if(auto*f=dyn_cast<FunctionDecl>(m->getMemberDecl())) return json::Object{{"k","fn"},{"f",fref(f)},{"t",ty(T)},{"b",expr(m->getBase())}};
      return unsup("member",e);
    }
    if(auto*u=dyn_cast<UnaryOperator>(e)) return json::Object{{"k","un"},{"op",UnaryOperator::getOpcodeStr(u->getOpcode()).str()},{"post",u->isPostfix()},{"e",expr(u->getSubExpr())},{"t",ty(T)}};
    if(auto*b=dyn_cast<CompoundAssignOperator>(e)) return json::Object{{"k","cas"},{"op",b->getOpcodeStr().str()},{"a",expr(b->getLHS())},{"b",expr(b->getRHS())},{"ct",ty(b->getComputationResultType())},{"t",ty(T)}};
    if(auto*b=dyn_cast<BinaryOperator>(e)) return json::Object{{"k",b->getOpcode()==BO_Assign?"asg":"bin"},{"op",b->getOpcodeStr().str()},{"a",expr(b->getLHS())},{"b",expr(b->getRHS())},{"t",ty(T)},{"l",locS(e->getExprLoc())}};
    if(auto*c=dyn_cast<ConditionalOperator>(e)) return json::Object{{"k","cond"},{"c",expr(c->getCond())},{"a",expr(c->getTrueExpr())},{"b",expr(c->getFalseExpr())},{"t",ty(T)}};
    if(auto*s=dyn_cast<ArraySubscriptExpr>(e)) return json::Object{{"k","idx"},{"b",expr(s->getBase())},{"i",expr(s->getIdx())},{"t",ty(T)},{"l",locS(e->getExprLoc())}};
    if(auto*c=dyn_cast<CastExpr>(e)){
      auto K=c->getCastKind();
      switch(K){ case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_BuiltinFnToFnPtr: 
          return expr(c->getSubExpr());
        default: break; }
      return json::Object{{"k","cast"},{"ck",c->getCastKindName()},{"e",expr(c->getSubExpr())},{"t",ty(T)},{"from",ty(c->getSubExpr()->getType())}};
    }
    if(auto*c=dyn_cast<CXXOperatorCallExpr>(e)){
      const FunctionDecl*f=c->getDirectCallee(); if(!f) return unsup("opcall",e);
      return json::Object{{"k","opcall"},{"op",getOperatorSpelling(c->getOperator())},{"f",fref(f)},{"a",argsR(c->arguments())},{"m",isa<CXXMethodDecl>(f)},{"t",ty(T)},{"lv",e->isLValue()},{"l",locS(e->getExprLoc())}};
    }
    if(auto*c=dyn_cast<CXXMemberCallExpr>(e)){
      const CXXMethodDecl*f=c->getMethodDecl(); if(!f) return unsup("pmcall",e);
      bool virt=f->isVirtual(); bool arrow=false; const Expr*callee=c->getCallee()->IgnoreParens(); if(auto*m=dyn_cast<MemberExpr>(callee)){ arrow=m->isArrow(); if(m->hasQualifier()) virt=false; }
      return json::Object{{"k","mcall"},{"f",fref(f)},{"o",expr(c->getImplicitObjectArgument())},{"ar",arrow},{"virt",virt},{"a",argsR(c->arguments())},{"t",ty(T)},{"lv",e->isLValue()},{"l",locS(e->getExprLoc())}};
    }
    if(auto*c=dyn_cast<CallExpr>(e)){
      const FunctionDecl*f=c->getDirectCallee();
      if(f) { if(f->getBuiltinID() && !f->getDefinition()){ Expr::EvalResult r; }
        return json::Object{{"k","call"},{"f",fref(f)},{"a",argsR(c->arguments())},{"t",ty(T)},{"lv",e->isLValue()},{"l",locS(e->getExprLoc())}}; }
      return json::Object{{"k","call"},{"fe",expr(c->getCallee())},{"a",argsR(c->arguments())},{"t",ty(T)},{"l",locS(e->getExprLoc())}};
    }
    if(auto*c=dyn_cast<CXXConstructExpr>(e)){
      json::Object o{{"k","ctor"},{"f",fref(c->getConstructor())},{"a",argsR(c->arguments())},{"t",ty(T)}}; if(c->isElidable()) o["el"]=true; if(c->isListInitialization()) o["li"]=true; if(c->requiresZeroInitialization()) o["zi"]=true; return o; }
    if(auto*c=dyn_cast<CXXInheritedCtorInitExpr>(e)) return unsup("inhctor",e);
    if(auto*l=dyn_cast<LambdaExpr>(e)){
      json::Array caps; auto ci=l->capture_init_begin();
      for(auto&c:l->captures()){ json::Object o; if(c.capturesThis()){o["this"]=true; o["ref"]=c.getCaptureKind()==LCK_This;} else if(c.capturesVariable()){ auto*v=cast<VarDecl>(c.getCapturedVar()); o["id"]=idOf(v->getCanonicalDecl()); o["n"]=v->getNameAsString(); o["ref"]=c.getCaptureKind()==LCK_ByRef; if(v->isInitCapture()) o["init"]=expr(v->getInit()); o["t"]=ty(v->getType()); } caps.push_back(std::move(o)); ++ci; }
      json::Object o{{"k","lambda"},{"caps",std::move(caps)},{"t",ty(T)},{"mut",l->isMutable()},{"gen",l->isGenericLambda()}};
      if(!l->isGenericLambda()) o["f"]=fref(l->getCallOperator()); return o; }
    if(auto*l=dyn_cast<InitListExpr>(e)){ if(l->getSemanticForm()) l=l->getSemanticForm(); json::Object o{{"k","ilist"},{"a",argsR(l->inits())},{"t",ty(T)}}; return o; }
    if(isa<ImplicitValueInitExpr>(e)||isa<CXXScalarValueInitExpr>(e)) return json::Object{{"k","zero"},{"t",ty(T)}};
    if(auto*t=dyn_cast<CXXThrowExpr>(e)) return json::Object{{"k","throw"},{"e",expr(t->getSubExpr())},{"t",ty(T)},{"l",locS(e->getExprLoc())}};
    if(auto*u=dyn_cast<UnaryExprOrTypeTraitExpr>(e)){ Expr::EvalResult r; if(!e->isValueDependent() && e->EvaluateAsInt(r,C)) return intv(r.Val.getInt(),T); }
    if(isa<TypeTraitExpr>(e)||isa<SizeOfPackExpr>(e)){ Expr::EvalResult r; if(!e->isValueDependent() && e->EvaluateAsInt(r,C)) return intv(r.Val.getInt(),T); }
    if(auto*n=dyn_cast<CXXNewExpr>(e)){ json::Object o{{"k","new"},{"t",ty(T)},{"arr",n->isArray()},{"at",ty(n->getAllocatedType())}}; if(n->isArray()&&n->getArraySize()) o["n"]=expr(*n->getArraySize()); if(n->getInitializer()) o["i"]=expr(n->getInitializer()); if(n->getConstructExpr()) o["i"]=expr(n->getConstructExpr()); return o; }
    if(auto*d=dyn_cast<CXXDeleteExpr>(e)) return json::Object{{"k","delete"},{"e",expr(d->getArgument())},{"t",ty(T)}};
    if(auto*p=dyn_cast<PredefinedExpr>(e)) return json::Object{{"k","str"},{"v","__func__"},{"t",ty(T)}};
    if(isa<CXXTypeidExpr>(e)) { auto*t=cast<CXXTypeidExpr>(e); json::Object o{{"k","typeid"},{"t",ty(T)}}; if(t->isTypeOperand()) o["of"]=ty(t->getTypeOperand(C)); else o["e"]=expr(t->getExprOperand()); return o; }
    return unsup("expr",e);
  }
  json::Value varDecl(const VarDecl*v){
    json::Object o{{"id",idOf(v->getCanonicalDecl())},{"n",v->getNameAsString()},{"t",ty(v->getType())}};
    if(v->isStaticLocal()) o["static"]=true;
    if(v->getInit()) { o["i"]=expr(v->getInit()); if(v->isConstexpr()) o["cx"]=true; }
    return o; }
  json::Value stmt(const Stmt*s){
    if(!s) return nullptr;
    std::string l=locS(s->getBeginLoc());
    if(auto*c=dyn_cast<CompoundStmt>(s)){ json::Array v; for(auto*x:c->body()) v.push_back(stmt(x)); return json::Object{{"k","blk"},{"b",std::move(v)}}; }
    if(auto*d=dyn_cast<DeclStmt>(s)){ json::Array v; for(auto*x:d->decls()){ if(auto*y=dyn_cast<VarDecl>(x)){ if(auto*dd=dyn_cast<DecompositionDecl>(y)){ json::Object o=*varDecl(dd).getAsObject(); v.push_back(std::move(o)); for(auto*b:dd->bindings()) if(auto*h=b->getHoldingVar()) v.push_back(varDecl(h)); } else v.push_back(varDecl(y)); } } return json::Object{{"k","decl"},{"v",std::move(v)},{"l",l}}; }
    if(auto*i=dyn_cast<IfStmt>(s)){ json::Object o{{"k","if"},{"l",l}}; if(i->getInit()) o["init"]=stmt(i->getInit()); if(i->getConditionVariable()) o["cvd"]=varDecl(i->getConditionVariable());
      if(i->isConstexpr()){ Expr::EvalResult r; if(i->getCond()->EvaluateAsInt(r,C)){ bool b=r.Val.getInt().getBoolValue(); auto*x=b?i->getThen():i->getElse(); if(!x) return json::Object{{"k","blk"},{"b",json::Array{}}}; return stmt(x);} }
      o["c"]=expr(i->getCond()); o["a"]=stmt(i->getThen()); if(i->getElse()) o["b"]=stmt(i->getElse()); return o; }
    if(auto*f=dyn_cast<ForStmt>(s)){ json::Object o{{"k","for"},{"l",l},{"le",locS(s->getEndLoc())}}; if(f->getInit()) o["i"]=stmt(f->getInit()); if(f->getCond()) o["c"]=expr(f->getCond()); if(f->getInc()) o["inc"]=expr(f->getInc()); o["b"]=stmt(f->getBody()); return o; }
    if(auto*f=dyn_cast<WhileStmt>(s)) return json::Object{{"k","while"},{"c",expr(f->getCond())},{"b",stmt(f->getBody())},{"l",l}};
    if(auto*f=dyn_cast<DoStmt>(s)) return json::Object{{"k","do"},{"c",expr(f->getCond())},{"b",stmt(f->getBody())},{"l",l}};
    if(auto*f=dyn_cast<CXXForRangeStmt>(s)) { return json::Object{{"k","rfor"},{"range",expr(f->getRangeInit())},{"beg",stmt(f->getBeginStmt())},{"end",stmt(f->getEndStmt())},{"rs",stmt(f->getRangeStmt())},{"c",expr(f->getCond())},{"inc",expr(f->getInc())},{"v",varDecl(f->getLoopVariable())},{"b",stmt(f->getBody())},{"l",l}}; }
    if(auto*r=dyn_cast<ReturnStmt>(s)){ json::Object o{{"k","ret"},{"l",l}}; if(r->getRetValue()) o["e"]=expr(r->getRetValue()); return o; }
    if(isa<BreakStmt>(s)) return json::Object{{"k","break"}};
    if(isa<ContinueStmt>(s)) return json::Object{{"k","cont"}};
    if(isa<NullStmt>(s)) return json::Object{{"k","blk"},{"b",json::Array{}}};
    if(auto*t=dyn_cast<CXXTryStmt>(s)){ json::Array h; for(unsigned i=0;i<t->getNumHandlers();i++){ auto*c=t->getHandler(i); json::Object o{{"b",stmt(c->getHandlerBlock())}}; if(c->getExceptionDecl()) o["v"]=varDecl(c->getExceptionDecl()); h.push_back(std::move(o)); } return json::Object{{"k","try"},{"b",stmt(t->getTryBlock())},{"h",std::move(h)},{"l",l}}; }
    if(auto*w=dyn_cast<SwitchStmt>(s)) return json::Object{{"k","switch"},{"c",expr(w->getCond())},{"b",stmt(w->getBody())},{"l",l}};
    if(auto*c=dyn_cast<CaseStmt>(s)) return json::Object{{"k","case"},{"e",expr(c->getLHS())},{"b",stmt(c->getSubStmt())}};
    if(auto*c=dyn_cast<DefaultStmt>(s)) return json::Object{{"k","default"},{"b",stmt(c->getSubStmt())}};
    if(auto*a=dyn_cast<AttributedStmt>(s)) return stmt(a->getSubStmt());
    if(auto*o=dyn_cast<OMPExecutableDirective>(s)) return unsup("omp",s);
    if(auto*e=dyn_cast<Expr>(s)) return json::Object{{"k","e"},{"e",expr(e)},{"l",l}};
    return unsup("stmt",s);
  }
};
struct V: RecursiveASTVisitor<V>{
  Ex&X; V(Ex&x):X(x){}
  bool shouldVisitTemplateInstantiations()const{return true;} bool shouldVisitImplicitCode()const{return false;} 
  bool VisitFunctionDecl(FunctionDecl*f){ if(f->isDependentContext()) return true; if(!f->doesThisDeclarationHaveABody()&&!f->isDefaulted()) return true; if(!X.inRepo(f->getLocation())) return true; if(f->isTemplated()) return true; X.fref(f); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl*r){ if(r->isDependentContext()||r->isTemplated()) return true; if(!r->isThisDeclarationADefinition()) return true; if(X.recInRepo(r)) X.needRec(r); return true; }
};
struct Cons: ASTConsumer{
  void HandleTranslationUnit(ASTContext&C) override {
    Ex X(C); V v(X); v.TraverseDecl(C.getTranslationUnitDecl());
    while(!X.fnWork.empty()||!X.recWork.empty()){
      while(!X.fnWork.empty()){ int id=X.fnWork.back(); X.fnWork.pop_back(); X.emitFn(id);} 
      while(!X.recWork.empty()){ auto*r=X.recWork.back(); X.recWork.pop_back(); X.emitRec(r);} }
    json::Object root; root["types"]=std::move(X.types); root["fns"]=std::move(X.fnTab); root["recs"]=std::move(X.recTab);
    root["errors"]=(int64_t)C.getDiagnostics().getClient()->getNumErrors();
    std::error_code ec; llvm::raw_fd_ostream os(gOut,ec); os<<json::Value(std::move(root)); }
};
struct Act: ASTFrontendAction{ std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&CI,StringRef) override { CI.getDiagnostics().setErrorLimit(20); return std::make_unique<Cons>(); } };
int main(int argc,char**argv){
  // mpx OUT ROOT[,ROOT..] SRC -- flags...
  if(argc<5) return 2; gOut=argv[1]; { std::string r=argv[2]; size_t p=0; while(p<=r.size()){ size_t q=r.find(',',p); if(q==std::string::npos)q=r.size(); gRoots.push_back(r.substr(p,q-p)); p=q+1; } }
  std::string src=argv[3]; std::vector<std::string> fl; for(int i=5;i<argc;i++) fl.push_back(argv[i]);
  clang::tooling::FixedCompilationDatabase db(".",fl); std::vector<std::string> srcs{src};
  clang::tooling::ClangTool T(db,srcs);
  T.appendArgumentsAdjuster([](const clang::tooling::CommandLineArguments&a,StringRef){ auto b=a; b[0]="/usr/bin/clang++-18"; return b; });
  return T.run(clang::tooling::newFrontendActionFactory<Act>().get());
}
