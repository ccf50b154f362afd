// Exports the fully resolved AST of every function defined under a root directory as JSON.
// Usage: export ROOT FILE.cpp OUT.json -- clang-args...
// It drops comments, formatting, redundant parentheses and cleanups, and nothing else; functions with constructs it
// does not know are exported with a node {"k":"Unknown"} that the verifier refuses.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;
static std::string Root, OutFile;

struct Exporter : RecursiveASTVisitor<Exporter>
{
    ASTContext& C;
    PrintingPolicy PP;
    json::Array types, funcs, records, enums;
    std::map<const Type*, int> tid;
    std::set<const Decl*> doneRec;
    std::map<const Decl*, int> dids;
    std::vector<const CXXRecordDecl*> pendingRec;
    explicit Exporter(ASTContext& c) : C(c), PP(c.getPrintingPolicy())
    {
        PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.Bool = true; PP.SuppressUnwrittenScope = false;
        PP.PrintCanonicalTypes = true; PP.SuppressInlineNamespace = true; PP.SuppressDefaultTemplateArgs = true;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool inRepo(const Decl* d)
    {
        auto& SM = C.getSourceManager();
        auto loc = SM.getExpansionLoc(d->getLocation());
        if(loc.isInvalid()) return false;
        return SM.getFilename(loc).starts_with(Root);
    }
    int did(const Decl* d)
    {
        d = d->getCanonicalDecl();
        auto it = dids.find(d);
        if(it != dids.end()) return it->second;
        int n = dids.size() + 1; dids[d] = n; return n;
    }
    int line(SourceLocation l) { return l.isValid() ? (int)C.getSourceManager().getExpansionLineNumber(l) : 0; }
    std::string file(SourceLocation l) { return C.getSourceManager().getFilename(C.getSourceManager().getExpansionLoc(l)).str(); }
    std::string qname(const NamedDecl* d)
    {
        std::string s; llvm::raw_string_ostream os(s);
        d->getNameForDiagnostic(os, PP, true);
        return os.str();
    }
    json::Array targs(llvm::ArrayRef<TemplateArgument> as)
    {
        json::Array r;
        for(auto& a : as)
        {
            switch(a.getKind())
            {
            case TemplateArgument::Type: r.push_back(json::Object{{"t", type(a.getAsType())}}); break;
            case TemplateArgument::Integral: r.push_back(json::Object{{"i", llvm::toString(a.getAsIntegral(), 10)}}); break;
            case TemplateArgument::Pack: for(auto& x : targs(a.getPackAsArray())) r.push_back(std::move(x)); break;
            default: r.push_back(json::Object{{"o", 1}});
            }
        }
        return r;
    }
    // type -> id. Qualifiers: const recorded on pointee / referent through "c"
    int type(QualType q)
    {
        q = q.getCanonicalType();
        const Type* t = q.getTypePtr();
        auto it = tid.find(t);
        if(it != tid.end()) return it->second;
        int id = types.size();
        types.push_back(nullptr);
        tid[t] = id;
        json::Object o;
        o["s"] = QualType(t, 0).getAsString(PP);
        if(auto* b = dyn_cast<BuiltinType>(t))
        {
            if(b->isVoidType()) o["k"] = "void";
            else if(b->getKind() == BuiltinType::Bool) { o["k"] = "bool"; }
            else if(b->isIntegerType()) { o["k"] = "int"; o["w"] = (int)C.getTypeSize(t); o["u"] = b->isUnsignedInteger(); }
            else if(b->isNullPtrType()) o["k"] = "nullptr";
            else o["k"] = "builtin";
        }
        else if(auto* e = dyn_cast<EnumType>(t))
        {
            o["k"] = "enum"; o["n"] = qname(e->getDecl());
            auto u = e->getDecl()->getIntegerType();
            if(!u.isNull()) { o["w"] = (int)C.getTypeSize(u); o["u"] = u->isUnsignedIntegerType(); }
            json::Array es;
            for(auto* k : e->getDecl()->enumerators())
                es.push_back(json::Array{k->getName(), llvm::toString(k->getInitVal(), 10)});
            if(inRepo(e->getDecl())) o["e"] = std::move(es);
        }
        else if(auto* p = dyn_cast<PointerType>(t)) { o["k"] = "ptr"; o["to"] = type(p->getPointeeType()); o["c"] = p->getPointeeType().isConstQualified(); }
        else if(auto* p = dyn_cast<ReferenceType>(t)) { o["k"] = "ref"; o["to"] = type(p->getPointeeType()); o["c"] = p->getPointeeType().isConstQualified(); o["rv"] = isa<RValueReferenceType>(t); }
        else if(auto* r = dyn_cast<RecordType>(t))
        {
            o["k"] = "rec"; o["n"] = qname(r->getDecl());
            if(auto* cr = dyn_cast<CXXRecordDecl>(r->getDecl()))
            {
                if(auto* s = dyn_cast<ClassTemplateSpecializationDecl>(cr))
                {
                    std::string b; llvm::raw_string_ostream os(b); s->getSpecializedTemplate()->printQualifiedName(os, PP);
                    o["tn"] = os.str();
                    o["ta"] = targs(s->getTemplateArgs().asArray());
                }
                o["lambda"] = cr->isLambda();
                if(cr->isLambda()) o["did"] = did(cr);
                if(inRepo(cr)) { pendingRec.push_back(cr); o["repo"] = true; }
            }
        }
        else if(auto* a = dyn_cast<ConstantArrayType>(t)) { o["k"] = "arr"; o["to"] = type(a->getElementType()); o["len"] = (int64_t)a->getSize().getZExtValue(); }
        else if(auto* f = dyn_cast<FunctionProtoType>(t))
        {
            o["k"] = "fn"; o["ret"] = type(f->getReturnType()); json::Array ps;
            for(auto p : f->param_types()) ps.push_back(type(p));
            o["ps"] = std::move(ps);
        }
        else if(auto* m = dyn_cast<MemberPointerType>(t)) { o["k"] = "memptr"; o["to"] = type(m->getPointeeType()); }
        else o["k"] = "other";
        types[id] = std::move(o);
        return id;
    }
    std::string mangled(const FunctionDecl* f)
    {
        llvm::SmallString<128> buf;
        if(index::generateUSRForDecl(f, buf)) return qname(f);
        return buf.str().str();
    }
    json::Object funcRef(const FunctionDecl* f)
    {
        json::Object o;
        o["n"] = f->getDeclName().getAsString();
        o["q"] = qname(f);
        o["m"] = mangled(f);
        o["ret"] = type(f->getReturnType());
        json::Array ps; for(auto* p : f->parameters()) ps.push_back(type(p->getType()));
        o["ps"] = std::move(ps);
        if(inRepo(f)) o["repo"] = true;
        if(auto* ta = f->getTemplateSpecializationArgs()) o["ta"] = targs(ta->asArray());
        if(auto* m = dyn_cast<CXXMethodDecl>(f))
        {
            o["cls"] = type(C.getRecordType(m->getParent()));
            if(m->isStatic()) o["static"] = true;
            if(m->isConst()) o["const"] = true;
            if(m->isVirtual()) o["virt"] = true;
            if(m->isPureVirtual()) o["pure"] = true;
            if(auto* c = dyn_cast<CXXConstructorDecl>(m))
            {
                o["ctor"] = c->isCopyConstructor() ? "copy" : c->isMoveConstructor() ? "move" : c->isDefaultConstructor() ? "default" : "other";
                if(c->isImplicit() || c->isDefaulted()) o["defaulted"] = true;
            }
            if(isa<CXXMethodDecl>(m) && (m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator())) { o["assign"] = m->isMoveAssignmentOperator() ? "move" : "copy"; if(m->isImplicit() || m->isDefaulted()) o["defaulted"] = true; }
        }
        return o;
    }
    json::Value unknown(const Stmt* s) { return json::Object{{"k", "Unknown"}, {"c", s->getStmtClassName()}, {"l", line(s->getBeginLoc())}}; }
    json::Value varDecl(const VarDecl* v)
    {
        json::Object o{{"id", did(v)}, {"n", v->getName()}, {"t", type(v->getType())}, {"const", v->getType().isConstQualified()}};
        if(v->isStaticLocal()) o["static"] = true;
        if(v->hasInit()) o["init"] = expr(v->getInit());
        return o;
    }
    json::Value opt(const Stmt* s) { if(!s) return nullptr; return stmt(s); }
    json::Value stmt(const Stmt* s)
    {
        if(auto* e = dyn_cast<Expr>(s)) return json::Object{{"k", "Expr"}, {"e", expr(e)}, {"l", line(s->getBeginLoc())}};
        json::Object o; o["l"] = line(s->getBeginLoc());
        if(auto* c = dyn_cast<CompoundStmt>(s)) { o["k"] = "Compound"; json::Array a; for(auto* x : c->body()) a.push_back(stmt(x)); o["s"] = std::move(a); }
        else if(auto* d = dyn_cast<DeclStmt>(s))
        {
            o["k"] = "Decl"; json::Array a;
            for(auto* x : d->decls())
            {
                if(auto* v = dyn_cast<VarDecl>(x)) a.push_back(varDecl(v));
                else if(isa<TypeDecl>(x) || isa<UsingDecl>(x) || isa<UsingDirectiveDecl>(x) || isa<StaticAssertDecl>(x) || isa<EmptyDecl>(x) || isa<NamespaceAliasDecl>(x)) {}
                else return unknown(s);
            }
            o["vars"] = std::move(a);
        }
        else if(auto* i = dyn_cast<IfStmt>(s))
        {
            o["k"] = "If"; o["init"] = opt(i->getInit());
            o["var"] = i->getConditionVariable() ? varDecl(i->getConditionVariable()) : json::Value(nullptr);
            o["c"] = expr(i->getCond()); o["a"] = stmt(i->getThen()); o["b"] = opt(i->getElse());
        }
        else if(auto* w = dyn_cast<WhileStmt>(s)) { o["k"] = "While"; o["var"] = w->getConditionVariable() ? varDecl(w->getConditionVariable()) : json::Value(nullptr); o["c"] = expr(w->getCond()); o["b"] = stmt(w->getBody()); }
        else if(auto* w = dyn_cast<DoStmt>(s)) { o["k"] = "Do"; o["c"] = expr(w->getCond()); o["b"] = stmt(w->getBody()); }
        else if(auto* f = dyn_cast<ForStmt>(s))
        {
            o["k"] = "For"; o["init"] = opt(f->getInit()); o["c"] = f->getCond() ? expr(f->getCond()) : json::Value(nullptr);
            o["inc"] = f->getInc() ? expr(f->getInc()) : json::Value(nullptr); o["b"] = stmt(f->getBody());
        }
        else if(auto* f = dyn_cast<CXXForRangeStmt>(s))
        {
            o["k"] = "RangeFor"; o["range"] = expr(f->getRangeInit()); o["var"] = varDecl(f->getLoopVariable()); o["b"] = stmt(f->getBody());
        }
        else if(auto* r = dyn_cast<ReturnStmt>(s)) { o["k"] = "Return"; o["e"] = r->getRetValue() ? expr(r->getRetValue()) : json::Value(nullptr); }
        else if(isa<BreakStmt>(s)) o["k"] = "Break";
        else if(isa<ContinueStmt>(s)) o["k"] = "Continue";
        else if(isa<NullStmt>(s)) o["k"] = "Null";
        else if(auto* w = dyn_cast<SwitchStmt>(s)) { o["k"] = "Switch"; o["init"] = opt(w->getInit()); o["c"] = expr(w->getCond()); o["b"] = stmt(w->getBody()); }
        else if(auto* c = dyn_cast<CaseStmt>(s)) { if(c->getRHS()) return unknown(s); o["k"] = "Case"; o["v"] = expr(c->getLHS()); o["s"] = stmt(c->getSubStmt()); }
        else if(auto* c = dyn_cast<DefaultStmt>(s)) { o["k"] = "Default"; o["s"] = stmt(c->getSubStmt()); }
        else if(auto* t = dyn_cast<CXXTryStmt>(s))
        {
            o["k"] = "Try"; o["b"] = stmt(t->getTryBlock()); json::Array hs;
            for(unsigned i = 0; i < t->getNumHandlers(); ++i)
            {
                auto* h = t->getHandler(i);
                hs.push_back(json::Object{{"var", h->getExceptionDecl() ? varDecl(h->getExceptionDecl()) : json::Value(nullptr)},
                                          {"t", h->getExceptionDecl() ? json::Value(type(h->getCaughtType())) : json::Value(nullptr)}, {"b", stmt(h->getHandlerBlock())}});
            }
            o["h"] = std::move(hs);
        }
        else if(auto* a = dyn_cast<AttributedStmt>(s)) return stmt(a->getSubStmt());
        else return unknown(s);
        return o;
    }
    static const Expr* strip(const Expr* e)
    {
        for(;;)
        {
            if(auto* x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
            else if(auto* x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
            else if(auto* x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
            else if(auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
            else if(auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
            else if(auto* x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
            else if(auto* x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
            else if(auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) e = x->getSubExpr();
            else if(auto* x = dyn_cast<ImplicitCastExpr>(e); x && (x->getCastKind() == CK_NoOp)) e = x->getSubExpr();
            else return e;
        }
    }
    json::Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> as) { json::Array a; for(auto* x : as) a.push_back(expr(x)); return a; }
    json::Value expr(const Expr* e0)
    {
        const Expr* e = strip(e0);
        json::Object o;
        o["t"] = type(e->getType()); o["vk"] = e->isLValue() ? "l" : e->isXValue() ? "x" : "p"; o["l"] = line(e->getBeginLoc());
        if(e->getType().isConstQualified()) o["ct"] = true;
        if(!e->isValueDependent() && !e->isTypeDependent() && e->isPRValue() && e->getType()->isIntegralOrEnumerationType())
        {
            Expr::EvalResult r;
            if(e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) { o["k"] = "Int"; o["v"] = llvm::toString(r.Val.getInt(), 10); return o; }
        }
        if(auto* x = dyn_cast<CXXNullPtrLiteralExpr>(e)) { o["k"] = "Null"; }
        else if(isa<GNUNullExpr>(e)) o["k"] = "Null";
        else if(auto* x = dyn_cast<StringLiteral>(e)) { o["k"] = "Str"; o["v"] = x->getCharByteWidth() == 1 ? json::fixUTF8(x->getString()) : ""; }
        else if(auto* x = dyn_cast<DeclRefExpr>(e))
        {
            auto* d = x->getDecl();
            o["k"] = "Ref"; o["id"] = did(d); o["n"] = d->getNameAsString();
            if(isa<FunctionDecl>(d)) { o["dk"] = "func"; o["f"] = funcRef(cast<FunctionDecl>(d)); }
            else if(auto* v = dyn_cast<VarDecl>(d))
            {
                o["dk"] = "var";
                if(v->hasGlobalStorage() && !v->isStaticLocal())
                {
                    o["dk"] = "global"; o["q"] = qname(v);
                    if(const VarDecl* def = nullptr; v->getAnyInitializer(def) && def)
                        if(v->getType().isConstQualified() && v->getType()->isIntegralOrEnumerationType())
                            if(auto* val = def->evaluateValue()) if(val->isInt()) o["cv"] = llvm::toString(val->getInt(), 10);
                }
                if(x->refersToEnclosingVariableOrCapture()) o["cap"] = true;
            }
            else o["dk"] = "other";
        }
        else if(auto* x = dyn_cast<MemberExpr>(e))
        {
            o["k"] = "Member"; o["b"] = expr(x->getBase()); o["arrow"] = x->isArrow(); o["n"] = x->getMemberDecl()->getNameAsString();
            if(auto* f = dyn_cast<FieldDecl>(x->getMemberDecl())) { o["dk"] = "field"; o["fid"] = did(f); o["cls"] = type(C.getRecordType(f->getParent())); }
            else if(auto* v = dyn_cast<VarDecl>(x->getMemberDecl()))
            {
                o["dk"] = "global"; o["q"] = qname(v);
                if(const VarDecl* def = nullptr; v->getAnyInitializer(def) && def)
                    if(v->getType().isConstQualified() && v->getType()->isIntegralOrEnumerationType())
                        if(auto* val = def->evaluateValue()) if(val->isInt()) o["cv"] = llvm::toString(val->getInt(), 10);
            }
            else if(auto* m = dyn_cast<FunctionDecl>(x->getMemberDecl())) { o["dk"] = "func"; o["f"] = funcRef(m); }
            else o["dk"] = "other";
        }
        else if(auto* x = dyn_cast<CXXOperatorCallExpr>(e))
        {
            o["k"] = "OpCall"; o["op"] = getOperatorSpelling(x->getOperator());
            if(auto* f = x->getDirectCallee()) o["f"] = funcRef(f); else o["fe"] = expr(x->getCallee());
            o["args"] = exprs(x->arguments());
        }
        else if(auto* x = dyn_cast<CXXMemberCallExpr>(e))
        {
            auto* m = x->getMethodDecl();
            if(!m) return unknown(e);
            o["k"] = "MCall"; o["f"] = funcRef(m); o["args"] = exprs(x->arguments());
            o["obj"] = expr(x->getImplicitObjectArgument());
            if(auto* me = dyn_cast<MemberExpr>(strip(x->getCallee()))) { o["arrow"] = me->isArrow(); if(me->hasQualifier()) o["nonvirt"] = true; }
        }
        else if(auto* x = dyn_cast<CallExpr>(e))
        {
            if(isa<CXXPseudoDestructorExpr>(strip(x->getCallee()))) { o["k"] = "PseudoDtor"; o["b"] = expr(cast<CXXPseudoDestructorExpr>(strip(x->getCallee()))->getBase()); return o; }
            o["k"] = "Call"; if(auto* f = x->getDirectCallee()) o["f"] = funcRef(f); else o["fe"] = expr(x->getCallee());
            o["args"] = exprs(x->arguments());
        }
        else if(auto* x = dyn_cast<CXXTemporaryObjectExpr>(e)) construct(o, x);
        else if(auto* x = dyn_cast<CXXConstructExpr>(e)) construct(o, x);
        else if(auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) return unknown(e);
        else if(auto* x = dyn_cast<UnaryOperator>(e)) { o["k"] = "Un"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str() + (x->isPostfix() ? "post" : ""); o["e"] = expr(x->getSubExpr()); }
        else if(auto* x = dyn_cast<CompoundAssignOperator>(e))
        {
            o["k"] = "CAssign"; o["op"] = x->getOpcodeStr().drop_back(1).str(); o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS());
            o["clt"] = type(x->getComputationLHSType()); o["crt"] = type(x->getComputationResultType());
        }
        else if(auto* x = dyn_cast<BinaryOperator>(e)) { o["k"] = "Bin"; o["op"] = x->getOpcodeStr().str(); o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS()); }
        else if(auto* x = dyn_cast<ConditionalOperator>(e)) { o["k"] = "Cond"; o["c"] = expr(x->getCond()); o["a"] = expr(x->getTrueExpr()); o["b"] = expr(x->getFalseExpr()); }
        else if(auto* x = dyn_cast<CXXFunctionalCastExpr>(e); x && (x->getCastKind() == CK_NoOp || x->getCastKind() == CK_ConstructorConversion)) return expr(x->getSubExpr());
        else if(auto* x = dyn_cast<CastExpr>(e))
        {
            if((x->getCastKind() == CK_NoOp && isa<CXXStaticCastExpr>(x)) || x->getCastKind() == CK_ConstructorConversion || x->getCastKind() == CK_UserDefinedConversion) 
            {
                // static_cast<T&&>(lvalue) keeps its value category
                auto v = expr(x->getSubExpr());
                if(x->getCastKind() == CK_NoOp && x->isXValue()) { auto* ob = v.getAsObject(); if(ob) (*ob)["moved"] = true; }
                return v;
            }
            o["k"] = "Cast"; o["ck"] = x->getCastKindName(); o["e"] = expr(x->getSubExpr());
            if(isa<ExplicitCastExpr>(x)) o["explicit"] = true;
        }
        else if(auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) { o["k"] = "Temp"; o["e"] = expr(x->getSubExpr()); }
        else if(auto* x = dyn_cast<InitListExpr>(e))
        {
            const InitListExpr* y = x->isSemanticForm() ? x : x->getSemanticForm(); if(!y) y = x;
            o["k"] = "InitList"; json::Array a; for(auto* i : y->inits()) a.push_back(expr(i)); o["e"] = std::move(a);
        }
        else if(isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) o["k"] = "ZeroInit";
        else if(auto* x = dyn_cast<LambdaExpr>(e))
        {
            o["k"] = "Lambda"; o["did"] = did(x->getLambdaClass());
            json::Array caps; auto ii = x->capture_init_begin();
            for(auto& c : x->captures())
            {
                json::Object co;
                if(c.capturesThis()) co["this"] = c.getCaptureKind() == LCK_StarThis ? "copy" : "ptr";
                else if(c.capturesVariable()) { co["id"] = did(c.getCapturedVar()); co["n"] = c.getCapturedVar()->getName(); co["byref"] = c.getCaptureKind() == LCK_ByRef; co["t"] = type(c.getCapturedVar()->getType()); if(auto* v = dyn_cast<VarDecl>(c.getCapturedVar()); v && v->isInitCapture()) co["initcap"] = true; }
                if(*ii) co["init"] = expr(*ii);
                ++ii;
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            if(x->isGenericLambda())
            {
                json::Array specs;
                if(auto* ft = x->getLambdaClass()->getDependentLambdaCallOperator())
                    for(auto* s : ft->specializations()) if(s->hasBody()) specs.push_back(function(s));
                o["specs"] = std::move(specs);
            }
            else o["fn"] = function(x->getCallOperator());
        }
        else if(auto* x = dyn_cast<CXXNewExpr>(e))
        {
            o["k"] = "New"; o["at"] = type(x->getAllocatedType()); json::Array pl; for(auto* a : x->placement_arguments()) pl.push_back(expr(a));
            o["pl"] = std::move(pl); if(x->getInitializer()) o["init"] = expr(x->getInitializer()); if(x->isArray()) return unknown(e);
        }
        else if(auto* x = dyn_cast<CXXDeleteExpr>(e)) { o["k"] = "Delete"; o["e"] = expr(x->getArgument()); }
        else if(isa<CXXThisExpr>(e)) o["k"] = "This";
        else if(auto* x = dyn_cast<ArraySubscriptExpr>(e)) { o["k"] = "Subscript"; o["b"] = expr(x->getBase()); o["i"] = expr(x->getIdx()); }
        else if(auto* x = dyn_cast<CXXThrowExpr>(e)) { o["k"] = "Throw"; o["e"] = x->getSubExpr() ? expr(x->getSubExpr()) : json::Value(nullptr); }
        else if(auto* x = dyn_cast<CXXTypeidExpr>(e)) { o["k"] = "Typeid"; if(x->isTypeOperand()) o["ty"] = type(x->getTypeOperand(C)); else o["e"] = expr(x->getExprOperand()); }
        else if(auto* x = dyn_cast<ArrayInitLoopExpr>(e)) { o["k"] = "ArrayCopy"; o["e"] = expr(x->getCommonExpr()); }
        else if(auto* x = dyn_cast<OpaqueValueExpr>(e)) { if(x->getSourceExpr()) return expr(x->getSourceExpr()); return unknown(e); }
        else if(auto* x = dyn_cast<FloatingLiteral>(e)) o["k"] = "Float";
        else return unknown(e);
        return o;
    }
    void construct(json::Object& o, const CXXConstructExpr* x)
    {
        o["k"] = "Construct"; o["f"] = funcRef(x->getConstructor());
        json::Array a; for(auto* y : x->arguments()) a.push_back(expr(y));
        o["args"] = std::move(a);
        if(x->requiresZeroInitialization()) o["zero"] = true;
        if(x->isListInitialization()) o["list"] = true;
        if(x->isStdInitListInitialization()) o["il"] = true;
    }
    json::Object function(const FunctionDecl* f)
    {
        json::Object o = funcRef(f);
        o["file"] = file(f->getLocation()); o["line"] = line(f->getLocation());
        json::Array ps;
        for(auto* p : f->parameters()) ps.push_back(json::Object{{"id", did(p)}, {"n", p->getName()}, {"t", type(p->getType())}});
        o["params"] = std::move(ps);
        if(auto* c = dyn_cast<CXXConstructorDecl>(f))
        {
            json::Array is;
            for(auto* i : c->inits())
            {
                json::Object io;
                if(i->isBaseInitializer()) io["base"] = type(QualType(i->getBaseClass(), 0));
                else if(i->isDelegatingInitializer()) io["delegating"] = true;
                else if(i->isIndirectMemberInitializer()) { io["field"] = i->getIndirectMember()->getName(); }
                else io["field"] = i->getMember()->getName();
                io["init"] = expr(i->getInit());
                is.push_back(std::move(io));
            }
            o["inits"] = std::move(is);
        }
        o["body"] = f->getBody() ? stmt(f->getBody()) : json::Value(nullptr);
        return o;
    }
    bool TraverseLambdaExpr(LambdaExpr* e) { return true; }
    bool VisitFunctionDecl(FunctionDecl* f)
    {
        if(!f->isThisDeclarationADefinition() || !f->doesThisDeclarationHaveABody()) return true;
        if(f->isDependentContext() || f->isTemplated()) return true;
        if(!inRepo(f)) return true;
        if(auto* m = dyn_cast<CXXMethodDecl>(f)) if(m->getParent()->isLambda()) return true;
        if(f->isDefaulted() && !f->isUserProvided()) return true;
        funcs.push_back(function(f));
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r)
    {
        if(r->isThisDeclarationADefinition() && !r->isDependentContext() && inRepo(r) && !r->isLambda()) (void)type(C.getRecordType(r));
        return true;
    }
    void flushRecords()
    {
        while(!pendingRec.empty())
        {
            auto* r = pendingRec.back(); pendingRec.pop_back();
            r = r->getDefinition();
            if(!r || r->isDependentContext() || !doneRec.insert(r).second) continue;
            json::Object o; o["t"] = type(C.getRecordType(r)); o["n"] = qname(r); o["union"] = r->isUnion(); o["file"] = file(r->getLocation());
            json::Array fs, bs, ms;
            for(auto* f : r->fields())
            {
                json::Object fo{{"n", f->getName()}, {"t", type(f->getType())}};
                if(f->isAnonymousStructOrUnion()) fo["anon"] = true;
                if(f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
                fs.push_back(std::move(fo));
            }
            for(auto& b : r->bases()) bs.push_back(type(b.getType()));
            for(auto* m : r->methods())
            {
                if(isa<CXXDestructorDecl>(m) || m->isImplicit()) continue;
                auto fo = funcRef(m); json::Array ov;
                for(auto* x : m->overridden_methods()) ov.push_back(mangled(x));
                fo["ov"] = std::move(ov); fo["access"] = (int)m->getAccess();
                ms.push_back(std::move(fo));
            }
            o["fields"] = std::move(fs); o["bases"] = std::move(bs); o["methods"] = std::move(ms);
            if(auto* d = r->getDestructor()) { o["dtorUser"] = d->isUserProvided(); }
            records.push_back(std::move(o));
        }
    }
};
struct Consumer : ASTConsumer
{
    void HandleTranslationUnit(ASTContext& C) override
    {
        if(C.getDiagnostics().hasErrorOccurred()) return;
        Exporter x(C);
        x.TraverseDecl(C.getTranslationUnitDecl());
        x.flushRecords();
        std::error_code ec; llvm::raw_fd_ostream os(OutFile, ec);
        os << json::Value(json::Object{{"types", std::move(x.types)}, {"funcs", std::move(x.funcs)}, {"records", std::move(x.records)}});
    }
};
struct Action : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(); } };
int main(int argc, char** argv)
{
    if(argc < 5) return 2;
    Root = argv[1]; std::string in = argv[2]; OutFile = argv[3];
    std::vector<std::string> args{"export"};
    for(int i = 5; i < argc; ++i) args.push_back(argv[i]);
    args.push_back("-fsyntax-only"); args.push_back(in);
    llvm::IntrusiveRefCntPtr<FileManager> fm(new FileManager(FileSystemOptions()));
    tooling::ToolInvocation inv(args, std::make_unique<Action>(), fm.get());
    return inv.run() ? 0 : 1;
}
