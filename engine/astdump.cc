// astdump: dump the type-resolved AST of one translation unit as compact JSON.
//
// Everything the checkers need is resolved here by clang: callees (after
// overload resolution), implicit conversions with side effects, implicit
// destructors, class hierarchy, enumerators, constant values.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
using llvm::json::OStream;

static std::string ROOT = "/repo";
static std::string OUT;

namespace {

class Dumper
{
public:
    ASTContext& ctx;
    SourceManager& sm;
    std::unique_ptr<MangleContext> mangle;
    PrintingPolicy pol;
    OStream& J;
    std::map<const Decl*, unsigned> ids;
    std::set<std::string> deps;

    Dumper(ASTContext& ctx, OStream& J)
        : ctx(ctx), sm(ctx.getSourceManager()),
          mangle(ItaniumMangleContext::create(ctx, ctx.getDiagnostics())),
          pol(ctx.getLangOpts()), J(J)
    {
        pol.SuppressTagKeyword   = true;
        pol.Bool                 = true;
        pol.SuppressUnwrittenScope = true;
        pol.AnonymousTagLocations = false;
    }

    unsigned id(const Decl* d)
    {
        d = d->getCanonicalDecl();
        auto i = ids.find(d);
        if (i != ids.end())
            return i->second;
        unsigned n = ids.size() + 1;
        ids[d]     = n;
        return n;
    }

    std::string file(SourceLocation l)
    {
        l = sm.getExpansionLoc(l);
        auto p = sm.getPresumedLoc(l, false);
        if (p.isInvalid())
            return "";
        llvm::SmallString<256> s(p.getFilename());
        sm.getFileManager().makeAbsolutePath(s);
        llvm::sys::path::remove_dots(s, true);
        return std::string(s.str());
    }
    unsigned line(SourceLocation l)
    {
        if (l.isInvalid())
            return 0;
        return sm.getExpansionLineNumber(l);
    }

    bool in_repo(SourceLocation l)
    {
        if (l.isInvalid())
            return false;
        std::string f = file(l);
        return f.compare(0, ROOT.size() + 1, ROOT + "/") == 0;
    }

    std::string type(QualType t)
    {
        if (t.isNull())
            return "";
        return t.getCanonicalType().getAsString(pol);
    }

    std::string qname(const NamedDecl* d)
    {
        std::string s;
        llvm::raw_string_ostream o(s);
        // skip template arguments: qualified name only
        d->printQualifiedName(o, pol);
        return s;
    }

    std::string mangled(const FunctionDecl* f)
    {
        if (f->isDependentContext() || f->getType()->isDependentType())
            return qname(f);
        GlobalDecl gd;
        if (auto c = dyn_cast<CXXConstructorDecl>(f))
            gd = GlobalDecl(c, Ctor_Complete);
        else if (auto d = dyn_cast<CXXDestructorDecl>(f))
            gd = GlobalDecl(d, Dtor_Complete);
        else
            gd = GlobalDecl(f);
        if (!mangle->shouldMangleDeclName(f))
            return f->getNameAsString();
        std::string s;
        llvm::raw_string_ostream o(s);
        mangle->mangleName(gd, o);
        return s;
    }

    // key of a function: mangled name, made unique per file for internal linkage
    std::string fkey(const FunctionDecl* f)
    {
        if (auto m = f->getTemplateInstantiationPattern())
            (void)m;
        std::string s = mangled(f);
        bool internal = !f->isExternallyVisible();
        if (auto md = dyn_cast<CXXMethodDecl>(f))
            if (md->getParent()->isLambda())
                return "lambda@" + file(md->getBeginLoc()) + ":" +
                       std::to_string(line(md->getBeginLoc())) + ":" +
                       std::to_string(sm.getExpansionColumnNumber(
                           md->getBeginLoc())) + ":" + s;
        if (internal)
            s += "@" + file(f->getLocation());
        return s;
    }

    const CXXRecordDecl* rec_of(QualType t)
    {
        t = t.getNonReferenceType();
        t = t.getCanonicalType();
        while (t->isArrayType())
            t = QualType(t->getArrayElementTypeNoTypeQual(), 0);
        return t->getAsCXXRecordDecl();
    }

    bool nontrivial_dtor(QualType t)
    {
        if (t.isNull() || t->isReferenceType() || t->isDependentType())
            return false;
        auto r = rec_of(t);
        return r && r->hasDefinition() && !r->hasTrivialDestructor();
    }

    void loc(const Stmt* s)
    {
        J.attribute("l", (int64_t)line(s->getBeginLoc()));
    }

    void begin(const char* k, const Stmt* s)
    {
        J.objectBegin();
        J.attribute("k", k);
        if (s)
            loc(s);
    }
    void end() { J.objectEnd(); }

    void child(const char* name, const Stmt* s)
    {
        if (!s)
            return;
        J.attributeBegin(name);
        node(s);
        J.attributeEnd();
    }

    void var(const VarDecl* v)
    {
        J.objectBegin();
        J.attribute("id", (int64_t)id(v));
        J.attribute("n", v->getNameAsString());
        J.attribute("t", type(v->getType()));
        if (v->getType()->isReferenceType())
            J.attribute("ref", true);
        if (v->getType().isConstQualified())
            J.attribute("const", true);
        if (v->isStaticLocal())
            J.attribute("static", true);
        if (nontrivial_dtor(v->getType()))
            J.attribute("dt", type(v->getType()));
        J.attribute("l", (int64_t)line(v->getLocation()));
        if (auto dd = dyn_cast<DecompositionDecl>(v))
        {
            J.attributeArray("bind", [&] {
                for (auto b : dd->bindings())
                {
                    J.objectBegin();
                    J.attribute("id", (int64_t)id(b));
                    J.attribute("n", b->getNameAsString());
                    J.objectEnd();
                }
            });
        }
        if (v->getInit())
        {
            J.attributeBegin("i");
            node(v->getInit());
            J.attributeEnd();
        }
        J.objectEnd();
    }

    void params(const FunctionDecl* f)
    {
        J.attributeArray("params", [&] {
            for (auto p : f->parameters())
            {
                J.objectBegin();
                J.attribute("id", (int64_t)id(p));
                J.attribute("n", p->getNameAsString());
                J.attribute("t", type(p->getType()));
                if (p->getType()->isReferenceType())
                    J.attribute("ref", true);
                J.objectEnd();
            }
        });
    }

    void callee_attrs(const FunctionDecl* f)
    {
        if (!f)
            return;
        J.attribute("f", qname(f));
        J.attribute("id", fkey(f));
        if (auto m = dyn_cast<CXXMethodDecl>(f))
        {
            if (m->isVirtual())
                J.attribute("virt", true);
            J.attribute("cls", type(ctx.getRecordType(m->getParent())));
        }
        if (auto pt = f->getType()->getAs<FunctionProtoType>())
        {
            auto est = pt->getExceptionSpecType();
            if (est != EST_Unevaluated && est != EST_Uninstantiated && pt->canThrow() == CT_Cannot)
                J.attribute("nt", true);
        }
        if (f->isNoReturn())
            J.attribute("nr", true);
        if (f->getBuiltinID())
            J.attribute("bi", true);
    }

    void args(const char* name, llvm::ArrayRef<const Expr*> a)
    {
        J.attributeArray(name, [&] {
            for (auto e : a)
                node(e);
        });
    }

    std::vector<const Expr*> vec(CallExpr::const_arg_range r)
    {
        std::vector<const Expr*> v;
        for (auto a : r)
            v.push_back(a);
        return v;
    }

    void cv(const Expr* e)
    {
        if (e->isValueDependent() || e->isTypeDependent())
            return;
        if (!e->getType()->isIntegralOrEnumerationType())
            return;
        Expr::EvalResult r;
        if (e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects))
        {
            llvm::SmallString<40> s;
            r.Val.getInt().toString(s, 10);
            int64_t v;
            if (r.Val.getInt().isSigned()
                    ? r.Val.getInt().getSignificantBits() <= 64
                    : r.Val.getInt().getActiveBits() < 64)
            {
                v = r.Val.getInt().getExtValue();
                J.attribute("cv", v);
            }
            else
                J.attribute("cv", std::string(s.str()));
        }
    }

    void ref(const Expr* e, const ValueDecl* d)
    {
        begin("ref", e);
        J.attribute("n", d->getNameAsString());
        if (auto v = dyn_cast<VarDecl>(d))
        {
            if (isa<ParmVarDecl>(v))
                J.attribute("d", "parm");
            else if (v->isLocalVarDecl() && !v->isStaticLocal())
                J.attribute("d", "var");
            else
                J.attribute("d", "glob");
            if (!v->isLocalVarDecl() && !isa<ParmVarDecl>(v))
                J.attribute("q", qname(v));
            J.attribute("v", (int64_t)id(v));
        }
        else if (isa<BindingDecl>(d))
        {
            J.attribute("d", "var");
            J.attribute("v", (int64_t)id(d));
        }
        else if (auto f = dyn_cast<FunctionDecl>(d))
        {
            J.attribute("d", "func");
            callee_attrs(f);
            J.attribute("q", qname(f));
        }
        else if (isa<EnumConstantDecl>(d))
        {
            J.attribute("d", "enum");
            J.attribute("q", qname(d));
        }
        else
        {
            J.attribute("d", "other");
            J.attribute("q", qname(d));
        }
        J.attribute("t", type(e->getType()));
        cv(e);
        end();
    }

    static const Stmt* strip_cases(const Stmt* s) { return s; }

    void do_switch(const SwitchStmt* s)
    {
        begin("switch", s);
        child("init", s->getInit());
        if (s->getConditionVariableDeclStmt())
            child("var", s->getConditionVariableDeclStmt());
        child("c", s->getCond());
        J.attribute("ct", type(s->getCond()->IgnoreParenImpCasts()->getType()));
        // groups: list of {labels, body}
        struct Group
        {
            std::vector<const SwitchCase*> labels;
            std::vector<const Stmt*> body;
        };
        std::vector<Group> groups;
        std::vector<const Stmt*> list;
        if (auto c = dyn_cast_or_null<CompoundStmt>(s->getBody()))
            for (auto x : c->body())
                list.push_back(x);
        else if (s->getBody())
            list.push_back(s->getBody());
        bool last_label = false;
        for (auto x : list)
        {
            bool started = false;
            while (auto sc = dyn_cast<SwitchCase>(x))
            {
                if (!started)
                {
                    groups.emplace_back();
                    started = true;
                }
                groups.back().labels.push_back(sc);
                x = sc->getSubStmt();
            }
            if (groups.empty())
                groups.emplace_back();
            groups.back().body.push_back(x);
        }
        (void)last_label;
        J.attributeArray("g", [&] {
            for (auto& g : groups)
            {
                J.objectBegin();
                J.attributeArray("lab", [&] {
                    for (auto l : g.labels)
                    {
                        if (isa<DefaultStmt>(l))
                        {
                            J.objectBegin();
                            J.attribute("default", true);
                            J.attribute("l", (int64_t)line(l->getBeginLoc()));
                            J.objectEnd();
                        }
                        else
                        {
                            auto c = cast<CaseStmt>(l);
                            J.objectBegin();
                            J.attribute("l", (int64_t)line(l->getBeginLoc()));
                            J.attributeBegin("e");
                            node(c->getLHS());
                            J.attributeEnd();
                            if (c->getRHS())
                            {
                                J.attributeBegin("e2");
                                node(c->getRHS());
                                J.attributeEnd();
                            }
                            J.objectEnd();
                        }
                    }
                });
                J.attributeArray("b", [&] {
                    for (auto b : g.body)
                        node(b);
                });
                J.objectEnd();
            }
        });
        end();
    }

    void do_lambda(const LambdaExpr* l)
    {
        begin("lambda", l);
        const CXXMethodDecl* op = l->getCallOperator();
        const Stmt* body = l->getBody();
        if (auto ft = op->getDescribedFunctionTemplate())
            for (auto sp : ft->specializations())
                if (sp->hasBody())
                {
                    // generic lambda: use its (first) instantiation
                    op   = cast<CXXMethodDecl>(sp);
                    body = sp->getBody();
                    J.attribute("generic", true);
                    break;
                }
        J.attribute("id", fkey(op));
        J.attribute("t", type(l->getType()));
        J.attribute("rt", type(op->getReturnType()));
        params(op);
        J.attributeArray("caps", [&] {
            auto ci = l->capture_init_begin();
            for (auto c = l->capture_begin(); c != l->capture_end(); ++c, ++ci)
            {
                J.objectBegin();
                J.attribute("byref", c->getCaptureKind() == LCK_ByRef);
                if (c->capturesThis())
                    J.attribute("this", true);
                else if (c->capturesVariable())
                {
                    J.attribute("v", (int64_t)id(c->getCapturedVar()));
                    J.attribute("n", c->getCapturedVar()->getNameAsString());
                    if (l->isInitCapture(&*c) && *ci)
                    {
                        J.attributeBegin("i");
                        node(*ci);
                        J.attributeEnd();
                    }
                }
                J.objectEnd();
            }
        });
        child("b", body);
        end();
    }

    void node(const Stmt* s)
    {
        if (!s)
        {
            J.value(nullptr);
            return;
        }
        // ---- transparent wrappers
        if (auto e = dyn_cast<ParenExpr>(s))
            return node(e->getSubExpr());
        if (auto e = dyn_cast<ConstantExpr>(s))
            return node(e->getSubExpr());
        if (auto e = dyn_cast<SubstNonTypeTemplateParmExpr>(s))
            return node(e->getReplacement());
        if (auto e = dyn_cast<FullExpr>(s))
        {
            // full expression with temporaries to destroy
            if (isa<ExprWithCleanups>(e))
            {
                begin("full", s);
                child("e", e->getSubExpr());
                end();
                return;
            }
            return node(e->getSubExpr());
        }
        if (auto e = dyn_cast<ImplicitCastExpr>(s))
        {
            switch (e->getCastKind())
            {
                case CK_IntegralToBoolean:
                case CK_PointerToBoolean:
                {
                    begin("tobool", s);
                    J.attribute("ft", type(e->getSubExpr()->getType()));
                    child("e", e->getSubExpr());
                    end();
                    return;
                }
                case CK_IntegralCast:
                {
                    begin("icast", s);
                    J.attribute("t", type(e->getType()));
                    J.attribute("ft", type(e->getSubExpr()->getType()));
                    cv(e);
                    child("e", e->getSubExpr());
                    end();
                    return;
                }
                default:
                    return node(e->getSubExpr());
            }
        }
        if (auto e = dyn_cast<MaterializeTemporaryExpr>(s))
        {
            return node(e->getSubExpr());
        }
        if (auto e = dyn_cast<CXXBindTemporaryExpr>(s))
        {
            // a temporary with a non trivial destructor
            begin("temp", s);
            J.attribute("dt", type(e->getType()));
            child("e", e->getSubExpr());
            end();
            return;
        }
        if (auto e = dyn_cast<CXXDefaultArgExpr>(s))
        {
            begin("defarg", s);
            child("e", e->getExpr());
            end();
            return;
        }
        if (auto e = dyn_cast<CXXDefaultInitExpr>(s))
            return node(e->getExpr());
        if (auto e = dyn_cast<OpaqueValueExpr>(s))
            return node(e->getSourceExpr());
        if (auto e = dyn_cast<CXXStdInitializerListExpr>(s))
            return node(e->getSubExpr());
        if (auto e = dyn_cast<CXXRewrittenBinaryOperator>(s))
            return node(e->getSemanticForm());
        if (auto e = dyn_cast<AttributedStmt>(s))
            return node(e->getSubStmt());

        // ---- statements
        if (auto c = dyn_cast<CompoundStmt>(s))
        {
            begin("{}", s);
            J.attribute("el", (int64_t)line(c->getRBracLoc()));
            J.attributeArray("b", [&] {
                for (auto x : c->body())
                    node(x);
            });
            end();
            return;
        }
        if (auto d = dyn_cast<DeclStmt>(s))
        {
            begin("decl", s);
            J.attributeArray("v", [&] {
                for (auto x : d->decls())
                    if (auto v = dyn_cast<VarDecl>(x))
                        var(v);
            });
            end();
            return;
        }
        if (auto i = dyn_cast<IfStmt>(s))
        {
            begin("if", s);
            child("init", i->getInit());
            if (i->getConditionVariableDeclStmt())
                child("var", i->getConditionVariableDeclStmt());
            child("c", i->getCond());
            child("a", i->getThen());
            child("b", i->getElse());
            end();
            return;
        }
        if (auto w = dyn_cast<WhileStmt>(s))
        {
            begin("while", s);
            if (w->getConditionVariableDeclStmt())
                child("var", w->getConditionVariableDeclStmt());
            child("c", w->getCond());
            child("b", w->getBody());
            end();
            return;
        }
        if (auto w = dyn_cast<DoStmt>(s))
        {
            begin("do", s);
            child("c", w->getCond());
            child("b", w->getBody());
            end();
            return;
        }
        if (auto f = dyn_cast<ForStmt>(s))
        {
            begin("for", s);
            child("init", f->getInit());
            child("c", f->getCond());
            child("inc", f->getInc());
            child("b", f->getBody());
            end();
            return;
        }
        if (auto f = dyn_cast<CXXForRangeStmt>(s))
        {
            begin("forr", s);
            child("init", f->getInit());
            J.attributeBegin("var");
            var(f->getLoopVariable());
            J.attributeEnd();
            child("r", f->getRangeInit());
            child("b", f->getBody());
            end();
            return;
        }
        if (auto x = dyn_cast<SwitchStmt>(s))
            return do_switch(x);
        if (auto x = dyn_cast<SwitchCase>(s))
        {
            // nested label outside the recognised shape: keep its statement
            return node(x->getSubStmt());
        }
        if (isa<BreakStmt>(s))
        {
            begin("break", s);
            end();
            return;
        }
        if (isa<ContinueStmt>(s))
        {
            begin("continue", s);
            end();
            return;
        }
        if (auto r = dyn_cast<ReturnStmt>(s))
        {
            begin("ret", s);
            child("e", r->getRetValue());
            end();
            return;
        }
        if (auto g = dyn_cast<GotoStmt>(s))
        {
            begin("goto", s);
            J.attribute("n", g->getLabel()->getNameAsString());
            end();
            return;
        }
        if (auto l = dyn_cast<LabelStmt>(s))
        {
            begin("label", s);
            J.attribute("n", l->getDecl()->getNameAsString());
            child("b", l->getSubStmt());
            end();
            return;
        }
        if (auto t = dyn_cast<CXXTryStmt>(s))
        {
            begin("try", s);
            child("b", t->getTryBlock());
            J.attributeArray("h", [&] {
                for (unsigned i = 0; i < t->getNumHandlers(); ++i)
                {
                    auto h = t->getHandler(i);
                    J.objectBegin();
                    J.attribute("l", (int64_t)line(h->getBeginLoc()));
                    if (h->getExceptionDecl())
                    {
                        J.attribute("t", type(h->getCaughtType()));
                        J.attributeBegin("v");
                        var(h->getExceptionDecl());
                        J.attributeEnd();
                    }
                    child("b", h->getHandlerBlock());
                    J.objectEnd();
                }
            });
            end();
            return;
        }
        if (isa<NullStmt>(s))
        {
            begin("null", s);
            end();
            return;
        }

        // ---- expressions
        if (auto e = dyn_cast<CXXThrowExpr>(s))
        {
            begin("throw", s);
            if (e->getSubExpr())
                J.attribute("t", type(e->getSubExpr()->getType()));
            child("e", e->getSubExpr());
            end();
            return;
        }
        if (auto e = dyn_cast<DeclRefExpr>(s))
            return ref(e, e->getDecl());
        if (auto e = dyn_cast<MemberExpr>(s))
        {
            if (auto v = dyn_cast<VarDecl>(e->getMemberDecl()))
                return ref(e, v);
            if (auto v = dyn_cast<EnumConstantDecl>(e->getMemberDecl()))
                return ref(e, v);
            begin("mem", s);
            J.attribute("n", e->getMemberDecl()->getNameAsString());
            J.attribute("q", qname(e->getMemberDecl()));
            J.attribute("t", type(e->getType()));
            if (e->isArrow())
                J.attribute("arrow", true);
            child("b", e->getBase());
            end();
            return;
        }
        if (isa<CXXThisExpr>(s))
        {
            begin("this", s);
            J.attribute("t", type(cast<Expr>(s)->getType()));
            end();
            return;
        }
        if (auto e = dyn_cast<CXXOperatorCallExpr>(s))
        {
            begin("call", s);
            J.attribute("op", getOperatorSpelling(e->getOperator()));
            auto f = e->getDirectCallee();
            callee_attrs(f);
            J.attribute("t", type(e->getType()));
            std::vector<const Expr*> a = vec(e->arguments());
            if (f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic() && !a.empty())
            {
                child("o", a[0]);
                a.erase(a.begin());
            }
            args("a", a);
            end();
            return;
        }
        if (auto e = dyn_cast<CXXMemberCallExpr>(s))
        {
            begin("call", s);
            auto f = e->getMethodDecl();
            callee_attrs(f);
            J.attribute("t", type(e->getType()));
            bool qualified = false;
            if (auto me = dyn_cast<MemberExpr>(e->getCallee()->IgnoreParenImpCasts()))
                qualified = me->hasQualifier();
            if (qualified)
                J.attribute("qual", true);
            if (f)
                child("o", e->getImplicitObjectArgument());
            else
                child("fe", e->getCallee());
            if (e->getImplicitObjectArgument())
                J.attribute("ot", type(e->getImplicitObjectArgument()->getType()));
            args("a", vec(e->arguments()));
            end();
            return;
        }
        if (auto e = dyn_cast<UserDefinedLiteral>(s))
        {
            begin("call", s);
            callee_attrs(e->getDirectCallee());
            args("a", vec(e->arguments()));
            end();
            return;
        }
        if (auto e = dyn_cast<CallExpr>(s))
        {
            begin("call", s);
            auto f = e->getDirectCallee();
            callee_attrs(f);
            J.attribute("t", type(e->getType()));
            if (!f)
                child("fe", e->getCallee());
            args("a", vec(e->arguments()));
            cv(e);
            end();
            return;
        }
        if (auto e = dyn_cast<CXXConstructExpr>(s))
        {
            // elidable / trivial copies stay visible as ctor nodes
            begin("ctor", s);
            callee_attrs(e->getConstructor());
            J.attribute("t", type(e->getType()));
            if (e->getConstructor()->isCopyOrMoveConstructor())
                J.attribute("cm", e->getConstructor()->isCopyConstructor() ? "copy" : "move");
            std::vector<const Expr*> a;
            for (auto x : e->arguments())
                a.push_back(x);
            args("a", a);
            end();
            return;
        }
        if (auto e = dyn_cast<CXXInheritedCtorInitExpr>(s))
        {
            begin("ctor", s);
            callee_attrs(e->getConstructor());
            J.attribute("t", type(e->getType()));
            args("a", {});
            end();
            return;
        }
        if (auto e = dyn_cast<CXXNewExpr>(s))
        {
            begin("new", s);
            J.attribute("t", type(e->getAllocatedType()));
            if (e->isArray() && e->getArraySize())
                child("sz", *e->getArraySize());
            if (e->getNumPlacementArgs())
                J.attribute("place", true);
            child("i", e->getInitializer());
            end();
            return;
        }
        if (auto e = dyn_cast<CXXDeleteExpr>(s))
        {
            begin("delete", s);
            J.attribute("t", type(e->getDestroyedType()));
            if (e->isArrayForm())
                J.attribute("arr", true);
            child("e", e->getArgument());
            end();
            return;
        }
        if (auto e = dyn_cast<LambdaExpr>(s))
            return do_lambda(e);
        if (auto e = dyn_cast<IntegerLiteral>(s))
        {
            begin("int", s);
            llvm::SmallString<40> t;
            e->getValue().toString(t, 10, e->getType()->isSignedIntegerType());
            J.attribute("v", std::string(t.str()));
            J.attribute("t", type(e->getType()));
            cv(e);
            end();
            return;
        }
        if (auto e = dyn_cast<CharacterLiteral>(s))
        {
            begin("int", s);
            J.attribute("v", std::to_string(e->getValue()));
            J.attribute("t", "char");
            J.attribute("cv", (int64_t)e->getValue());
            end();
            return;
        }
        if (auto e = dyn_cast<FloatingLiteral>(s))
        {
            begin("float", s);
            J.attribute("v", e->getValueAsApproximateDouble());
            end();
            return;
        }
        if (auto e = dyn_cast<CXXBoolLiteralExpr>(s))
        {
            begin("bool", s);
            J.attribute("v", e->getValue());
            J.attribute("cv", (int64_t)(e->getValue() ? 1 : 0));
            end();
            return;
        }
        if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s))
        {
            begin("nullp", s);
            end();
            return;
        }
        if (auto e = dyn_cast<StringLiteral>(s))
        {
            begin("str", s);
            std::string v = e->getCharByteWidth() == 1 ? e->getString().str() : std::string("?");
            J.attribute("v", llvm::json::fixUTF8(v));
            end();
            return;
        }
        if (auto e = dyn_cast<UnaryOperator>(s))
        {
            begin("un", s);
            std::string op = UnaryOperator::getOpcodeStr(e->getOpcode()).str();
            if (e->isPostfix())
                op = "p" + op;
            J.attribute("op", op);
            cv(e);
            child("e", e->getSubExpr());
            end();
            return;
        }
        if (auto e = dyn_cast<BinaryOperator>(s))
        {
            begin("bin", s);
            J.attribute("op", e->getOpcodeStr().str());
            J.attribute("t", type(e->getType()));
            J.attribute("at", type(e->getLHS()->getType()));
            cv(e);
            child("a", e->getLHS());
            child("b", e->getRHS());
            end();
            return;
        }
        if (auto e = dyn_cast<AbstractConditionalOperator>(s))
        {
            begin("cond", s);
            J.attribute("t", type(e->getType()));
            child("c", e->getCond());
            child("a", e->getTrueExpr());
            child("b", e->getFalseExpr());
            end();
            return;
        }
        if (auto e = dyn_cast<ExplicitCastExpr>(s))
        {
            begin("cast", s);
            J.attribute("ck", e->getCastKindName());
            J.attribute("style", e->getStmtClassName());
            J.attribute("t", type(e->getType()));
            J.attribute("ft", type(e->getSubExpr()->getType()));
            cv(e);
            child("e", e->getSubExpr());
            end();
            return;
        }
        if (auto e = dyn_cast<ArraySubscriptExpr>(s))
        {
            begin("sub", s);
            child("b", e->getBase());
            child("i", e->getIdx());
            end();
            return;
        }
        if (auto e = dyn_cast<InitListExpr>(s))
        {
            begin("init", s);
            J.attribute("t", type(e->getType()));
            std::vector<const Expr*> a;
            for (auto x : e->inits())
                a.push_back(x);
            args("a", a);
            end();
            return;
        }
        if (auto e = dyn_cast<UnaryExprOrTypeTraitExpr>(s))
        {
            begin("sizeof", s);
            cv(e);
            end();
            return;
        }
        if (isa<ImplicitValueInitExpr>(s) || isa<CXXScalarValueInitExpr>(s))
        {
            begin("zero", s);
            J.attribute("t", type(cast<Expr>(s)->getType()));
            end();
            return;
        }
        if (auto e = dyn_cast<StmtExpr>(s))
        {
            begin("stmtexpr", s);
            child("b", e->getSubStmt());
            end();
            return;
        }
        if (auto e = dyn_cast<PredefinedExpr>(s))
        {
            (void)e;
            begin("str", s);
            J.attribute("v", "__func__");
            end();
            return;
        }
        // ---- anything else: keep the children
        begin("x", s);
        J.attribute("cls", s->getStmtClassName());
        if (auto e = dyn_cast<Expr>(s))
            cv(e);
        J.attributeArray("c", [&] {
            for (auto c : s->children())
                node(c);
        });
        end();
    }

    void record(const CXXRecordDecl* r)
    {
        J.objectBegin();
        J.attribute("name", type(ctx.getRecordType(r)));
        J.attribute("q", qname(r));
        J.attribute("file", file(r->getLocation()));
        J.attribute("line", (int64_t)line(r->getLocation()));
        J.attributeArray("bases", [&] {
            for (auto& b : r->bases())
                J.value(type(b.getType()));
        });
        J.attributeArray("fields", [&] {
            for (auto f : r->fields())
            {
                J.objectBegin();
                J.attribute("n", f->getNameAsString());
                J.attribute("t", type(f->getType()));
                J.attribute("ind", (int64_t)f->getFieldIndex());
                if (f->isMutable())
                    J.attribute("mut", true);
                if (f->getInClassInitializer())
                {
                    J.attributeBegin("i");
                    node(f->getInClassInitializer());
                    J.attributeEnd();
                }
                J.objectEnd();
            }
        });
        J.attributeArray("methods", [&] {
            for (auto m : r->methods())
            {
                J.objectBegin();
                J.attribute("n", m->getNameAsString());
                J.attribute("id", fkey(m));
                if (m->isVirtual())
                    J.attribute("virt", true);
                if (m->isPureVirtual())
                    J.attribute("pure", true);
                if (m->isDeleted())
                    J.attribute("deleted", true);
                if (m->isStatic())
                    J.attribute("static", true);
                if (m->isConst())
                    J.attribute("const", true);
                if (isa<CXXDestructorDecl>(m))
                    J.attribute("dtor", true);
                if (isa<CXXConstructorDecl>(m))
                    J.attribute("ctor", true);
                J.attribute("acc", m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private");
                if (m->isImplicit() || m->isDefaulted())
                    J.attribute("implicit", true);
                J.attributeArray("over", [&] {
                    for (auto o : m->overridden_methods())
                        J.value(fkey(o));
                });
                J.objectEnd();
            }
        });
        J.objectEnd();
    }

    void function(const FunctionDecl* f)
    {
        J.objectBegin();
        J.attribute("id", fkey(f));
        J.attribute("q", qname(f));
        J.attribute("file", file(f->getLocation()));
        J.attribute("line", (int64_t)line(f->getBeginLoc()));
        J.attribute("end", (int64_t)line(f->getEndLoc()));
        J.attribute("rt", type(f->getReturnType()));
        if (auto m = dyn_cast<CXXMethodDecl>(f))
        {
            J.attribute("cls", type(ctx.getRecordType(m->getParent())));
            if (m->isVirtual())
                J.attribute("virt", true);
            if (m->isStatic())
                J.attribute("static", true);
            if (isa<CXXConstructorDecl>(m))
                J.attribute("ctor", true);
            if (isa<CXXDestructorDecl>(m))
                J.attribute("dtor", true);
            J.attributeArray("over", [&] {
                for (auto o : m->overridden_methods())
                    J.value(fkey(o));
            });
        }
        if (!f->isExternallyVisible())
            J.attribute("internal", true);
        if (auto pt = f->getType()->getAs<FunctionProtoType>())
        {
            auto est = pt->getExceptionSpecType();
            if (est != EST_Unevaluated && est != EST_Uninstantiated &&
                pt->canThrow() == CT_Cannot)
                J.attribute("nt", true);
        }
        if (f->isNoReturn())
            J.attribute("nr", true);
        params(f);
        if (auto c = dyn_cast<CXXConstructorDecl>(f))
        {
            J.attributeArray("inits", [&] {
                for (auto i : c->inits())
                {
                    J.objectBegin();
                    if (i->isAnyMemberInitializer())
                        J.attribute("mem", i->getAnyMember()->getNameAsString());
                    else if (i->isBaseInitializer())
                        J.attribute("base", type(QualType(i->getBaseClass(), 0)));
                    else
                        J.attribute("deleg", true);
                    if (i->isWritten())
                        J.attribute("w", true);
                    J.attributeBegin("e");
                    node(i->getInit());
                    J.attributeEnd();
                    J.objectEnd();
                }
            });
        }
        J.attributeBegin("body");
        node(f->getBody());
        J.attributeEnd();
        J.objectEnd();
    }
};

class Collector : public RecursiveASTVisitor<Collector>
{
public:
    Dumper& d;
    std::vector<const FunctionDecl*> funcs;
    std::vector<const CXXRecordDecl*> recs;
    std::vector<const EnumDecl*> enums;
    std::vector<const VarDecl*> vars;
    std::set<const Decl*> seen;

    Collector(Dumper& d) : d(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    bool VisitFunctionDecl(FunctionDecl* f)
    {
        if (!f->isThisDeclarationADefinition() || !f->hasBody())
            return true;
        if (f->isDependentContext())
            return true;
        if (!d.in_repo(f->getLocation()))
            return true;
        if (auto m = dyn_cast<CXXMethodDecl>(f))
            if (m->getParent()->isLambda())
                return true;
        if (seen.insert(f).second)
            funcs.push_back(f);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r)
    {
        if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda())
            return true;
        if (!d.in_repo(r->getLocation()))
            return true;
        if (seen.insert(r).second)
            recs.push_back(r);
        return true;
    }
    bool VisitEnumDecl(EnumDecl* e)
    {
        if (e->isThisDeclarationADefinition() && d.in_repo(e->getLocation()) && !e->isDependentContext())
            enums.push_back(e);
        return true;
    }
    bool VisitVarDecl(VarDecl* v)
    {
        if (v->isLocalVarDecl() || isa<ParmVarDecl>(v))
            return true;
        if (!v->hasInit() || !d.in_repo(v->getLocation()))
            return true;
        if (v->getDeclContext()->isDependentContext() || v->getType()->isDependentType())
            return true;
        if (v->getInit()->isValueDependent() || v->getInit()->isTypeDependent())
            return true;
        vars.push_back(v);
        return true;
    }
};

class Consumer : public ASTConsumer
{
    CompilerInstance& ci;
    std::string in;

public:
    Consumer(CompilerInstance& ci, std::string in) : ci(ci), in(in) {}
    void HandleTranslationUnit(ASTContext& ctx) override
    {
        std::error_code ec;
        llvm::raw_fd_ostream os(OUT, ec);
        if (ec)
        {
            llvm::errs() << "cannot write " << OUT << "\n";
            exit(3);
        }
        OStream J(os);
        Dumper d(ctx, J);
        Collector c(d);
        c.TraverseDecl(ctx.getTranslationUnitDecl());
        J.objectBegin();
        J.attribute("main", in);
        J.attribute("errors", (int64_t)ctx.getDiagnostics().getClient()->getNumErrors());
        std::set<std::string> files;
        for (auto i = d.sm.fileinfo_begin(); i != d.sm.fileinfo_end(); ++i)
        {
            llvm::SmallString<256> s(i->first.getName());
            d.sm.getFileManager().makeAbsolutePath(s);
            llvm::sys::path::remove_dots(s, true);
            files.insert(std::string(s.str()));
        }
        J.attributeArray("deps", [&] {
            for (auto& f : files)
                if (f.compare(0, ROOT.size() + 1, ROOT + "/") == 0)
                    J.value(f);
        });
        J.attributeArray("functions", [&] {
            for (auto f : c.funcs)
                d.function(f);
        });
        J.attributeArray("records", [&] {
            for (auto r : c.recs)
                d.record(r);
        });
        J.attributeArray("enums", [&] {
            for (auto e : c.enums)
            {
                J.objectBegin();
                J.attribute("q", d.qname(e));
                J.attribute("file", d.file(e->getLocation()));
                J.attribute("line", (int64_t)d.line(e->getLocation()));
                J.attributeArray("c", [&] {
                    for (auto x : e->enumerators())
                    {
                        J.objectBegin();
                        J.attribute("n", d.qname(x));
                        llvm::SmallString<40> s;
                        x->getInitVal().toString(s, 10);
                        J.attribute("v", std::string(s.str()));
                        J.objectEnd();
                    }
                });
                J.objectEnd();
            }
        });
        J.attributeArray("vars", [&] {
            for (auto v : c.vars)
            {
                J.objectBegin();
                J.attribute("q", d.qname(v));
                J.attribute("file", d.file(v->getLocation()));
                J.attribute("line", (int64_t)d.line(v->getLocation()));
                J.attribute("t", d.type(v->getType()));
                J.attributeBegin("i");
                d.node(v->getInit());
                J.attributeEnd();
                J.objectEnd();
            }
        });
        J.objectEnd();
        os.flush();
    }
};

class Action : public ASTFrontendAction
{
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, StringRef in) override
    {
        return std::make_unique<Consumer>(ci, in.str());
    }
};

} // namespace

// usage: astdump ROOT OUT DIR FILE -- clang-args...
int main(int argc, const char** argv)
{
    if (argc < 6)
    {
        llvm::errs() << "usage: astdump ROOT OUT DIR FILE -- args\n";
        return 2;
    }
    ROOT             = argv[1];
    OUT              = argv[2];
    std::string dir  = argv[3];
    std::string file = argv[4];
    std::vector<std::string> args;
    for (int i = 6; i < argc; ++i)
        args.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(dir, args);
    tooling::ClangTool tool(db, {file});
    int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
    return rc;
}
