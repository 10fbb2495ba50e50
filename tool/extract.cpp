// Extracts a resolved, compact program model (JSON lines) from one translation
// unit: first-party function bodies, records, enums and global variables.
// Consumed by /verif/lib/model.py.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;

static std::string Root;
static std::string OutPath;

struct Dumper : RecursiveASTVisitor<Dumper> {
    ASTContext &C;
    SourceManager &SM;
    llvm::raw_ostream &OS;
    PrintingPolicy PP;
    ASTNameGenerator NG;
    std::map<const Decl *, int> ids;
    std::map<std::string, int> typeIds;
    std::vector<std::string> types;
    std::set<std::string> seenFns;
    std::set<const Decl *> seenRec, seenVar;
    std::string curFn;
    int nfn = 0;

    Dumper(ASTContext &C, llvm::raw_ostream &OS)
        : C(C), SM(C.getSourceManager()), OS(OS), PP(C.getLangOpts()), NG(C)
    {
        PP.SuppressTagKeyword = true;
        PP.SuppressDefaultTemplateArgs = true;
        PP.TerseOutput = true;
        PP.PrintCanonicalTypes = true;
        PP.AnonymousTagLocations = true;
        PP.SuppressScope = false;
        PP.Bool = true;
        PP.SuppressInlineNamespace = true;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool shouldVisitLambdaBody() const { return true; }

    std::string fileOf(SourceLocation L)
    {
        L = SM.getExpansionLoc(L);
        auto F = SM.getFilename(L);
        std::string s = F.str();
        // normalise
        llvm::SmallString<256> p(s);
        llvm::sys::path::remove_dots(p, true);
        return p.str().str();
    }
    bool firstParty(SourceLocation L, std::string *rel = nullptr)
    {
        if (L.isInvalid())
            return false;
        std::string f = fileOf(L);
        if (f.compare(0, Root.size(), Root) != 0)
            return false;
        std::string r = f.substr(Root.size());
        if (r.compare(0, 9, "3rdparty/") == 0 || r.compare(0, 6, "_build") == 0 || r.compare(0, 6, "tests/") == 0)
            return false;
        if (rel)
            *rel = r;
        return true;
    }
    int line(SourceLocation L) { return (int)SM.getExpansionLineNumber(L); }

    std::string typeStr(QualType T)
    {
        if (T.isNull())
            return "?";
        return T.getCanonicalType().getAsString(PP);
    }
    int tid(QualType T)
    {
        std::string s = typeStr(T);
        auto it = typeIds.find(s);
        if (it != typeIds.end())
            return it->second;
        int n = (int)types.size();
        types.push_back(s);
        typeIds[s] = n;
        return n;
    }
    int id(const Decl *D)
    {
        D = D->getCanonicalDecl();
        auto it = ids.find(D);
        if (it != ids.end())
            return it->second;
        int n = (int)ids.size() + 1;
        ids[D] = n;
        return n;
    }
    std::string qname(const NamedDecl *D)
    {
        std::string s;
        llvm::raw_string_ostream o(s);
        PrintingPolicy P2 = PP;
        P2.SuppressUnwrittenScope = true;
        D->printQualifiedName(o, P2);
        return o.str();
    }
    std::string recName(const RecordDecl *R)
    {
        if (!R)
            return "";
        return typeStr(C.getRecordType(R));
    }
    std::string fnKey(const FunctionDecl *F)
    {
        F = F->getCanonicalDecl();
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            if (M->getParent()->isLambda()) {
                std::string r;
                if (firstParty(M->getLocation(), &r) || true) {
                    auto L = SM.getExpansionLoc(M->getParent()->getBeginLoc());
                    std::string k = "lambda@" + (r.empty() ? fileOf(L) : r) + ":" + std::to_string(SM.getExpansionLineNumber(L)) + ":" +
                                    std::to_string(SM.getExpansionColumnNumber(L));
                    // distinguish instantiations
                    std::string t;
                    for (auto *p : M->parameters())
                        t += typeStr(p->getType()) + ",";
                    // enclosing function mangled
                    const DeclContext *DC = M->getParent()->getDeclContext();
                    while (DC && !isa<FunctionDecl>(DC))
                        DC = DC->getParent();
                    if (DC)
                        k += "#" + fnKey(cast<FunctionDecl>(DC));
                    return k + "(" + t + ")";
                }
            }
        }
        if (F->isDependentContext())
            return "dep:" + qname(F) + "@" + fileOf(F->getLocation()) + ":" + std::to_string(line(F->getLocation()));
        std::string k = NG.getName(F);
        if (k.empty()) {
            llvm::SmallString<128> b;
            index::generateUSRForDecl(F, b);
            k = b.str().str();
        }
        if (!F->isExternallyVisible())
            k += "@" + fileOf(F->getLocation());
        return k;
    }
    std::string varKey(const VarDecl *V)
    {
        std::string k;
        if (V->isStaticLocal()) {
            k = "static:" + fileOf(V->getLocation()) + ":" + std::to_string(line(V->getLocation())) + ":" + V->getNameAsString();
        } else {
            k = qname(V);
            if (!V->isExternallyVisible())
                k += "@" + fileOf(V->getCanonicalDecl()->getLocation()).substr(0);
        }
        return k;
    }

    // ---- expression / statement serialisation
    using O = json::Object;
    using V = json::Value;

    void constVal(const Expr *E, O &o)
    {
        if (E->isValueDependent() || E->isTypeDependent() || E->containsErrors())
            return;
        if (!E->isPRValue() && !isa<DeclRefExpr>(E) && !isa<MemberExpr>(E))
            return;
        if (!E->getType()->isIntegralOrEnumerationType())
            return;
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects, false)) {
            llvm::SmallString<32> s;
            R.Val.getInt().toString(s, 10);
            o["cv"] = json::Value(R.Val.getInt().isRepresentableByInt64() ? json::Value(R.Val.getInt().getExtValue()) : json::Value(s.str().str()));
        }
    }
    V vec(llvm::ArrayRef<const Stmt *> a)
    {
        json::Array r;
        for (auto *s : a)
            r.push_back(S(s));
        return r;
    }
    template<class It>
    json::Array args(It b, It e)
    {
        json::Array r;
        for (; b != e; ++b)
            r.push_back(S(*b));
        return r;
    }
    V var(const VarDecl *D)
    {
        O o;
        o["k"] = "Var";
        o["l"] = line(D->getLocation());
        o["id"] = id(D);
        o["n"] = D->getNameAsString();
        o["t"] = tid(D->getType());
        if (D->isStaticLocal()) {
            o["static"] = 1;
            o["gk"] = varKey(D);
        }
        if (D->getTLSKind() != VarDecl::TLS_None)
            o["tls"] = 1;
        if (auto *I = D->getInit())
            o["init"] = S(I);
        return o;
    }
    static bool hasDtorEffect(QualType) { return true; }

    V S(const Stmt *s)
    {
        if (!s)
            return nullptr;
        // transparent wrappers
        if (auto *E = dyn_cast<Expr>(s)) {
            return Ex(E);
        }
        O o;
        o["l"] = line(s->getBeginLoc());
        switch (s->getStmtClass()) {
            case Stmt::CompoundStmtClass: {
                o["k"] = "Compound";
                json::Array a;
                for (auto *c : cast<CompoundStmt>(s)->body())
                    a.push_back(S(c));
                o["c"] = std::move(a);
                o["le"] = line(s->getEndLoc());
                break;
            }
            case Stmt::DeclStmtClass: {
                o["k"] = "Decl";
                json::Array a;
                for (auto *d : cast<DeclStmt>(s)->decls()) {
                    if (auto *dd = dyn_cast<DecompositionDecl>(d)) {
                        auto v = var(dd);
                        auto *vo = v.getAsObject();
                        (*vo)["k"] = "Decomp";
                        json::Array bs;
                        for (auto *b : dd->bindings()) {
                            O bo;
                            bo["id"] = id(b);
                            bo["n"] = b->getNameAsString();
                            bo["t"] = tid(b->getType());
                            if (auto *be = b->getBinding())
                                bo["e"] = S(be);
                            bs.push_back(std::move(bo));
                        }
                        (*vo)["b"] = std::move(bs);
                        a.push_back(std::move(v));
                    } else if (auto *vd = dyn_cast<VarDecl>(d))
                        a.push_back(var(vd));
                }
                o["c"] = std::move(a);
                break;
            }
            case Stmt::IfStmtClass: {
                auto *i = cast<IfStmt>(s);
                o["k"] = "If";
                if (i->isConstexpr())
                    o["cx"] = 1;
                if (i->getInit())
                    o["init"] = S(i->getInit());
                if (i->getConditionVariable())
                    o["cvar"] = var(i->getConditionVariable());
                o["cond"] = S(i->getCond());
                o["then"] = S(i->getThen());
                if (i->getElse())
                    o["else"] = S(i->getElse());
                break;
            }
            case Stmt::WhileStmtClass: {
                auto *w = cast<WhileStmt>(s);
                o["k"] = "While";
                if (w->getConditionVariable())
                    o["cvar"] = var(w->getConditionVariable());
                o["cond"] = S(w->getCond());
                o["body"] = S(w->getBody());
                break;
            }
            case Stmt::DoStmtClass: {
                auto *w = cast<DoStmt>(s);
                o["k"] = "Do";
                o["cond"] = S(w->getCond());
                o["body"] = S(w->getBody());
                break;
            }
            case Stmt::ForStmtClass: {
                auto *w = cast<ForStmt>(s);
                o["k"] = "For";
                if (w->getInit())
                    o["init"] = S(w->getInit());
                if (w->getConditionVariable())
                    o["cvar"] = var(w->getConditionVariable());
                if (w->getCond())
                    o["cond"] = S(w->getCond());
                if (w->getInc())
                    o["inc"] = S(w->getInc());
                o["body"] = S(w->getBody());
                break;
            }
            case Stmt::CXXForRangeStmtClass: {
                auto *w = cast<CXXForRangeStmt>(s);
                o["k"] = "RFor";
                if (w->getInit())
                    o["init"] = S(w->getInit());
                const VarDecl *lv = w->getLoopVariable();
                auto v = var(lv);
                auto *vo = v.getAsObject();
                vo->erase("init");
                if (auto *dd = dyn_cast<DecompositionDecl>(lv)) {
                    (*vo)["k"] = "Decomp";
                    json::Array bs;
                    for (auto *b : dd->bindings()) {
                        O bo;
                        bo["id"] = id(b);
                        bo["n"] = b->getNameAsString();
                        bo["t"] = tid(b->getType());
                        if (auto *be = b->getBinding())
                            bo["e"] = S(be);
                        bs.push_back(std::move(bo));
                    }
                    (*vo)["b"] = std::move(bs);
                }
                o["var"] = std::move(v);
                o["range"] = S(w->getRangeInit());
                o["body"] = S(w->getBody());
                break;
            }
            case Stmt::SwitchStmtClass: {
                auto *w = cast<SwitchStmt>(s);
                o["k"] = "Switch";
                if (w->getInit())
                    o["init"] = S(w->getInit());
                if (w->getConditionVariable())
                    o["cvar"] = var(w->getConditionVariable());
                o["cond"] = S(w->getCond());
                o["body"] = S(w->getBody());
                break;
            }
            case Stmt::CaseStmtClass: {
                auto *c = cast<CaseStmt>(s);
                o["k"] = "Case";
                o["e"] = S(c->getLHS());
                if (c->getRHS())
                    o["e2"] = S(c->getRHS());
                o["sub"] = S(c->getSubStmt());
                break;
            }
            case Stmt::DefaultStmtClass:
                o["k"] = "Default";
                o["sub"] = S(cast<DefaultStmt>(s)->getSubStmt());
                break;
            case Stmt::ReturnStmtClass:
                o["k"] = "Return";
                if (auto *e = cast<ReturnStmt>(s)->getRetValue())
                    o["e"] = S(e);
                break;
            case Stmt::BreakStmtClass: o["k"] = "Break"; break;
            case Stmt::ContinueStmtClass: o["k"] = "Continue"; break;
            case Stmt::NullStmtClass: o["k"] = "Null"; break;
            case Stmt::GotoStmtClass:
                o["k"] = "Goto";
                o["n"] = cast<GotoStmt>(s)->getLabel()->getNameAsString();
                break;
            case Stmt::LabelStmtClass:
                o["k"] = "Label";
                o["n"] = cast<LabelStmt>(s)->getDecl()->getNameAsString();
                o["sub"] = S(cast<LabelStmt>(s)->getSubStmt());
                break;
            case Stmt::CXXTryStmtClass: {
                auto *t = cast<CXXTryStmt>(s);
                o["k"] = "Try";
                o["body"] = S(t->getTryBlock());
                json::Array hs;
                for (unsigned i = 0; i < t->getNumHandlers(); i++) {
                    auto *h = t->getHandler(i);
                    O ho;
                    ho["l"] = line(h->getBeginLoc());
                    if (auto *d = h->getExceptionDecl()) {
                        ho["t"] = tid(d->getType());
                        ho["id"] = id(d);
                        ho["n"] = d->getNameAsString();
                    } else
                        ho["all"] = 1;
                    ho["body"] = S(h->getHandlerBlock());
                    hs.push_back(std::move(ho));
                }
                o["h"] = std::move(hs);
                break;
            }
            case Stmt::AttributedStmtClass: return S(cast<AttributedStmt>(s)->getSubStmt());
            default: {
                o["k"] = std::string("S:") + s->getStmtClassName();
                json::Array a;
                for (auto *c : s->children())
                    if (c)
                        a.push_back(S(c));
                o["c"] = std::move(a);
            }
        }
        return o;
    }

    void callee(O &o, const FunctionDecl *F)
    {
        o["fn"] = fnKey(F);
        o["n"] = qname(F);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["m"] = M->isConst() ? 2 : 1;
            if (M->isStatic())
                o["m"] = 3;
            if (M->isVirtual())
                o["virt"] = 1;
        }
        if (F->isNoReturn())
            o["nr"] = 1;
        // reference-to-nonconst / pointer params
        json::Array mp;
        for (unsigned i = 0; i < F->getNumParams(); i++) {
            QualType t = F->getParamDecl(i)->getType();
            int x = 0;
            if (t->isRValueReferenceType())
                x = 2;
            else if (t->isLValueReferenceType() && !t.getNonReferenceType().isConstQualified())
                x = 1;
            else if (t->isPointerType() && !t->getPointeeType().isConstQualified())
                x = 3;
            mp.push_back(x);
        }
        o["mp"] = std::move(mp);
    }

    V Ex(const Expr *E)
    {
        // strip noise
        for (;;) {
            if (auto *p = dyn_cast<ParenExpr>(E)) {
                E = p->getSubExpr();
                continue;
            }
            if (auto *p = dyn_cast<FullExpr>(E)) {
                if (isa<ConstantExpr>(E) && !E->isValueDependent()) {
                    E = p->getSubExpr();
                    continue;
                }
                E = p->getSubExpr();
                continue;
            }
            if (auto *p = dyn_cast<MaterializeTemporaryExpr>(E)) {
                E = p->getSubExpr();
                continue;
            }
            if (auto *p = dyn_cast<CXXBindTemporaryExpr>(E)) {
                E = p->getSubExpr();
                continue;
            }
            if (auto *p = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) {
                E = p->getReplacement();
                continue;
            }
            if (auto *p = dyn_cast<CXXRewrittenBinaryOperator>(E)) {
                E = p->getSemanticForm();
                continue;
            }
            if (auto *p = dyn_cast<CXXDefaultArgExpr>(E)) {
                E = p->getExpr();
                continue;
            }
            if (auto *p = dyn_cast<CXXDefaultInitExpr>(E)) {
                if (p->getExpr()) {
                    E = p->getExpr();
                    continue;
                }
            }
            if (auto *p = dyn_cast<ImplicitCastExpr>(E)) {
                switch (p->getCastKind()) {
                    case CK_NoOp:
                    case CK_LValueToRValue:
                    case CK_FunctionToPointerDecay:
                    case CK_ConstructorConversion:
                    case CK_UserDefinedConversion:
                    case CK_BuiltinFnToFnPtr:
                    case CK_UncheckedDerivedToBase:
                    case CK_DerivedToBase:
                    case CK_LValueBitCast: E = p->getSubExpr(); continue;
                    default: break;
                }
            }
            break;
        }
        O o;
        o["l"] = line(E->getBeginLoc());
        switch (E->getStmtClass()) {
            case Stmt::IntegerLiteralClass: {
                o["k"] = "Int";
                auto v = cast<IntegerLiteral>(E)->getValue();
                bool sgn = E->getType()->isSignedIntegerType();
                if (sgn || v.getActiveBits() < 64)
                    o["v"] = (int64_t)(sgn ? v.getSExtValue() : (int64_t)v.getZExtValue());
                else {
                    llvm::SmallString<32> s;
                    v.toStringUnsigned(s);
                    o["v"] = s.str().str();
                }
                o["t"] = tid(E->getType());
                return o;
            }
            case Stmt::CharacterLiteralClass:
                o["k"] = "Int";
                o["ch"] = 1;
                o["v"] = (int64_t)cast<CharacterLiteral>(E)->getValue();
                o["t"] = tid(E->getType());
                return o;
            case Stmt::CXXBoolLiteralExprClass:
                o["k"] = "Int";
                o["b"] = 1;
                o["v"] = (int64_t)cast<CXXBoolLiteralExpr>(E)->getValue();
                o["t"] = tid(E->getType());
                return o;
            case Stmt::FloatingLiteralClass: {
                o["k"] = "Float";
                o["v"] = cast<FloatingLiteral>(E)->getValueAsApproximateDouble();
                o["t"] = tid(E->getType());
                return o;
            }
            case Stmt::StringLiteralClass: {
                auto *sl = cast<StringLiteral>(E);
                o["k"] = "Str";
                if (sl->getCharByteWidth() == 1) {
                    std::string b = sl->getBytes().str();
                    o["v"] = json::isUTF8(b) ? b : json::fixUTF8(b);
                    o["len"] = (int64_t)b.size();
                }
                return o;
            }
            case Stmt::CXXNullPtrLiteralExprClass:
            case Stmt::GNUNullExprClass: o["k"] = "Null"; return o;
            case Stmt::PredefinedExprClass: o["k"] = "Str"; o["v"] = "__func__"; return o;
            default: break;
        }
        o["t"] = tid(E->getType());
        constVal(E, o);
        switch (E->getStmtClass()) {
            case Stmt::DeclRefExprClass: {
                auto *r = cast<DeclRefExpr>(E);
                auto *D = r->getDecl();
                o["k"] = "Ref";
                if (auto *P = dyn_cast<ParmVarDecl>(D)) {
                    o["dk"] = "parm";
                    o["id"] = id(P);
                    o["n"] = P->getNameAsString();
                } else if (auto *v = dyn_cast<VarDecl>(D)) {
                    if (v->isLocalVarDecl() && !v->isStaticLocal()) {
                        o["dk"] = "var";
                        o["id"] = id(v);
                        o["n"] = v->getNameAsString();
                    } else {
                        o["dk"] = v->isStaticLocal() ? "slocal" : "global";
                        o["gk"] = varKey(v);
                        o["id"] = id(v);
                        o["n"] = v->isStaticLocal() ? v->getNameAsString() : qname(v);
                    }
                } else if (auto *b = dyn_cast<BindingDecl>(D)) {
                    o["dk"] = "bind";
                    o["id"] = id(b);
                    o["n"] = b->getNameAsString();
                } else if (auto *ec = dyn_cast<EnumConstantDecl>(D)) {
                    o["dk"] = "enum";
                    o["n"] = qname(ec);
                } else if (auto *f = dyn_cast<FunctionDecl>(D)) {
                    o["dk"] = "func";
                    o["fn"] = fnKey(f);
                    o["n"] = qname(f);
                } else {
                    o["dk"] = "other";
                    o["n"] = qname(D);
                }
                if (r->refersToEnclosingVariableOrCapture())
                    o["cap"] = 1;
                return o;
            }
            case Stmt::MemberExprClass: {
                auto *m = cast<MemberExpr>(E);
                auto *D = m->getMemberDecl();
                if (auto *v = dyn_cast<VarDecl>(D)) {
                    o["k"] = "Ref";
                    o["dk"] = "global";
                    o["gk"] = varKey(v);
                    o["id"] = id(v);
                    o["n"] = qname(v);
                    return o;
                }
                o["k"] = "Member";
                o["f"] = D->getNameAsString();
                if (auto *fd = dyn_cast<FieldDecl>(D)) {
                    o["cls"] = recName(fd->getParent());
                    if (fd->isAnonymousStructOrUnion())
                        o["anon"] = 1;
                } else if (auto *md = dyn_cast<CXXMethodDecl>(D)) {
                    o["cls"] = recName(md->getParent());
                    o["fn"] = fnKey(md);
                } else if (auto *ec = dyn_cast<EnumConstantDecl>(D)) {
                    o["k"] = "Ref";
                    o["dk"] = "enum";
                    o["n"] = qname(ec);
                    return o;
                }
                if (m->isArrow())
                    o["arrow"] = 1;
                o["base"] = Ex(m->getBase());
                return o;
            }
            case Stmt::CXXThisExprClass: o["k"] = "This"; return o;
            case Stmt::CXXOperatorCallExprClass: {
                auto *c = cast<CXXOperatorCallExpr>(E);
                o["k"] = "Call";
                o["op"] = getOperatorSpelling(c->getOperator());
                if (auto *F = c->getDirectCallee())
                    callee(o, F);
                else
                    o["callee"] = Ex(c->getCallee());
                o["args"] = args(c->arg_begin(), c->arg_end());
                return o;
            }
            case Stmt::CXXMemberCallExprClass: {
                auto *c = cast<CXXMemberCallExpr>(E);
                o["k"] = "Call";
                if (auto *F = c->getMethodDecl()) {
                    callee(o, F);
                    if (auto *I = c->getImplicitObjectArgument())
                        o["obj"] = Ex(I);
                    if (auto *me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens())) {
                        if (me->hasQualifier())
                            o.erase("virt");
                        if (me->isArrow())
                            o["arrow"] = 1;
                    }
                } else
                    o["callee"] = Ex(c->getCallee());
                o["args"] = args(c->arg_begin(), c->arg_end());
                return o;
            }
            case Stmt::UserDefinedLiteralClass:
            case Stmt::CallExprClass: {
                auto *c = cast<CallExpr>(E);
                o["k"] = "Call";
                if (auto *F = c->getDirectCallee())
                    callee(o, F);
                else
                    o["callee"] = Ex(c->getCallee());
                o["args"] = args(c->arg_begin(), c->arg_end());
                return o;
            }
            case Stmt::CXXConstructExprClass:
            case Stmt::CXXTemporaryObjectExprClass: {
                auto *c = cast<CXXConstructExpr>(E);
                if (c->isElidable() && c->getNumArgs() == 1)
                    return Ex(c->getArg(0));
                o["k"] = "Construct";
                callee(o, c->getConstructor());
                if (c->getConstructor()->isCopyOrMoveConstructor())
                    o["copy"] = 1;
                o["cls"] = recName(c->getConstructor()->getParent());
                o["args"] = args(c->arg_begin(), c->arg_end());
                if (c->isListInitialization())
                    o["list"] = 1;
                return o;
            }
            case Stmt::CXXInheritedCtorInitExprClass: {
                auto *c = cast<CXXInheritedCtorInitExpr>(E);
                o["k"] = "Construct";
                callee(o, c->getConstructor());
                o["inh"] = 1;
                o["args"] = json::Array();
                return o;
            }
            case Stmt::BinaryOperatorClass:
            case Stmt::CompoundAssignOperatorClass: {
                auto *b = cast<BinaryOperator>(E);
                o["k"] = "Bin";
                o["op"] = b->getOpcodeStr().str();
                o["a"] = Ex(b->getLHS());
                o["b"] = Ex(b->getRHS());
                return o;
            }
            case Stmt::UnaryOperatorClass: {
                auto *u = cast<UnaryOperator>(E);
                o["k"] = "Un";
                std::string op = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
                if (u->isPostfix())
                    op = "p" + op;
                o["op"] = op;
                o["e"] = Ex(u->getSubExpr());
                return o;
            }
            case Stmt::ConditionalOperatorClass: {
                auto *c = cast<ConditionalOperator>(E);
                o["k"] = "Cond";
                o["cond"] = Ex(c->getCond());
                o["a"] = Ex(c->getTrueExpr());
                o["b"] = Ex(c->getFalseExpr());
                return o;
            }
            case Stmt::ArraySubscriptExprClass: {
                auto *a = cast<ArraySubscriptExpr>(E);
                o["k"] = "Index";
                o["base"] = Ex(a->getBase());
                o["idx"] = Ex(a->getIdx());
                return o;
            }
            case Stmt::LambdaExprClass: {
                auto *l = cast<LambdaExpr>(E);
                o["k"] = "Lambda";
                o["fn"] = fnKey(l->getCallOperator());
                if (auto *ft = l->getCallOperator()->getDescribedFunctionTemplate()) {
                    json::Array fns;
                    for (auto *sp : ft->specializations())
                        if (sp->getBody())
                            fns.push_back(fnKey(sp));
                    if (fns.size())
                        o["fns"] = std::move(fns);
                }
                json::Array caps;
                auto ii = l->capture_init_begin();
                for (auto &c : l->captures()) {
                    O co;
                    if (c.capturesThis())
                        co["this"] = 1;
                    else if (c.capturesVariable()) {
                        auto *v = c.getCapturedVar();
                        co["id"] = id(v);
                        co["n"] = v->getNameAsString();
                        co["ref"] = c.getCaptureKind() == LCK_ByRef ? 1 : 0;
                        if (auto *vd = dyn_cast<VarDecl>(v); vd && vd->isInitCapture() && vd->getInit())
                            co["init"] = Ex(vd->getInit());
                    }
                    ++ii;
                    caps.push_back(std::move(co));
                }
                o["caps"] = std::move(caps);
                return o;
            }
            case Stmt::InitListExprClass: {
                auto *i = cast<InitListExpr>(E);
                if (i->isSemanticForm() == false && i->getSemanticForm())
                    i = i->getSemanticForm();
                o["k"] = "Init";
                json::Array a;
                for (auto *x : i->inits())
                    a.push_back(x ? Ex(x) : V(nullptr));
                o["c"] = std::move(a);
                if (auto *rt = i->getType()->getAs<RecordType>()) {
                    json::Array fs;
                    if (auto *cr = dyn_cast<CXXRecordDecl>(rt->getDecl()))
                        for (auto &b : cr->bases())
                            fs.push_back("base:" + typeStr(b.getType()));
                    if (rt->getDecl()->isUnion()) {
                        if (auto *fd = i->getInitializedFieldInUnion())
                            fs.push_back(fd->getNameAsString());
                    } else
                        for (auto *fd : rt->getDecl()->fields())
                            fs.push_back(fd->getNameAsString());
                    o["fs"] = std::move(fs);
                    o["cls"] = recName(rt->getDecl());
                }
                return o;
            }
            case Stmt::CXXParenListInitExprClass: {
                auto *i = cast<CXXParenListInitExpr>(E);
                o["k"] = "Init";
                json::Array a;
                for (auto *x : i->getInitExprs())
                    a.push_back(Ex(x));
                o["c"] = std::move(a);
                return o;
            }
            case Stmt::CXXStdInitializerListExprClass: return Ex(cast<CXXStdInitializerListExpr>(E)->getSubExpr());
            case Stmt::ImplicitValueInitExprClass:
            case Stmt::CXXScalarValueInitExprClass: o["k"] = "Zero"; return o;
            case Stmt::UnaryExprOrTypeTraitExprClass: {
                auto *u = cast<UnaryExprOrTypeTraitExpr>(E);
                o["k"] = "SizeOf";
                o["of"] = tid(u->getTypeOfArgument());
                return o;
            }
            case Stmt::CXXNewExprClass: {
                auto *n = cast<CXXNewExpr>(E);
                o["k"] = "New";
                if (n->isArray() && n->getArraySize())
                    o["n"] = Ex(*n->getArraySize());
                json::Array pa;
                for (unsigned i = 0; i < n->getNumPlacementArgs(); i++)
                    pa.push_back(Ex(n->getPlacementArg(i)));
                o["place"] = std::move(pa);
                if (n->getInitializer())
                    o["init"] = Ex(n->getInitializer());
                return o;
            }
            case Stmt::CXXDeleteExprClass:
                o["k"] = "Delete";
                o["e"] = Ex(cast<CXXDeleteExpr>(E)->getArgument());
                return o;
            case Stmt::CXXThrowExprClass:
                o["k"] = "Throw";
                if (auto *x = cast<CXXThrowExpr>(E)->getSubExpr())
                    o["e"] = Ex(x);
                return o;
            case Stmt::ImplicitCastExprClass:
            case Stmt::CStyleCastExprClass:
            case Stmt::CXXStaticCastExprClass:
            case Stmt::CXXFunctionalCastExprClass:
            case Stmt::CXXReinterpretCastExprClass:
            case Stmt::CXXConstCastExprClass:
            case Stmt::CXXDynamicCastExprClass:
            case Stmt::BuiltinBitCastExprClass: {
                auto *c = cast<CastExpr>(E);
                bool expl = !isa<ImplicitCastExpr>(E);
                auto ck = c->getCastKind();
                if (expl && (ck == CK_ConstructorConversion || ck == CK_UserDefinedConversion))
                    return Ex(c->getSubExpr());
                o["k"] = "Cast";
                o["ck"] = c->getCastKindName();
                if (expl)
                    o["x"] = 1;
                if (isa<CXXReinterpretCastExpr>(E))
                    o["ri"] = 1;
                // source type: skip the implicit lvalue-to-rvalue
                o["from"] = tid(c->getSubExpr()->getType());
                o["e"] = Ex(c->getSubExpr());
                return o;
            }
            case Stmt::OpaqueValueExprClass:
                if (cast<OpaqueValueExpr>(E)->getSourceExpr())
                    return Ex(cast<OpaqueValueExpr>(E)->getSourceExpr());
                break;
            case Stmt::ArrayInitLoopExprClass: {
                o["k"] = "ArrCopy";
                o["e"] = Ex(cast<ArrayInitLoopExpr>(E)->getCommonExpr());
                return o;
            }
            case Stmt::CXXPseudoDestructorExprClass: o["k"] = "PseudoDtor"; return o;
            case Stmt::CXXTypeidExprClass: o["k"] = "TypeId"; return o;
            case Stmt::CXXFoldExprClass: o["k"] = "Fold"; return o;
            default: break;
        }
        o["k"] = std::string("X:") + E->getStmtClassName();
        json::Array a;
        for (auto *c : E->children())
            if (c)
                a.push_back(S(c));
        o["c"] = std::move(a);
        return o;
    }

    void emit(O o) { OS << V(std::move(o)) << "\n"; }

    bool dep(const DeclContext *DC) { return DC->isDependentContext(); }

    bool VisitFunctionDecl(FunctionDecl *F)
    {
        if (!F->doesThisDeclarationHaveABody() || F->isDependentContext())
            return true;
        if (F->isDefaulted() && !F->isUserProvided())
            return true;
        std::string rel;
        if (!firstParty(F->getLocation(), &rel))
            return true;
        std::string key = fnKey(F);
        if (!seenFns.insert(key).second)
            return true;
        nfn++;
        O o;
        o["k"] = "fn";
        o["key"] = key;
        o["n"] = qname(F);
        o["f"] = rel;
        o["l"] = line(F->getLocation());
        o["le"] = line(F->getEndLoc());
        o["ret"] = tid(F->getReturnType());
        if (F->isTemplateInstantiation())
            o["inst"] = 1;
        if (!F->isExternallyVisible())
            o["int"] = 1;
        json::Array ps;
        for (auto *p : F->parameters()) {
            O po;
            po["id"] = id(p);
            po["n"] = p->getNameAsString();
            po["t"] = tid(p->getType());
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = recName(M->getParent());
            if (M->isConst())
                o["const"] = 1;
            if (M->isStatic())
                o["smeth"] = 1;
            if (M->isVirtual())
                o["virt"] = 1;
            if (M->getParent()->isLambda()) {
                o["lambda"] = 1;
                const DeclContext *DC = M->getParent()->getDeclContext();
                while (DC && !isa<FunctionDecl>(DC))
                    DC = DC->getParent();
                if (DC)
                    o["in"] = fnKey(cast<FunctionDecl>(DC));
            }
            json::Array ov;
            for (auto *x : M->overridden_methods())
                ov.push_back(fnKey(x));
            if (ov.size())
                o["over"] = std::move(ov);
        }
        if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
            o["ctor"] = 1;
            json::Array in;
            for (auto *i : K->inits()) {
                O io;
                if (i->isMemberInitializer())
                    io["f"] = i->getMember()->getNameAsString();
                else if (i->isIndirectMemberInitializer())
                    io["f"] = i->getIndirectMember()->getNameAsString();
                else if (i->isBaseInitializer())
                    io["base"] = typeStr(QualType(i->getBaseClass(), 0));
                else
                    io["deleg"] = 1;
                if (i->isWritten())
                    io["w"] = 1;
                io["l"] = line(i->getSourceLocation());
                if (i->getInit())
                    io["e"] = S(i->getInit());
                in.push_back(std::move(io));
            }
            o["inits"] = std::move(in);
        }
        if (isa<CXXDestructorDecl>(F))
            o["dtor"] = 1;
        o["body"] = S(F->getBody());
        emit(std::move(o));
        return true;
    }
    bool VisitLambdaExpr(LambdaExpr *l)
    {
        if (auto *ft = l->getCallOperator()->getDescribedFunctionTemplate()) {
            for (auto *sp : ft->specializations())
                if (sp->getBody() && !sp->isDependentContext()) {
                    VisitFunctionDecl(sp);
                    TraverseStmt(sp->getBody());
                }
        } else if (!l->getCallOperator()->isDependentContext() && l->getCallOperator()->getBody())
            VisitFunctionDecl(l->getCallOperator());
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R)
    {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isInvalidDecl())
            return true;
        std::string rel;
        if (!firstParty(R->getLocation(), &rel))
            return true;
        if (R->isLambda())
            return true;
        if (!seenRec.insert(R->getCanonicalDecl()).second)
            return true;
        O o;
        o["k"] = "rec";
        o["n"] = recName(R);
        o["f"] = rel;
        o["l"] = line(R->getLocation());
        if (R->isUnion())
            o["union"] = 1;
        if (!R->isCompleteDefinition())
            return true;
        const ASTRecordLayout &L = C.getASTRecordLayout(R);
        o["size"] = (int64_t)L.getSize().getQuantity();
        json::Array fs;
        unsigned i = 0;
        for (auto *f : R->fields()) {
            O fo;
            fo["n"] = f->getNameAsString();
            fo["t"] = tid(f->getType());
            fo["off"] = (int64_t)(L.getFieldOffset(i) / 8);
            if (!f->getType()->isIncompleteType() && !f->getType()->isReferenceType())
                fo["size"] = (int64_t)C.getTypeSizeInChars(f->getType()).getQuantity();
            if (f->isBitField())
                fo["bits"] = (int64_t)f->getBitWidthValue(C);
            if (f->isMutable())
                fo["mutable"] = 1;
            if (f->hasInClassInitializer() && f->getInClassInitializer())
                fo["init"] = S(f->getInClassInitializer());
            fs.push_back(std::move(fo));
            i++;
        }
        o["fields"] = std::move(fs);
        json::Array bs;
        for (auto &b : R->bases()) {
            O bo;
            bo["n"] = typeStr(b.getType());
            if (!b.isVirtual())
                if (auto *br = b.getType()->getAsCXXRecordDecl())
                    bo["off"] = (int64_t)L.getBaseClassOffset(br).getQuantity();
            bs.push_back(std::move(bo));
        }
        o["bases"] = std::move(bs);
        json::Array ms;
        for (auto *m : R->methods()) {
            if (m->isImplicit())
                continue;
            O mo;
            mo["n"] = m->getNameAsString();
            mo["key"] = m->isDependentContext() ? std::string("") : fnKey(m);
            if (m->isVirtual())
                mo["virt"] = 1;
            if (m->isPureVirtual())
                mo["pure"] = 1;
            json::Array ov;
            for (auto *x : m->overridden_methods())
                ov.push_back(fnKey(x));
            if (ov.size())
                mo["over"] = std::move(ov);
            ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
        emit(std::move(o));
        return true;
    }
    bool VisitEnumDecl(EnumDecl *D)
    {
        std::string rel;
        if (!D->isThisDeclarationADefinition() || D->isDependentContext() || !firstParty(D->getLocation(), &rel))
            return true;
        O o;
        o["k"] = "enum";
        o["n"] = typeStr(C.getEnumType(D));
        o["f"] = rel;
        o["l"] = line(D->getLocation());
        o["u"] = tid(D->getIntegerType());
        json::Array es;
        for (auto *e : D->enumerators()) {
            O eo;
            eo["n"] = e->getNameAsString();
            eo["q"] = qname(e);
            auto v = e->getInitVal();
            if (v.isRepresentableByInt64())
                eo["v"] = v.getExtValue();
            else
                eo["v"] = (int64_t)v.getZExtValue();
            es.push_back(std::move(eo));
        }
        o["e"] = std::move(es);
        emit(std::move(o));
        return true;
    }
    bool VisitVarDecl(VarDecl *D)
    {
        if (isa<ParmVarDecl>(D) || D->isLocalVarDecl() && !D->isStaticLocal())
            return true;
        if (D->getDeclContext()->isDependentContext() || D->isInvalidDecl())
            return true;
        std::string rel;
        if (!firstParty(D->getLocation(), &rel))
            return true;
        if (!D->isThisDeclarationADefinition())
            return true;
        if (!seenVar.insert(D).second)
            return true;
        O o;
        o["k"] = "var";
        o["key"] = varKey(D);
        o["n"] = D->isStaticLocal() ? D->getNameAsString() : qname(D);
        o["f"] = rel;
        o["l"] = line(D->getLocation());
        o["t"] = tid(D->getType());
        if (D->isStaticLocal()) {
            o["slocal"] = 1;
            const DeclContext *DC = D->getDeclContext();
            while (DC && !isa<FunctionDecl>(DC))
                DC = DC->getParent();
            if (DC)
                o["in"] = fnKey(cast<FunctionDecl>(DC));
        }
        if (D->getTLSKind() != VarDecl::TLS_None)
            o["tls"] = 1;
        if (D->getType().isConstQualified())
            o["const"] = 1;
        if (D->isConstexpr())
            o["cx"] = 1;
        if (D->isExternallyVisible())
            o["ext"] = 1;
        if (!D->getType()->isDependentType() && D->getInit() && !D->getInit()->isValueDependent())
            o["init"] = S(D->getInit());
        emit(std::move(o));
        return true;
    }
};

struct Consumer : ASTConsumer {
    CompilerInstance &CI;
    std::string in;
    Consumer(CompilerInstance &CI, std::string in) : CI(CI), in(std::move(in)) {}
    void HandleTranslationUnit(ASTContext &C) override
    {
        std::error_code ec;
        llvm::raw_fd_ostream os(OutPath, ec);
        if (ec) {
            llvm::errs() << "cannot write " << OutPath << "\n";
            exit(3);
        }
        Dumper d(C, os);
        d.TraverseDecl(C.getTranslationUnitDecl());
        json::Object o;
        o["k"] = "tu";
        o["in"] = in;
        o["errors"] = (int64_t)CI.getDiagnostics().getClient()->getNumErrors();
        o["fns"] = d.nfn;
        json::Array ts;
        for (auto &t : d.types)
            ts.push_back(json::isUTF8(t) ? t : json::fixUTF8(t));
        o["types"] = std::move(ts);
        os << json::Value(std::move(o)) << "\n";
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef f) override
    {
        return std::make_unique<Consumer>(CI, f.str());
    }
};

int main(int argc, const char **argv)
{
    // extract ROOT OUT FILE -- flags...
    if (argc < 5) {
        llvm::errs() << "usage\n";
        return 2;
    }
    Root = argv[1];
    if (Root.back() != '/')
        Root += '/';
    OutPath = argv[2];
    std::string file = argv[3];
    std::vector<std::string> flags;
    for (int i = 5; i < argc; i++)
        flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", flags);
    tooling::ClangTool T(DB, {file});
    int r = T.run(tooling::newFrontendActionFactory<Action>().get());
    (void)r; // error count is in the tu record
    return 0;
}
