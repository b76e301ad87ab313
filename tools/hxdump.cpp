// hxdump: clang (18) front-end exporter.
//
// Parses one translation unit and writes a JSON program model of everything that is
// defined under a given source root: functions (with their full typed syntax tree and
// their control-flow graph, implicit destructors included), classes (fields, special
// members, lambda captures), enumerations and variables with initialisers.
// It decides nothing; the rules live in Python.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <unordered_map>
#include <set>
#include <string>
#include <vector>
using namespace clang;

static std::string gRoot;   // only declarations below this directory are exported
static std::string gOut;

static std::string jesc(llvm::StringRef s) {
    std::string o; o.reserve(s.size() + 2); o += '"';
    for (unsigned char c : s) {
        switch (c) {
        case '"': o += "\\\""; break;
        case '\\': o += "\\\\"; break;
        case '\n': o += "\\n"; break;
        case '\r': o += "\\r"; break;
        case '\t': o += "\\t"; break;
        default:
            if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
            else o += (char)c;
        }
    }
    o += '"'; return o;
}

struct Dumper {
    ASTContext& C; SourceManager& SM; PrintingPolicy PP;
    std::unordered_map<const Decl*, int> declIds;
    std::unordered_map<std::string, int> strIds; std::vector<std::string> strs;
    std::map<std::string, std::string> out;
    std::vector<std::string> fnsOut, clsOut, enumOut, varOut;
    std::set<const Decl*> seenFn, seenCls, seenVar, seenEnum;
    std::vector<const FunctionDecl*> fnQueue; size_t fnPos = 0;

    Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.Bool = true;
    }
    int did(const Decl* d) {
        d = d->getCanonicalDecl();
        auto [it, n] = declIds.try_emplace(d, (int)declIds.size() + 1); return it->second;
    }
    int sid(const std::string& s) {
        auto [it, n] = strIds.try_emplace(s, (int)strs.size());
        if (n) strs.push_back(s);
        return it->second;
    }
    int tyid(QualType t) {
        if (t.isNull()) return sid("");
        static std::unordered_map<void*, int> cache;
        auto [it, n] = cache.try_emplace(t.getCanonicalType().getAsOpaquePtr(), 0);
        if (n) it->second = sid(t.getCanonicalType().getAsString(PP));
        return it->second;
    }
    std::string fileOf(SourceLocation l) {
        if (l.isInvalid()) return "";
        auto e = SM.getFileLoc(l);
        auto f = SM.getFilename(e); return f.str();
    }
    unsigned lineOf(SourceLocation l) { return l.isInvalid() ? 0 : SM.getExpansionLineNumber(l); }
    SourceLocation declLoc(const Decl* d) {
        if (auto* r = dyn_cast<CXXRecordDecl>(d)) if (auto* p = r->getTemplateInstantiationPattern()) return p->getLocation();
        return d->getLocation();
    }
    bool inRoot(const Decl* d) {
        auto l = declLoc(d); if (l.isInvalid()) return false;
        auto f = fileOf(l); 
        return llvm::StringRef(f).starts_with(gRoot);
    }
    std::string qn(const NamedDecl* d) {
        std::string s; llvm::raw_string_ostream os(s);
        d->printQualifiedName(os, PP); return os.str();
    }
    // qualified name without template arguments: stable anchor
    std::string pn(const Decl* d) {
        std::string s;
        std::vector<std::string> parts;
        const Decl* cur = d;
        while (cur) {
            if (auto nd = dyn_cast<NamedDecl>(cur)) {
                std::string nm;
                if (auto rd = dyn_cast<CXXRecordDecl>(cur); rd && rd->isLambda()) nm = "(lambda)";
                else if (isa<CXXConstructorDecl>(nd)) nm = "(ctor)";
                else if (isa<CXXDestructorDecl>(nd)) nm = "(dtor)";
                else if (auto cd = dyn_cast<CXXConversionDecl>(nd)) { (void)cd; nm = "operator " + cd->getConversionType().getAsString(PP); }
                else { nm = nd->getDeclName().isIdentifier() ? nd->getName().str() : nd->getNameAsString(); }
                if (nm.empty()) nm = "(anon)";
                if (auto ns = dyn_cast<NamespaceDecl>(nd); !(ns && ns->isInline()))
                    parts.push_back(nm);
            }
            auto dc = cur->getDeclContext();
            if (!dc || dc->isTranslationUnit()) break;
            cur = Decl::castFromDeclContext(dc);
            if (isa<TranslationUnitDecl>(cur)) break;
        }
        for (size_t i = parts.size(); i-- > 0;) { s += parts[i]; if (i) s += "::"; }
        return s;
    }

    // ---------------------------------------------------------------- function bodies
    struct FnCtx {
        std::unordered_map<const Stmt*, int> ids;
        std::vector<std::string> nodes;   // rendered
    };

    std::string declInfoVar(FnCtx& F, const VarDecl* v) {
        std::string s = "{\"id\":" + std::to_string(did(v)) + ",\"n\":" + jesc(v->getNameAsString())
            + ",\"t\":" + std::to_string(tyid(v->getType()));
        if (v->isStaticLocal()) s += ",\"static\":1";
        if (v->isConstexpr()) s += ",\"cx\":1";
        if (v->getTLSKind() != VarDecl::TLS_None) s += ",\"tls\":1";
        if (v->getInit()) s += ",\"i\":" + std::to_string(node(F, v->getInit()));
        if (auto dd = dyn_cast<DecompositionDecl>(v)) {
            s += ",\"b\":[";
            bool first = true;
            for (auto* b : dd->bindings()) {
                if (!first) s += ","; first = false;
                s += "[" + std::to_string(did(b)) + "," + jesc(b->getNameAsString());
                if (b->getBinding()) s += "," + std::to_string(node(F, b->getBinding()));
                s += "]";
            }
            s += "]";
        }
        s += "}"; return s;
    }
    std::string apval(const APValue& v, int depth = 0) {
        if (depth > 6) return "null";
        switch (v.getKind()) {
        case APValue::Int: { llvm::SmallString<32> b; v.getInt().toString(b, 10); return std::string(b); }
        case APValue::Array: {
            std::string s = "["; unsigned n = v.getArraySize();
            if (n > 4096) return "null";
            for (unsigned i = 0; i < n; ++i) {
                if (i) s += ",";
                s += i < v.getArrayInitializedElts() ? apval(v.getArrayInitializedElt(i), depth + 1)
                     : v.hasArrayFiller() ? apval(v.getArrayFiller(), depth + 1) : "null";
            }
            return s + "]"; }
        case APValue::Struct: {
            std::string s = "{\"s\":[";
            for (unsigned i = 0; i < v.getStructNumFields(); ++i) { if (i) s += ","; s += apval(v.getStructField(i), depth + 1); }
            return s + "]}"; }
        case APValue::LValue: {
            auto b = v.getLValueBase();
            if (auto e = b.dyn_cast<const Expr*>())
                if (auto sl = dyn_cast<StringLiteral>(e)) return jesc(sl->getBytes());
            return "null"; }
        default: return "null";
        }
    }

    int node(FnCtx& F, const Stmt* s) {
        if (!s) return -1;
        if (auto it = F.ids.find(s); it != F.ids.end()) return it->second;
        int id = (int)F.nodes.size(); F.ids[s] = id; F.nodes.push_back("");
        std::string o = "{\"k\":" + std::to_string(sid(s->getStmtClassName()));
        std::vector<const Stmt*> kids; bool defaultKids = true;
        std::string extra;
        auto add = [&](const char* k, const std::string& v) { extra += std::string(",\"") + k + "\":" + v; };
        if (auto e = dyn_cast<Expr>(s)) {
            o += ",\"t\":" + std::to_string(tyid(e->getType()));
            if (e->isLValue()) o += ",\"lv\":1";
            if (!e->isValueDependent() && !e->isTypeDependent() && e->isPRValue()
                && (e->getType()->isIntegralOrEnumerationType())
                && !isa<IntegerLiteral>(e) && !isa<CXXBoolLiteralExpr>(e) && !isa<CharacterLiteral>(e)) {
                Expr::EvalResult R;
                if (e->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
                    llvm::SmallString<32> b; R.Val.getInt().toString(b, 10); add("cv", std::string(b));
                }
            }
        }
        o += ",\"l\":" + std::to_string(lineOf(s->getBeginLoc()));
        if (auto x = dyn_cast<DeclRefExpr>(s)) {
            auto d = x->getDecl();
            add("d", std::to_string(did(d)));
            add("n", std::to_string(sid(pn(d))));
            add("dk", std::to_string(sid(d->getDeclKindName())));
            if (auto bd = dyn_cast<BindingDecl>(d); bd && bd->getBinding()) add("bind", std::to_string(node(F, bd->getBinding())));
            if (auto fd = dyn_cast<FunctionDecl>(d)) want(fd);
            if (auto vd = dyn_cast<VarDecl>(d)) { if (vd->hasGlobalStorage() && inRoot(vd)) wantVar(vd); }
            if (x->refersToEnclosingVariableOrCapture()) add("cap", "1");
        } else if (auto x = dyn_cast<MemberExpr>(s)) {
            auto d = x->getMemberDecl();
            add("d", std::to_string(did(d)));
            add("n", std::to_string(sid(pn(d))));
            add("m", std::to_string(sid(d->getNameAsString())));
            if (x->isArrow()) add("ar", "1");
            if (auto fd = dyn_cast<FunctionDecl>(d)) want(fd);
        } else if (auto x = dyn_cast<BinaryOperator>(s)) {
            add("op", jesc(x->getOpcodeStr()));
        } else if (auto x = dyn_cast<UnaryOperator>(s)) {
            std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if (x->isPostfix()) op = "post" + op;
            add("op", jesc(op));
        } else if (auto x = dyn_cast<IntegerLiteral>(s)) {
            llvm::SmallString<32> b; x->getValue().toString(b, 10, x->getType()->isSignedIntegerType()); add("v", std::string(b));
        } else if (auto x = dyn_cast<CharacterLiteral>(s)) {
            add("v", std::to_string(x->getValue()));
        } else if (auto x = dyn_cast<CXXBoolLiteralExpr>(s)) {
            add("v", x->getValue() ? "1" : "0");
        } else if (auto x = dyn_cast<StringLiteral>(s)) {
            add("v", jesc(x->getBytes()));
        } else if (auto x = dyn_cast<FloatingLiteral>(s)) {
            add("v", std::to_string(x->getValueAsApproximateDouble()));
        } else if (auto x = dyn_cast<CastExpr>(s)) {
            add("ck", std::to_string(sid(x->getCastKindName())));
            if (isa<ExplicitCastExpr>(x)) add("ex", "1");
            if (auto cf = x->getConversionFunction()) { if (auto f = dyn_cast<FunctionDecl>(cf)) { add("fn", std::to_string(did(f))); want(f);} }
        } else if (auto x = dyn_cast<CXXConstructExpr>(s)) {
            auto cd = x->getConstructor();
            add("fn", std::to_string(did(cd))); add("n", std::to_string(sid(pn(cd)))); want(cd);
            if (cd->isCopyConstructor()) add("cpy", "1");
            if (cd->isMoveConstructor()) add("mov", "1");
            if (x->isElidable()) add("el", "1");
            if (isa<CXXInheritedCtorInitExpr>(s)) {}
            noexceptInfo(cd, add);
        } else if (auto x = dyn_cast<CXXNewExpr>(s)) {
            if (x->isArray()) add("arr", "1");
            add("npl", std::to_string(x->getNumPlacementArgs()));
            add("at", std::to_string(tyid(x->getAllocatedType())));
        } else if (auto x = dyn_cast<CXXDeleteExpr>(s)) {
            if (x->isArrayForm()) add("arr", "1");
        } else if (auto x = dyn_cast<LambdaExpr>(s)) {
            defaultKids = false;
            for (auto* i : x->capture_inits()) kids.push_back(i);
            auto* rd = x->getLambdaClass();
            add("cls", std::to_string(did(rd))); wantCls(rd);
            if (auto* op = x->getCallOperator()) { add("fn", std::to_string(did(op))); want(op); }
            std::string caps = "[";
            bool first = true;
            for (auto& c : x->captures()) {
                if (!first) caps += ","; first = false;
                std::string k = c.capturesThis() ? (c.getCaptureKind() == LCK_StarThis ? "*this" : "this")
                    : c.capturesVariable() ? (c.getCaptureKind() == LCK_ByRef ? "ref" : "copy") : "vla";
                caps += "[" + jesc(k);
                if (c.capturesVariable()) caps += "," + std::to_string(did(c.getCapturedVar())) + "," + jesc(c.getCapturedVar()->getNameAsString());
                caps += "]";
            }
            add("caps", caps + "]");
        } else if (auto x = dyn_cast<DeclStmt>(s)) {
            defaultKids = false;
            std::string v = "[";
            bool first = true;
            for (auto* d : x->decls()) if (auto vd = dyn_cast<VarDecl>(d)) {
                if (!first) v += ","; first = false;
                v += declInfoVar(F, vd);
                if (vd->getInit()) kids.push_back(vd->getInit());
            }
            add("vars", v + "]");
        } else if (auto x = dyn_cast<CXXCatchStmt>(s)) {
            if (x->getExceptionDecl()) { add("vars", "[" + declInfoVar(F, x->getExceptionDecl()) + "]"); add("ct", std::to_string(tyid(x->getCaughtType()))); }
            else add("ca", "1");
        } else if (auto x = dyn_cast<CaseStmt>(s)) {
            (void)x;
        } else if (auto x = dyn_cast<IfStmt>(s)) {
            if (x->isConstexpr()) add("cx", "1");
            add("cond", std::to_string(node(F, x->getCond())));
            add("then", std::to_string(node(F, x->getThen())));
            if (x->getElse()) add("else", std::to_string(node(F, x->getElse())));
        } else if (auto x = dyn_cast<WhileStmt>(s)) {
            add("cond", std::to_string(node(F, x->getCond()))); add("body", std::to_string(node(F, x->getBody())));
        } else if (auto x = dyn_cast<DoStmt>(s)) {
            add("cond", std::to_string(node(F, x->getCond()))); add("body", std::to_string(node(F, x->getBody())));
        } else if (auto x = dyn_cast<ForStmt>(s)) {
            if (x->getInit()) add("init", std::to_string(node(F, x->getInit())));
            if (x->getCond()) add("cond", std::to_string(node(F, x->getCond())));
            if (x->getInc()) add("inc", std::to_string(node(F, x->getInc())));
            add("body", std::to_string(node(F, x->getBody())));
        } else if (auto x = dyn_cast<CXXForRangeStmt>(s)) {
            add("range", std::to_string(node(F, x->getRangeInit()))); add("body", std::to_string(node(F, x->getBody())));
        } else if (auto x = dyn_cast<CXXTryStmt>(s)) {
            add("try", std::to_string(node(F, x->getTryBlock())));
            std::string h = "[";
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) { if (i) h += ","; h += std::to_string(node(F, x->getHandler(i))); }
            add("h", h + "]");
        } else if (auto x = dyn_cast<SwitchStmt>(s)) {
            add("cond", std::to_string(node(F, x->getCond())));
        } else if (auto x = dyn_cast<CoroutineSuspendExpr>(s)) {
            defaultKids = false;
            if (x->getOperand()) kids.push_back(x->getOperand());
            if (auto* r = x->getResumeExpr()) if (auto* ce = dyn_cast<CallExpr>(r->IgnoreImplicit())) if (auto* fd = ce->getDirectCallee()) { want(fd); add("resume", std::to_string(did(fd))); add("resumen", std::to_string(sid(pn(fd)))); }
            if (auto* r = x->getSuspendExpr()) calleeScan(r, "suspend", add);
            if (auto* r = x->getReadyExpr()) calleeScan(r, "ready", add);
            if (auto* cm = x->getCommonExpr()) { // operator co_await / await_transform calls
                collectCallees(cm, x->getOperand(), add);
            }
        } else if (auto x = dyn_cast<CoreturnStmt>(s)) {
            defaultKids = false;
            if (x->getOperand()) kids.push_back(x->getOperand());
            if (x->getPromiseCall()) calleeScan(x->getPromiseCall(), "pcall", add);
        } else if (auto x = dyn_cast<SizeOfPackExpr>(s)) {
            (void)x;
        } else if (auto x = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
            if (x->isArgumentType()) add("at", std::to_string(tyid(x->getArgumentType())));
            else add("at", std::to_string(tyid(x->getArgumentExpr()->getType())));
        } else if (auto x = dyn_cast<CXXDefaultArgExpr>(s)) {
            kids.push_back(x->getExpr()); defaultKids = false;
        } else if (auto x = dyn_cast<CXXDefaultInitExpr>(s)) {
            kids.push_back(x->getExpr()); defaultKids = false;
        } else if (auto x = dyn_cast<OpaqueValueExpr>(s)) {
            if (x->getSourceExpr()) kids.push_back(x->getSourceExpr()); defaultKids = false;
        } else if (auto x = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) {
            kids.push_back(x->getReplacement()); defaultKids = false;
        } else if (auto x = dyn_cast<CXXDependentScopeMemberExpr>(s)) {
            add("m", std::to_string(sid(x->getMember().getAsString())));
        } else if (auto x = dyn_cast<UnresolvedLookupExpr>(s)) {
            add("m", std::to_string(sid(x->getName().getAsString())));
        } else if (auto x = dyn_cast<UnresolvedMemberExpr>(s)) {
            add("m", std::to_string(sid(x->getMemberName().getAsString())));
        } else if (auto x = dyn_cast<CXXThrowExpr>(s)) {
            if (x->getSubExpr()) add("tt", std::to_string(tyid(x->getSubExpr()->getType())));
        }
        if (auto x = dyn_cast<CallExpr>(s)) {
            const FunctionDecl* fd = x->getDirectCallee();
            if (fd) {
                add("fn", std::to_string(did(fd))); add("n", std::to_string(sid(pn(fd)))); want(fd);
                noexceptInfo(fd, add);
                if (fd->isNoReturn()) add("nr", "1");
                if (auto* ta = fd->getTemplateSpecializationArgs()) {
                    std::string l; 
                    for (unsigned i = 0; i < ta->size(); ++i) {
                        auto& a = ta->get(i);
                        auto one = [&](const TemplateArgument& b) { if (b.getKind() == TemplateArgument::Integral) { if (!l.empty()) l += ","; llvm::SmallString<24> sv; b.getAsIntegral().toString(sv, 10); l += sv.str().str(); } };
                        if (a.getKind() == TemplateArgument::Pack) for (auto& b : a.pack_elements()) one(b); else one(a);
                    }
                    if (!l.empty()) add("ta", "[" + l + "]");
                }
                if (auto md = dyn_cast<CXXMethodDecl>(fd)) {
                    if (md->isConst()) add("cm", "1");
                    if (md->isVirtual()) add("virt", "1");
                    if (md->isStatic()) add("st", "1");
                    if (auto oc = dyn_cast<CXXOperatorCallExpr>(s)) { (void)oc; add("oo", "1"); }
                } else if (isa<CXXOperatorCallExpr>(s)) add("oo", "2");
            }
            if (auto oc = dyn_cast<CXXOperatorCallExpr>(s)) add("op", jesc(getOperatorSpelling(oc->getOperator())));
            if (auto pd = dyn_cast<CXXPseudoDestructorExpr>(x->getCallee())) { (void)pd; add("pd", "1"); }
        }
        if (defaultKids) for (auto* c : s->children()) kids.push_back(c);
        std::string ks;
        bool any = false;
        for (auto* c : kids) { if (!c) continue; int k = node(F, c); if (any) ks += ","; ks += std::to_string(k); any = true; }
        if (any) o += ",\"c\":[" + ks + "]";
        o += extra; o += "}";
        F.nodes[id] = o;
        return id;
    }
    template <class A> void noexceptInfo(const FunctionDecl* fd, A& add) {
        if (auto* pt = fd->getType()->getAs<FunctionProtoType>()) {
            auto es = pt->getExceptionSpecType();
            if (es == EST_Unevaluated || es == EST_Uninstantiated) { if (isa<CXXDestructorDecl>(fd)) add("ne", "1"); return; }
            if (pt->isNothrow()) add("ne", "1");
        }
    }
    template <class A> void calleeScan(const Stmt* s, const char* nm, A& add) {
        // first direct callee under s whose name is await_* / return_* / yield_value
        const FunctionDecl* best = nullptr;
        std::vector<const Stmt*> st{s};
        while (!st.empty()) {
            auto* c = st.back(); st.pop_back(); if (!c) continue;
            if (auto* ce = dyn_cast<CallExpr>(c)) if (auto* fd = ce->getDirectCallee()) {
                if (fd->getDeclName().isIdentifier()) {
                    auto n = fd->getName();
                    if (n.starts_with("await_") || n.starts_with("return_") || n == "yield_value") best = fd;
                }
            }
            for (auto* k : c->children()) st.push_back(k);
        }
        if (best) { want(best); add(nm, std::to_string(did(best))); add((std::string(nm) + "n").c_str(), std::to_string(sid(pn(best)))); }
    }
    template <class A> void collectCallees(const Stmt* s, const Stmt* stop, A& add) {
        const FunctionDecl* op = nullptr;
        std::vector<const Stmt*> st{s};
        while (!st.empty()) {
            auto* c = st.back(); st.pop_back(); if (!c || c == stop) continue;
            if (auto* ce = dyn_cast<CallExpr>(c)) if (auto* fd = ce->getDirectCallee()) { want(fd); if (!op) op = fd; }
            for (auto* k : c->children()) st.push_back(k);
        }
        if (op) { add("opco", std::to_string(did(op))); }
    }

    void want(const FunctionDecl* fd) {
        const FunctionDecl* def = nullptr;
        if (fd->isDependentContext()) return;
        if (!fd->hasBody(def) || !def) return;
        if (!inRoot(def)) return;
        if (seenFn.insert(def).second) fnQueue.push_back(def);
    }
    void wantCls(const CXXRecordDecl* rd) { if (rd && seenCls.insert(rd->getCanonicalDecl()).second) dumpCls(rd); }
    std::vector<const VarDecl*> varQueue;
    void wantVar(const VarDecl* vd) { if (seenVar.insert(vd->getCanonicalDecl()).second) varQueue.push_back(vd); }

    std::string elem(FnCtx& F, const CFGElement& E) {
        switch (E.getKind()) {
        case CFGElement::Statement: case CFGElement::Constructor: case CFGElement::CXXRecordTypedCall: {
            auto* st = E.castAs<CFGStmt>().getStmt();
            return std::to_string(node(F, st)); }
        case CFGElement::Initializer: {
            auto* i = E.castAs<CFGInitializer>().getInitializer();
            std::string s = "[\"init\",";
            s += std::to_string(i->getInit() ? node(F, i->getInit()) : -1);
            if (i->isAnyMemberInitializer()) s += "," + jesc(i->getAnyMember()->getNameAsString()) + "," + std::to_string(did(i->getAnyMember()));
            else s += ",\"(base)\",0";
            return s + "]"; }
        case CFGElement::AutomaticObjectDtor: {
            auto D = E.castAs<CFGAutomaticObjDtor>();
            std::string s = "[\"adtor\"," + std::to_string(did(D.getVarDecl())) + "," + jesc(D.getVarDecl()->getNameAsString());
            auto* dd = D.getDestructorDecl(C); int f = 0;
            if (dd) { want(dd); f = did(dd); }
            return s + "," + std::to_string(f) + "," + std::to_string(tyid(D.getVarDecl()->getType())) + "]"; }
        case CFGElement::TemporaryDtor: {
            auto D = E.castAs<CFGTemporaryDtor>(); int f = 0;
            auto* dd = D.getDestructorDecl(C); if (dd) { want(dd); f = did(dd); }
            return "[\"tdtor\"," + std::to_string(node(F, D.getBindTemporaryExpr())) + "," + std::to_string(f) + "]"; }
        case CFGElement::DeleteDtor: {
            auto D = E.castAs<CFGDeleteDtor>(); int f = 0;
            auto* dd = D.getDestructorDecl(C); if (dd) { want(dd); f = did(dd); }
            return "[\"ddtor\"," + std::to_string(node(F, D.getDeleteExpr())) + "," + std::to_string(f) + "]"; }
        case CFGElement::MemberDtor: {
            auto D = E.castAs<CFGMemberDtor>();
            auto* dd = D.getDestructorDecl(C); int f = 0; if (dd) { want(dd); f = did(dd); }
            return "[\"mdtor\"," + jesc(D.getFieldDecl()->getNameAsString()) + "," + std::to_string(f) + "]"; }
        case CFGElement::BaseDtor: {
            auto D = E.castAs<CFGBaseDtor>();
            auto* dd = D.getDestructorDecl(C); int f = 0; if (dd) { want(dd); f = did(dd); }
            return "[\"bdtor\"," + std::to_string(f) + "]"; }
        default: return "";
        }
    }

    void dumpFn(const FunctionDecl* fd) {
        FnCtx F;
        const Stmt* body = fd->getBody();
        bool coro = false;
        const CoroutineBodyStmt* cb = dyn_cast_or_null<CoroutineBodyStmt>(body);
        if (cb) { coro = true; body = cb->getBody(); }
        std::string o = "{\"id\":" + std::to_string(did(fd)) + ",\"n\":" + jesc(pn(fd)) + ",\"qn\":" + jesc(qn(fd));
        { std::string s; llvm::raw_string_ostream os(s); fd->getNameForDiagnostic(os, PP, true); o += ",\"full\":" + jesc(os.str()); }
        o += ",\"file\":" + jesc(fileOf(fd->getLocation())) + ",\"l\":" + std::to_string(lineOf(fd->getLocation()));
        o += ",\"end\":" + std::to_string(lineOf(fd->getEndLoc()));
        o += ",\"ret\":" + std::to_string(tyid(fd->getReturnType()));
        if (coro) o += ",\"coro\":1";
        if (auto* pt = fd->getType()->getAs<FunctionProtoType>()) {
            auto es = pt->getExceptionSpecType();
            if (es != EST_Unevaluated && es != EST_Uninstantiated) { if (pt->isNothrow()) o += ",\"ne\":1"; }
            else if (isa<CXXDestructorDecl>(fd)) o += ",\"ne\":1";
        }
        if (fd->isNoReturn()) o += ",\"nr\":1";
        if (fd->isDefaulted()) o += ",\"def\":1";
        if (fd->isImplicit()) o += ",\"imp\":1";
        if (fd->isTemplateInstantiation()) {
            o += ",\"ti\":1";
        }
        if (fd->isConsteval()) o += ",\"ceval\":1";
        if (fd->isConstexpr()) o += ",\"cx\":1";
        if (auto* pat = fd->getTemplateInstantiationPattern()) o += ",\"pat\":" + std::to_string(did(pat));
        if (auto* md = dyn_cast<CXXMethodDecl>(fd)) {
            o += ",\"cls\":" + std::to_string(did(md->getParent())) + ",\"clsn\":" + jesc(pn(md->getParent()));
            { std::string s; llvm::raw_string_ostream os(s); md->getParent()->getNameForDiagnostic(os, PP, true); o += ",\"clsfull\":" + jesc(os.str()); }
            wantCls(md->getParent());
            const char* acc = md->getAccess() == AS_public ? "public" : md->getAccess() == AS_private ? "private" : md->getAccess() == AS_protected ? "protected" : "none";
            o += std::string(",\"acc\":\"") + acc + "\"";
            if (md->isConst()) o += ",\"const\":1";
            if (md->isStatic()) o += ",\"static\":1";
            if (md->isVirtual()) o += ",\"virt\":1";
            if (isa<CXXConstructorDecl>(md)) o += ",\"ctor\":1";
            if (isa<CXXDestructorDecl>(md)) o += ",\"dtor\":1";
            if (auto* cd = dyn_cast<CXXConstructorDecl>(md)) { if (cd->isCopyConstructor()) o += ",\"cpy\":1"; if (cd->isMoveConstructor()) o += ",\"mov\":1"; }
            if (md->isMoveAssignmentOperator()) o += ",\"mova\":1";
            if (md->isCopyAssignmentOperator()) o += ",\"cpya\":1";
            if (md->getParent()->isLambda()) {
                o += ",\"lam\":1";
                auto* dc = md->getParent()->getDeclContext();
                while (dc && !isa<FunctionDecl>(dc)) dc = dc->getParent();
                if (dc) o += ",\"encl\":" + std::to_string(did(cast<FunctionDecl>(dc)));
            }
        }
        o += ",\"params\":[";
        for (unsigned i = 0; i < fd->getNumParams(); ++i) {
            auto* p = fd->getParamDecl(i);
            if (i) o += ",";
            o += "{\"id\":" + std::to_string(did(p)) + ",\"n\":" + jesc(p->getNameAsString()) + ",\"t\":" + std::to_string(tyid(p->getType())) + "}";
        }
        o += "]";
        int broot = node(F, body);
        o += ",\"body\":" + std::to_string(broot);
        std::string inits;
        if (auto* cd = dyn_cast<CXXConstructorDecl>(fd)) {
            for (auto* i : cd->inits()) {
                if (!inits.empty()) inits += ",";
                inits += "[" + jesc(i->isAnyMemberInitializer() ? i->getAnyMember()->getNameAsString() : i->isDelegatingInitializer() ? "(delegate)" : "(base)")
                    + "," + std::to_string(node(F, i->getInit())) + "," + (i->isWritten() ? "1" : "0") + "]";
            }
        }
        if (!inits.empty()) o += ",\"inits\":[" + inits + "]";
        CFG::BuildOptions BO;
        BO.setAllAlwaysAdd();
        BO.AddEHEdges = false; BO.AddImplicitDtors = true; BO.AddTemporaryDtors = true; BO.AddInitializers = true;
        BO.AddCXXDefaultInitExprInCtors = true; BO.PruneTriviallyFalseEdges = true;
        BO.AddStaticInitBranches = false;
        auto cfg = CFG::buildCFG(fd, const_cast<Stmt*>(body), &C, BO);
        std::string blocks;
        if (cfg) {
            o += ",\"entry\":" + std::to_string(cfg->getEntry().getBlockID()) + ",\"exit\":" + std::to_string(cfg->getExit().getBlockID());
            for (auto* b : *cfg) {
                if (!b) continue;
                if (!blocks.empty()) blocks += ",";
                blocks += "{\"id\":" + std::to_string(b->getBlockID()) + ",\"e\":[";
                bool first = true;
                for (auto& e : *b) { auto s = elem(F, e); if (s.empty()) continue; if (!first) blocks += ","; first = false; blocks += s; }
                blocks += "],\"s\":[";
                first = true;
                for (auto it = b->succ_begin(); it != b->succ_end(); ++it) {
                    if (!first) blocks += ","; first = false;
                    if (auto* r = it->getReachableBlock()) blocks += std::to_string(r->getBlockID());
                    else blocks += "-1";
                }
                blocks += "]";
                if (auto* t = b->getTerminatorStmt()) {
                    blocks += ",\"tk\":" + std::to_string(sid(t->getStmtClassName())) + ",\"ts\":" + std::to_string(node(F, t));
                    if (b->getTerminator().isTemporaryDtorsBranch()) blocks += ",\"tdb\":1";
                }
                if (auto* tc = b->getTerminatorCondition()) blocks += ",\"tc\":" + std::to_string(node(F, tc));
                if (auto* l = b->getLabel()) blocks += ",\"lab\":" + std::to_string(node(F, l));
                if (b->hasNoReturnElement()) blocks += ",\"nr\":1";
                blocks += "}";
            }
        }
        o += ",\"blocks\":[" + blocks + "]";
        o += ",\"nodes\":[";
        for (size_t i = 0; i < F.nodes.size(); ++i) { if (i) o += ","; o += F.nodes[i].empty() ? "{}" : F.nodes[i]; }
        o += "]}";
        fnsOut.push_back(std::move(o));
    }

    std::string special(const CXXMethodDecl* m) {
        std::string s = "{\"n\":" + jesc(pn(m)) + ",\"id\":" + std::to_string(did(m)) + ",\"l\":" + std::to_string(lineOf(m->getLocation()));
        const char* acc = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_private ? "private" : m->getAccess() == AS_protected ? "protected" : "none";
        s += std::string(",\"acc\":\"") + acc + "\"";
        if (m->isDeleted()) s += ",\"del\":1";
        if (m->isDefaulted()) s += ",\"def\":1";
        if (m->isImplicit()) s += ",\"imp\":1";
        if (m->isUserProvided()) s += ",\"up\":1";
        if (m->isVirtual()) s += ",\"virt\":1";
        if (m->isStatic()) s += ",\"st\":1";
        if (m->isConst()) s += ",\"const\":1";
        if (auto* pt = m->getType()->getAs<FunctionProtoType>()) {
            auto es = pt->getExceptionSpecType();
            if (es != EST_Unevaluated && es != EST_Uninstantiated) { if (pt->isNothrow()) s += ",\"ne\":1"; }
            else if (isa<CXXDestructorDecl>(m)) s += ",\"ne\":1";
        }
        if (auto* c = dyn_cast<CXXConstructorDecl>(m)) {
            if (c->isCopyConstructor()) s += ",\"kind\":\"cctor\""; else if (c->isMoveConstructor()) s += ",\"kind\":\"mctor\"";
            else if (c->isDefaultConstructor()) s += ",\"kind\":\"dctor\""; else s += ",\"kind\":\"ctor\"";
            if (c->isExplicit()) s += ",\"explicit\":1";
        } else if (isa<CXXDestructorDecl>(m)) s += ",\"kind\":\"dtor\"";
        else if (m->isCopyAssignmentOperator()) s += ",\"kind\":\"cassign\"";
        else if (m->isMoveAssignmentOperator()) s += ",\"kind\":\"massign\"";
        else s += ",\"kind\":\"m\"";
        return s + "}";
    }
    void dumpCls(const CXXRecordDecl* rd0) {
        auto* rd = rd0->getDefinition(); if (!rd || !inRoot(rd) || rd->isDependentType()) return;
        std::string o = "{\"id\":" + std::to_string(did(rd)) + ",\"n\":" + jesc(pn(rd));
        { std::string s; llvm::raw_string_ostream os(s); rd->getNameForDiagnostic(os, PP, true); o += ",\"full\":" + jesc(os.str()); }
        o += ",\"file\":" + jesc(fileOf(declLoc(rd))) + ",\"l\":" + std::to_string(lineOf(declLoc(rd)));
        if (rd->isLambda()) o += ",\"lam\":1";
        if (rd->isAggregate()) o += ",\"agg\":1";
        if (rd->isUnion()) o += ",\"union\":1";
        if (rd->hasAttr<WarnUnusedResultAttr>()) o += ",\"nodiscard\":1";
        o += ",\"bases\":[";
        bool first = true;
        for (auto& b : rd->bases()) { if (!first) o += ","; first = false; o += std::to_string(tyid(b.getType())); if (auto* brd = b.getType()->getAsCXXRecordDecl()) wantClsLater(brd); }
        o += "],\"fields\":[";
        first = true;
        FnCtx F;
        for (auto* f : rd->fields()) {
            if (!first) o += ","; first = false;
            o += "{\"id\":" + std::to_string(did(f)) + ",\"n\":" + jesc(f->getNameAsString()) + ",\"t\":" + std::to_string(tyid(f->getType())) + ",\"l\":" + std::to_string(lineOf(f->getLocation()));
            if (f->hasInClassInitializer()) { o += ",\"ici\":1"; if (auto* e = f->getInClassInitializer()) o += ",\"i\":" + std::to_string(node(F, e)); }
            if (auto* frd = f->getType()->getAsCXXRecordDecl()) { if (frd->hasTrivialDefaultConstructor() && !frd->hasInClassInitializer()) o += ",\"trivdc\":1"; }
            else o += ",\"scalar\":1";
            o += "}";
        }
        o += "],\"methods\":[";
        first = true;
        for (auto* m : rd->methods()) { if (!first) o += ","; first = false; o += special(m); want(m); }
        o += "]";
        o += ",\"triv\":" + std::to_string((int)rd->isTriviallyCopyable());
        o += ",\"copyable\":" + std::to_string((int)(rd->hasSimpleCopyConstructor() || copyState(rd)));
        o += ",\"nodes\":[";
        for (size_t i = 0; i < F.nodes.size(); ++i) { if (i) o += ","; o += F.nodes[i].empty() ? "{}" : F.nodes[i]; }
        o += "]}";
        clsOut.push_back(std::move(o));
    }
    bool copyState(const CXXRecordDecl* rd) {
        for (auto* c : rd->ctors()) if (c->isCopyConstructor()) return !c->isDeleted();
        return rd->needsImplicitCopyConstructor() && !rd->defaultedCopyConstructorIsDeleted();
    }
    std::vector<const CXXRecordDecl*> clsLater;
    void wantClsLater(const CXXRecordDecl* rd) { clsLater.push_back(rd); }
    void dumpEnum(const EnumDecl* e) {
        if (!seenEnum.insert(e->getCanonicalDecl()).second) return;
        if (!e->getDefinition()) return;
        e = e->getDefinition();
        std::string o = "{\"n\":" + jesc(pn(e)) + ",\"t\":" + std::to_string(tyid(e->getIntegerType())) + ",\"file\":" + jesc(fileOf(e->getLocation())) + ",\"l\":" + std::to_string(lineOf(e->getLocation())) + ",\"v\":[";
        bool first = true;
        for (auto* c : e->enumerators()) {
            if (!first) o += ","; first = false;
            llvm::SmallString<32> b; c->getInitVal().toString(b, 10);
            o += "[" + jesc(c->getNameAsString()) + "," + std::string(b) + "]";
        }
        enumOut.push_back(o + "]}");
    }
    void dumpVar(const VarDecl* v) {
        FnCtx F;
        if (auto* d = v->getDefinition()) v = d; 
        std::string o = "{\"id\":" + std::to_string(did(v)) + ",\"n\":" + jesc(pn(v)) + ",\"t\":" + std::to_string(tyid(v->getType()))
            + ",\"file\":" + jesc(fileOf(v->getLocation())) + ",\"l\":" + std::to_string(lineOf(v->getLocation()));
        { std::string s; llvm::raw_string_ostream os(s); v->getNameForDiagnostic(os, PP, true); o += ",\"full\":" + jesc(os.str()); }
        const Expr* init = v->getAnyInitializer();
        if (init && !init->isValueDependent()) {
            o += ",\"i\":" + std::to_string(node(F, init));
            if (v->isConstexpr() || v->getType().isConstQualified())
                if (auto* av = v->evaluateValue()) o += ",\"val\":" + apval(*av);
        }
        if (v->isConstexpr()) o += ",\"cx\":1";
        if (v->getTLSKind() != VarDecl::TLS_None) o += ",\"tls\":1";
        o += ",\"nodes\":[";
        for (size_t i = 0; i < F.nodes.size(); ++i) { if (i) o += ","; o += F.nodes[i].empty() ? "{}" : F.nodes[i]; }
        varOut.push_back(o + "]}");
    }
    void drain() {
        for (;;) {
            if (fnPos < fnQueue.size()) { dumpFn(fnQueue[fnPos++]); continue; }
            if (!varQueue.empty()) { auto* v = varQueue.back(); varQueue.pop_back(); dumpVar(v); continue; }
            if (!clsLater.empty()) { auto* r = clsLater.back(); clsLater.pop_back(); wantCls(r); continue; }
            break;
        }
    }
};

struct V : RecursiveASTVisitor<V> {
    Dumper& D; std::string patterns; std::set<const Decl*> seenPat;
    V(Dumper& d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl* f) {
        if (f->isDependentContext()) {
            if (f->isThisDeclarationADefinition() && D.inRoot(f) && seenPat.insert(f).second) {
                if (!patterns.empty()) patterns += ",";
                patterns += "[" + std::to_string(D.did(f)) + "," + jesc(D.pn(f)) + "," + jesc(D.fileOf(f->getLocation())) + "," + std::to_string(D.lineOf(f->getLocation())) + "," + std::to_string(D.lineOf(f->getEndLoc())) + "]";
            }
        } else D.want(f);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) { if (!r->isDependentType() && D.inRoot(r)) D.wantCls(r); return true; }
    bool VisitEnumDecl(EnumDecl* e) { if (D.inRoot(e)) D.dumpEnum(e); return true; }
    bool VisitVarDecl(VarDecl* v) {
        if (v->hasGlobalStorage() && D.inRoot(v) && !v->getType()->isDependentType() && !v->getDeclContext()->isDependentContext() && !v->isTemplated()) D.wantVar(v);
        return true;
    }
    bool VisitLambdaExpr(LambdaExpr* l) {
        if (auto* rd = l->getLambdaClass(); rd && rd->isGenericLambda()) {
            if (auto* ft = rd->getDependentLambdaCallOperator())
                for (auto* s : ft->specializations()) if (!s->isDependentContext()) { D.want(s); TraverseStmt(s->getBody()); }
        }
        return true;
    }
};

struct Cons : ASTConsumer {
    void HandleTranslationUnit(ASTContext& C) override {
        Dumper D(C); V v(D);
        v.TraverseDecl(C.getTranslationUnitDecl());
        D.drain();
        std::error_code ec; llvm::raw_fd_ostream os(gOut, ec);
        auto list = [&](const char* k, std::vector<std::string>& l, bool last = false) {
            os << "\"" << k << "\":[";
            for (size_t i = 0; i < l.size(); ++i) { if (i) os << ",\n"; os << l[i]; }
            os << "]" << (last ? "\n" : ",\n");
        };
        os << "{\"strings\":[";
        for (size_t i = 0; i < D.strs.size(); ++i) { if (i) os << ","; os << jesc(D.strs[i]); }
        os << "],\n";
        list("functions", D.fnsOut); list("classes", D.clsOut); list("enums", D.enumOut); list("vars", D.varOut);
        os << "\"patterns\":[" << v.patterns << "],\"errors\":" << C.getDiagnostics().getClient()->getNumErrors() << "}\n";
    }
};
struct Act : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, llvm::StringRef) override {
        CI.getDiagnostics().setErrorLimit(0);
        return std::make_unique<Cons>();
    }
};
int main(int argc, char** argv) {
    // hxdump ROOT OUT SOURCE -- flags...
    if (argc < 5) { llvm::errs() << "usage: hxdump ROOT OUT SOURCE -- flags\n"; return 2; }
    gRoot = argv[1]; gOut = argv[2]; std::string src = argv[3];
    std::vector<std::string> flags;
    for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {src});
    tool.run(tooling::newFrontendActionFactory<Act>().get());
    return 0;
}
