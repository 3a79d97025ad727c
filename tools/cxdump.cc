// Exports the resolved (type-checked, template-instantiated) syntax trees of all functions defined below a given
// directory as JSON.  Nothing is executed; names, overloads, conversions, and constants are those clang resolved.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/Attr.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/PrettyPrinter.h>
#include <clang/AST/RecordLayout.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/Tooling.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>

using namespace clang;

namespace {

std::string g_root, g_root2;
std::string esc(llvm::StringRef s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else { r += c; }
    }
    return r + "\"";
}

struct J {
    std::string s;
    bool first = true;
    J() : s("{") {}
    J &raw(char const *k, std::string const &v) {
        if (!first) { s += ','; }
        first = false;
        s += '"'; s += k; s += "\":"; s += v;
        return *this;
    }
    J &str(char const *k, llvm::StringRef v) { return raw(k, esc(v)); }
    J &num(char const *k, int64_t v) { return raw(k, std::to_string(v)); }
    J &flag(char const *k, bool v) { return v ? raw(k, "true") : *this; }
    std::string done() { return s + "}"; }
};

class Dumper : public RecursiveASTVisitor<Dumper> {
public:
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    std::map<Decl const *, int> ids;
    std::vector<Decl const *> order;
    std::vector<std::string> funcs;
    std::map<int, std::string> decls; // callee / record descriptions
    std::set<int> records_done, funcs_done;
    std::vector<std::string> records, vars, enums, undef;
    std::set<Decl const *> undef_done;
    std::set<Decl const *> enums_done, vars_done;
    std::vector<FunctionDecl *> work;
    std::map<CXXRecordDecl const *, std::string> lambda_names;
    std::map<std::string, int> lambda_count;
    std::string cur;

    Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.UseVoidForZeroParams = false;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.SuppressInlineNamespace = true;
        PP.TerseOutput = true;
        PP.AnonymousTagLocations = false;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }

    std::string file(SourceLocation l) {
        if (l.isInvalid()) { return ""; }
        return SM.getFilename(SM.getExpansionLoc(l)).str();
    }
    int line(SourceLocation l) { return l.isValid() ? (int)SM.getExpansionLineNumber(l) : 0; }
    bool ours(Decl const *d) {
        auto f = file(d->getLocation());
        return f.compare(0, g_root.size(), g_root) == 0 || (!g_root2.empty() && f.compare(0, g_root2.size(), g_root2) == 0);
    }
    int id(Decl const *d) {
        d = d->getCanonicalDecl();
        auto it = ids.find(d);
        if (it != ids.end()) { return it->second; }
        int n = (int)ids.size() + 1;
        ids[d] = n;
        return n;
    }
    std::string ty(QualType t) {
        if (t.isNull()) { return "?"; }
        return t.getCanonicalType().getAsString(PP);
    }
    std::string tname(QualType t) { // unqualified type
        if (t.isNull()) { return "?"; }
        if (t->isReferenceType()) { return ty(t); }
        return t.getCanonicalType().getUnqualifiedType().getAsString(PP);
    }
    std::string rname(CXXRecordDecl const *r) {
        if (r->isLambda()) {
            auto it = lambda_names.find(r->getCanonicalDecl());
            if (it != lambda_names.end()) { return it->second; }
            std::string base = cur.empty() ? "?" : cur;
            std::string n = base + "::lambda#" + std::to_string(++lambda_count[base]);
            lambda_names[r->getCanonicalDecl()] = n;
            return n;
        }
        return ty(C.getRecordType(r));
    }
    std::string fname(FunctionDecl const *f) {
        std::string r;
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
            r = rname(m->getParent()) + "::";
            if (isa<CXXConstructorDecl>(f)) { r += "(ctor)"; }
            else if (isa<CXXDestructorDecl>(f)) { r += "(dtor)"; }
            else if (isa<CXXConversionDecl>(f)) { r += "operator " + ty(f->getReturnType()); }
            else { r += f->getNameAsString(); }
        }
        else {
            llvm::raw_string_ostream os(r);
            PrintingPolicy P2 = PP;
            f->printQualifiedName(os, P2);
            os.flush();
        }
        if (auto *args = f->getTemplateSpecializationArgs()) {
            r += "<";
            bool first = true;
            std::function<void(ArrayRef<TemplateArgument>)> pr = [&](ArrayRef<TemplateArgument> as) {
                for (auto &a : as) {
                    if (a.getKind() == TemplateArgument::Pack) { pr(a.getPackAsArray()); continue; }
                    if (!first) { r += ","; }
                    first = false;
                    if (a.getKind() == TemplateArgument::Type) {
                        auto *rd = a.getAsType()->getAsCXXRecordDecl();
                        r += rd && rd->isLambda() ? rname(rd) : ty(a.getAsType());
                    } else {
                        llvm::raw_string_ostream os(r);
                        a.print(PP, os, true);
                        os.flush();
                    }
                }
            };
            pr(args->asArray());
            r += ">";
        }
        return r;
    }
    std::string access(AccessSpecifier a) { return a == AS_public || a == AS_none ? "public" : a == AS_private ? "private" : "protected"; }

    // reference to a function: registers a description
    std::string fref(FunctionDecl const *f) {
        int i = id(f);
        if (!decls.count(i)) {
            decls[i] = "";
            J j;
            j.num("id", i).str("name", fname(f)).str("ret", ty(f->getReturnType()));
            std::string ps = "[";
            for (auto *p : f->parameters()) { ps += (ps.size() > 1 ? "," : "") + esc(ty(p->getType())); }
            j.raw("params", ps + "]");
            if (ours(f)) {
                std::string ds;
                unsigned pos = 0;
                for (auto *p : f->parameters()) {
                    if (p->hasDefaultArg() && !p->hasUnparsedDefaultArg() && !p->hasUninstantiatedDefaultArg()) {
                        ds += (ds.empty() ? "" : ",") + ("[" + std::to_string(pos) + "," + E(p->getDefaultArg()) + "]");
                    }
                    ++pos;
                }
                if (!ds.empty()) { j.raw("defaults", "[" + ds + "]"); }
            }
            j.flag("variadic", f->isVariadic());
            j.flag("noreturn", f->isNoReturn());
            if (auto *pt = f->getType()->getAs<FunctionProtoType>()) {
                auto est = pt->getExceptionSpecType();
                j.flag("noexcept", !isUnresolvedExceptionSpec(est) && est != EST_Dynamic && est != EST_DependentNoexcept && pt->canThrow() == CT_Cannot);
            }
            if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
                j.num("record", record(m->getParent()));
                j.flag("static", m->isStatic());
                j.flag("const", m->isConst());
                j.flag("rvalue", m->getRefQualifier() == RQ_RValue);
                j.flag("virtual", m->isVirtual());
                j.flag("pure", m->isPureVirtual());
                j.flag("explicit_default", m->isDefaulted() && !m->isUserProvided());
                if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
                    j.str("kind", c->isCopyConstructor() ? "copyctor" : c->isMoveConstructor() ? "movector" : "ctor");
                }
                else if (isa<CXXDestructorDecl>(f)) { j.str("kind", "dtor"); }
                else if (isa<CXXConversionDecl>(f)) { j.str("kind", "conv"); }
                else { j.str("kind", m->isCopyAssignmentOperator() ? "copyassign" : m->isMoveAssignmentOperator() ? "moveassign" : "method"); }
            } else {
                j.str("kind", "free");
                j.flag("extern_c", f->isExternC());
            }
            FunctionDecl const *def = nullptr;
            bool body = f->hasBody(def);
            FunctionDecl const *d = body ? def : f;
            j.str("file", file(d->getLocation())).num("line", line(d->getLocation()));
            j.str("access", access(f->getAccess()));
            j.flag("internal", !f->isExternallyVisible());
            j.flag("ours", ours(d));
            j.flag("deleted", f->isDeleted());
            j.flag("builtin", f->getBuiltinID() != 0);
            decls[i] = j.done();
            if (body && ours(d)) { work.push_back(const_cast<FunctionDecl *>(d)); }
        }
        return std::to_string(i);
    }

    int record(CXXRecordDecl const *r) {
        if (auto *def = r->getDefinition()) { r = def; }
        int i = id(r);
        if (!records_done.insert(i).second) { return i; }
        J j;
        j.num("id", i).str("name", rname(r)).str("file", file(r->getLocation())).num("line", line(r->getLocation()));
        j.flag("ours", ours(r)).flag("lambda", r->isLambda()).flag("union", r->isUnion());
        if (r->getAccess() == AS_private || r->getAccess() == AS_protected) { j.str("access", "private"); }
        j.flag("polymorphic", r->hasDefinition() && r->isPolymorphic());
        if (auto *ts = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
            std::string n;
            llvm::raw_string_ostream os(n);
            ts->printQualifiedName(os, PP);
            os.flush();
            j.str("template", n);
            std::string as = "[";
            std::function<void(ArrayRef<TemplateArgument>)> pr = [&](ArrayRef<TemplateArgument> al) {
                for (auto &a : al) {
                    if (a.getKind() == TemplateArgument::Pack) { pr(a.getPackAsArray()); continue; }
                    std::string s;
                    if (a.getKind() == TemplateArgument::Type) {
                        auto *rd = a.getAsType()->getAsCXXRecordDecl();
                        s = rd && rd->isLambda() ? rname(rd) : ty(a.getAsType());
                        if (rd && rd->hasDefinition()) { record(rd); }
                    }
                    else { llvm::raw_string_ostream o2(s); a.print(PP, o2, true); o2.flush(); }
                    as += (as.size() > 1 ? "," : "") + esc(s);
                }
            };
            pr(ts->getTemplateArgs().asArray());
            j.raw("targs", as + "]");
        }
        if (r->hasDefinition()) {
            std::string fs = "[", bs = "[", ms = "[";
            for (auto *f : r->fields()) {
                J k;
                k.num("id", id(f)).str("name", f->getNameAsString()).str("type", ty(f->getType()));
                if (auto *fr = f->getType()->getAsCXXRecordDecl()) { if (ours(r) ) { k.num("record", record(fr)); } }
                if (f->hasInClassInitializer() && f->getInClassInitializer() && ours(r)) { k.raw("init", E(f->getInClassInitializer())); }
                k.flag("mutable", f->isMutable());
                fs += (fs.size() > 1 ? "," : "") + k.done();
            }
            for (auto &b : r->bases()) {
                if (auto *br = b.getType()->getAsCXXRecordDecl()) {
                    J k;
                    k.num("id", record(br)).str("access", access(b.getAccessSpecifier()));
                    bs += (bs.size() > 1 ? "," : "") + k.done();
                }
            }
            if (ours(r)) {
                for (auto *m : r->methods()) {
                    if (m->isImplicit() && m->isDeleted()) { continue; }
                    ms += (ms.size() > 1 ? "," : "") + fref(m);
                }
                if (auto *dt = r->getDestructor()) { if (!dt->isTrivial()) { j.raw("dtor", fref(dt)); } }
            }
            j.raw("fields", fs + "]").raw("bases", bs + "]").raw("methods", ms + "]");
            j.flag("trivial_dtor", r->hasTrivialDestructor());
            j.flag("trivial_copy", r->isTriviallyCopyable());
            if (r->isLambda()) {
                if (auto *op = r->getLambdaCallOperator()) { j.raw("call", fref(op)); }
            }
        }
        records.push_back(j.done());
        return i;
    }

    void enumeration(EnumDecl const *e) {
        e = e->getDefinition() ? e->getDefinition() : e;
        if (!enums_done.insert(e).second) { return; }
        J j;
        j.num("id", id(e)).str("name", ty(C.getEnumType(e))).flag("scoped", e->isScoped());
        std::string cs = "[";
        for (auto *c : e->enumerators()) {
            cs += (cs.size() > 1 ? "," : "") + ("[" + esc(c->getNameAsString()) + "," + std::to_string(c->getInitVal().getExtValue()) + "," +
                  (c->getInitExpr() ? E(c->getInitExpr()) : "null") + "]");
        }
        j.raw("values", cs + "]").flag("ours", ours(e)).num("line", line(e->getLocation())).str("file", file(e->getLocation()));
        enums.push_back(j.done());
    }

    void globalvar(VarDecl const *v) {
        v = v->getCanonicalDecl();
        if (!vars_done.insert(v).second) { return; }
        VarDecl const *def = nullptr;
        Expr const *init = v->getAnyInitializer(def);
        J j;
        std::string n;
        llvm::raw_string_ostream os(n);
        v->printQualifiedName(os, PP);
        os.flush();
        j.num("id", id(v)).str("name", n).str("type", ty(v->getType())).flag("static_local", v->isStaticLocal());
        j.str("file", file(v->getLocation())).num("line", line(v->getLocation())).flag("ours", ours(v));
        j.flag("const", v->getType().isConstQualified() || v->isConstexpr() || (C.getAsArrayType(v->getType()) && C.getAsArrayType(v->getType())->getElementType().isConstQualified()));
        j.flag("tls", v->getTLSKind() != VarDecl::TLS_None);
        if (init && ours(v)) { j.raw("init", E(init)); }
        if (auto *rd = v->getType()->getAsCXXRecordDecl()) { j.num("record", record(rd)); }
        vars.push_back(j.done());
    }

    // ---------------------------------------------------------------- declarations within functions
    std::string V(VarDecl const *v) {
        J j;
        j.num("id", id(v)).str("name", v->getNameAsString()).str("type", ty(v->getType())).num("l", line(v->getLocation()));
        if (v->isStaticLocal()) { j.flag("static", true); }
        if (v->getType()->isReferenceType()) { j.flag("ref", true); }
        auto t = v->getType().getNonReferenceType();
        if (auto *rd = t->getAsCXXRecordDecl()) { j.num("record", record(rd)); }
        if (v->getInit()) { j.raw("init", E(v->getInit())); }
        j.flag("nrvo", v->isNRVOVariable());
        return j.done();
    }

    // ---------------------------------------------------------------- expressions
    template <class R> std::string elist(R const &r) {
        std::string s = "[";
        for (auto *e : r) { s += (s.size() > 1 ? "," : "") + E(e); }
        return s + "]";
    }
    J node(char const *k, Expr const *e) {
        J j;
        j.str("k", k).num("l", line(e->getExprLoc()));
        return j;
    }
    std::string constant(char const *k, Expr const *e, llvm::APSInt const &v) {
        auto j = node(k, e);
        if (v.isSigned() ? v.isSignedIntN(63) : v.isIntN(63)) { j.num("v", v.getExtValue()); }
        else { llvm::SmallString<32> s; v.toString(s, 10); j.raw("v", s.str().str()); }
        j.str("t", tname(e->getType()));
        return j.done();
    }
    std::string E(Expr const *e) {
        if (!e) { return "null"; }
        if (auto *x = dyn_cast<ParenExpr>(e)) { return E(x->getSubExpr()); }
        if (auto *x = dyn_cast<ConstantExpr>(e)) { return E(x->getSubExpr()); }
        if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { return E(x->getReplacement()); }
        if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) { return E(x->getExpr()); }
        if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) { return E(x->getExpr()); }
        if (auto *x = dyn_cast<OpaqueValueExpr>(e)) { return E(x->getSourceExpr()); }
        if (auto *x = dyn_cast<GenericSelectionExpr>(e)) { return E(x->getResultExpr()); }
        if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e)) { return E(x->getSemanticForm()); }
        if (auto *x = dyn_cast<ExprWithCleanups>(e)) {
            return node("full", e).raw("e", E(x->getSubExpr())).done();
        }
        if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) {
            auto j = node("tmp", e);
            if (auto *rd = x->getType()->getAsCXXRecordDecl()) { j.num("record", record(rd)); }
            j.flag("extended", x->getExtendingDecl() != nullptr);
            return j.str("t", tname(x->getType())).raw("e", E(x->getSubExpr())).done();
        }
        if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) {
            auto j = node("bind", e);
            if (auto *rd = x->getType()->getAsCXXRecordDecl()) { j.num("record", record(rd)); }
            return j.raw("e", E(x->getSubExpr())).done();
        }
        if (auto *x = dyn_cast<IntegerLiteral>(e)) {
            return constant("int", e, llvm::APSInt(x->getValue(), x->getType()->isUnsignedIntegerType()));
        }
        if (auto *x = dyn_cast<CharacterLiteral>(e)) { return node("int", e).num("v", x->getValue()).str("t", "char").done(); }
        if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) { return node("bool", e).num("v", x->getValue()).done(); }
        if (auto *x = dyn_cast<FloatingLiteral>(e)) {
            return node("float", e).str("v", std::to_string(x->getValueAsApproximateDouble())).done();
        }
        if (auto *x = dyn_cast<StringLiteral>(e)) { return node("str", e).str("v", x->getBytes()).done(); }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { return node("null", e).done(); }
        if (isa<CXXThisExpr>(e)) { return node("this", e).done(); }
        if (auto *x = dyn_cast<PredefinedExpr>(e)) { return node("str", e).str("v", x->getFunctionName() ? x->getFunctionName()->getString() : "").done(); }
        if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
            Expr::EvalResult r;
            auto j = node("sizeof", e);
            j.str("op", x->getKind() == UETT_SizeOf ? "sizeof" : "alignof");
            if (x->isArgumentType()) { j.str("of", ty(x->getArgumentType())); } else { j.str("of", ty(x->getArgumentExpr()->getType())); }
            if (!x->isValueDependent() && x->EvaluateAsInt(r, C)) { j.num("v", r.Val.getInt().getExtValue()); }
            return j.done();
        }
        if (isa<SizeOfPackExpr>(e) || isa<TypeTraitExpr>(e) || isa<CXXNoexceptExpr>(e) || isa<OffsetOfExpr>(e)) {
            Expr::EvalResult r;
            if (!e->isValueDependent() && e->EvaluateAsInt(r, C)) { return constant("int", e, r.Val.getInt()); }
            return node("unknown", e).str("c", e->getStmtClassName()).done();
        }
        if (auto *x = dyn_cast<DeclRefExpr>(e)) {
            auto *d = x->getDecl();
            if (auto *c = dyn_cast<EnumConstantDecl>(d)) {
                auto *ed = cast<EnumDecl>(c->getDeclContext());
                enumeration(ed);
                return node("enum", e).str("n", c->getNameAsString()).str("t", ty(C.getEnumType(ed))).num("v", c->getInitVal().getExtValue()).done();
            }
            if (auto *f = dyn_cast<FunctionDecl>(d)) { return node("fun", e).raw("f", fref(f)).done(); }
            if (auto *v = dyn_cast<VarDecl>(d)) {
                if (v->hasGlobalStorage()) { globalvar(v); }
                auto j = node("var", e).num("v", id(v)).str("n", v->getNameAsString());
                j.flag("ref", v->getType()->isReferenceType()).flag("global", v->hasGlobalStorage());
                j.str("t", tname(v->getType().getNonReferenceType()));
                return j.done();
            }
            if (auto *b = dyn_cast<BindingDecl>(d)) { return b->getBinding() ? E(b->getBinding()) : node("unknown", e).done(); }
            return node("unknown", e).str("c", "DeclRef").done();
        }
        if (auto *x = dyn_cast<MemberExpr>(e)) {
            auto *d = x->getMemberDecl();
            if (auto *f = dyn_cast<FieldDecl>(d)) {
                record(cast<CXXRecordDecl>(f->getParent()));
                return node("member", e).raw("b", E(x->getBase())).flag("arrow", x->isArrow()).str("n", f->getNameAsString()).num("v", id(f))
                    .flag("ref", f->getType()->isReferenceType()).str("t", tname(f->getType().getNonReferenceType())).done();
            }
            if (auto *v = dyn_cast<VarDecl>(d)) {
                globalvar(v);
                return node("var", e).num("v", id(v)).str("n", v->getNameAsString()).flag("global", true).str("t", tname(v->getType())).done();
            }
            if (auto *c = dyn_cast<EnumConstantDecl>(d)) {
                auto *ed = cast<EnumDecl>(c->getDeclContext());
                return node("enum", e).str("n", c->getNameAsString()).str("t", ty(C.getEnumType(ed))).num("v", c->getInitVal().getExtValue()).done();
            }
            if (auto *f = dyn_cast<FunctionDecl>(d)) {
                return node("boundmethod", e).raw("f", fref(f)).raw("b", E(x->getBase())).flag("arrow", x->isArrow()).done();
            }
            return node("unknown", e).str("c", "Member").done();
        }
        if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) {
            return node("index", e).raw("b", E(x->getBase())).raw("i", E(x->getIdx())).str("t", tname(x->getType())).done();
        }
        if (auto *x = dyn_cast<UnaryOperator>(e)) {
            auto j = node("unary", e).str("op", UnaryOperator::getOpcodeStr(x->getOpcode()));
            j.flag("post", x->isPostfix()).str("t", tname(x->getType()));
            if (x->getOpcode() == UO_AddrOf) {
                if (auto *dr = dyn_cast<DeclRefExpr>(x->getSubExpr()->IgnoreParens())) {
                    if (auto *m = dyn_cast<CXXMethodDecl>(dr->getDecl())) { if (!m->isStatic()) { return node("memfun", e).raw("f", fref(m)).done(); } }
                    if (auto *fd = dyn_cast<FieldDecl>(dr->getDecl())) { return node("memptr", e).str("n", fd->getNameAsString()).done(); }
                }
            }
            return j.raw("e", E(x->getSubExpr())).done();
        }
        if (auto *x = dyn_cast<BinaryOperator>(e)) {
            bool assign = x->isAssignmentOp();
            auto j = node(assign ? "assign" : "binary", e);
            j.str("op", x->getOpcodeStr());
            j.str("t", tname(x->getType())).str("lt", tname(x->getLHS()->getType()));
            if (auto *c = dyn_cast<CompoundAssignOperator>(x)) { j.str("ct", tname(c->getComputationResultType())); }
            return j.raw("a", E(x->getLHS())).raw("b", E(x->getRHS())).done();
        }
        if (auto *x = dyn_cast<ConditionalOperator>(e)) {
            return node("cond", e).raw("c", E(x->getCond())).raw("a", E(x->getTrueExpr())).raw("b", E(x->getFalseExpr())).str("t", tname(x->getType())).done();
        }
        if (auto *x = dyn_cast<BinaryConditionalOperator>(e)) {
            return node("cond", e).raw("c", E(x->getCond())).raw("a", E(x->getTrueExpr())).raw("b", E(x->getFalseExpr())).done();
        }
        if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
            return call(x, "opcall");
        }
        if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
            auto j = node("mcall", e);
            if (auto *m = x->getMethodDecl()) {
                j.raw("f", fref(m));
                auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens());
                j.raw("b", E(x->getImplicitObjectArgument()));
                j.flag("arrow", x->getImplicitObjectArgument()->getType()->isPointerType());
                j.flag("virtual", m->isVirtual() && !(me && me->hasQualifier()));
            } else {
                j.raw("callee", E(x->getCallee()));
            }
            return j.raw("args", elist(x->arguments())).str("t", tname(x->getType())).done();
        }
        if (auto *x = dyn_cast<UserDefinedLiteral>(e)) { return call(x, "call"); }
        if (auto *x = dyn_cast<CallExpr>(e)) { return call(x, "call"); }
        if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
            auto j = node("construct", e).raw("f", fref(x->getConstructor())).num("record", record(x->getConstructor()->getParent()));
            j.flag("elidable", x->isElidable()).flag("list", x->isListInitialization()).flag("stdlist", x->isStdInitListInitialization());
            j.flag("zero", x->requiresZeroInitialization());
            if (auto *at = C.getAsConstantArrayType(x->getType())) { j.num("array", at->getSize().getZExtValue()); }
            return j.raw("args", elist(x->arguments())).done();
        }
        if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
            return node("inhctor", e).raw("f", fref(x->getConstructor())).num("record", record(x->getConstructor()->getParent())).done();
        }
        if (auto *x = dyn_cast<CastExpr>(e)) {
            auto k = x->getCastKind();
            auto *s = x->getSubExpr();
            switch (k) {
                case CK_NoOp: case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr: return E(s);
                case CK_LValueToRValue: return node("load", e).raw("e", E(s)).done();
                case CK_ConstructorConversion: return E(s);
                case CK_ToVoid: return node("void", e).raw("e", E(s)).done();
                default: break;
            }
            if (auto *u = dyn_cast<ImplicitCastExpr>(e)) { (void)u; if (k == CK_UserDefinedConversion) { return E(s); } }
            if (k == CK_UserDefinedConversion) { return E(s); }
            auto j = node("cast", e).str("ck", x->getCastKindName()).str("t", tname(e->getType())).str("f", tname(s->getType()));
            if (e->getType()->isIntegralOrEnumerationType()) {
                j.num("tb", C.getIntWidth(e->getType())).flag("tu", e->getType()->isUnsignedIntegerOrEnumerationType());
            }
            if (s->getType()->isIntegralOrEnumerationType()) {
                j.num("fb", C.getIntWidth(s->getType())).flag("fu", s->getType()->isUnsignedIntegerOrEnumerationType());
            }
            if (auto *pt = e->getType()->getPointeeCXXRecordDecl()) { j.num("record", record(pt)); }
            else if (auto *pr = e->getType()->getAsCXXRecordDecl()) { j.num("record", record(pr)); }
            if (k == CK_DerivedToBase || k == CK_UncheckedDerivedToBase || k == CK_BaseToDerived) { j.flag("hier", true); }
            return j.raw("e", E(s)).done();
        }
        if (auto *x = dyn_cast<InitListExpr>(e)) {
            auto *sem = x->isSemanticForm() || !x->getSemanticForm() ? x : x->getSemanticForm();
            auto j = node("initlist", e).str("t", tname(e->getType()));
            if (auto *rd = e->getType()->getAsCXXRecordDecl()) { j.num("record", record(rd)); }
            if (auto *at = C.getAsConstantArrayType(e->getType())) { j.num("array", at->getSize().getZExtValue()); }
            if (auto *uf = sem->getInitializedFieldInUnion()) { j.str("union", uf->getNameAsString()); }
            if (sem->hasArrayFiller()) { j.raw("filler", E(sem->getArrayFiller())); }
            return j.raw("e", elist(sem->inits())).done();
        }
        if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
            auto j = node("zero", e).str("t", tname(e->getType()));
            if (auto *rd = e->getType()->getAsCXXRecordDecl()) { j.num("record", record(rd)); }
            if (auto *at = C.getAsConstantArrayType(e->getType())) { j.num("array", at->getSize().getZExtValue()); }
            return j.done();
        }
        if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) { return node("stdinit", e).raw("e", E(x->getSubExpr())).done(); }
        if (auto *x = dyn_cast<CXXThrowExpr>(e)) {
            auto j = node("throw", e);
            if (x->getSubExpr()) { j.raw("e", E(x->getSubExpr())).str("t", tname(x->getSubExpr()->getType())); }
            return j.done();
        }
        if (auto *x = dyn_cast<CXXNewExpr>(e)) {
            auto j = node("new", e).str("t", ty(x->getAllocatedType()));
            if (auto *rd = x->getAllocatedType()->getAsCXXRecordDecl()) { j.num("record", record(rd)); }
            if (x->isArray() && x->getArraySize()) { j.raw("size", E(*x->getArraySize())); }
            if (x->getNumPlacementArgs()) { j.raw("place", elist(x->placement_arguments())); }
            if (x->getInitializer()) { j.raw("init", E(x->getInitializer())); }
            return j.done();
        }
        if (auto *x = dyn_cast<CXXDeleteExpr>(e)) {
            auto j = node("delete", e).raw("e", E(x->getArgument())).flag("array", x->isArrayForm());
            if (auto *rd = x->getDestroyedType()->getAsCXXRecordDecl()) { j.num("record", record(rd)); }
            return j.done();
        }
        if (auto *x = dyn_cast<LambdaExpr>(e)) {
            auto *rd = x->getLambdaClass();
            auto j = node("lambda", e).num("record", record(rd)).raw("f", fref(x->getCallOperator()));
            std::string cs = "[";
            auto fi = rd->field_begin();
            auto ii = x->capture_init_begin();
            for (auto &c : x->captures()) {
                J k;
                if (c.capturesThis()) { k.flag("this", true).flag("copy", c.getCaptureKind() == LCK_StarThis); }
                else if (c.capturesVariable()) {
                    auto *vd = c.getCapturedVar();
                    k.num("v", id(vd)).str("n", vd->getNameAsString()).flag("ref", c.getCaptureKind() == LCK_ByRef);
                    if (isa<VarDecl>(vd) && cast<VarDecl>(vd)->isInitCapture()) { k.flag("initcap", true); }
                }
                k.num("field", id(*fi));
                k.raw("init", E(*ii));
                ++fi; ++ii;
                cs += (cs.size() > 1 ? "," : "") + k.done();
            }
            return j.raw("caps", cs + "]").done();
        }
        if (auto *x = dyn_cast<CXXPseudoDestructorExpr>(e)) { return node("pseudodtor", e).raw("b", E(x->getBase())).done(); }
        if (auto *x = dyn_cast<CXXTypeidExpr>(e)) {
            auto j = node("typeid", e);
            if (x->isTypeOperand()) { j.str("of", ty(x->getTypeOperand(C))); } else { j.raw("e", E(x->getExprOperand())); }
            return j.done();
        }
        if (auto *x = dyn_cast<StmtExpr>(e)) { return node("stmtexpr", e).raw("s", S(x->getSubStmt())).done(); }
        if (auto *x = dyn_cast<ArrayInitLoopExpr>(e)) { return node("arrcopy", e).raw("e", E(x->getCommonExpr())).done(); }
        if (auto *x = dyn_cast<CompoundLiteralExpr>(e)) { return E(x->getInitializer()); }
        return node("unknown", e).str("c", e->getStmtClassName()).done();
    }
    std::string call(CallExpr const *x, char const *k) {
        auto j = node(k, x);
        if (auto *f = x->getDirectCallee()) { j.raw("f", fref(f)); }
        else { j.raw("callee", E(x->getCallee())); }
        if (auto *o = dyn_cast<CXXOperatorCallExpr>(x)) { j.str("op", getOperatorSpelling(o->getOperator())); }
        Expr::EvalResult r;
        return j.raw("args", elist(x->arguments())).str("t", tname(x->getType())).done();
    }

    // ---------------------------------------------------------------- statements
    J snode(char const *k, Stmt const *s) {
        J j;
        j.str("k", k).num("l", line(s->getBeginLoc()));
        return j;
    }
    std::string S(Stmt const *s) {
        if (!s) { return "null"; }
        if (auto *x = dyn_cast<Expr>(s)) { return snode("expr", s).raw("e", E(x)).done(); }
        if (auto *x = dyn_cast<CompoundStmt>(s)) {
            std::string b = "[";
            for (auto *c : x->body()) { b += (b.size() > 1 ? "," : "") + S(c); }
            return snode("block", s).raw("b", b + "]").done();
        }
        if (auto *x = dyn_cast<DeclStmt>(s)) {
            std::string b = "[";
            for (auto *d : x->decls()) {
                if (auto *v = dyn_cast<VarDecl>(d)) {
                    if (v->isStaticLocal()) { globalvar(v); }
                    b += (b.size() > 1 ? "," : "") + V(v);
                }
            }
            return snode("decl", s).raw("d", b + "]").done();
        }
        if (auto *x = dyn_cast<IfStmt>(s)) {
            auto j = snode("if", s);
            if (x->getInit()) { j.raw("init", S(x->getInit())); }
            if (x->getConditionVariable()) { j.raw("var", V(x->getConditionVariable())); }
            return j.raw("c", E(x->getCond())).raw("a", S(x->getThen())).raw("b", S(x->getElse())).flag("constexpr", x->isConstexpr()).done();
        }
        if (auto *x = dyn_cast<WhileStmt>(s)) {
            auto j = snode("while", s);
            if (x->getConditionVariable()) { j.raw("var", V(x->getConditionVariable())); }
            return j.raw("c", E(x->getCond())).raw("b", S(x->getBody())).done();
        }
        if (auto *x = dyn_cast<DoStmt>(s)) { return snode("do", s).raw("c", E(x->getCond())).raw("b", S(x->getBody())).done(); }
        if (auto *x = dyn_cast<ForStmt>(s)) {
            return snode("for", s).raw("init", S(x->getInit())).raw("c", E(x->getCond())).raw("inc", E(x->getInc())).raw("b", S(x->getBody())).done();
        }
        if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
            auto j = snode("rangefor", s);
            return j.raw("range", S(x->getRangeStmt())).raw("begin", S(x->getBeginStmt())).raw("end", S(x->getEndStmt()))
                .raw("c", E(x->getCond())).raw("inc", E(x->getInc())).raw("var", S(x->getLoopVarStmt())).raw("b", S(x->getBody())).done();
        }
        if (auto *x = dyn_cast<SwitchStmt>(s)) {
            auto j = snode("switch", s);
            if (x->getInit()) { j.raw("init", S(x->getInit())); }
            if (x->getConditionVariable()) { j.raw("var", V(x->getConditionVariable())); }
            return j.raw("c", E(x->getCond())).raw("b", S(x->getBody())).done();
        }
        if (auto *x = dyn_cast<CaseStmt>(s)) { return snode("case", s).raw("v", E(x->getLHS())).raw("s", S(x->getSubStmt())).done(); }
        if (auto *x = dyn_cast<DefaultStmt>(s)) { return snode("default", s).raw("s", S(x->getSubStmt())).done(); }
        if (isa<BreakStmt>(s)) { return snode("break", s).done(); }
        if (isa<ContinueStmt>(s)) { return snode("continue", s).done(); }
        if (auto *x = dyn_cast<ReturnStmt>(s)) {
            auto j = snode("return", s);
            if (x->getRetValue()) { j.raw("e", E(x->getRetValue())); }
            if (x->getNRVOCandidate()) { j.num("nrvo", id(x->getNRVOCandidate())); }
            return j.done();
        }
        if (auto *x = dyn_cast<CXXTryStmt>(s)) {
            std::string hs = "[";
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
                auto *h = x->getHandler(i);
                J j;
                if (auto *v = h->getExceptionDecl()) {
                    j.raw("var", V(v));
                    auto t = h->getCaughtType().getNonReferenceType();
                    j.str("t", tname(t));
                    if (auto *rd = t->getAsCXXRecordDecl()) { j.num("record", record(rd)); }
                }
                j.raw("b", S(h->getHandlerBlock()));
                hs += (hs.size() > 1 ? "," : "") + j.done();
            }
            return snode("try", s).raw("b", S(x->getTryBlock())).raw("h", hs + "]").done();
        }
        if (isa<NullStmt>(s)) { return snode("nop", s).done(); }
        if (auto *x = dyn_cast<LabelStmt>(s)) { return snode("label", s).str("n", x->getName()).raw("s", S(x->getSubStmt())).done(); }
        if (auto *x = dyn_cast<GotoStmt>(s)) { return snode("goto", s).str("n", x->getLabel()->getName()).done(); }
        if (auto *x = dyn_cast<AttributedStmt>(s)) { return S(x->getSubStmt()); }
        return snode("unknown", s).str("c", s->getStmtClassName()).done();
    }

    void function(FunctionDecl *f) {
        FunctionDecl const *def = nullptr;
        if (!f->hasBody(def) || def->isDependentContext() || !ours(def)) { return; }
        auto *d = const_cast<FunctionDecl *>(def);
        int i = id(d);
        fref(d);
        if (!funcs_done.insert(i).second) { return; }
        std::string save = cur;
        cur = fname(d);
        // lambdas print their enclosing function once
        J j;
        j.num("id", i).str("name", cur).num("line", line(d->getLocation())).num("endline", line(d->getEndLoc())).str("file", file(d->getLocation()));
        std::string ps = "[";
        for (auto *p : d->parameters()) {
            J k;
            k.num("id", id(p)).str("name", p->getNameAsString()).str("type", ty(p->getType()));
            k.flag("ref", p->getType()->isReferenceType());
            auto t = p->getType().getNonReferenceType();
            if (auto *rd = t->getAsCXXRecordDecl()) { k.num("record", record(rd)); }
            if (auto *pt = t->getPointeeCXXRecordDecl()) { k.num("precord", record(pt)); }
            ps += (ps.size() > 1 ? "," : "") + k.done();
        }
        j.raw("params", ps + "]").str("ret", ty(d->getReturnType()));
        if (auto *c = dyn_cast<CXXConstructorDecl>(d)) {
            std::string is = "[";
            for (auto *in : c->inits()) {
                J k;
                k.num("l", line(in->getSourceLocation()));
                if (in->isAnyMemberInitializer()) { k.str("field", in->getAnyMember()->getNameAsString()).num("v", id(in->getAnyMember())); }
                else if (in->isBaseInitializer()) { k.num("base", record(in->getBaseClass()->getAsCXXRecordDecl())); }
                else { k.flag("delegate", true); }
                k.raw("e", E(in->getInit()));
                is += (is.size() > 1 ? "," : "") + k.done();
            }
            j.raw("inits", is + "]");
        }
        if (auto *m = dyn_cast<CXXMethodDecl>(d)) { j.num("record", record(m->getParent())); }
        j.raw("body", S(d->getBody()));
        funcs.push_back(j.done());
        cur = save;
    }
    // declared but not defined anywhere in this program (and in the header that is analysed)
    void undefined(FunctionDecl *f) {
        if (!ours(f) || f->isImplicit() || f->isDeleted() || f->isDefaulted() || f->isPureVirtual() || f->isExternC()) { return; }
        if (f->getTemplateInstantiationPattern() != nullptr || f->isFunctionTemplateSpecialization()) { return; }
        FunctionDecl const *def = nullptr;
        if (f->hasBody(def) || !undef_done.insert(f->getCanonicalDecl()).second) { return; }
        for (auto *r : f->redecls()) { if (r->isDefaulted() || r->isDeleted()) { return; } }
        for (DeclContext *c = f->getDeclContext(); c != nullptr; c = c->getParent()) {
            auto *s = dyn_cast<ClassTemplateSpecializationDecl>(c);
            if (s != nullptr && s->getSpecializationKind() != TSK_ExplicitSpecialization) { return; }
        }
        J j;
        j.str("name", f->getQualifiedNameAsString()).num("line", line(f->getLocation())).str("file", file(f->getLocation()));
        undef.push_back(j.done());
    }
    bool VisitFunctionDecl(FunctionDecl *f) { function(f); undefined(f); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl *r) {
        if (ours(r) && !r->isDependentContext() && r->isCompleteDefinition() && !r->isLambda()) { record(r); }
        return true;
    }
    bool VisitEnumDecl(EnumDecl *e) { if (ours(e) && !e->isDependentContext()) { enumeration(e); } return true; }
    bool VisitVarDecl(VarDecl *v) {
        if (ours(v) && v->hasGlobalStorage() && !v->getDeclContext()->isDependentContext() && !v->getType()->isDependentType()) { globalvar(v); }
        return true;
    }
    template <class T> static std::string join(T const &v) {
        std::string s = "[";
        for (auto &x : v) { if (!x.empty()) { s += (s.size() > 1 ? ",\n" : "\n") + x; } }
        return s + "]";
    }
    std::string finish() {
        while (!work.empty()) { auto *f = work.back(); work.pop_back(); function(f); }
        std::vector<std::string> ds;
        for (auto &x : decls) { ds.push_back(x.second); }
        return "{\"functions\":" + join(funcs) + ",\n\"decls\":" + join(ds) + ",\n\"records\":" + join(records) + ",\n\"enums\":" + join(enums) +
               ",\n\"vars\":" + join(vars) + ",\n\"undefined\":" + join(undef) + "}\n";
    }
};

std::string g_out;
class Consumer : public ASTConsumer {
    void HandleTranslationUnit(ASTContext &C) override {
        if (C.getDiagnostics().hasErrorOccurred()) { return; }
        Dumper d(C);
        d.TraverseDecl(C.getTranslationUnitDecl());
        auto s = d.finish();
        std::ofstream(g_out) << s;
    }
};
class Action : public ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};
} // namespace

int main(int argc, char **argv) { // cxdump ROOT ROOT2 OUT FILE ARGS...
    if (argc < 5) { return 2; }
    g_root = argv[1]; g_root2 = argv[2]; g_out = argv[3];
    std::string f = argv[4];
    std::vector<std::string> args(argv + 5, argv + argc);
    std::ifstream in(f);
    std::stringstream ss;
    ss << in.rdbuf();
    return tooling::runToolOnCodeWithArgs(std::make_unique<Action>(), ss.str(), args, f, "cxdump") ? 0 : 1;
}
