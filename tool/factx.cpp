// factx: dumps a normalised, type-resolved syntax tree of every function defined in the analysed
// repository (per translation unit) as JSON on stdout.  Built against libclang-cpp 18.
// It only *reads* source; nothing of the analysed program is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include <map>
#include <unordered_map>
#include <set>
#include <string>
#include <vector>
#include <cstdio>

using namespace clang;

static std::string ROOT = "/repo/";
static std::string OUT;   // buffer
static std::set<std::string> EXTRA_HEADERS;

// ---------------------------------------------------------------- JSON writer
static void jstr(std::string &o, llvm::StringRef s) {
    o += '"';
    for (unsigned char c : s) {
        switch (c) {
        case '"': o += "\\\""; break;
        case '\\': o += "\\\\"; break;
        case '\n': o += "\\n"; break;
        case '\t': o += "\\t"; break;
        case '\r': o += "\\r"; break;
        default:
            if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
            else o += (char)c;
        }
    }
    o += '"';
}

struct Obj {
    std::string s = "{";
    bool first = true;
    Obj &key(const char *k) { if (!first) s += ','; first = false; s += '"'; s += k; s += "\":"; return *this; }
    Obj &str(const char *k, llvm::StringRef v) { key(k); jstr(s, v); return *this; }
    Obj &num(const char *k, long long v) { key(k); s += std::to_string(v); return *this; }
    Obj &raw(const char *k, const std::string &v) { key(k); s += v; return *this; }
    std::string done() { return s + "}"; }
};
static std::string arr(const std::vector<std::string> &v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i) { if (i) s += ','; s += v[i]; }
    return s + "]";
}

struct Dumper {
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    ASTNameGenerator NG;
    std::string tu;
    std::map<std::string, int> types; std::vector<std::string> typeList;
    std::unordered_map<const Decl *, int> varIds;
    std::unordered_map<const Decl *, int> fnIds; std::vector<std::string> fnList;
    std::map<std::string, int> files; std::vector<std::string> fileList;
    std::unordered_map<const Decl *, int> lambdaIds;
    std::vector<std::string> functions, records, globals, enums;
    std::set<const Decl *> doneFns, doneRecs;
    std::vector<const FunctionDecl *> pending; // lambda bodies

    Dumper(ASTContext &c, std::string t) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()), NG(c), tu(t) {
        PP.SuppressTagKeyword = true; PP.Bool = true; PP.FullyQualifiedName = false; PP.SuppressInlineNamespace = true;
    }
    int type(QualType q) {
        if (q.isNull()) return -1;
        std::string s = q.getCanonicalType().getAsString(PP);
        auto it = types.find(s);
        if (it != types.end()) return it->second;
        int id = typeList.size(); types[s] = id;
        // descriptor: [spelling, kind, bits, signed]
        QualType c = q.getCanonicalType().getNonReferenceType().getUnqualifiedType();
        std::string d = "["; jstr(d, s);
        std::string kind = "o"; long long bits = 0; int sg = 0;
        if (!c->isDependentType()) {
            if (c->isBooleanType()) { kind = "b"; bits = 1; }
            else if (c->isEnumeralType()) { kind = "e"; bits = C.getTypeSize(c); }
            else if (c->isIntegerType()) { kind = "i"; bits = C.getTypeSize(c); sg = c->isSignedIntegerType(); }
            else if (c->isRealFloatingType()) { kind = "f"; bits = C.getTypeSize(c); sg = 1; }
            else if (c->isPointerType()) { kind = "p"; bits = 64; }
            else if (c->isVoidType()) { kind = "v"; }
        }
        d += ",\"" + kind + "\"," + std::to_string(bits) + "," + std::to_string(sg) + ",";
        d += q->isReferenceType() ? "1" : "0"; d += ",";
        d += q.getNonReferenceType().isConstQualified() ? "1" : "0"; d += ",";
        jstr(d, c.getAsString(PP)); d += "]";
        typeList.push_back(d);
        return id;
    }
    int fileId(llvm::StringRef f) {
        auto it = files.find(f.str()); if (it != files.end()) return it->second;
        int id = fileList.size(); files[f.str()] = id; std::string s; jstr(s, f); fileList.push_back(s); return id;
    }
    std::string fileOf(SourceLocation L) {
        if (L.isInvalid()) return "";
        PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
        return P.isValid() ? std::string(P.getFilename()) : "";
    }
    int lineOf(SourceLocation L) {
        if (L.isInvalid()) return 0;
        return SM.getExpansionLineNumber(L);
    }
    static std::string norm(std::string f) {
        // collapse a/../b
        std::vector<std::string> parts; std::string cur; bool abs = !f.empty() && f[0] == '/';
        for (char ch : f + "/") {
            if (ch == '/') { if (cur == "..") { if (!parts.empty()) parts.pop_back(); } else if (!cur.empty() && cur != ".") parts.push_back(cur); cur.clear(); }
            else cur += ch;
        }
        std::string o; for (auto &p : parts) o += "/" + p; return abs ? o : o.substr(o.empty() ? 0 : 1);
    }
    bool inRepo(SourceLocation L) {
        std::string f = norm(fileOf(L));
        if (f.compare(0, ROOT.size(), ROOT) != 0) return false;
        if (f.find("/external/") != std::string::npos || f.find("/tests/") != std::string::npos || f.find("/_build") != std::string::npos) return false;
        if (f.find("clipp.h") != std::string::npos) return false;
        return true;
    }
    std::string key(const FunctionDecl *F) {
        const DeclContext *DC = F->getDeclContext();
        bool local = false;
        for (const DeclContext *d = DC; d; d = d->getParent()) { if (d->isFunctionOrMethod()) local = true; if (auto *R = dyn_cast<CXXRecordDecl>(d)) if (R->isLambda()) local = true; }
        if (local) {
            const Decl *cd = F->getCanonicalDecl();
            auto it = lambdaIds.find(cd); int id;
            if (it == lambdaIds.end()) { id = lambdaIds.size(); lambdaIds[cd] = id; } else id = it->second;
            return "local:" + tu + ":" + std::to_string(id);
        }
        if (F->isDependentContext()) return "dep:" + F->getQualifiedNameAsString() + ":" + std::to_string(lineOf(F->getLocation()));
        std::string m;
        if (auto *D = dyn_cast<CXXConstructorDecl>(F)) {
            std::unique_ptr<MangleContext> MC(C.createMangleContext());
            llvm::raw_string_ostream os(m); MC->mangleName(GlobalDecl(D, Ctor_Complete), os); os.flush();
        } else if (auto *D = dyn_cast<CXXDestructorDecl>(F)) {
            std::unique_ptr<MangleContext> MC(C.createMangleContext());
            llvm::raw_string_ostream os(m); MC->mangleName(GlobalDecl(D, Dtor_Complete), os); os.flush();
        } else {
            std::unique_ptr<MangleContext> MC(C.createMangleContext());
            if (MC->shouldMangleDeclName(F)) { llvm::raw_string_ostream os(m); MC->mangleName(GlobalDecl(F), os); os.flush(); }
            else m = F->getNameAsString();
        }
        if (!F->isExternallyVisible()) m = tu + "!" + m;
        return m;
    }
    static std::string qn(const NamedDecl *D) {
        std::string s; llvm::raw_string_ostream os(s);
        LangOptions lo; PrintingPolicy pp(lo); pp.SuppressUnwrittenScope = false; pp.SuppressInlineNamespace = true;
        D->printQualifiedName(os, pp); os.flush(); return s;
    }
    static std::string plainqn(const NamedDecl *D) {
        // qualified name with no template arguments anywhere
        std::vector<std::string> parts; parts.push_back(D->getNameAsString());
        for (const DeclContext *d = D->getDeclContext(); d; d = d->getParent()) {
            if (auto *N = dyn_cast<NamespaceDecl>(d)) { if (N->isInline()) continue; parts.push_back(N->isAnonymousNamespace() ? "(anon)" : N->getNameAsString()); }
            else if (auto *R = dyn_cast<RecordDecl>(d)) parts.push_back(R->getNameAsString().empty() ? "(lambda)" : R->getNameAsString());
            else if (auto *E = dyn_cast<EnumDecl>(d)) { if (E->isScoped()) parts.push_back(E->getNameAsString()); }
            else if (auto *F = dyn_cast<FunctionDecl>(d)) parts.push_back(F->getNameAsString());
        }
        std::string s; for (auto it = parts.rbegin(); it != parts.rend(); ++it) { if (!s.empty()) s += "::"; s += *it; }
        return s;
    }
    std::string targs(const TemplateArgumentList *L) {
        std::vector<std::string> v;
        if (L) for (const TemplateArgument &A : L->asArray()) targ(A, v);
        return arr(v);
    }
    void targ(const TemplateArgument &A, std::vector<std::string> &v) {
        if (A.getKind() == TemplateArgument::Pack) { for (auto &P : A.pack_elements()) targ(P, v); return; }
        std::string s;
        if (A.getKind() == TemplateArgument::Type) { jstr(s, A.getAsType().getCanonicalType().getAsString(PP)); }
        else if (A.getKind() == TemplateArgument::Integral) { llvm::SmallString<16> t; A.getAsIntegral().toString(t, 10); jstr(s, t); }
        else { std::string t; llvm::raw_string_ostream os(t); A.print(PP, os, true); os.flush(); jstr(s, t); }
        v.push_back(s);
    }
    int fn(const FunctionDecl *F) {
        const FunctionDecl *D = F->getCanonicalDecl();
        auto it = fnIds.find(D); if (it != fnIds.end()) return it->second;
        int id = fnList.size(); fnIds[D] = id; fnList.push_back("");
        Obj o; o.str("key", key(F)); o.str("qn", plainqn(F));
        std::vector<std::string> ps; for (auto *P : F->parameters()) ps.push_back(std::to_string(type(P->getType())));
        o.raw("pt", arr(ps)); o.num("rt", type(F->getReturnType()));
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o.str("cls", plainqn(M->getParent())); if (M->isStatic()) o.num("static", 1); if (M->isConst()) o.num("const", 1); if (M->isVirtual()) o.num("virt", 1);
            if (M->isInstance() && !isa<CXXConstructorDecl>(M) && M->isImplicitObjectMemberFunction()) o.num("thist", type(C.getRecordType(M->getParent())));
            if (M->getParent()->isLambda()) o.num("lam", 1);
            if (M->isCopyAssignmentOperator()) o.num("casg", 1);
            if (M->isMoveAssignmentOperator()) o.num("masg", 1);
            if (!M->isUserProvided()) o.num("implicit", 1);
        }
        if (auto *T = F->getTemplateSpecializationArgs()) o.raw("ta", targs(T));
        if (F->isVariadic()) o.num("va", 1);
        if (F->isNoReturn()) o.num("noret", 1);
        if (const FunctionDecl *Def = F->getDefinition()) if (inRepo(Def->getLocation())) o.num("in", 1);
        if (inRepo(F->getLocation())) o.num("rd", 1);
        fnList[id] = o.done();
        return id;
    }
    int var(const ValueDecl *D) {
        const Decl *c = D->getCanonicalDecl();
        auto it = varIds.find(c); if (it != varIds.end()) return it->second;
        int id = varIds.size(); varIds[c] = id; return id;
    }
    std::string num(const llvm::APSInt &v) { llvm::SmallString<32> t; v.toString(t, 10); return std::string(t); }

    // ------------------------------------------------------------ expressions
    std::string unk(const Stmt *S) {
        std::vector<std::string> ch; for (const Stmt *c : S->children()) if (c) ch.push_back(stmt(c));
        Obj o; o.str("k", "unk"); o.str("c", S->getStmtClassName()); o.num("l", lineOf(S->getBeginLoc())); o.raw("a", arr(ch)); return o.done();
    }
    std::string exprs(llvm::ArrayRef<const Expr *> v) { std::vector<std::string> r; for (auto *e : v) r.push_back(expr(e)); return arr(r); }
    bool constInt(const Expr *E, std::string &out) {
        if (E->isValueDependent() || E->isTypeDependent()) return false;
        if (!E->getType()->isIntegralOrEnumerationType()) return false;
        Expr::EvalResult R; if (!E->EvaluateAsInt(R, C)) return false;
        out = num(R.Val.getInt()); return true;
    }
    std::string lambda(const LambdaExpr *L) {
        Obj o; o.str("k", "lambda"); o.num("l", lineOf(L->getBeginLoc()));
        const CXXMethodDecl *op = L->getCallOperator();
        o.num("f", fn(op)); pending.push_back(op);
        std::vector<std::string> insts;
        if (auto *FT = op->getDescribedFunctionTemplate()) for (auto *S : FT->specializations()) { insts.push_back(std::to_string(fn(S))); pending.push_back(S); }
        if (!insts.empty()) o.raw("inst", arr(insts));
        std::vector<std::string> caps; auto ii = L->capture_init_begin();
        for (const LambdaCapture &c : L->captures()) {
            Obj k;
            if (c.capturesThis()) { k.str("n", "this"); k.num("ref", c.getCaptureKind() == LCK_This); }
            else if (c.capturesVariable()) {
                k.str("n", c.getCapturedVar()->getNameAsString()); k.num("id", var(c.getCapturedVar())); k.num("ref", c.getCaptureKind() == LCK_ByRef);
                if (*ii) k.raw("e", expr(*ii));
                if (c.getCapturedVar()->isInitCapture()) k.num("initcap", 1);
            }
            caps.push_back(k.done()); ++ii;
        }
        o.raw("caps", arr(caps)); if (L->isMutable()) o.num("mut", 1);
        return o.done();
    }
    std::string declref(const DeclRefExpr *D) {
        const ValueDecl *V = D->getDecl();
        Obj o;
        if (auto *F = dyn_cast<FunctionDecl>(V)) { o.str("k", "fn"); o.num("f", fn(F)); o.num("l", lineOf(D->getLocation())); return o.done(); }
        o.str("k", "var"); o.str("n", V->getNameAsString()); o.num("l", lineOf(D->getLocation())); o.num("t", type(V->getType()));
        if (auto *E = dyn_cast<EnumConstantDecl>(V)) { o.str("d", "enum"); o.str("qn", plainqn(E)); o.raw("cv", num(E->getInitVal())); return o.done(); }
        if (auto *P = dyn_cast<ParmVarDecl>(V)) { o.str("d", "param"); o.num("id", var(P)); }
        else if (auto *B = dyn_cast<BindingDecl>(V)) { o.str("d", "local"); o.num("id", var(B)); o.num("bind", 1); }
        else if (auto *VD = dyn_cast<VarDecl>(V)) {
            if (VD->isLocalVarDecl()) { o.str("d", VD->isStaticLocal() ? "slocal" : "local"); o.num("id", var(VD)); }
            else { o.str("d", "global"); o.str("qn", plainqn(VD)); o.num("id", var(VD)); }
            if (VD->getType().isConstQualified() || VD->isConstexpr()) { std::string cv; if (constInt(D, cv)) o.raw("cv", cv); }
        } else { o.str("d", "other"); o.num("id", var(V)); }
        if (D->refersToEnclosingVariableOrCapture()) o.num("cap", 1);
        return o.done();
    }
    static const Expr *strip(const Expr *E) {
        while (E) {
            if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<FullExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
            if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
            if (auto *P = dyn_cast<OpaqueValueExpr>(E)) { if (!P->getSourceExpr()) break; E = P->getSourceExpr(); continue; }
            if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) { E = P->getSemanticForm(); continue; }
            if (auto *P = dyn_cast<GenericSelectionExpr>(E)) { E = P->getResultExpr(); continue; }
            if (auto *P = dyn_cast<CastExpr>(E)) {
                switch (P->getCastKind()) {
                case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay: case CK_UncheckedDerivedToBase: case CK_DerivedToBase:
                case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_BuiltinFnToFnPtr:
                    E = P->getSubExpr(); continue;
                default: break;
                }
            }
            break;
        }
        return E;
    }
    std::string expr(const Expr *E0) {
        const Expr *E = strip(E0);
        if (!E) return "null";
        Obj o; int L = lineOf(E->getExprLoc());
        auto T = [&](Obj &x) -> Obj & { x.num("l", L); x.num("t", type(E->getType())); return x; };
        switch (E->getStmtClass()) {
        case Stmt::IntegerLiteralClass: { o.str("k", "int"); T(o); llvm::SmallString<32> t; cast<IntegerLiteral>(E)->getValue().toString(t, 10, E->getType()->isSignedIntegerType()); o.raw("v", std::string(t)); return o.done(); }
        case Stmt::CharacterLiteralClass: { o.str("k", "int"); T(o); o.num("v", cast<CharacterLiteral>(E)->getValue()); return o.done(); }
        case Stmt::CXXBoolLiteralExprClass: { o.str("k", "int"); T(o); o.num("v", cast<CXXBoolLiteralExpr>(E)->getValue()); return o.done(); }
        case Stmt::FloatingLiteralClass: { o.str("k", "flt"); T(o); llvm::SmallString<32> t; cast<FloatingLiteral>(E)->getValue().toString(t, 17); o.str("v", t); return o.done(); }
        case Stmt::StringLiteralClass: { o.str("k", "str"); T(o); auto *S = cast<StringLiteral>(E); o.str("v", S->getCharByteWidth() == 1 ? S->getBytes() : llvm::StringRef("<wide>")); return o.done(); }
        case Stmt::PredefinedExprClass: { o.str("k", "str"); T(o); o.str("v", "__func__"); return o.done(); }
        case Stmt::UserDefinedLiteralClass: return unk(E);
        case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: { o.str("k", "null"); T(o); return o.done(); }
        case Stmt::DeclRefExprClass: return declref(cast<DeclRefExpr>(E));
        case Stmt::CXXThisExprClass: { o.str("k", "this"); T(o); return o.done(); }
        case Stmt::MemberExprClass: {
            auto *M = cast<MemberExpr>(E);
            if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) {
                o.str("k", "mem"); T(o); o.raw("b", expr(M->getBase())); o.str("f", F->getNameAsString()); o.str("fc", plainqn(F->getParent())); if (M->isArrow()) o.num("arrow", 1); return o.done();
            }
            if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) {
                o.str("k", "var"); o.str("n", V->getNameAsString()); T(o); o.str("d", "global"); o.str("qn", plainqn(V)); o.num("id", var(V)); std::string cv; if (constInt(E, cv)) o.raw("cv", cv); return o.done();
            }
            if (auto *EC = dyn_cast<EnumConstantDecl>(M->getMemberDecl())) { o.str("k", "var"); o.str("n", EC->getNameAsString()); T(o); o.str("d", "enum"); o.str("qn", plainqn(EC)); o.raw("cv", num(EC->getInitVal())); return o.done(); }
            if (auto *MF = dyn_cast<CXXMethodDecl>(M->getMemberDecl())) { o.str("k", "memfn"); T(o); o.raw("b", expr(M->getBase())); o.num("f", fn(MF)); return o.done(); }
            return unk(E);
        }
        case Stmt::CXXMemberCallExprClass: {
            auto *M = cast<CXXMemberCallExpr>(E); auto *F = M->getMethodDecl();
            if (!F) { o.str("k", "icall"); T(o); o.raw("fe", expr(M->getCallee())); o.raw("a", exprs({M->getArgs(), M->getNumArgs()})); return o.done(); }
            o.str("k", "call"); T(o); o.num("f", fn(F)); o.raw("obj", expr(M->getImplicitObjectArgument()));
            if (auto *ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens())) if (ME->isArrow()) o.num("arrow", 1);
            o.raw("a", exprs({M->getArgs(), M->getNumArgs()})); return o.done();
        }
        case Stmt::CXXOperatorCallExprClass: {
            auto *M = cast<CXXOperatorCallExpr>(E); auto *F = dyn_cast_or_null<FunctionDecl>(M->getCalleeDecl());
            if (!F) return unk(E);
            o.str("k", "call"); T(o); o.num("f", fn(F)); o.str("op", getOperatorSpelling(M->getOperator()));
            std::vector<const Expr *> as(M->arg_begin(), M->arg_end());
            if (auto *MD = dyn_cast<CXXMethodDecl>(F)) if (MD->isInstance()) { o.raw("obj", expr(as[0])); as.erase(as.begin()); }
            o.raw("a", exprs(as)); return o.done();
        }
        case Stmt::CUDAKernelCallExprClass:
        case Stmt::CallExprClass: {
            auto *M = cast<CallExpr>(E);
            if (auto *F = M->getDirectCallee()) { o.str("k", "call"); T(o); o.num("f", fn(F)); o.raw("a", exprs({M->getArgs(), M->getNumArgs()})); return o.done(); }
            o.str("k", "icall"); T(o); o.raw("fe", expr(M->getCallee())); o.raw("a", exprs({M->getArgs(), M->getNumArgs()})); return o.done();
        }
        case Stmt::CXXTemporaryObjectExprClass:
        case Stmt::CXXConstructExprClass: {
            auto *M = cast<CXXConstructExpr>(E); auto *D = M->getConstructor();
            if (M->isElidable() && M->getNumArgs() >= 1) return expr(M->getArg(0));
            if (M->isStdInitListInitialization() || true) {
                o.str("k", "ctor"); T(o); o.num("f", fn(D)); o.str("cls", plainqn(D->getParent()));
                if (D->isCopyConstructor()) o.num("copy", 1); if (D->isMoveConstructor()) o.num("move", 1);
                if (D->isDefaultConstructor()) o.num("dflt", 1);
                if (M->requiresZeroInitialization()) o.num("zi", 1);
                if (!D->isUserProvided()) o.num("implicit", 1);
                o.raw("a", exprs({M->getArgs(), M->getNumArgs()})); return o.done();
            }
        }
        case Stmt::InitListExprClass: {
            auto *I = cast<InitListExpr>(E); if (auto *S = I->getSemanticForm()) I = S;
            if (I->isTransparent() && I->getNumInits() == 1) return expr(I->getInit(0));
            o.str("k", "init"); T(o); std::vector<std::string> v; for (unsigned i = 0; i < I->getNumInits(); ++i) v.push_back(expr(I->getInit(i))); o.raw("a", arr(v));
            if (auto *RT = I->getType()->getAsCXXRecordDecl()) o.str("cls", plainqn(RT));
            return o.done();
        }
        case Stmt::ImplicitValueInitExprClass: case Stmt::CXXScalarValueInitExprClass: { o.str("k", "zero"); T(o); return o.done(); }
        case Stmt::CXXDefaultArgExprClass: {
            std::string s = expr(cast<CXXDefaultArgExpr>(E)->getExpr());
            if (!s.empty() && s[0] == '{') s = "{\"dfa\":1," + s.substr(1); return s;
        }
        case Stmt::LambdaExprClass: return lambda(cast<LambdaExpr>(E));
        case Stmt::UnaryOperatorClass: { auto *U = cast<UnaryOperator>(E); o.str("k", "un"); T(o); o.str("op", (U->isPostfix() ? "p" : "") + UnaryOperator::getOpcodeStr(U->getOpcode()).str()); o.raw("e", expr(U->getSubExpr())); return o.done(); }
        case Stmt::CompoundAssignOperatorClass: {
            auto *B = cast<CompoundAssignOperator>(E); o.str("k", "asg"); T(o); std::string op = B->getOpcodeStr().str(); op.pop_back(); o.str("op", op);
            o.num("ct", type(B->getComputationResultType())); o.raw("x", expr(B->getLHS())); o.raw("y", expr(B->getRHS())); return o.done();
        }
        case Stmt::BinaryOperatorClass: {
            auto *B = cast<BinaryOperator>(E);
            if (B->getOpcode() == BO_Assign) { o.str("k", "asg"); T(o); o.str("op", ""); o.raw("x", expr(B->getLHS())); o.raw("y", expr(B->getRHS())); return o.done(); }
            o.str("k", "bin"); T(o); o.str("op", B->getOpcodeStr()); o.raw("x", expr(B->getLHS())); o.raw("y", expr(B->getRHS())); return o.done();
        }
        case Stmt::ConditionalOperatorClass: { auto *B = cast<ConditionalOperator>(E); o.str("k", "cond"); T(o); o.raw("c", expr(B->getCond())); o.raw("x", expr(B->getTrueExpr())); o.raw("y", expr(B->getFalseExpr())); return o.done(); }
        case Stmt::ArraySubscriptExprClass: { auto *B = cast<ArraySubscriptExpr>(E); o.str("k", "idx"); T(o); o.raw("b", expr(B->getBase())); o.raw("i", expr(B->getIdx())); return o.done(); }
        case Stmt::CXXNewExprClass: { auto *N = cast<CXXNewExpr>(E); o.str("k", "new"); T(o); o.num("at", type(N->getAllocatedType())); if (N->isArray() && N->getArraySize()) o.raw("n", expr(*N->getArraySize())); if (N->getInitializer()) o.raw("e", expr(N->getInitializer())); return o.done(); }
        case Stmt::CXXDeleteExprClass: { auto *N = cast<CXXDeleteExpr>(E); o.str("k", "delete"); T(o); if (N->isArrayForm()) o.num("arr", 1); o.raw("e", expr(N->getArgument())); return o.done(); }
        case Stmt::CXXThrowExprClass: { auto *N = cast<CXXThrowExpr>(E); o.str("k", "throw"); o.num("l", L); if (N->getSubExpr()) { o.num("et", type(N->getSubExpr()->getType())); o.raw("e", expr(N->getSubExpr())); } return o.done(); }
        case Stmt::UnaryExprOrTypeTraitExprClass: { std::string v; if (constInt(E, v)) { o.str("k", "int"); T(o); o.raw("v", v); auto *S = cast<UnaryExprOrTypeTraitExpr>(E); if (S->getKind() == UETT_SizeOf) o.num("szof", type(S->getTypeOfArgument())); return o.done(); } return unk(E); }
        case Stmt::TypeTraitExprClass: case Stmt::SizeOfPackExprClass: case Stmt::CXXNoexceptExprClass: { std::string v; if (constInt(E, v)) { o.str("k", "int"); T(o); o.raw("v", v); return o.done(); } return unk(E); }
        case Stmt::CXXTypeidExprClass: { o.str("k", "typeid"); T(o); return o.done(); }
        default: break;
        }
        if (auto *P = dyn_cast<CastExpr>(E)) {
            o.str("k", "cast"); o.num("l", L); o.str("ck", P->getCastKindName()); o.num("t", type(E->getType())); o.num("from", type(P->getSubExpr()->getType()));
            if (!isa<ImplicitCastExpr>(P)) o.num("ex", 1);
            o.raw("e", expr(P->getSubExpr())); return o.done();
        }
        return unk(E);
    }
    // ------------------------------------------------------------ statements
    std::string vardecl(const VarDecl *V) {
        Obj o; o.str("n", V->getNameAsString()); o.num("id", var(V)); o.num("t", type(V->getType())); o.num("l", lineOf(V->getLocation()));
        if (V->isStaticLocal()) o.num("static", 1);
        if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
            std::vector<std::string> b; for (auto *B : DD->bindings()) { Obj k; k.str("n", B->getNameAsString()); k.num("id", var(B)); k.num("t", type(B->getType()));
                if (auto *e = B->getBinding()) { if (auto *hv = B->getHoldingVar()) { if (hv->getInit()) k.raw("e", expr(hv->getInit())); } else k.raw("e", expr(e)); }
                b.push_back(k.done()); }
            o.raw("binds", arr(b));
        }
        if (V->getInit()) o.raw("e", expr(V->getInit()));
        return o.done();
    }
    std::string stmt(const Stmt *S) {
        if (!S) return "null";
        if (auto *E = dyn_cast<Expr>(S)) return expr(E);
        Obj o; int L = lineOf(S->getBeginLoc());
        switch (S->getStmtClass()) {
        case Stmt::CompoundStmtClass: { std::vector<std::string> v; for (auto *c : cast<CompoundStmt>(S)->body()) v.push_back(stmt(c)); o.str("k", "block"); o.num("l", L); o.num("el", lineOf(S->getEndLoc())); o.raw("s", arr(v)); return o.done(); }
        case Stmt::DeclStmtClass: { std::vector<std::string> v; for (auto *d : cast<DeclStmt>(S)->decls()) if (auto *V = dyn_cast<VarDecl>(d)) v.push_back(vardecl(V)); o.str("k", "decl"); o.num("l", L); o.raw("v", arr(v)); return o.done(); }
        case Stmt::IfStmtClass: { auto *I = cast<IfStmt>(S);
            if (I->isConstexpr()) { if (auto nd = I->getNondiscardedCase(C)) { const Stmt *b = *nd; if (!b) { o.str("k", "block"); o.num("l", L); o.raw("s", "[]"); return o.done(); } return stmt(b); } }
            o.str("k", "if"); o.num("l", L); if (I->getInit()) o.raw("init", stmt(I->getInit())); if (I->getConditionVariable()) o.raw("cv", vardecl(I->getConditionVariable()));
            o.raw("c", expr(I->getCond())); o.raw("x", stmt(I->getThen())); if (I->getElse()) o.raw("y", stmt(I->getElse())); return o.done(); }
        case Stmt::WhileStmtClass: { auto *I = cast<WhileStmt>(S); o.str("k", "while"); o.num("l", L); o.raw("c", expr(I->getCond())); o.raw("b", stmt(I->getBody())); return o.done(); }
        case Stmt::DoStmtClass: { auto *I = cast<DoStmt>(S); o.str("k", "do"); o.num("l", L); o.raw("c", expr(I->getCond())); o.raw("b", stmt(I->getBody())); return o.done(); }
        case Stmt::ForStmtClass: { auto *I = cast<ForStmt>(S); o.str("k", "for"); o.num("l", L); if (I->getInit()) o.raw("init", stmt(I->getInit())); if (I->getCond()) o.raw("c", expr(I->getCond())); if (I->getInc()) o.raw("inc", expr(I->getInc())); o.raw("b", stmt(I->getBody())); return o.done(); }
        case Stmt::CXXForRangeStmtClass: { auto *I = cast<CXXForRangeStmt>(S); o.str("k", "rfor"); o.num("l", L); o.raw("r", expr(I->getRangeInit()));
            const VarDecl *V = I->getLoopVariable(); o.raw("v", vardecl(V)); o.raw("b", stmt(I->getBody())); return o.done(); }
        case Stmt::SwitchStmtClass: { auto *I = cast<SwitchStmt>(S); o.str("k", "switch"); o.num("l", L); o.raw("c", expr(I->getCond())); o.raw("b", stmt(I->getBody())); return o.done(); }
        case Stmt::CaseStmtClass: { auto *I = cast<CaseStmt>(S); o.str("k", "case"); o.num("l", L); o.raw("c", expr(I->getLHS())); std::string v; if (constInt(I->getLHS(), v)) o.raw("cv", v); o.raw("b", stmt(I->getSubStmt())); return o.done(); }
        case Stmt::DefaultStmtClass: { o.str("k", "default"); o.num("l", L); o.raw("b", stmt(cast<DefaultStmt>(S)->getSubStmt())); return o.done(); }
        case Stmt::ReturnStmtClass: { o.str("k", "ret"); o.num("l", L); if (auto *e = cast<ReturnStmt>(S)->getRetValue()) o.raw("e", expr(e)); return o.done(); }
        case Stmt::BreakStmtClass: { o.str("k", "break"); o.num("l", L); return o.done(); }
        case Stmt::ContinueStmtClass: { o.str("k", "continue"); o.num("l", L); return o.done(); }
        case Stmt::NullStmtClass: { o.str("k", "block"); o.num("l", L); o.raw("s", "[]"); return o.done(); }
        case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(S)->getSubStmt());
        case Stmt::CXXTryStmtClass: { auto *I = cast<CXXTryStmt>(S); o.str("k", "try"); o.num("l", L); o.raw("b", stmt(I->getTryBlock())); std::vector<std::string> v;
            for (unsigned i = 0; i < I->getNumHandlers(); ++i) { auto *H = I->getHandler(i); Obj k; k.num("l", lineOf(H->getBeginLoc())); k.num("t", H->getCaughtType().isNull() ? -1 : type(H->getCaughtType())); if (H->getExceptionDecl()) k.raw("v", vardecl(H->getExceptionDecl())); k.raw("b", stmt(H->getHandlerBlock())); v.push_back(k.done()); }
            o.raw("h", arr(v)); return o.done(); }
        default: break;
        }
        return unk(S);
    }
    // ------------------------------------------------------------ functions
    void function(const FunctionDecl *F) {
        const FunctionDecl *Def = nullptr;
        if (!F->hasBody(Def)) { if (F->isDefaulted()) {} return; }
        F = Def;
        if (F->isDependentContext()) return;
        bool lam = false; if (auto *M = dyn_cast<CXXMethodDecl>(F)) lam = M->getParent()->isLambda();
        if (!inRepo(F->getLocation())) return;
        if (!doneFns.insert(F->getCanonicalDecl()).second) return;
        (void)lam;
        Obj o; o.num("f", fn(F)); o.str("key", key(F)); o.str("qn", plainqn(F)); o.str("dqn", qn(F));
        std::string file = norm(fileOf(F->getLocation())); o.num("file", fileId(file)); o.num("l", lineOf(F->getLocation())); o.num("el", lineOf(F->getEndLoc()));
        std::vector<std::string> ps; for (auto *P : F->parameters()) { Obj k; k.str("n", P->getNameAsString()); k.num("id", var(P)); k.num("t", type(P->getType())); if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg() && P->getDefaultArg()) k.raw("d", expr(P->getDefaultArg())); ps.push_back(k.done()); }
        o.raw("p", arr(ps)); o.num("rt", type(F->getReturnType()));
        if (F->isImplicit()) o.num("implicit", 1); if (F->isDefaulted()) o.num("defaulted", 1);
        if (auto *T = F->getTemplateSpecializationArgs()) { o.raw("ta", targs(T)); }
        // parent chain for members of instantiated class templates
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) { o.str("cls", plainqn(M->getParent()));
            if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(M->getParent())) o.raw("cta", targs(&S->getTemplateArgs()));
            if (M->getParent()->isLambda()) o.num("lam", 1);
            if (M->isStatic()) o.num("static", 1); if (M->isVirtual()) o.num("virt", 1); if (M->isConst()) o.num("const", 1); }
        if (auto *D = dyn_cast<CXXConstructorDecl>(F)) {
            o.num("isctor", 1); std::vector<std::string> v;
            for (auto *I : D->inits()) { Obj k; if (I->isMemberInitializer()) k.str("m", I->getMember()->getNameAsString()); else if (I->isBaseInitializer()) k.str("b", QualType(I->getBaseClass(), 0).getAsString(PP)); else if (I->isDelegatingInitializer()) k.num("deleg", 1); else if (I->isIndirectMemberInitializer()) k.str("m", I->getIndirectMember()->getNameAsString());
                k.num("w", I->isWritten()); if (I->isInClassMemberInitializer()) k.num("inclass", 1); k.raw("e", expr(I->getInit())); v.push_back(k.done()); }
            o.raw("inits", arr(v));
        }
        if (isa<CXXDestructorDecl>(F)) o.num("isdtor", 1);
        o.raw("b", stmt(F->getBody()));
        functions.push_back(o.done());
    }
    void record(const CXXRecordDecl *R) {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
        if (!inRepo(R->getLocation())) return;
        if (!doneRecs.insert(R).second) return;
        Obj o; o.str("qn", plainqn(R)); o.num("file", fileId(norm(fileOf(R->getLocation())))); o.num("l", lineOf(R->getLocation()));
        std::vector<std::string> fs;
        for (auto *F : R->fields()) { Obj k; k.str("n", F->getNameAsString()); k.num("t", type(F->getType())); k.num("l", lineOf(F->getLocation())); if (F->hasInClassInitializer() && F->getInClassInitializer()) k.raw("e", expr(F->getInClassInitializer()));
            const CXXRecordDecl *fr = F->getType()->getAsCXXRecordDecl(); k.num("cls", fr != nullptr); if (F->getType()->isPointerType()) k.num("ptr", 1); if (F->isMutable()) k.num("mutable", 1); fs.push_back(k.done()); }
        o.raw("fields", arr(fs));
        std::vector<std::string> bs; if (R->hasDefinition()) for (auto &B : R->bases()) { std::string s; jstr(s, B.getType().getCanonicalType().getAsString(PP)); bs.push_back(s); } o.raw("bases", arr(bs));
        std::vector<std::string> ms; for (auto *M : R->methods()) { Obj k; k.str("n", M->getNameAsString()); k.num("f", fn(M)); if (M->isImplicit()) k.num("imp", 1); if (M->isDefaulted()) k.num("dfl", 1); if (M->isDeleted()) k.num("del", 1); if (isa<CXXDestructorDecl>(M)) k.num("dtor", 1);
            if (auto *D = dyn_cast<CXXConstructorDecl>(M)) { k.num("ctor", 1); if (D->isCopyConstructor()) k.num("copy", 1); if (D->isMoveConstructor()) k.num("move", 1); if (D->isDefaultConstructor()) k.num("dflt", 1); }
            if (M->isCopyAssignmentOperator()) k.num("casg", 1); if (M->isMoveAssignmentOperator()) k.num("masg", 1);
            std::vector<std::string> ps; for (auto *P : M->parameters()) { std::string s; jstr(s, P->getNameAsString()); ps.push_back(s); } k.raw("pn", arr(ps));
            ms.push_back(k.done()); }
        o.raw("methods", arr(ms));
        o.num("hascopy", R->hasUserDeclaredCopyConstructor()); o.num("hasmove", R->hasUserDeclaredMoveConstructor()); o.num("hasdtor", R->hasUserDeclaredDestructor()); o.num("agg", R->isAggregate());
        records.push_back(o.done());
    }
    void global(const VarDecl *V) {
        if (!V->isFileVarDecl() && !V->isStaticDataMember()) return;
        if (V->isThisDeclarationADefinition() != VarDecl::Definition) return;
        if (!inRepo(V->getLocation()) || V->getType()->isDependentType() || V->getDeclContext()->isDependentContext()) return;
        Obj o; o.str("qn", plainqn(V)); o.num("id", var(V)); o.num("t", type(V->getType())); o.num("l", lineOf(V->getLocation())); o.num("file", fileId(norm(fileOf(V->getLocation())))); if (V->getInit()) o.raw("e", expr(V->getInit())); globals.push_back(o.done());
    }
    void enumd(const EnumDecl *E) {
        if (!inRepo(E->getLocation()) || !E->isThisDeclarationADefinition()) return;
        Obj o; o.str("qn", plainqn(E)); o.num("l", lineOf(E->getLocation())); o.num("file", fileId(norm(fileOf(E->getLocation())))); std::vector<std::string> v; for (auto *c : E->enumerators()) { std::string s = "["; jstr(s, c->getNameAsString()); s += "," + num(c->getInitVal()) + "]"; v.push_back(s); } o.raw("v", arr(v)); enums.push_back(o.done());
    }
    void flush() {
        while (!pending.empty()) { auto *f = pending.back(); pending.pop_back(); function(f); }
    }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
    Dumper &D; Visitor(Dumper &d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *F) { if (F->doesThisDeclarationHaveABody()) { D.function(F); D.flush(); } return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) { D.record(R); return true; }
    bool VisitVarDecl(VarDecl *V) { D.global(V); return true; }
    bool VisitEnumDecl(EnumDecl *E) { D.enumd(E); return true; }
};

struct Consumer : ASTConsumer {
    std::string tu; CompilerInstance &CI; Consumer(CompilerInstance &ci, std::string t) : tu(t), CI(ci) {}
    void HandleTranslationUnit(ASTContext &C) override {
        if (CI.getDiagnostics().hasErrorOccurred()) return;
        Dumper D(C, tu); Visitor V(D);
        // only walk declarations located in the repo (namespaces from system headers are skipped whole)
        for (auto *d : C.getTranslationUnitDecl()->decls()) {
            if (isa<NamespaceDecl>(d) || D.inRepo(d->getLocation())) { if (D.inRepo(d->getLocation())) V.TraverseDecl(d); }
        }
        D.flush();
        // header dependency list
        std::vector<std::string> deps; SourceManager &SM = C.getSourceManager();
        for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) { std::string f = Dumper::norm(it->first.getName().str()); if (f.compare(0, ROOT.size(), ROOT) == 0) { std::string s; jstr(s, f); deps.push_back(s); } }
        Obj o; o.str("tu", tu); o.raw("types", arr(D.typeList)); o.raw("fns", arr(D.fnList)); o.raw("files", arr(D.fileList)); o.raw("functions", arr(D.functions)); o.raw("records", arr(D.records)); o.raw("globals", arr(D.globals)); o.raw("enums", arr(D.enums)); o.raw("deps", arr(deps));
        OUT = o.done();
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef f) override { return std::make_unique<Consumer>(CI, f.str()); }
};

int main(int argc, char **argv) {
    // usage: factx ROOT FILE OUTFILE -- flags...
    if (argc < 5) { fprintf(stderr, "usage: factx ROOT FILE OUT -- flags\n"); return 2; }
    ROOT = argv[1]; if (ROOT.back() != '/') ROOT += '/';
    std::string file = argv[2], out = argv[3];
    std::vector<std::string> flags(argv + 5, argv + argc);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {file});
    struct F : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); } } fac;
    int rc = tool.run(&fac);
    if (rc != 0 || OUT.empty()) { fprintf(stderr, "factx: could not parse %s\n", file.c_str()); return 3; }
    FILE *f = fopen(out.c_str(), "wb"); if (!f) { perror("factx"); return 4; }
    fwrite(OUT.data(), 1, OUT.size(), f); fputc('\n', f); fclose(f);
    return 0;
}
