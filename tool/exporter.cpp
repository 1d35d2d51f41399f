// Resolved-program exporter: parses one translation unit of the library with clang and writes every
// function body that belongs to the repository (templates instantiated, callees/fields/types resolved,
// constants folded) as JSON.  Usage: exporter <source> <out.json> <root>[,<root>...] -- <compile args>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <fstream>
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> g_roots;
static std::string g_out;

namespace
{
class Exporter
{
public:
    ASTContext& C;
    SourceManager& SM;
    std::unique_ptr<MangleContext> MC;
    PrintingPolicy PP;
    json::Array types, funcs;
    json::Object records, globals, enums;
    std::map<const void*, int> typeIds;
    std::map<const Decl*, int> varIds;
    std::map<const FunctionDecl*, std::string> keys;
    std::set<const FunctionDecl*> queued;
    std::deque<const FunctionDecl*> work;
    std::set<const CXXRecordDecl*> recSeen;
    std::set<const VarDecl*> globSeen;
    std::set<const EnumDecl*> enumSeen;
    int nextKey = 0;

    explicit Exporter(ASTContext& c)
        : C(c), SM(c.getSourceManager()), MC(c.createMangleContext()), PP(c.getPrintingPolicy())
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
    }

    std::string fileOf(SourceLocation L)
    {
        auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
        return P.isValid() ? P.getFilename() : "";
    }
    bool inRoots(SourceLocation L)
    {
        std::string f = fileOf(L);
        for (auto& r : g_roots)
            if (f.rfind(r, 0) == 0) return true;
        return false;
    }
    int line(SourceLocation L)
    {
        auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
        return P.isValid() ? (int) P.getLine() : 0;
    }

    std::string qual(const NamedDecl* D)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        PrintingPolicy P = PP;
        P.SuppressInlineNamespace = true;
        P.AnonymousTagLocations = false;
        D->printQualifiedName(os, P);
        return os.str();
    }
    // qualified name of the record incl. template arguments
    std::string typeStr(QualType T) { return T.getCanonicalType().getAsString(PP); }

    std::string tmplName(const CXXRecordDecl* R)
    {
        if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(R)) return qual(S->getSpecializedTemplate());
        return qual(R);
    }

    int type(QualType T)
    {
        T = T.getCanonicalType();
        const void* k = T.getAsOpaquePtr();
        auto it = typeIds.find(k);
        if (it != typeIds.end()) return it->second;
        int id = (int) types.size();
        typeIds[k] = id;
        types.push_back(nullptr);
        json::Object o;
        o["s"] = typeStr(T);
        if (T.isConstQualified()) o["const"] = true;
        if (T->isReferenceType())
        {
            o["k"] = T->isRValueReferenceType() ? "rref" : "ref";
            o["to"] = type(T->getPointeeType());
        }
        else if (T->isPointerType())
        {
            o["k"] = "ptr";
            o["to"] = type(T->getPointeeType());
            o["sz"] = 8;
        }
        else if (T->isNullPtrType()) o["k"] = "null";
        else if (T->isVoidType()) o["k"] = "void";
        else if (T->isBooleanType()) { o["k"] = "bool"; o["sz"] = 1; }
        else if (T->isEnumeralType())
        {
            o["k"] = "enum";
            o["rec"] = qual(T->castAs<EnumType>()->getDecl());
            if (!T->isIncompleteType() ) o["sz"] = (int64_t) C.getTypeSizeInChars(T).getQuantity();
            addEnum(T->castAs<EnumType>()->getDecl());
        }
        else if (T->isIntegerType() && !T->isDependentType())
        {
            o["k"] = T->isSignedIntegerType() ? "int" : "uint";
            o["sz"] = (int64_t) C.getTypeSizeInChars(T).getQuantity();
        }
        else if (T->isFloatingType()) { o["k"] = "float"; o["sz"] = (int64_t) C.getTypeSizeInChars(T).getQuantity(); }
        else if (auto* R = T->getAsCXXRecordDecl())
        {
            o["k"] = R->isLambda() ? "lambda" : "rec";
            o["tm"] = tmplName(R);
            if (R->isLambda()) { o["lam"] = lambdaKeys(R); }
            if (R->hasDefinition() && R->isCompleteDefinition() && !R->isDependentType())
            {
                o["sz"] = (int64_t) C.getTypeSizeInChars(T).getQuantity();
                o["triv"] = T.isTriviallyCopyableType(C);
                if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(R))
                {
                    json::Array ta;
                    for (auto& A : S->getTemplateArgs().asArray()) targ(A, ta);
                    o["ta"] = std::move(ta);
                }
            }
            if (R->hasDefinition()) addRecord(R->getDefinition());
        }
        else if (T->isArrayType())
        {
            o["k"] = "array";
            o["to"] = type(C.getAsArrayType(T)->getElementType());
            if (auto* CA = C.getAsConstantArrayType(T)) o["n"] = (int64_t) CA->getSize().getZExtValue();
        }
        else if (T->isFunctionType()) o["k"] = "fn";
        else if (T->isMemberPointerType()) o["k"] = "memptr";
        else o["k"] = "other";
        types[id] = std::move(o);
        return id;
    }
    void targ(const TemplateArgument& A, json::Array& ta)
    {
        switch (A.getKind())
        {
            case TemplateArgument::Type: ta.push_back(type(A.getAsType())); break;
            case TemplateArgument::Integral:
            {
                json::Object o; o["v"] = intv(A.getAsIntegral()); ta.push_back(std::move(o)); break;
            }
            case TemplateArgument::Pack:
                for (auto& B : A.pack_elements()) targ(B, ta);
                break;
            default: ta.push_back(nullptr);
        }
    }

    json::Array lambdaKeys(const CXXRecordDecl* R)
    {
        json::Array a;
        if (auto* FT = R->getDependentLambdaCallOperator())
        {
            for (auto* S : FT->specializations())
            {
                const FunctionDecl* D = nullptr;
                if (S->hasBody(D)) { a.push_back(key(D)); enqueue(D); }
            }
        }
        else if (auto* M = R->getLambdaCallOperator())
        {
            a.push_back(key(M));
            enqueue(M);
        }
        return a;
    }

    void addEnum(const EnumDecl* E)
    {
        E = E->getDefinition();
        if (!E || !enumSeen.insert(E).second) return;
        if (!inRoots(E->getLocation())) return;
        json::Array a;
        for (auto* K : E->enumerators())
        {
            json::Array p;
            p.push_back(K->getNameAsString());
            p.push_back(intv(K->getInitVal()));
            a.push_back(std::move(p));
        }
        enums[qual(E)] = std::move(a);
    }

    void addRecord(const CXXRecordDecl* R)
    {
        if (!R || R->isDependentType() || !recSeen.insert(R).second) return;
        json::Object o;
        o["tm"] = tmplName(R);
        o["file"] = fileOf(R->getLocation());
        o["line"] = line(R->getLocation());
        o["repo"] = inRoots(R->getLocation());
        if (R->isLambda()) o["lambda"] = true;
        json::Array bs, fs;
        QualType QT = C.getRecordType(R).getCanonicalType();
        std::string name = typeStr(QT);
        bool repo = inRoots(R->getLocation());
        if (R->isCompleteDefinition() || R->hasDefinition())
        {
            for (auto& B : R->bases()) bs.push_back(type(B.getType()));
            if (repo || R->isLambda())
                for (auto* F : R->fields())
                {
                    json::Object f;
                    f["n"] = F->getNameAsString();
                    f["t"] = type(F->getType());
                    f["mut"] = F->isMutable();
                    if (F->isBitField()) f["bit"] = true;
                    if (F->hasInClassInitializer() && F->getInClassInitializer())
                        f["init"] = expr(F->getInClassInitializer());
                    f["acc"] = (int) F->getAccess();
                    fs.push_back(std::move(f));
                }
            if (repo)
            {
                json::Array ms;
                for (auto* M : R->methods())
                {
                    if (M->isImplicit() && !isa<CXXConstructorDecl>(M) && !isa<CXXDestructorDecl>(M) && !M->isCopyAssignmentOperator() && !M->isMoveAssignmentOperator()) continue;
                    json::Object m;
                    m["n"] = M->getNameAsString();
                    m["key"] = key(M);
                    m["const"] = M->isConst();
                    m["acc"] = (int) M->getAccess();
                    m["static"] = M->isStatic();
                    m["virt"] = M->isVirtual();
                    m["del"] = M->isDeleted();
                    m["dflt"] = M->isDefaulted();
                    m["impl"] = M->isImplicit();
                    m["noex"] = isNoexcept(M);
                    m["ret"] = type(M->getReturnType().isNull() ? C.VoidTy : safeType(M->getReturnType()));
                    if (auto* K = dyn_cast<CXXConstructorDecl>(M))
                    {
                        m["ctor"] = K->isCopyConstructor() ? "copy" : K->isMoveConstructor() ? "move" : "other";
                    }
                    if (isa<CXXDestructorDecl>(M)) m["dtor"] = true;
                    if (M->isCopyAssignmentOperator()) m["asg"] = "copy";
                    if (M->isMoveAssignmentOperator()) m["asg"] = "move";
                    ms.push_back(std::move(m));
                }
                for (auto* D : R->decls())
                    if (auto* T = dyn_cast<FunctionTemplateDecl>(D); T && isa<CXXConstructorDecl>(T->getTemplatedDecl()))
                        for (auto* F : T->specializations())
                        {
                            if (!F->hasBody()) continue;
                            enqueue(F);
                            json::Object m;
                            m["n"] = F->getNameAsString();
                            m["key"] = key(F);
                            m["ctor"] = "other";
                            m["tmpl"] = true;
                            m["noex"] = isNoexcept(F);
                            ms.push_back(std::move(m));
                        }
                o["methods"] = std::move(ms);
            }
        }
        o["bases"] = std::move(bs);
        o["fields"] = std::move(fs);
        records[name] = std::move(o);
    }
    QualType safeType(QualType T) { return T->isDependentType() || T->isUndeducedType() ? C.VoidTy : T; }

    bool isNoexcept(const FunctionDecl* F)
    {
        auto* FPT = F->getType()->getAs<FunctionProtoType>();
        if (!FPT) return false;
        auto est = FPT->getExceptionSpecType();
        if (est == EST_Unevaluated || est == EST_Uninstantiated || est == EST_Unparsed) return isa<CXXDestructorDecl>(F);
        if (est == EST_DependentNoexcept) return false;
        return FPT->isNothrow();
    }

    int64_t intv(const llvm::APSInt& v)
    {
        if (v.getBitWidth() <= 64) return v.isSigned() ? v.getSExtValue() : (int64_t) v.getZExtValue();
        return (int64_t) v.getRawData()[0];
    }

    std::string key(const FunctionDecl* F)
    {
        F = F->getCanonicalDecl();
        auto it = keys.find(F);
        if (it != keys.end()) return it->second;
        std::string s;
        bool ext = F->hasExternalFormalLinkage() && !F->isDependentContext();
        if (ext)
        {
            llvm::raw_string_ostream os(s);
            if (auto* K = dyn_cast<CXXConstructorDecl>(F)) MC->mangleName(GlobalDecl(K, Ctor_Complete), os);
            else if (auto* D = dyn_cast<CXXDestructorDecl>(F)) MC->mangleName(GlobalDecl(D, Dtor_Complete), os);
            else if (MC->shouldMangleDeclName(F)) MC->mangleName(GlobalDecl(F), os);
            else os << F->getNameAsString();
            os.flush();
        }
        else
        {
            s = "@" + std::to_string(nextKey++) + ":" + F->getNameAsString();
        }
        keys[F] = s;
        return s;
    }

    void enqueue(const FunctionDecl* F)
    {
        const FunctionDecl* D = nullptr;
        if (!F) return;
        if (!F->hasBody(D)) return;
        if (D->isDependentContext()) return;
        if (!inRoots(D->getLocation()))
        {
            // implicit members of repo classes have the class location; std code is not exported
            return;
        }
        if (queued.insert(D).second) work.push_back(D);
    }

    int varId(const Decl* D)
    {
        D = D->getCanonicalDecl();
        auto it = varIds.find(D);
        if (it != varIds.end()) return it->second;
        int id = (int) varIds.size() + 1;
        varIds[D] = id;
        return id;
    }

    json::Object fref(const FunctionDecl* F)
    {
        enqueue(F);
        json::Object o;
        o["key"] = key(F);
        o["n"] = qual(F);
        o["s"] = F->getNameAsString();
        o["noex"] = isNoexcept(F);
        o["ret"] = type(safeType(F->getReturnType()));
        const FunctionDecl* D = nullptr;
        o["repo"] = inRoots(F->getLocation());
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
        {
            o["m"] = true;
            o["const"] = M->isConst();
            if (M->isStatic()) o["static"] = true;
            if (M->isVirtual()) o["virt"] = true;
            o["cls"] = type(C.getRecordType(M->getParent()));
            if (M->isDefaulted() || M->isImplicit()) o["dflt"] = true;
            if (M->isTrivial()) o["triv"] = true;
            if (auto* K = dyn_cast<CXXConstructorDecl>(M))
                o["ctor"] = K->isCopyConstructor() ? "copy" : K->isMoveConstructor() ? "move" : K->isDefaultConstructor() ? "default" : "other";
            if (M->isCopyAssignmentOperator()) o["asg"] = "copy";
            if (M->isMoveAssignmentOperator()) o["asg"] = "move";
            if (auto* L = M->getParent(); L && L->isLambda()) o["lambda"] = true;
        }
        if (F->getNumParams())
        {
            json::Array pt;
            for (auto* P : F->parameters()) pt.push_back(type(safeType(P->getType())));
            o["pt"] = std::move(pt);
        }
        if (auto* TA = F->getTemplateSpecializationArgs())
        {
            json::Array ta;
            for (auto& A : TA->asArray()) targ(A, ta);
            o["ta"] = std::move(ta);
        }
        return o;
    }

    json::Value global(const VarDecl* V)
    {
        if (globSeen.insert(V->getCanonicalDecl()).second)
        {
            json::Object o;
            o["n"] = qual(V);
            o["t"] = type(V->getType());
            o["repo"] = inRoots(V->getLocation());
            o["line"] = line(V->getLocation());
            o["file"] = fileOf(V->getLocation());
            o["const"] = V->getType().isConstQualified();
            o["constexpr"] = V->isConstexpr();
            o["local"] = V->isStaticLocal();
            o["tls"] = V->getTLSKind() != VarDecl::TLS_None;
            if (inRoots(V->getLocation()))
            {
                const VarDecl* D = nullptr;
                if (const Expr* I = V->getAnyInitializer(D); I && !I->isValueDependent()) o["init"] = expr(I);
            }
            globals[std::to_string(varId(V))] = std::move(o);
        }
        return varId(V);
    }

    // ---------------------------------------------------------------- expressions
    json::Value exprs(llvm::ArrayRef<const Expr*> es)
    {
        json::Array a;
        for (auto* e : es) a.push_back(expr(e));
        return a;
    }

    json::Value expr(const Expr* E)
    {
        if (!E) return nullptr;
        json::Value v = expr1(E);
        if (auto* o = v.getAsObject())
        {
            if (!o->get("t") ) (*o)["t"] = type(safeType(E->getType()));
            if (E->isGLValue()) (*o)["g"] = true;
            if (!o->get("l")) (*o)["l"] = line(E->getExprLoc());
            if (E->isPRValue() && !o->get("cv") && (E->getType()->isIntegralOrEnumerationType()) && !E->isValueDependent()
                && !isa<IntegerLiteral>(E) && !isa<CXXBoolLiteralExpr>(E))
            {
                Expr::EvalResult R;
                if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) (*o)["cv"] = intv(R.Val.getInt());
            }
        }
        return v;
    }

    json::Object mk(const char* k)
    {
        json::Object o;
        o["k"] = k;
        return o;
    }

    json::Value expr1(const Expr* E)
    {
        if (auto* P = dyn_cast<ParenExpr>(E)) return expr(P->getSubExpr());
        if (auto* P = dyn_cast<ExprWithCleanups>(E)) return expr(P->getSubExpr());
        if (auto* P = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(P->getSubExpr());
        if (auto* P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(P->getReplacement());
        if (auto* P = dyn_cast<ConstantExpr>(E)) return expr(P->getSubExpr());
        if (auto* P = dyn_cast<CXXDefaultArgExpr>(E)) return expr(P->getExpr());
        if (auto* P = dyn_cast<CXXDefaultInitExpr>(E)) return expr(P->getExpr());
        if (auto* P = dyn_cast<CXXStdInitializerListExpr>(E))
        {
            auto o = mk("stdinit");
            o["e"] = expr(P->getSubExpr());
            return o;
        }
        if (auto* P = dyn_cast<OpaqueValueExpr>(E)) { if (P->getSourceExpr()) return expr(P->getSourceExpr()); return mk("unk"); }
        if (auto* P = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(P->getSemanticForm());
        if (auto* M = dyn_cast<MaterializeTemporaryExpr>(E))
        {
            auto o = mk("mat");
            o["e"] = expr(M->getSubExpr());
            return o;
        }
        if (auto* L = dyn_cast<IntegerLiteral>(E))
        {
            auto o = mk("int");
            llvm::APSInt v(L->getValue(), L->getType()->isUnsignedIntegerType());
            o["v"] = intv(v);
            return o;
        }
        if (auto* L = dyn_cast<CharacterLiteral>(E)) { auto o = mk("int"); o["v"] = (int64_t) L->getValue(); o["chr"] = true; return o; }
        if (auto* L = dyn_cast<CXXBoolLiteralExpr>(E)) { auto o = mk("int"); o["v"] = L->getValue() ? 1 : 0; return o; }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return mk("null");
        if (auto* L = dyn_cast<FloatingLiteral>(E)) { auto o = mk("flt"); o["v"] = L->getValueAsApproximateDouble(); return o; }
        if (auto* L = dyn_cast<StringLiteral>(E))
        {
            auto o = mk("str");
            o["v"] = L->getCharByteWidth() == 1 && json::isUTF8(L->getString()) ? L->getString().str() : std::string("?");
            return o;
        }
        if (auto* P = dyn_cast<PredefinedExpr>(E)) { auto o = mk("str"); o["v"] = "__func__"; return o; }
        if (isa<CXXThisExpr>(E)) return mk("this");
        if (auto* D = dyn_cast<DeclRefExpr>(E)) return declref(D->getDecl(), D->refersToEnclosingVariableOrCapture());
        if (auto* M = dyn_cast<MemberExpr>(E))
        {
            if (auto* F = dyn_cast<FieldDecl>(M->getMemberDecl()))
            {
                auto o = mk("mem");
                o["b"] = expr(M->getBase());
                if (M->isArrow()) o["ar"] = true;
                o["f"] = F->getNameAsString();
                if (F->getNameAsString().empty()) o["f"] = "$anon" + std::to_string(F->getFieldIndex());
                o["fr"] = typeStr(C.getRecordType(F->getParent()));
                return o;
            }
            if (auto* V = dyn_cast<VarDecl>(M->getMemberDecl())) return declref(V, false);
            if (auto* F = dyn_cast<FunctionDecl>(M->getMemberDecl()))
            {
                auto o = mk("bound");
                o["f"] = fref(F);
                o["b"] = expr(M->getBase());
                if (M->isArrow()) o["ar"] = true;
                return o;
            }
            if (auto* F = dyn_cast<EnumConstantDecl>(M->getMemberDecl())) return declref(F, false);
            return mk("unk");
        }
        if (auto* K = dyn_cast<CXXOperatorCallExpr>(E))
        {
            auto o = mk("call");
            auto* F = K->getDirectCallee();
            if (!F) { o = mk("icall"); o["fe"] = expr(K->getCallee()); o["a"] = args(K, 0); return o; }
            o["f"] = fref(F);
            o["opc"] = getOperatorSpelling(K->getOperator());
            if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic())
            {
                o["o"] = expr(K->getArg(0));
                o["a"] = args(K, 1);
            }
            else if (isa<CXXMethodDecl>(F)) o["a"] = args(K, 1);
            else o["a"] = args(K, 0);
            return o;
        }
        if (auto* K = dyn_cast<CXXMemberCallExpr>(E))
        {
            auto* F = K->getMethodDecl();
            if (!F)
            {
                auto o = mk("icall");
                o["fe"] = expr(K->getCallee());
                o["a"] = args(K, 0);
                return o;
            }
            auto o = mk("call");
            o["f"] = fref(F);
            const Expr* obj = K->getImplicitObjectArgument();
            o["o"] = expr(obj);
            if (auto* ME = dyn_cast<MemberExpr>(K->getCallee()->IgnoreParens()))
            {
                if (ME->isArrow()) o["ar"] = true;
                if (ME->hasQualifier()) o["nonvirt"] = true;
            }
            o["a"] = args(K, 0);
            return o;
        }
        if (auto* K = dyn_cast<CallExpr>(E))
        {
            if (auto* F = K->getDirectCallee())
            {
                auto o = mk("call");
                o["f"] = fref(F);
                o["a"] = args(K, 0);
                // static member called through an object expression
                return o;
            }
            if (isa<CXXPseudoDestructorExpr>(K->getCallee()->IgnoreParens())) return mk("nop");
            auto o = mk("icall");
            o["fe"] = expr(K->getCallee());
            o["a"] = args(K, 0);
            return o;
        }
        if (auto* K = dyn_cast<CXXInheritedCtorInitExpr>(E))
        {
            auto o = mk("ctor");
            o["f"] = fref(K->getConstructor());
            o["inh"] = true;
            o["a"] = json::Array();
            return o;
        }
        if (auto* K = dyn_cast<CXXConstructExpr>(E))
        {
            auto o = mk("ctor");
            o["f"] = fref(K->getConstructor());
            json::Array a;
            for (auto* x : K->arguments()) a.push_back(expr(x));
            o["a"] = std::move(a);
            if (K->isElidable()) o["el"] = true;
            if (K->isListInitialization()) o["li"] = true;
            if (K->requiresZeroInitialization()) o["zero"] = true;
            return o;
        }
        if (auto* K = dyn_cast<CXXScalarValueInitExpr>(E)) { return mk("zero"); }
        if (isa<ImplicitValueInitExpr>(E)) return mk("zero");
        if (auto* K = dyn_cast<CXXNewExpr>(E))
        {
            auto o = mk("new");
            o["at"] = type(safeType(K->getAllocatedType()));
            if (K->isArray()) { o["arr"] = true; if (K->getArraySize() && *K->getArraySize()) o["n"] = expr(*K->getArraySize()); }
            if (K->getInitializer()) o["init"] = expr(K->getInitializer());
            else if (K->getConstructExpr()) o["init"] = expr(K->getConstructExpr());
            if (K->getNumPlacementArgs())
            {
                json::Array a;
                for (auto* x : K->placement_arguments()) a.push_back(expr(x));
                o["pl"] = std::move(a);
            }
            return o;
        }
        if (auto* K = dyn_cast<CXXDeleteExpr>(E))
        {
            auto o = mk("delete");
            o["e"] = expr(K->getArgument());
            if (K->isArrayForm()) o["arr"] = true;
            QualType DT = K->getDestroyedType();
            if (!DT.isNull())
            {
                o["dt"] = type(safeType(DT));
                if (auto* R = DT->getAsCXXRecordDecl(); R && R->hasDefinition() && R->getDestructor()) o["f"] = fref(R->getDestructor());
            }
            return o;
        }
        if (auto* K = dyn_cast<BinaryOperator>(E))
        {
            auto o = mk(K->isAssignmentOp() ? "asg" : "bin");
            o["op"] = K->getOpcodeStr().str();
            o["a"] = expr(K->getLHS());
            o["b"] = expr(K->getRHS());
            return o;
        }
        if (auto* K = dyn_cast<UnaryOperator>(E))
        {
            if (K->getOpcode() == UO_Extension) return expr(K->getSubExpr());
            auto o = mk("un");
            std::string op = UnaryOperator::getOpcodeStr(K->getOpcode()).str();
            if (K->isPostfix()) op = "p" + op;
            o["op"] = op;
            o["e"] = expr(K->getSubExpr());
            return o;
        }
        if (auto* K = dyn_cast<ConditionalOperator>(E))
        {
            auto o = mk("cond");
            o["c"] = expr(K->getCond());
            o["a"] = expr(K->getTrueExpr());
            o["b"] = expr(K->getFalseExpr());
            return o;
        }
        if (auto* K = dyn_cast<ArraySubscriptExpr>(E))
        {
            auto o = mk("sub");
            o["a"] = expr(K->getBase());
            o["b"] = expr(K->getIdx());
            return o;
        }
        if (auto* K = dyn_cast<CastExpr>(E))
        {
            auto ck = K->getCastKind();
            auto o = mk("cast");
            o["ck"] = CastExpr::getCastKindName(ck);
            o["e"] = expr(K->getSubExpr());
            if (auto* X = dyn_cast<ExplicitCastExpr>(K)) o["ek"] = isa<CXXConstCastExpr>(X) ? "const" : isa<CXXReinterpretCastExpr>(X) ? "reinterpret" : isa<CXXStaticCastExpr>(X) ? "static" : isa<CXXDynamicCastExpr>(X) ? "dynamic" : isa<CStyleCastExpr>(X) ? "c" : "func";
            return o;
        }
        if (auto* K = dyn_cast<LambdaExpr>(E))
        {
            auto o = mk("lambda");
            o["keys"] = lambdaKeys(K->getLambdaClass());
            json::Array caps;
            for (auto it = K->capture_init_begin(); it != K->capture_init_end(); ++it)
            {
                auto& cap = *(K->capture_begin() + (it - K->capture_init_begin()));
                json::Object c;
                if (cap.capturesThis()) { c["this"] = true; if (cap.getCaptureKind() == LCK_StarThis) c["star"] = true; }
                else if (cap.capturesVariable())
                {
                    c["id"] = varId(cap.getCapturedVar());
                    c["byref"] = cap.getCaptureKind() == LCK_ByRef;
                    c["n"] = cap.getCapturedVar()->getNameAsString();
                    c["e"] = expr(*it);
                }
                caps.push_back(std::move(c));
            }
            o["caps"] = std::move(caps);
            o["mut"] = K->isMutable();
            return o;
        }
        if (auto* K = dyn_cast<InitListExpr>(E))
        {
            if (K->isTransparent() && K->getNumInits() == 1) return expr(K->getInit(0));
            auto o = mk("ilist");
            json::Array a;
            for (auto* x : K->inits()) a.push_back(expr(x));
            o["a"] = std::move(a);
            if (auto* R = K->getType()->getAsCXXRecordDecl(); R)
            {
                json::Array fn;
                for (auto& B : R->bases()) fn.push_back("$base:" + typeStr(B.getType()));
                for (auto* F : R->fields()) fn.push_back(F->getNameAsString());
                o["fn"] = std::move(fn);
            }
            return o;
        }
        if (auto* K = dyn_cast<CXXParenListInitExpr>(E))
        {
            auto o = mk("ilist");
            json::Array a;
            for (auto* x : K->getInitExprs()) a.push_back(expr(x));
            o["a"] = std::move(a);
            return o;
        }
        if (auto* K = dyn_cast<CXXThrowExpr>(E))
        {
            auto o = mk("throw");
            if (K->getSubExpr()) o["e"] = expr(K->getSubExpr());
            return o;
        }
        if (auto* K = dyn_cast<UnaryExprOrTypeTraitExpr>(E))
        {
            auto o = mk("sizeof");
            return o;  // cv attached
        }
        if (auto* K = dyn_cast<CXXTypeidExpr>(E)) return mk("typeid");
        if (isa<TypeTraitExpr>(E) || isa<CXXNoexceptExpr>(E) || isa<RequiresExpr>(E) || isa<ConceptSpecializationExpr>(E) || isa<SizeOfPackExpr>(E) || isa<ArrayTypeTraitExpr>(E)|| isa<OffsetOfExpr>(E))
            return mk("const");
        if (auto* K = dyn_cast<ArrayInitLoopExpr>(E)) { auto o = mk("unk"); o["why"] = "ArrayInitLoop"; return o; }
        if (auto* K = dyn_cast<StmtExpr>(E)) { auto o = mk("unk"); o["why"] = "StmtExpr"; return o; }
        {
            auto o = mk("unk");
            o["why"] = E->getStmtClassName();
            return o;
        }
    }

    json::Value declref(const ValueDecl* D, bool capture)
    {
        auto o = mk("ref");
        if (auto* F = dyn_cast<FunctionDecl>(D)) { o = mk("fn"); o["f"] = fref(F); return o; }
        if (auto* K = dyn_cast<EnumConstantDecl>(D))
        {
            o = mk("enum");
            o["n"] = qual(K);
            o["v"] = intv(K->getInitVal());
            return o;
        }
        if (auto* B = dyn_cast<BindingDecl>(D))
        {
            if (B->getHoldingVar()) { o["id"] = varId(B->getHoldingVar()); o["dk"] = "v"; o["n"] = B->getNameAsString(); return o; }
            if (B->getBinding()) return expr(B->getBinding());
            return mk("unk");
        }
        if (auto* V = dyn_cast<VarDecl>(D))
        {
            o["n"] = V->getNameAsString();
            if (capture) o["cap"] = true;
            if (isa<ParmVarDecl>(V)) { o["dk"] = "p"; o["id"] = varId(V); }
            else if (V->hasGlobalStorage()) { o["dk"] = "g"; o["id"] = global(V); o["n"] = qual(V); }
            else { o["dk"] = "v"; o["id"] = varId(V); }
            return o;
        }
        o = mk("unk");
        o["why"] = D->getDeclKindName();
        return o;
    }

    template <class K>
    json::Value args(const K* E, unsigned from)
    {
        json::Array a;
        for (unsigned i = from; i < E->getNumArgs(); ++i) a.push_back(expr(E->getArg(i)));
        return a;
    }

    // ---------------------------------------------------------------- statements
    json::Value vardecl(const VarDecl* V)
    {
        json::Object v;
        v["id"] = varId(V);
        v["n"] = V->getNameAsString();
        v["t"] = type(safeType(V->getType()));
        v["l"] = line(V->getLocation());
        if (V->isStaticLocal()) { v["static"] = true; global(V); }
        if (V->hasInit() && !V->isStaticLocal()) v["init"] = expr(V->getInit());
        if (auto* D = dyn_cast<DecompositionDecl>(V))
        {
            json::Array b;
            for (auto* B : D->bindings())
            {
                if (auto* H = B->getHoldingVar()) b.push_back(vardecl(H));
            }
            v["binds"] = std::move(b);
        }
        return v;
    }

    json::Value stmt(const Stmt* S)
    {
        if (!S) return nullptr;
        if (auto* E = dyn_cast<Expr>(S)) return expr(E);
        json::Object o;
        o["l"] = line(S->getBeginLoc());
        if (auto* K = dyn_cast<CompoundStmt>(S))
        {
            o["k"] = "comp";
            json::Array a;
            for (auto* x : K->body()) a.push_back(stmt(x));
            o["b"] = std::move(a);
            return o;
        }
        if (auto* K = dyn_cast<DeclStmt>(S))
        {
            o["k"] = "decl";
            json::Array a;
            for (auto* D : K->decls())
                if (auto* V = dyn_cast<VarDecl>(D)) a.push_back(vardecl(V));
            o["v"] = std::move(a);
            return o;
        }
        if (auto* K = dyn_cast<IfStmt>(S))
        {
            if (K->isConsteval()) { o["k"] = "comp"; o["b"] = json::Array{stmt(K->isNegatedConsteval() ? K->getThen() : K->getElse())}; return o; }
            if (K->isConstexpr())
            {
                auto sel = K->getNondiscardedCase(C);
                if (sel)
                {
                    o["k"] = "comp";
                    json::Array a;
                    if (K->getInit()) a.push_back(stmt(K->getInit()));
                    if (*sel) a.push_back(stmt(*sel));
                    o["b"] = std::move(a);
                    return o;
                }
            }
            o["k"] = "if";
            if (K->getInit()) o["init"] = stmt(K->getInit());
            if (K->getConditionVariableDeclStmt()) o["var"] = stmt(K->getConditionVariableDeclStmt());
            o["c"] = expr(K->getCond());
            o["a"] = stmt(K->getThen());
            if (K->getElse()) o["b"] = stmt(K->getElse());
            if (K->getIfLoc().isMacroID())
                o["mac"] = Lexer::getImmediateMacroName(K->getIfLoc(), SM, C.getLangOpts()).str();
            return o;
        }
        if (auto* K = dyn_cast<ForStmt>(S))
        {
            o["k"] = "for";
            if (K->getInit()) o["init"] = stmt(K->getInit());
            if (K->getCond()) o["c"] = expr(K->getCond());
            if (K->getInc()) o["inc"] = expr(K->getInc());
            o["b"] = stmt(K->getBody());
            return o;
        }
        if (auto* K = dyn_cast<WhileStmt>(S))
        {
            o["k"] = "for";
            if (K->getConditionVariableDeclStmt()) o["cvar"] = stmt(K->getConditionVariableDeclStmt());
            o["c"] = expr(K->getCond());
            o["b"] = stmt(K->getBody());
            return o;
        }
        if (auto* K = dyn_cast<DoStmt>(S))
        {
            o["k"] = "do";
            o["c"] = expr(K->getCond());
            o["b"] = stmt(K->getBody());
            return o;
        }
        if (auto* K = dyn_cast<CXXForRangeStmt>(S))
        {
            o["k"] = "for";
            o["rng"] = true;
            json::Array init;
            if (K->getInit()) init.push_back(stmt(K->getInit()));
            init.push_back(stmt(K->getRangeStmt()));
            if (K->getBeginStmt()) init.push_back(stmt(K->getBeginStmt()));
            if (K->getEndStmt()) init.push_back(stmt(K->getEndStmt()));
            json::Object ic;
            ic["k"] = "decls";
            ic["b"] = std::move(init);
            o["init"] = std::move(ic);
            o["c"] = expr(K->getCond());
            o["inc"] = expr(K->getInc());
            json::Object bc;
            bc["k"] = "comp";
            bc["b"] = json::Array{stmt(K->getLoopVarStmt()), stmt(K->getBody())};
            o["b"] = std::move(bc);
            return o;
        }
        if (auto* K = dyn_cast<ReturnStmt>(S))
        {
            o["k"] = "ret";
            if (K->getRetValue()) o["e"] = expr(K->getRetValue());
            return o;
        }
        if (auto* K = dyn_cast<SwitchStmt>(S))
        {
            o["k"] = "sw";
            if (K->getInit()) o["init"] = stmt(K->getInit());
            if (K->getConditionVariableDeclStmt()) o["var"] = stmt(K->getConditionVariableDeclStmt());
            o["c"] = expr(K->getCond());
            o["b"] = stmt(K->getBody());
            o["ct"] = type(K->getCond()->IgnoreImpCasts()->getType());
            return o;
        }
        if (auto* K = dyn_cast<CaseStmt>(S))
        {
            o["k"] = "case";
            o["e"] = expr(K->getLHS());
            Expr::EvalResult R;
            if (K->getLHS()->EvaluateAsInt(R, C)) o["v"] = intv(R.Val.getInt());
            o["b"] = stmt(K->getSubStmt());
            return o;
        }
        if (auto* K = dyn_cast<DefaultStmt>(S))
        {
            o["k"] = "default";
            o["b"] = stmt(K->getSubStmt());
            return o;
        }
        if (isa<BreakStmt>(S)) { o["k"] = "break"; return o; }
        if (isa<ContinueStmt>(S)) { o["k"] = "cont"; return o; }
        if (isa<NullStmt>(S)) { o["k"] = "nop"; return o; }
        if (auto* K = dyn_cast<CXXTryStmt>(S))
        {
            o["k"] = "try";
            o["b"] = stmt(K->getTryBlock());
            json::Array h;
            for (unsigned i = 0; i < K->getNumHandlers(); ++i)
            {
                json::Object x;
                x["b"] = stmt(K->getHandler(i)->getHandlerBlock());
                auto* ED = K->getHandler(i)->getExceptionDecl();
                if (ED) x["t"] = typeStr(ED->getType());
                else x["all"] = true;
                h.push_back(std::move(x));
            }
            o["h"] = std::move(h);
            return o;
        }
        if (auto* K = dyn_cast<AttributedStmt>(S)) return stmt(K->getSubStmt());
        if (auto* K = dyn_cast<LabelStmt>(S)) return stmt(K->getSubStmt());
        o["k"] = "unk";
        o["why"] = S->getStmtClassName();
        return o;
    }

    void function(const FunctionDecl* F)
    {
        json::Object o = fref(F);
        o["file"] = fileOf(F->getLocation());
        o["line"] = line(F->getLocation());
        o["endline"] = line(F->getEndLoc());
        o["full"] = typeStr(F->getType());
        if (F->isConstexpr()) o["constexpr"] = true;
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) { o["access"] = (int) M->getAccess(); o["explobj"] = false; }
        o["tmpl"] = F->isTemplateInstantiation();
        json::Array ps;
        for (auto* P : F->parameters())
        {
            json::Object p;
            p["id"] = varId(P);
            p["n"] = P->getNameAsString();
            p["t"] = type(safeType(P->getType()));
            if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg())
                if (const Expr* I = P->getDefaultArg(); I && !I->isValueDependent()) p["d"] = expr(I);
            ps.push_back(std::move(p));
        }
        o["params"] = std::move(ps);
        if (auto* K = dyn_cast<CXXConstructorDecl>(F))
        {
            json::Array in;
            for (auto* I : K->inits())
            {
                json::Object x;
                if (I->isAnyMemberInitializer()) { x["f"] = I->getAnyMember()->getNameAsString(); x["ft"] = type(I->getAnyMember()->getType()); }
                else if (I->isBaseInitializer()) x["base"] = type(QualType(I->getBaseClass(), 0));
                else if (I->isDelegatingInitializer()) x["deleg"] = true;
                x["e"] = expr(I->getInit());
                x["w"] = I->isWritten();
                x["l"] = line(I->getSourceLocation());
                in.push_back(std::move(x));
            }
            o["inits"] = std::move(in);
        }
        o["body"] = stmt(F->getBody());
        funcs.push_back(std::move(o));
    }

    void run()
    {
        while (!work.empty())
        {
            auto* F = work.front();
            work.pop_front();
            function(F);
        }
    }
};

class Visitor : public RecursiveASTVisitor<Visitor>
{
public:
    Exporter& X;
    explicit Visitor(Exporter& x) : X(x) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* F)
    {
        X.enqueue(F);
        return true;
    }
    bool VisitEnumDecl(EnumDecl* E)
    {
        if (!E->isDependentType() && X.inRoots(E->getLocation())) X.addEnum(E);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R)
    {
        if (R->isCompleteDefinition() && !R->isDependentType() && X.inRoots(R->getLocation())) X.addRecord(R);
        return true;
    }
    bool VisitVarDecl(VarDecl* V)
    {
        if (V->hasGlobalStorage() && X.inRoots(V->getLocation()) && !V->getType()->isDependentType()
            && !V->getDeclContext()->isDependentContext() && !isa<VarTemplatePartialSpecializationDecl>(V) && !V->getDescribedVarTemplate())
            X.global(V);
        return true;
    }
};

class Consumer : public ASTConsumer
{
public:
    void HandleTranslationUnit(ASTContext& C) override
    {
        Exporter X(C);
        Visitor V(X);
        V.TraverseDecl(C.getTranslationUnitDecl());
        X.run();
        json::Object o;
        o["types"] = std::move(X.types);
        o["funcs"] = std::move(X.funcs);
        o["records"] = std::move(X.records);
        o["globals"] = std::move(X.globals);
        o["enums"] = std::move(X.enums);
        o["errors"] = (int64_t) C.getDiagnostics().getClient()->getNumErrors();
        std::error_code ec;
        llvm::raw_fd_ostream os(g_out, ec);
        os << json::Value(std::move(o));
    }
};

class Action : public ASTFrontendAction
{
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override
    {
        return std::make_unique<Consumer>();
    }
};
}

int main(int argc, const char** argv)
{
    if (argc < 5) return 2;
    std::string src = argv[1];
    g_out = argv[2];
    std::string roots = argv[3];
    for (size_t p = 0; p <= roots.size();)
    {
        size_t q = roots.find(',', p);
        if (q == std::string::npos) q = roots.size();
        g_roots.push_back(roots.substr(p, q - p));
        p = q + 1;
    }
    std::vector<std::string> args;
    for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
    clang::tooling::FixedCompilationDatabase db(".", args);
    clang::tooling::ClangTool tool(db, {src});
    return tool.run(clang::tooling::newFrontendActionFactory<Action>().get());
}
