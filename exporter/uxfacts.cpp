// uxfacts: export the resolved syntax tree of every function, class and global
// variable that is defined below a root directory, as JSON, for the Python
// analyses in /verif/ux. Only parses; nothing of the analysed code is run.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/Basic/Builtins.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;

static std::string Root;
static std::string OutFile;

namespace {
class Exporter
{
    ASTContext& C;
    SourceManager& SM;
    std::map<const Decl*, int> declIds;
    std::map<const void*, int> typeIds;
    json::Array types, functions, records, globals, macroUses;
    std::set<std::string> doneFns, doneRecs;
    PrintingPolicy PP;

public:
    explicit Exporter(ASTContext& Ctx) : C(Ctx), SM(Ctx.getSourceManager()), PP(Ctx.getLangOpts())
    {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
    }

    int declId(const Decl* D)
    {
        D = D->getCanonicalDecl();
        auto it = declIds.find(D);
        if (it != declIds.end()) return it->second;
        int id = declIds.size() + 1;
        declIds[D] = id;
        return id;
    }

    static std::string usr(const Decl* D)
    {
        llvm::SmallString<256> B;
        if (index::generateUSRForDecl(D, B)) return "";
        return std::string(B);
    }

    std::string qname(const NamedDecl* D)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        D->printQualifiedName(os, PP);
        return os.str();
    }

    std::string fileOf(SourceLocation L)
    {
        L = SM.getExpansionLoc(L);
        if (auto F = SM.getFileEntryRefForID(SM.getFileID(L))) {
            llvm::SmallString<256> P(F->getName());
            llvm::sys::fs::make_absolute(P);
            llvm::sys::path::remove_dots(P, true);
            return std::string(P);
        }
        return "";
    }
    bool inRoot(SourceLocation L)
    {
        std::string f = fileOf(L);
        return f.compare(0, Root.size(), Root) == 0;
    }

    int typeId(QualType T)
    {
        if (T.isNull()) return -1;
        QualType Can = T.getCanonicalType();
        const void* key = Can.getAsOpaquePtr();
        auto it = typeIds.find(key);
        if (it != typeIds.end()) return it->second;
        int id = types.size();
        typeIds[key] = id;
        types.push_back(nullptr);
        json::Object o;
        o["s"] = Can.getUnqualifiedType().getAsString(PP);
        if (Can.isConstQualified()) o["const"] = true;
        if (Can.isVolatileQualified()) o["volatile"] = true;
        const Type* Ty = Can.getTypePtr();
        if (Ty->isDependentType()) {
            o["k"] = "dependent";
        } else if (Ty->isBooleanType()) {
            o["k"] = "bool";
            o["bits"] = 1;
            o["signed"] = false;
        } else if (Ty->isEnumeralType()) {
            o["k"] = "enum";
            o["bits"] = (int64_t)C.getTypeSize(Can);
            o["signed"] = Ty->isSignedIntegerOrEnumerationType();
        } else if (Ty->isIntegerType()) {
            o["k"] = "int";
            o["bits"] = (int64_t)C.getTypeSize(Can);
            o["signed"] = Ty->isSignedIntegerOrEnumerationType();
        } else if (Ty->isFloatingType()) {
            o["k"] = "float";
        } else if (Ty->isPointerType()) {
            o["k"] = "ptr";
            o["to"] = typeId(Ty->getPointeeType());
        } else if (Ty->isReferenceType()) {
            o["k"] = "ref";
            o["rv"] = Ty->isRValueReferenceType();
            o["to"] = typeId(Ty->getPointeeType());
        } else if (const auto* A = dyn_cast<ConstantArrayType>(Ty)) {
            o["k"] = "array";
            o["n"] = (int64_t)A->getSize().getLimitedValue();
            o["to"] = typeId(A->getElementType());
        } else if (Ty->isArrayType()) {
            o["k"] = "array";
            o["n"] = -1;
            o["to"] = typeId(C.getAsArrayType(Can)->getElementType());
        } else if (const auto* RD = Ty->getAsCXXRecordDecl()) {
            o["k"] = "rec";
            std::string base;
            {
                llvm::raw_string_ostream os(base);
                RD->printQualifiedName(os, PP);
            }
            o["rec"] = base;
            o["lambda"] = RD->isLambda();
            if (const auto* S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
                json::Array as;
                for (const auto& A : S->getTemplateArgs().asArray()) addTArg(as, A);
                o["targs"] = std::move(as);
                o["tmpl"] = qname(S->getSpecializedTemplate());
            }
        } else if (Ty->isVoidType()) {
            o["k"] = "void";
        } else if (Ty->isNullPtrType()) {
            o["k"] = "nullptr";
        } else if (Ty->isFunctionProtoType()) {
            o["k"] = "fn";
        } else {
            o["k"] = "other";
        }
        types[id] = std::move(o);
        return id;
    }
    void addTArg(json::Array& as, const TemplateArgument& A)
    {
        switch (A.getKind()) {
        case TemplateArgument::Type: as.push_back(typeId(A.getAsType())); break;
        case TemplateArgument::Integral: {
            json::Object o;
            o["v"] = llvm::toString(A.getAsIntegral(), 10);
            as.push_back(std::move(o));
            break;
        }
        case TemplateArgument::Pack:
            for (const auto& P : A.pack_elements()) addTArg(as, P);
            break;
        default: as.push_back(-1);
        }
    }

    void addLoc(json::Object& o, SourceLocation L)
    {
        if (L.isInvalid()) return;
        SourceLocation E = SM.getExpansionLoc(L);
        o["l"] = (int64_t)SM.getExpansionLineNumber(E);
        o["c"] = (int64_t)SM.getExpansionColumnNumber(E);
        std::string f = fileOf(E);
        if (f.compare(0, Root.size(), Root) == 0)
            f = f.substr(Root.size());
        if (f != curFile) o["f"] = f;
        if (L.isMacroID()) {
            json::Array ms;
            SourceLocation M = L;
            int guard = 0;
            while (M.isMacroID() && guard++ < 32) {
                StringRef n = Lexer::getImmediateMacroName(M, SM, C.getLangOpts());
                // In a macro argument the text belongs to the caller; note it.
                ms.push_back((SM.isMacroArgExpansion(M) ? "arg:" : "") + n.str());
                M = SM.getImmediateMacroCallerLoc(M);
            }
            if (!ms.empty()) o["m"] = std::move(ms);
        }
    }
    std::string curFile;

    json::Object fnRef(const FunctionDecl* F)
    {
        json::Object o;
        o["usr"] = usr(F);
        o["n"] = qname(F);
        o["ret"] = typeId(F->getReturnType());
        if (F->isVariadic()) o["variadic"] = true;
        json::Array ps;
        for (auto* P : F->parameters()) ps.push_back(typeId(P->getType()));
        o["pt"] = std::move(ps);
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = qname(M->getParent());
            if (M->isVirtual()) o["virt"] = true;
            if (M->isConst()) o["const"] = true;
            if (M->isStatic()) o["static"] = true;
            if (M->getParent()->isLambda()) o["lambda"] = true;
            if (isa<CXXConstructorDecl>(M)) {
                auto* CC = cast<CXXConstructorDecl>(M);
                o["ctor"] = CC->isCopyConstructor() ? "copy" : CC->isMoveConstructor() ? "move" :
                                                         CC->isDefaultConstructor()    ? "default" :
                                                                                         "other";
            }
            if (isa<CXXConversionDecl>(M)) o["conv"] = true;
        }
        if (F->isNoReturn() || F->hasAttr<NoReturnAttr>()) o["noreturn"] = true;
        if (F->hasAttr<PureAttr>() || F->hasAttr<ConstAttr>()) o["pure"] = true;
        if (F->getBuiltinID()) o["builtin"] = C.BuiltinInfo.getName(F->getBuiltinID());
        o["root"] = inRoot(F->getLocation());
        if (F->isOverloadedOperator()) o["op"] = getOperatorSpelling(F->getOverloadedOperator());
        if (auto* TA = F->getTemplateSpecializationArgs()) {
            json::Array as;
            for (const auto& A : TA->asArray()) addTArg(as, A);
            o["targs"] = std::move(as);
        }
        if (F->isImplicit()) o["implicit"] = true;
        return o;
    }

    json::Value expr(const Expr* E)
    {
        if (!E) return nullptr;
        // transparent wrappers
        for (;;) {
            if (auto* X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
            else if (auto* X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
            else if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
            else if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
            else if (auto* X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
            else if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
            else if (auto* X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
            else if (auto* X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
            else if (auto* X = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = X->getSemanticForm();
            else if (auto* X = dyn_cast<OpaqueValueExpr>(E)) { if (!X->getSourceExpr()) break; E = X->getSourceExpr(); }
            else if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
            else if (auto* X = dyn_cast<ChooseExpr>(E)) E = X->getChosenSubExpr();
            else break;
        }
        if (auto* X = dyn_cast<ImplicitCastExpr>(E)) {
            switch (X->getCastKind()) {
            case CK_LValueToRValue:
            case CK_NoOp: {
                // mark what is only read through this conversion
                auto V = expr(X->getSubExpr());
                if (X->getCastKind() == CK_LValueToRValue || X->getType().isConstQualified())
                    if (auto* O = V.getAsObject()) (*O)["rv"] = true;
                return V;
            }
            case CK_FunctionToPointerDecay:
            case CK_ConstructorConversion:
            case CK_UserDefinedConversion:
                return expr(X->getSubExpr());
            default: break;
            }
        }
        json::Object o;
        addLoc(o, E->getBeginLoc());
        {
            // operator location is more useful for reports
            if (auto* X = dyn_cast<BinaryOperator>(E)) { json::Object t; addLoc(t, X->getOperatorLoc()); if (auto v = t.getInteger("l")) o["l"] = *v; }
            if (auto* X = dyn_cast<CXXMemberCallExpr>(E)) { json::Object t; addLoc(t, X->getExprLoc()); if (auto v = t.getInteger("l")) o["l"] = *v; }
            if (auto* X = dyn_cast<CXXOperatorCallExpr>(E)) { json::Object t; addLoc(t, X->getOperatorLoc()); if (auto v = t.getInteger("l")) o["l"] = *v; }
            if (auto* X = dyn_cast<MemberExpr>(E)) { json::Object t; addLoc(t, X->getMemberLoc()); if (auto v = t.getInteger("l")) o["l"] = *v; }
        }
        o["t"] = typeId(E->getType());
        if (E->isGLValue()) o["lv"] = true;

        if (auto* X = dyn_cast<IntegerLiteral>(E)) {
            o["k"] = "int";
            llvm::SmallString<40> S;
            X->getValue().toString(S, 10, X->getType()->isSignedIntegerType());
            o["v"] = std::string(S);
        } else if (auto* X = dyn_cast<CharacterLiteral>(E)) {
            o["k"] = "int";
            o["v"] = std::to_string(X->getValue());
        } else if (auto* X = dyn_cast<CXXBoolLiteralExpr>(E)) {
            o["k"] = "int";
            o["v"] = X->getValue() ? "1" : "0";
        } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
            o["k"] = "null";
        } else if (isa<FloatingLiteral>(E)) {
            o["k"] = "float";
        } else if (auto* X = dyn_cast<StringLiteral>(E)) {
            o["k"] = "str";
            if (X->getCharByteWidth() == 1) o["v"] = llvm::toHex(X->getBytes());
        } else if (isa<PredefinedExpr>(E)) {
            o["k"] = "str";
        } else if (auto* X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            o["k"] = "sizeof";
            Expr::EvalResult R;
            if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) {
                o["k"] = "int";
                o["v"] = llvm::toString(R.Val.getInt(), 10);
            }
            (void)X;
        } else if (auto* X = dyn_cast<TypeTraitExpr>(E)) {
            o["k"] = "int";
            o["v"] = X->isValueDependent() ? "0" : X->getValue() ? "1" : "0";
        } else if (auto* X = dyn_cast<DeclRefExpr>(E)) {
            const ValueDecl* D = X->getDecl();
            if (auto* F = dyn_cast<FunctionDecl>(D)) {
                o["k"] = "fnref";
                o["fn"] = fnRef(F);
            } else {
                o["k"] = "ref";
                declRef(o, D);
                Expr::EvalResult R;
                if (E->getType()->isIntegralOrEnumerationType() && !E->isValueDependent()) {
                    const auto* V = dyn_cast<VarDecl>(D);
                    if ((isa<EnumConstantDecl>(D) || (V && V->getType().isConstQualified() && !isa<ParmVarDecl>(V))) && E->EvaluateAsInt(R, C))
                        o["cv"] = llvm::toString(R.Val.getInt(), 10);
                }
                if (X->refersToEnclosingVariableOrCapture()) o["cap"] = true;
            }
        } else if (auto* X = dyn_cast<MemberExpr>(E)) {
            const ValueDecl* D = X->getMemberDecl();
            if (auto* F = dyn_cast<FieldDecl>(D)) {
                o["k"] = "member";
                o["fld"] = qname(F->getParent()) + "::" + F->getNameAsString();
                o["n"] = F->getNameAsString();
                o["arrow"] = X->isArrow();
                o["b"] = expr(X->getBase());
                o["ft"] = typeId(F->getType());
                if (F->isMutable()) o["mutable"] = true;
            } else if (auto* F = dyn_cast<FunctionDecl>(D)) {
                o["k"] = "fnref";
                o["fn"] = fnRef(F);
                o["b"] = expr(X->getBase());
                o["arrow"] = X->isArrow();
            } else {
                o["k"] = "ref";
                declRef(o, D);
                Expr::EvalResult R;
                if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() && E->getType().isConstQualified() && E->EvaluateAsInt(R, C))
                    o["cv"] = llvm::toString(R.Val.getInt(), 10);
            }
        } else if (isa<CXXThisExpr>(E)) {
            o["k"] = "this";
        } else if (auto* X = dyn_cast<CXXMemberCallExpr>(E)) {
            o["k"] = "call";
            const Expr* Callee = X->getCallee()->IgnoreParens();
            if (auto* ME = dyn_cast<MemberExpr>(Callee)) {
                o["fn"] = fnRef(cast<FunctionDecl>(ME->getMemberDecl()));
                o["obj"] = expr(ME->getBase());
                o["arrow"] = ME->isArrow();
                if (ME->hasQualifier()) o["qual"] = true; // non-virtual call
            } else {
                o["k"] = "pcall";
                o["callee"] = expr(X->getCallee());
            }
            args(o, X->arguments());
        } else if (auto* X = dyn_cast<CXXOperatorCallExpr>(E)) {
            o["k"] = "call";
            const FunctionDecl* F = X->getDirectCallee();
            if (!F) {
                o["k"] = "unknown";
                o["cls"] = "opcall";
            } else {
                o["fn"] = fnRef(F);
                o["opc"] = getOperatorSpelling(X->getOperator());
                if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
                    o["obj"] = expr(X->getArg(0));
                    o["arrow"] = false;
                    json::Array as;
                    for (unsigned i = 1; i < X->getNumArgs(); ++i) as.push_back(expr(X->getArg(i)));
                    o["args"] = std::move(as);
                } else {
                    args(o, X->arguments());
                }
            }
        } else if (auto* X = dyn_cast<CallExpr>(E)) {
            const FunctionDecl* F = X->getDirectCallee();
            if (F) {
                o["k"] = "call";
                o["fn"] = fnRef(F);
            } else {
                o["k"] = "pcall";
                o["callee"] = expr(X->getCallee());
            }
            args(o, X->arguments());
        } else if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
            o["k"] = "ctor";
            o["fn"] = fnRef(X->getConstructor());
            if (X->isListInitialization()) o["list"] = true;
            if (X->isStdInitListInitialization()) o["stdinit"] = true;
            if (X->requiresZeroInitialization()) o["zero"] = true;
            args(o, X->arguments());
        } else if (auto* X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
            o["k"] = "unknown";
            o["cls"] = X->getStmtClassName();
        } else if (auto* X = dyn_cast<CastExpr>(E)) {
            o["k"] = "cast";
            o["ck"] = X->getCastKindName();
            o["impl"] = isa<ImplicitCastExpr>(X);
            if (isa<ImplicitCastExpr>(X) && cast<ImplicitCastExpr>(X)->isPartOfExplicitCast()) o["pexpl"] = true;
            // explicit functional/static casts of class type wrap a constructor call
            if (!isa<ImplicitCastExpr>(X) && (X->getCastKind() == CK_ConstructorConversion || X->getCastKind() == CK_UserDefinedConversion))
                return expr(X->getSubExpr());
            o["x"] = expr(X->getSubExpr());
        } else if (auto* X = dyn_cast<UnaryOperator>(E)) {
            o["k"] = "un";
            std::string op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
            if (X->isPostfix()) op = "post" + op;
            o["op"] = op;
            o["x"] = expr(X->getSubExpr());
        } else if (auto* X = dyn_cast<CompoundAssignOperator>(E)) {
            o["k"] = "bin";
            o["op"] = X->getOpcodeStr().str();
            o["x"] = expr(X->getLHS());
            o["y"] = expr(X->getRHS());
            o["ct"] = typeId(X->getComputationResultType());
            o["clt"] = typeId(X->getComputationLHSType());
        } else if (auto* X = dyn_cast<BinaryOperator>(E)) {
            o["k"] = "bin";
            o["op"] = X->getOpcodeStr().str();
            o["x"] = expr(X->getLHS());
            o["y"] = expr(X->getRHS());
        } else if (auto* X = dyn_cast<ConditionalOperator>(E)) {
            o["k"] = "cond";
            o["x"] = expr(X->getCond());
            o["a"] = expr(X->getTrueExpr());
            o["b"] = expr(X->getFalseExpr());
        } else if (auto* X = dyn_cast<BinaryConditionalOperator>(E)) {
            o["k"] = "cond";
            o["x"] = expr(X->getCond());
            o["a"] = expr(X->getTrueExpr());
            o["b"] = expr(X->getFalseExpr());
        } else if (auto* X = dyn_cast<ArraySubscriptExpr>(E)) {
            o["k"] = "idx";
            o["b"] = expr(X->getBase());
            o["i"] = expr(X->getIdx());
        } else if (auto* X = dyn_cast<InitListExpr>(E)) {
            o["k"] = "init";
            json::Array as;
            const InitListExpr* S = X->isSemanticForm() ? X : X->getSemanticForm();
            if (!S) S = X;
            for (const Expr* I : S->inits()) as.push_back(expr(I));
            o["args"] = std::move(as);
            if (S->hasArrayFiller()) o["filler"] = expr(S->getArrayFiller());
        } else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
            o["k"] = "zero";
        } else if (auto* X = dyn_cast<LambdaExpr>(E)) {
            o["k"] = "lambda";
            const CXXMethodDecl* M = X->getCallOperator();
            o["usr"] = usr(M);
            o["did"] = declId(M);
            json::Array caps;
            auto init = X->capture_init_begin();
            for (const auto& Cap : X->captures()) {
                json::Object c;
                c["this"] = Cap.capturesThis();
                if (Cap.capturesVariable()) {
                    c["d"] = declId(Cap.getCapturedVar());
                    c["n"] = Cap.getCapturedVar()->getNameAsString();
                }
                c["byref"] = Cap.getCaptureKind() == LCK_ByRef || Cap.getCaptureKind() == LCK_This;
                if (*init) c["init"] = expr(*init);
                ++init;
                caps.push_back(std::move(c));
            }
            o["caps"] = std::move(caps);
            if (X->isGenericLambda()) o["generic"] = true;
        } else if (auto* X = dyn_cast<CXXNewExpr>(E)) {
            o["k"] = "new";
            o["at"] = typeId(X->getAllocatedType());
            if (X->isArray()) o["n"] = expr(X->getArraySize().value_or(nullptr));
            o["init"] = expr(X->getInitializer());
        } else if (auto* X = dyn_cast<CXXDeleteExpr>(E)) {
            o["k"] = "delete";
            o["x"] = expr(X->getArgument());
        } else if (auto* X = dyn_cast<CXXThrowExpr>(E)) {
            o["k"] = "throw";
            o["x"] = expr(X->getSubExpr());
        } else if (auto* X = dyn_cast<ArrayInitLoopExpr>(E)) {
            o["k"] = "arraycopy";
            o["x"] = expr(X->getCommonExpr());
        } else if (isa<ArrayInitIndexExpr>(E)) {
            o["k"] = "unknown";
            o["cls"] = "ArrayInitIndexExpr";
        } else if (auto* X = dyn_cast<StmtExpr>(E)) {
            o["k"] = "stmtexpr";
            o["s"] = stmt(X->getSubStmt());
        } else {
            o["k"] = "unknown";
            o["cls"] = E->getStmtClassName();
            json::Array as;
            for (const Stmt* S : E->children())
                if (auto* X = dyn_cast_or_null<Expr>(S)) as.push_back(expr(X));
            o["args"] = std::move(as);
        }
        return o;
    }

    template <class R>
    void args(json::Object& o, R&& range)
    {
        json::Array as;
        for (const Expr* A : range) as.push_back(expr(A));
        o["args"] = std::move(as);
    }

    void declRef(json::Object& o, const ValueDecl* D)
    {
        o["d"] = declId(D);
        o["n"] = D->getNameAsString();
        if (auto* V = dyn_cast<VarDecl>(D)) {
            o["dt"] = typeId(V->getType());
            if (isa<ParmVarDecl>(V)) o["dk"] = "param";
            else if (V->isStaticLocal()) o["dk"] = "staticlocal";
            else if (V->hasGlobalStorage()) {
                o["dk"] = "global";
                o["qn"] = qname(V);
                o["root"] = inRoot(V->getLocation());
            } else o["dk"] = "var";
        } else if (isa<BindingDecl>(D)) {
            o["dk"] = "binding";
            o["dt"] = typeId(D->getType());
        } else if (isa<EnumConstantDecl>(D)) {
            o["dk"] = "enumconst";
        } else {
            o["dk"] = "other";
        }
    }

    json::Object varDecl(const VarDecl* V)
    {
        json::Object o;
        o["k"] = "var";
        addLoc(o, V->getLocation());
        o["d"] = declId(V);
        o["n"] = V->getNameAsString();
        o["t"] = typeId(V->getType());
        if (V->isStaticLocal()) o["static"] = true;
        if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
        if (V->isConstexpr()) o["constexpr"] = true;
        if (const Expr* I = V->getInit()) o["init"] = expr(I);
        if (auto* DD = dyn_cast<DecompositionDecl>(V)) {
            json::Array bs;
            for (auto* B : DD->bindings()) {
                json::Object b;
                b["d"] = declId(B);
                b["n"] = B->getNameAsString();
                b["t"] = typeId(B->getType());
                if (auto* HV = B->getHoldingVar()) b["hold"] = declId(HV);
                if (auto* BE = B->getBinding()) {
                    if (auto* ME = dyn_cast<MemberExpr>(BE->IgnoreImplicit()))
                        if (auto* FD = dyn_cast<FieldDecl>(ME->getMemberDecl())) b["fld"] = qname(FD->getParent()) + "::" + FD->getNameAsString();
                }
                bs.push_back(std::move(b));
            }
            o["bindings"] = std::move(bs);
        }
        return o;
    }

    json::Value stmt(const Stmt* S)
    {
        if (!S) return nullptr;
        if (auto* E = dyn_cast<Expr>(S)) {
            json::Object o;
            o["k"] = "expr";
            addLoc(o, E->getBeginLoc());
            o["x"] = expr(E);
            return o;
        }
        json::Object o;
        addLoc(o, S->getBeginLoc());
        if (auto* X = dyn_cast<CompoundStmt>(S)) {
            o["k"] = "block";
            json::Array as;
            for (const Stmt* B : X->body()) as.push_back(stmt(B));
            o["s"] = std::move(as);
            json::Object t;
            addLoc(t, X->getRBracLoc());
            if (auto v = t.getInteger("l")) o["el"] = *v;
        } else if (auto* X = dyn_cast<DeclStmt>(S)) {
            o["k"] = "decl";
            json::Array as;
            for (const Decl* D : X->decls()) {
                if (auto* V = dyn_cast<VarDecl>(D)) as.push_back(varDecl(V));
            }
            o["vars"] = std::move(as);
        } else if (auto* X = dyn_cast<IfStmt>(S)) {
            o["k"] = "if";
            if (X->getInit()) o["init"] = stmt(X->getInit());
            if (X->getConditionVariable()) o["cvar"] = varDecl(X->getConditionVariable());
            o["cond"] = expr(X->getCond());
            o["then"] = stmt(X->getThen());
            o["else"] = stmt(X->getElse());
            if (X->isConstexpr()) o["constexpr"] = true;
        } else if (auto* X = dyn_cast<WhileStmt>(S)) {
            o["k"] = "while";
            if (X->getConditionVariable()) o["cvar"] = varDecl(X->getConditionVariable());
            o["cond"] = expr(X->getCond());
            o["body"] = stmt(X->getBody());
        } else if (auto* X = dyn_cast<DoStmt>(S)) {
            o["k"] = "do";
            o["cond"] = expr(X->getCond());
            o["body"] = stmt(X->getBody());
        } else if (auto* X = dyn_cast<ForStmt>(S)) {
            o["k"] = "for";
            o["init"] = stmt(X->getInit());
            if (X->getConditionVariable()) o["cvar"] = varDecl(X->getConditionVariable());
            o["cond"] = expr(X->getCond());
            o["inc"] = expr(X->getInc());
            o["body"] = stmt(X->getBody());
        } else if (auto* X = dyn_cast<CXXForRangeStmt>(S)) {
            o["k"] = "rangefor";
            if (X->getInit()) o["init"] = stmt(X->getInit());
            o["range"] = expr(X->getRangeInit());
            o["var"] = varDecl(X->getLoopVariable());
            o["body"] = stmt(X->getBody());
        } else if (auto* X = dyn_cast<ReturnStmt>(S)) {
            o["k"] = "return";
            o["x"] = expr(X->getRetValue());
        } else if (isa<BreakStmt>(S)) {
            o["k"] = "break";
        } else if (isa<ContinueStmt>(S)) {
            o["k"] = "continue";
        } else if (isa<NullStmt>(S)) {
            o["k"] = "null";
        } else if (auto* X = dyn_cast<SwitchStmt>(S)) {
            o["k"] = "switch";
            if (X->getInit()) o["init"] = stmt(X->getInit());
            if (X->getConditionVariable()) o["cvar"] = varDecl(X->getConditionVariable());
            o["cond"] = expr(X->getCond());
            o["body"] = stmt(X->getBody());
        } else if (auto* X = dyn_cast<CaseStmt>(S)) {
            o["k"] = "case";
            Expr::EvalResult R;
            if (!X->getLHS()->isValueDependent() && X->getLHS()->EvaluateAsInt(R, C)) o["v"] = llvm::toString(R.Val.getInt(), 10);
            if (X->getRHS()) o["range"] = true;
            o["s"] = stmt(X->getSubStmt());
        } else if (auto* X = dyn_cast<DefaultStmt>(S)) {
            o["k"] = "default";
            o["s"] = stmt(X->getSubStmt());
        } else if (auto* X = dyn_cast<CXXTryStmt>(S)) {
            o["k"] = "try";
            o["body"] = stmt(X->getTryBlock());
            json::Array hs;
            for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
                const CXXCatchStmt* H = X->getHandler(i);
                json::Object h;
                if (H->getExceptionDecl()) h["var"] = varDecl(H->getExceptionDecl());
                h["body"] = stmt(H->getHandlerBlock());
                hs.push_back(std::move(h));
            }
            o["handlers"] = std::move(hs);
        } else if (auto* X = dyn_cast<AttributedStmt>(S)) {
            return stmt(X->getSubStmt());
        } else if (auto* X = dyn_cast<LabelStmt>(S)) {
            o["k"] = "label";
            o["s"] = stmt(X->getSubStmt());
        } else {
            o["k"] = "unknown";
            o["cls"] = S->getStmtClassName();
        }
        return o;
    }

    void addFunction(const FunctionDecl* F)
    {
        if (F->isDependentContext() || !F->doesThisDeclarationHaveABody()) return;
        if (F->isTemplated() && !F->isTemplateInstantiation()) return;
        if (!inRoot(F->getLocation())) return;
        std::string u = usr(F);
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
            if (M->getParent()->isLambda()) u += "#" + std::to_string(declId(F));
        if (!doneFns.insert(u).second) return;
        if (F->isDefaulted() && !F->isUserProvided()) return;
        json::Object o = fnRef(F);
        curFile.clear();
        addLoc(o, F->getLocation());
        curFile = o.getString("f").value_or("").str();
        o["file"] = curFile;
        o["did"] = declId(F);
        json::Array ps;
        for (auto* P : F->parameters()) {
            json::Object p;
            p["d"] = declId(P);
            p["n"] = P->getNameAsString();
            p["t"] = typeId(P->getType());
            ps.push_back(std::move(p));
        }
        o["params"] = std::move(ps);
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            json::Array ov;
            for (auto* B : M->overridden_methods()) ov.push_back(usr(B));
            o["overrides"] = std::move(ov);
            o["access"] = (int)M->getAccess();
        }
        o["anon"] = F->isInAnonymousNamespace();
        o["internal"] = !F->isExternallyVisible();
        if (auto* CD = dyn_cast<CXXConstructorDecl>(F)) {
            json::Array is;
            for (const CXXCtorInitializer* I : CD->inits()) {
                json::Object i;
                if (I->isMemberInitializer()) {
                    i["fld"] = qname(I->getMember()->getParent()) + "::" + I->getMember()->getNameAsString();
                    i["ft"] = typeId(I->getMember()->getType());
                } else if (I->isBaseInitializer()) {
                    i["base"] = typeId(QualType(I->getBaseClass(), 0));
                } else if (I->isDelegatingInitializer()) {
                    i["deleg"] = true;
                }
                i["written"] = I->isWritten();
                i["x"] = expr(I->getInit());
                is.push_back(std::move(i));
            }
            o["inits"] = std::move(is);
        }
        o["body"] = stmt(F->getBody());
        functions.push_back(std::move(o));
    }

    void addRecord(const CXXRecordDecl* R)
    {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || !inRoot(R->getLocation())) return;
        if (R->isLambda()) return;
        std::string n = qname(R);
        if (!doneRecs.insert(n).second) return;
        json::Object o;
        curFile.clear();
        addLoc(o, R->getLocation());
        o["n"] = n;
        json::Array bases, fields, methods;
        for (const auto& B : R->bases()) bases.push_back(B.getType()->getAsCXXRecordDecl() ? qname(B.getType()->getAsCXXRecordDecl()) : "?");
        for (const FieldDecl* F : R->fields()) {
            json::Object f;
            f["n"] = F->getNameAsString();
            f["q"] = n + "::" + F->getNameAsString();
            f["t"] = typeId(F->getType());
            if (F->isMutable()) f["mutable"] = true;
            f["l"] = (int64_t)SM.getExpansionLineNumber(F->getLocation());
            if (F->hasInClassInitializer()) f["init"] = expr(F->getInClassInitializer());
            fields.push_back(std::move(f));
        }
        for (const CXXMethodDecl* M : R->methods()) {
            json::Object m = fnRef(M);
            m["access"] = (int)M->getAccess();
            m["pure"] = M->isPureVirtual();
            m["deleted"] = M->isDeleted();
            m["userprov"] = M->isUserProvided();
            m["l"] = (int64_t)SM.getExpansionLineNumber(M->getLocation());
            json::Array ov;
            for (auto* B : M->overridden_methods()) ov.push_back(usr(B));
            m["overrides"] = std::move(ov);
            methods.push_back(std::move(m));
        }
        o["bases"] = std::move(bases);
        o["fields"] = std::move(fields);
        o["methods"] = std::move(methods);
        // copyability
        bool copyDeleted = R->defaultedCopyConstructorIsDeleted(), userCopy = R->hasUserDeclaredCopyConstructor();
        for (const CXXConstructorDecl* K : R->ctors())
            if (K->isCopyConstructor()) {
                if (K->isDeleted()) copyDeleted = true;
                if (K->isUserProvided()) userCopy = true; else if (!K->isDeleted()) userCopy = false;
            }
        o["copyDeleted"] = copyDeleted;
        o["userCopy"] = userCopy;
        o["trivialCopy"] = R->hasTrivialCopyConstructor();
        records.push_back(std::move(o));
    }

    void addGlobal(const VarDecl* V)
    {
        if (!V->hasGlobalStorage() || !inRoot(V->getLocation())) return;
        if (V->getDeclContext()->isDependentContext()) return;
        curFile.clear();
        json::Object o = varDecl(V);
        o["qn"] = qname(V);
        o["usr"] = usr(V);
        o["def"] = V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
        globals.push_back(std::move(o));
    }

    void finish(bool ok)
    {
        json::Object top;
        top["types"] = std::move(types);
        top["functions"] = std::move(functions);
        top["records"] = std::move(records);
        top["globals"] = std::move(globals);
        top["ok"] = ok;
        std::error_code EC;
        llvm::raw_fd_ostream os(OutFile, EC);
        os << json::Value(std::move(top));
    }
};

class Visitor : public RecursiveASTVisitor<Visitor>
{
    Exporter& X;

public:
    explicit Visitor(Exporter& E) : X(E) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl* F) { X.addFunction(F); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl* R) { X.addRecord(R); return true; }
    bool VisitVarDecl(VarDecl* V) { if (!isa<ParmVarDecl>(V)) X.addGlobal(V); return true; }
    bool VisitLambdaExpr(LambdaExpr* L)
    {
        if (!L->isGenericLambda()) { X.addFunction(L->getCallOperator()); }
        return true;
    }
};

class Consumer : public ASTConsumer
{
    CompilerInstance& CI;

public:
    explicit Consumer(CompilerInstance& I) : CI(I) {}
    void HandleTranslationUnit(ASTContext& C) override
    {
        Exporter X(C);
        Visitor(X).TraverseDecl(C.getTranslationUnitDecl());
        X.finish(!CI.getDiagnostics().hasErrorOccurred());
    }
};

class Action : public ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override { return std::make_unique<Consumer>(CI); }
};
} // namespace

// uxfacts ROOT/ OUT.json SOURCE -- FLAGS...
int main(int argc, const char** argv)
{
    if (argc < 5) return 2;
    Root = argv[1];
    OutFile = argv[2];
    std::string Src = argv[3];
    std::vector<std::string> flags;
    for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", flags);
    tooling::ClangTool Tool(DB, {Src});
    return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
