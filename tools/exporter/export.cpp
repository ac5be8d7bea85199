// Exports the type-checked program of securefs translation units as a compact JSON tree:
// every function defined in the repository (methods, lambdas and implicit template instantiations
// included) with resolved callees, resolved fields, folded integral constants, and every record.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/Attr.h>
#include <clang/AST/Mangle.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Basic/Diagnostic.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Lex/Lexer.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <string>
using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::string Prefix = "/repo/";
static std::string OutPath;
static std::string TuName;

class Exporter
{
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    std::unique_ptr<MangleContext> MC;
    std::map<const Decl*, int> Ids;
    std::set<const FunctionDecl*> Seen;
    std::set<const CXXRecordDecl*> SeenR;

public:
    Array Functions, Records, Globals;
    std::vector<const FunctionDecl*> Work;
    explicit Exporter(ASTContext& C)
        : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()), MC(C.createMangleContext())
    {
        PP.SuppressTagKeyword = true;
        PP.PrintCanonicalTypes = true;
        PP.FullyQualifiedName = true;
    }
    std::string fileOf(SourceLocation L)
    {
        L = SM.getExpansionLoc(L);
        auto F = SM.getFilename(L);
        return F.str();
    }
    bool inRepo(SourceLocation L)
    {
        if (L.isInvalid())
            return false;
        auto F = fileOf(L);
        return llvm::StringRef(F).starts_with(Prefix)
            && !llvm::StringRef(F).contains("/_build/");
    }
    int lineOf(SourceLocation L) { return L.isValid() ? SM.getExpansionLineNumber(L) : 0; }
    int idOf(const Decl* D)
    {
        D = D->getCanonicalDecl();
        auto it = Ids.find(D);
        if (it != Ids.end())
            return it->second;
        int n = Ids.size() + 1;
        Ids[D] = n;
        return n;
    }
    std::string ty(QualType T)
    {
        if (T.isNull())
            return "";
        return T.getCanonicalType().getAsString(PP);
    }
    std::string qual(const NamedDecl* D)
    {
        if (auto* M = dyn_cast<CXXMethodDecl>(D))
            if (M->getParent()->isLambda())
            {
                auto L = M->getParent()->getLocation();
                return "(lambda@" + fileOf(L).substr(std::min(fileOf(L).size(), Prefix.size())) + ":"
                    + std::to_string(lineOf(L)) + ")";
            }
        std::string S;
        llvm::raw_string_ostream OS(S);
        D->printQualifiedName(OS, PP);
        return S;
    }
    std::string key(const FunctionDecl* F)
    {
        F = F->getCanonicalDecl();
        std::string S;
        if (auto* M = dyn_cast<CXXMethodDecl>(F); M && M->getParent()->isLambda())
        {
            auto L = M->getParent()->getLocation();
            S = "lambda@" + fileOf(L) + ":" + std::to_string(lineOf(L)) + ":"
                + std::to_string(SM.getExpansionColumnNumber(L)) + ":"
                + std::to_string(idOf(M->getParent()));
            if (isa<CXXConversionDecl>(M))
                S += ":conv";
            return S + "@" + TuName;
        }
        if (F->getType()->isDependentType() || F->isDependentContext())
        {
            return "dep:" + qual(F) + "@" + std::to_string(lineOf(F->getLocation()));
        }
        llvm::raw_string_ostream OS(S);
        if (auto* D = dyn_cast<CXXConstructorDecl>(F))
            MC->mangleName(GlobalDecl(D, Ctor_Complete), OS);
        else if (auto* D = dyn_cast<CXXDestructorDecl>(F))
            MC->mangleName(GlobalDecl(D, Dtor_Complete), OS);
        else if (MC->shouldMangleDeclName(F))
            MC->mangleName(GlobalDecl(F), OS);
        else
            OS << F->getNameAsString();
        OS.flush();
        // Entities of internal linkage or local to a function are per translation unit.
        if (!F->isExternallyVisible() && inRepo(F->getLocation()))
            S += "@" + TuName;
        return S;
    }
    static bool nothrow(const FunctionProtoType* FT)
    {
        if (FT->isDependentType())
            return false;
        switch (FT->getExceptionSpecType())
        {
        case EST_BasicNoexcept:
        case EST_NoexceptTrue:
        case EST_NoThrow:
        case EST_DynamicNone:
            return true;
        case EST_Unevaluated:
            return true;    // implicit special members (destructors above all)
        default:
            return false;
        }
    }
    void need(const FunctionDecl* F)
    {
        if (!F)
            return;
        Work.push_back(F);
    }
    Object mk(const char* k, const Stmt* S)
    {
        Object O;
        O["k"] = k;
        if (S)
        {
            O["l"] = lineOf(S->getBeginLoc());
        }
        return O;
    }
    Value opt(const Expr* E) { return E ? Value(expr(E)) : Value(nullptr); }

    template <class R>
    Array args(R range)
    {
        Array A;
        for (auto* X : range)
            A.push_back(expr(X));
        return A;
    }

    Object fnref(Object O, const FunctionDecl* F)
    {
        need(F);
        O["f"] = key(F);
        O["n"] = qual(F);
        if (F->isNoReturn())
            O["nr"] = true;
        if (auto* FT = F->getType()->getAs<FunctionProtoType>())
        {
            if (nothrow(FT))
                O["nx"] = true;
        }
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
        {
            if (M->isConst())
                O["cm"] = true;
            if (M->isStatic())
                O["sm"] = true;
            O["mc"] = qual(M->getParent());
        }
        if (!inRepo(F->getLocation()))
            O["ext"] = true;
        Array PT;
        for (auto* V : F->parameters())
        {
            QualType T = V->getType();
            const char* c = "v";
            if (T->isReferenceType())
                c = T->getPointeeType().isConstQualified() ? "cr" : "r";
            else if (T->isPointerType())
                c = T->getPointeeType().isConstQualified() ? "cp" : "p";
            if (T->isRValueReferenceType())
                c = "rr";
            PT.push_back(c);
        }
        O["pt"] = std::move(PT);
        if (F->getBuiltinID())
            O["bi"] = true;
        if (F->isExternC())
            O["c"] = true;
        return O;
    }

    Object expr(const Expr* E)
    {
        if (!E)
            return mk("null", nullptr);
        // Peel the wrappers that carry no meaning here.
        for (;;)
        {
            if (auto* X = dyn_cast<ParenExpr>(E))
                E = X->getSubExpr();
            else if (auto* X = dyn_cast<FullExpr>(E))
            {
                if (auto* CE = dyn_cast<ConstantExpr>(E))
                {
                    if (CE->getType()->isIntegralOrEnumerationType()
                        && CE->getAPValueResult().isInt())
                        break;
                }
                E = X->getSubExpr();
            }
            else if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E))
                E = X->getSubExpr();
            else if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E))
                E = X->getSubExpr();
            else if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
                E = X->getReplacement();
            else if (auto* X = dyn_cast<CXXDefaultArgExpr>(E))
                E = X->getExpr();
            else if (auto* X = dyn_cast<CXXDefaultInitExpr>(E))
                E = X->getExpr();
            else if (auto* X = dyn_cast<OpaqueValueExpr>(E))
            {
                if (!X->getSourceExpr())
                    break;
                E = X->getSourceExpr();
            }
            else
                break;
        }
        // Fold integral constants.
        if (!E->isTypeDependent() && !E->isValueDependent()
            && E->getType()->isIntegralOrEnumerationType() && !isa<InitListExpr>(E))
        {
            Expr::EvalResult R;
            if (!E->HasSideEffects(C) && E->EvaluateAsInt(R, C) && !R.HasSideEffects)
            {
                auto O = mk("int", E);
                llvm::SmallString<24> S;
                auto I = R.Val.getInt();
                if (I.isUnsigned() ? I.getActiveBits() <= 63 : I.getSignificantBits() <= 64)
                    O["v"] = I.isUnsigned() ? (int64_t)I.getZExtValue() : I.getSExtValue();
                else
                {
                    I.toString(S, 10);
                    O["v"] = S.str().str();
                }
                O["t"] = ty(E->getType());
                const Expr* P = E->IgnoreParenImpCasts();
                if (auto* D = dyn_cast<DeclRefExpr>(P))
                    O["n"] = qual(D->getDecl());
                else if (auto* SE = dyn_cast<UnaryExprOrTypeTraitExpr>(P))
                {
                    if (SE->getKind() == UETT_SizeOf)
                    {
                        if (SE->isArgumentType())
                            O["szt"] = ty(SE->getArgumentType());
                        else
                            O["sz"] = expr(SE->getArgumentExpr());
                    }
                }
                return O;
            }
        }
        if (auto* X = dyn_cast<FullExpr>(E))
            return expr(X->getSubExpr());
        if (auto* X = dyn_cast<CastExpr>(E))
        {
            const Expr* S = X->getSubExpr();
            switch (X->getCastKind())
            {
            case CK_IntegralCast:
            case CK_IntegralToBoolean:
            case CK_PointerToBoolean:
            case CK_IntegralToFloating:
            case CK_FloatingToIntegral:
            case CK_FloatingCast:
            case CK_PointerToIntegral:
            case CK_IntegralToPointer:
            case CK_MemberPointerToBoolean:
            case CK_ToVoid:
            {
                auto O = mk("cast", E);
                O["t"] = ty(E->getType());
                O["a"] = expr(S);
                if (isa<ExplicitCastExpr>(X))
                    O["x"] = true;
                return O;
            }
            case CK_Dynamic:
            {
                auto O = mk("dyncast", E);
                O["t"] = ty(E->getType());
                O["a"] = expr(S);
                return O;
            }
            case CK_NullToPointer:
                return mk("nullptr", E);
            case CK_BaseToDerived:
            {
                auto O = mk("downcast", E);
                O["t"] = ty(E->getType());
                O["a"] = expr(S);
                return O;
            }
            case CK_BitCast:
            {
                auto O = mk("bitcast", E);
                O["t"] = ty(E->getType());
                O["a"] = expr(S);
                return O;
            }
            default:
                return expr(S);
            }
        }
        if (auto* X = dyn_cast<StringLiteral>(E))
        {
            auto O = mk("str", E);
            if (X->getCharByteWidth() == 1)
            {
                std::string Out;
                for (unsigned char c : X->getString())
                    if (c < 0x80 && c)
                        Out.push_back(c);
                    else
                    {
                        char b[8];
                        snprintf(b, 8, "\\x%02x", c);
                        Out += b;
                    }
                O["v"] = Out;
            }
            return O;
        }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E))
            return mk("nullptr", E);
        if (auto* X = dyn_cast<FloatingLiteral>(E))
        {
            auto O = mk("float", E);
            O["v"] = X->getValueAsApproximateDouble();
            return O;
        }
        if (isa<CXXThisExpr>(E))
        {
            auto O = mk("this", E);
            O["t"] = ty(E->getType());
            return O;
        }
        if (auto* X = dyn_cast<DeclRefExpr>(E))
        {
            auto* D = X->getDecl();
            if (auto* F = dyn_cast<FunctionDecl>(D))
                return fnref(mk("fn", E), F);
            if (auto* B = dyn_cast<BindingDecl>(D))
            {
                if (auto* BE = B->getBinding())
                    if (auto* HV = B->getHoldingVar(); !HV)
                        return expr(BE);
                auto O = mk("var", E);
                O["id"] = idOf(B->getHoldingVar() ? (const Decl*)B->getHoldingVar() : B);
                O["n"] = B->getNameAsString();
                O["t"] = ty(E->getType());
                return O;
            }
            if (auto* V = dyn_cast<VarDecl>(D))
            {
                bool G = !V->isLocalVarDeclOrParm();
                auto O = mk(G ? "gvar" : "var", E);
                O["id"] = idOf(V);
                O["n"] = G ? qual(V) : V->getNameAsString();
                O["t"] = ty(E->getType());
                if (V->isStaticLocal())
                    O["st"] = true;
                return O;
            }
            auto O = mk("ref", E);
            O["n"] = qual(D);
            O["t"] = ty(E->getType());
            return O;
        }
        if (auto* X = dyn_cast<MemberExpr>(E))
        {
            auto* D = X->getMemberDecl();
            if (auto* V = dyn_cast<VarDecl>(D))
            {
                auto O = mk("gvar", E);
                O["id"] = idOf(V);
                O["n"] = qual(V);
                O["t"] = ty(E->getType());
                return O;
            }
            auto O = mk("mem", E);
            O["b"] = expr(X->getBase());
            O["f"] = qual(D);
            O["arrow"] = X->isArrow();
            O["t"] = ty(E->getType());
            return O;
        }
        if (auto* X = dyn_cast<CXXMemberCallExpr>(E))
        {
            auto O = mk("call", E);
            auto* M = X->getMethodDecl();
            if (M)
            {
                O = fnref(std::move(O), M);
                if (M->isVirtual())
                {
                    auto* ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens());
                    if (!(ME && ME->hasQualifier()))
                        O["vt"] = true;
                }
            }
            else
                O["fx"] = expr(X->getCallee());
            O["o"] = expr(X->getImplicitObjectArgument());
            if (auto* ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens()))
                O["arrow"] = ME->isArrow();
            O["a"] = args(X->arguments());
            O["t"] = ty(E->getType());
            return O;
        }
        if (auto* X = dyn_cast<CXXOperatorCallExpr>(E))
        {
            auto O = mk("call", E);
            auto* F = X->getDirectCallee();
            if (F)
                O = fnref(std::move(O), F);
            else
                O["fx"] = expr(X->getCallee());
            Array A;
            unsigned i = 0;
            if (auto* M = dyn_cast_or_null<CXXMethodDecl>(F); M && !M->isStatic())
            {
                O["o"] = expr(X->getArg(0));
                if (M->isVirtual())
                    O["vt"] = true;
                i = 1;
            }
            for (; i < X->getNumArgs(); ++i)
                A.push_back(expr(X->getArg(i)));
            O["a"] = std::move(A);
            O["op"] = getOperatorSpelling(X->getOperator());
            O["t"] = ty(E->getType());
            return O;
        }
        if (auto* X = dyn_cast<CallExpr>(E))
        {
            auto O = mk("call", E);
            if (auto* F = X->getDirectCallee())
                O = fnref(std::move(O), F);
            else
                O["fx"] = expr(X->getCallee());
            O["a"] = args(X->arguments());
            O["t"] = ty(E->getType());
            return O;
        }
        if (auto* X = dyn_cast<CXXConstructExpr>(E))
        {
            auto* CD = X->getConstructor();
            if (X->getNumArgs() >= 1 && CD->isCopyOrMoveConstructor() && X->isElidable())
                return expr(X->getArg(0));
            auto O = fnref(mk("ctor", E), CD);
            O["cls"] = qual(CD->getParent());
            O["a"] = args(X->arguments());
            O["t"] = ty(E->getType());
            if (CD->isCopyConstructor())
                O["cp"] = "copy";
            else if (CD->isMoveConstructor())
                O["cp"] = "move";
            if (X->isListInitialization())
                O["li"] = true;
            return O;
        }
        if (auto* X = dyn_cast<CXXInheritedCtorInitExpr>(E))
        {
            auto O = fnref(mk("ctor", E), X->getConstructor());
            O["cls"] = qual(X->getConstructor()->getParent());
            O["a"] = Array();
            O["t"] = ty(E->getType());
            O["inh"] = true;
            return O;
        }
        if (auto* X = dyn_cast<BinaryOperator>(E))
        {
            if (X->isAssignmentOp())
            {
                auto O = mk("asg", E);
                O["op"] = X->getOpcodeStr().str();
                O["a"] = expr(X->getLHS());
                O["b"] = expr(X->getRHS());
                O["t"] = ty(E->getType());
                return O;
            }
            auto O = mk("bin", E);
            O["op"] = X->getOpcodeStr().str();
            O["a"] = expr(X->getLHS());
            O["b"] = expr(X->getRHS());
            O["t"] = ty(E->getType());
            return O;
        }
        if (auto* X = dyn_cast<UnaryOperator>(E))
        {
            if (X->isIncrementDecrementOp())
            {
                auto O = mk("inc", E);
                O["op"] = X->isIncrementOp() ? "++" : "--";
                O["pre"] = X->isPrefix();
                O["a"] = expr(X->getSubExpr());
                return O;
            }
            if (X->getOpcode() == UO_Extension || X->getOpcode() == UO_Plus)
                return expr(X->getSubExpr());
            auto O = mk("un", E);
            O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
            O["a"] = expr(X->getSubExpr());
            O["t"] = ty(E->getType());
            return O;
        }
        if (auto* X = dyn_cast<ConditionalOperator>(E))
        {
            auto O = mk("cond", E);
            O["c"] = expr(X->getCond());
            O["a"] = expr(X->getTrueExpr());
            O["b"] = expr(X->getFalseExpr());
            O["t"] = ty(E->getType());
            return O;
        }
        if (auto* X = dyn_cast<ArraySubscriptExpr>(E))
        {
            auto O = mk("idx", E);
            O["a"] = expr(X->getBase());
            O["b"] = expr(X->getIdx());
            O["t"] = ty(E->getType());
            return O;
        }
        if (auto* X = dyn_cast<CXXThrowExpr>(E))
        {
            auto O = mk("throw", E);
            if (X->getSubExpr())
            {
                O["a"] = expr(X->getSubExpr());
                O["t"] = ty(X->getSubExpr()->getType());
                bases(O, X->getSubExpr()->getType());
            }
            return O;
        }
        if (auto* X = dyn_cast<LambdaExpr>(E))
        {
            auto O = mk("lambda", E);
            need(X->getCallOperator());
            O["f"] = key(X->getCallOperator());
            if (X->isGenericLambda())
            {
                Array I;
                if (auto* FT = X->getCallOperator()->getDescribedFunctionTemplate())
                    for (auto* S : FT->specializations())
                    {
                        need(S);
                        I.push_back(key(S));
                    }
                O["gen"] = std::move(I);
            }
            Array Caps;
            auto InitIt = X->capture_init_begin();
            for (auto& Cap : X->captures())
            {
                Object CO;
                if (Cap.capturesThis())
                {
                    CO["this"] = true;
                }
                else if (Cap.capturesVariable())
                {
                    CO["id"] = idOf(Cap.getCapturedVar());
                    CO["n"] = Cap.getCapturedVar()->getNameAsString();
                    CO["by"] = Cap.getCaptureKind() == LCK_ByRef ? "ref" : "copy";
                    if (auto* VD = dyn_cast<VarDecl>(Cap.getCapturedVar());
                        VD && VD->isInitCapture() && VD->getInit())
                        CO["init"] = expr(VD->getInit());
                }
                Caps.push_back(std::move(CO));
                ++InitIt;
            }
            O["caps"] = std::move(Caps);
            O["t"] = ty(E->getType());
            return O;
        }
        if (auto* X = dyn_cast<InitListExpr>(E))
        {
            if (X->isSemanticForm() == false && X->getSemanticForm())
                X = X->getSemanticForm();
            if (X->isTransparent() && X->getNumInits() == 1)
                return expr(X->getInit(0));
            auto O = mk("list", E);
            O["a"] = args(X->inits());
            O["t"] = ty(E->getType());
            if (X->hasArrayFiller())
                O["fill"] = true;
            return O;
        }
        if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E))
            return expr(X->getSubExpr());
        if (auto* X = dyn_cast<CXXNewExpr>(E))
        {
            auto O = mk("new", E);
            O["t"] = ty(X->getAllocatedType());
            if (X->getInitializer())
                O["a"] = expr(X->getInitializer());
            if (X->isArray() && X->getArraySize())
                O["n"] = expr(*X->getArraySize());
            return O;
        }
        if (auto* X = dyn_cast<CXXDeleteExpr>(E))
        {
            auto O = mk("delete", E);
            O["a"] = expr(X->getArgument());
            return O;
        }
        if (auto* X = dyn_cast<CXXScalarValueInitExpr>(E))
        {
            auto O = mk("zero", E);
            O["t"] = ty(X->getType());
            return O;
        }
        if (isa<ImplicitValueInitExpr>(E))
        {
            auto O = mk("zero", E);
            O["t"] = ty(E->getType());
            return O;
        }
        if (auto* X = dyn_cast<CXXTypeidExpr>(E))
        {
            auto O = mk("typeid", E);
            if (!X->isTypeOperand())
                O["a"] = expr(X->getExprOperand());
            return O;
        }
        if (auto* X = dyn_cast<CXXRewrittenBinaryOperator>(E))
            return expr(X->getSemanticForm());
        if (auto* X = dyn_cast<PredefinedExpr>(E))
            return mk("str", E);
        if (auto* X = dyn_cast<UnaryExprOrTypeTraitExpr>(E))
        {
            auto O = mk("sizeof", E);
            return O;
        }
        auto O = mk("other", E);
        O["c"] = E->getStmtClassName();
        Array A;
        for (auto* S : E->children())
            if (auto* SE = dyn_cast_or_null<Expr>(S))
                A.push_back(expr(SE));
        O["a"] = std::move(A);
        if (!E->isTypeDependent())
            O["t"] = ty(E->getType());
        return O;
    }
    void bases(Object& O, QualType T)
    {
        Array B;
        if (auto* R = T.getNonReferenceType()->getAsCXXRecordDecl(); R && R->hasDefinition())
        {
            B.push_back(qual(R));
            R->forallBases(
                [&](const CXXRecordDecl* X)
                {
                    B.push_back(qual(X));
                    return true;
                });
        }
        O["bases"] = std::move(B);
    }
    Object var(const VarDecl* V)
    {
        Object O;
        O["id"] = idOf(V);
        O["n"] = V->getNameAsString();
        O["t"] = ty(V->getType());
        O["l"] = lineOf(V->getLocation());
        if (V->getType()->isReferenceType())
            O["ref"] = true;
        if (V->isStaticLocal())
            O["static"] = true;
        if (V->getTLSKind() != VarDecl::TLS_None)
            O["tls"] = true;
        if (V->getInit())
            O["init"] = expr(V->getInit());
        if (auto* R = V->getType().getNonReferenceType()->getAsCXXRecordDecl();
            R && R->hasDefinition() && !V->getType()->isReferenceType())
        {
            if (auto* D = R->getDestructor(); D && !R->hasTrivialDestructor())
            {
                need(D);
                O["dtor"] = key(D);
                O["dtorn"] = qual(R);
            }
        }
        if (auto* DD = dyn_cast<DecompositionDecl>(V))
        {
            Array B;
            for (auto* X : DD->bindings())
            {
                Object BO;
                BO["id"] = idOf(X->getHoldingVar() ? (const Decl*)X->getHoldingVar() : X);
                BO["n"] = X->getNameAsString();
                B.push_back(std::move(BO));
            }
            O["bind"] = std::move(B);
        }
        return O;
    }
    Object st(const char* s, const Stmt* S)
    {
        Object O;
        O["s"] = s;
        O["l"] = lineOf(S->getBeginLoc());
        return O;
    }
    Value sopt(const Stmt* S) { return S ? Value(stmt(S)) : Value(nullptr); }
    Object stmt(const Stmt* S)
    {
        if (auto* E = dyn_cast<Expr>(S))
        {
            auto O = st("expr", S);
            O["e"] = expr(E);
            return O;
        }
        if (auto* X = dyn_cast<CompoundStmt>(S))
        {
            auto O = st("block", S);
            Array A;
            for (auto* Y : X->body())
                A.push_back(stmt(Y));
            O["b"] = std::move(A);
            return O;
        }
        if (auto* X = dyn_cast<DeclStmt>(S))
        {
            auto O = st("decl", S);
            Array A;
            for (auto* D : X->decls())
                if (auto* V = dyn_cast<VarDecl>(D))
                    A.push_back(var(V));
            O["v"] = std::move(A);
            return O;
        }
        if (auto* X = dyn_cast<IfStmt>(S))
        {
            auto O = st("if", S);
            if (X->getInit())
                O["init"] = stmt(X->getInit());
            if (X->getConditionVariableDeclStmt())
                O["var"] = stmt(X->getConditionVariableDeclStmt());
            O["c"] = expr(X->getCond());
            O["t"] = stmt(X->getThen());
            if (X->getElse())
                O["e"] = stmt(X->getElse());
            if (X->isConstexpr())
                O["cx"] = true;
            return O;
        }
        if (auto* X = dyn_cast<WhileStmt>(S))
        {
            auto O = st("while", S);
            if (X->getConditionVariableDeclStmt())
                O["var"] = stmt(X->getConditionVariableDeclStmt());
            O["c"] = expr(X->getCond());
            O["b"] = stmt(X->getBody());
            return O;
        }
        if (auto* X = dyn_cast<DoStmt>(S))
        {
            auto O = st("do", S);
            O["c"] = expr(X->getCond());
            O["b"] = stmt(X->getBody());
            return O;
        }
        if (auto* X = dyn_cast<ForStmt>(S))
        {
            auto O = st("for", S);
            if (X->getInit())
                O["init"] = stmt(X->getInit());
            if (X->getCond())
                O["c"] = expr(X->getCond());
            if (X->getInc())
                O["inc"] = expr(X->getInc());
            O["b"] = stmt(X->getBody());
            return O;
        }
        if (auto* X = dyn_cast<CXXForRangeStmt>(S))
        {
            auto O = st("rfor", S);
            if (X->getInit())
                O["init"] = stmt(X->getInit());
            O["v"] = var(X->getLoopVariable());
            O["r"] = expr(X->getRangeInit());
            O["b"] = stmt(X->getBody());
            return O;
        }
        if (auto* X = dyn_cast<SwitchStmt>(S))
        {
            auto O = st("switch", S);
            if (X->getInit())
                O["init"] = stmt(X->getInit());
            if (X->getConditionVariableDeclStmt())
                O["var"] = stmt(X->getConditionVariableDeclStmt());
            O["c"] = expr(X->getCond());
            O["b"] = stmt(X->getBody());
            return O;
        }
        if (auto* X = dyn_cast<CaseStmt>(S))
        {
            auto O = st("case", S);
            O["c"] = expr(X->getLHS());
            O["b"] = stmt(X->getSubStmt());
            return O;
        }
        if (auto* X = dyn_cast<DefaultStmt>(S))
        {
            auto O = st("default", S);
            O["b"] = stmt(X->getSubStmt());
            return O;
        }
        if (auto* X = dyn_cast<ReturnStmt>(S))
        {
            auto O = st("return", S);
            if (X->getRetValue())
                O["e"] = expr(X->getRetValue());
            return O;
        }
        if (isa<BreakStmt>(S))
            return st("break", S);
        if (isa<ContinueStmt>(S))
            return st("continue", S);
        if (isa<NullStmt>(S))
        {
            auto O = st("block", S);
            O["b"] = Array();
            return O;
        }
        if (auto* X = dyn_cast<AttributedStmt>(S))
            return stmt(X->getSubStmt());
        if (auto* X = dyn_cast<LabelStmt>(S))
        {
            auto O = st("label", S);
            O["n"] = X->getName();
            O["b"] = stmt(X->getSubStmt());
            return O;
        }
        if (auto* X = dyn_cast<GotoStmt>(S))
        {
            auto O = st("goto", S);
            O["n"] = X->getLabel()->getNameAsString();
            return O;
        }
        if (auto* X = dyn_cast<CXXTryStmt>(S))
        {
            auto O = st("try", S);
            O["b"] = stmt(X->getTryBlock());
            Array A;
            for (unsigned i = 0; i < X->getNumHandlers(); ++i)
            {
                auto* H = X->getHandler(i);
                auto HO = st("catch", H);
                if (H->getExceptionDecl())
                {
                    HO["v"] = var(H->getExceptionDecl());
                    HO["t"] = ty(H->getCaughtType().getNonReferenceType().getUnqualifiedType());
                }
                HO["b"] = stmt(H->getHandlerBlock());
                A.push_back(std::move(HO));
            }
            O["h"] = std::move(A);
            return O;
        }
        auto O = st("other", S);
        O["c"] = S->getStmtClassName();
        Array A;
        for (auto* Y : S->children())
            if (Y)
                A.push_back(stmt(Y));
        O["b"] = std::move(A);
        return O;
    }
    Array attrs(const Decl* D)
    {
        Array A;
        for (auto* X : D->attrs())
        {
            Object O;
            O["k"] = X->getSpelling();
            Array As;
            auto add = [&](auto* T)
            {
                for (auto* E : T->args())
                    As.push_back(expr(E));
            };
            if (auto* T = dyn_cast<RequiresCapabilityAttr>(X))
                add(T);
            else if (auto* T = dyn_cast<AcquireCapabilityAttr>(X))
                add(T);
            else if (auto* T = dyn_cast<ReleaseCapabilityAttr>(X))
                add(T);
            else if (auto* T = dyn_cast<LocksExcludedAttr>(X))
                add(T);
            else if (auto* T = dyn_cast<GuardedByAttr>(X))
                As.push_back(expr(T->getArg()));
            else if (auto* T = dyn_cast<PtGuardedByAttr>(X))
                As.push_back(expr(T->getArg()));
            O["a"] = std::move(As);
            A.push_back(std::move(O));
        }
        return A;
    }
    void function(const FunctionDecl* F)
    {
        if (!F || F->isDependentContext() || F->getType()->isDependentType())
            return;
        const FunctionDecl* Def = nullptr;
        if (!F->hasBody(Def))
            Def = nullptr;
        if (F->isDefaulted() && !Def)
            return;
        if (Def)
            F = Def;
        if (!inRepo(F->getLocation()))
            return;
        if (!Seen.insert(F->getCanonicalDecl()).second)
            return;
        Object O;
        O["key"] = key(F);
        O["n"] = qual(F);
        O["file"] = fileOf(F->getLocation());
        O["l"] = lineOf(F->getLocation());
        O["el"] = lineOf(F->getEndLoc());
        O["ret"] = ty(F->getReturnType());
        O["vis"] = F->isExternallyVisible();
        if (F->isImplicit() || F->isDefaulted())
            O["impl"] = true;
        Array P;
        for (auto* V : F->parameters())
        {
            Object PO;
            PO["id"] = idOf(V);
            PO["n"] = V->getNameAsString();
            PO["t"] = ty(V->getType());
            P.push_back(std::move(PO));
        }
        O["p"] = std::move(P);
        // Parameters of other redeclarations share nothing with the definition's.
        if (auto* FT = F->getType()->getAs<FunctionProtoType>())
            if (nothrow(FT))
                O["nx"] = true;
        if (F->isNoReturn())
            O["nr"] = true;
        {
            Array A;
            for (auto* R : F->redecls())
                for (auto& V : attrs(R))
                    A.push_back(std::move(V));
            O["attrs"] = std::move(A);
        }
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
        {
            O["cls"] = qual(M->getParent());
            O["static"] = M->isStatic();
            O["virt"] = M->isVirtual();
            O["const"] = M->isConst();
            O["access"] = (int)M->getAccess();
            if (M->isPureVirtual())
                O["pure"] = true;
            Array Ov;
            for (auto* X : M->overridden_methods())
                Ov.push_back(key(X));
            O["over"] = std::move(Ov);
            if (M->getParent()->isLambda())
            {
                O["lambda"] = true;
            }
            if (isa<CXXDestructorDecl>(M))
                O["dtor"] = true;
            if (auto* CD = dyn_cast<CXXConstructorDecl>(M))
            {
                O["ctor"] = true;
                if (CD->isCopyOrMoveConstructor())
                    O["cpctor"] = true;
                Array I;
                if (Def)
                    for (auto* X : CD->inits())
                    {
                        Object IO;
                        if (X->isAnyMemberInitializer())
                            IO["field"] = qual(X->getAnyMember());
                        else if (X->isBaseInitializer())
                            IO["base"] = ty(QualType(X->getBaseClass(), 0));
                        else
                            IO["deleg"] = true;
                        IO["w"] = X->isWritten();
                        IO["l"] = lineOf(X->getSourceLocation());
                        if (X->getInit())
                            IO["e"] = expr(X->getInit());
                        I.push_back(std::move(IO));
                    }
                O["inits"] = std::move(I);
            }
        }
        if (Def && Def->getBody())
            O["body"] = stmt(Def->getBody());
        Functions.push_back(std::move(O));
    }
    void record(const CXXRecordDecl* R)
    {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || (!inRepo(R->getLocation()) && !(R->getIdentifier() && R->getName() == "fuse_operations")))
            return;
        if (!SeenR.insert(R).second)
            return;
        Object O;
        O["n"] = qual(R);
        O["file"] = fileOf(R->getLocation());
        O["l"] = lineOf(R->getLocation());
        if (R->isLambda())
            O["lambda"] = true;
        O["t"] = ty(C.getRecordType(R));
        Array B;
        for (auto& X : R->bases())
            B.push_back(ty(X.getType()));
        O["bases"] = std::move(B);
        Array F;
        for (auto* X : R->fields())
        {
            Object FO;
            FO["n"] = qual(X);
            FO["t"] = ty(X->getType());
            FO["l"] = lineOf(X->getLocation());
            if (X->isMutable())
                FO["mut"] = true;
            if (X->hasInClassInitializer() && X->getInClassInitializer())
                FO["init"] = expr(X->getInClassInitializer());
            FO["attrs"] = attrs(X);
            FO["access"] = (int)X->getAccess();
            F.push_back(std::move(FO));
        }
        O["fields"] = std::move(F);
        Array M;
        for (auto* X : R->methods())
        {
            if (X->isDependentContext())
                continue;
            Object MO;
            MO["key"] = key(X);
            MO["n"] = qual(X);
            MO["virt"] = X->isVirtual();
            MO["pure"] = X->isPureVirtual();
            MO["access"] = (int)X->getAccess();
            MO["del"] = X->isDeleted();
            MO["impl"] = X->isImplicit();
            MO["attrs"] = attrs(X);
            MO["ret"] = ty(X->getReturnType());
            Array P;
            for (auto* V : X->parameters())
                P.push_back(ty(V->getType()));
            MO["p"] = std::move(P);
            Array Ov;
            for (auto* Y : X->overridden_methods())
                Ov.push_back(key(Y));
            MO["over"] = std::move(Ov);
            M.push_back(std::move(MO));
            if (X->isUserProvided())
                need(X);
            else if (auto* CD = dyn_cast<CXXConstructorDecl>(X); CD && X->hasBody())
                need(X);
        }
        O["methods"] = std::move(M);
        if (auto* D = R->getDestructor())
        {
            O["dtor"] = key(D);
            need(D);
        }
        O["final"] = R->hasAttr<FinalAttr>();
        Records.push_back(std::move(O));
    }
    void drain()
    {
        while (!Work.empty())
        {
            auto* F = Work.back();
            Work.pop_back();
            function(F);
        }
    }
};

class V : public RecursiveASTVisitor<V>
{
public:
    Exporter& X;
    explicit V(Exporter& X) : X(X) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool TraverseDecl(Decl* D)
    {
        if (auto* R = dyn_cast_or_null<CXXRecordDecl>(D))
            if (R->getIdentifier() && R->getName() == "fuse_operations")
                X.record(R);      // the one library structure whose fields matter
        // Only descend into what the repository declares.
        if (D && !isa<TranslationUnitDecl>(D) && !isa<NamespaceDecl>(D) && !isa<LinkageSpecDecl>(D)
            && D->getLocation().isValid() && !X.inRepo(D->getLocation()))
            return true;
        return RecursiveASTVisitor<V>::TraverseDecl(D);
    }
    bool VisitFunctionDecl(FunctionDecl* F)
    {
        X.need(F);
        X.drain();
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R)
    {
        X.record(R);
        X.drain();
        return true;
    }
    bool VisitVarDecl(VarDecl* D)
    {
        if (!D->isLocalVarDeclOrParm() && !D->isInvalidDecl()
            && !D->getDeclContext()->isDependentContext() && X.inRepo(D->getLocation()))
        {
            auto O = X.var(D);
            O["n"] = X.qual(D);
            O["file"] = X.fileOf(D->getLocation());
            O["attrs"] = X.attrs(D);
            X.Globals.push_back(std::move(O));
        }
        return true;
    }
};

class Consumer : public ASTConsumer
{
    CompilerInstance& CI;

public:
    explicit Consumer(CompilerInstance& CI) : CI(CI) {}
    void HandleTranslationUnit(ASTContext& C) override
    {
        Exporter X(C);
        V v(X);
        v.TraverseDecl(C.getTranslationUnitDecl());
        X.drain();
        Object O;
        O["tu"] = TuName;
        O["errors"] = (int64_t)CI.getDiagnostics().getClient()->getNumErrors();
        O["functions"] = std::move(X.Functions);
        O["records"] = std::move(X.Records);
        O["globals"] = std::move(X.Globals);
        std::error_code EC;
        llvm::raw_fd_ostream OS(OutPath, EC);
        OS << Value(std::move(O));
    }
};
class Action : public ASTFrontendAction
{
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override
    {
        return std::make_unique<Consumer>(CI);
    }
};
int main(int argc, char** argv)
{
    // export OUT TUNAME PREFIX FILE -- flags...
    if (argc < 6)
        return 2;
    OutPath = argv[1];
    TuName = argv[2];
    Prefix = argv[3];
    std::vector<std::string> Args{"clang++"};
    for (int i = 6; i < argc; ++i)
        Args.push_back(argv[i]);
    Args.push_back("-fsyntax-only");
    Args.push_back(argv[4]);
    llvm::IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
    tooling::ToolInvocation I(Args, std::make_unique<Action>(), FM.get());
    bool ok = I.run();
    return ok ? 0 : 3;
}
