// Exports the type-checked program (namespace blet) of one translation unit as JSON.
// Usage: exporter FILE -o OUT -- clang-args...
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <fstream>
#include <iostream>
using namespace clang;
namespace J = llvm::json;

static std::string OutPath;

class Exporter : public RecursiveASTVisitor<Exporter> {
  public:
    ASTContext& C;
    SourceManager& SM;
    std::unique_ptr<MangleContext> MC;
    J::Object types, funcs, records, enums;
    J::Array globals, throwsOut;
    std::set<const FunctionDecl*> exported;
    std::vector<const FunctionDecl*> pending;
    std::map<const Decl*, std::string> varIds;
    std::map<std::string, int> varCount;
    std::map<std::string, std::string> fileNames;
    bool unsupported = false;

    Exporter(ASTContext& C) : C(C), SM(C.getSourceManager()), MC(C.createMangleContext()) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    // ---------------------------------------------------------------- locations
    std::string loc(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        PresumedLoc P = SM.getPresumedLoc(L);
        if (P.isInvalid()) return "?";
        return std::string(P.getFilename()) + ":" + std::to_string(P.getLine()) + ":" + std::to_string(P.getColumn());
    }
    // ---------------------------------------------------------------- types
    std::string qt(QualType T) {
        QualType K = C.getCanonicalType(T);
        PrintingPolicy PP(C.getLangOpts());
        PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressUnwrittenScope = false;
        std::string s = K.getAsString(PP);
        if (types.find(s) == types.end()) {
            types[s] = J::Object();
            J::Object o;
            const Type* t = K.getTypePtr();
            if (K.isConstQualified()) o["const"] = true;
            if (auto* R = dyn_cast<ReferenceType>(t)) { o["k"] = "ref"; o["to"] = qt(R->getPointeeType()); if (isa<RValueReferenceType>(t)) o["rv"] = true; }
            else if (auto* P = dyn_cast<PointerType>(t)) { o["k"] = "ptr"; o["to"] = qt(P->getPointeeType()); }
            else if (t->isBooleanType()) o["k"] = "bool";
            else if (auto* E = dyn_cast<EnumType>(t)) {
                o["k"] = "enum"; o["name"] = E->getDecl()->getQualifiedNameAsString();
                o["bits"] = (int64_t)C.getTypeSize(K); o["signed"] = E->getDecl()->getIntegerType().isNull() ? false : E->getDecl()->getIntegerType()->isSignedIntegerType();
            }
            else if (t->isIntegerType()) { o["k"] = "int"; o["bits"] = (int64_t)C.getTypeSize(K); o["signed"] = t->isSignedIntegerType(); }
            else if (t->isFloatingType()) { o["k"] = "float"; o["bits"] = (int64_t)C.getTypeSize(K); }
            else if (t->isVoidType()) o["k"] = "void";
            else if (auto* R = t->getAsCXXRecordDecl()) { o["k"] = "record"; o["name"] = recName(R); o["qn"] = R->getQualifiedNameAsString();
                if (R->isLambda()) o["lambda"] = true;
                if (auto* TS = dyn_cast<ClassTemplateSpecializationDecl>(R)) { J::Array a; addTArgs(a, TS->getTemplateArgs()); o["targs"] = std::move(a); }
                noteRecord(R); }
            else if (auto* A = dyn_cast<ConstantArrayType>(t)) { o["k"] = "array"; o["of"] = qt(A->getElementType()); o["n"] = (int64_t)A->getSize().getZExtValue(); }
            else if (auto* A = dyn_cast<ArrayType>(t)) { o["k"] = "array"; o["of"] = qt(A->getElementType()); }
            else if (t->isFunctionType()) o["k"] = "func";
            else if (t->isNullPtrType()) o["k"] = "nullptr";
            else if (t->isMemberPointerType()) o["k"] = "memptr";
            else { o["k"] = "other"; o["cls"] = t->getTypeClassName(); }
            types[s] = std::move(o);
        }
        return s;
    }
    void addTArgs(J::Array& a, const TemplateArgumentList& L) { for (auto& A : L.asArray()) addTArg(a, A); }
    void addTArg(J::Array& a, const TemplateArgument& A) {
        if (A.getKind() == TemplateArgument::Type) a.push_back(qt(A.getAsType()));
        else if (A.getKind() == TemplateArgument::Integral) a.push_back((int64_t)A.getAsIntegral().getExtValue());
        else if (A.getKind() == TemplateArgument::Pack) { for (auto& B : A.getPackAsArray()) addTArg(a, B); }
        else a.push_back("?");
    }
    std::string recName(const CXXRecordDecl* R) {
        QualType T = C.getRecordType(R);
        PrintingPolicy PP(C.getLangOpts()); PP.SuppressTagKeyword = true; PP.Bool = true;
        std::string s = QualType(C.getCanonicalType(T).getUnqualifiedType()).getAsString(PP);
        if (R->isLambda()) s = "lambda@" + loc(R->getBeginLoc());
        return s;
    }
    bool inBlet(const Decl* D) {
        for (const DeclContext* X = D->getDeclContext(); X; X = X->getParent()) {
            if (auto* N = dyn_cast<NamespaceDecl>(X)) { if (N->getName() == "blet" || N->getName() == "verif_client") return true; }
        }
        return false;
    }
    static const char* acc(AccessSpecifier A) { switch (A) { case AS_public: return "public"; case AS_protected: return "protected"; case AS_private: return "private"; default: return "none"; } }
    std::set<const CXXRecordDecl*> seenRec;
    void noteRecord(const CXXRecordDecl* R0) {
        const CXXRecordDecl* R = R0->getDefinition();
        if (!R || R->isDependentContext()) return;
        if (!inBlet(R) ) return;
        if (!seenRec.insert(R).second) return;
        std::string n = recName(R);
        J::Object o;
        o["qn"] = R->getQualifiedNameAsString(); o["loc"] = loc(R->getLocation()); o["abstract"] = R->isAbstract(); o["poly"] = R->isPolymorphic();
        o["access"] = acc(R->getAccess()); o["struct"] = R->isStruct(); if (R->isLambda()) o["lambda"] = true;
        if (auto* TS = dyn_cast<ClassTemplateSpecializationDecl>(R)) { o["tmpl"] = TS->getSpecializedTemplate()->getQualifiedNameAsString(); J::Array a; addTArgs(a, TS->getTemplateArgs()); o["targs"] = std::move(a); }
        J::Array bs; for (auto& B : R->bases()) { J::Object b; b["t"] = qt(B.getType()); b["access"] = acc(B.getAccessSpecifier()); b["virtual"] = B.isVirtual(); bs.push_back(std::move(b)); }
        o["bases"] = std::move(bs);
        J::Array fs; for (auto* F : R->fields()) { J::Object f; f["n"] = F->getNameAsString(); f["t"] = qt(F->getType()); f["access"] = acc(F->getAccess()); f["mutable"] = F->isMutable();
            f["loc"] = loc(F->getLocation());
            if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = expr(F->getInClassInitializer());
            fs.push_back(std::move(f)); }
        o["fields"] = std::move(fs);
        J::Array ms;
        for (auto* M : R->methods()) {
            J::Object m; m["f"] = fref(M); m["n"] = M->getNameAsString(); m["access"] = acc(M->getAccess()); m["virtual"] = M->isVirtual(); m["pure"] = M->isPureVirtual(); m["static"] = M->isStatic();
            m["const"] = M->isConst(); m["implicit"] = M->isImplicit(); m["deleted"] = M->isDeleted(); m["defaulted"] = M->isDefaulted(); m["userProvided"] = M->isUserProvided();
            J::Array ov; for (auto* O : M->overridden_methods()) ov.push_back(fref(O)); m["overrides"] = std::move(ov);
            ms.push_back(std::move(m));
        }
        o["methods"] = std::move(ms);
        records[n] = std::move(o);
    }
    // ---------------------------------------------------------------- functions
    std::map<const FunctionDecl*, std::string> fids;
    std::string fid(const FunctionDecl* F) {
        F = F->getCanonicalDecl();
        auto it = fids.find(F); if (it != fids.end()) return it->second;
        std::string s;
        const CXXMethodDecl* M = dyn_cast<CXXMethodDecl>(F);
        if (M && M->getParent()->isLambda()) s = "lambda@" + loc(M->getParent()->getBeginLoc()) + "#" + M->getNameAsString();
        else if (!MC->shouldMangleDeclName(F)) s = F->getQualifiedNameAsString();
        else {
            llvm::raw_string_ostream os(s);
            GlobalDecl G;
            if (auto* K = dyn_cast<CXXConstructorDecl>(F)) G = GlobalDecl(K, Ctor_Complete);
            else if (auto* K = dyn_cast<CXXDestructorDecl>(F)) G = GlobalDecl(K, Dtor_Complete);
            else G = GlobalDecl(F);
            MC->mangleName(G, os); os.flush();
        }
        if (F->getFormalLinkage() == Linkage::Internal) s += "@" + SM.getFilename(SM.getExpansionLoc(F->getLocation())).str();
        fids[F] = s;
        return s;
    }
    std::string fref(const FunctionDecl* F) {
        std::string id = fid(F);
        if (funcs.find(id) == funcs.end()) {
            J::Object o;
            funcs[id] = J::Object();
            o["qn"] = F->getQualifiedNameAsString(); o["n"] = F->getNameAsString(); o["rt"] = qt(F->getReturnType());
            J::Array ps; for (auto* P : F->parameters()) ps.push_back(qt(P->getType())); o["ps"] = std::move(ps);
            o["loc"] = loc(F->getLocation()); o["blet"] = inBlet(F) ;
            o["variadic"] = F->isVariadic();
            if (F->isNoReturn()) o["noreturn"] = true;
            if (auto* T = F->getType()->getAs<FunctionProtoType>()) if (!isUnresolvedExceptionSpec(T->getExceptionSpecType()) && !F->isDependentContext() && T->canThrow() == CT_Cannot) o["nothrow"] = true;
            if (F->getFormalLinkage() == Linkage::Internal) o["internal"] = true;
            if (auto* K = dyn_cast<CXXMethodDecl>(F)) {
                o["cls"] = recName(K->getParent()); o["cqn"] = K->getParent()->getQualifiedNameAsString(); o["static"] = K->isStatic(); o["const"] = K->isConst(); o["virtual"] = K->isVirtual(); o["implicit"] = K->isImplicit(); o["access"] = acc(K->getAccess()); o["deleted"] = K->isDeleted();
                o["user"] = K->isUserProvided();
                if (auto* TS = dyn_cast<ClassTemplateSpecializationDecl>(K->getParent())) { J::Array a; addTArgs(a, TS->getTemplateArgs()); o["cargs"] = std::move(a); }
                noteRecord(K->getParent());
            }
            if (auto* TA = F->getTemplateSpecializationArgs()) { J::Array a; addTArgs(a, *TA); o["targs"] = std::move(a); }
            o["kind"] = isa<CXXConstructorDecl>(F) ? "ctor" : isa<CXXDestructorDecl>(F) ? "dtor" : isa<CXXConversionDecl>(F) ? "conv" : isa<CXXMethodDecl>(F) ? "method" : "func";
            if (auto* K = dyn_cast<CXXConstructorDecl>(F)) { o["copy"] = K->isCopyConstructor(); o["move"] = K->isMoveConstructor(); o["explicit"] = K->isExplicit(); }
            if (auto* K = dyn_cast<CXXMethodDecl>(F)) { if (K->isCopyAssignmentOperator()) o["copyassign"] = true; if (K->isMoveAssignmentOperator()) o["moveassign"] = true; }
            funcs[id] = std::move(o);
            if (inBlet(F)) pending.push_back(F);
        }
        return id;
    }
    std::string varId(const ValueDecl* D) {
        D = cast<ValueDecl>(D->getCanonicalDecl());
        auto it = varIds.find(D); if (it != varIds.end()) return it->second;
        std::string s = D->getNameAsString() + "#" + std::to_string(varIds.size());
        varIds[D] = s; return s;
    }
    void exportBody(const FunctionDecl* F0) {
        const FunctionDecl* F = nullptr;
        if (!F0->hasBody(F)) { return; }
        if (F->isDependentContext()) return;
        F = F->getDefinition(); if (!F || !F->getBody()) return;
        if (!exported.insert(F->getCanonicalDecl()).second) return;
        std::string id = fref(F);
        J::Array ps; for (auto* P : F->parameters()) { J::Object p; p["id"] = varId(P); p["n"] = P->getNameAsString(); p["t"] = qt(P->getType()); ps.push_back(std::move(p)); }
        J::Array inits;
        if (auto* K = dyn_cast<CXXConstructorDecl>(F)) {
            for (auto* I : K->inits()) {
                J::Object i;
                if (I->isBaseInitializer()) { i["base"] = qt(QualType(I->getBaseClass(), 0)); }
                else if (I->isDelegatingInitializer()) { i["deleg"] = true; }
                else if (I->isMemberInitializer()) { i["field"] = fieldKey(I->getMember()); i["ft"] = qt(I->getMember()->getType()); }
                else { i["field"] = "?"; }
                i["written"] = I->isWritten();
                i["e"] = expr(I->getInit());
                inits.push_back(std::move(i));
            }
        }
        J::Value body = stmt(F->getBody());
        J::Object* o = funcs[id].getAsObject();
        (*o)["params"] = std::move(ps); (*o)["inits"] = std::move(inits); (*o)["body"] = std::move(body); (*o)["defloc"] = loc(F->getLocation());
        (*o)["file"] = SM.getFilename(SM.getExpansionLoc(F->getLocation())).str();
    }
    std::string fieldKey(const ValueDecl* D) {
        if (auto* F = dyn_cast<FieldDecl>(D)) {
            auto* R = dyn_cast<CXXRecordDecl>(F->getParent());
            if (R) return recName(R) + "::" + F->getNameAsString();
            return F->getQualifiedNameAsString();
        }
        return D->getQualifiedNameAsString();
    }
    // ---------------------------------------------------------------- statements
    J::Value stmt(const Stmt* S) {
        if (!S) return nullptr;
        if (auto* E = dyn_cast<Expr>(S)) { J::Object o; o["k"] = "Expr"; o["e"] = expr(E); o["l"] = loc(S->getBeginLoc()); return std::move(o); }
        J::Object o; o["l"] = loc(S->getBeginLoc());
        if (auto* X = dyn_cast<CompoundStmt>(S)) { o["k"] = "Block"; J::Array a; for (auto* c : X->body()) a.push_back(stmt(c)); o["c"] = std::move(a); }
        else if (auto* X = dyn_cast<DeclStmt>(S)) { o["k"] = "Decl"; J::Array a; for (auto* d : X->decls()) if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(var(v)); o["d"] = std::move(a); }
        else if (auto* X = dyn_cast<IfStmt>(S)) { o["k"] = "If"; if (X->getInit()) o["init"] = stmt(X->getInit()); if (X->getConditionVariable()) o["cv"] = var(X->getConditionVariable()); o["c"] = expr(X->getCond()); o["t"] = stmt(X->getThen()); if (X->getElse()) o["e"] = stmt(X->getElse()); }
        else if (auto* X = dyn_cast<ForStmt>(S)) { o["k"] = "For"; if (X->getInit()) o["init"] = stmt(X->getInit()); if (X->getConditionVariable()) o["cv"] = var(X->getConditionVariable()); if (X->getCond()) o["c"] = expr(X->getCond()); if (X->getInc()) o["inc"] = expr(X->getInc()); o["b"] = stmt(X->getBody()); }
        else if (auto* X = dyn_cast<WhileStmt>(S)) { o["k"] = "For"; if (X->getConditionVariable()) o["cv"] = var(X->getConditionVariable()); o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); }
        else if (auto* X = dyn_cast<DoStmt>(S)) { o["k"] = "Do"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); }
        else if (auto* X = dyn_cast<CXXForRangeStmt>(S)) { o["k"] = "RangeFor"; o["range"] = stmt(X->getRangeStmt()); o["begin"] = stmt(X->getBeginStmt()); o["end"] = stmt(X->getEndStmt()); o["c"] = expr(X->getCond()); o["inc"] = expr(X->getInc()); o["var"] = stmt(X->getLoopVarStmt()); o["b"] = stmt(X->getBody()); }
        else if (auto* X = dyn_cast<SwitchStmt>(S)) { o["k"] = "Switch"; if (X->getInit()) o["init"] = stmt(X->getInit()); if (X->getConditionVariable()) o["cv"] = var(X->getConditionVariable()); o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); }
        else if (auto* X = dyn_cast<CaseStmt>(S)) { o["k"] = "Case"; o["v"] = cval(X->getLHS()); if (X->getRHS()) o["v2"] = cval(X->getRHS()); o["s"] = stmt(X->getSubStmt()); }
        else if (auto* X = dyn_cast<DefaultStmt>(S)) { o["k"] = "Default"; o["s"] = stmt(X->getSubStmt()); }
        else if (isa<BreakStmt>(S)) o["k"] = "Break";
        else if (isa<ContinueStmt>(S)) o["k"] = "Continue";
        else if (auto* X = dyn_cast<ReturnStmt>(S)) { o["k"] = "Return"; if (X->getRetValue()) o["e"] = expr(X->getRetValue()); }
        else if (auto* X = dyn_cast<CXXTryStmt>(S)) { o["k"] = "Try"; o["b"] = stmt(X->getTryBlock()); J::Array a; for (unsigned i = 0; i < X->getNumHandlers(); ++i) { auto* h = X->getHandler(i); J::Object c; if (h->getExceptionDecl()) { c["var"] = var(h->getExceptionDecl()); c["t"] = qt(h->getCaughtType()); } c["b"] = stmt(h->getHandlerBlock()); c["l"] = loc(h->getBeginLoc()); a.push_back(std::move(c)); } o["h"] = std::move(a); }
        else if (isa<NullStmt>(S)) o["k"] = "Null";
        else if (auto* X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
        else if (auto* X = dyn_cast<LabelStmt>(S)) { o["k"] = "Unsupported"; o["cls"] = "Label"; (void)X; }
        else { o["k"] = "Unsupported"; o["cls"] = S->getStmtClassName(); }
        return std::move(o);
    }
    J::Value cval(const Expr* E) { Expr::EvalResult R; if (E->EvaluateAsInt(R, C)) return (int64_t)R.Val.getInt().getExtValue(); return nullptr; }
    J::Value var(const VarDecl* V) {
        J::Object o; o["id"] = varId(V); o["n"] = V->getNameAsString(); o["t"] = qt(V->getType()); o["l"] = loc(V->getLocation());
        if (V->isStaticLocal()) { o["static"] = true; }
        if (V->getInit()) { o["init"] = expr(V->getInit()); }
        return std::move(o);
    }
    // ---------------------------------------------------------------- expressions
    J::Value expr(const Expr* E) {
        if (!E) return nullptr;
        // transparent nodes
        if (auto* X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
        if (auto* X = dyn_cast<FullExpr>(E)) {  // ExprWithCleanups, ConstantExpr
            if (isa<ConstantExpr>(E)) return expr(X->getSubExpr());
            J::Object o; o["k"] = "Full"; o["e"] = expr(X->getSubExpr()); o["t"] = qt(E->getType()); return std::move(o);
        }
        if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E)) { J::Object o; o["k"] = "Temp"; o["e"] = expr(X->getSubExpr()); o["t"] = qt(E->getType()); return std::move(o); }
        if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
        if (auto* X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
        if (auto* X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
        J::Object o; o["t"] = qt(E->getType()); o["l"] = loc(E->getExprLoc());
        if (E->isLValue()) o["lv"] = true; else if (E->isXValue()) o["xv"] = true;
        // constant folding of pure integer expressions
        if (E->isPRValue() && E->getType()->isIntegralOrEnumerationType() && !E->isValueDependent()) {
            Expr::EvalResult R;
            if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects, true)) {
                o["k"] = "Int"; llvm::APSInt v = R.Val.getInt(); 
                if (v.isSigned() || v.getActiveBits() <= 63) o["v"] = (int64_t)v.getExtValue(); else { llvm::SmallString<32> s; v.toString(s, 10); o["v"] = std::string(s.str()); }
                return std::move(o);
            }
        }
        if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) { o["k"] = "Mat"; o["e"] = expr(X->getSubExpr()); o["ext"] = X->getExtendingDecl() != nullptr; }
        else if (auto* X = dyn_cast<IntegerLiteral>(E)) { o["k"] = "Int"; o["v"] = (int64_t)X->getValue().getZExtValue(); }
        else if (auto* X = dyn_cast<FloatingLiteral>(E)) { o["k"] = "Float"; o["v"] = X->getValueAsApproximateDouble(); }
        else if (auto* X = dyn_cast<StringLiteral>(E)) { o["k"] = "Str"; o["v"] = J::isUTF8(X->getBytes()) ? X->getBytes().str() : J::fixUTF8(X->getBytes()); }
        else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) o["k"] = "Null";
        else if (isa<CXXThisExpr>(E)) o["k"] = "This";
        else if (auto* X = dyn_cast<DeclRefExpr>(E)) {
            if (auto* F = dyn_cast<FunctionDecl>(X->getDecl())) { o["k"] = "FuncRef"; o["f"] = fref(F); }
            else { o["k"] = "Ref"; o["id"] = varId(X->getDecl()); o["n"] = X->getDecl()->getNameAsString();
                if (auto* V = dyn_cast<VarDecl>(X->getDecl())) { if (V->hasGlobalStorage()) { o["global"] = V->getQualifiedNameAsString(); if (V->isStaticLocal()) o["static"] = true; o["constant"] = V->getType().isConstQualified();
                        o["mutableStatic"] = !V->getType().isConstQualified(); if (inBlet(V)) noteGlobal(V); } } }
        }
        else if (auto* X = dyn_cast<MemberExpr>(E)) {
            if (auto* F = dyn_cast<CXXMethodDecl>(X->getMemberDecl())) { o["k"] = "MethodRef"; o["f"] = fref(F); o["o"] = expr(X->getBase()); o["arrow"] = X->isArrow(); }
            else { o["k"] = "Mem"; o["f"] = fieldKey(X->getMemberDecl()); o["n"] = X->getMemberDecl()->getNameAsString(); o["o"] = expr(X->getBase()); o["arrow"] = X->isArrow(); 
                if (auto* V = dyn_cast<VarDecl>(X->getMemberDecl())) { o["k"] = "Ref"; o["id"] = varId(V); o["global"] = V->getQualifiedNameAsString(); o["mutableStatic"] = !V->getType().isConstQualified(); } }
        }
        else if (auto* X = dyn_cast<CompoundAssignOperator>(E)) { o["k"] = "OpAssign"; o["op"] = X->getOpcodeStr().str(); o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS()); o["ct"] = qt(X->getComputationResultType()); o["lt"] = qt(X->getComputationLHSType()); }
        else if (auto* X = dyn_cast<BinaryOperator>(E)) { o["k"] = "Bin"; o["op"] = X->getOpcodeStr().str(); o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS()); }
        else if (auto* X = dyn_cast<UnaryOperator>(E)) { o["k"] = "Un"; o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); o["post"] = X->isPostfix(); o["a"] = expr(X->getSubExpr()); }
        else if (auto* X = dyn_cast<AbstractConditionalOperator>(E)) { o["k"] = "Cond"; o["c"] = expr(X->getCond()); o["a"] = expr(X->getTrueExpr()); o["b"] = expr(X->getFalseExpr()); }
        else if (auto* X = dyn_cast<CastExpr>(E)) { o["k"] = "Cast"; o["ck"] = X->getCastKindName(); o["e"] = expr(X->getSubExpr()); o["impl"] = isa<ImplicitCastExpr>(E); if (X->getConversionFunction()) if (auto* F = dyn_cast<FunctionDecl>(X->getConversionFunction())) o["f"] = fref(F); }
        else if (auto* X = dyn_cast<CXXMemberCallExpr>(E)) {
            o["k"] = "MCall"; const CXXMethodDecl* M = X->getMethodDecl();
            if (!M) { o["k"] = "Unsupported"; o["cls"] = "memptrcall"; return std::move(o); }
            auto* ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens());
            o["f"] = fref(M); o["o"] = expr(X->getImplicitObjectArgument()); o["arrow"] = ME ? ME->isArrow() : false;
            o["virt"] = M->isVirtual() && !(ME && ME->hasQualifier());
            o["args"] = args(X->arguments());
            o["ot"] = qt(X->getImplicitObjectArgument()->getType());
        }
        else if (auto* X = dyn_cast<CXXOperatorCallExpr>(E)) {
            const FunctionDecl* F = X->getDirectCallee();
            if (!F) { o["k"] = "Unsupported"; o["cls"] = "opcall"; return std::move(o); }
            if (isa<CXXMethodDecl>(F)) { o["k"] = "MCall"; o["f"] = fref(F); o["o"] = expr(X->getArg(0)); o["arrow"] = false; o["ot"] = qt(X->getArg(0)->getType());
                J::Array a; for (unsigned i = 1; i < X->getNumArgs(); ++i) a.push_back(expr(X->getArg(i))); o["args"] = std::move(a); o["op"] = true; }
            else { o["k"] = "Call"; o["f"] = fref(F); o["args"] = args(X->arguments()); o["op"] = true; }
        }
        else if (auto* X = dyn_cast<CallExpr>(E)) {
            o["k"] = "Call"; const FunctionDecl* F = X->getDirectCallee();
            if (F) o["f"] = fref(F); else o["callee"] = expr(X->getCallee());
            o["args"] = args(X->arguments());
        }
        else if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
            o["k"] = "New"; o["f"] = fref(X->getConstructor()); o["args"] = args(X->arguments()); o["k"] = "Ctor"; o["elidable"] = X->isElidable(); o["zero"] = X->requiresZeroInitialization();
            o["list"] = X->isStdInitListInitialization();
        }
        else if (auto* X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { o["k"] = "Unsupported"; o["cls"] = "InheritedCtor"; (void)X; }
        else if (auto* X = dyn_cast<CXXNewExpr>(E)) { o["k"] = "NewE"; o["at"] = qt(X->getAllocatedType()); o["array"] = X->isArray(); if (X->getInitializer()) o["init"] = expr(X->getInitializer()); if (X->getNumPlacementArgs()) o["placement"] = true; }
        else if (auto* X = dyn_cast<CXXDeleteExpr>(E)) { o["k"] = "Delete"; o["e"] = expr(X->getArgument()); o["array"] = X->isArrayForm(); o["dt"] = qt(X->getDestroyedType()); }
        else if (auto* X = dyn_cast<CXXThrowExpr>(E)) { o["k"] = "Throw"; if (X->getSubExpr()) { o["e"] = expr(X->getSubExpr()); o["tt"] = qt(X->getSubExpr()->getType()); } }
        else if (auto* X = dyn_cast<ArraySubscriptExpr>(E)) { o["k"] = "Index"; o["a"] = expr(X->getBase()); o["b"] = expr(X->getIdx()); }
        else if (auto* X = dyn_cast<InitListExpr>(E)) {
            if (X->isSemanticForm() == false && X->getSemanticForm()) X = X->getSemanticForm();
            o["k"] = "InitList"; J::Array a; for (auto* I : X->inits()) a.push_back(expr(I)); o["c"] = std::move(a); }
        else if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E)) { o["k"] = "StdInitList"; o["e"] = expr(X->getSubExpr()); }
        else if (auto* X = dyn_cast<LambdaExpr>(E)) {
            o["k"] = "Lambda"; o["f"] = fref(X->getCallOperator()); J::Array a;
            auto ci = X->capture_init_begin();
            auto fi = X->getLambdaClass()->field_begin();
            for (auto& c : X->captures()) { J::Object k; 
                if (c.capturesThis()) { k["this"] = true; }
                else if (c.capturesVariable()) { k["id"] = varId(c.getCapturedVar()); k["ref"] = c.getCaptureKind() == LCK_ByRef; k["n"] = c.getCapturedVar()->getNameAsString(); }
                if (*ci) k["init"] = expr(*ci);
                k["ft"] = qt(fi->getType());
                ++ci; ++fi; a.push_back(std::move(k)); }
            o["caps"] = std::move(a);
            lambdas.push_back(X->getCallOperator());
        }
        else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) o["k"] = "Zero";
        else if (isa<PredefinedExpr>(E)) { o["k"] = "Str"; o["v"] = "?"; }
        else if (auto* X = dyn_cast<ArrayInitLoopExpr>(E)) { o["k"] = "Unsupported"; o["cls"] = "ArrayInitLoop"; (void)X; }
        else { o["k"] = "Unsupported"; o["cls"] = E->getStmtClassName(); }
        return std::move(o);
    }
    template<class R> J::Array args(R r) { J::Array a; for (auto* e : r) a.push_back(expr(e)); return a; }
    std::vector<const FunctionDecl*> lambdas;
    // ---------------------------------------------------------------- traversal
    std::set<const VarDecl*> seenG;
    void noteGlobal(const VarDecl* V) {
        V = V->getCanonicalDecl();
        if (!seenG.insert(V).second) return;
        J::Object o; o["id"] = varId(V); o["qn"] = V->getQualifiedNameAsString(); o["t"] = qt(V->getType()); o["loc"] = loc(V->getLocation());
        QualType T = V->getType(); while (T->isArrayType()) T = C.getBaseElementType(T);
        o["const"] = T.isConstQualified() || V->isConstexpr(); o["staticLocal"] = V->isStaticLocal(); o["constinit"] = V->getInit() && !V->getInit()->isValueDependent() && V->hasConstantInitialization();
        bool ptrMut = false; (void)ptrMut;
        const VarDecl* D = V->getDefinition(); if (!D) D = V; if (D->getInit() && !D->getInit()->isValueDependent()) o["init"] = expr(D->getInit());
        globals.push_back(std::move(o));
    }
    bool VisitVarDecl(VarDecl* V) {
        if (V->hasGlobalStorage() && !V->isStaticLocal() && !SM.isInSystemHeader(V->getLocation()) && !V->isTemplated() && V->isThisDeclarationADefinition() == VarDecl::Definition && C.GetGVALinkageForVariable(V) == GVA_StrongExternal) noteMulti(V, "variable");
        if (V->hasGlobalStorage() && inBlet(V) && !V->getDeclContext()->isDependentContext() && !V->getType()->isDependentType()) noteGlobal(V);
        return true;
    }
    bool VisitFunctionDecl(FunctionDecl* F) {
        if (F->isThisDeclarationADefinition() && !F->isDependentContext() && !F->isTemplated() && !SM.isInSystemHeader(F->getLocation()) && !F->isDeleted() && C.GetGVALinkageForFunction(F) == GVA_StrongExternal) noteMulti(F, "function");
        if (inBlet(F) && !F->isDependentContext()) fref(F);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R) { if (inBlet(R)) noteRecord(R); return true; }
    bool VisitEnumDecl(EnumDecl* E) {
        if (!inBlet(E) || E->isDependentContext()) return true;
        J::Object o; J::Array vs; for (auto* c : E->enumerators()) { J::Object v; v["n"] = c->getNameAsString(); v["v"] = (int64_t)c->getInitVal().getExtValue(); vs.push_back(std::move(v)); }
        o["vals"] = std::move(vs); o["access"] = acc(E->getAccess()); o["loc"] = loc(E->getLocation());
        enums[E->getQualifiedNameAsString()] = std::move(o); return true;
    }
    J::Array apiDecls;
    void drain() {
        size_t i = 0;
        while (i < pending.size() || !lambdas.empty()) {
            while (!lambdas.empty()) { auto* L = lambdas.back(); lambdas.pop_back(); fref(L); exportBody(L); }
            if (i < pending.size()) exportBody(pending[i++]);
        }
    }
    J::Array typedefs;
    bool VisitTypedefNameDecl(TypedefNameDecl* D) {
        if (!inBlet(D) || D->getDeclContext()->isDependentContext() || D->getUnderlyingType()->isDependentType()) return true;
        J::Object o; o["qn"] = D->getQualifiedNameAsString(); o["t"] = qt(D->getUnderlyingType()); o["access"] = acc(D->getAccess()); typedefs.push_back(std::move(o));
        return true;
    }
    J::Array tmplFuncs;
    bool VisitFunctionTemplateDecl(FunctionTemplateDecl* D) {
        if (!inBlet(D)) return true;
        J::Object o; o["qn"] = D->getQualifiedNameAsString(); o["sig"] = D->getTemplatedDecl()->getType().getAsString(); o["access"] = acc(D->getAccess()); o["loc"] = loc(D->getLocation());
        tmplFuncs.push_back(std::move(o)); return true;
    }
    // ---------------------------------------------------------------- declared interface
    J::Object api;
    J::Array multi;
    std::string ct(QualType T) {
        PrintingPolicy PP(C.getLangOpts()); PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressUnwrittenScope = false;
        return QualType(C.getCanonicalType(T)).getAsString(PP);
    }
    std::string ptxt(const Expr* E) {
        if (!E) return "";
        if (!E->isValueDependent()) {
            if (E->getType()->isIntegralOrEnumerationType()) { Expr::EvalResult R; if (E->EvaluateAsInt(R, C)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); return std::string(s.str()); } }
            const Expr* I = E->IgnoreImplicit()->IgnoreParenCasts()->IgnoreImplicit();
            if (isa<GNUNullExpr>(I) || isa<CXXNullPtrLiteralExpr>(I) || E->isNullPointerConstant(C, Expr::NPC_ValueDependentIsNotNull)) return "null";
            if (auto* S = dyn_cast<StringLiteral>(I)) return "\"" + S->getBytes().str() + "\"";
            E = I;
        }
        std::string s; llvm::raw_string_ostream os(s); PrintingPolicy PP(C.getLangOpts()); PP.FullyQualifiedName = true; E->printPretty(os, nullptr, PP); os.flush(); return s;
    }
    std::string tparams(const TemplateParameterList* L) {
        std::string s = "<";
        for (auto* P : *L) {
            if (s.size() > 1) s += ",";
            if (auto* T = dyn_cast<TemplateTypeParmDecl>(P)) { s += "type"; if (T->isParameterPack()) s += "..."; if (T->hasDefaultArgument()) s += "=" + ct(T->getDefaultArgument()); }
            else if (auto* N = dyn_cast<NonTypeTemplateParmDecl>(P)) { s += "value:" + ct(N->getType()); if (N->hasDefaultArgument()) s += "=" + ptxt(N->getDefaultArgument()); }
            else { s += "template"; }
        }
        return s + ">";
    }
    void put(const std::string& key, const std::string& what, SourceLocation L, bool prot) {
        if (api.find(key) != api.end()) return;
        J::Object o; o["is"] = what; o["l"] = loc(L); o["prot"] = prot;
        api[key] = std::move(o);
    }
    static bool hidden(const Decl* D) { return D->getAccess() == AS_private; }
    static const char* accs(const Decl* D) { return D->getAccess() == AS_protected ? "protected " : ""; }
    std::string fsig(const FunctionDecl* F, const std::string& scope, const std::string& tp) {
        std::string k = "function " + scope + F->getNameAsString() + tp + "(";
        if (auto* K = dyn_cast<CXXConstructorDecl>(F)) k = "function " + scope + K->getParent()->getNameAsString() + tp + "(";
        if (isa<CXXConversionDecl>(F)) k = "function " + scope + "operator " + ct(F->getReturnType()) + tp + "(";
        for (auto* P : F->parameters()) { if (k.back() != '(') k += ", "; k += ct(P->getType().getUnqualifiedType()); }
        if (F->isVariadic()) k += "...";
        k += ")";
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) k += " const";
        return k;
    }
    void apiFunc(const FunctionDecl* F, const std::string& scope, const std::string& tp) {
        if (F->isImplicit() || hidden(F)) return;
        std::string k = fsig(F, scope, tp), w = accs(F);
        if (auto* TA = F->getTemplateSpecializationArgs()) {
            k += " [";
            for (auto& A : TA->asArray()) { std::string s; llvm::raw_string_ostream os(s); PrintingPolicy PP(C.getLangOpts()); PP.SuppressTagKeyword = true; PP.Bool = true; C.getCanonicalTemplateArgument(A).print(PP, os, true); os.flush(); k += s + ";"; }
            k += "]";
        }
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) { if (M->isStatic()) w += "static "; if (M->isVirtual()) w += "virtual "; if (M->isPureVirtual()) w += "pure "; if (M->getRefQualifier() != RQ_None) w += "refq "; }
        if (auto* K = dyn_cast<CXXConstructorDecl>(F)) if (K->isExplicit()) w += "explicit ";
        if (auto* K = dyn_cast<CXXConversionDecl>(F)) if (K->isExplicit()) w += "explicit ";
        if (F->isDeleted()) w += "deleted ";
        if (F->isNoReturn()) w += "noreturn ";
        if (auto* T = F->getType()->getAs<FunctionProtoType>()) if (!isUnresolvedExceptionSpec(T->getExceptionSpecType()) && !isa<CXXDestructorDecl>(F) && T->canThrow() == CT_Cannot) w += "nothrow ";
        if (!isa<CXXConstructorDecl>(F) && !isa<CXXDestructorDecl>(F)) w += "-> " + ct(F->getReturnType());
        for (auto* P : F->parameters()) if (P->hasDefaultArg()) {
            w += " [" + std::to_string(P->getFunctionScopeIndex()) + "=";
            if (P->hasUninstantiatedDefaultArg()) w += ptxt(P->getUninstantiatedDefaultArg());
            else if (!P->hasUnparsedDefaultArg()) w += ptxt(P->getDefaultArg());
            w += "]";
        }
        put(k, w, F->getLocation(), F->getAccess() == AS_protected);
    }
    static std::string special(const CXXRecordDecl* R, int what) {
        // how the class can be default constructed / copied / assigned
        for (auto* M : R->methods()) {
            auto* K = dyn_cast<CXXConstructorDecl>(M);
            bool is = what == 0 ? (K && K->isDefaultConstructor()) : what == 1 ? (K && K->isCopyConstructor()) : M->isCopyAssignmentOperator();
            if (!is) continue;
            if (M->isDeleted()) return "no";
            return M->getAccess() == AS_private ? "no" : M->getAccess() == AS_protected ? "protected" : "yes";
        }
        if (what == 0) return R->hasUserDeclaredConstructor() ? "no" : "yes";
        return "yes";
    }
    void apiRecord(const CXXRecordDecl* R, const std::string& scope, const std::string& name, const std::string& tp) {
        if (hidden(R)) return;
        if (!R->isThisDeclarationADefinition()) return;
        std::string w = accs(R), full = name;
        if (R->isUnion()) w += "union ";
        for (auto& B : R->bases()) { w += std::string(": ") + acc(B.getAccessSpecifier()) + (B.isVirtual() ? " virtual " : " ") + ct(B.getType()) + " "; }
        if (!R->isDependentContext()) { w += std::string("default=") + special(R, 0) + " copy=" + special(R, 1) + " assign=" + special(R, 2); if (R->isAbstract()) w += " abstract"; if (R->isPolymorphic()) w += " polymorphic"; if (R->hasAttr<FinalAttr>()) w += " final"; }
        put("class " + scope + full + tp, w, R->getLocation(), R->getAccess() == AS_protected);
        apiCtx(R, scope + full + tp + "::");
    }
    void apiCtx(const DeclContext* X, const std::string& scope) {
        for (auto* D : X->decls()) apiDecl(D, scope);
    }
    void apiDecl(const Decl* D, const std::string& scope) {
        if (D->isImplicit()) return;
        if (auto* Fr = dyn_cast<FriendDecl>(D)) {
            // functions defined as friends are found by argument-dependent look-up
            const NamedDecl* N = Fr->getFriendDecl();
            const FunctionDecl* F = nullptr; std::string tp;
            if (N) { if (auto* T = dyn_cast<FunctionTemplateDecl>(N)) { F = T->getTemplatedDecl(); tp = tparams(T->getTemplateParameters()); } else F = dyn_cast<FunctionDecl>(N); }
            if (F && F->isThisDeclarationADefinition()) apiFunc(F, "blet::args::", tp + "friend");
            return;
        }
        if (auto* N = dyn_cast<NamespaceDecl>(D)) { if (!N->isAnonymousNamespace()) apiCtx(N, scope + N->getNameAsString() + "::"); }
        else if (auto* L = dyn_cast<LinkageSpecDecl>(D)) apiCtx(L, scope);
        else if (auto* T = dyn_cast<FunctionTemplateDecl>(D)) { if (!hidden(T) && !(isa<CXXMethodDecl>(T->getTemplatedDecl()) && T->getTemplatedDecl()->isOutOfLine())) apiFunc(T->getTemplatedDecl(), scope, tparams(T->getTemplateParameters())); }
        else if (auto* T = dyn_cast<ClassTemplateDecl>(D)) { if (!hidden(T)) apiRecord(T->getTemplatedDecl(), scope, T->getNameAsString(), tparams(T->getTemplateParameters())); }
        else if (auto* T = dyn_cast<ClassTemplatePartialSpecializationDecl>(D)) {
            std::string s; llvm::raw_string_ostream os(s); PrintingPolicy PP(C.getLangOpts()); PP.SuppressTagKeyword = true; PP.Bool = true;
            printTemplateArgumentList(os, T->getTemplateArgs().asArray(), PP); os.flush();
            apiRecord(T, scope, T->getNameAsString(), tparams(T->getTemplateParameters()) + s);
        }
        else if (auto* T = dyn_cast<ClassTemplateSpecializationDecl>(D)) {
            std::string s; llvm::raw_string_ostream os(s); PrintingPolicy PP(C.getLangOpts()); PP.SuppressTagKeyword = true; PP.Bool = true;
            printTemplateArgumentList(os, T->getTemplateArgs().asArray(), PP); os.flush();
            apiRecord(T, scope, T->getNameAsString(), s);
        }
        else if (auto* R = dyn_cast<CXXRecordDecl>(D)) apiRecord(R, scope, R->getNameAsString(), "");
        else if (auto* F = dyn_cast<FunctionDecl>(D)) {
            if (F->isOutOfLine() && isa<CXXMethodDecl>(F)) return;
            if (F->getFormalLinkage() == Linkage::Internal) return;
            apiFunc(F, scope, "");
        }
        else if (auto* E = dyn_cast<EnumDecl>(D)) {
            if (hidden(E)) return;
            std::string w = accs(E); if (E->isScoped()) w += "scoped ";
            put("enum " + scope + E->getNameAsString(), w, E->getLocation(), E->getAccess() == AS_protected);
            for (auto* c : E->enumerators()) { llvm::SmallString<32> s; c->getInitVal().toString(s, 10); put("enumerator " + scope + E->getNameAsString() + "::" + c->getNameAsString(), std::string(s.str()), c->getLocation(), E->getAccess() == AS_protected); }
        }
        else if (auto* T = dyn_cast<TypedefNameDecl>(D)) { if (!hidden(T)) put("type " + scope + T->getNameAsString(), accs(T) + ct(T->getUnderlyingType()), T->getLocation(), T->getAccess() == AS_protected); }
        else if (auto* F = dyn_cast<FieldDecl>(D)) { if (!hidden(F)) put("field " + scope + F->getNameAsString(), accs(F) + ct(F->getType()), F->getLocation(), F->getAccess() == AS_protected); }
        else if (auto* V = dyn_cast<VarDecl>(D)) {
            if (hidden(V) || V->isOutOfLine() || V->getFormalLinkage() == Linkage::Internal) return;
            std::string w = accs(V) + ct(V->getType());
            if (V->getType().isConstQualified() && V->getInit()) w += " = " + ptxt(V->getInit());
            put("variable " + scope + V->getNameAsString(), w, V->getLocation(), V->getAccess() == AS_protected);
        }
    }
    void apiAll() {
        for (auto* D : C.getTranslationUnitDecl()->decls())
            if (auto* N = dyn_cast<NamespaceDecl>(D)) if (N->getName() == "blet") apiCtx(N, "blet::");
    }
    // definitions that must not be in two translation units of one program
    void noteMulti(const NamedDecl* D, const char* kind) {
        J::Object o; o["what"] = kind; o["n"] = D->getQualifiedNameAsString(); o["l"] = loc(D->getLocation()); o["blet"] = inBlet(D);
        multi.push_back(std::move(o));
    }
    void finish() {
        drain();
        apiAll();
        J::Object out; out["api"] = std::move(api); out["multi"] = std::move(multi); out["types"] = std::move(types); out["funcs"] = std::move(funcs); out["records"] = std::move(records); out["enums"] = std::move(enums); out["globals"] = std::move(globals); out["typedefs"] = std::move(typedefs); out["tmplFuncs"] = std::move(tmplFuncs);
        std::error_code EC; llvm::raw_fd_ostream os(OutPath, EC);
        os << J::Value(std::move(out));
    }
};
class Consumer : public ASTConsumer {
    void HandleTranslationUnit(ASTContext& C) override {
        if (C.getDiagnostics().hasErrorOccurred()) return;
        Exporter X(C); X.TraverseDecl(C.getTranslationUnitDecl()); X.finish();
    }
};
class Action : public ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(); }
};
int main(int argc, const char** argv) {
    std::string file; std::vector<std::string> args;
    int i = 1; file = argv[i++];
    if (std::string(argv[i]) == "-o") { OutPath = argv[i + 1]; i += 2; }
    if (i < argc && std::string(argv[i]) == "--") ++i;
    for (; i < argc; ++i) args.push_back(argv[i]);
    std::ifstream in(file); std::string code((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    return clang::tooling::runToolOnCodeWithArgs(std::make_unique<Action>(), code, args, file, "blet-exporter") ? 0 : 1;
}
