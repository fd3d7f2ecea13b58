// hx: fact extractor.  Parses one C translation unit with clang and prints, as
// JSON, every function definition (AST + clang CFG), record, enum and global
// variable that is located below a given root directory.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;

static std::string Root, Root2;

struct Dumper {
    ASTContext &C;
    SourceManager &SM;
    json::Array Types;
    std::map<void const *, int> TypeIdx;
    json::Array Decls;
    std::map<Decl const *, int> DeclIdx;
    std::vector<RecordDecl const *> PendingRecords;
    std::set<RecordDecl const *> SeenRecords;
    json::Array Records;

    explicit Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()) {}

    std::string fileOf(SourceLocation L)
    {
        L = SM.getExpansionLoc(L);
        auto n = SM.getFilename(L);
        llvm::SmallString<256> p(n);
        SM.getFileManager().makeAbsolutePath(p);
        llvm::sys::path::remove_dots(p, true);
        return std::string(p);
    }
    bool inRoot(SourceLocation L)
    {
        if (L.isInvalid()) {
            return false;
        }
        return llvm::StringRef(fileOf(L)).starts_with(Root) ||
            (!Root2.empty() && llvm::StringRef(fileOf(L)).starts_with(Root2));
    }

    int type(QualType Q)
    {
        if (Q.isNull()) {
            return -1;
        }
        void const *key = Q.getAsOpaquePtr();
        auto it = TypeIdx.find(key);
        if (it != TypeIdx.end()) {
            return it->second;
        }
        int idx = (int)Types.size();
        TypeIdx[key] = idx;
        Types.push_back(nullptr);
        json::Object o;
        o["s"] = Q.getAsString();
        QualType K = Q.getCanonicalType();
        o["c"] = K.getAsString();
        if (K.isConstQualified()) {
            o["const"] = true;
        }
        if (auto const *P = K->getAs<PointerType>()) {
            o["k"] = "ptr";
            // keep sugar of pointee if available
            if (auto const *PS = Q->getAs<PointerType>()) {
                o["to"] = type(PS->getPointeeType());
            }
            else {
                o["to"] = type(P->getPointeeType());
            }
        }
        else if (K->isBooleanType()) {
            o["k"] = "bool";
            o["bits"] = 1;
            o["sg"] = false;
        }
        else if (auto const *E = K->getAs<EnumType>()) {
            o["k"] = "enum";
            o["n"] = E->getDecl()->getNameAsString();
            o["bits"] = 32;
            o["sg"] = false;
            o["ed"] = decl(E->getDecl());
        }
        else if (K->isIntegerType()) {
            o["k"] = "int";
            o["bits"] = (int)C.getTypeSize(K);
            o["sg"] = K->isSignedIntegerType();
        }
        else if (K->isFloatingType()) {
            o["k"] = "float";
            o["bits"] = (int)C.getTypeSize(K);
        }
        else if (K->isRecordType()) {
            o["k"] = "rec";
            RecordDecl const *RD = K->getAs<RecordType>()->getDecl();
            o["rd"] = record(RD);
        }
        else if (K->isArrayType()) {
            o["k"] = "arr";
            auto const *A = C.getAsArrayType(Q);
            o["to"] = type(A->getElementType());
            if (auto const *CA = dyn_cast<ConstantArrayType>(A)) {
                o["size"] = (int64_t)CA->getSize().getZExtValue();
            }
        }
        else if (K->isFunctionType()) {
            o["k"] = "fun";
            if (auto const *F = Q->getAs<FunctionType>()) {
                o["ret"] = type(F->getReturnType());
                if (auto const *FP = dyn_cast<FunctionProtoType>(F)) {
                    json::Array ps;
                    for (auto const &t : FP->param_types()) {
                        ps.push_back(type(t));
                    }
                    o["params"] = std::move(ps);
                    o["variadic"] = FP->isVariadic();
                }
            }
        }
        else if (K->isVoidType()) {
            o["k"] = "void";
        }
        else {
            o["k"] = "other";
        }
        if ((K->isScalarType() || K->isRecordType() || K->isConstantArrayType()) &&
            !K->isIncompleteType() && !K->isPlaceholderType()) {
            o["sz"] = (int64_t)C.getTypeSizeInChars(Q).getQuantity();
        }
        if (auto const *T = Q->getAs<TypedefType>()) {
            o["td"] = T->getDecl()->getNameAsString();
        }
        Types[idx] = std::move(o);
        return idx;
    }

    std::string recName(RecordDecl const *RD)
    {
        if (auto *T = RD->getTypedefNameForAnonDecl()) {
            return T->getNameAsString();
        }
        if (RD->getIdentifier()) {
            return RD->getNameAsString();
        }
        std::string s = "anon@";
        s += llvm::sys::path::filename(fileOf(RD->getLocation())).str();
        s += ":" + std::to_string(SM.getExpansionLineNumber(RD->getLocation()));
        s += ":" + std::to_string(SM.getExpansionColumnNumber(RD->getLocation()));
        return s;
    }

    /** offset of a field in its record in bytes, -1 if there is none */
    int64_t fieldOff(FieldDecl const *F)
    {
        if (!F || F->isBitField()) return -1;
        auto const *RD = F->getParent();
        if (!RD->isCompleteDefinition() || RD->isInvalidDecl()) return -1;
        uint64_t b = C.getFieldOffset(F);
        return b % 8 ? -1 : (int64_t)(b / 8);
    }

    std::string record(RecordDecl const *RD)
    {
        std::string n = recName(RD);
        if (auto *D = RD->getDefinition()) {
            if (SeenRecords.insert(D).second) {
                PendingRecords.push_back(D);
            }
        }
        return n;
    }

    void flushRecords()
    {
        while (!PendingRecords.empty()) {
            auto *RD = PendingRecords.back();
            PendingRecords.pop_back();
            json::Object o;
            o["n"] = recName(RD);
            o["file"] = fileOf(RD->getLocation());
            o["line"] = (int)SM.getExpansionLineNumber(RD->getLocation());
            o["union"] = RD->isUnion();
            json::Array fs;
            for (auto const *F : RD->fields()) {
                json::Object fo;
                fo["n"] = F->getNameAsString();
                fo["t"] = type(F->getType());
                fo["anon"] = F->isAnonymousStructOrUnion();
                fo["off"] = fieldOff(F);
                fs.push_back(std::move(fo));
            }
            o["f"] = std::move(fs);
            Records.push_back(std::move(o));
        }
    }

    int decl(Decl const *D)
    {
        D = D->getCanonicalDecl();
        auto it = DeclIdx.find(D);
        if (it != DeclIdx.end()) {
            return it->second;
        }
        int idx = (int)Decls.size();
        DeclIdx[D] = idx;
        Decls.push_back(nullptr);
        json::Object o;
        if (auto const *N = dyn_cast<NamedDecl>(D)) {
            o["n"] = N->getNameAsString();
        }
        o["line"] = (int)SM.getExpansionLineNumber(D->getLocation());
        if (auto const *V = dyn_cast<VarDecl>(D)) {
            o["k"] = isa<ParmVarDecl>(V) ? "parm" : V->isLocalVarDecl() ? "local" : "global";
            if (V->isStaticLocal()) {
                o["static"] = true;
            }
            o["t"] = type(V->getType());
            if (auto const *P = dyn_cast<ParmVarDecl>(V)) {
                o["i"] = (int)P->getFunctionScopeIndex();
            }
            if (!V->isLocalVarDeclOrParm()) {
                o["file"] = fileOf(V->getLocation());
            }
        }
        else if (auto const *F = dyn_cast<FunctionDecl>(D)) {
            o["k"] = "func";
            o["file"] = fileOf(F->getLocation());
            o["t"] = type(F->getType());
            o["static"] = F->getStorageClass() == SC_Static;
            if (F->isNoReturn() || F->hasAttr<NoReturnAttr>() || F->hasAttr<C11NoReturnAttr>()) {
                o["noreturn"] = true;
            }
            json::Array pn;
            FunctionDecl const *FF = F;
            if (F->getDefinition()) FF = F->getDefinition();
            for (auto const *p : FF->parameters()) {
                pn.push_back(p->getNameAsString());
            }
            o["pn"] = std::move(pn);
            for (auto const *R : F->redecls()) {
                for (auto const *A : R->specific_attrs<FormatAttr>()) {
                    json::Array fa;
                    fa.push_back(A->getFormatIdx());
                    fa.push_back(A->getFirstArg());
                    o["fmt"] = std::move(fa);
                }
                if (R->hasAttr<WarnUnusedResultAttr>()) {
                    o["wur"] = true;
                }
            }
        }
        else if (auto const *E = dyn_cast<EnumConstantDecl>(D)) {
            o["k"] = "enumc";
            llvm::SmallString<32> s;
            E->getInitVal().toString(s, 10);
            o["v"] = (int64_t)E->getInitVal().getExtValue();
            o["enum"] = decl(cast<EnumDecl>(E->getDeclContext()));
        }
        else if (auto const *E = dyn_cast<EnumDecl>(D)) {
            o["k"] = "enum";
            o["file"] = fileOf(E->getLocation());
            if (E->getNameAsString().empty()) {
                if (auto *T = E->getTypedefNameForAnonDecl()) {
                    o["n"] = T->getNameAsString();
                }
            }
            json::Array es;
            EnumDecl const *ED = E->getDefinition() ? E->getDefinition() : E;
            for (auto const *c : ED->enumerators()) {
                es.push_back(decl(c));
            }
            o["es"] = std::move(es);
        }
        else if (auto const *F = dyn_cast<FieldDecl>(D)) {
            o["k"] = "field";
            o["t"] = type(F->getType());
            o["rec"] = record(F->getParent());
            o["i"] = (int)F->getFieldIndex();
        }
        else {
            o["k"] = D->getDeclKindName();
        }
        Decls[idx] = std::move(o);
        return idx;
    }

    // ---- per function ----
    json::Array Nodes;
    std::map<Stmt const *, int> NodeIdx;

    Stmt const *peel(Stmt const *S)
    {
        for (;;) {
            if (auto const *P = dyn_cast_or_null<ParenExpr>(S)) {
                S = P->getSubExpr();
            }
            else if (auto const *G = dyn_cast_or_null<GenericSelectionExpr>(S)) {
                S = G->getResultExpr();
            }
            else if (auto const *K = dyn_cast_or_null<ConstantExpr>(S)) {
                S = K->getSubExpr();
            }
            else if (auto const *X = dyn_cast_or_null<ChooseExpr>(S)) {
                S = X->getChosenSubExpr();
            }
            else if (auto const *U = dyn_cast_or_null<UnaryOperator>(S);
                     U && U->getOpcode() == UO_Extension) {
                S = U->getSubExpr();
            }
            else if (auto const *O = dyn_cast_or_null<OpaqueValueExpr>(S)) {
                if (!O->getSourceExpr()) return S;
                S = O->getSourceExpr();
            }
            else {
                return S;
            }
        }
    }

    int node(Stmt const *S)
    {
        S = peel(S);
        if (!S) {
            return -1;
        }
        auto it = NodeIdx.find(S);
        if (it != NodeIdx.end()) {
            return it->second;
        }
        int idx = (int)Nodes.size();
        NodeIdx[S] = idx;
        Nodes.push_back(nullptr);
        json::Object o;
        o["k"] = S->getStmtClassName();
        SourceLocation L = S->getBeginLoc();
        if (auto const *B = dyn_cast<BinaryOperator>(S)) {
            L = B->getOperatorLoc();
        }
        else if (auto const *M = dyn_cast<MemberExpr>(S)) {
            L = M->getMemberLoc();
        }
        if (L.isValid()) {
            o["l"] = (int)SM.getExpansionLineNumber(L);
            if (L.isMacroID()) {
                o["m"] = Lexer::getImmediateMacroName(L, SM, C.getLangOpts()).str();
                SourceLocation T = L;
                while (SM.getImmediateMacroCallerLoc(T).isMacroID()) {
                    T = SM.getImmediateMacroCallerLoc(T);
                }
                auto om = Lexer::getImmediateMacroName(T, SM, C.getLangOpts()).str();
                if (om != *o["m"].getAsString()) {
                    o["om"] = om;
                }
            }
        }
        if (auto const *E = dyn_cast<Expr>(S)) {
            o["t"] = type(E->getType());
            if (E->isLValue()) {
                o["lv"] = true;
            }
            Expr::EvalResult R;
            if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() &&
                E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
                llvm::SmallString<40> s;
                R.Val.getInt().toString(s, 10);
                if (R.Val.getInt().isRepresentableByInt64()) {
                    o["v"] = R.Val.getInt().getExtValue();
                }
                else {
                    o["vs"] = std::string(s.str());
                }
            }
        }
        json::Array ch;
        bool generic = true;
        if (auto const *D = dyn_cast<DeclRefExpr>(S)) {
            o["d"] = decl(D->getDecl());
        }
        else if (auto const *M = dyn_cast<MemberExpr>(S)) {
            o["d"] = decl(M->getMemberDecl());
            o["n"] = M->getMemberDecl()->getNameAsString();
            bool arrow = M->isArrow();
            int64_t off = fieldOff(dyn_cast<FieldDecl>(M->getMemberDecl()));
            Expr const *base = M->getBase();
            for (;;) {
                auto const *BM = dyn_cast<MemberExpr>(peel(base));
                if (!BM) break;
                auto const *FD = dyn_cast<FieldDecl>(BM->getMemberDecl());
                if (!FD || !FD->isAnonymousStructOrUnion()) break;
                arrow = BM->isArrow();
                base = BM->getBase();
                int64_t bo = fieldOff(FD);
                off = off < 0 || bo < 0 ? -1 : off + bo;
            }
            o["off"] = off;
            o["arrow"] = arrow;
            ch.push_back(node(base));
            generic = false;
        }
        else if (auto const *B = dyn_cast<BinaryOperator>(S)) {
            o["op"] = B->getOpcodeStr().str();
            if (auto const *CA = dyn_cast<CompoundAssignOperator>(S)) {
                o["ct"] = type(CA->getComputationResultType());
            }
        }
        else if (auto const *U = dyn_cast<UnaryOperator>(S)) {
            o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
            o["post"] = U->isPostfix();
        }
        else if (auto const *K = dyn_cast<CastExpr>(S)) {
            o["ck"] = K->getCastKindName();
        }
        else if (auto const *I = dyn_cast<IntegerLiteral>(S)) {
            (void)I;
        }
        else if (auto const *F = dyn_cast<FloatingLiteral>(S)) {
            o["fv"] = F->getValueAsApproximateDouble();
        }
        else if (auto const *SL = dyn_cast<StringLiteral>(S)) {
            std::string b = SL->isOrdinary() ? SL->getString().str() : std::string();
            o["str"] = json::fixUTF8(b);
        }
        else if (auto const *CL = dyn_cast<CharacterLiteral>(S)) {
            (void)CL;
        }
        else if (auto const *X = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
            o["tr"] = (int)X->getKind();
            if (X->isArgumentType()) {
                o["at"] = type(X->getArgumentType());
                generic = false;
            }
            else {
                o["at"] = type(X->getArgumentExpr()->getType());
            }
        }
        else if (auto const *DS = dyn_cast<DeclStmt>(S)) {
            json::Array ds;
            for (auto const *D : DS->decls()) {
                if (auto const *V = dyn_cast<VarDecl>(D)) {
                    json::Array p;
                    p.push_back(decl(V));
                    p.push_back(V->getInit() ? node(V->getInit()) : -1);
                    ds.push_back(std::move(p));
                }
            }
            o["ds"] = std::move(ds);
            generic = false;
        }
        else if (auto const *IL = dyn_cast<InitListExpr>(S)) {
            InitListExpr const *SI = IL->isSemanticForm() ? IL : IL->getSemanticForm();
            if (!SI) SI = IL;
            for (auto const *e : SI->inits()) {
                ch.push_back(node(e));
            }
            if (SI->getInitializedFieldInUnion()) {
                o["uf"] = SI->getInitializedFieldInUnion()->getNameAsString();
            }
            if (SI->hasArrayFiller()) o["fill"] = true;
            generic = false;
        }
        else if (auto const *OE = dyn_cast<OffsetOfExpr>(S)) {
            std::string s;
            for (unsigned i = 0; i < OE->getNumComponents(); i++) {
                auto const &c = OE->getComponent(i);
                if (c.getKind() == OffsetOfNode::Field) {
                    s += "." + c.getField()->getNameAsString();
                }
            }
            o["off"] = s;
            o["at"] = type(OE->getTypeSourceInfo()->getType());
        }
        else if (auto const *G = dyn_cast<GotoStmt>(S)) {
            o["n"] = G->getLabel()->getNameAsString();
        }
        else if (auto const *LS = dyn_cast<LabelStmt>(S)) {
            o["n"] = LS->getDecl()->getNameAsString();
        }
        else if (auto const *CS = dyn_cast<CallExpr>(S)) {
            if (auto const *FD = CS->getDirectCallee()) {
                o["fn"] = decl(FD);
            }
        }
        else if (auto const *BC = dyn_cast<BinaryConditionalOperator>(S)) {
            ch.push_back(node(BC->getCommon()));
            ch.push_back(node(BC->getCommon()));
            ch.push_back(node(BC->getFalseExpr()));
            generic = false;
        }
        else if (auto const *VA = dyn_cast<VAArgExpr>(S)) {
            (void)VA;
        }
        if (auto const *I = dyn_cast<IfStmt>(S)) {
            ch.push_back(node(I->getCond()));
            ch.push_back(node(I->getThen()));
            ch.push_back(node(I->getElse()));
            generic = false;
        }
        else if (auto const *F = dyn_cast<ForStmt>(S)) {
            ch.push_back(node(F->getInit()));
            ch.push_back(node(F->getCond()));
            ch.push_back(node(F->getInc()));
            ch.push_back(node(F->getBody()));
            generic = false;
        }
        else if (auto const *W = dyn_cast<WhileStmt>(S)) {
            ch.push_back(node(W->getCond()));
            ch.push_back(node(W->getBody()));
            generic = false;
        }
        else if (auto const *W = dyn_cast<DoStmt>(S)) {
            ch.push_back(node(W->getBody()));
            ch.push_back(node(W->getCond()));
            generic = false;
        }
        else if (auto const *W = dyn_cast<SwitchStmt>(S)) {
            ch.push_back(node(W->getCond()));
            ch.push_back(node(W->getBody()));
            generic = false;
        }
        else if (auto const *W = dyn_cast<CaseStmt>(S)) {
            ch.push_back(node(W->getLHS()));
            ch.push_back(node(W->getRHS()));
            ch.push_back(node(W->getSubStmt()));
            generic = false;
        }
        if (generic) {
            for (auto const *c : S->children()) {
                ch.push_back(node(c));
            }
        }
        if (!ch.empty()) {
            o["c"] = std::move(ch);
        }
        Nodes[idx] = std::move(o);
        return idx;
    }

    json::Object function(FunctionDecl const *F)
    {
        Nodes = json::Array();
        NodeIdx.clear();
        json::Object o;
        o["d"] = decl(F);
        o["n"] = F->getNameAsString();
        o["file"] = fileOf(F->getLocation());
        o["line"] = (int)SM.getExpansionLineNumber(F->getLocation());
        o["end"] = (int)SM.getExpansionLineNumber(F->getEndLoc());
        o["ret"] = type(F->getReturnType());
        o["static"] = F->getStorageClass() == SC_Static;
        o["inl"] = F->isInlineSpecified();
        json::Array ps;
        for (auto const *p : F->parameters()) {
            ps.push_back(decl(p));
        }
        o["params"] = std::move(ps);
        o["body"] = node(F->getBody());
        CFG::BuildOptions BO;
        BO.setAllAlwaysAdd();
        BO.PruneTriviallyFalseEdges = true;
        auto cfg = CFG::buildCFG(F, F->getBody(), &C, BO);
        if (cfg) {
            json::Array bs;
            for (auto const *B : *cfg) {
                json::Object bo;
                bo["id"] = (int)B->getBlockID();
                json::Array es;
                int last = -2;
                for (auto const &e : *B) {
                    if (auto cs = e.getAs<CFGStmt>()) {
                        int n = node(cs->getStmt());
                        if (n != last) {
                            es.push_back(n);
                        }
                        last = n;
                    }
                }
                bo["e"] = std::move(es);
                if (auto const *T = B->getTerminatorStmt()) {
                    bo["t"] = node(T);
                    if (auto const *TC = B->getTerminatorCondition(false)) {
                        bo["tc"] = node(TC);
                    }
                }
                if (auto const *Lb = B->getLabel()) {
                    bo["lb"] = node(Lb);
                }
                if (B->hasNoReturnElement()) {
                    bo["nr"] = true;
                }
                json::Array ss;
                for (auto const &s : B->succs()) {
                    if (s.getReachableBlock()) {
                        ss.push_back((int)s.getReachableBlock()->getBlockID());
                    }
                    else {
                        ss.push_back(nullptr);
                    }
                }
                bo["s"] = std::move(ss);
                bs.push_back(std::move(bo));
            }
            o["cfg"] = std::move(bs);
            o["entry"] = (int)cfg->getEntry().getBlockID();
            o["exit"] = (int)cfg->getExit().getBlockID();
        }
        o["nodes"] = std::move(Nodes);
        return o;
    }
};

struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext &C) override
    {
        Dumper D(C);
        json::Array funs, globals, enums, protos;
        for (auto const *X : C.getTranslationUnitDecl()->decls()) {
            if (!D.inRoot(X->getLocation())) {
                continue;
            }
            if (auto const *F = dyn_cast<FunctionDecl>(X)) {
                if (F->isThisDeclarationADefinition() && F->hasBody()) {
                    funs.push_back(D.function(F));
                }
                else {
                    protos.push_back(D.decl(F));
                }
            }
            else if (auto const *V = dyn_cast<VarDecl>(X)) {
                if (V->getInit()) {
                    D.Nodes = json::Array();
                    D.NodeIdx.clear();
                    json::Object o;
                    o["d"] = D.decl(V);
                    o["n"] = V->getNameAsString();
                    o["file"] = D.fileOf(V->getLocation());
                    o["line"] = (int)D.SM.getExpansionLineNumber(V->getLocation());
                    o["init"] = D.node(V->getInit());
                    o["nodes"] = std::move(D.Nodes);
                    globals.push_back(std::move(o));
                }
            }
            else if (auto const *E = dyn_cast<EnumDecl>(X)) {
                if (E->isCompleteDefinition()) {
                    enums.push_back(D.decl(E));
                }
            }
            else if (auto const *R = dyn_cast<RecordDecl>(X)) {
                if (R->isCompleteDefinition()) {
                    D.record(R);
                }
            }
        }
        D.flushRecords();
        json::Object o;
        o["functions"] = std::move(funs);
        o["globals"] = std::move(globals);
        o["enums"] = std::move(enums);
        o["protos"] = std::move(protos);
        o["records"] = std::move(D.Records);
        o["decls"] = std::move(D.Decls);
        o["types"] = std::move(D.Types);
        json::Value v(std::move(o));
        llvm::outs() << v << "\n";
        llvm::outs().flush();
    }
};

struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override
    {
        return std::make_unique<Consumer>();
    }
};

// usage: hx ROOT FILE -- clang-args...
int main(int argc, char **argv)
{
    if (argc < 4) {
        llvm::errs() << "usage: hx ROOT FILE -- args\n";
        return 2;
    }
    Root = argv[1];
    if (auto p = Root.find(':'); p != std::string::npos) {
        Root2 = Root.substr(p + 1);
        Root.resize(p);
    }
    std::string file = argv[2];
    std::vector<std::string> args;
    for (int i = 4; i < argc; i++) {
        args.push_back(argv[i]);
    }
    llvm::SmallString<256> cwd;
    (void)llvm::sys::fs::current_path(cwd);
    tooling::FixedCompilationDatabase DB(cwd, args);
    tooling::ClangTool T(DB, {file});
    return T.run(tooling::newFrontendActionFactory<Action>().get());
}
