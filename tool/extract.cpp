// Fact extractor for the static checks of /verif: parses one translation unit
// with clang's libTooling and writes, for every function defined below
// SRCROOT, its type-resolved control-flow graph as JSON. Decides nothing.
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> g_roots;  // absolute prefixes, with slash
static std::string g_out;
static std::string g_strip;               // prefix removed from file names

namespace {

class Extractor : public RecursiveASTVisitor<Extractor> {
  public:
    explicit Extractor(ASTContext& ctx)
        : ctx_{ctx}, sm_{ctx.getSourceManager()}, pp_{ctx.getLangOpts()} {
        pp_.SuppressTagKeyword = true;
        pp_.Bool = true;
        pp_.SuppressUnwrittenScope = false;
        pp_.SuppressInlineNamespace = true;
        pp_.TerseOutput = true;
    }

    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool shouldVisitLambdaBody() const { return true; }

    bool VisitLambdaExpr(LambdaExpr* e) {
        if (auto* m = e->getCallOperator()) {
            if (!m->isDependentContext()) {
                DoFunction(m);
            }
            if (auto* ft = m->getDescribedFunctionTemplate()) {
                for (auto* s : ft->specializations()) {
                    if (auto const* d = s->getDefinition()) {
                        DoFunction(const_cast<FunctionDecl*>(d));
                        // lambdas nested in the instantiation
                        if (traversed_.insert(d).second) {
                            TraverseStmt(d->getBody());
                        }
                    }
                }
            }
        }
        return true;
    }

    bool VisitFunctionDecl(FunctionDecl* f) {
        if (f->isThisDeclarationADefinition() && f->hasBody()) {
            DoFunction(f);
        }
        return true;
    }

    bool VisitCXXRecordDecl(CXXRecordDecl* r) {
        if (r->isThisDeclarationADefinition() && !r->isLambda() &&
            !r->isDependentContext() && InRoot(r->getLocation())) {
            DoRecord(r);
        }
        return true;
    }

    bool VisitEnumDecl(EnumDecl* e) {
        if (e->isThisDeclarationADefinition() && InRoot(e->getLocation()) &&
            !e->isDependentContext()) {
            json::Array cs;
            for (auto* c : e->enumerators()) {
                cs.push_back(json::Array{
                    c->getNameAsString(),
                    static_cast<int64_t>(c->getInitVal().getLimitedValue())});
            }
            enums_.push_back(json::Object{{"q", Qual(e)},
                                          {"f", File(e->getLocation())},
                                          {"l", Line(e->getLocation())},
                                          {"cs", std::move(cs)}});
        }
        return true;
    }

    bool VisitVarDecl(VarDecl* v) {
        if (v->isThisDeclarationADefinition() && v->hasInit() &&
            (v->isFileVarDecl() || v->isStaticDataMember() ||
             v->isStaticLocal()) &&
            !v->getType()->isDependentType() && !v->isInitCapture() &&
            InRoot(v->getLocation()) &&
            !v->getDeclContext()->isDependentContext()) {
            DoVar(v);
        }
        return true;
    }

    void Finish() {
        // one line per fact: kind TAB key TAB json
        std::error_code ec;
        llvm::raw_fd_ostream os{g_out, ec};
        if (ec) {
            llvm::errs() << "cannot write " << g_out << "\n";
            exit(3);
        }
        json::Array types;
        for (auto const& t : types_) {
            types.push_back(t);
        }
        os << "T\t\t" << json::Value(std::move(types)) << "\n";
        json::Array deps;
        for (auto it = sm_.fileinfo_begin(); it != sm_.fileinfo_end(); ++it) {
            auto n = it->first.getName();
            if (n.starts_with(g_strip)) {
                deps.push_back(n.drop_front(g_strip.size()).str());
            }
        }
        os << "D\t\t" << json::Value(std::move(deps)) << "\n";
        auto dump = [&os](char kind, char const* key, json::Array& a) {
            for (auto& v : a) {
                auto k = v.getAsObject()->getString(key);
                os << kind << "\t" << (k ? *k : "") << "\t" << v << "\n";
            }
        };
        dump('F', "u", funcs_);
        dump('R', "q", records_);
        dump('E', "q", enums_);
        dump('V', "q", vars_);
        os.close();
        if (os.has_error()) {
            exit(3);
        }
    }

  private:
    std::set<FunctionDecl const*> traversed_;
    ASTContext& ctx_;
    SourceManager& sm_;
    PrintingPolicy pp_;
    json::Array funcs_, records_, enums_, vars_;
    std::vector<std::string> types_;
    std::map<std::string, int> type_ids_;
    std::set<FunctionDecl const*> done_;
    std::map<std::string, std::set<std::string>> insts_;
    std::set<std::string> done_keys_;

    // per function
    std::unordered_map<Stmt const*, int> ids_;
    int next_id_ = 0;
    json::Array* out_ = nullptr;
    std::unordered_map<Stmt const*, int> try_of_;
    json::Array range_fors_;

    auto InRoot(SourceLocation l) -> bool {
        if (l.isInvalid()) {
            return false;
        }
        auto f = sm_.getFilename(sm_.getExpansionLoc(l));
        for (auto const& r : g_roots) {
            if (f.starts_with(r)) {
                return true;
            }
        }
        return false;
    }
    auto File(SourceLocation l) -> std::string {
        auto f = sm_.getFilename(sm_.getExpansionLoc(l));
        if (f.starts_with(g_strip)) {
            f = f.drop_front(g_strip.size());
        }
        return f.str();
    }
    auto Line(SourceLocation l) -> int64_t {
        return sm_.getExpansionLineNumber(l);
    }
    auto Col(SourceLocation l) -> int64_t {
        return sm_.getExpansionColumnNumber(l);
    }
    auto Type(QualType t) -> int64_t {
        if (t.isNull()) {
            return -1;
        }
        auto s = t.getCanonicalType().getAsString(pp_);
        auto [it, ins] = type_ids_.emplace(s, types_.size());
        if (ins) {
            types_.push_back(s);
        }
        return it->second;
    }
    auto Qual(NamedDecl const* d) -> std::string {
        std::string s;
        llvm::raw_string_ostream os{s};
        if (auto const* m = dyn_cast<CXXMethodDecl>(d);
            m != nullptr && m->getParent()->isLambda()) {
            return LambdaKey(m);
        }
        d->printQualifiedName(os, pp_);
        os.flush();
        return s;
    }
    auto LambdaKey(CXXMethodDecl const* m) -> std::string {
        auto l = m->getParent()->getLocation();
        return "lambda:" + File(l) + ":" + std::to_string(Line(l)) + ":" +
               std::to_string(Col(l));
    }
    auto Key(FunctionDecl const* f) -> std::string {
        if (auto const* m = dyn_cast<CXXMethodDecl>(f);
            m != nullptr && m->getParent()->isLambda()) {
            // instantiations of the lambda itself are merged, those of the
            // enclosing template are not
            DeclContext const* dc = m->getParent()->getDeclContext();
            while (dc != nullptr && !isa<FunctionDecl>(dc)) {
                dc = dc->getParent();
            }
            auto key = LambdaKey(m);
            if (dc != nullptr) {
                auto const* p = cast<FunctionDecl>(dc);
                auto const* pm = dyn_cast<CXXMethodDecl>(p);
                auto outer = Key(p);
                if (pm != nullptr && pm->getParent()->isLambda()) {
                    // follows the enclosing lambda
                    if (auto at = outer.find('@'); at != std::string::npos) {
                        key += outer.substr(at);
                    }
                }
                else if (p->isTemplateInstantiation() ||
                         (pm != nullptr &&
                          isa<ClassTemplateSpecializationDecl>(
                              pm->getParent()))) {
                    std::uint64_t h = 1469598103934665603ULL;
                    for (unsigned char c : outer) {
                        h = (h ^ c) * 1099511628211ULL;
                    }
                    key += "@" + std::to_string(h);
                }
            }
            return key;
        }
        llvm::SmallString<128> buf;
        if (index::generateUSRForDecl(f, buf)) {
            return Qual(f);
        }
        return buf.str().str();
    }
    auto VarKey(ValueDecl const* v) -> std::string {
        if (auto const* f = dyn_cast<FieldDecl>(v)) {
            return Qual(f);
        }
        if (auto const* e = dyn_cast<EnumConstantDecl>(v)) {
            return Qual(e);
        }
        if (auto const* var = dyn_cast<VarDecl>(v)) {
            if (var->isFileVarDecl() || var->isStaticDataMember()) {
                return Qual(var);
            }
        }
        auto l = v->getLocation();
        return v->getNameAsString() + "@" + std::to_string(Line(l)) + ":" +
               std::to_string(Col(l));
    }

    static auto Strip(Stmt const* s) -> Stmt const* {
        while (s != nullptr) {
            if (auto const* e = dyn_cast<ParenExpr>(s)) {
                s = e->getSubExpr();
            }
            else if (auto const* e = dyn_cast<ExprWithCleanups>(s)) {
                s = e->getSubExpr();
            }
            else if (auto const* e = dyn_cast<ConstantExpr>(s)) {
                s = e->getSubExpr();
            }
            else if (auto const* e = dyn_cast<MaterializeTemporaryExpr>(s)) {
                s = e->getSubExpr();
            }
            else if (auto const* e = dyn_cast<CXXBindTemporaryExpr>(s)) {
                s = e->getSubExpr();
            }
            else if (auto const* e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) {
                s = e->getReplacement();
            }
            else if (auto const* e = dyn_cast<CXXStdInitializerListExpr>(s)) {
                s = e->getSubExpr();
            }
            else if (auto const* e = dyn_cast<ImplicitCastExpr>(s)) {
                s = e->getSubExpr();
            }
            else if (auto const* e = dyn_cast<CXXDefaultArgExpr>(s)) {
                s = e->getExpr();
            }
            else if (auto const* e = dyn_cast<CXXDefaultInitExpr>(s)) {
                s = e->getExpr();
            }
            else if (auto const* e = dyn_cast<CXXRewrittenBinaryOperator>(s)) {
                s = e->getSemanticForm();
            }
            else if (auto const* e = dyn_cast<CXXFunctionalCastExpr>(s);
                     e != nullptr &&
                     (e->getCastKind() == CK_ConstructorConversion ||
                      e->getCastKind() == CK_NoOp)) {
                s = e->getSubExpr();
            }
            else {
                break;
            }
        }
        return s;
    }

    auto Id(Stmt const* s0) -> int64_t {
        auto const* s = Strip(s0);
        if (s == nullptr) {
            return -1;
        }
        auto it = ids_.find(s);
        if (it == ids_.end()) {
            return Emit(s);
        }
        return it->second;
    }

    auto CalleeInfo(FunctionDecl const* f, json::Object& o) -> void {
        o["fn"] = Qual(f);
        o["fk"] = Key(f);
        if (auto const* proto = f->getType()->getAs<FunctionProtoType>()) {
            auto est = proto->getExceptionSpecType();
            if (!isUnresolvedExceptionSpec(est) && proto->isNothrow()) {
                o["ne"] = 1;
            }
        }
        if (auto const* m = dyn_cast<CXXMethodDecl>(f)) {
            if (m->isVirtual()) {
                o["virt"] = 1;
            }
            if (m->isConst()) {
                o["cst"] = 1;
            }
        }
        if (f->isVariadic()) {
            o["va"] = 1;
        }
        if (f->hasAttr<WarnUnusedResultAttr>()) {
            o["nd"] = 1;
        }
        // which alternative of a variant is meant
        if (f->isInStdNamespace() and f->getDeclName().isIdentifier()) {
            auto n = f->getName();
            if (n == "holds_alternative" or n == "get" or n == "get_if") {
                if (auto const* args = f->getTemplateSpecializationArgs()) {
                    if (args->size() > 0 and
                        args->get(0).getKind() == TemplateArgument::Type) {
                        o["ta"] = 
                            args->get(0).getAsType().getCanonicalType().getAsString(pp_);
                    }
                }
            }
        }
    }

    auto Args(CallExpr const* c, unsigned from, json::Object& o) -> void {
        json::Array a;
        for (unsigned i = from; i < c->getNumArgs(); ++i) {
            a.push_back(Id(c->getArg(i)));
        }
        o["a"] = std::move(a);
    }

    // how the parameters take their arguments: v(alue) r(ef) c(onst ref) m(ove)
    auto Modes(FunctionDecl const* f, unsigned skip, json::Object& o) -> void {
        std::string m;
        for (auto const* p : f->parameters()) {
            if (skip > 0) {
                --skip;
                continue;
            }
            auto t = p->getType();
            if (t->isRValueReferenceType()) {
                m += 'm';
            }
            else if (t->isLValueReferenceType()) {
                m += t.getNonReferenceType().isConstQualified() ? 'c' : 'r';
            }
            else if (t->isPointerType()) {
                m += t->getPointeeType().isConstQualified() ? 'q' : 'p';
            }
            else {
                m += 'v';
            }
        }
        o["pm"] = m;
    }

    auto Emit(Stmt const* s0) -> int64_t {
        auto const* s = Strip(s0);
        if (s == nullptr) {
            return -1;
        }
        if (auto it = ids_.find(s); it != ids_.end()) {
            return it->second;
        }
        json::Object o;
        std::string op;
        // children first (those not yet emitted are emitted in place)
        if (auto const* e = dyn_cast<CXXOperatorCallExpr>(s)) {
            op = "call";
            if (auto const* f = e->getDirectCallee()) {
                CalleeInfo(f, o);
                auto const* m = dyn_cast<CXXMethodDecl>(f);
                if (m != nullptr && !m->isStatic()) {
                    o["o"] = Id(e->getArg(0));
                    Args(e, 1, o);
                }
                else {
                    Args(e, 0, o);
                }
                Modes(f, 0, o);
                o["opk"] = getOperatorSpelling(e->getOperator());
            }
            else {
                Args(e, 0, o);
            }
        }
        else if (auto const* e = dyn_cast<CXXMemberCallExpr>(s)) {
            op = "call";
            o["o"] = Id(e->getImplicitObjectArgument());
            if (auto const* m = e->getMethodDecl()) {
                CalleeInfo(m, o);
                Modes(m, 0, o);
            }
            else {
                o["cal"] = Id(e->getCallee());
            }
            Args(e, 0, o);
        }
        else if (auto const* e = dyn_cast<CallExpr>(s)) {
            op = "call";
            if (auto const* f = e->getDirectCallee()) {
                CalleeInfo(f, o);
                Modes(f, 0, o);
            }
            else {
                o["cal"] = Id(e->getCallee());
            }
            Args(e, 0, o);
        }
        else if (auto const* e = dyn_cast<CXXConstructExpr>(s)) {
            op = "ctor";
            auto const* c = e->getConstructor();
            CalleeInfo(c, o);
            Modes(c, 0, o);
            json::Array a;
            for (auto const* arg : e->arguments()) {
                a.push_back(Id(arg));
            }
            o["a"] = std::move(a);
            if (c->isCopyOrMoveConstructor()) {
                o["cm"] = c->isMoveConstructor() ? "m" : "c";
            }
            if (e->isListInitialization()) {
                o["li"] = 1;
            }
        }
        else if (auto const* e = dyn_cast<DeclRefExpr>(s)) {
            op = "ref";
            auto const* d = e->getDecl();
            if (auto const* f = dyn_cast<FunctionDecl>(d)) {
                o["k"] = "f";
                CalleeInfo(f, o);
            }
            else {
                if (isa<EnumConstantDecl>(d)) {
                    o["k"] = "e";
                    o["val"] = static_cast<int64_t>(
                        cast<EnumConstantDecl>(d)->getInitVal().getLimitedValue());
                }
                else if (auto const* b = dyn_cast<BindingDecl>(d)) {
                    o["k"] = "b";
                    if (auto const* dd = b->getDecomposedDecl()) {
                        o["dec"] = VarKey(cast<ValueDecl>(dd));
                        int64_t i = 0;
                        if (auto const* de = dyn_cast<DecompositionDecl>(dd)) {
                            for (auto const* bb : de->bindings()) {
                                if (bb == b) {
                                    o["ix"] = i;
                                }
                                ++i;
                            }
                        }
                    }
                }
                else if (isa<ParmVarDecl>(d)) {
                    o["k"] = "p";
                }
                else if (auto const* v = dyn_cast<VarDecl>(d)) {
                    o["k"] = v->isFileVarDecl() || v->isStaticDataMember()
                                 ? "g"
                                 : (v->isStaticLocal() ? "s" : "l");
                }
                else {
                    o["k"] = "o";
                }
                o["v"] = VarKey(d);
                if (e->refersToEnclosingVariableOrCapture()) {
                    o["cap"] = 1;
                }
            }
        }
        else if (auto const* e = dyn_cast<MemberExpr>(s)) {
            op = "mem";
            o["b"] = Id(e->getBase());
            o["v"] = VarKey(e->getMemberDecl());
            o["m"] = e->getMemberDecl()->getNameAsString();
            if (e->isArrow()) {
                o["arr"] = 1;
            }
            if (isa<FunctionDecl>(e->getMemberDecl())) {
                o["isf"] = 1;
            }
        }
        else if (auto const* e = dyn_cast<IntegerLiteral>(s)) {
            op = "int";
            auto v = e->getValue();
            o["val"] = v.isSignedIntN(64)
                           ? v.getSExtValue()
                           : static_cast<int64_t>(v.getLimitedValue());
        }
        else if (auto const* e = dyn_cast<CXXBoolLiteralExpr>(s)) {
            op = "bool";
            o["val"] = e->getValue() ? 1 : 0;
        }
        else if (auto const* e = dyn_cast<StringLiteral>(s)) {
            op = "str";
            if (e->getCharByteWidth() == 1) {
                auto b = e->getBytes();
                o["val"] = json::isUTF8(b) ? b.str() : json::fixUTF8(b);
            }
        }
        else if (auto const* e = dyn_cast<CharacterLiteral>(s)) {
            op = "chr";
            o["val"] = static_cast<int64_t>(e->getValue());
        }
        else if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s)) {
            op = "null";
        }
        else if (isa<CXXThisExpr>(s)) {
            op = "this";
        }
        else if (auto const* e = dyn_cast<UnaryOperator>(s)) {
            op = "un";
            o["k"] = UnaryOperator::getOpcodeStr(e->getOpcode()).str() +
                     (e->isPostfix() ? "p" : "");
            o["a"] = json::Array{Id(e->getSubExpr())};
        }
        else if (auto const* e = dyn_cast<BinaryOperator>(s)) {
            op = e->isAssignmentOp() ? "asg" : "bin";
            o["k"] = e->getOpcodeStr().str();
            auto l = Id(e->getLHS());
            auto r = Id(e->getRHS());
            o["a"] = json::Array{l, r};
        }
        else if (auto const* e = dyn_cast<AbstractConditionalOperator>(s)) {
            op = "sel";
            auto c = Id(e->getCond());
            auto l = Id(e->getTrueExpr());
            auto r = Id(e->getFalseExpr());
            o["a"] = json::Array{c, l, r};
        }
        else if (auto const* e = dyn_cast<ExplicitCastExpr>(s)) {
            op = "cast";
            o["k"] = e->getCastKindName();
            o["ct"] = isa<CXXStaticCastExpr>(s)        ? "static"
                      : isa<CXXReinterpretCastExpr>(s) ? "reinterpret"
                      : isa<CXXConstCastExpr>(s)       ? "const"
                      : isa<CXXDynamicCastExpr>(s)     ? "dynamic"
                                                       : "c";
            o["a"] = json::Array{Id(e->getSubExpr())};
        }
        else if (auto const* e = dyn_cast<ArraySubscriptExpr>(s)) {
            op = "idx";
            auto b = Id(e->getBase());
            auto i = Id(e->getIdx());
            o["a"] = json::Array{b, i};
        }
        else if (auto const* e = dyn_cast<InitListExpr>(s)) {
            op = "list";
            auto const* sem = e->isSemanticForm() || !e->getSemanticForm()
                                  ? e
                                  : e->getSemanticForm();
            json::Array a;
            for (auto const* i : sem->inits()) {
                a.push_back(Id(i));
            }
            o["a"] = std::move(a);
            if (auto const* rt = sem->getType()->getAsCXXRecordDecl()) {
                json::Array fs;
                for (auto const* f : rt->fields()) {
                    fs.push_back(f->getNameAsString());
                }
                o["fs"] = std::move(fs);
            }
        }
        else if (auto const* e = dyn_cast<CXXNewExpr>(s)) {
            op = "new";
            json::Array a;
            if (auto const* c = e->getConstructExpr()) {
                a.push_back(Id(c));
            }
            else if (auto const* i = e->getInitializer()) {
                a.push_back(Id(i));
            }
            o["a"] = std::move(a);
        }
        else if (auto const* e = dyn_cast<CXXDeleteExpr>(s)) {
            op = "del";
            o["a"] = json::Array{Id(e->getArgument())};
        }
        else if (auto const* e = dyn_cast<CXXThrowExpr>(s)) {
            op = "throw";
            json::Array a;
            if (e->getSubExpr() != nullptr) {
                a.push_back(Id(e->getSubExpr()));
                o["tt"] = Type(e->getSubExpr()->getType());
            }
            o["a"] = std::move(a);
        }
        else if (auto const* e = dyn_cast<ReturnStmt>(s)) {
            op = "ret";
            json::Array a;
            if (e->getRetValue() != nullptr) {
                a.push_back(Id(e->getRetValue()));
            }
            o["a"] = std::move(a);
        }
        else if (auto const* e = dyn_cast<LambdaExpr>(s)) {
            op = "lambda";
            if (e->getCallOperator() != nullptr) {
                o["fk"] = Key(e->getCallOperator());
            }
            json::Array caps;
            auto init = e->capture_init_begin();
            for (auto const& c : e->captures()) {
                json::Object co;
                if (c.capturesThis()) {
                    co["this"] = 1;
                    co["ref"] = c.getCaptureKind() == LCK_This ? 1 : 0;
                }
                else if (c.capturesVariable()) {
                    co["v"] = VarKey(c.getCapturedVar());
                    co["ref"] = c.getCaptureKind() == LCK_ByRef ? 1 : 0;
                }
                if (init != e->capture_init_end() && *init != nullptr) {
                    co["i"] = Id(*init);
                }
                if (init != e->capture_init_end()) {
                    ++init;
                }
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
        }
        else if (auto const* e = dyn_cast<DeclStmt>(s)) {
            op = "decl";
            json::Array ds;
            for (auto const* d : e->decls()) {
                if (auto const* v = dyn_cast<VarDecl>(d)) {
                    json::Object od;
                    od["v"] = VarKey(v);
                    od["t"] = Type(v->getType());
                    if (v->getType()->isReferenceType()) {
                        od["rf"] = 1;
                    }
                    if (v->getType().getNonReferenceType().isConstQualified()) {
                        od["cst"] = 1;
                    }
                    if (v->isStaticLocal()) {
                        od["st"] = v->getTLSKind() != clang::VarDecl::TLS_None ? 2 : 1;
                    }
                    if (v->hasInit()) {
                        od["i"] = Id(v->getInit());
                    }
                    if (auto const* de = dyn_cast<DecompositionDecl>(v)) {
                        json::Array bs;
                        for (auto const* b : de->bindings()) {
                            bs.push_back(VarKey(b));
                        }
                        od["bs"] = std::move(bs);
                    }
                    ds.push_back(std::move(od));
                }
            }
            o["d"] = std::move(ds);
        }
        else if (auto const* e = dyn_cast<CXXCatchStmt>(s)) {
            op = "catch";
            if (e->getCaughtType().isNull()) {
                o["ct"] = "...";
            }
            else {
                o["ct"] = e->getCaughtType()
                              .getNonReferenceType()
                              .getUnqualifiedType()
                              .getAsString(pp_);
                if (e->getExceptionDecl() != nullptr) {
                    o["v"] = VarKey(e->getExceptionDecl());
                }
            }
        }
        else if (auto const* e = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
            op = "sizeof";
            Expr::EvalResult r;
            if (!e->isValueDependent() && e->EvaluateAsInt(r, ctx_)) {
                o["val"] =
                    static_cast<int64_t>(r.Val.getInt().getLimitedValue());
            }
        }
        else {
            op = "x";
            o["k"] = s->getStmtClassName();
            json::Array a;
            if (isa<Expr>(s) && !isa<LambdaExpr>(s)) {
                for (auto const* c : s->children()) {
                    if (c != nullptr && isa<Expr>(c)) {
                        a.push_back(Id(c));
                    }
                }
            }
            o["a"] = std::move(a);
        }
        auto id = next_id_++;
        ids_[s] = id;
        o["i"] = id;
        o["op"] = op;
        o["l"] = Line(s->getBeginLoc());
        if (auto const* e = dyn_cast<Expr>(s)) {
            o["t"] = Type(e->getType());
            if (op == "call" || op == "ctor" || op == "throw" ||
                op == "new") {
                if (e->getType()->isVoidType()) {
                    o["vd"] = 1;
                }
            }
            if ((op == "ref" || op == "mem" || op == "bin" || op == "un" ||
                 op == "cast" || op == "call") &&
                !e->isValueDependent() && !e->isTypeDependent() &&
                e->getType()->isIntegralOrEnumerationType() &&
                o.find("val") == o.end()) {
                Expr::EvalResult r;
                if (e->EvaluateAsInt(r, ctx_, Expr::SE_NoSideEffects)) {
                    auto v = r.Val.getInt();
                    if (v.isRepresentableByInt64()) {
                        o["val"] = v.getExtValue();
                    }
                }
            }
        }
        if (auto it = try_of_.find(s); it != try_of_.end()) {
            o["try"] = it->second;
        }
        if (out_ != nullptr) {
            out_->push_back(std::move(o));
        }
        return id;
    }

    auto MarkTry(Stmt const* s, int cur, json::Array& tries) -> void {
        if (s == nullptr) {
            return;
        }
        if (cur >= 0) {
            try_of_[Strip(s)] = cur;
            try_of_[s] = cur;
        }
        if (auto const* t = dyn_cast<CXXTryStmt>(s)) {
            json::Array cts;
            for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
                auto const* h = t->getHandler(i);
                cts.push_back(h->getCaughtType().isNull()
                                  ? std::string{"..."}
                                  : h->getCaughtType()
                                        .getNonReferenceType()
                                        .getUnqualifiedType()
                                        .getAsString(pp_));
            }
            int idx = static_cast<int>(tries.size());
            tries.push_back(json::Object{{"p", cur},
                                         {"c", std::move(cts)},
                                         {"l", Line(t->getBeginLoc())}});
            MarkTry(t->getTryBlock(), idx, tries);
            for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
                MarkTry(t->getHandler(i), cur, tries);
            }
            return;
        }
        if (auto const* l = dyn_cast<LambdaExpr>(s)) {
            for (auto const* i : l->capture_inits()) {
                MarkTry(i, cur, tries);
            }
            return;  // the body is another function
        }
        if (auto const* d = dyn_cast<CXXDefaultArgExpr>(s)) {
            (void)d;
            return;
        }
        if (auto const* fr = dyn_cast<CXXForRangeStmt>(s)) {
            range_for_stmts_.push_back(fr);
        }
        for (auto const* c : s->children()) {
            MarkTry(c, cur, tries);
        }
    }
    std::vector<CXXForRangeStmt const*> range_for_stmts_;

    static auto Reaches(CFGBlock::AdjacentBlock const& b) -> int64_t {
        if (auto const* r = b.getReachableBlock()) {
            return r->getBlockID();
        }
        return -1;
    }

    auto DoFunction(FunctionDecl* f) -> void {
        if (f->isDependentContext() || !InRoot(f->getLocation()) ||
            f->isDefaulted() || f->isDeleted() || !done_.insert(f).second) {
            return;
        }
        Stmt* body = f->getBody();
        if (body == nullptr) {
            return;
        }
        auto key = Key(f);
        auto pos = File(f->getLocation()) + ":" +
                   std::to_string(Line(f->getLocation())) + ":" +
                   std::to_string(Col(f->getLocation()));
        if (!done_keys_.insert(key).second) {
            return;  // e.g. a lambda of another instantiation
        }
        ids_.clear();
        try_of_.clear();
        range_for_stmts_.clear();
        next_id_ = 0;

        json::Object fo;
        fo["u"] = key;
        fo["n"] = f->getNameAsString();
        fo["q"] = Qual(f);
        fo["f"] = File(f->getLocation());
        fo["l"] = Line(f->getLocation());
        fo["le"] = Line(f->getBodyRBrace());
        fo["ret"] = Type(f->getReturnType());
        if (auto const* proto = f->getType()->getAs<FunctionProtoType>()) {
            auto est = proto->getExceptionSpecType();
            fo["ne"] =
                !isUnresolvedExceptionSpec(est) && proto->isNothrow() ? 1 : 0;
        }
        json::Array ps;
        for (auto const* p : f->parameters()) {
            ps.push_back(json::Array{VarKey(p), p->getNameAsString(),
                                     Type(p->getType())});
        }
        fo["ps"] = std::move(ps);
        fo["kind"] = isa<CXXConstructorDecl>(f)  ? "ctor"
                     : isa<CXXDestructorDecl>(f) ? "dtor"
                     : isa<CXXMethodDecl>(f)     ? "method"
                                                 : "func";
        if (auto const* m = dyn_cast<CXXMethodDecl>(f)) {
            if (m->getParent()->isLambda()) {
                fo["kind"] = "lambda";
                DeclContext const* dc = m->getParent()->getDeclContext();
                while (dc != nullptr && !isa<FunctionDecl>(dc)) {
                    dc = dc->getParent();
                }
                if (dc != nullptr) {
                    fo["par"] = Key(cast<FunctionDecl>(dc));
                }
            }
            else {
                fo["cls"] = Qual(m->getParent());
            }
            if (m->isStatic()) {
                fo["st"] = 1;
            }
            if (m->isConst()) {
                fo["cst"] = 1;
            }
            if (m->isVirtual()) {
                fo["virt"] = 1;
                json::Array ov;
                for (auto const* b : m->overridden_methods()) {
                    ov.push_back(Key(b));
                }
                fo["ov"] = std::move(ov);
            }
            if (m->getAccess() == AS_private) {
                fo["priv"] = 1;
            }
        }
        if (f->isTemplateInstantiation()) {
            fo["ti"] = 1;
        }
        if (f->hasAttr<WarnUnusedResultAttr>()) {
            fo["nd"] = 1;
        }
        json::Array tries;
        MarkTry(body, -1, tries);
        if (auto const* c = dyn_cast<CXXConstructorDecl>(f)) {
            for (auto const* i : c->inits()) {
                MarkTry(i->getInit(), -1, tries);
            }
        }

        CFG::BuildOptions bo;
        bo.setAllAlwaysAdd();
        bo.AddEHEdges = true;
        bo.AddInitializers = true;
        bo.AddImplicitDtors = true;
        bo.AddTemporaryDtors = false;
        bo.PruneTriviallyFalseEdges = true;
        auto cfg = CFG::buildCFG(f, body, &ctx_, bo);
        if (cfg == nullptr) {
            fo["nocfg"] = 1;
            funcs_.push_back(std::move(fo));
            return;
        }
        // reverse post-order like emission, such that the operands of an
        // element that live in other blocks are emitted there
        std::vector<CFGBlock const*> order;
        std::set<CFGBlock const*> seen;
        std::vector<std::pair<CFGBlock const*, bool>> st;
        st.emplace_back(&cfg->getEntry(), false);
        while (!st.empty()) {
            auto [b, post] = st.back();
            st.pop_back();
            if (post) {
                order.push_back(b);
                continue;
            }
            if (!seen.insert(b).second) {
                continue;
            }
            st.emplace_back(b, true);
            for (auto const& s : b->succs()) {
                if (auto const* r = s.getReachableBlock()) {
                    st.emplace_back(r, false);
                }
            }
        }
        std::reverse(order.begin(), order.end());
        for (auto const* b : *cfg) {
            if (b != nullptr && seen.find(b) == seen.end()) {
                order.push_back(b);
            }
        }
        json::Array blocks;
        for (auto const* b : order) {
            json::Object bo2;
            json::Array elems;
            out_ = &elems;
            if (auto const* l = b->getLabel()) {
                if (auto const* c = dyn_cast<CXXCatchStmt>(l)) {
                    Emit(c);
                }
            }
            for (auto const& e : *b) {
                if (auto st = e.getAs<CFGStmt>()) {
                    Emit(st->getStmt());
                }
                else if (auto in = e.getAs<CFGInitializer>()) {
                    auto const* i = in->getInitializer();
                    json::Object o;
                    auto v = Id(i->getInit());
                    o["i"] = next_id_++;
                    o["op"] = "init";
                    if (i->isAnyMemberInitializer()) {
                        o["v"] = VarKey(i->getAnyMember());
                        o["m"] = i->getAnyMember()->getNameAsString();
                    }
                    if (i->isBaseInitializer()) {
                        o["base"] = 1;
                    }
                    o["l"] = Line(i->getSourceLocation());
                    o["a"] = json::Array{v};
                    elems.push_back(std::move(o));
                }
                else if (auto d = e.getAs<CFGAutomaticObjDtor>()) {
                    json::Object o;
                    o["i"] = next_id_++;
                    o["op"] = "dtor";
                    o["v"] = VarKey(d->getVarDecl());
                    o["t"] = Type(d->getVarDecl()->getType());
                    o["l"] = d->getTriggerStmt() != nullptr
                                 ? Line(d->getTriggerStmt()->getEndLoc())
                                 : 0;
                    if (auto const* dd = d->getDestructorDecl(ctx_)) {
                        o["fk"] = Key(dd);
                    }
                    elems.push_back(std::move(o));
                }
            }
            out_ = nullptr;
            auto const* t = b->getTerminatorStmt();
            if (t != nullptr) {
                out_ = &elems;
                json::Object to;
                to["k"] = t->getStmtClassName();
                to["l"] = Line(t->getBeginLoc());
                if (auto const* c = b->getTerminatorCondition(false)) {
                    to["c"] = Id(c);
                }
                if (auto const* bop = dyn_cast<BinaryOperator>(t)) {
                    to["k"] = bop->getOpcodeStr().str();
                }
                if (auto const* sw = dyn_cast<SwitchStmt>(t)) {
                    to["allenum"] = sw->isAllEnumCasesCovered() ? 1 : 0;
                }
                bo2["t"] = std::move(to);
                out_ = nullptr;
            }
            if (auto const* l = b->getLabel()) {
                if (auto const* c = dyn_cast<CaseStmt>(l)) {
                    json::Object lo;
                    lo["k"] = "case";
                    json::Array vals;
                    while (c != nullptr) {
                        Expr::EvalResult r;
                        if (c->getLHS() != nullptr &&
                            c->getLHS()->EvaluateAsInt(r, ctx_)) {
                            vals.push_back(static_cast<int64_t>(
                                r.Val.getInt().getLimitedValue()));
                        }
                        if (auto const* dr = dyn_cast<DeclRefExpr>(
                                c->getLHS()->IgnoreParenImpCasts())) {
                            lo["nm"] = VarKey(dr->getDecl());
                        }
                        else if (auto const* ce = dyn_cast<ConstantExpr>(
                                     c->getLHS())) {
                            if (auto const* dr2 = dyn_cast<DeclRefExpr>(
                                    ce->getSubExpr()->IgnoreParenImpCasts())) {
                                lo["nm"] = VarKey(dr2->getDecl());
                            }
                        }
                        c = dyn_cast<CaseStmt>(c->getSubStmt());
                        break;
                    }
                    lo["v"] = std::move(vals);
                    bo2["lb"] = std::move(lo);
                }
                else if (isa<DefaultStmt>(l)) {
                    bo2["lb"] = json::Object{{"k", "default"}};
                }
                else if (auto const* cs = dyn_cast<CXXCatchStmt>(l)) {
                    bo2["lb"] = json::Object{
                        {"k", "catch"},
                        {"ct",
                         cs->getCaughtType().isNull()
                             ? std::string{"..."}
                             : cs->getCaughtType()
                                   .getNonReferenceType()
                                   .getUnqualifiedType()
                                   .getAsString(pp_)}};
                }
            }
            json::Array succ;
            for (auto const& s : b->succs()) {
                succ.push_back(Reaches(s));
            }
            bo2["id"] = b->getBlockID();
            bo2["e"] = std::move(elems);
            bo2["s"] = std::move(succ);
            if (b->hasNoReturnElement()) {
                bo2["nr"] = 1;
            }
            blocks.push_back(std::move(bo2));
        }
        json::Array rf;
        for (auto const* s : range_for_stmts_) {
            json::Object o;
            o["l"] = Line(s->getBeginLoc());
            o["le"] = Line(s->getEndLoc());
            if (s->getLoopVariable() != nullptr) {
                o["v"] = VarKey(s->getLoopVariable());
            }
            auto const* ri = Strip(s->getRangeInit());
            auto it = ids_.find(ri);
            o["r"] = it == ids_.end() ? -1 : it->second;
            o["t"] = Type(s->getRangeInit()->getType());
            rf.push_back(std::move(o));
        }
        fo["rf"] = std::move(rf);
        fo["tries"] = std::move(tries);
        fo["en"] = cfg->getEntry().getBlockID();
        fo["ex"] = cfg->getExit().getBlockID();
        fo["b"] = std::move(blocks);
        (void)pos;
        funcs_.push_back(std::move(fo));
    }

    auto DoRecord(CXXRecordDecl* r) -> void {
        json::Array fields;
        for (auto const* f : r->fields()) {
            json::Object fo{{"n", f->getNameAsString()},
                            {"t", Type(f->getType())},
                            {"l", Line(f->getLocation())}};
            if (f->isMutable()) {
                fo["mut"] = 1;
            }
            if (f->getType().isConstQualified()) {
                fo["cst"] = 1;
            }
            if (f->hasInClassInitializer()) {
                fo["ini"] = 1;
            }
            fields.push_back(std::move(fo));
        }
        json::Array bases;
        for (auto const& b : r->bases()) {
            if (auto const* bd = b.getType()->getAsCXXRecordDecl()) {
                bases.push_back(Qual(bd));
            }
        }
        json::Array ms;
        for (auto const* m : r->methods()) {
            if (m->isImplicit()) {
                continue;
            }
            json::Object mo{{"n", m->getNameAsString()},
                            {"u", Key(m)},
                            {"l", Line(m->getLocation())}};
            if (m->isDefaulted()) {
                mo["def"] = 1;
            }
            if (m->isDeleted()) {
                mo["del"] = 1;
            }
            if (m->isPureVirtual()) {
                mo["pure"] = 1;
            }
            if (m->isVirtual()) {
                mo["virt"] = 1;
            }
            mo["acc"] = m->getAccess() == AS_public    ? "pub"
                        : m->getAccess() == AS_private ? "priv"
                                                       : "prot";
            if (auto const* c = dyn_cast<CXXConstructorDecl>(m)) {
                mo["ctor"] = c->isCopyConstructor()   ? "copy"
                             : c->isMoveConstructor() ? "move"
                                                      : "ctor";
            }
            ms.push_back(std::move(mo));
        }
        records_.push_back(json::Object{{"q", Qual(r)},
                                        {"f", File(r->getLocation())},
                                        {"l", Line(r->getLocation())},
                                        {"fields", std::move(fields)},
                                        {"bases", std::move(bases)},
                                        {"ms", std::move(ms)}});
    }

    auto DoVar(VarDecl* v) -> void {
        ids_.clear();
        try_of_.clear();
        next_id_ = 0;
        json::Array elems;
        out_ = &elems;
        auto root = Id(v->getInit());
        out_ = nullptr;
        vars_.push_back(json::Object{{"q", VarKey(v)},
                                     {"f", File(v->getLocation())},
                                     {"l", Line(v->getLocation())},
                                     {"t", Type(v->getType())},
                                     {"cx", v->isConstexpr() ? 1 : 0},
                                     {"root", root},
                                     {"e", std::move(elems)}});
    }
};

class Consumer : public ASTConsumer {
  public:
    explicit Consumer(CompilerInstance& ci) : sm_{ci.getSourceManager()} {}
    void HandleTranslationUnit(ASTContext& ctx) override {
        if (ctx.getDiagnostics().hasUncompilableErrorOccurred()) {
            return;
        }
        Extractor x{ctx};
        x.TraverseDecl(ctx.getTranslationUnitDecl());
        x.Finish();
    }
    bool shouldSkipFunctionBody(Decl* d) override {
        auto l = d->getLocation();
        if (l.isInvalid()) {
            return false;
        }
        auto f = sm_.getFilename(sm_.getExpansionLoc(l));
        for (auto const& r : g_roots) {
            if (f.starts_with(r)) {
                return false;
            }
        }
        // bodies that are needed for generic lambdas to be instantiated
        static char const* const kNeeded[] = {
            "/shared_ptr.h",   "/shared_ptr_base.h", "/alloc_traits.h",
            "/stl_construct.h", "/new_allocator.h",  "/std_function.h",
            "/unique_ptr.h",   "/stl_algo.h",        "/stl_algobase.h",
            "/predefined_ops.h", "/variant",         "/invoke.h",
            "/stl_numeric.h",  "/optional",          "/std_thread.h",
            "/thread",         "/future"};
        for (auto const* n : kNeeded) {
            if (f.ends_with(n)) {
                return false;
            }
        }
        return true;
    }

  private:
    SourceManager& sm_;
};

class Action : public ASTFrontendAction {
  public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci,
                                                   llvm::StringRef) override {
        ci.getFrontendOpts().SkipFunctionBodies = true;
        return std::make_unique<Consumer>(ci);
    }
};

}  // namespace

// usage: extract OUT STRIP ROOT[,ROOT...] FILE -- flags...
int main(int argc, char** argv) {
    if (argc < 5) {
        llvm::errs() << "usage: extract OUT STRIP ROOTS FILE -- flags\n";
        return 2;
    }
    g_out = argv[1];
    g_strip = argv[2];
    llvm::SmallVector<llvm::StringRef> rs;
    llvm::StringRef{argv[3]}.split(rs, ',');
    for (auto r : rs) {
        g_roots.push_back(r.str());
    }
    std::string file = argv[4];
    std::vector<std::string> flags;
    for (int i = 6; i < argc; ++i) {
        flags.emplace_back(argv[i]);
    }
    tooling::FixedCompilationDatabase db{".", flags};
    tooling::ClangTool tool{db, {file}};
    int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
    return rc == 0 ? 0 : 1;
}
