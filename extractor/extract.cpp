// AST exporter: parses a driver translation unit and writes, as JSON, the type-checked
// syntax tree (template instantiations included) of every function that is reachable from
// the driver and defined in the driver itself or below one of the given path prefixes.
#include <clang/AST/AST.h>
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/StmtCXX.h>
#include <clang/AST/RecordLayout.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>

#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> g_prefixes;
static std::string g_out;

namespace {

std::string norm(std::string s) {
    for (const char* pat : { "__cxx11::", "__1::", "_V2::" }) {
        size_t p;
        while ((p = s.find(pat)) != std::string::npos) s.erase(p, std::string(pat).size());
    }
    return s;
}

class Exporter {
public:
    explicit Exporter(ASTContext& ctx) : C(ctx), SM(ctx.getSourceManager()), PP(ctx.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
    }

    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;

    std::map<const FunctionDecl*, int> funcIds;
    std::deque<const FunctionDecl*> work;
    std::map<int, Object> funcs;
    std::map<const CXXRecordDecl*, int> recIds;
    std::vector<const CXXRecordDecl*> recs;
    std::deque<std::pair<int, const CXXRecordDecl*>> recWork;
    std::map<int, Object> recObjs;
    std::map<const void*, int> declIds;
    std::map<const void*, int> typeIds;
    std::vector<Object> types;
    std::map<std::string, int> fileIds;
    std::vector<std::string> files;
    std::map<int, Object> globals;
    int unsupported = 0;

    bool inScope(SourceLocation loc) {
        if (loc.isInvalid()) return false;
        loc = SM.getExpansionLoc(loc);
        if (SM.isInMainFile(loc)) return true;
        auto f = SM.getFilename(loc);
        for (auto& p : g_prefixes)
            if (f.starts_with(p)) return true;
        return false;
    }
    int fileId(SourceLocation loc) {
        if (loc.isInvalid()) return -1;
        std::string f = SM.getFilename(SM.getExpansionLoc(loc)).str();
        auto it = fileIds.find(f);
        if (it != fileIds.end()) return it->second;
        int id = files.size();
        files.push_back(f);
        return fileIds[f] = id;
    }
    int line(SourceLocation loc) { return loc.isInvalid() ? 0 : SM.getExpansionLineNumber(loc); }

    int declId(const Decl* d) {
        d = d->getCanonicalDecl();
        auto it = declIds.find(d);
        if (it != declIds.end()) return it->second;
        int id = declIds.size() + 1;
        return declIds[d] = id;
    }

    int typeId(QualType q) {
        if (q.isNull()) return -1;
        q = q.getCanonicalType();
        auto it = typeIds.find(q.getAsOpaquePtr());
        if (it != typeIds.end()) return it->second;
        int id = types.size();
        typeIds[q.getAsOpaquePtr()] = id;
        types.emplace_back();
        Object o;
        o["s"] = norm(q.getAsString(PP));
        if (q.isConstQualified()) o["const"] = true;
        const Type* t = q.getTypePtr();
        if (auto* r = dyn_cast<ReferenceType>(t)) {
            o["k"] = isa<RValueReferenceType>(t) ? "rref" : "ref";
            o["to"] = typeId(r->getPointeeType());
        } else if (auto* p = dyn_cast<PointerType>(t)) {
            o["k"] = "ptr";
            o["to"] = typeId(p->getPointeeType());
        } else if (t->isBooleanType()) {
            o["k"] = "bool";
        } else if (auto* e = dyn_cast<EnumType>(t)) {
            o["k"] = "enum";
            if (!e->getDecl()->getIntegerType().isNull()) {
                o["bits"] = (int64_t)C.getTypeSize(q);
                o["signed"] = t->isSignedIntegerOrEnumerationType();
                int64_t mx = 0;
                for (auto* c : e->getDecl()->enumerators()) mx = std::max(mx, c->getInitVal().getExtValue());
                o["max"] = mx;
            }
        } else if (t->isIntegerType()) {
            o["k"] = "int";
            o["bits"] = (int64_t)C.getTypeSize(q);
            o["signed"] = t->isSignedIntegerType();
        } else if (t->isFloatingType()) {
            o["k"] = "float";
        } else if (t->isVoidType()) {
            o["k"] = "void";
        } else if (t->isNullPtrType()) {
            o["k"] = "nullptr";
        } else if (auto* rd = t->getAsCXXRecordDecl()) {
            o["k"] = "rec";
            o["rec"] = recId(rd);
        } else if (auto* at = C.getAsArrayType(q)) {
            o["k"] = "array";
            o["to"] = typeId(at->getElementType());
            if (auto* ca = dyn_cast<ConstantArrayType>(at)) o["n"] = (int64_t)ca->getSize().getZExtValue();
        } else if (t->isFunctionType()) {
            o["k"] = "func";
            if (auto* fp = dyn_cast<FunctionProtoType>(t)) o["noexcept"] = fp->isNothrow();
        } else if (t->isMemberPointerType()) {
            o["k"] = "memptr";
        } else {
            o["k"] = "other";
        }
        types[id] = std::move(o);
        return id;
    }

    int recId(const CXXRecordDecl* rd) {
        if (auto* def = rd->getDefinition()) rd = def;
        else rd = rd->getCanonicalDecl();
        auto it = recIds.find(rd);
        if (it != recIds.end()) return it->second;
        int id = recs.size();
        recIds[rd] = id;
        recs.push_back(rd);
        recWork.emplace_back(id, rd);
        return id;
    }

    void exportRecord(int id, const CXXRecordDecl* rd) {
        Object o;
        o["id"] = id;
        o["name"] = rd->getNameAsString();
        o["q"] = norm(rd->getQualifiedNameAsString());
        o["full"] = norm(C.getTypeDeclType(rd).getCanonicalType().getAsString(PP));
        bool ins = inScope(rd->getLocation());
        o["scope"] = ins;
        o["file"] = fileId(rd->getLocation());
        o["line"] = line(rd->getLocation());
        if (rd->isLambda()) o["lambda"] = true;
        if (rd->isUnion()) o["union"] = true;
        if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
            Array args;
            exportTArgs(sp->getTemplateArgs().asArray(), args);
            o["targs"] = std::move(args);
        }
        if (auto* par = dyn_cast<CXXRecordDecl>(rd->getDeclContext())) o["outer"] = recId(par);
        if (rd->hasDefinition()) {
            o["defined"] = true;
            o["trivcopy"] = rd->isTriviallyCopyable();
            o["trivdtor"] = rd->hasTrivialDestructor();
            o["empty"] = rd->isEmpty();
            o["aggr"] = rd->isAggregate();
            o["poly"] = rd->isPolymorphic();
            o["udtor"] = rd->hasUserDeclaredDestructor();
            if (!rd->isDependentType() && !rd->isInvalidDecl()) {
                o["size"] = (int64_t)C.getTypeSizeInChars(C.getTypeDeclType(rd)).getQuantity();
                o["align"] = (int64_t)C.getTypeAlignInChars(C.getTypeDeclType(rd)).getQuantity();
            }
            Array fl;
            bool layout = !rd->isDependentType() && !rd->isInvalidDecl();
            for (auto* f : rd->fields()) {
                Object fo;
                fo["n"] = f->getNameAsString();
                fo["id"] = declId(f);
                fo["t"] = typeId(f->getType());
                fo["i"] = (int)f->getFieldIndex();
                fo["l"] = line(f->getLocation());
                if (f->isMutable()) fo["mutable"] = true;
                if (ins && f->hasInClassInitializer() && f->getInClassInitializer())
                    fo["init"] = expr(f->getInClassInitializer());
                if (layout && !f->isBitField())
                    fo["off"] = (int64_t)(C.getASTRecordLayout(rd).getFieldOffset(f->getFieldIndex()) / 8);
                fl.push_back(std::move(fo));
            }
            o["fields"] = std::move(fl);
            Array bl;
            for (auto& b : rd->bases())
                if (auto* brd = b.getType()->getAsCXXRecordDecl()) bl.push_back(recId(brd));
            o["bases"] = std::move(bl);
            if (auto* d = rd->getDestructor()) o["dtor"] = funcId(d);
            if (ins || rd->isLambda()) {
                Array ms;
                for (auto* d : rd->decls()) {
                    if (auto* m = dyn_cast<CXXMethodDecl>(d)) {
                        if (m->isDependentContext()) continue;
                        ms.push_back(funcId(m));
                    } else if (auto* ft = dyn_cast<FunctionTemplateDecl>(d)) {
                        for (auto* s : ft->specializations()) ms.push_back(funcId(s));
                    } else if (auto* v = dyn_cast<VarDecl>(d)) {
                        globalVar(v);
                    }
                }
                o["methods"] = std::move(ms);
            }
        }
        recObjs[id] = std::move(o);
    }

    void exportTArgs(llvm::ArrayRef<TemplateArgument> as, Array& out) {
        for (auto& a : as) {
            switch (a.getKind()) {
            case TemplateArgument::Type: out.push_back(Object{ { "t", typeId(a.getAsType()) } }); break;
            case TemplateArgument::Integral: out.push_back(Object{ { "v", (int64_t)a.getAsIntegral().getExtValue() } }); break;
            case TemplateArgument::Pack: {
                Array sub;
                exportTArgs(a.getPackAsArray(), sub);
                out.push_back(Object{ { "pack", std::move(sub) } });
                break;
            }
            default: out.push_back(Object{}); break;
            }
        }
    }

    int funcId(const FunctionDecl* f) {
        f = f->getCanonicalDecl();
        auto it = funcIds.find(f);
        if (it != funcIds.end()) return it->second;
        int id = funcIds.size() + 1;
        funcIds[f] = id;
        work.push_back(f);
        return id;
    }

    void exportFunc(const FunctionDecl* f) {
        int id = funcIds[f];
        Object o;
        o["id"] = id;
        o["name"] = f->getNameAsString();
        o["q"] = norm(f->getQualifiedNameAsString());
        Array ps;
        const FunctionDecl* def = nullptr;
        f->hasBody(def);
        const FunctionDecl* d = def ? def : f;
        for (auto* p : d->parameters())
            ps.push_back(Object{ { "id", declId(p) }, { "n", p->getNameAsString() }, { "t", typeId(p->getType()) } });
        o["params"] = std::move(ps);
        o["ret"] = typeId(f->getReturnType());
        if (f->isVariadic()) o["variadic"] = true;
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            o["rec"] = recId(m->getParent());
            if (m->isStatic()) o["static"] = true;
            if (m->isConst()) o["const"] = true;
            if (m->isVirtual()) {
                o["virtual"] = true;
                if (m->isPureVirtual()) o["pure"] = true;
                Array ov;
                for (auto* x : m->overridden_methods()) ov.push_back(funcId(x));
                o["overrides"] = std::move(ov);
            }
            if (auto* c = dyn_cast<CXXConstructorDecl>(m)) {
                o["kind"] = "ctor";
                if (c->isCopyConstructor()) o["special"] = "copyctor";
                else if (c->isMoveConstructor()) o["special"] = "movector";
                else if (c->isDefaultConstructor()) o["special"] = "defctor";
            } else if (isa<CXXDestructorDecl>(m)) {
                o["kind"] = "dtor";
            } else if (isa<CXXConversionDecl>(m)) {
                o["kind"] = "conv";
            } else {
                if (m->isCopyAssignmentOperator()) o["special"] = "copyassign";
                else if (m->isMoveAssignmentOperator()) o["special"] = "moveassign";
            }
            o["access"] = (int)m->getAccess();
        }
        if (f->isOverloadedOperator()) o["op"] = getOperatorSpelling(f->getOverloadedOperator());
        if (f->isDefaulted()) o["defaulted"] = true;
        if (f->isDeleted()) o["deleted"] = true;
        if (f->isTrivial()) o["trivial"] = true;
        if (f->isImplicit()) o["implicit"] = true;
        if (f->isConstexpr()) o["constexpr"] = true;
        if (auto* fp = f->getType()->getAs<FunctionProtoType>()) {
            auto est = fp->getExceptionSpecType();
            if (!isUnresolvedExceptionSpec(est)) {
                if (fp->isNothrow()) o["noexcept"] = true;
            } else {
                o["exspec_unresolved"] = true;
            }
        }
        if (auto* ta = f->getTemplateSpecializationArgs()) {
            Array args;
            exportTArgs(ta->asArray(), args);
            o["targs"] = std::move(args);
        }
        if (f->hasAttr<VisibilityAttr>()) o["visattr"] = (int)f->getAttr<VisibilityAttr>()->getVisibility();
        {
            auto lv = f->getLinkageAndVisibility();
            o["vis"] = (int)lv.getVisibility();
            o["visexplicit"] = lv.isVisibilityExplicit();
        }
        bool ins = inScope(d->getLocation());
        // constructors/operators synthesised for lambdas etc. are fine too
        o["scope"] = ins;
        o["file"] = fileId(d->getLocation());
        o["line"] = line(d->getLocation());
        if (ins && def && !def->isDependentContext()) {
            if (auto* c = dyn_cast<CXXConstructorDecl>(def)) {
                Array in;
                for (auto* i : c->inits()) {
                    Object io;
                    if (i->isAnyMemberInitializer()) {
                        io["f"] = i->getAnyMember()->getNameAsString();
                        io["fid"] = declId(i->getAnyMember());
                    } else if (i->isBaseInitializer()) {
                        if (auto* b = QualType(i->getBaseClass(), 0)->getAsCXXRecordDecl()) io["base"] = recId(b);
                    } else {
                        io["deleg"] = true;
                    }
                    io["written"] = i->isWritten();
                    io["l"] = line(i->getSourceLocation());
                    io["e"] = expr(i->getInit());
                    in.push_back(std::move(io));
                }
                o["inits"] = std::move(in);
            }
            if (auto* b = def->getBody()) o["body"] = stmt(b);
        }
        funcs[id] = std::move(o);
    }

    // ---- variables -------------------------------------------------------------------
    void globalVar(const VarDecl* v) {
        int id = declId(v);
        if (globals.count(id)) return;
        globals[id] = Object{};
        Object o;
        o["id"] = id;
        o["n"] = v->getNameAsString();
        o["q"] = norm(v->getQualifiedNameAsString());
        o["t"] = typeId(v->getType());
        o["scope"] = inScope(v->getLocation());
        o["file"] = fileId(v->getLocation());
        o["l"] = line(v->getLocation());
        if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
        if (auto* rd = dyn_cast<CXXRecordDecl>(v->getDeclContext())) o["rec"] = recId(rd);
        if (v->isStaticLocal()) o["staticlocal"] = true;
        if (auto* ts = dyn_cast<VarTemplateSpecializationDecl>(v)) {
            Array args;
            exportTArgs(ts->getTemplateArgs().asArray(), args);
            o["targs"] = std::move(args);
        }
        {
            auto lv = v->getLinkageAndVisibility();
            o["vis"] = (int)lv.getVisibility();
        }
        if (inScope(v->getLocation())) {
            const VarDecl* dv = v->getDefinition();
            if (!dv) dv = v;
            const Expr* in = dv->getAnyInitializer();
            if (in && !in->isTypeDependent() && !in->isValueDependent()) o["init"] = expr(in);
        }
        globals[id] = std::move(o);
    }

    Object varDecl(const VarDecl* v) {
        Object o;
        o["id"] = declId(v);
        o["n"] = v->getNameAsString();
        o["t"] = typeId(v->getType());
        o["l"] = line(v->getLocation());
        if (v->isStaticLocal()) o["static"] = true;
        if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
        if (v->isStaticLocal() || v->hasGlobalStorage()) globalVar(v);
        if (v->hasInit()) o["init"] = expr(v->getInit());
        if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
            Array bs;
            for (auto* b : dd->bindings()) {
                Object bo;
                bo["id"] = declId(b);
                bo["n"] = b->getNameAsString();
                if (auto* h = b->getHoldingVar()) {
                    bo["tuple"] = true;
                    bo["t"] = typeId(h->getType());
                } else if (b->getBinding()) {
                    bo["e"] = expr(b->getBinding());
                }
                bs.push_back(std::move(bo));
            }
            o["bindings"] = std::move(bs);
        }
        return o;
    }

    // ---- statements ------------------------------------------------------------------
    Value stmt(const Stmt* s) {
        if (!s) return nullptr;
        Object o;
        o["l"] = line(s->getBeginLoc());
        if (auto* e = dyn_cast<Expr>(s)) {
            return expr(e);
        }
        switch (s->getStmtClass()) {
        case Stmt::CompoundStmtClass: {
            o["k"] = "block";
            Array a;
            for (auto* c : cast<CompoundStmt>(s)->body()) a.push_back(stmt(c));
            o["b"] = std::move(a);
            return o;
        }
        case Stmt::DeclStmtClass: {
            o["k"] = "decl";
            Array a;
            for (auto* d : cast<DeclStmt>(s)->decls())
                if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v));
            o["v"] = std::move(a);
            return o;
        }
        case Stmt::IfStmtClass: {
            auto* i = cast<IfStmt>(s);
            o["k"] = "if";
            if (i->isConsteval()) {
                // runtime semantics: the non-consteval branch
                return stmt(i->isNegatedConsteval() ? i->getThen() : i->getElse());
            }
            if (i->getInit()) o["init"] = stmt(i->getInit());
            if (auto* cv = i->getConditionVariable()) o["cv"] = varDecl(cv);
            o["c"] = expr(i->getCond());
            if (i->isConstexpr()) {
                if (auto live = i->getNondiscardedCase(C)) {
                    Object b;
                    b["k"] = "block";
                    b["l"] = line(s->getBeginLoc());
                    Array a;
                    if (i->getInit()) a.push_back(stmt(i->getInit()));
                    if (*live) a.push_back(stmt(*live));
                    b["b"] = std::move(a);
                    return b;
                }
            }
            o["t"] = stmt(i->getThen());
            if (i->getElse()) o["e"] = stmt(i->getElse());
            return o;
        }
        case Stmt::ForStmtClass: {
            auto* f = cast<ForStmt>(s);
            o["k"] = "for";
            if (f->getInit()) o["init"] = stmt(f->getInit());
            if (f->getConditionVariable()) o["cv"] = varDecl(f->getConditionVariable());
            if (f->getCond()) o["c"] = expr(f->getCond());
            if (f->getInc()) o["inc"] = expr(f->getInc());
            o["b"] = stmt(f->getBody());
            return o;
        }
        case Stmt::WhileStmtClass: {
            auto* w = cast<WhileStmt>(s);
            o["k"] = "while";
            if (w->getConditionVariable()) o["cv"] = varDecl(w->getConditionVariable());
            o["c"] = expr(w->getCond());
            o["b"] = stmt(w->getBody());
            return o;
        }
        case Stmt::DoStmtClass: {
            auto* w = cast<DoStmt>(s);
            o["k"] = "do";
            o["c"] = expr(w->getCond());
            o["b"] = stmt(w->getBody());
            return o;
        }
        case Stmt::CXXForRangeStmtClass: {
            auto* r = cast<CXXForRangeStmt>(s);
            o["k"] = "rangefor";
            if (r->getInit()) o["init"] = stmt(r->getInit());
            if (auto* rs = r->getRangeStmt()) {
                auto* rv = cast<VarDecl>(rs->getSingleDecl());
                if (rv->hasInit()) {
                    o["range"] = expr(rv->getInit());
                    o["rt"] = typeId(rv->getType());
                }
            }
            if (auto* bs = r->getBeginStmt())
                if (auto* bv = dyn_cast<VarDecl>(bs->getSingleDecl())) {
                    if (bv->hasInit()) o["begin"] = expr(bv->getInit());
                    o["bv"] = declId(bv);
                }
            if (auto* es = r->getEndStmt())
                if (auto* ev = dyn_cast<VarDecl>(es->getSingleDecl()))
                {
                    if (ev->hasInit()) o["end"] = expr(ev->getInit());
                    o["ev"] = declId(ev);
                }
            if (r->getCond()) o["cond"] = expr(r->getCond());
            if (r->getInc()) o["inc"] = expr(r->getInc());
            if (r->getRangeStmt()) o["rv"] = declId(r->getRangeStmt()->getSingleDecl());
            o["var"] = varDecl(r->getLoopVariable());
            o["b"] = stmt(r->getBody());
            return o;
        }
        case Stmt::ReturnStmtClass: {
            o["k"] = "return";
            if (auto* v = cast<ReturnStmt>(s)->getRetValue()) o["e"] = expr(v);
            return o;
        }
        case Stmt::BreakStmtClass: o["k"] = "break"; return o;
        case Stmt::ContinueStmtClass: o["k"] = "continue"; return o;
        case Stmt::NullStmtClass: o["k"] = "null"; return o;
        case Stmt::SwitchStmtClass: {
            auto* w = cast<SwitchStmt>(s);
            o["k"] = "switch";
            if (w->getInit()) o["init"] = stmt(w->getInit());
            if (w->getConditionVariable()) o["cv"] = varDecl(w->getConditionVariable());
            o["c"] = expr(w->getCond());
            o["b"] = stmt(w->getBody());
            return o;
        }
        case Stmt::CaseStmtClass: {
            auto* c = cast<CaseStmt>(s);
            o["k"] = "case";
            o["c"] = expr(c->getLHS());
            o["b"] = stmt(c->getSubStmt());
            return o;
        }
        case Stmt::DefaultStmtClass: {
            o["k"] = "default";
            o["b"] = stmt(cast<DefaultStmt>(s)->getSubStmt());
            return o;
        }
        case Stmt::CXXTryStmtClass: {
            auto* t = cast<CXXTryStmt>(s);
            o["k"] = "try";
            o["b"] = stmt(t->getTryBlock());
            Array hs;
            for (unsigned i = 0; i < t->getNumHandlers(); i++) {
                auto* h = t->getHandler(i);
                Object ho;
                ho["t"] = h->getCaughtType().isNull() ? -1 : typeId(h->getCaughtType());
                if (h->getExceptionDecl()) ho["v"] = varDecl(h->getExceptionDecl());
                ho["b"] = stmt(h->getHandlerBlock());
                hs.push_back(std::move(ho));
            }
            o["h"] = std::move(hs);
            return o;
        }
        case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(s)->getSubStmt());
        case Stmt::LabelStmtClass: return stmt(cast<LabelStmt>(s)->getSubStmt());
        default:
            o["k"] = "unsupported";
            o["c"] = s->getStmtClassName();
            unsupported++;
            return o;
        }
    }

    // ---- expressions -----------------------------------------------------------------
    Value constNode(const Expr* e, const llvm::APSInt& v) {
        Object o;
        o["k"] = "int";
        o["t"] = typeId(e->getType());
        if (v.isSigned() ? v.getSignificantBits() <= 64 : v.getActiveBits() <= 63)
            o["v"] = v.isSigned() ? (int64_t)v.getSExtValue() : (int64_t)v.getZExtValue();
        else {
            llvm::SmallString<32> ss;
            v.toString(ss, 10);
            o["v"] = ss.str().str();
        }
        o["l"] = line(e->getBeginLoc());
        return o;
    }
    bool tryConst(const Expr* e, Value& out) {
        if (e->isValueDependent() || e->isTypeDependent()) return false;
        QualType t = e->getType();
        if (!t->isIntegralOrEnumerationType()) return false;
        if (!e->isPRValue()) return false;
        Expr::EvalResult r;
        if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) {
            out = constNode(e, r.Val.getInt());
            return true;
        }
        return false;
    }

    Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
        Array a;
        for (auto* x : r) a.push_back(expr(x));
        return a;
    }

    Value expr(const Expr* e) {
        if (!e) return nullptr;
        Object o;
        o["l"] = line(e->getExprLoc());
        o["t"] = typeId(e->getType());
        if (e->isGLValue()) o["lv"] = true;
        switch (e->getStmtClass()) {
        case Stmt::ParenExprClass: return expr(cast<ParenExpr>(e)->getSubExpr());
        case Stmt::ExprWithCleanupsClass: {
            auto* ec = cast<ExprWithCleanups>(e);
            return expr(ec->getSubExpr());
        }
        case Stmt::MaterializeTemporaryExprClass: {
            auto* m = cast<MaterializeTemporaryExpr>(e);
            o["k"] = "mat";
            if (m->getExtendingDecl()) o["ext"] = true;
            o["e"] = expr(m->getSubExpr());
            return o;
        }
        case Stmt::CXXBindTemporaryExprClass: return expr(cast<CXXBindTemporaryExpr>(e)->getSubExpr());
        case Stmt::ConstantExprClass: {
            Value v(nullptr);
            if (tryConst(e, v)) return v;
            return expr(cast<ConstantExpr>(e)->getSubExpr());
        }
        case Stmt::SubstNonTypeTemplateParmExprClass:
            return expr(cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement());
        case Stmt::CXXDefaultArgExprClass: return expr(cast<CXXDefaultArgExpr>(e)->getExpr());
        case Stmt::CXXDefaultInitExprClass: return expr(cast<CXXDefaultInitExpr>(e)->getExpr());
        case Stmt::CXXRewrittenBinaryOperatorClass:
            return expr(cast<CXXRewrittenBinaryOperator>(e)->getSemanticForm());
        case Stmt::OpaqueValueExprClass: return expr(cast<OpaqueValueExpr>(e)->getSourceExpr());
        case Stmt::CXXFoldExprClass: o["k"] = "unsupported"; o["c"] = "fold"; unsupported++; return o;
        case Stmt::IntegerLiteralClass:
        case Stmt::CharacterLiteralClass:
        case Stmt::CXXBoolLiteralExprClass:
        case Stmt::UnaryExprOrTypeTraitExprClass:
        case Stmt::CXXNoexceptExprClass:
        case Stmt::TypeTraitExprClass:
        case Stmt::SizeOfPackExprClass:
        case Stmt::RequiresExprClass:
        case Stmt::ConceptSpecializationExprClass: {
            Value v(nullptr);
            if (tryConst(e, v)) return v;
            o["k"] = "opaque";
            o["c"] = e->getStmtClassName();
            return o;
        }
        case Stmt::FloatingLiteralClass: o["k"] = "float"; return o;
        case Stmt::StringLiteralClass:
            o["k"] = "str";
            if (cast<StringLiteral>(e)->getCharByteWidth() == 1) o["v"] = llvm::json::fixUTF8(cast<StringLiteral>(e)->getString());
            return o;
        case Stmt::PredefinedExprClass: o["k"] = "str"; return o;
        case Stmt::CXXNullPtrLiteralExprClass:
        case Stmt::GNUNullExprClass: o["k"] = "null_p"; return o;
        case Stmt::CXXThisExprClass: o["k"] = "this"; return o;
        case Stmt::DeclRefExprClass: {
            auto* d = cast<DeclRefExpr>(e)->getDecl();
            if (auto* f = dyn_cast<FunctionDecl>(d)) {
                o["k"] = "fn";
                o["f"] = funcId(f);
                return o;
            }
            if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
                auto v = constNode(e, ec->getInitVal());
                v.getAsObject()->operator[]("en") = ec->getNameAsString();
                return v;
            }
            if (auto* tp = dyn_cast<TemplateParamObjectDecl>(d)) {
                o["k"] = "opaque";
                o["c"] = "tpo";
                return o;
            }
            o["k"] = "var";
            o["d"] = declId(d);
            o["n"] = d->getNameAsString();
            if (auto* v = dyn_cast<VarDecl>(d)) {
                if (v->hasGlobalStorage()) {
                    globalVar(v);
                    o["g"] = true;
                }
                o["dt"] = typeId(v->getType());
            }
            if (auto* b = dyn_cast<BindingDecl>(d)) o["bind"] = true;
            if (cast<DeclRefExpr>(e)->refersToEnclosingVariableOrCapture()) o["cap"] = true;
            return o;
        }
        case Stmt::MemberExprClass: {
            auto* m = cast<MemberExpr>(e);
            auto* d = m->getMemberDecl();
            if (auto* f = dyn_cast<FunctionDecl>(d)) {
                o["k"] = "memfn";
                o["f"] = funcId(f);
                o["b"] = expr(m->getBase());
                o["arrow"] = m->isArrow();
                return o;
            }
            if (auto* v = dyn_cast<VarDecl>(d)) {
                o["k"] = "var";
                o["d"] = declId(v);
                o["n"] = v->getNameAsString();
                o["g"] = true;
                globalVar(v);
                return o;
            }
            if (auto* ec = dyn_cast<EnumConstantDecl>(d)) return constNode(e, ec->getInitVal());
            o["k"] = "mem";
            o["f"] = d->getNameAsString();
            o["fid"] = declId(d);
            o["b"] = expr(m->getBase());
            if (m->isArrow()) o["arrow"] = true;
            return o;
        }
        case Stmt::ArraySubscriptExprClass: {
            auto* a = cast<ArraySubscriptExpr>(e);
            o["k"] = "idx";
            o["b"] = expr(a->getBase());
            o["i"] = expr(a->getIdx());
            return o;
        }
        case Stmt::CXXMemberCallExprClass: {
            auto* c = cast<CXXMemberCallExpr>(e);
            auto* callee = c->getCallee()->IgnoreParens();
            if (auto* m = dyn_cast<MemberExpr>(callee)) {
                o["k"] = "call";
                o["f"] = funcId(cast<FunctionDecl>(m->getMemberDecl()));
                o["obj"] = expr(m->getBase());
                if (m->isArrow()) o["arrow"] = true;
                auto* md = dyn_cast<CXXMethodDecl>(m->getMemberDecl());
                if (md && md->isVirtual() && !m->hasQualifier()) o["virt"] = true;
                o["a"] = exprs(c->arguments());
                return o;
            }
            if (isa<CXXPseudoDestructorExpr>(callee)) {
                o["k"] = "pdtor";
                return o;
            }
            o["k"] = "icall";
            o["fn"] = expr(callee);
            o["a"] = exprs(c->arguments());
            return o;
        }
        case Stmt::CXXOperatorCallExprClass: {
            auto* c = cast<CXXOperatorCallExpr>(e);
            auto* f = c->getDirectCallee();
            if (!f) {
                o["k"] = "unsupported";
                unsupported++;
                return o;
            }
            o["k"] = "call";
            o["f"] = funcId(f);
            Array a;
            unsigned i = 0;
            auto* md = dyn_cast<CXXMethodDecl>(f);
            if (md) {
                if (!md->isStatic()) o["obj"] = expr(c->getArg(0));
                i = 1;
            }
            for (; i < c->getNumArgs(); i++) a.push_back(expr(c->getArg(i)));
            o["a"] = std::move(a);
            o["opcall"] = true;
            if (c->isAssignmentOp()) o["asg"] = true;
            return o;
        }
        case Stmt::CallExprClass:
        case Stmt::UserDefinedLiteralClass: {
            auto* c = cast<CallExpr>(e);
            auto* f = c->getDirectCallee();
            auto* callee = c->getCallee()->IgnoreParens();
            if (isa<CXXPseudoDestructorExpr>(callee)) {
                o["k"] = "pdtor";
                return o;
            }
            if (f) {
                Value v(nullptr);
                if ((f->getBuiltinID() || (f->isConstexpr() && c->getNumArgs() == 0)) && tryConst(e, v)) return v;
                o["k"] = "call";
                o["f"] = funcId(f);
                o["a"] = exprs(c->arguments());
                // static member through an object
                return o;
            }
            o["k"] = "icall";
            o["fn"] = expr(c->getCallee());
            o["a"] = exprs(c->arguments());
            return o;
        }
        case Stmt::CXXConstructExprClass:
        case Stmt::CXXTemporaryObjectExprClass: {
            auto* c = cast<CXXConstructExpr>(e);
            if (c->isElidable() && c->getNumArgs() >= 1) {
                // guaranteed/permitted elision: value of the argument
            }
            o["k"] = "ctor";
            o["f"] = funcId(c->getConstructor());
            o["rec"] = recId(c->getConstructor()->getParent());
            if (c->isElidable()) o["elide"] = true;
            if (c->isListInitialization()) o["li"] = true;
            if (c->requiresZeroInitialization()) o["zi"] = true;
            if (isa<CXXTemporaryObjectExpr>(e)) o["tmp"] = true;
            Array a;
            for (auto* x : c->arguments()) a.push_back(expr(x));
            o["a"] = std::move(a);
            return o;
        }
        case Stmt::CXXInheritedCtorInitExprClass: {
            auto* c = cast<CXXInheritedCtorInitExpr>(e);
            o["k"] = "ctor";
            o["f"] = funcId(c->getConstructor());
            o["rec"] = recId(c->getConstructor()->getParent());
            o["a"] = Array{};
            o["inherited"] = true;
            return o;
        }
        case Stmt::CXXNewExprClass: {
            auto* n = cast<CXXNewExpr>(e);
            o["k"] = "new";
            o["at"] = typeId(n->getAllocatedType());
            Array p;
            for (auto* x : n->placement_arguments()) p.push_back(expr(x));
            o["place"] = std::move(p);
            if (n->isArray() && n->getArraySize()) o["n"] = expr(*n->getArraySize());
            if (n->getInitializer()) o["init"] = expr(n->getInitializer());
            return o;
        }
        case Stmt::CXXDeleteExprClass: {
            auto* d = cast<CXXDeleteExpr>(e);
            o["k"] = "delete";
            o["e"] = expr(d->getArgument());
            if (d->isArrayForm()) o["array"] = true;
            return o;
        }
        case Stmt::InitListExprClass: {
            auto* il = cast<InitListExpr>(e);
            if (!il->isSemanticForm() && il->getSemanticForm()) il = il->getSemanticForm();
            if (il->isTransparent() && il->getNumInits() == 1) return expr(il->getInit(0));
            o["k"] = "initlist";
            Array a;
            for (auto* x : il->inits()) a.push_back(expr(x));
            o["a"] = std::move(a);
            if (auto* rd = e->getType()->getAsCXXRecordDecl()) o["rec"] = recId(rd);
            return o;
        }
        case Stmt::CXXParenListInitExprClass: {
            auto* il = cast<CXXParenListInitExpr>(e);
            o["k"] = "initlist";
            Array a;
            for (auto* x : il->getInitExprs()) a.push_back(expr(x));
            o["a"] = std::move(a);
            if (auto* rd = e->getType()->getAsCXXRecordDecl()) o["rec"] = recId(rd);
            return o;
        }
        case Stmt::CXXStdInitializerListExprClass: {
            o["k"] = "stdil";
            o["e"] = expr(cast<CXXStdInitializerListExpr>(e)->getSubExpr());
            return o;
        }
        case Stmt::ImplicitValueInitExprClass:
        case Stmt::CXXScalarValueInitExprClass: o["k"] = "zero"; return o;
        case Stmt::LambdaExprClass: {
            auto* l = cast<LambdaExpr>(e);
            o["k"] = "lambda";
            o["rec"] = recId(l->getLambdaClass());
            Array caps;
            auto ci = l->capture_init_begin();
            auto fi = l->getLambdaClass()->field_begin();
            for (auto& c : l->captures()) {
                Object co;
                if (c.capturesThis()) {
                    co["this"] = true;
                    if (c.getCaptureKind() == LCK_StarThis) co["copy"] = true;
                } else if (c.capturesVariable()) {
                    co["d"] = declId(c.getCapturedVar());
                    co["n"] = c.getCapturedVar()->getNameAsString();
                    co["ref"] = c.getCaptureKind() == LCK_ByRef;
                }
                if (*ci) co["e"] = expr(*ci);
                if (fi != l->getLambdaClass()->field_end()) { co["ft"] = typeId(fi->getType()); ++fi; }
                caps.push_back(std::move(co));
                ++ci;
            }
            o["caps"] = std::move(caps);
            Array calls;
            if (auto* gt = l->getLambdaClass()->getDependentLambdaCallOperator()) {
                for (auto* s : gt->specializations()) calls.push_back(funcId(s));
            } else {
                calls.push_back(funcId(l->getCallOperator()));
            }
            o["calls"] = std::move(calls);
            return o;
        }
        case Stmt::UnaryOperatorClass: {
            auto* u = cast<UnaryOperator>(e);
            Value v(nullptr);
            if (tryConst(e, v)) return v;
            o["k"] = "un";
            o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
            if (u->isPostfix()) o["post"] = true;
            o["e"] = expr(u->getSubExpr());
            return o;
        }
        case Stmt::BinaryOperatorClass:
        case Stmt::CompoundAssignOperatorClass: {
            auto* b = cast<BinaryOperator>(e);
            Value v(nullptr);
            if (!b->isAssignmentOp() && !b->isCommaOp() && tryConst(e, v)) return v;
            o["k"] = "bin";
            o["op"] = b->getOpcodeStr().str();
            o["a"] = expr(b->getLHS());
            o["b"] = expr(b->getRHS());
            if (auto* ca = dyn_cast<CompoundAssignOperator>(b)) {
                o["ct"] = typeId(ca->getComputationResultType());
            }
            return o;
        }
        case Stmt::ConditionalOperatorClass: {
            auto* c = cast<ConditionalOperator>(e);
            Value v(nullptr);
            if (tryConst(e, v)) return v;
            o["k"] = "cond";
            o["c"] = expr(c->getCond());
            o["a"] = expr(c->getTrueExpr());
            o["b"] = expr(c->getFalseExpr());
            return o;
        }
        case Stmt::BinaryConditionalOperatorClass: {
            auto* c = cast<BinaryConditionalOperator>(e);
            o["k"] = "cond";
            o["c"] = expr(c->getCommon());
            o["a"] = expr(c->getCommon());
            o["b"] = expr(c->getFalseExpr());
            return o;
        }
        case Stmt::CXXThrowExprClass: {
            o["k"] = "throw";
            if (auto* s = cast<CXXThrowExpr>(e)->getSubExpr()) {
                o["e"] = expr(s);
                o["tt"] = typeId(s->getType());
            }
            return o;
        }
        case Stmt::CXXTypeidExprClass: o["k"] = "opaque"; o["c"] = "typeid"; return o;
        default: break;
        }
        if (auto* c = dyn_cast<CastExpr>(e)) {
            Value v(nullptr);
            if (c->getCastKind() != CK_LValueToRValue && tryConst(e, v)) return v;
            if (c->getCastKind() == CK_LValueToRValue) {
                // compile-time constants (constexpr variables, template parameters)
                if (tryConst(e, v)) return v;
            }
            switch (c->getCastKind()) {
            case CK_NoOp:
            case CK_FunctionToPointerDecay:
            case CK_UserDefinedConversion:
            case CK_ConstructorConversion:
            case CK_BuiltinFnToFnPtr: {
                Value in = expr(c->getSubExpr());
                if (auto* io = in.getAsObject()) (*io)["t"] = typeId(e->getType());
                return in;
            }
            case CK_LValueToRValue: o["k"] = "load"; break;
            default:
                o["k"] = "cast";
                o["ck"] = c->getCastKindName();
                break;
            }
            o["e"] = expr(c->getSubExpr());
            if (isa<ExplicitCastExpr>(c)) o["explicit"] = true;
            return o;
        }
        o["k"] = "unsupported";
        o["c"] = e->getStmtClassName();
        unsupported++;
        return o;
    }

    void run(const TranslationUnitDecl* tu) {
        // seeds: every function defined in the main file, every record of the scope
        std::deque<const DeclContext*> dcs{ tu };
        while (!dcs.empty()) {
            auto* dc = dcs.front();
            dcs.pop_front();
            for (auto* d : dc->decls()) {
                if (!inScope(d->getLocation()) && !isa<NamespaceDecl>(d) && !isa<LinkageSpecDecl>(d)) continue;
                if (auto* f = dyn_cast<FunctionDecl>(d)) {
                    if (!f->isDependentContext() && f->hasBody()) funcId(f);
                } else if (auto* ft = dyn_cast<FunctionTemplateDecl>(d)) {
                    for (auto* s : ft->specializations()) funcId(s);
                } else if (auto* r = dyn_cast<CXXRecordDecl>(d)) {
                    if (!r->isDependentContext() && r->hasDefinition()) recId(r);
                } else if (auto* ct = dyn_cast<ClassTemplateDecl>(d)) {
                    for (auto* s : ct->specializations())
                        if (s->hasDefinition()) recId(s);
                } else if (auto* v = dyn_cast<VarDecl>(d)) {
                    if (!v->getDeclContext()->isDependentContext() && !isa<VarTemplatePartialSpecializationDecl>(v)) globalVar(v);
                } else if (auto* n = dyn_cast<NamespaceDecl>(d)) {
                    if (n->getName() != "std" && !n->getName().starts_with("__")) dcs.push_back(n);
                }
            }
        }
        while (!work.empty() || !recWork.empty()) {
            if (!work.empty()) {
                auto* f = work.front();
                work.pop_front();
                exportFunc(f);
            } else {
                auto [id, r] = recWork.front();
                recWork.pop_front();
                exportRecord(id, r);
            }
        }
    }

    void write() {
        std::error_code ec;
        llvm::raw_fd_ostream os(g_out, ec);
        Object root;
        Array fa;
        for (auto& f : files) fa.push_back(f);
        root["files"] = std::move(fa);
        Array ta;
        for (auto& t : types) ta.push_back(std::move(t));
        root["types"] = std::move(ta);
        Array ra;
        for (auto& [id, r] : recObjs) ra.push_back(std::move(r));
        root["records"] = std::move(ra);
        Array fu;
        for (auto& [id, f] : funcs) fu.push_back(std::move(f));
        root["funcs"] = std::move(fu);
        Array ga;
        for (auto& [id, g] : globals) ga.push_back(std::move(g));
        root["globals"] = std::move(ga);
        root["unsupported"] = unsupported;
        os << Value(std::move(root));
    }
};

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext& ctx) override {
        if (ctx.getDiagnostics().hasErrorOccurred()) return;
        Exporter ex(ctx);
        ex.run(ctx.getTranslationUnitDecl());
        ex.write();
    }
};
class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, llvm::StringRef) override {
        return std::make_unique<Consumer>();
    }
};

} // namespace

// usage: extract OUT.json prefix[,prefix...] file.cpp -- compiler args
int main(int argc, char** argv) {
    if (argc < 5) return 2;
    g_out = argv[1];
    std::string p = argv[2];
    size_t pos = 0;
    while (pos != std::string::npos) {
        size_t n = p.find(',', pos);
        g_prefixes.push_back(p.substr(pos, n == std::string::npos ? n : n - pos));
        pos = n == std::string::npos ? n : n + 1;
    }
    std::string file = argv[3];
    std::vector<std::string> args{ "clang++" };
    for (int i = 5; i < argc; i++) args.push_back(argv[i]);
    args.push_back("-fsyntax-only");
    args.push_back(file);
    IntrusiveRefCntPtr<FileManager> fm(new FileManager(FileSystemOptions()));
    tooling::ToolInvocation inv(args, std::make_unique<Action>(), fm.get());
    return inv.run() ? 0 : 1;
}
