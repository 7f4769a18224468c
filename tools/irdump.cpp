// irdump: normalise an LLVM module and dump it as JSON for the analyses in lib/.
//
//   irdump IN.bc OUT.json --root REGEX --opaque FILE [--passes PIPE] [--nounwind]
//
// * functions whose demangled name matches a line (regex) of FILE are turned
//   into declarations (they become events / uninterpreted operations);
// * functions whose (mangled or demangled) name matches REGEX are roots: kept and dumped;
// * everything else is force-inlined;
// * the PIPE (an `opt -passes` string) is run;
// * what is left of the roots is dumped, operands and debug locations resolved.
#include "llvm/ADT/STLExtras.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <regex>
#include <set>
#include <fstream>
#include <string>
using namespace llvm;
namespace js = llvm::json;

static std::string dem(StringRef n) { return llvm::demangle(n.str()); }

static std::string tyStr(Type* t)
{
    std::string s;
    raw_string_ostream o(s);
    t->print(o, false, true);
    return s;
}

struct Dumper
{
    const DataLayout& DL;
    std::map<const Value*, int> ids;
    std::map<const BasicBlock*, int> bbs;

    js::Value opnd(const Value* v)
    {
        if (auto* b = dyn_cast<BasicBlock>(v))
            return js::Array{"b", bbs[b]};
        if (auto* a = dyn_cast<Argument>(v))
            return js::Array{"a", (int)a->getArgNo()};
        if (isa<Instruction>(v))
            return js::Array{"i", ids.at(v)};
        if (auto* c = dyn_cast<ConstantInt>(v))
        {
            if (c->getBitWidth() <= 64)
                return js::Array{"c", c->getSExtValue(), (int)c->getBitWidth()};
            SmallString<40> s;
            c->getValue().toStringSigned(s);
            return js::Array{"cbig", std::string(s.str()), (int)c->getBitWidth()};
        }
        if (auto* c = dyn_cast<ConstantFP>(v))
        {
            APFloat f = c->getValueAPF();
            bool lose;
            if (&f.getSemantics() == &APFloat::x87DoubleExtended() ||
                &f.getSemantics() == &APFloat::IEEEquad())
            {
                SmallString<40> s;
                f.toString(s);
                return js::Array{"f", std::string(s.str()), tyStr(v->getType())};
            }
            f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose);
            char buf[64];
            double d = f.convertToDouble();
            snprintf(buf, sizeof buf, "%a", d);
            return js::Array{"f", std::string(buf), tyStr(v->getType())};
        }
        if (isa<ConstantPointerNull>(v))
            return js::Array{"null"};
        if (isa<UndefValue>(v))
            return js::Array{"undef", tyStr(v->getType())};
        if (auto* g = dyn_cast<GlobalValue>(v))
            return js::Array{"g", g->getName().str(), dem(g->getName())};
        if (isa<ConstantAggregateZero>(v))
            return js::Array{"zero", tyStr(v->getType())};
        if (auto* ce = dyn_cast<ConstantExpr>(v))
        {
            if (auto* gep = dyn_cast<GEPOperator>(ce))
            {
                APInt off(DL.getIndexTypeSizeInBits(gep->getType()), 0);
                if (gep->accumulateConstantOffset(DL, off))
                    return js::Array{"gep", opnd(gep->getPointerOperand()), off.getSExtValue()};
            }
            std::string s;
            raw_string_ostream o(s);
            ce->print(o);
            return js::Array{"ce", s};
        }
        if (auto* cv = dyn_cast<ConstantDataSequential>(v))
        {
            js::Array a;
            for (unsigned i = 0; i < cv->getNumElements(); ++i)
                a.push_back(opnd(cv->getElementAsConstant(i)));
            return js::Array{"agg", std::move(a)};
        }
        if (auto* ca = dyn_cast<ConstantAggregate>(v))
        {
            js::Array a;
            for (auto& o : ca->operands()) a.push_back(opnd(o.get()));
            return js::Array{"agg", std::move(a)};
        }
        if (isa<InlineAsm>(v))
            return js::Array{"asm"};
        if (isa<MetadataAsValue>(v))
            return js::Array{"md"};
        std::string s;
        raw_string_ostream o(s);
        v->printAsOperand(o);
        return js::Array{"x", s};
    }

    js::Value loc(const Instruction& I)
    {
        js::Array out;
        const DILocation* l = I.getDebugLoc().get();
        while (l)
        {
            std::string f = l->getFilename().str();
            std::string fn;
            if (auto* sp = l->getScope()->getSubprogram())
                fn = sp->getName().str();
            out.push_back(js::Array{f, (int)l->getLine(), fn});
            l = l->getInlinedAt();
        }
        return out;
    }

    js::Value inst(const Instruction& I)
    {
        js::Object o;
        o["id"] = ids[&I];
        o["op"] = I.getOpcodeName();
        o["ty"] = tyStr(I.getType());
        js::Array ops;
        if (auto* p = dyn_cast<PHINode>(&I))
        {
            for (unsigned k = 0; k < p->getNumIncomingValues(); ++k)
                ops.push_back(js::Array{opnd(p->getIncomingValue(k)), bbs[p->getIncomingBlock(k)]});
        }
        else if (auto* cb = dyn_cast<CallBase>(&I))
        {
            for (auto& a : cb->args()) ops.push_back(opnd(a.get()));
            js::Array tys;
            for (auto& a : cb->args()) tys.push_back(tyStr(a->getType()));
            o["atys"] = std::move(tys);
            if (auto* f = cb->getCalledFunction())
            {
                o["fn"] = f->getName().str();
                o["dfn"] = dem(f->getName());
            }
            else
            {
                auto* cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto* f2 = dyn_cast<Function>(cv))
                {
                    o["fn"] = f2->getName().str();
                    o["dfn"] = dem(f2->getName());
                }
                else
                    o["callee"] = opnd(cb->getCalledOperand());
            }
            if (cb->doesNotReturn())
                o["noret"] = true;
            if (auto* iv = dyn_cast<InvokeInst>(&I))
            {
                o["normal"] = bbs[iv->getNormalDest()];
                o["unwind"] = bbs[iv->getUnwindDest()];
            }
        }
        else
        {
            for (auto& a : I.operands()) ops.push_back(opnd(a.get()));
        }
        o["ops"] = std::move(ops);
        if (auto* c = dyn_cast<CmpInst>(&I))
        {
            o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
            o["cty"] = tyStr(c->getOperand(0)->getType());
        }
        if (auto* ca = dyn_cast<CastInst>(&I))
            o["src"] = tyStr(ca->getSrcTy());
        if (auto* g = dyn_cast<GEPOperator>(&I))
        {
            APInt off(DL.getIndexTypeSizeInBits(g->getType()), 0);
            MapVector<Value*, APInt> var;
            if (g->collectOffset(DL, DL.getIndexTypeSizeInBits(g->getType()), var, off))
            {
                o["off"] = off.getSExtValue();
                js::Array vv;
                for (auto& p : var) vv.push_back(js::Array{opnd(p.first), p.second.getSExtValue()});
                o["var"] = std::move(vv);
            }
        }
        if (auto* s = dyn_cast<StoreInst>(&I))
        {
            o["sty"] = tyStr(s->getValueOperand()->getType());
            if (s->isAtomic())
                o["atomic"] = true;
            o["ssz"] = (int64_t)DL.getTypeStoreSize(s->getValueOperand()->getType());
        }
        if (auto* l = dyn_cast<LoadInst>(&I))
            o["lsz"] = (int64_t)DL.getTypeStoreSize(l->getType());
        if (auto* al = dyn_cast<AllocaInst>(&I))
        {
            o["aty"] = tyStr(al->getAllocatedType());
            o["asz"] = (int64_t)DL.getTypeAllocSize(al->getAllocatedType());
        }
        if (auto* ev = dyn_cast<ExtractValueInst>(&I))
        {
            js::Array ix;
            for (auto i : ev->indices()) ix.push_back((int)i);
            o["ix"] = std::move(ix);
        }
        if (auto* ev = dyn_cast<InsertValueInst>(&I))
        {
            js::Array ix;
            for (auto i : ev->indices()) ix.push_back((int)i);
            o["ix"] = std::move(ix);
        }
        if (auto* lp = dyn_cast<LandingPadInst>(&I))
        {
            o["cleanup"] = lp->isCleanup();
            js::Array cl;
            for (unsigned k = 0; k < lp->getNumClauses(); ++k)
                cl.push_back(js::Array{lp->isCatch(k) ? "catch" : "filter", opnd(lp->getClause(k))});
            o["clauses"] = std::move(cl);
        }
        if (auto* sw = dyn_cast<SwitchInst>(&I))
        {
            js::Array cs;
            for (auto& c : sw->cases())
                cs.push_back(js::Array{c.getCaseValue()->getSExtValue(), bbs[c.getCaseSuccessor()]});
            o["cases"] = std::move(cs);
            o["def"] = bbs[sw->getDefaultDest()];
        }
        o["loc"] = loc(I);
        return o;
    }

    // scalar pieces of a constant: [offset, size, operand, type]
    void pieces(const Constant* c, int64_t off, js::Array& out, unsigned& n)
    {
        if (++n > 20000)
            return;
        Type* t = c->getType();
        if (auto* st = dyn_cast<StructType>(t))
        {
            if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c))
            {
                out.push_back(js::Array{off, (int64_t)DL.getTypeStoreSize(t), js::Array{isa<UndefValue>(c) ? "undef" : "zero", ""}, ""});
                return;
            }
            auto* L = DL.getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); ++i)
                pieces(c->getAggregateElement(i), off + (int64_t)L->getElementOffset(i), out, n);
            return;
        }
        if (auto* at = dyn_cast<ArrayType>(t))
        {
            if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c))
            {
                out.push_back(js::Array{off, (int64_t)DL.getTypeStoreSize(t), js::Array{isa<UndefValue>(c) ? "undef" : "zero", ""}, ""});
                return;
            }
            int64_t es = DL.getTypeAllocSize(at->getElementType());
            for (unsigned i = 0; i < at->getNumElements(); ++i)
                pieces(c->getAggregateElement(i), off + es * i, out, n);
            return;
        }
        out.push_back(js::Array{off, (int64_t)DL.getTypeStoreSize(t), opnd(c), tyStr(t)});
    }

    js::Value func(const Function& F)
    {
        ids.clear();
        bbs.clear();
        int n = 0, b = 0;
        for (auto& B : F)
        {
            bbs[&B] = b++;
            for (auto& I : B) ids[&I] = n++;
        }
        js::Object o;
        o["name"] = F.getName().str();
        o["dname"] = dem(F.getName());
        o["ret"] = tyStr(F.getReturnType());
        js::Array args;
        for (auto& a : F.args()) args.push_back(js::Array{tyStr(a.getType()), a.getName().str()});
        o["args"] = std::move(args);
        o["nounwind"] = F.doesNotThrow();
        if (auto* sp = F.getSubprogram())
            o["src"] = js::Array{sp->getFilename().str(), (int)sp->getLine(), sp->getName().str()};
        js::Array blocks;
        for (auto& B : F)
        {
            js::Array is;
            for (auto& I : B)
            {
                if (isa<DbgInfoIntrinsic>(I))
                    continue;
                is.push_back(inst(I));
            }
            js::Array succ;
            for (auto* s : successors(&B)) succ.push_back(bbs[s]);
            blocks.push_back(js::Object{{"id", bbs[&B]}, {"insts", std::move(is)}, {"succ", std::move(succ)}});
        }
        o["blocks"] = std::move(blocks);
        return o;
    }
};

int main(int argc, char** argv)
{
    std::string in, out, rootRe = "^$", opq, pipe, keepRe = "^$", onlyRe;
    bool nounwind = false, noinl = false, inits = false;
    std::string reach;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--root") rootRe = argv[++i];
        else if (a == "--opaque") opq = argv[++i];
        else if (a == "--passes") pipe = argv[++i];
        else if (a == "--nounwind") nounwind = true;
        else if (a == "--noinline") noinl = true;
        else if (a == "--init") inits = true;
        else if (a == "--reach") reach = argv[++i];
        else if (in.empty()) in = a;
        else out = a;
    }
    LLVMContext C;
    SMDiagnostic err;
    auto M = parseIRFile(in, err, C);
    if (!M)
    {
        err.print("irdump", errs());
        return 2;
    }
    if (!reach.empty())
    {
        // keep only what is reachable from the functions whose name matches
        std::regex re(reach);
        std::set<const GlobalValue*> seen;
        std::vector<const Value*> work;
        for (auto& F : *M)
            if (!F.isDeclaration() && std::regex_search(F.getName().str(), re))
                work.push_back(&F);
        std::set<const Value*> vis;
        while (!work.empty())
        {
            const Value* v = work.back();
            work.pop_back();
            if (!vis.insert(v).second)
                continue;
            if (auto* f = dyn_cast<Function>(v))
            {
                seen.insert(f);
                for (auto& B : *f)
                    for (auto& I : B)
                        for (auto& o : I.operands())
                            if (isa<Constant>(o.get()))
                                work.push_back(o.get());
                if (f->hasPersonalityFn())
                    work.push_back(f->getPersonalityFn());
                continue;
            }
            if (auto* g = dyn_cast<GlobalVariable>(v))
            {
                seen.insert(g);
                if (g->hasInitializer())
                    work.push_back(g->getInitializer());
                continue;
            }
            if (auto* c = dyn_cast<Constant>(v))
                for (auto& o : c->operands())
                    work.push_back(o.get());
        }
        for (auto& F : *M)
            if (!F.isDeclaration() && !seen.count(&F))
            {
                F.deleteBody();
                F.setComdat(nullptr);
            }
        for (auto& G : M->globals())
            if (!seen.count(&G) && G.hasInitializer() && G.use_empty() && !G.hasAppendingLinkage())
                G.setLinkage(GlobalValue::InternalLinkage);
    }
    std::regex root(rootRe);
    std::vector<std::regex> op;
    {
        std::ifstream f(opq);
        std::string l;
        while (std::getline(f, l))
            if (!l.empty() && l[0] != '#')
                op.emplace_back(l);
    }
    js::Array opaqued;
    for (auto& F : *M)
    {
        if (F.isDeclaration())
        {
            if (nounwind && F.getName() != "__cxa_throw" && F.getName() != "__cxa_rethrow")
                F.setDoesNotThrow();
            continue;
        }
        std::string d = dem(F.getName());
        if (std::regex_search(F.getName().str(), root) || std::regex_search(d, root))
        {
            F.removeFnAttr(Attribute::OptimizeNone);
            if (F.hasFnAttribute(Attribute::OptimizeNone)) F.removeFnAttr(Attribute::OptimizeNone);
            F.removeFnAttr(Attribute::NoInline);
            if (!noinl)
                F.addFnAttr(Attribute::AlwaysInline);
            F.setComdat(nullptr);
            F.setLinkage(GlobalValue::ExternalLinkage);
            continue;
        }
        bool isop = false;
        for (auto& r : op)
            if (std::regex_search(d, r) || std::regex_search(F.getName().str(), r))
            {
                isop = true;
                break;
            }
        if (isop)
        {
            F.deleteBody();
            F.setComdat(nullptr);
            F.setLinkage(GlobalValue::ExternalLinkage);
            F.removeFnAttr(Attribute::AlwaysInline);
            if (nounwind)
                F.setDoesNotThrow();
            opaqued.push_back(d);
            continue;
        }
        F.removeFnAttr(Attribute::NoInline);
        F.removeFnAttr(Attribute::OptimizeNone);
        if (!noinl)
        {
            F.addFnAttr(Attribute::AlwaysInline);
            F.setComdat(nullptr);
            F.setLinkage(GlobalValue::InternalLinkage);
        }
    }
    for (auto& A : make_early_inc_range(M->aliases()))
    {
        if (auto* f = dyn_cast<Function>(A.getAliasee()->stripPointerCasts()))
            A.replaceAllUsesWith(f);
    }
    if (!pipe.empty())
    {
        PassBuilder PB;
        LoopAnalysisManager LAM;
        FunctionAnalysisManager FAM;
        CGSCCAnalysisManager CGAM;
        ModuleAnalysisManager MAM;
        PB.registerModuleAnalyses(MAM);
        PB.registerCGSCCAnalyses(CGAM);
        PB.registerFunctionAnalyses(FAM);
        PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM;
        if (auto e = PB.parsePassPipeline(MPM, pipe))
        {
            errs() << "bad pipeline: " << toString(std::move(e)) << "\n";
            return 2;
        }
        MPM.run(*M, MAM);
    }
    js::Object top;
    js::Array fns;
    for (auto& F : *M)
    {
        if (F.isDeclaration())
            continue;
        if (!(std::regex_search(F.getName().str(), root) || std::regex_search(dem(F.getName()), root)))
            continue;
        Dumper D{M->getDataLayout()};
        fns.push_back(D.func(F));
    }
    top["functions"] = std::move(fns);
    js::Array gl;
    for (auto& G : M->globals())
    {
        if (inits && G.hasLocalLinkage() && G.use_empty())
            continue;
        js::Object o{{"name", G.getName().str()},
                     {"dname", dem(G.getName())},
                     {"const", G.isConstant()},
                     {"tls", G.isThreadLocal()},
                     {"decl", G.isDeclaration()},
                     {"internal", G.hasLocalLinkage()},
                     {"ty", tyStr(G.getValueType())}};
        if (inits && G.getValueType()->isSized())
        {
            o["size"] = (int64_t)M->getDataLayout().getTypeAllocSize(G.getValueType());
            if (G.hasInitializer())
            {
                Dumper D{M->getDataLayout()};
                js::Array a;
                unsigned n = 0;
                D.pieces(G.getInitializer(), 0, a, n);
                o["init"] = std::move(a);
            }
        }
        gl.push_back(std::move(o));
    }
    top["globals"] = std::move(gl);
    top["opaqued"] = std::move(opaqued);
    std::error_code ec;
    raw_fd_ostream os(out, ec);
    os << js::Value(std::move(top));
    return 0;
}
