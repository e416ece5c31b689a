// irx: LLVM IR fact extractor.
//
//   irx IN.bc ENTRY_PREFIX OUT.json [KEEP_PREFIX...]
//
// Normalises the IR of every defined function whose (mangled) name starts
// with ENTRY_PREFIX: everything it calls that is defined in the module is
// inlined (except functions whose demangled name contains one of the KEEP
// substrings), memory is promoted to SSA form, and the loop structure is
// canonicalised.  Then exports: instructions, control flow, natural loops with
// their scalar-evolution trip counts, and the scalar evolution of every
// integer/pointer value.  No code of the analysed program is executed.
#include "llvm/ADT/SmallVector.h"
#include "llvm/Analysis/AliasAnalysis.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/GVN.h"
#include "llvm/Transforms/Scalar/LICM.h"
#include "llvm/Transforms/Scalar/LoopDeletion.h"
#include "llvm/Transforms/Scalar/LoopPassManager.h"
#include "llvm/Transforms/Scalar/LoopUnrollPass.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Transforms/Scalar/DeadStoreElimination.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Scalar/IndVarSimplify.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/LowerInvoke.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <map>
#include <set>
#include <string>

using namespace llvm;

static std::string demangled(StringRef name) { return demangle(name.str()); }

struct Exporter {
    Function& F;
    LoopInfo& LI;
    ScalarEvolution& SE;
    std::map<Value const*, int> ids;
    std::map<BasicBlock const*, int> bids;
    std::map<Loop const*, int> lids;
    std::string type_str(Type* t) { std::string s; raw_string_ostream o(s); t->print(o); return s; }

    json::Value constant_bits(APInt const& v) {
        if(v.getBitWidth() <= 64) return json::Value(std::to_string(v.getSExtValue()));
        SmallString<64> s; v.toStringSigned(s); return json::Value(s.str().str());
    }

    json::Value operand(Value const* v, int depth = 0) {
        auto it = ids.find(v);
        if(it != ids.end()) return json::Object{{"v", it->second}};
        if(auto c = dyn_cast<ConstantInt>(v)) return json::Object{{"c", constant_bits(c->getValue())}, {"w", (int)c->getBitWidth()}};
        if(auto c = dyn_cast<ConstantFP>(v)) {
            SmallString<64> s; c->getValueAPF().toString(s, 20);
            json::Object o{{"f", s.str().str()}};
            if(c->getValueAPF().isNegZero()) o["f"] = "-0";
            o["nan"] = c->isNaN(); o["inf"] = c->isInfinity();
            o["ty"] = type_str(c->getType());
            return o;
        }
        if(isa<ConstantPointerNull>(v)) return json::Object{{"null", true}};
        if(isa<UndefValue>(v)) return json::Object{{"undef", true}};
        if(auto g = dyn_cast<GlobalValue>(v)) {
            json::Object o{{"g", demangled(g->getName())}};
            if(auto gv = dyn_cast<GlobalVariable>(g)) {
                if(gv->isConstant() && gv->hasInitializer() && depth < 2) {
                    Constant const* init = gv->getInitializer();
                    if(auto a = dyn_cast<ConstantDataArray>(init)) { if(a->isString()) o["str"] = json::fixUTF8(a->getAsString()); }
                    else if(isa<ConstantInt>(init) || isa<ConstantFP>(init)) o["init"] = operand(init, depth + 1);
                    else if(init->isNullValue()) o["zeroinit"] = true;
                }
            }
            return o;
        }
        if(auto ce = dyn_cast<ConstantExpr>(v)) {
            json::Array a; for(auto& op : ce->operands()) a.push_back(operand(op, depth + 1));
            json::Object o{{"ce", ce->getOpcodeName()}, {"ops", std::move(a)}};
            if(auto gep = dyn_cast<GEPOperator>(ce)) {
                APInt off(64, 0);
                if(gep->accumulateConstantOffset(F.getParent()->getDataLayout(), off)) o["off"] = (int64_t)off.getSExtValue();
            }
            return o;
        }
        if(auto ca = dyn_cast<ConstantAggregate>(v)) {
            json::Array a; if(depth < 4) for(auto& op : ca->operands()) a.push_back(operand(op, depth + 1));
            return json::Object{{"agg", std::move(a)}};
        }
        if(isa<ConstantAggregateZero>(v)) return json::Object{{"aggzero", true}};
        if(isa<BasicBlock>(v)) return json::Object{{"b", bids[cast<BasicBlock>(v)]}};
        if(isa<MetadataAsValue>(v)) return json::Object{{"md", true}};
        std::string s; raw_string_ostream o(s); v->printAsOperand(o, false);
        return json::Object{{"other", s}};
    }

    json::Value scev(SCEV const* s, int depth = 0) {
        if(depth > 60) return json::Object{{"k", "deep"}};
        switch(s->getSCEVType()) {
        case scConstant: return json::Object{{"k", "const"}, {"c", constant_bits(cast<SCEVConstant>(s)->getAPInt())}, {"w", (int)cast<SCEVConstant>(s)->getAPInt().getBitWidth()}};
        case scVScale: return json::Object{{"k", "vscale"}};
        case scTruncate: case scZeroExtend: case scSignExtend: case scPtrToInt: {
            auto c = cast<SCEVCastExpr>(s);
            char const* n = s->getSCEVType() == scTruncate ? "trunc" : s->getSCEVType() == scZeroExtend ? "zext" : s->getSCEVType() == scSignExtend ? "sext" : "ptrtoint";
            return json::Object{{"k", n}, {"a", scev(c->getOperand(), depth + 1)}, {"w", (int)SE.getTypeSizeInBits(c->getType())}, {"sw", (int)SE.getTypeSizeInBits(c->getOperand()->getType())}};
        }
        case scAddExpr: case scMulExpr: case scUMaxExpr: case scUMinExpr: case scSMaxExpr: case scSMinExpr: case scSequentialUMinExpr: {
            json::Array a; for(auto op : cast<SCEVNAryExpr>(s)->operands()) a.push_back(scev(op, depth + 1));
            char const* n = "";
            switch(s->getSCEVType()) {
            case scAddExpr: n = "add"; break; case scMulExpr: n = "mul"; break;
            case scUMaxExpr: n = "umax"; break; case scUMinExpr: n = "umin"; break;
            case scSMaxExpr: n = "smax"; break; case scSMinExpr: n = "smin"; break;
            case scSequentialUMinExpr: n = "umin"; break; default: break; }
            return json::Object{{"k", n}, {"a", std::move(a)}, {"w", (int)SE.getTypeSizeInBits(s->getType())}};
        }
        case scUDivExpr: { auto d = cast<SCEVUDivExpr>(s); return json::Object{{"k", "udiv"}, {"a", json::Array{scev(d->getLHS(), depth + 1), scev(d->getRHS(), depth + 1)}}, {"w", (int)SE.getTypeSizeInBits(s->getType())}}; }
        case scAddRecExpr: {
            auto r = cast<SCEVAddRecExpr>(s); json::Array a; for(auto op : r->operands()) a.push_back(scev(op, depth + 1));
            return json::Object{{"k", "rec"}, {"a", std::move(a)}, {"l", lids[r->getLoop()]}, {"w", (int)SE.getTypeSizeInBits(s->getType())}};
        }
        case scUnknown: return json::Object{{"k", "unk"}, {"o", operand(cast<SCEVUnknown>(s)->getValue())}};
        case scCouldNotCompute: return json::Object{{"k", "cnc"}};
        }
        return json::Object{{"k", "?"}};
    }

    json::Object run() {
        json::Object out;
        out["name"] = F.getName().str(); out["demangled"] = demangled(F.getName());
        int n = 0;
        json::Array args;
        for(auto& a : F.args()) { ids[&a] = n; json::Object o{{"id", n}, {"name", a.getName().str()}, {"ty", type_str(a.getType())}}; if(a.hasStructRetAttr()) o["sret"] = true; args.push_back(std::move(o)); ++n; }
        out["args"] = std::move(args);
        out["ret"] = type_str(F.getReturnType());
        int b = 0; for(auto& B : F) { bids[&B] = b++; for(auto& I : B) { ids[&I] = n++; } }
        int l = 0; for(auto L : LI.getLoopsInPreorder()) lids[L] = l++;
        json::Array loops;
        for(auto L : LI.getLoopsInPreorder()) {
            json::Object o{{"id", lids[L]}, {"header", bids[L->getHeader()]}, {"depth", (int)L->getLoopDepth()}};
            o["parent"] = L->getParentLoop() ? lids[L->getParentLoop()] : -1;
            SmallVector<BasicBlock*, 4> bs; json::Array a;
            L->getLoopLatches(bs); for(auto x : bs) a.push_back(bids[x]); o["latches"] = std::move(a);
            json::Array bl; for(auto x : L->blocks()) bl.push_back(bids[x]); o["blocks"] = std::move(bl);
            SmallVector<BasicBlock*, 4> ex; L->getExitingBlocks(ex); json::Array ea;
            for(auto x : ex) { ea.push_back(json::Object{{"b", bids[x]}, {"count", scev(SE.getExitCount(L, x))}}); }
            o["exiting"] = std::move(ea);
            o["btc"] = scev(SE.getBackedgeTakenCount(L));
            loops.push_back(std::move(o));
        }
        out["loops"] = std::move(loops);
        json::Array blocks;
        for(auto& B : F) {
            json::Object bo{{"id", bids[&B]}};
            auto L = LI.getLoopFor(&B); bo["loop"] = L ? lids[L] : -1;
            json::Array insts;
            for(auto& I : B) {
                if(isa<DbgInfoIntrinsic>(I)) continue;
                json::Object o{{"id", ids[&I]}, {"op", I.getOpcodeName()}, {"ty", type_str(I.getType())}};
                json::Array ops;
                if(auto c = dyn_cast<CallBase>(&I)) {
                    for(auto& a : c->args()) ops.push_back(operand(a));
                    if(auto f = c->getCalledFunction()) { o["callee"] = demangled(f->getName()); o["mangled"] = f->getName().str(); if(f->isIntrinsic()) o["intrinsic"] = true; if(f->doesNotReturn() || c->doesNotReturn()) o["noreturn"] = true; }
                    else { o["indirect"] = operand(c->getCalledOperand()); if(c->doesNotReturn()) o["noreturn"] = true; }
                    if(auto iv = dyn_cast<InvokeInst>(&I)) { o["normal"] = bids[iv->getNormalDest()]; o["unwind"] = bids[iv->getUnwindDest()]; }
                } else if(auto p = dyn_cast<PHINode>(&I)) {
                    json::Array in; for(unsigned i = 0; i < p->getNumIncomingValues(); ++i) in.push_back(json::Array{bids[p->getIncomingBlock(i)], operand(p->getIncomingValue(i))});
                    o["in"] = std::move(in);
                } else if(auto br = dyn_cast<BranchInst>(&I)) {
                    if(br->isConditional()) { ops.push_back(operand(br->getCondition())); o["succ"] = json::Array{bids[br->getSuccessor(0)], bids[br->getSuccessor(1)]}; }
                    else o["succ"] = json::Array{bids[br->getSuccessor(0)]};
                } else if(auto sw = dyn_cast<SwitchInst>(&I)) {
                    ops.push_back(operand(sw->getCondition()));
                    json::Array cs; for(auto& c : sw->cases()) cs.push_back(json::Array{constant_bits(c.getCaseValue()->getValue()), bids[c.getCaseSuccessor()]});
                    o["cases"] = std::move(cs); o["default"] = bids[sw->getDefaultDest()];
                } else {
                    for(auto& a : I.operands()) ops.push_back(operand(a));
                    if(isa<CastInst>(&I)) o["srcty"] = type_str(I.getOperand(0)->getType());
                    if(auto ci = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(ci->getPredicate()).str();
                    if(auto gep = dyn_cast<GetElementPtrInst>(&I)) {
                        APInt off(64, 0); if(gep->accumulateConstantOffset(F.getParent()->getDataLayout(), off)) o["off"] = (int64_t)off.getSExtValue();
                        else {
                            MapVector<Value*, APInt> var; APInt rest(64, 0);
                            if(cast<GEPOperator>(gep)->collectOffset(F.getParent()->getDataLayout(), 64, var, rest)) {
                                json::Array st; for(auto& [v, scale] : var) st.push_back(json::Array{operand(v), (int64_t)scale.getSExtValue()});
                                o["strides"] = std::move(st); o["rest"] = (int64_t)rest.getSExtValue();
                            }
                        }
                        o["srcty"] = type_str(gep->getSourceElementType());
                        o["srcsize"] = (int64_t)F.getParent()->getDataLayout().getTypeAllocSize(gep->getSourceElementType()).getKnownMinValue();
                    }
                    if(auto ev = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for(auto i : ev->indices()) ix.push_back((int)i); o["idx"] = std::move(ix); }
                    if(auto ev = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for(auto i : ev->indices()) ix.push_back((int)i); o["idx"] = std::move(ix); }
                    if(auto al = dyn_cast<AllocaInst>(&I)) { o["alty"] = type_str(al->getAllocatedType()); }
                    if(auto ob = dyn_cast<OverflowingBinaryOperator>(&I)) { o["nsw"] = ob->hasNoSignedWrap(); o["nuw"] = ob->hasNoUnsignedWrap(); }
                    if(auto ld = dyn_cast<LoadInst>(&I)) if(auto md = ld->getMetadata(LLVMContext::MD_range)) if(md->getNumOperands() == 2 && mdconst::extract<ConstantInt>(md->getOperand(1))->equalsInt(2)) o["boolean"] = true;
                    if(auto st = dyn_cast<StoreInst>(&I)) o["sty"] = type_str(st->getValueOperand()->getType());
                }
                o["ops"] = std::move(ops);
                if(SE.isSCEVable(I.getType())) o["scev"] = scev(SE.getSCEV(&I));
                if(DebugLoc const& d = I.getDebugLoc()) {
                    json::Array locs; DILocation const* dl = d.get(); int guard = 0;
                    while(dl && guard++ < 12) { locs.push_back(json::Array{dl->getFilename().str(), (int)dl->getLine()}); dl = dl->getInlinedAt(); }
                    o["loc"] = std::move(locs);
                }
                insts.push_back(std::move(o));
            }
            bo["insts"] = std::move(insts);
            blocks.push_back(std::move(bo));
        }
        out["blocks"] = std::move(blocks);
        return out;
    }
};

// Whether the name of the function (without its parameters and the type it
// returns) starts with p.
static bool named(std::string const& d, std::string const& p) {
    int depth = 0; bool hit = false;
    for(size_t i = 0; i < d.size(); ++i) {
        if(depth == 0 && (i == 0 || d[i - 1] == ' ')) hit = d.compare(i, p.size(), p) == 0;
        if(d[i] == '<') ++depth; else if(d[i] == '>') --depth; else if(d[i] == '(' && depth == 0) return hit;
    }
    return hit;
}

int main(int argc, char** argv) {
    if(argc < 4) { errs() << "usage: irx IN ENTRY_PREFIX OUT [KEEP...]\n"; return 2; }
    LLVMContext ctx; SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if(!M) { err.print("irx", errs()); return 2; }
    std::string prefix = argv[2];
    std::vector<std::string> keep; bool opt_unroll = false, opt_cfg = true, opt_licm = true;
    for(int i = 4; i < argc; ++i) { std::string a = argv[i]; if(a == "--no-licm") opt_licm = false; else if(a == "--no-cfg") opt_cfg = false; else if(a == "--unroll") opt_unroll = true; else keep.push_back(a); }
    std::set<Function*> entries;
    {   // Constructor/destructor aliases: call the aliased function itself.
        SmallVector<GlobalAlias*, 16> as; for(auto& A : M->aliases()) as.push_back(&A);
        for(auto A : as) if(auto f = dyn_cast<Function>(A->getAliasee()->stripPointerCasts())) A->replaceAllUsesWith(f);
    }
    for(auto& F : *M) {
        std::string d = demangled(F.getName());
        if(F.isDeclaration()) {
            if(d.find("vpx_") != std::string::npos && !F.doesNotAccessMemory()) F.setMemoryEffects(MemoryEffects::inaccessibleMemOnly());
            continue;
        }
        F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone);
        if(StringRef(F.getName()).starts_with(prefix) || StringRef(d).starts_with(prefix)) { entries.insert(&F); F.setLinkage(GlobalValue::ExternalLinkage); F.removeFnAttr(Attribute::AlwaysInline); if(F.hasComdat()) F.setComdat(nullptr); F.addFnAttr(Attribute::NoInline); continue; }
        bool k = false; for(auto const& s : keep) if(s[0] == '^' ? named(d, s.substr(1)) : d.find(s) != std::string::npos) k = true;
        if(k) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); continue; }
        F.addFnAttr(Attribute::AlwaysInline);
        if(F.hasComdat()) F.setComdat(nullptr);
        F.setLinkage(GlobalValue::InternalLinkage);
    }
    if(entries.empty()) { errs() << "irx: no entry functions with prefix " << prefix << "\n"; return 3; }
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    auto scfg = SimplifyCFGOptions().convertSwitchRangeToICmp(true).hoistCommonInsts(false).sinkCommonInsts(false).speculateBlocks(false).needCanonicalLoops(true);
    // Calls through function pointers (std::bind and friends) become direct
    // calls after simplification: alternate inlining and simplification.
    for(int round = 0; round < 8; ++round) {
        ModulePassManager MPM;
        if(round == 0) {
            // What happens after a callee throws is not followed; a throw
            // expression is a call that does not return.
            FunctionPassManager FPM;
            FPM.addPass(LowerInvokePass());
            MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
        }
        MPM.addPass(AlwaysInlinerPass(false));
        FunctionPassManager FPM;
        FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
        FPM.addPass(EarlyCSEPass(true));
        FPM.addPass(InstCombinePass());
        FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
        FPM.addPass(EarlyCSEPass(true));
        FPM.addPass(GVNPass(GVNOptions().setPRE(false).setLoadPRE(false)));
        MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
        MPM.run(*M, MAM);
        bool more = false;
        for(auto F : entries) for(auto& I : instructions(*F)) if(auto c = dyn_cast<CallBase>(&I)) {
            auto f = c->getCalledFunction();
            if(f && !f->isDeclaration() && f->hasFnAttribute(Attribute::AlwaysInline)) more = true;
        }
        if(!more) break;
    }
    ModulePassManager MPM;
    MPM.addPass(GlobalDCEPass());
    FunctionPassManager FPM;
    FPM.addPass(LowerSwitchPass());
    if(opt_cfg) FPM.addPass(SimplifyCFGPass(scfg));
    FPM.addPass(InstCombinePass());
    FPM.addPass(LoopSimplifyPass());
    FPM.addPass(LCSSAPass());
    if(opt_licm) FPM.addPass(createFunctionToLoopPassAdaptor(LICMPass(LICMOptions()), true));
    if(opt_unroll) {        // loops of a constant number of iterations
        FPM.addPass(createFunctionToLoopPassAdaptor(LoopFullUnrollPass(2, false, true), false));
        FPM.addPass(SROAPass(SROAOptions::ModifyCFG)); FPM.addPass(InstCombinePass());
        if(opt_cfg) FPM.addPass(SimplifyCFGPass(scfg));
        FPM.addPass(LoopSimplifyPass()); FPM.addPass(LCSSAPass());
    }
    FPM.addPass(GVNPass(GVNOptions().setPRE(false).setLoadPRE(false)));
    FPM.addPass(EarlyCSEPass(true));
    FPM.addPass(DSEPass());
    FPM.addPass(InstCombinePass());
    FPM.addPass(ADCEPass());
    if(opt_cfg) FPM.addPass(SimplifyCFGPass(scfg));
    FPM.addPass(LoopSimplifyPass());
    FPM.addPass(LCSSAPass());
    if(opt_licm) FPM.addPass(createFunctionToLoopPassAdaptor(LICMPass(LICMOptions()), true));
    FPM.addPass(EarlyCSEPass(true));
    FPM.addPass(ADCEPass());
    MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
    MPM.run(*M, MAM);
    json::Array fs;
    for(auto& F : *M) {
        if(!entries.count(&F)) continue;
        Exporter e{F, FAM.getResult<LoopAnalysis>(F), FAM.getResult<ScalarEvolutionAnalysis>(F)};
        fs.push_back(e.run());
    }
    std::error_code ec; raw_fd_ostream os(argv[3], ec);
    os << json::Value(std::move(fs)); os << "\n";
    if(getenv("IRX_LL")) { raw_fd_ostream o2(getenv("IRX_LL"), ec); M->print(o2, nullptr); }
    return 0;
}
