// cgx: whole-program facts of one translation unit, as JSON: the functions it
// defines with what they call and which globals they mention, its globals,
// and the order of its dynamic initialisers.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Demangle/Demangle.h"
#include <set>
#include <map>
#include <functional>
using namespace llvm;

static void leaves(Value* v, std::set<Value*>& seen, std::function<void(GlobalValue*)> f)
{
    if(!seen.insert(v).second) return;
    if(auto* g = dyn_cast<GlobalValue>(v)) { f(g); return; }
    if(auto* c = dyn_cast<ConstantExpr>(v)) for(auto& o: c->operands()) leaves(o.get(), seen, f);
    else if(auto* c = dyn_cast<ConstantAggregate>(v)) for(auto& o: c->operands()) leaves(o.get(), seen, f);
}

static std::string where(DebugLoc const& d)
{
    if(!d) return "";
    auto* s = cast<DIScope>(d.getScope());
    return (s->getFilename() + ":" + std::to_string(d.getLine())).str();
}

static Value* base(Value* v)
{
    for(;;) {
        if(auto* c = dyn_cast<ConstantExpr>(v)) { if(c->getOpcode() == Instruction::GetElementPtr || c->isCast()) { v = c->getOperand(0); continue; } }
        if(auto* g = dyn_cast<GetElementPtrInst>(v)) { v = g->getPointerOperand(); continue; }
        if(auto* g = dyn_cast<CastInst>(v)) { v = g->getOperand(0); continue; }
        return v;
    }
}

int main(int argc, char** argv)
{
    LLVMContext context; SMDiagnostic err;
    auto module = parseIRFile(argv[1], err, context);
    if(!module) { err.print("cgx", errs()); return 1; }
    json::Object out;
    json::Array functions;
    for(auto& f: *module) {
        if(f.isDeclaration()) continue;
        json::Object o;
        o["name"] = f.getName().str(); o["demangled"] = demangle(f.getName().str());
        if(auto* s = f.getSubprogram()) o["where"] = (s->getFilename() + ":" + std::to_string(s->getLine())).str();
        json::Array calls, mentions; std::string target, last;
        for(auto& b: f) for(auto& i: b) {
            if(isa<DbgInfoIntrinsic>(i)) continue;
            bool atexit = false;
            Function* callee = nullptr;
            if(auto* c = dyn_cast<CallBase>(&i)) {
                callee = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
                if(callee && callee->isIntrinsic() && !isa<MemIntrinsic>(i)) continue;
                atexit = callee && callee->getName() == "__cxa_atexit";
                if(callee) calls.push_back(json::Object{{"callee", callee->getName().str()}, {"at", where(i.getDebugLoc())}});
                else calls.push_back(json::Object{{"callee", ""}, {"at", where(i.getDebugLoc())}});
                if(atexit) { if(auto* g = dyn_cast<GlobalVariable>(base(c->getArgOperand(1)))) target = g->getName().str(); continue; }
                if(c->arg_size()) if(auto* g = dyn_cast<GlobalVariable>(base(c->getArgOperand(0)))) if(!g->isConstant()) last = g->getName().str();
            }
            if(auto* s = dyn_cast<StoreInst>(&i)) if(auto* g = dyn_cast<GlobalVariable>(base(s->getPointerOperand()))) last = g->getName().str();
            std::string how = isa<LoadInst>(i) ? "load" : isa<StoreInst>(i) ? "store" : isa<CallBase>(i) ? "call" : "other";
            unsigned n = 0;
            for(auto& op: i.operands()) {
                unsigned at = n++;
                if(callee && op.get() == callee) continue;
                std::set<Value*> seen;
                leaves(op.get(), seen, [&](GlobalValue* g) {
                    if(auto* v = dyn_cast<GlobalVariable>(g)) { if(v->getName().starts_with(".str") || v->getName().starts_with("_ZTV") || v->getName().starts_with("_ZTI") || v->getName().starts_with("_ZTS")) return; }
                    mentions.push_back(json::Object{{"global", g->getName().str()}, {"function", isa<Function>(g)}, {"how", isa<StoreInst>(i) ? (at ? "store" : "address") : how}, {"at", where(i.getDebugLoc())}});
                });
            }
        }
        o["calls"] = std::move(calls); o["mentions"] = std::move(mentions); o["target"] = target.empty() ? last : target;
        functions.push_back(std::move(o));
    }
    out["functions"] = std::move(functions);
    json::Array globals;
    for(auto& g: module->globals()) {
        if(g.isDeclaration() || g.getName().starts_with(".str") || g.getName().starts_with("llvm.")) continue;
        json::Object o{{"name", g.getName().str()}, {"demangled", demangle(g.getName().str())}, {"local", g.hasLocalLinkage()}, {"discardable", g.hasLinkOnceLinkage() || g.hasWeakLinkage()}, {"tls", g.isThreadLocal()}, {"constant", g.isConstant()}};
        SmallVector<DIGlobalVariableExpression*, 1> d; g.getDebugInfo(d);
        if(!d.empty()) { auto* v = d[0]->getVariable(); o["where"] = (v->getFilename() + ":" + std::to_string(v->getLine())).str(); }
        globals.push_back(std::move(o));
    }
    out["globals"] = std::move(globals);
    // The initialisers: one list for the ordered ones, the others apart.
    json::Array ctors;
    if(auto* g = module->getNamedGlobal("llvm.global_ctors")) if(auto* a = dyn_cast<ConstantArray>(g->getInitializer())) for(auto& o: a->operands()) {
        auto* s = cast<ConstantStruct>(o.get());
        if(auto* f = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) ctors.push_back(json::Object{{"function", f->getName().str()}, {"grouped", f->getName().starts_with("_GLOBAL__sub_I_")}});
    }
    out["ctors"] = std::move(ctors);
    raw_fd_ostream(1, false) << json::Value(std::move(out));
}
