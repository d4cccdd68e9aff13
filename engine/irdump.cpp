// irdump: prints the LLVM IR of the functions reachable from the verification wrappers (names starting
// with "vf_") as JSON. No optimisation pass is run on the module: what is printed is clang's -O0 output.
// usage: irdump module.bc stop-regexes.txt > out.json
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include <fstream>
#include <deque>
#include <set>
#include <map>
using namespace llvm;
using json::Array; using json::Object; using JV = json::Value;

static const DataLayout* DL;
static std::set<const Function*> seen; static std::deque<const Function*> work;
static std::set<const GlobalVariable*> gseen; static std::deque<const GlobalVariable*> gwork;
static std::map<const Value*, int> ids; static std::map<const BasicBlock*, int> bids;

static void flatten(Type* t, uint64_t off, Array& out, unsigned& budget) {
    if (budget == 0) return;
    if (auto* s = dyn_cast<StructType>(t)) {
        if (s->isOpaque()) return;
        auto* sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); ++i) flatten(s->getElementType(i), off + sl->getElementOffset(i), out, budget);
    } else if (auto* a = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(a->getElementType());
        for (uint64_t i = 0; i < a->getNumElements() && budget; ++i) flatten(a->getElementType(), off + i*es, out, budget);
    } else {
        --budget;
        std::string n; raw_string_ostream os(n); t->print(os, false, true);
        out.push_back(Array{(int64_t)off, os.str(), t->isSized() ? (int64_t)DL->getTypeStoreSize(t) : 0});
    }
}
static JV ty(Type* t) {
    Object o;
    if (t->isVoidTy()) return "void";
    if (t->isPointerTy()) return "ptr";
    if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
    if (t->isFloatTy()) return "float";
    if (t->isDoubleTy()) return "double";
    if (t->isX86_FP80Ty()) return "fp80";
    if (t->isStructTy() || t->isArrayTy()) {
        o["k"] = "agg"; 
        if (auto* s = dyn_cast<StructType>(t); s && s->hasName()) o["name"] = s->getName();
        if (t->isSized()) o["size"] = (int64_t)DL->getTypeAllocSize(t);
        if (auto* a = dyn_cast<ArrayType>(t)) { o["n"] = (int64_t)a->getNumElements(); o["elt"] = ty(a->getElementType()); o["esize"]=(int64_t)DL->getTypeAllocSize(a->getElementType()); }
        Array f; unsigned budget = 128; flatten(t, 0, f, budget); o["fields"] = std::move(f);
        return o;
    }
    std::string n; raw_string_ostream os(n); t->print(os); return "?" + os.str();
}
static JV val(const Value* v);
static void needg(const GlobalValue* g) {
    if (auto* f = dyn_cast<Function>(g)) { if (seen.insert(f).second) work.push_back(f); }
    else if (auto* gv = dyn_cast<GlobalVariable>(g)) { if (gseen.insert(gv).second) gwork.push_back(gv); }
}
static JV val(const Value* v) {
    if (auto* c = dyn_cast<ConstantInt>(v)) {
        SmallString<40> s; c->getValue().toString(s, 10, false); return Array{"c", (int64_t)c->getBitWidth(), std::string(s.str())}; }
    if (auto* c = dyn_cast<ConstantFP>(v)) {
        APFloat f = c->getValueAPF(); bool li; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
        return Array{"f", f.isFinite() ? JV(f.convertToDouble()) : JV("nonfinite")}; }
    if (isa<ConstantPointerNull>(v)) return Array{"n"};
    if (isa<UndefValue>(v)) return Array{"u"};
    if (auto* g = dyn_cast<GlobalValue>(v)) { needg(g); return Array{"g", g->getName(), 0}; }
    if (isa<ConstantAggregateZero>(v)) return Array{"z", ty(v->getType())};
    if (auto* ca = dyn_cast<ConstantAggregate>(v)) {
        Array el; for (auto& op : ca->operands()) el.push_back(val(op)); return Array{"ca", ty(v->getType()), std::move(el)}; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(v)) {
        Array el; for (unsigned i = 0; i < cd->getNumElements(); ++i) el.push_back(val(cd->getElementAsConstant(i))); return Array{"ca", ty(v->getType()), std::move(el)}; }
    if (auto* ce = dyn_cast<ConstantExpr>(v)) {
        APInt off(64, 0); const Value* base = ce->getType()->isPointerTy() ? ce->stripAndAccumulateConstantOffsets(*DL, off, true) : nullptr;
        if (base && isa<GlobalValue>(base)) { needg(cast<GlobalValue>(base)); return Array{"g", base->getName(), off.getSExtValue()}; }
        if (ce->getOpcode() == Instruction::IntToPtr || ce->getOpcode() == Instruction::PtrToInt) return Array{"ce", Instruction::getOpcodeName(ce->getOpcode()), val(ce->getOperand(0))};
        return Array{"ce", "unsupported"};
    }
    if (auto* bb = dyn_cast<BasicBlock>(v)) return Array{"b", bids[bb]};
    if (auto* a = dyn_cast<Argument>(v)) return Array{"a", (int64_t)a->getArgNo()};
    if (ids.count(v)) return Array{"l", ids[v]};
    return Array{"x"};
}
static std::string dem(StringRef n) { return demangle(n.str()); }

// the qualified name without the return type that precedes it for templates
static std::string qualified(std::string const& s) {
    size_t last = 0; int depth = 0;
    for (size_t k = 0; k < s.size(); ++k) {
        if (depth == 0 && s.compare(k, 8, "operator") == 0 && (k == 0 || !(isalnum((unsigned char)s[k-1]) || s[k-1] == '_'))) return s.substr(last);
        char c = s[k];
        if (c == '<') ++depth; else if (c == '>') --depth;
        else if (depth == 0 && c == ' ') last = k + 1;
        else if (depth == 0 && c == '(') { if (s.compare(k, 12, "(anonymous n") == 0) { k = s.find(')', k); continue; } return s.substr(last); }
    }
    return s;
}
int main(int argc, char** argv) {
    LLVMContext ctx; SMDiagnostic err;
    auto m = parseIRFile(argv[1], err, ctx);
    if (!m) { err.print("irdump", errs()); return 1; }
    DL = &m->getDataLayout();
    std::vector<Regex> stop;
    { std::ifstream in(argv[2]); std::string l; while (std::getline(in, l)) if (!l.empty() && l[0] != '#') stop.emplace_back(l); }
    for (auto& f : *m) if (f.getName().starts_with("vf_") && !f.isDeclaration()) { seen.insert(&f); work.push_back(&f); }
    Object funcs, globals, decls;
    while (!work.empty() || !gwork.empty()) {
        while (!gwork.empty()) {
            auto* g = gwork.front(); gwork.pop_front();
            Object o; o["dem"] = dem(g->getName()); o["const"] = g->isConstant(); o["ty"] = ty(g->getValueType());
            if (g->getName().starts_with("_ZTV") || g->getName().starts_with("_ZTI") || g->getName().starts_with("_ZTS") || g->getName().starts_with("_ZTT") || g->getName().starts_with("_ZTC")) { o["rtti"] = true;
                if (g->hasInitializer() && g->getName().starts_with("_ZTV")) {
                    // vtable: list of function slots (offset -> function)
                    if (auto* cs = dyn_cast<ConstantStruct>(g->getInitializer())) {
                        Array slots; uint64_t base = 0;
                        for (unsigned k = 0; k < cs->getNumOperands(); ++k) {
                            auto* ca = cs->getOperand(k); uint64_t n = ca->getType()->isArrayTy() ? ca->getType()->getArrayNumElements() : 0;
                            for (unsigned i = 0; i < n; ++i) { auto* e = ca->getAggregateElement(i);
                                Value* s = e ? e->stripPointerCasts() : nullptr;
                                if (s && isa<Function>(s)) { slots.push_back(Array{(int64_t)(base + i*8), s->getName()}); needg(cast<Function>(s)); }
                                else if (auto* ce = dyn_cast_or_null<ConstantExpr>(s); ce && ce->getOpcode()==Instruction::IntToPtr) { if (auto* ci = dyn_cast<ConstantInt>(ce->getOperand(0))) slots.push_back(Array{(int64_t)(base+i*8), ci->getSExtValue()}); }
                                else if (s && isa<ConstantPointerNull>(s)) slots.push_back(Array{(int64_t)(base+i*8), 0}); }
                            base += n*8;
                        }
                        o["slots"] = std::move(slots);
                    }
                }
                if (g->hasInitializer() && g->getName().starts_with("_ZTI")) {
                    Array bases; if (auto* cs = dyn_cast<ConstantStruct>(g->getInitializer())) for (unsigned k = 2; k < cs->getNumOperands(); ++k) if (auto* gv = dyn_cast<GlobalVariable>(cs->getOperand(k)->stripPointerCasts())) { bases.push_back(gv->getName()); needg(gv); }
                    o["bases"] = std::move(bases);
                }
                if (g->hasInitializer()) {
                    if (auto* cd = dyn_cast<ConstantDataSequential>(g->getInitializer())) { Array b; for (unsigned i = 0; i < cd->getNumElements(); ++i) b.push_back((int64_t)(cd->getElementAsInteger(i) & 255)); o["bytes"] = std::move(b); }
                    else o["init"] = val(g->getInitializer());
                } }
            else if (g->hasInitializer()) {
                if (auto* cd = dyn_cast<ConstantDataSequential>(g->getInitializer()); cd && cd->getElementType()->isIntegerTy(8)) {
                    Array b; for (unsigned i = 0; i < cd->getNumElements(); ++i) b.push_back((int64_t)(cd->getElementAsInteger(i) & 255)); o["bytes"] = std::move(b); }
                else o["init"] = val(g->getInitializer());
            }
            globals[g->getName()] = std::move(o);
        }
        if (work.empty()) break;
        auto* f = work.front(); work.pop_front();
        std::string d = dem(f->getName());
        Object o; o["dem"] = d;
        if (f->doesNotReturn()) o["noreturn"] = true;
        if (f->doesNotThrow()) o["nounwind"] = true;
        o["ret"] = ty(f->getReturnType());
        Array ps; for (auto& a : f->args()) { Object p; p["ty"] = ty(a.getType());
            if (a.hasStructRetAttr()) { p["sret"] = true; p["sty"] = ty(a.getParamStructRetType()); }
            if (a.hasByValAttr()) { p["byval"] = true; p["sty"] = ty(a.getParamByValType()); }
            ps.push_back(std::move(p)); }
        o["params"] = std::move(ps);
        if (auto* sp = f->getSubprogram()) { o["file"] = sp->getFilename(); o["line"] = (int64_t)sp->getLine(); }
        bool st = f->isDeclaration() || f->isIntrinsic();
        if (!f->getName().starts_with("vf_")) for (auto& r : stop) if (r.match(qualified(d))) { st = true; break; }
        if (st) { decls[f->getName()] = std::move(o); continue; }
        ids.clear(); bids.clear(); int n = 0, b = 0;
        for (auto& bb : *f) { bids[&bb] = b++; for (auto& i : bb) ids[&i] = n++; }
        DominatorTree dt(const_cast<Function&>(*f)); LoopInfo li(dt);
        Array loops; 
        for (auto* l : li.getLoopsInPreorder()) { Object lo; lo["header"] = bids[l->getHeader()]; lo["depth"] = (int64_t)l->getLoopDepth();
            Array bl; for (auto* bb : l->blocks()) bl.push_back(bids[bb]); lo["blocks"] = std::move(bl);
            if (auto* p = l->getParentLoop()) lo["parent"] = bids[p->getHeader()];
            int64_t line = 0; for (auto& i : *l->getHeader()) if (i.getDebugLoc() && i.getDebugLoc().getLine()) { line = i.getDebugLoc().getLine(); break; } lo["line"] = line;
            loops.push_back(std::move(lo)); }
        o["loops"] = std::move(loops);
        Array blocks;
        for (auto& bb : *f) {
            Array insts;
            for (auto& i : bb) {
                if (isa<DbgInfoIntrinsic>(i)) continue;
                Object q; q["op"] = i.getOpcodeName(); q["id"] = ids[&i];
                if (auto& dl = i.getDebugLoc()) { q["line"] = (int64_t)dl.getLine(); }
                if (!i.getType()->isVoidTy()) q["ty"] = ty(i.getType());
                if (auto* x = dyn_cast<AllocaInst>(&i)) { q["aty"] = ty(x->getAllocatedType()); q["n"] = val(x->getArraySize()); }
                else if (auto* x = dyn_cast<LoadInst>(&i)) { q["p"] = val(x->getPointerOperand()); q["sz"] = (int64_t)DL->getTypeStoreSize(x->getType()); }
                else if (auto* x = dyn_cast<StoreInst>(&i)) { q["p"] = val(x->getPointerOperand()); q["v"] = val(x->getValueOperand()); q["vty"] = ty(x->getValueOperand()->getType()); q["sz"] = (int64_t)DL->getTypeStoreSize(x->getValueOperand()->getType()); }
                else if (auto* x = dyn_cast<GetElementPtrInst>(&i)) {
                    MapVector<Value*, APInt> vo; APInt co(64, 0);
                    bool ok = cast<GEPOperator>(x)->collectOffset(*DL, 64, vo, co);
                    q["p"] = val(x->getPointerOperand()); q["off"] = co.getSExtValue(); q["ok"] = ok; q["inb"] = x->isInBounds();
                    Array t; for (auto& kv : vo) t.push_back(Array{val(kv.first), (int64_t)kv.first->getType()->getIntegerBitWidth(), kv.second.getSExtValue()});
                    q["terms"] = std::move(t); q["sz"] = (int64_t)DL->getTypeAllocSize(x->getSourceElementType()); }
                else if (auto* x = dyn_cast<CallBase>(&i)) {
                    auto* cf = dyn_cast<Function>(x->getCalledOperand()->stripPointerCasts());
                    if (cf) { needg(cf); q["fn"] = cf->getName(); } else q["cv"] = val(x->getCalledOperand());
                    Array as, at; for (auto& a : x->args()) { 
                        if (a->getType()->isMetadataTy()) { as.push_back(Array{"x"}); at.push_back("meta"); continue; }
                        as.push_back(val(a)); at.push_back(ty(a->getType())); }
                    q["args"] = std::move(as); q["aty"] = std::move(at);
                    if (x->doesNotReturn()) q["noreturn"] = true;
                    if (auto* iv = dyn_cast<InvokeInst>(x)) { q["normal"] = bids[iv->getNormalDest()]; q["unwind"] = bids[iv->getUnwindDest()]; } }
                else if (auto* x = dyn_cast<AtomicRMWInst>(&i)) { q["p"] = val(x->getPointerOperand()); q["v"] = val(x->getValOperand()); q["rmw"] = AtomicRMWInst::getOperationName(x->getOperation()); q["sz"] = (int64_t)DL->getTypeStoreSize(x->getValOperand()->getType()); }
                else if (auto* x = dyn_cast<AtomicCmpXchgInst>(&i)) { q["p"] = val(x->getPointerOperand()); q["v"] = val(x->getNewValOperand()); q["expect"] = val(x->getCompareOperand()); q["vty"] = ty(x->getNewValOperand()->getType()); q["sz"] = (int64_t)DL->getTypeStoreSize(x->getNewValOperand()->getType()); }
                else if (auto* x = dyn_cast<BranchInst>(&i)) { Array s; for (unsigned k = 0; k < x->getNumSuccessors(); ++k) s.push_back(bids[x->getSuccessor(k)]); q["succ"] = std::move(s); if (x->isConditional()) q["c"] = val(x->getCondition()); }
                else if (auto* x = dyn_cast<SwitchInst>(&i)) { q["c"] = val(x->getCondition()); q["def"] = bids[x->getDefaultDest()]; Array cs; for (auto& c : x->cases()) cs.push_back(Array{val(c.getCaseValue()), bids[c.getCaseSuccessor()]}); q["cases"] = std::move(cs); }
                else if (auto* x = dyn_cast<PHINode>(&i)) { Array in; for (unsigned k = 0; k < x->getNumIncomingValues(); ++k) in.push_back(Array{val(x->getIncomingValue(k)), bids[x->getIncomingBlock(k)]}); q["in"] = std::move(in); }
                else if (auto* x = dyn_cast<CmpInst>(&i)) { q["pred"] = CmpInst::getPredicateName(x->getPredicate()); q["a"] = val(x->getOperand(0)); q["b"] = val(x->getOperand(1)); q["oty"] = ty(x->getOperand(0)->getType()); }
                else if (auto* x = dyn_cast<CastInst>(&i)) { q["a"] = val(x->getOperand(0)); q["oty"] = ty(x->getOperand(0)->getType()); }
                else if (auto* x = dyn_cast<LandingPadInst>(&i)) { q["cleanup"] = x->isCleanup(); Array cl; for (unsigned k = 0; k < x->getNumClauses(); ++k) cl.push_back(Array{x->isCatch(k) ? "catch" : "filter", val(x->getClause(k))}); q["clauses"] = std::move(cl); }
                else if (auto* x = dyn_cast<ExtractValueInst>(&i)) { q["a"] = val(x->getAggregateOperand()); Array ix; for (auto k : x->indices()) ix.push_back((int64_t)k); q["idx"] = std::move(ix); }
                else if (auto* x = dyn_cast<InsertValueInst>(&i)) { q["a"] = val(x->getAggregateOperand()); q["b"] = val(x->getInsertedValueOperand()); Array ix; for (auto k : x->indices()) ix.push_back((int64_t)k); q["idx"] = std::move(ix); }
                else { Array ops; for (auto& op : i.operands()) ops.push_back(val(op)); q["ops"] = std::move(ops); }
                if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&i)) { if (ob->hasNoSignedWrap()) q["nsw"] = true; if (ob->hasNoUnsignedWrap()) q["nuw"] = true; }
                if (auto* pe = dyn_cast<PossiblyExactOperator>(&i)) { if (pe->isExact()) q["exact"] = true; }
                insts.push_back(std::move(q));
            }
            blocks.push_back(std::move(insts));
        }
        o["blocks"] = std::move(blocks);
        funcs[f->getName()] = std::move(o);
    }
    outs() << JV(Object{{"funcs", std::move(funcs)}, {"decls", std::move(decls)}, {"globals", std::move(globals)}});
    return 0;
}
