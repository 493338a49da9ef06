// irdump: prints LLVM IR (bitcode or text) as JSON for the verification condition generator.
// Purely syntactic: nothing is dropped except metadata, attributes that do not change
// semantics, and lifetime/debug intrinsics. `inbounds`, `nsw`, `nuw`, `exact` flags are
// not carried (source-level undefined behavior is trapped explicitly by UBSan checks).
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/CFG.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/ScalarEvolution.h>
#include <llvm/Analysis/TargetLibraryInfo.h>
#include <llvm/Analysis/AssumptionCache.h>
#include <llvm/TargetParser/Triple.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/MapVector.h>
#include <llvm/ADT/SmallString.h>
#include <map>
using namespace llvm;
static raw_ostream* O;
static const DataLayout* DL;
static std::map<const Value*, int> ids;
static std::map<const BasicBlock*, int> bbs;

static void str(StringRef s) {
    *O << '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') *O << '\\' << c;
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); *O << b; }
        else *O << c;
    }
    *O << '"';
}
static void ty(Type* t) {
    if (t->isIntegerTy()) { *O << "\"i" << t->getIntegerBitWidth() << "\""; return; }
    if (t->isPointerTy()) { *O << "\"p\""; return; }
    if (t->isFloatTy()) { *O << "\"float\""; return; }
    if (t->isDoubleTy()) { *O << "\"double\""; return; }
    if (t->isX86_FP80Ty()) { *O << "\"x86_fp80\""; return; }
    if (t->isVoidTy()) { *O << "\"void\""; return; }
    if (auto* s = dyn_cast<StructType>(t)) {
        if (!s->isSized()) { *O << "\"opaque\""; return; }
        auto* l = DL->getStructLayout(s);
        *O << "{\"s\":[";
        for (unsigned i = 0; i < s->getNumElements(); ++i) { if (i) *O << ","; ty(s->getElementType(i)); }
        *O << "],\"o\":[";
        for (unsigned i = 0; i < s->getNumElements(); ++i) { if (i) *O << ","; *O << (uint64_t)l->getElementOffset(i); }
        *O << "],\"z\":" << (uint64_t)l->getSizeInBytes() << "}";
        return;
    }
    if (auto* a = dyn_cast<ArrayType>(t)) {
        *O << "{\"a\":"; ty(a->getElementType());
        *O << ",\"n\":" << a->getNumElements() << ",\"e\":" << (uint64_t)DL->getTypeAllocSize(a->getElementType()) << "}";
        return;
    }
    if (auto* v = dyn_cast<FixedVectorType>(t)) {
        *O << "{\"v\":"; ty(v->getElementType());
        *O << ",\"n\":" << v->getNumElements() << ",\"e\":" << (uint64_t)DL->getTypeAllocSize(v->getElementType()) << "}";
        return;
    }
    *O << "\"other\"";
}
static void op(const Value* v);
static void apint(const APInt& a) { SmallString<40> s; a.toStringUnsigned(s); *O << s; }
static void constant(const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) { *O << "[\"c\"," << ci->getBitWidth() << ","; apint(ci->getValue()); *O << "]"; return; }
    if (isa<ConstantPointerNull>(c)) { *O << "[\"n\"]"; return; }
    if (isa<UndefValue>(c)) { *O << "[\"u\","; ty(c->getType()); *O << "]"; return; }
    if (auto* f = dyn_cast<Function>(c)) { *O << "[\"f\","; str(f->getName()); *O << "]"; return; }
    if (auto* a = dyn_cast<GlobalAlias>(c)) { constant(a->getAliasee()); return; }
    if (auto* g = dyn_cast<GlobalVariable>(c)) { *O << "[\"g\","; str(g->getName()); *O << ",0]"; return; }
    if (auto* f = dyn_cast<ConstantFP>(c)) { *O << "[\"fp\","; ty(c->getType()); *O << ","; apint(f->getValueAPF().bitcastToAPInt()); *O << "]"; return; }
    if (isa<ConstantAggregateZero>(c)) { *O << "[\"z\","; ty(c->getType()); *O << "]"; return; }
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
        *O << "[\"agg\","; ty(c->getType()); *O << ",[";
        for (unsigned i = 0; i < d->getNumElements(); ++i) { if (i) *O << ","; constant(d->getElementAsConstant(i)); }
        *O << "]]"; return;
    }
    if (isa<ConstantAggregate>(c)) {
        *O << "[\"agg\","; ty(c->getType()); *O << ",[";
        for (unsigned i = 0; i < c->getNumOperands(); ++i) { if (i) *O << ","; op(c->getOperand(i)); }
        *O << "]]"; return;
    }
    if (auto* e = dyn_cast<ConstantExpr>(c)) {
        if (auto* g = dyn_cast<GEPOperator>(c)) {
            APInt off(64, 0);
            if (g->accumulateConstantOffset(*DL, off)) {
                *O << "[\"ce\",\"gep\",\"p\",["; op(g->getPointerOperand()); *O << ",[\"c\",64,"; apint(off); *O << "]]]"; return;
            }
        }
        *O << "[\"ce\","; str(e->getOpcodeName()); *O << ","; ty(e->getType()); *O << ",[";
        for (unsigned i = 0; i < e->getNumOperands(); ++i) { if (i) *O << ","; op(e->getOperand(i)); }
        *O << "]]"; return;
    }
    *O << "[\"?\",\"const\"]";
}
static void op(const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) { constant(c); return; }
    auto i = ids.find(v);
    if (i != ids.end()) { *O << "[\"l\"," << i->second << "]"; return; }
    *O << "[\"?\",\"val\"]";
}
static void dbg(const Instruction& I) {
    if (auto& d = I.getDebugLoc()) {
        std::string f = d->getFilename().str();
        std::string s = f + ":" + std::to_string(d.getLine());
        *O << ",\"d\":"; str(s);
    }
}
static void init(const Constant* c, uint64_t off, bool& first) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) {
        if (!first) *O << ","; first = false;
        *O << "[" << off << ",\"z\"," << (uint64_t)DL->getTypeAllocSize(t) << "]"; return;
    }
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
        if (!first) *O << ","; first = false;
        *O << "[" << off << ",\"d\",\"";
        StringRef r = d->getRawDataValues();
        for (unsigned char ch : r) { char b[3]; snprintf(b, 3, "%02x", ch); *O << b; }
        *O << "\"]"; return;
    }
    if (auto* s = dyn_cast<ConstantStruct>(c)) {
        auto* l = DL->getStructLayout(s->getType());
        for (unsigned i = 0; i < s->getNumOperands(); ++i) init(s->getOperand(i), off + l->getElementOffset(i), first);
        return;
    }
    if (auto* a = dyn_cast<ConstantArray>(c)) {
        uint64_t e = DL->getTypeAllocSize(a->getType()->getElementType());
        for (unsigned i = 0; i < a->getNumOperands(); ++i) init(a->getOperand(i), off + i * e, first);
        return;
    }
    if (!first) *O << ","; first = false;
    *O << "[" << off << ",\"v\","; ty(t); *O << ","; constant(c); *O << "]";
}
int main(int argc, char** argv) {
    LLVMContext ctx; SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print("irdump", errs()); return 2; }
    DL = &M->getDataLayout();
    O = &outs();
    *O << "{\"globals\":[\n";
    bool fg = true;
    for (auto& g : M->globals()) {
        if (!g.getValueType()->isSized()) continue;
        if (!fg) *O << ",\n"; fg = false;
        *O << "{\"n\":"; str(g.getName()); *O << ",\"z\":" << (uint64_t)DL->getTypeAllocSize(g.getValueType())
           << ",\"k\":" << (g.isConstant() ? 1 : 0) << ",\"h\":" << (g.hasDefinitiveInitializer() || (g.hasInitializer() && g.isConstant()) ? 1 : (g.hasInitializer() ? 1 : 0)) << ",\"i\":[";
        if (g.hasInitializer()) { bool f = true; init(g.getInitializer(), 0, f); }
        *O << "]}";
    }
    *O << "],\"funcs\":[\n";
    bool ff = true;
    for (auto& F : *M) {
        if (F.isDeclaration()) continue;
        if (!ff) *O << ",\n"; ff = false;
        ids.clear(); bbs.clear();
        int n = 0, nb = 0;
        for (auto& a : F.args()) ids[&a] = n++;
        for (auto& b : F) { bbs[&b] = nb++; for (auto& i : b) if (!i.getType()->isVoidTy()) ids[&i] = n++; }
        *O << "{\"n\":"; str(F.getName()); *O << ",\"args\":[";
        bool f1 = true;
        for (auto& a : F.args()) { if (!f1) *O << ","; f1 = false; *O << "["; ty(a.getType()); *O << "," << (a.hasByValAttr() ? (uint64_t)DL->getTypeAllocSize(a.getParamByValType()) : 0) << "]"; }
        *O << "],\"ret\":"; ty(F.getReturnType());
        *O << ",\"nv\":" << n << ",\"blocks\":[\n";
        bool f2 = true;
        for (auto& B : F) {
            if (!f2) *O << ",\n"; f2 = false;
            *O << "[";
            bool f3 = true;
            for (auto& I : B) {
                if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
                    auto id = ii->getIntrinsicID();
                    if (ii->isLifetimeStartOrEnd() || isa<DbgInfoIntrinsic>(ii) || id == Intrinsic::assume ||
                        id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing) continue;
                }
                if (!f3) *O << ","; f3 = false;
                *O << "\n {\"o\":"; str(I.getOpcodeName());
                if (!I.getType()->isVoidTy()) *O << ",\"i\":" << ids[&I];
                *O << ",\"t\":"; ty(I.getType());
                if (auto* p = dyn_cast<PHINode>(&I)) {
                    *O << ",\"a\":[";
                    for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) { if (i) *O << ","; *O << "["; op(p->getIncomingValue(i)); *O << "," << bbs[p->getIncomingBlock(i)] << "]"; }
                    *O << "]";
                }
                else if (auto* b = dyn_cast<BranchInst>(&I)) {
                    *O << ",\"a\":["; if (b->isConditional()) op(b->getCondition());
                    *O << "],\"b\":[";
                    for (unsigned i = 0; i < b->getNumSuccessors(); ++i) { if (i) *O << ","; *O << bbs[b->getSuccessor(i)]; }
                    *O << "]";
                }
                else if (auto* s = dyn_cast<SwitchInst>(&I)) {
                    *O << ",\"a\":["; op(s->getCondition()); *O << "],\"df\":" << bbs[s->getDefaultDest()] << ",\"cs\":[";
                    bool f = true;
                    for (auto& c : s->cases()) { if (!f) *O << ","; f = false; *O << "["; apint(c.getCaseValue()->getValue()); *O << "," << bbs[c.getCaseSuccessor()] << "]"; }
                    *O << "]";
                }
                else if (auto* c = dyn_cast<CallBase>(&I)) {
                    *O << ",\"f\":"; if (c->isInlineAsm()) *O << "[\"asm\"]"; else op(c->getCalledOperand()->stripPointerCasts());
                    *O << ",\"a\":["; bool f = true;
                    for (auto& a : c->args()) { if (!f) *O << ","; f = false; if (a->getType()->isMetadataTy()) *O << "[\"md\"]"; else op(a); }
                    *O << "],\"at\":["; f = true;
                    for (auto& a : c->args()) { if (!f) *O << ","; f = false; if (a->getType()->isMetadataTy()) *O << "\"md\""; else ty(a->getType()); }
                    *O << "]";
                    bool anybv = false; for (unsigned i = 0; i < c->arg_size(); ++i) anybv |= c->isByValArgument(i);
                    if (anybv) { *O << ",\"bv\":["; for (unsigned i = 0; i < c->arg_size(); ++i) { if (i) *O << ","; *O << (c->isByValArgument(i) ? (uint64_t)DL->getTypeAllocSize(c->getParamByValType(i)) : 0); } *O << "]"; }
                    if (auto* iv = dyn_cast<InvokeInst>(c)) *O << ",\"b\":[" << bbs[iv->getNormalDest()] << "," << bbs[iv->getUnwindDest()] << "]";
                }
                else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
                    MapVector<Value*, APInt> vo; APInt co(64, 0);
                    bool ok = !g->getType()->isVectorTy() && g->collectOffset(*DL, 64, vo, co);
                    *O << ",\"ok\":" << (ok ? 1 : 0) << ",\"a\":["; op(g->getPointerOperand()); *O << "],\"k\":"; apint(co); *O << ",\"v\":[";
                    bool f = true;
                    for (auto& e : vo) { if (!f) *O << ","; f = false; *O << "["; op(e.first); *O << "," << e.first->getType()->getIntegerBitWidth() << ","; apint(e.second); *O << "]"; }
                    *O << "]";
                }
                else if (auto* a = dyn_cast<AllocaInst>(&I)) {
                    *O << ",\"z\":" << (uint64_t)DL->getTypeAllocSize(a->getAllocatedType()) << ",\"a\":["; op(a->getArraySize()); *O << "]";
                }
                else {
                    *O << ",\"a\":[";
                    for (unsigned i = 0; i < I.getNumOperands(); ++i) { if (i) *O << ","; op(I.getOperand(i)); }
                    *O << "]";
                    if (auto* c = dyn_cast<CmpInst>(&I)) { *O << ",\"p\":"; str(CmpInst::getPredicateName(c->getPredicate())); *O << ",\"ot\":"; ty(c->getOperand(0)->getType()); }
                    if (isa<CastInst>(I)) { *O << ",\"ot\":"; ty(I.getOperand(0)->getType()); }
                    if (auto* s = dyn_cast<StoreInst>(&I)) { *O << ",\"ot\":"; ty(s->getValueOperand()->getType()); }
                    if (auto* e = dyn_cast<ExtractValueInst>(&I)) { *O << ",\"x\":["; bool f = true; for (auto i : e->indices()) { if (!f) *O << ","; f = false; *O << i; } *O << "]"; }
                    if (auto* e = dyn_cast<InsertValueInst>(&I)) { *O << ",\"x\":["; bool f = true; for (auto i : e->indices()) { if (!f) *O << ","; f = false; *O << i; } *O << "]"; }
                    if (auto* l = dyn_cast<LandingPadInst>(&I)) {
                        *O << ",\"cl\":" << (l->isCleanup() ? 1 : 0) << ",\"cs\":["; bool f = true;
                        for (unsigned i = 0; i < l->getNumClauses(); ++i) { if (!f) *O << ","; f = false; *O << "[" << (l->isCatch(i) ? 1 : 0) << ","; op(l->getClause(i)); *O << "]"; }
                        *O << "]";
                    }
                    if (auto* r = dyn_cast<AtomicRMWInst>(&I)) { *O << ",\"rm\":"; str(AtomicRMWInst::getOperationName(r->getOperation())); }
                }
                dbg(I);
                *O << "}";
            }
            *O << "]";
        }
        *O << "],\"loops\":[";
        DominatorTree DT(F); LoopInfo LI(DT); TargetLibraryInfoImpl TLII(Triple(M->getTargetTriple())); TargetLibraryInfo TLI(TLII); AssumptionCache AC(F); ScalarEvolution SE(F, TLI, AC, DT, LI);
        bool f5 = true;
        for (auto* L : LI.getLoopsInPreorder()) {
            if (!f5) *O << ","; f5 = false;
            *O << "[" << bbs[L->getHeader()] << ",[";
            bool f = true;
            for (auto* b : L->blocks()) { if (!f) *O << ","; f = false; *O << bbs[b]; }
            *O << "]," << SE.getSmallConstantMaxTripCount(L) << "]";
        }
        *O << "]}";
    }
    *O << "]}\n";
    return 0;
}
