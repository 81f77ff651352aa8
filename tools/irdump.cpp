// irdump: links bitcode files, promotes allocas to SSA, and dumps everything reachable
// from the requested roots as JSON for the abstract interpreter.
//   irdump OUT.json root1,root2,... a.bc b.bc ...
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/Utils/Mem2Reg.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/IR/Dominators.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <memory>
#include <cstdio>
using namespace llvm;

static std::string out;
static const DataLayout *DL;
static std::map<const Value*, int> ids;
static std::map<const BasicBlock*, int> bids;
static std::map<std::string,int> files;
static std::vector<std::string> fileList;
static std::vector<const GlobalValue*> work;
static std::set<const GlobalValue*> seen;

static void str(const std::string &s) {
    out += '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { out += '\\'; out += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); out += b; }
        else out += (char)c;
    }
    out += '"';
}
static void num(long long v) { out += std::to_string(v); }

static void touch(const GlobalValue *g) {
    if (seen.insert(g).second) work.push_back(g);
}

static std::string tyname(Type *t) {
    if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
    if (t->isPointerTy()) return "ptr";
    if (t->isFloatTy()) return "f32";
    if (t->isDoubleTy()) return "f64";
    if (t->isVoidTy()) return "void";
    if (t->isX86_FP80Ty()) return "f80";
    if (t->isVectorTy()) return "vec";
    if (t->isStructTy() || t->isArrayTy()) return "agg";
    return "other";
}

static void flatten(const Constant *c, uint64_t off);
static void val(const Value *v);

// flattened initialiser: list of [offset, size, value]
static bool firstFlat;
static void emitFlat(uint64_t off, uint64_t size, const Constant *c) {
    if (!firstFlat) out += ',';
    firstFlat = false;
    out += '['; num(off); out += ','; num(size); out += ','; val(c); out += ']';
}
static void flatten(const Constant *c, uint64_t off) {
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c)) {
        if (!firstFlat) out += ',';
        firstFlat = false;
        out += '['; num(off); out += ','; num(DL->getTypeAllocSize(t)); out += ",[\"z\"]]";
        return;
    }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        if (cd->getElementType()->isIntegerTy(8)) {
            if (!firstFlat) out += ',';
            firstFlat = false;
            out += '['; num(off); out += ','; num(cd->getNumElements()); out += ",[\"d\",\"";
            StringRef d = cd->getRawDataValues();
            for (unsigned char ch : d) { char b[4]; snprintf(b, 4, "%02x", ch); out += b; }
            out += "\"]]";
            return;
        }
        uint64_t es = DL->getTypeAllocSize(cd->getElementType());
        for (unsigned i = 0; i < cd->getNumElements(); i++) emitFlat(off + i * es, es, cd->getElementAsConstant(i));
        return;
    }
    if (auto *cs = dyn_cast<ConstantStruct>(c)) {
        const StructLayout *sl = DL->getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); i++) flatten(cs->getOperand(i), off + sl->getElementOffset(i));
        return;
    }
    if (auto *ca = dyn_cast<ConstantArray>(c)) {
        uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); i++) flatten(ca->getOperand(i), off + i * es);
        return;
    }
    if (isa<UndefValue>(c)) return;
    emitFlat(off, DL->getTypeStoreSize(t), c);
}

static void apint(const APInt &a) {
    SmallString<40> s; a.toStringSigned(s); out += s.str().str();
}

static void val(const Value *v) {
    if (auto *ci = dyn_cast<ConstantInt>(v)) { out += "[\"i\","; num(ci->getBitWidth()); out += ','; apint(ci->getValue()); out += ']'; return; }
    if (isa<ConstantPointerNull>(v)) { out += "[\"n\"]"; return; }
    if (isa<UndefValue>(v)) { out += "[\"u\"]"; return; }
    if (auto *cf = dyn_cast<ConstantFP>(v)) {
        APInt b = cf->getValueAPF().bitcastToAPInt();
        out += "[\"f\","; num(b.getBitWidth()); out += ','; apint(b); out += ']'; return;
    }
    if (auto *ga = dyn_cast<GlobalAlias>(v)) {
        if (auto *t = ga->getAliaseeObject()) { touch(t); out += "[\"g\","; str(t->getName().str()); out += ']'; return; }
    }
    if (auto *g = dyn_cast<GlobalValue>(v)) { touch(g); out += "[\"g\","; str(g->getName().str()); out += ']'; return; }
    if (auto *ce = dyn_cast<ConstantExpr>(v)) {
        if (auto *gep = dyn_cast<GEPOperator>(ce)) {
            APInt off(64, 0);
            if (gep->accumulateConstantOffset(*DL, off)) {
                out += "[\"gep\","; val(gep->getPointerOperand()); out += ','; apint(off); out += ']'; return;
            }
        }
        out += "[\"ce\","; str(ce->getOpcodeName()); out += ",["; 
        for (unsigned i = 0; i < ce->getNumOperands(); i++) { if (i) out += ','; val(ce->getOperand(i)); }
        out += "],"; str(tyname(ce->getType())); out += ']'; return;
    }
    if (auto *c = dyn_cast<Constant>(v)) {
        Type *t = c->getType();
        if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
            if (isa<ConstantAggregateZero>(c)) {
                unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : 0;
                if (n <= 64) { out += "[\"agg\",["; for (unsigned i = 0; i < n; i++) { if (i) out += ','; val(c->getAggregateElement(i)); } out += "]]"; return; }
                out += "[\"z\"]"; return;
            }
            if (auto *cs = dyn_cast<ConstantAggregate>(c)) {
                out += "[\"agg\",["; for (unsigned i = 0; i < cs->getNumOperands(); i++) { if (i) out += ','; val(cs->getOperand(i)); } out += "]]"; return;
            }
        }
        out += "[\"x\"]"; return;
    }
    if (auto *bb = dyn_cast<BasicBlock>(v)) { out += "[\"b\","; num(bids[bb]); out += ']'; return; }
    if (isa<InlineAsm>(v)) { out += "[\"asm\"]"; return; }
    if (isa<MetadataAsValue>(v)) { out += "[\"md\"]"; return; }
    auto it = ids.find(v);
    if (it == ids.end()) { out += "[\"x\"]"; return; }
    out += "[\"v\","; num(it->second); out += ']';
}

static int fileId(const DILocation *l) {
    std::string f = (l->getDirectory().empty() || l->getFilename().starts_with("/")) ? l->getFilename().str() : (l->getDirectory() + "/" + l->getFilename()).str();
    auto it = files.find(f);
    if (it != files.end()) return it->second;
    int id = fileList.size(); files[f] = id; fileList.push_back(f); return id;
}

static void instr(const Instruction &I) {
    out += "{\"o\":"; str(I.getOpcodeName());
    auto idt = ids.find(&I);
    if (idt != ids.end() && !I.getType()->isVoidTy()) { out += ",\"d\":"; num(idt->second); }
    out += ",\"t\":"; str(tyname(I.getType()));
    if (const DebugLoc &dl = I.getDebugLoc()) {
        const DILocation *l = dl.get();
        out += ",\"l\":["; num(fileId(l)); out += ','; num(l->getLine()); out += ','; num(l->getColumn()); out += ']';
    }
    auto ops = [&](const char *k = "a") {
        out += ",\""; out += k; out += "\":[";
        for (unsigned i = 0; i < I.getNumOperands(); i++) { if (i) out += ','; val(I.getOperand(i)); }
        out += ']';
    };
    if (auto *a = dyn_cast<AllocaInst>(&I)) {
        out += ",\"sz\":"; num(DL->getTypeAllocSize(a->getAllocatedType())); out += ",\"n\":"; val(a->getArraySize());
        std::string s; raw_string_ostream os(s); a->getAllocatedType()->print(os, false, true); out += ",\"ty\":"; str(os.str());
        out += ",\"nm\":"; str(a->getName().str());
    } else if (auto *l = dyn_cast<LoadInst>(&I)) {
        out += ",\"sz\":"; num(DL->getTypeStoreSize(l->getType())); ops();
    } else if (auto *s = dyn_cast<StoreInst>(&I)) {
        out += ",\"sz\":"; num(DL->getTypeStoreSize(s->getValueOperand()->getType())); out += ",\"st\":"; str(tyname(s->getValueOperand()->getType())); ops();
    } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        APInt off(64, 0); MapVector<Value*, APInt> vars;
        out += ",\"b\":"; val(g->getPointerOperand());
        out += ",\"ib\":"; num(g->isInBounds());
        if (g->collectOffset(*DL, 64, vars, off)) {
            out += ",\"c\":"; apint(off); out += ",\"x\":[";
            bool f = true;
            for (auto &p : vars) { if (!f) out += ','; f = false; out += '['; val(p.first); out += ','; apint(p.second); out += ','; str(tyname(p.first->getType())); out += ']'; }
            out += ']';
        } else out += ",\"bad\":1";
        std::string s; raw_string_ostream os(s); g->getSourceElementType()->print(os, false, true);
        out += ",\"ty\":"; str(os.str());
    } else if (auto *c = dyn_cast<CallBase>(&I)) {
        out += ",\"f\":"; val(c->getCalledOperand());
        out += ",\"a\":[";
        for (unsigned i = 0; i < c->arg_size(); i++) { if (i) out += ','; val(c->getArgOperand(i)); }
        out += "],\"at\":[";
        for (unsigned i = 0; i < c->arg_size(); i++) {
            if (i) out += ',';
            Type *bv = c->isByValArgument(i) ? c->getParamByValType(i) : nullptr;
            if (bv) num(DL->getTypeAllocSize(bv)); else num(0);
        }
        out += "],\"tys\":[";
        for (unsigned i = 0; i < c->arg_size(); i++) { if (i) out += ','; str(tyname(c->getArgOperand(i)->getType())); }
        out += ']';
        if (auto *iv = dyn_cast<InvokeInst>(&I)) { out += ",\"nb\":"; num(bids[iv->getNormalDest()]); out += ",\"ub\":"; num(bids[iv->getUnwindDest()]); }
    } else if (auto *b = dyn_cast<BranchInst>(&I)) {
        if (b->isConditional()) { out += ",\"c\":"; val(b->getCondition()); out += ",\"s\":["; num(bids[b->getSuccessor(0)]); out += ','; num(bids[b->getSuccessor(1)]); out += ']'; }
        else { out += ",\"s\":["; num(bids[b->getSuccessor(0)]); out += ']'; }
    } else if (auto *s = dyn_cast<SwitchInst>(&I)) {
        out += ",\"c\":"; val(s->getCondition()); out += ",\"w\":"; num(s->getCondition()->getType()->getIntegerBitWidth());
        out += ",\"df\":"; num(bids[s->getDefaultDest()]); out += ",\"cs\":[";
        bool f = true;
        for (auto &cs : s->cases()) { if (!f) out += ','; f = false; out += '['; apint(cs.getCaseValue()->getValue()); out += ','; num(bids[cs.getCaseSuccessor()]); out += ']'; }
        out += ']';
    } else if (auto *p = dyn_cast<PHINode>(&I)) {
        out += ",\"in\":[";
        for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { if (i) out += ','; out += '['; num(bids[p->getIncomingBlock(i)]); out += ','; val(p->getIncomingValue(i)); out += ']'; }
        out += ']';
    } else if (auto *c = dyn_cast<CmpInst>(&I)) {
        out += ",\"p\":"; str(CmpInst::getPredicateName(c->getPredicate()).str()); out += ",\"ct\":"; str(tyname(c->getOperand(0)->getType())); ops();
    } else if (auto *e = dyn_cast<ExtractValueInst>(&I)) {
        out += ",\"ix\":["; bool f = true; for (unsigned x : e->indices()) { if (!f) out += ','; f = false; num(x); } out += ']'; ops();
    } else if (auto *e = dyn_cast<InsertValueInst>(&I)) {
        out += ",\"ix\":["; bool f = true; for (unsigned x : e->indices()) { if (!f) out += ','; f = false; num(x); } out += ']';
        unsigned n = e->getType()->isStructTy() ? e->getType()->getStructNumElements() : 0; out += ",\"n\":"; num(n); ops();
    } else if (auto *lp = dyn_cast<LandingPadInst>(&I)) {
        out += ",\"cl\":"; num(lp->isCleanup()); out += ",\"cc\":[";
        for (unsigned i = 0; i < lp->getNumClauses(); i++) { if (i) out += ','; out += '['; str(lp->isCatch(i) ? "catch" : "filter"); out += ','; val(lp->getClause(i)); out += ']'; }
        out += ']';
    } else if (isa<CastInst>(&I)) {
        out += ",\"ft\":"; str(tyname(I.getOperand(0)->getType())); ops();
    } else if (isa<AtomicRMWInst>(&I)) {
        auto *r = cast<AtomicRMWInst>(&I);
        out += ",\"rop\":"; str(AtomicRMWInst::getOperationName(r->getOperation()).str()); out += ",\"sz\":"; num(DL->getTypeStoreSize(r->getType())); ops();
    } else if (isa<AtomicCmpXchgInst>(&I)) {
        out += ",\"sz\":"; num(DL->getTypeStoreSize(I.getOperand(1)->getType())); ops();
    } else ops();
    out += '}';
}

static void function(const Function &F) {
    ids.clear(); bids.clear();
    int n = 0;
    for (auto &a : F.args()) ids[&a] = n++;
    int b = 0;
    for (auto &B : F) { bids[&B] = b++; for (auto &I : B) ids[&I] = n++; }
    out += "{\"n\":"; str(F.getName().str());
    out += ",\"dm\":"; str(demangle(F.getName().str()));
    out += ",\"na\":"; num(F.arg_size());
    out += ",\"va\":"; num(F.isVarArg());
    out += ",\"rt\":"; str(tyname(F.getReturnType()));
    out += ",\"pt\":["; { bool f = true; for (auto &a : F.args()) { if (!f) out += ','; f = false; str(tyname(a.getType())); } } out += ']';
    out += ",\"sret\":"; num(F.arg_size() && F.hasStructRetAttr() ? 1 : 0);
    if (auto *sp = F.getSubprogram()) {
        std::string f = sp->getFilename().starts_with("/") ? sp->getFilename().str() : (sp->getDirectory() + "/" + sp->getFilename()).str();
        out += ",\"file\":"; str(f); out += ",\"line\":"; num(sp->getLine());
    }
    out += ",\"bl\":[";
    bool fb = true;
    for (auto &B : F) {
        if (!fb) out += ','; fb = false;
        out += '[';
        bool fi = true;
        for (auto &I : B) {
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            if (!fi) out += ','; fi = false;
            out += "\n"; instr(I);
        }
        out += ']';
    }
    out += "]}";
}

int main(int argc, char **argv) {
    if (argc < 4) { fprintf(stderr, "usage\n"); return 2; }
    LLVMContext ctx;
    std::unique_ptr<Module> M;
    SMDiagnostic err;
    for (int i = 3; i < argc; i++) {
        auto m = parseIRFile(argv[i], err, ctx);
        if (!m) { err.print(argv[0], errs()); return 2; }
        if (!M) M = std::move(m);
        else if (Linker::linkModules(*M, std::move(m), Linker::Flags::None)) { fprintf(stderr, "link failed %s\n", argv[i]); return 2; }
    }
    {
        PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        FunctionPassManager FPM; FPM.addPass(PromotePass());
        ModulePassManager MPM; MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
        MPM.run(*M, MAM);
    }
    DL = &M->getDataLayout();
    std::vector<std::string> roots; { std::string r = argv[2], c; for (char ch : r + ",") { if (ch == ',') { if (!c.empty()) roots.push_back(c); c.clear(); } else c += ch; } }
    std::vector<std::string> ctors;
    if (auto *g = M->getGlobalVariable("llvm.global_ctors"))
        if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer()))
            for (auto &o : ca->operands()) { auto *f = cast<ConstantStruct>(o)->getOperand(1); if (auto *fn = dyn_cast<Function>(f)) { ctors.push_back(fn->getName().str()); touch(fn); } }
    for (auto &r : roots) {
        if (r == "*") { for (auto &F : *M) if (!F.isDeclaration()) touch(&F); for (auto &G : M->globals()) touch(&G); continue; }
        if (r.back() == '*') { std::string p = r.substr(0, r.size() - 1); for (auto &F : *M) if (!F.isDeclaration() && F.getName().starts_with(p)) touch(&F); continue; }
        auto *f = M->getNamedValue(r); if (!f) { fprintf(stderr, "no root %s\n", r.c_str()); return 2; } touch(f);
    }
    out += "{\"ctors\":["; for (size_t i = 0; i < ctors.size(); i++) { if (i) out += ','; str(ctors[i]); } out += "],\n\"items\":[";
    bool first = true;
    while (!work.empty()) {
        const GlobalValue *g = work.back(); work.pop_back();
        if (!first) out += ",\n"; first = false;
        if (auto *F = dyn_cast<Function>(g)) {
            if (F->isDeclaration()) { out += "{\"k\":\"decl\",\"n\":"; str(F->getName().str()); out += ",\"dm\":"; str(demangle(F->getName().str())); out += ",\"rt\":"; str(tyname(F->getReturnType())); out += ",\"nr\":"; num(F->doesNotReturn()); out += ",\"sret\":"; num(F->arg_size() && F->hasStructRetAttr() ? 1 : 0); out += '}'; }
            else { out += "{\"k\":\"fn\",\"f\":"; function(*F); out += '}'; }
        } else if (auto *V = dyn_cast<GlobalVariable>(g)) {
            out += "{\"k\":\"var\",\"n\":"; str(V->getName().str()); out += ",\"dm\":"; str(demangle(V->getName().str()));
            out += ",\"sz\":"; num(V->getValueType()->isSized() ? (long long)DL->getTypeAllocSize(V->getValueType()) : 0);
            out += ",\"const\":"; num(V->isConstant()); out += ",\"tls\":"; num(V->isThreadLocal()); out += ",\"ext\":"; num(V->isDeclaration());
            { std::string s; raw_string_ostream os(s); V->getValueType()->print(os, false, true); out += ",\"ty\":"; str(os.str()); }
            SmallVector<DIGlobalVariableExpression*, 1> gvs; V->getDebugInfo(gvs);
            if (!gvs.empty()) { auto *dv = gvs[0]->getVariable(); out += ",\"dbg\":"; str((dv->getFilename().starts_with("/") ? dv->getFilename().str() : (dv->getDirectory() + "/" + dv->getFilename()).str()) + ":" + std::to_string(dv->getLine()));
                out += ",\"dn\":"; str(dv->getName().str()); }
            if (V->hasInitializer()) { out += ",\"init\":["; firstFlat = true; flatten(V->getInitializer(), 0); out += ']'; }
            out += '}';
        } else { out += "{\"k\":\"other\",\"n\":"; str(g->getName().str()); out += '}'; }
    }
    out += "],\n\"files\":["; for (size_t i = 0; i < fileList.size(); i++) { if (i) out += ','; str(fileList[i]); } out += "]}\n";
    FILE *f = fopen(argv[1], "w"); if (!f) return 2; fwrite(out.data(), 1, out.size(), f); fclose(f);
    return 0;
}
