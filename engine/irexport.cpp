// irexport: read LLVM bitcode produced by clang from the real sources plus a
// contract file, normalise it with a few semantics-preserving LLVM passes, and
// print the functions reachable from the contract entry points as JSON.
//   irexport in.bc out.json ENTRY_PREFIX LEAF_PREFIX_FILE
#include <llvm/ADT/SmallVector.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static const DataLayout *DL;
static std::string jstr(StringRef s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
static std::string num(uint64_t v) { return std::to_string(v); }
static std::string ty(Type *t) {
    if (t->isVoidTy()) return "\"v\"";
    if (t->isIntegerTy()) return "\"i" + num(t->getIntegerBitWidth()) + "\"";
    if (t->isPointerTy()) return "\"p\"";
    if (t->isDoubleTy()) return "\"d\"";
    if (t->isFloatTy()) return "\"f\"";
    if (t->isX86_FP80Ty()) return "\"ld\"";
    if (auto *s = dyn_cast<StructType>(t)) {
        if (s->isOpaque()) return "\"opaque\"";
        std::string o = "{\"s\":[";
        auto *L = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); ++i)
            o += (i ? "," : "") + std::string("[") + num(L->getElementOffset(i)) + "," + ty(s->getElementType(i)) + "]";
        return o + "],\"z\":" + num(DL->getTypeAllocSize(s)) + "}";
    }
    if (auto *a = dyn_cast<ArrayType>(t))
        return "{\"a\":" + num(a->getNumElements()) + ",\"e\":" + ty(a->getElementType()) + ",\"es\":" +
               num(DL->getTypeAllocSize(a->getElementType())) + ",\"z\":" + num(DL->getTypeAllocSize(a)) + "}";
    if (auto *v = dyn_cast<FixedVectorType>(t))
        return "{\"vec\":" + num(v->getNumElements()) + ",\"e\":" + ty(v->getElementType()) + ",\"es\":" +
               num(DL->getTypeAllocSize(v->getElementType())) + ",\"z\":" + num(DL->getTypeAllocSize(v)) + "}";
    return "\"?\"";
}
static std::set<const GlobalValue *> gvseen;
static std::vector<const GlobalValue *> gvwork;
static void noteGV(const GlobalValue *g) {
    if (gvseen.insert(g).second) gvwork.push_back(g);
}
static std::map<const Value *, int> ids;
static std::string cst(const Constant *c);
static std::string fpv(const ConstantFP *f) {
    bool li; APFloat v = f->getValueAPF();
    v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    char b[64]; snprintf(b, 64, "%.17g", v.convertToDouble());
    return std::string("[\"f\",") + jstr(b) + "," + ty(f->getType()) + "]";
}
static std::string cst(const Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
        SmallString<40> s; ci->getValue().toString(s, 10, false);
        return "[\"i\"," + num(ci->getBitWidth()) + "," + jstr(s) + "]";
    }
    if (isa<ConstantPointerNull>(c)) return "[\"n\"]";
    if (isa<UndefValue>(c)) return "[\"u\"," + ty(c->getType()) + "]";
    if (auto *f = dyn_cast<ConstantFP>(c)) return fpv(f);
    if (auto *a = dyn_cast<GlobalAlias>(c)) return cst(a->getAliasee());
    if (auto *g = dyn_cast<GlobalValue>(c)) { noteGV(g); return "[\"g\"," + jstr(g->getName()) + ",0]"; }
    if (isa<ConstantAggregateZero>(c)) return "[\"z\"," + ty(c->getType()) + "]";
    if (auto *a = dyn_cast<ConstantAggregate>(c)) {
        std::string o = "[\"agg\"," + ty(c->getType()) + ",[";
        for (unsigned i = 0; i < a->getNumOperands(); ++i) o += (i ? "," : "") + cst(a->getOperand(i));
        return o + "]]";
    }
    if (auto *d = dyn_cast<ConstantDataSequential>(c)) {
        std::string o = "[\"agg\"," + ty(c->getType()) + ",[";
        for (unsigned i = 0; i < d->getNumElements(); ++i) o += (i ? "," : "") + cst(d->getElementAsConstant(i));
        return o + "]]";
    }
    if (auto *e = dyn_cast<ConstantExpr>(c)) {
        if (auto *g = dyn_cast<GEPOperator>(e)) {
            APInt off(64, 0);
            if (g->accumulateConstantOffset(*DL, off)) {
                const Constant *b = cast<Constant>(g->getPointerOperand());
                return "[\"ce\",\"gep\"," + cst(b) + "," + std::to_string(off.getSExtValue()) + "]";
            }
        }
        if (e->getOpcode() == Instruction::PtrToInt || e->getOpcode() == Instruction::IntToPtr ||
            e->getOpcode() == Instruction::BitCast || e->getOpcode() == Instruction::Trunc)
            return std::string("[\"ce\",") + jstr(e->getOpcodeName()) + "," + cst(e->getOperand(0)) + "," + ty(e->getType()) + "]";
        if (e->getNumOperands() == 2)
            return std::string("[\"ce2\",") + jstr(e->getOpcodeName()) + "," + cst(e->getOperand(0)) + "," + cst(e->getOperand(1)) + "," + ty(e->getType()) + "]";
    }
    return "[\"bad\"]";
}
static std::string op(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return cst(c);
    if (isa<MetadataAsValue>(v)) return "[\"m\"]";
    if (isa<InlineAsm>(v)) return "[\"asm\"]";
    auto it = ids.find(v);
    if (it == ids.end()) return "[\"bad\"]";
    return "[\"v\"," + num(it->second) + "]";
}

static void emitFn(raw_ostream &os, Function &F) {
    ids.clear();
    std::map<const BasicBlock *, int> bid;
    int n = 0, b = 0;
    for (auto &a : F.args()) ids[&a] = n++;
    for (auto &B : F) { bid[&B] = b++; for (auto &I : B) ids[&I] = n++; }
    DominatorTree DT(F); LoopInfo LI(DT);
    os << "{\"name\":" << jstr(F.getName()) << ",\"dem\":" << jstr(demangle(F.getName().str())) << ",\"nargs\":" << F.arg_size()
       << ",\"ret\":" << ty(F.getReturnType()) << ",\"va\":" << (F.isVarArg() ? 1 : 0) << ",\"byval\":[";
    for (unsigned i = 0; i < F.arg_size(); ++i)
        os << (i ? "," : "") << (F.hasParamAttribute(i, Attribute::ByVal) ? DL->getTypeAllocSize(F.getParamByValType(i)).getFixedValue() : 0);
    os << "],\"argt\":[";
    for (unsigned i = 0; i < F.arg_size(); ++i) os << (i ? "," : "") << ty(F.getArg(i)->getType());
    os << "],\"loops\":[";
    bool first = true;
    for (Loop *L : LI.getLoopsInPreorder()) {
        os << (first ? "" : ",") << "[" << bid[L->getHeader()] << ",[";
        first = false;
        bool f2 = true;
        for (auto *B : L->blocks()) { os << (f2 ? "" : ",") << bid[B]; f2 = false; }
        os << "]]";
    }
    os << "],\"blocks\":[";
    bool fb = true;
    for (auto &B : F) {
        os << (fb ? "[" : ",\n[");
        fb = false;
        bool fi = true;
        for (auto &I : B) {
            if (I.isDebugOrPseudoInst()) continue;
            os << (fi ? "" : ",");
            fi = false;
            os << "{\"o\":\"" << I.getOpcodeName() << "\",\"d\":" << ids[&I] << ",\"t\":" << ty(I.getType());
            if (auto &dl = I.getDebugLoc()) {
                auto *sc = cast<DIScope>(dl.getScope());
                os << ",\"l\":" << jstr((sc->getFilename() + ":" + Twine(dl.getLine())).str());
            }
            auto args = [&](unsigned cnt) {
                os << ",\"a\":[";
                for (unsigned i = 0; i < cnt; ++i) os << (i ? "," : "") << op(I.getOperand(i));
                os << "]";
            };
            if (auto *p = dyn_cast<PHINode>(&I)) {
                os << ",\"in\":[";
                for (unsigned i = 0; i < p->getNumIncomingValues(); ++i)
                    os << (i ? "," : "") << "[" << bid[p->getIncomingBlock(i)] << "," << op(p->getIncomingValue(i)) << "]";
                os << "]";
            } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
                MapVector<Value *, APInt> vo; APInt co(64, 0);
                os << ",\"a\":[" << op(g->getPointerOperand()) << "]";
                if (cast<GEPOperator>(g)->collectOffset(*DL, 64, vo, co)) {
                    os << ",\"c\":" << co.getSExtValue() << ",\"x\":[";
                    bool f = true;
                    for (auto &kv : vo) {
                        os << (f ? "" : ",") << "[" << op(kv.first) << "," << kv.first->getType()->getIntegerBitWidth() << "," << kv.second.getSExtValue() << "]";
                        f = false;
                    }
                    os << "]";
                } else os << ",\"bad\":1";
            } else if (auto *cb = dyn_cast<CallBase>(&I)) {
                Value *cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
                os << ",\"f\":" << op(cv) << ",\"a\":[";
                for (unsigned i = 0; i < cb->arg_size(); ++i) os << (i ? "," : "") << op(cb->getArgOperand(i));
                os << "],\"at\":[";
                for (unsigned i = 0; i < cb->arg_size(); ++i) os << (i ? "," : "") << ty(cb->getArgOperand(i)->getType());
                os << "],\"bv\":[";
                for (unsigned i = 0; i < cb->arg_size(); ++i)
                    os << (i ? "," : "") << (cb->isByValArgument(i) ? DL->getTypeAllocSize(cb->getParamByValType(i)).getFixedValue() : 0);
                os << "],\"nr\":" << (cb->doesNotReturn() ? 1 : 0);
                if (auto *iv = dyn_cast<InvokeInst>(cb))
                    os << ",\"n\":" << bid[iv->getNormalDest()] << ",\"u\":" << bid[iv->getUnwindDest()];
            } else if (auto *br = dyn_cast<BranchInst>(&I)) {
                if (br->isConditional())
                    os << ",\"a\":[" << op(br->getCondition()) << "],\"s\":[" << bid[br->getSuccessor(0)] << "," << bid[br->getSuccessor(1)] << "]";
                else os << ",\"a\":[],\"s\":[" << bid[br->getSuccessor(0)] << "]";
            } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
                os << ",\"a\":[" << op(sw->getCondition()) << "],\"df\":" << bid[sw->getDefaultDest()] << ",\"cs\":[";
                bool f = true;
                for (auto &c : sw->cases()) { os << (f ? "" : ",") << "[" << cst(c.getCaseValue()) << "," << bid[c.getCaseSuccessor()] << "]"; f = false; }
                os << "]";
            } else if (auto *lp = dyn_cast<LandingPadInst>(&I)) {
                os << ",\"cl\":" << (lp->isCleanup() ? 1 : 0) << ",\"c\":[";
                for (unsigned i = 0; i < lp->getNumClauses(); ++i)
                    os << (i ? "," : "") << "[" << (lp->isCatch(i) ? 1 : 0) << "," << cst(lp->getClause(i)) << "]";
                os << "]";
            } else if (auto *al = dyn_cast<AllocaInst>(&I)) {
                args(1);
                os << ",\"z\":" << DL->getTypeAllocSize(al->getAllocatedType());
            } else if (auto *ic = dyn_cast<CmpInst>(&I)) {
                os << ",\"p\":\"" << CmpInst::getPredicateName(ic->getPredicate()).str() << "\",\"ot\":" << ty(ic->getOperand(0)->getType());
                args(2);
            } else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
                args(1); os << ",\"ix\":[";
                for (unsigned i = 0; i < ev->getNumIndices(); ++i) os << (i ? "," : "") << ev->getIndices()[i];
                os << "]";
            } else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
                args(2); os << ",\"ix\":[";
                for (unsigned i = 0; i < iv->getNumIndices(); ++i) os << (i ? "," : "") << iv->getIndices()[i];
                os << "]";
            } else if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) {
                args(2); os << ",\"rm\":\"" << AtomicRMWInst::getOperationName(rm->getOperation()).str() << "\"";
            } else if (isa<StoreInst>(&I)) {
                args(2); os << ",\"ot\":" << ty(I.getOperand(0)->getType());
            } else if (isa<CastInst>(&I)) {
                args(1); os << ",\"ot\":" << ty(I.getOperand(0)->getType());
            } else {
                args(I.getNumOperands());
                if (auto *pe = dyn_cast<PossiblyExactOperator>(&I)) os << ",\"ex\":" << (pe->isExact() ? 1 : 0);
                if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&I))
                    os << ",\"nsw\":" << (ob->hasNoSignedWrap() ? 1 : 0) << ",\"nuw\":" << (ob->hasNoUnsignedWrap() ? 1 : 0);
            }
            os << "}";
        }
        os << "]";
    }
    os << "]}";
}

int main(int argc, char **argv) {
    LLVMContext ctx; SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print("irexport", errs()); return 2; }
    DL = &M->getDataLayout();
    std::string prefix = argv[3];
    std::vector<std::string> leaf;
    { std::ifstream f(argv[4]); std::string l; while (std::getline(f, l)) if (!l.empty() && l[0] != '#') leaf.push_back(l); }
    {
        PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
        ModulePassManager MPM;
        if (auto e = PB.parsePassPipeline(MPM, argc > 5 ? argv[5] : "function(sroa,early-cse,simplifycfg,instsimplify,lowerswitch,loop-simplify)")) { errs() << toString(std::move(e)) << "\n"; return 2; }
        MPM.run(*M, MAM);
    }
    std::error_code ec; raw_fd_ostream os(argv[2], ec);
    auto isLeaf = [&](const Function &F) {
        std::string d = F.getName().str();
        for (auto &r : leaf) if (d.compare(0, r.size(), r) == 0) return true;
        return false;
    };
    for (auto &F : *M) if (!F.isDeclaration() && (F.getName().starts_with(prefix) || F.getName().starts_with("st_"))) noteGV(&F);
    os << "{\"functions\":[\n";
    std::vector<std::string> globals; bool first = true;
    std::string decls;
    while (!gvwork.empty()) {
        auto *g = gvwork.back(); gvwork.pop_back();
        if (auto *F = dyn_cast<Function>(g)) {
            if (F->isDeclaration() || (!F->getName().starts_with(prefix) && !F->getName().starts_with("st_") && isLeaf(*F))) {
                decls += (decls.empty() ? "" : ",\n") + std::string("[") + jstr(F->getName()) + "," + jstr(demangle(F->getName().str())) + "," + ty(F->getReturnType()) + "," + num(F->isDeclaration() ? 0 : 1) + "]";
                continue;
            }
            if (!first) os << ",\n";
            first = false;
            emitFn(os, *const_cast<Function *>(F));
        } else if (auto *V = dyn_cast<GlobalVariable>(g)) {
            std::string s = "[" + jstr(V->getName()) + "," + (V->getValueType()->isSized() ? num(DL->getTypeAllocSize(V->getValueType())) : "0") + "," + num(V->isConstant()) + ",";
            if (V->hasInitializer()) s += cst(V->getInitializer()) + "," + ty(V->getValueType()); else s += "null,null";
            globals.push_back(s + "]");
        }
    }
    os << "\n],\"decls\":[" << decls << "],\"globals\":[\n";
    for (size_t i = 0; i < globals.size(); ++i) os << (i ? ",\n" : "") << globals[i];
    os << "\n]}\n";
    return 0;
}
