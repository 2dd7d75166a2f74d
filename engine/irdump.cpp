// irdump: serves the LLVM IR of one linked bitcode module, function by function, as JSON lines.
// It is the mechanical extraction step of the verifier: nothing is rewritten by hand here; every
// function body that reaches the VC generator is what clang produced from /repo's current sources,
// after the (semantics-preserving) passes sroa/early-cse/simplifycfg/loop-simplify/lcssa run by `opt`.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <iostream>
#include <map>
#include <functional>
using namespace llvm;
namespace J = llvm::json;

static const DataLayout *DL;

static J::Value ty(Type *t) {
	if (t->isVoidTy()) return "v";
	if (t->isIntegerTy()) return J::Value("i" + std::to_string(t->getIntegerBitWidth()));
	if (t->isPointerTy()) return "p";
	if (t->isDoubleTy()) return "d";
	if (t->isFloatTy()) return "f";
	if (t->isX86_FP80Ty()) return "x";
	if (auto *st = dyn_cast<StructType>(t)) {
		J::Array a; a.push_back("s"); a.push_back((int64_t)DL->getTypeAllocSize(st));
		auto *sl = DL->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); i++)
			a.push_back(J::Array{(int64_t)sl->getElementOffset(i), ty(st->getElementType(i))});
		return a;
	}
	if (auto *at = dyn_cast<ArrayType>(t))
		return J::Array{"a", (int64_t)at->getNumElements(), (int64_t)DL->getTypeAllocSize(at->getElementType()), ty(at->getElementType())};
	if (auto *vt = dyn_cast<FixedVectorType>(t))
		return J::Array{"vec", (int64_t)vt->getNumElements(), ty(vt->getElementType())};
	if (t->isMetadataTy()) return "m";
	if (t->isTokenTy()) return "tok";
	return "?";
}

static J::Value cst(const Constant *c);
static J::Value cst(const Constant *c) {
	if (auto *ci = dyn_cast<ConstantInt>(c)) {
		SmallString<40> s; ci->getValue().toStringUnsigned(s);
		return J::Array{"i", (int64_t)ci->getBitWidth(), std::string(s.str())};
	}
	if (isa<ConstantPointerNull>(c)) return J::Array{"null"};
	if (isa<UndefValue>(c)) return J::Array{"undef", ty(c->getType())};
	if (isa<ConstantAggregateZero>(c)) return J::Array{"zero", ty(c->getType())};
	if (auto *fp = dyn_cast<ConstantFP>(c)) {
		SmallString<40> s; fp->getValueAPF().bitcastToAPInt().toStringUnsigned(s);
		return J::Array{"fp", ty(c->getType()), std::string(s.str())};
	}
	if (auto *gv = dyn_cast<GlobalAlias>(c)) return cst(gv->getAliasee());
	if (auto *gv = dyn_cast<GlobalValue>(c)) return J::Array{"g", gv->getName().str(), 0};
	if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
		J::Array a; for (auto &o : ca->operands()) a.push_back(cst(cast<Constant>(o)));
		return J::Array{"agg", ty(c->getType()), std::move(a)};
	}
	if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
		J::Array a; for (unsigned i = 0; i < cd->getNumElements(); i++) a.push_back(cst(cd->getElementAsConstant(i)));
		return J::Array{"agg", ty(c->getType()), std::move(a)};
	}
	if (auto *ce = dyn_cast<ConstantExpr>(c)) {
		if (ce->getOpcode() == Instruction::GetElementPtr) {
			APInt off(64, 0);
			if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) {
				J::Value b = cst(cast<Constant>(ce->getOperand(0)));
				return J::Array{"goff", std::move(b), (int64_t)off.getSExtValue()};
			}
		}
		J::Array a; for (auto &o : ce->operands()) a.push_back(cst(cast<Constant>(o)));
		return J::Array{"ce", ce->getOpcodeName(), ty(ce->getType()), std::move(a)};
	}
	return J::Array{"?"};
}

struct FD {
	std::map<const Value*, int> ids; int next = 0;
	std::map<const BasicBlock*, int> bbs;
	int id(const Value *v) { auto it = ids.find(v); if (it != ids.end()) return it->second; return ids[v] = next++; }
	J::Value op(const Value *v) {
		if (auto *c = dyn_cast<Constant>(v)) return cst(c);
		if (isa<MetadataAsValue>(v)) return J::Array{"m"};
		if (isa<InlineAsm>(v)) return J::Array{"asm"};
		return J::Array{"v", id(v)};
	}
};

static J::Value dumpFunction(Function &F) {
	FD d;
	J::Object o;
	o["name"] = F.getName().str();
	o["dem"] = demangle(F.getName().str());
	o["decl"] = F.isDeclaration();
	o["noreturn"] = F.doesNotReturn();
	o["vararg"] = F.isVarArg();
	o["ret"] = ty(F.getReturnType());
	if (auto *sp = F.getSubprogram()) { o["file"] = (sp->getDirectory() + "/" + sp->getFilename()).str(); if (sp->getFilename().startswith("/")) o["file"] = sp->getFilename().str(); o["line"] = (int64_t)sp->getLine(); }
	J::Array args;
	for (auto &a : F.args()) {
		J::Object ao; ao["id"] = d.id(&a); ao["ty"] = ty(a.getType()); ao["name"] = a.getName().str();
		if (a.hasByValAttr()) ao["byval"] = (int64_t)DL->getTypeAllocSize(a.getParamByValType());
		if (a.hasStructRetAttr()) ao["sret"] = (int64_t)DL->getTypeAllocSize(a.getParamStructRetType());
		args.push_back(std::move(ao));
	}
	o["args"] = std::move(args);
	if (F.isDeclaration()) return o;
	int n = 0; for (auto &b : F) d.bbs[&b] = n++;
	J::Array blocks;
	for (auto &b : F) {
		J::Array ins;
		for (auto &I : b) {
			if (isa<DbgInfoIntrinsic>(&I)) continue;
			J::Object x;
			x["op"] = I.getOpcodeName();
			if (!I.getType()->isVoidTy()) { x["id"] = d.id(&I); x["ty"] = ty(I.getType()); if (I.hasName()) x["n"] = I.getName().str(); }
			if (auto &dl = I.getDebugLoc()) {
				x["ln"] = (int64_t)dl.getLine();
				if (auto *sc = dl->getScope()) { std::string fn = sc->getFilename().str(); x["fl"] = fn; }
			}
			if (auto *p = dyn_cast<PHINode>(&I)) {
				J::Array in; for (unsigned i = 0; i < p->getNumIncomingValues(); i++) in.push_back(J::Array{d.op(p->getIncomingValue(i)), d.bbs[p->getIncomingBlock(i)]});
				x["in"] = std::move(in);
			} else if (auto *br = dyn_cast<BranchInst>(&I)) {
				if (br->isConditional()) { x["c"] = d.op(br->getCondition()); x["t"] = d.bbs[br->getSuccessor(0)]; x["f"] = d.bbs[br->getSuccessor(1)]; }
				else x["t"] = d.bbs[br->getSuccessor(0)];
			} else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
				x["v"] = d.op(sw->getCondition()); x["def"] = d.bbs[sw->getDefaultDest()];
				J::Array cs; for (auto &c : sw->cases()) { SmallString<40> s; c.getCaseValue()->getValue().toStringUnsigned(s); cs.push_back(J::Array{std::string(s.str()), d.bbs[c.getCaseSuccessor()]}); }
				x["cases"] = std::move(cs);
			} else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
				MapVector<Value*, APInt> vo; APInt co(64, 0);
				x["base"] = d.op(g->getPointerOperand());
				if (!cast<GEPOperator>(g)->collectOffset(*DL, 64, vo, co)) x["op"] = "gep_unsupported";
				x["off"] = (int64_t)co.getSExtValue();
				J::Array idx; for (auto &kv : vo) { unsigned w = kv.first->getType()->getIntegerBitWidth(); idx.push_back(J::Array{d.op(kv.first), (int64_t)kv.second.getSExtValue(), (int64_t)w}); }
				x["idx"] = std::move(idx);
				x["inb"] = g->isInBounds();
			} else if (auto *cb = dyn_cast<CallBase>(&I)) {
				J::Array as; J::Object bv;
				for (unsigned i = 0; i < cb->arg_size(); i++) {
					as.push_back(d.op(cb->getArgOperand(i)));
					if (cb->isByValArgument(i)) bv[std::to_string(i)] = (int64_t)DL->getTypeAllocSize(cb->getParamByValType(i));
				}
				x["args"] = std::move(as);
				if (!bv.empty()) x["byval"] = std::move(bv);
				Value *cal = cb->getCalledOperand()->stripPointerCastsAndAliases();
				if (auto *cf = dyn_cast<Function>(cal)) x["fn"] = cf->getName().str();
				else x["fp"] = d.op(cb->getCalledOperand());
				if (cb->doesNotReturn()) x["noret"] = true;
				if (auto *iv = dyn_cast<InvokeInst>(&I)) { x["normal"] = d.bbs[iv->getNormalDest()]; x["unwind"] = d.bbs[iv->getUnwindDest()]; }
			} else if (auto *al = dyn_cast<AllocaInst>(&I)) {
				x["size"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType());
				x["cnt"] = d.op(al->getArraySize());
				x["aty"] = ty(al->getAllocatedType());
			} else if (auto *lp = dyn_cast<LandingPadInst>(&I)) {
				x["cleanup"] = lp->isCleanup();
				J::Array cl; for (unsigned i = 0; i < lp->getNumClauses(); i++) cl.push_back(J::Array{lp->isCatch(i) ? "catch" : "filter", cst(cast<Constant>(lp->getClause(i)))});
				x["clauses"] = std::move(cl);
			} else {
				J::Array as; for (auto &opn : I.operands()) as.push_back(d.op(opn));
				x["a"] = std::move(as);
				if (auto *ic = dyn_cast<CmpInst>(&I)) x["pred"] = CmpInst::getPredicateName(ic->getPredicate()).str();
				if (auto *li = dyn_cast<LoadInst>(&I)) { x["size"] = (int64_t)DL->getTypeStoreSize(li->getType()); }
				if (auto *si = dyn_cast<StoreInst>(&I)) { x["vt"] = ty(si->getValueOperand()->getType()); x["size"] = (int64_t)DL->getTypeStoreSize(si->getValueOperand()->getType()); }
				if (auto *ci = dyn_cast<CastInst>(&I)) { x["from"] = ty(ci->getSrcTy()); }
				if (isa<ICmpInst>(&I)) x["ot"] = ty(I.getOperand(0)->getType());
				if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { J::Array ix; for (unsigned q : ev->indices()) ix.push_back((int64_t)q); x["ix"] = std::move(ix); }
				if (auto *iv = dyn_cast<InsertValueInst>(&I)) { J::Array ix; for (unsigned q : iv->indices()) ix.push_back((int64_t)q); x["ix"] = std::move(ix); }
				if (auto *bo = dyn_cast<OverflowingBinaryOperator>(&I)) { x["nsw"] = bo->hasNoSignedWrap(); x["nuw"] = bo->hasNoUnsignedWrap(); }
				if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) { x["rmw"] = AtomicRMWInst::getOperationName(rm->getOperation()).str(); }
			}
			ins.push_back(std::move(x));
		}
		blocks.push_back(J::Object{{"n", b.getName().str()}, {"ins", std::move(ins)}});
	}
	o["blocks"] = std::move(blocks);
	DominatorTree DT(F); LoopInfo LI(DT);
	J::Array loops;
	std::function<void(Loop*, int)> rec = [&](Loop *L, int parent) {
		J::Object lo; int me = loops.size();
		lo["header"] = d.bbs[L->getHeader()];
		J::Array bl; for (auto *b : L->blocks()) bl.push_back(d.bbs[b]);
		lo["blocks"] = std::move(bl); lo["parent"] = parent;
		for (auto &I : *L->getHeader()) if (auto &dl = I.getDebugLoc()) { lo["ln"] = (int64_t)dl.getLine(); break; }
		loops.push_back(std::move(lo));
		for (auto *s : reverse(L->getSubLoops())) rec(s, me);
	};
	for (auto *L : reverse(LI)) rec(L, -1);
	o["loops"] = std::move(loops);
	return o;
}

int main(int argc, char **argv) {
	LLVMContext ctx; SMDiagnostic err;
	auto M = parseIRFile(argv[1], err, ctx);
	if (!M) { err.print("irdump", errs()); return 2; }
	DL = &M->getDataLayout();
	std::string line;
	while (std::getline(std::cin, line)) {
		if (line.empty()) continue;
		char k = line[0]; std::string nm = line.substr(2);
		J::Value v = nullptr;
		if (k == 'F') { if (auto *f = M->getFunction(nm)) v = dumpFunction(*f); }
		else if (k == 'G') {
			if (auto *g = M->getNamedGlobal(nm)) {
				J::Object o; o["size"] = (int64_t)DL->getTypeAllocSize(g->getValueType()); o["const"] = g->isConstant();
				o["dem"] = demangle(nm);
				o["ty"] = ty(g->getValueType());
				if (g->hasInitializer()) o["init"] = cst(g->getInitializer());
				v = std::move(o);
			} else if (auto *a = M->getNamedAlias(nm)) {
				v = J::Object{{"alias", cst(a->getAliasee())}};
			}
		} else if (k == 'L') {
			J::Array a; for (auto &f : *M) if (!f.isIntrinsic()) a.push_back(J::Array{f.getName().str(), demangle(f.getName().str()), f.isDeclaration()});
			v = std::move(a);
		}
		std::string s; raw_string_ostream os(s); os << v; os.flush();
		std::cout << s << "\n" << std::flush;
	}
	return 0;
}
