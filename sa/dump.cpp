// Dumps a (linked) LLVM module as JSON for the abstract interpreter in this directory.
// The module is produced by "clang -O0 -g" from the current tree; nothing is executed.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MathExtras.h"
#include <map>
using namespace llvm;
typedef json::Array A;
typedef json::Object O;

static const DataLayout *DL;
static std::map<const Value*, int> ids;

static std::string tyname(Type *T) {
	if (T->isPointerTy()) return "ptr";
	if (T->isVoidTy()) return "void";
	if (T->isIntegerTy()) return "i" + std::to_string(T->getIntegerBitWidth());
	if (T->isFloatTy()) return "float";
	if (T->isDoubleTy()) return "double";
	if (T->isX86_FP80Ty()) return "x86_fp80";
	if (T->isHalfTy()) return "half";
	std::string s; raw_string_ostream os(s);
	if (T->isStructTy()) { os << "{"; bool f = true; for (Type *E : cast<StructType>(T)->elements()) { if (!f) os << ","; f = false; os << tyname(E); } os << "}"; return os.str(); }
	if (T->isArrayTy()) { os << "[" << T->getArrayNumElements() << "x" << tyname(T->getArrayElementType()) << "]"; return os.str(); }
	if (auto *V = dyn_cast<FixedVectorType>(T)) { os << "<" << V->getNumElements() << "x" << tyname(V->getElementType()) << ">"; return os.str(); }
	T->print(os); return os.str();
}
static int64_t tysize(Type *T) { return T->isSized() ? (int64_t)DL->getTypeAllocSize(T).getFixedValue() : 0; }

static std::string apstr(const APInt &v) { SmallString<40> s; v.toString(s, 10, true); return std::string(s); }

static json::Value op(const Value *V);

static json::Value gepDesc(const GEPOperator *G) {
	// base, const offset, [(index, scale)]
	int64_t off = 0; A idx;
	for (auto GTI = gep_type_begin(G), E = gep_type_end(G); GTI != E; ++GTI) {
		Value *I = GTI.getOperand();
		if (StructType *ST = GTI.getStructTypeOrNull()) {
			unsigned f = cast<ConstantInt>(I)->getZExtValue();
			off += DL->getStructLayout(ST)->getElementOffset(f);
		} else {
			int64_t sz = tysize(GTI.getIndexedType());
			if (auto *C = dyn_cast<ConstantInt>(I)) off += C->getSExtValue() * sz;
			else idx.push_back(A{op(I), sz, (int64_t)I->getType()->getIntegerBitWidth()});
		}
	}
	return O{{"base", op(G->getPointerOperand())}, {"off", off}, {"idx", std::move(idx)}};
}

static json::Value op(const Value *V) {
	auto it = ids.find(V);
	if (it != ids.end()) return A{"v", it->second};
	if (auto *C = dyn_cast<ConstantInt>(V)) return A{"i", apstr(C->getValue()), (int64_t)C->getBitWidth()};
	if (auto *C = dyn_cast<ConstantFP>(V)) {
		bool lose; APFloat f = C->getValueAPF(); f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose);
		char b[64]; snprintf(b, 64, "%a", f.convertToDouble());
		return A{"f", std::string(b), tyname(V->getType())};
	}
	if (isa<ConstantPointerNull>(V)) return A{"n"};
	if (isa<UndefValue>(V)) return A{"u", tyname(V->getType())};
	if (auto *F = dyn_cast<Function>(V)) return A{"g", F->getName().str(), 0};
	if (auto *G = dyn_cast<GlobalVariable>(V)) return A{"g", G->getName().str(), 0};
	if (auto *G = dyn_cast<GlobalAlias>(V)) return op(G->getAliasee());
	if (auto *CE = dyn_cast<ConstantExpr>(V)) {
		if (auto *G = dyn_cast<GEPOperator>(CE)) {
			APInt o(DL->getIndexTypeSizeInBits(G->getType()), 0);
			if (G->accumulateConstantOffset(*DL, o)) {
				auto b = op(G->getPointerOperand());
				if (auto *ar = b.getAsArray()) if (ar->size() == 3 && *(*ar)[0].getAsString() == "g") {
					return A{"g", (*ar)[1].getAsString()->str(), *(*ar)[2].getAsInteger() + o.getSExtValue()};
				}
			}
		}
		if (CE->isCast()) {
			A r; r.push_back("cast"); r.push_back(Instruction::getOpcodeName(CE->getOpcode())); r.push_back(op(CE->getOperand(0))); r.push_back(tyname(CE->getType())); r.push_back(tyname(CE->getOperand(0)->getType()));
			return r;
		}
	}
	if (isa<ConstantAggregateZero>(V)) return A{"z", tyname(V->getType())};
	if (isa<BasicBlock>(V)) return A{"b", ids[V]};
	if (isa<MetadataAsValue>(V)) return A{"m"};
	if (isa<InlineAsm>(V)) return A{"asm"};
	std::string s; raw_string_ostream os(s); V->printAsOperand(os); 
	return A{"?", os.str()};
}

static void flat(Constant *C, int64_t off, A &out) {
	Type *T = C->getType();
	if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
	if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
		int64_t es = tysize(D->getElementType());
		if (D->isString(8)) { 
			std::string hex; raw_string_ostream os(hex); for (unsigned char c : D->getRawDataValues()) { char b[4]; snprintf(b, 4, "%02x", c); os << b; }
			out.push_back(A{off, "str", os.str()}); return; }
		for (unsigned i = 0; i < D->getNumElements(); i++) flat(D->getElementAsConstant(i), off + i * es, out);
		return;
	}
	if (auto *S = dyn_cast<ConstantStruct>(C)) {
		auto *SL = DL->getStructLayout(S->getType());
		for (unsigned i = 0; i < S->getNumOperands(); i++) flat(S->getOperand(i), off + SL->getElementOffset(i), out);
		return;
	}
	if (auto *S = dyn_cast<ConstantArray>(C)) {
		int64_t es = tysize(S->getType()->getElementType());
		for (unsigned i = 0; i < S->getNumOperands(); i++) flat(S->getOperand(i), off + i * es, out);
		return;
	}
	out.push_back(A{off, tyname(T), op(C)});
}

static json::Value loc(const DebugLoc &L) {
	if (!L) return nullptr;
	auto *S = cast<DILocation>(L.get())->getScope();
	return A{S->getFilename().str(), (int64_t)L.getLine()};
}

int main(int argc, char **argv) {
	LLVMContext C; SMDiagnostic Err;
	auto M = parseIRFile(argv[1], Err, C);
	if (!M) { Err.print(argv[0], errs()); return 2; }
	DL = &M->getDataLayout();
	O root;
	O globals;
	for (auto &G : M->globals()) {
		O g; g["size"] = tysize(G.getValueType()); g["const"] = G.isConstant(); g["ext"] = G.isDeclaration(); g["local"] = G.hasLocalLinkage();
		g["tls"] = G.isThreadLocal(); g["ty"] = tyname(G.getValueType());
		A init; if (G.hasInitializer()) flat(G.getInitializer(), 0, init);
		g["init"] = std::move(init);
		SmallVector<DIGlobalVariableExpression*, 1> GVs; G.getDebugInfo(GVs);
		if (!GVs.empty()) { auto *D = GVs[0]->getVariable(); g["dbg"] = D->getName().str(); g["loc"] = A{D->getFilename().str(), (int64_t)D->getLine()}; }
		globals[G.getName().str()] = std::move(g);
	}
	root["globals"] = std::move(globals);
	O funcs;
	for (auto &F : *M) {
		O f; f["decl"] = F.isDeclaration(); f["ret"] = tyname(F.getReturnType()); f["vararg"] = F.isVarArg(); f["local"] = F.hasLocalLinkage();
		f["noreturn"] = F.doesNotReturn();
		A args; ids.clear(); int n = 0;
		for (auto &a : F.args()) { ids[&a] = n++; std::string bt; if (a.hasByValAttr()) bt = std::to_string(tysize(a.getParamByValType())); std::string st; if (a.hasStructRetAttr()) st = std::to_string(tysize(a.getParamStructRetType())); args.push_back(A{tyname(a.getType()), bt, st}); }
		f["args"] = std::move(args);
		if (auto *SP = F.getSubprogram()) { f["file"] = SP->getFilename().str(); f["line"] = (int64_t)SP->getLine(); f["src"] = SP->getName().str(); }
		if (!F.isDeclaration()) {
			int b = 0; for (auto &B : F) { ids[&B] = b++; for (auto &I : B) ids[&I] = n++; }
			std::map<const Value*, std::string> names;
			std::map<const Value*, int> vols;
			for (auto &B : F) for (auto &I : B) if (auto *D = dyn_cast<DbgDeclareInst>(&I)) if (D->getAddress()) { names[D->getAddress()] = D->getVariable()->getName().str();
				auto *T = dyn_cast_or_null<DIType>(D->getVariable()->getType()); while (auto *DT = dyn_cast_or_null<DIDerivedType>(T)) { if (DT->getTag() == dwarf::DW_TAG_volatile_type) vols[D->getAddress()] = 1; if (DT->getTag() == dwarf::DW_TAG_pointer_type) break; T = DT->getBaseType(); } }
			A blocks;
			for (auto &B : F) {
				A insts;
				for (auto &I : B) {
					if (isa<DbgInfoIntrinsic>(&I)) continue;
					O i; i["id"] = ids[&I]; i["op"] = I.getOpcodeName(); i["ty"] = tyname(I.getType()); i["loc"] = loc(I.getDebugLoc());
					A ops;
					if (auto *X = dyn_cast<AllocaInst>(&I)) {
						i["size"] = tysize(X->getAllocatedType()); i["aty"] = tyname(X->getAllocatedType());
						ops.push_back(op(X->getArraySize())); if (names.count(X)) i["name"] = names[X]; if (vols.count(X)) i["volatile"] = true;
					} else if (auto *X = dyn_cast<GetElementPtrInst>(&I)) {
						i["gep"] = gepDesc(cast<GEPOperator>(X));
					} else if (auto *X = dyn_cast<LoadInst>(&I)) { ops.push_back(op(X->getPointerOperand())); i["size"] = (int64_t)DL->getTypeStoreSize(X->getType()).getFixedValue(); }
					else if (auto *X = dyn_cast<StoreInst>(&I)) { ops.push_back(op(X->getValueOperand())); ops.push_back(op(X->getPointerOperand())); i["size"] = (int64_t)DL->getTypeStoreSize(X->getValueOperand()->getType()).getFixedValue(); i["vty"] = tyname(X->getValueOperand()->getType()); }
					else if (auto *X = dyn_cast<CmpInst>(&I)) { i["pred"] = CmpInst::getPredicateName(X->getPredicate()).str(); ops.push_back(op(X->getOperand(0))); ops.push_back(op(X->getOperand(1))); i["oty"] = tyname(X->getOperand(0)->getType()); }
					else if (auto *X = dyn_cast<BranchInst>(&I)) { if (X->isConditional()) { ops.push_back(op(X->getCondition())); i["succ"] = A{ids[X->getSuccessor(0)], ids[X->getSuccessor(1)]}; } else i["succ"] = A{ids[X->getSuccessor(0)]}; }
					else if (auto *X = dyn_cast<SwitchInst>(&I)) { ops.push_back(op(X->getCondition())); A cs; for (auto &c : X->cases()) cs.push_back(A{apstr(c.getCaseValue()->getValue()), ids[c.getCaseSuccessor()]}); i["cases"] = std::move(cs); i["default"] = ids[X->getDefaultDest()]; i["bits"] = (int64_t)X->getCondition()->getType()->getIntegerBitWidth(); }
					else if (auto *X = dyn_cast<PHINode>(&I)) { A in; for (unsigned k = 0; k < X->getNumIncomingValues(); k++) in.push_back(A{op(X->getIncomingValue(k)), ids[X->getIncomingBlock(k)]}); i["in"] = std::move(in); }
					else if (auto *X = dyn_cast<CallBase>(&I)) {
						i["callee"] = op(X->getCalledOperand()); A bv; A ats;
						for (unsigned k = 0; k < X->arg_size(); k++) { ops.push_back(op(X->getArgOperand(k))); ats.push_back(tyname(X->getArgOperand(k)->getType())); if (X->isByValArgument(k)) bv.push_back(A{(int64_t)k, tysize(X->getParamByValType(k))}); }
						i["ats"] = std::move(ats); if (!bv.empty()) i["byval"] = std::move(bv);
						if (X->hasFnAttr(Attribute::ReturnsTwice)) i["twice"] = true;
						if (X->hasFnAttr(Attribute::NoReturn)) i["noreturn"] = true;
					}
					else if (auto *X = dyn_cast<CastInst>(&I)) { ops.push_back(op(X->getOperand(0))); i["oty"] = tyname(X->getOperand(0)->getType()); }
					else if (auto *X = dyn_cast<ExtractValueInst>(&I)) { ops.push_back(op(X->getAggregateOperand())); A ix; for (auto k : X->indices()) ix.push_back((int64_t)k); i["ix"] = std::move(ix); }
					else if (auto *X = dyn_cast<InsertValueInst>(&I)) { ops.push_back(op(X->getAggregateOperand())); ops.push_back(op(X->getInsertedValueOperand())); A ix; for (auto k : X->indices()) ix.push_back((int64_t)k); i["ix"] = std::move(ix); }
					else { for (auto &o : I.operands()) ops.push_back(op(o)); 
						if (auto *OB = dyn_cast<OverflowingBinaryOperator>(&I)) { if (OB->hasNoSignedWrap()) i["nsw"] = true; if (OB->hasNoUnsignedWrap()) i["nuw"] = true; } 
						if (I.getNumOperands()) i["oty"] = tyname(I.getOperand(0)->getType()); }
					i["ops"] = std::move(ops);
					insts.push_back(std::move(i));
				}
				blocks.push_back(std::move(insts));
			}
			f["blocks"] = std::move(blocks);
		}
		funcs[F.getName().str()] = std::move(f);
	}
	root["funcs"] = std::move(funcs);
	outs() << json::Value(std::move(root)) << "\n";
	return 0;
}
