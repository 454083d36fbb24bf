// LLVM IR -> compact internal form
#include "engine.h"
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
using namespace llvm;

void Engine::flatten(Type* t, std::vector<Leaf>& out, uint32_t off){
	if(auto* st = dyn_cast<StructType>(t)){
		auto* sl = DL->getStructLayout(st);
		for(unsigned i = 0; i < st->getNumElements(); ++i) flatten(st->getElementType(i), out, off + sl->getElementOffset(i));
		return;
	}
	if(auto* at = dyn_cast<ArrayType>(t)){
		uint64_t es = DL->getTypeAllocSize(at->getElementType());
		for(uint64_t i = 0; i < at->getNumElements(); ++i) flatten(at->getElementType(), out, off + i * es);
		return;
	}
	if(auto* vt = dyn_cast<FixedVectorType>(t)){
		Type* et = vt->getElementType();
		unsigned w = et->isPointerTy() ? 64 : et->getPrimitiveSizeInBits();
		if(w % 8) { // bit vectors: only used in registers
			for(unsigned i = 0; i < vt->getNumElements(); ++i) out.push_back(Leaf{(uint16_t)w, 0, off});
			return;
		}
		for(unsigned i = 0; i < vt->getNumElements(); ++i) flatten(et, out, off + i * w / 8);
		return;
	}
	unsigned w = t->isPointerTy() ? 64 : (unsigned)t->getPrimitiveSizeInBits();
	if(w == 0) w = 1; // void/label/metadata/token
	out.push_back(Leaf{(uint16_t)w, (uint8_t)t->isFloatingPointTy(), off});
}
uint32_t Engine::leafCount(Type* t){
	auto it = leafCnt.find(t);
	if(it != leafCnt.end()) return it->second;
	std::vector<Leaf> l;
	flatten(t, l, 0);
	return leafCnt[t] = l.size();
}

// constant -> flattened values
void Engine::constVals(const Constant* c, std::vector<Val>& out){
	Type* t = c->getType();
	if(isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c) || isa<ConstantTokenNone>(c)){
		std::vector<Leaf> l;
		flatten(t, l, 0);
		for(auto& x : l) out.push_back(x.w <= 64 ? cv(0) : Val{0, mkConst(0, x.w)});
		return;
	}
	if(auto* ci = dyn_cast<ConstantInt>(c)){
		unsigned w = ci->getBitWidth();
		const APInt& a = ci->getValue();
		if(w <= 64) out.push_back(cv(a.getZExtValue()));
		else if(w <= 128) out.push_back(Val{0, mkConst(((u128)a.extractBitsAsZExtValue(w - 64, 64) << 64) | a.extractBitsAsZExtValue(64, 0), w)});
		else throw std::runtime_error("wide integer constant");
		return;
	}
	if(auto* cf = dyn_cast<ConstantFP>(c)){
		APInt a = cf->getValueAPF().bitcastToAPInt();
		unsigned w = a.getBitWidth();
		if(w <= 64) out.push_back(cv(a.getZExtValue()));
		else out.push_back(Val{0, mkConst(((u128)a.extractBitsAsZExtValue(w - 64, 64) << 64) | a.extractBitsAsZExtValue(64, 0), w)});
		return;
	}
	if(auto* cs = dyn_cast<ConstantAggregate>(c)){
		for(auto& o : cs->operands()) constVals(cast<Constant>(o), out);
		return;
	}
	if(auto* cd = dyn_cast<ConstantDataSequential>(c)){
		for(unsigned i = 0; i < cd->getNumElements(); ++i) constVals(cd->getElementAsConstant(i), out);
		return;
	}
	out.push_back(cv(constAddr(c)));
}
uint64_t Engine::constAddr(const Constant* c){
	if(auto* f = dyn_cast<Function>(c)) return funcAddr(f);
	if(auto* g = dyn_cast<GlobalVariable>(c)) return globalAddr(g);
	if(auto* a = dyn_cast<GlobalAlias>(c)) return constAddr(a->getAliasee());
	if(isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
	if(auto* ci = dyn_cast<ConstantInt>(c)) return ci->getZExtValue();
	if(auto* ce = dyn_cast<ConstantExpr>(c)){
		switch(ce->getOpcode()){
		case Instruction::GetElementPtr: {
			uint64_t b = constAddr(ce->getOperand(0));
			APInt off(64, 0);
			if(!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw std::runtime_error("const gep");
			return b + off.getSExtValue();
		}
		case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
			return constAddr(ce->getOperand(0));
		case Instruction::Trunc: {
			return constAddr(ce->getOperand(0)) & (uint64_t)maskOf(ce->getType()->getIntegerBitWidth());
		}
		case Instruction::Sub: return (constAddr(ce->getOperand(0)) - constAddr(ce->getOperand(1))) & (uint64_t)maskOf(ce->getType()->getIntegerBitWidth());
		case Instruction::Add: return (constAddr(ce->getOperand(0)) + constAddr(ce->getOperand(1))) & (uint64_t)maskOf(ce->getType()->getIntegerBitWidth());
		case Instruction::ICmp: {
			uint64_t a = constAddr(ce->getOperand(0)), b = constAddr(ce->getOperand(1));
			switch(ce->getPredicate()){
			case CmpInst::ICMP_EQ: return a == b;
			case CmpInst::ICMP_NE: return a != b;
			case CmpInst::ICMP_ULT: return a < b;
			case CmpInst::ICMP_UGT: return a > b;
			default: break;
			}
		}
		default: break;
		}
		std::string s; raw_string_ostream os(s); c->print(os);
		throw std::runtime_error("const expr " + s);
	}
	std::string s; raw_string_ostream os(s); c->print(os);
	throw std::runtime_error("constant " + s);
}

CFunc* Engine::compiled(const Function* F){
	auto it = cfuncs.find(F);
	if(it != cfuncs.end()) return it->second.get();
	auto cf = std::make_unique<CFunc>();
	CFunc* f = cf.get();
	f->F = F;
	std::unordered_map<const Value*, int32_t> slot;
	auto alloc = [&](const Value* v){
		uint32_t n = v->getType()->isVoidTy() ? 0 : leafCount(v->getType());
		int32_t s = f->nslots;
		f->nslots += n;
		slot[v] = s;
		return s;
	};
	for(auto& a : F->args()){ f->argN.push_back(leafCount(a.getType())); f->argSlot.push_back(alloc(&a)); }
	std::unordered_map<const BasicBlock*, uint32_t> bbi;
	for(auto& bb : *F){
		uint32_t id = bbi.size();
		bbi[&bb] = id;
		for(auto& I : bb) if(!I.getType()->isVoidTy()) alloc(&I);
	}
	auto operands = [&](const Value* v, std::vector<Opnd>& out){
		if(auto* c = dyn_cast<Constant>(v)){
			std::vector<Val> vs;
			constVals(c, vs);
			for(auto& x : vs){ Opnd o; o.c = x; out.push_back(o); }
			return;
		}
		if(isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)){ out.push_back(Opnd{}); return; }
		auto i = slot.find(v);
		if(i == slot.end()) throw std::runtime_error("operand");
		uint32_t n = leafCount(v->getType());
		for(uint32_t k = 0; k < n; ++k){ Opnd o; o.slot = i->second + k; out.push_back(o); }
	};
	auto mkEdge = [&](const BasicBlock* from, const BasicBlock* to){
		Edge e;
		e.target = bbi[to];
		for(auto& I : *to){
			auto* phi = dyn_cast<PHINode>(&I);
			if(!phi) break;
			std::vector<Opnd> os;
			operands(phi->getIncomingValueForBlock(from), os);
			std::vector<Leaf> lf;
			flatten(phi->getType(), lf, 0);
			for(size_t k = 0; k < os.size(); ++k){
				e.copies.emplace_back(slot[phi] + k, os[k]);
				e.w.push_back(phi->getType()->isIntegerTy() && k < lf.size() ? lf[k].w : 0);
			}
		}
		f->edges.push_back(std::move(e));
		return (uint32_t)f->edges.size() - 1;
	};
	auto scalarW = [&](Type* t){ t = t->getScalarType(); return t->isPointerTy() ? 64u : (unsigned)t->getPrimitiveSizeInBits(); };
	for(auto& bb : *F){
		f->bbStart.push_back(f->code.size());
		for(auto& I : bb){
			if(isa<PHINode>(&I)) continue;
			if(isa<DbgInfoIntrinsic>(&I)) continue;
			Ins in;
			in.I = &I;
			if(!I.getType()->isVoidTy()){ in.dst = slot[&I]; in.n = leafCount(I.getType()); }
			auto ops1 = [&](unsigned k){ operands(I.getOperand(k), in.ops); };
			switch(I.getOpcode()){
			case Instruction::Add: in.k = K::Add; goto bin;
			case Instruction::Sub: in.k = K::Sub; goto bin;
			case Instruction::Mul: in.k = K::Mul; goto bin;
			case Instruction::UDiv: in.k = K::UDiv; goto bin;
			case Instruction::SDiv: in.k = K::SDiv; goto bin;
			case Instruction::URem: in.k = K::URem; goto bin;
			case Instruction::SRem: in.k = K::SRem; goto bin;
			case Instruction::And: in.k = K::And; goto bin;
			case Instruction::Or: in.k = K::Or; goto bin;
			case Instruction::Xor: in.k = K::Xor; goto bin;
			case Instruction::Shl: in.k = K::Shl; goto bin;
			case Instruction::LShr: in.k = K::LShr; goto bin;
			case Instruction::AShr: in.k = K::AShr; goto bin;
			bin:
				in.op = Op::Bin; in.w = in.w2 = scalarW(I.getType()); ops1(0); ops1(1);
				break;
			case Instruction::FAdd: in.k = K::FAdd; goto fbin;
			case Instruction::FSub: in.k = K::FSub; goto fbin;
			case Instruction::FMul: in.k = K::FMul; goto fbin;
			case Instruction::FDiv: in.k = K::FDiv; goto fbin;
			case Instruction::FRem: in.k = K::FRem; goto fbin;
			fbin:
				in.op = Op::FBin; in.w = in.w2 = scalarW(I.getType()); ops1(0); ops1(1);
				break;
			case Instruction::FNeg: in.op = Op::FNeg; in.w = scalarW(I.getType()); ops1(0); break;
			case Instruction::ICmp:
				in.op = Op::ICmp; in.sub = cast<ICmpInst>(I).getPredicate(); in.w = scalarW(I.getOperand(0)->getType()); ops1(0); ops1(1);
				break;
			case Instruction::FCmp:
				in.op = Op::FCmp; in.sub = cast<FCmpInst>(I).getPredicate(); in.w = scalarW(I.getOperand(0)->getType()); ops1(0); ops1(1);
				break;
			case Instruction::ZExt: in.op = Op::ZExt; in.w = scalarW(I.getOperand(0)->getType()); in.w2 = scalarW(I.getType()); ops1(0); break;
			case Instruction::SExt: in.op = Op::SExt; in.w = scalarW(I.getOperand(0)->getType()); in.w2 = scalarW(I.getType()); ops1(0); break;
			case Instruction::Trunc: in.op = Op::Trunc; in.w = scalarW(I.getOperand(0)->getType()); in.w2 = scalarW(I.getType()); ops1(0); break;
			case Instruction::PtrToInt: case Instruction::IntToPtr: {
				unsigned a = scalarW(I.getOperand(0)->getType()), b = scalarW(I.getType());
				in.op = a == b ? Op::Copy : a < b ? Op::ZExt : Op::Trunc; in.w = a; in.w2 = b; ops1(0);
				break;
			}
			case Instruction::BitCast: {
				unsigned a = leafCount(I.getOperand(0)->getType()), b = leafCount(I.getType());
				in.w = scalarW(I.getOperand(0)->getType()); in.w2 = scalarW(I.getType());
				in.op = Op::Copy; ops1(0);
				if(a != b || in.w != in.w2) in.op = Op::Shuffle, in.sub = 1; // re-slice
				break;
			}
			case Instruction::Freeze: in.op = Op::Copy; ops1(0); break;
			case Instruction::FPExt: in.k = K::FPExt; in.op = Op::FPCast; in.w = scalarW(I.getOperand(0)->getType()); in.w2 = scalarW(I.getType()); ops1(0); break;
			case Instruction::FPTrunc: in.k = K::FPTrunc; in.op = Op::FPCast; in.w = scalarW(I.getOperand(0)->getType()); in.w2 = scalarW(I.getType()); ops1(0); break;
			case Instruction::SIToFP: in.k = K::SIToFP; in.op = Op::FPCast; in.w = scalarW(I.getOperand(0)->getType()); in.w2 = scalarW(I.getType()); ops1(0); break;
			case Instruction::UIToFP: in.k = K::UIToFP; in.op = Op::FPCast; in.w = scalarW(I.getOperand(0)->getType()); in.w2 = scalarW(I.getType()); ops1(0); break;
			case Instruction::FPToSI: in.k = K::FPToSI; in.op = Op::FPCast; in.w = scalarW(I.getOperand(0)->getType()); in.w2 = scalarW(I.getType()); ops1(0); break;
			case Instruction::FPToUI: in.k = K::FPToUI; in.op = Op::FPCast; in.w = scalarW(I.getOperand(0)->getType()); in.w2 = scalarW(I.getType()); ops1(0); break;
			case Instruction::Select: {
				in.op = Op::Select;
				in.sub = I.getOperand(0)->getType()->isVectorTy();
				flatten(I.getType(), in.leaves, 0);
				ops1(0); ops1(1); ops1(2);
				break;
			}
			case Instruction::ExtractValue: {
				auto& ev = cast<ExtractValueInst>(I);
				Type* t = ev.getAggregateOperand()->getType();
				uint32_t at = 0;
				for(unsigned ix : ev.indices()){
					if(auto* st = dyn_cast<StructType>(t)){ for(unsigned k = 0; k < ix; ++k) at += leafCount(st->getElementType(k)); t = st->getElementType(ix); }
					else { auto* ar = cast<ArrayType>(t); at += ix * leafCount(ar->getElementType()); t = ar->getElementType(); }
				}
				std::vector<Opnd> all;
				operands(ev.getAggregateOperand(), all);
				in.op = Op::Copy;
				in.ops.assign(all.begin() + at, all.begin() + at + in.n);
				break;
			}
			case Instruction::InsertValue: {
				auto& iv = cast<InsertValueInst>(I);
				Type* t = iv.getAggregateOperand()->getType();
				uint32_t at = 0;
				for(unsigned ix : iv.indices()){
					if(auto* st = dyn_cast<StructType>(t)){ for(unsigned k = 0; k < ix; ++k) at += leafCount(st->getElementType(k)); t = st->getElementType(ix); }
					else { auto* ar = cast<ArrayType>(t); at += ix * leafCount(ar->getElementType()); t = ar->getElementType(); }
				}
				std::vector<Opnd> all, v;
				operands(iv.getAggregateOperand(), all);
				operands(iv.getInsertedValueOperand(), v);
				for(size_t k = 0; k < v.size(); ++k) all[at + k] = v[k];
				in.op = Op::Copy;
				in.ops = all;
				break;
			}
			case Instruction::ExtractElement: in.op = Op::ExtractElt; in.w = scalarW(I.getType()); operands(I.getOperand(1), in.ops); operands(I.getOperand(0), in.ops); break;
			case Instruction::InsertElement: in.op = Op::InsertElt; in.w = scalarW(I.getType()); operands(I.getOperand(2), in.ops); operands(I.getOperand(1), in.ops); operands(I.getOperand(0), in.ops); break;
			case Instruction::ShuffleVector: {
				auto& sv = cast<ShuffleVectorInst>(I);
				std::vector<Opnd> all;
				operands(I.getOperand(0), all);
				operands(I.getOperand(1), all);
				in.op = Op::Copy;
				for(int m : sv.getShuffleMask()) in.ops.push_back(m < 0 ? Opnd{} : all[m]);
				break;
			}
			case Instruction::Load: {
				auto& li = cast<LoadInst>(I);
				in.op = Op::Load; flatten(I.getType(), in.leaves, 0); ops1(0);
				in.order = (uint8_t)li.getOrdering(); in.cofs = DL->getTypeStoreSize(I.getType());
				break;
			}
			case Instruction::Store: {
				auto& si = cast<StoreInst>(I);
				in.op = Op::Store; flatten(I.getOperand(0)->getType(), in.leaves, 0); ops1(1); ops1(0);
				in.order = (uint8_t)si.getOrdering(); in.cofs = DL->getTypeStoreSize(I.getOperand(0)->getType());
				break;
			}
			case Instruction::Alloca: {
				auto& ai = cast<AllocaInst>(I);
				in.op = Op::Alloca;
				in.cofs = DL->getTypeAllocSize(ai.getAllocatedType());
				ops1(0);
				in.w = scalarW(ai.getArraySize()->getType());
				break;
			}
			case Instruction::GetElementPtr: {
				auto& gi = cast<GetElementPtrInst>(I);
				in.op = Op::Gep;
				if(I.getType()->isVectorTy()) throw std::runtime_error("vector gep");
				ops1(0);
				for(auto gti = gep_type_begin(gi), ge = gep_type_end(gi); gti != ge; ++gti){
					Value* idx = gti.getOperand();
					if(auto* st = gti.getStructTypeOrNull()){
						in.cofs += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
					} else {
						uint64_t sc = DL->getTypeAllocSize(gti.getIndexedType());
						if(auto* ci = dyn_cast<ConstantInt>(idx)) in.cofs += ci->getSExtValue() * (int64_t)sc;
						else { std::vector<Opnd> o; operands(idx, o); in.gep.push_back(GepStep{o[0], sc, (uint16_t)scalarW(idx->getType())}); }
					}
				}
				break;
			}
			case Instruction::Br: {
				auto& br = cast<BranchInst>(I);
				if(br.isConditional()){
					in.op = Op::CondBr; ops1(0);
					in.e0 = mkEdge(&bb, br.getSuccessor(0)); in.e1 = mkEdge(&bb, br.getSuccessor(1));
				} else { in.op = Op::Br; in.e0 = mkEdge(&bb, br.getSuccessor(0)); }
				break;
			}
			case Instruction::Switch: {
				auto& sw = cast<SwitchInst>(I);
				in.op = Op::Switch; ops1(0); in.w = scalarW(sw.getCondition()->getType());
				in.e0 = mkEdge(&bb, sw.getDefaultDest());
				std::map<const BasicBlock*, uint32_t> ed;
				for(auto& c : sw.cases()){
					auto* d = c.getCaseSuccessor();
					if(!ed.count(d)) ed[d] = mkEdge(&bb, d);
					const APInt& a = c.getCaseValue()->getValue();
					in.cases.emplace_back((u128)a.getZExtValue(), ed[d]);
				}
				break;
			}
			case Instruction::Ret:
				in.op = Op::Ret;
				if(cast<ReturnInst>(I).getReturnValue()) ops1(0);
				break;
			case Instruction::Unreachable: in.op = Op::Unreachable; break;
			case Instruction::Resume: in.op = Op::Resume; ops1(0); break;
			case Instruction::LandingPad: in.op = Op::LandingPad; break;
			case Instruction::Fence: in.op = Op::Fence; in.order = (uint8_t)cast<FenceInst>(I).getOrdering(); break;
			case Instruction::AtomicRMW: {
				auto& a = cast<AtomicRMWInst>(I);
				in.op = Op::AtomicRMW; in.sub = a.getOperation(); in.order = (uint8_t)a.getOrdering(); in.w = scalarW(I.getType());
				ops1(0); ops1(1);
				break;
			}
			case Instruction::AtomicCmpXchg: {
				auto& a = cast<AtomicCmpXchgInst>(I);
				in.op = Op::CmpXchg; in.order = (uint8_t)a.getSuccessOrdering(); in.sub = (uint8_t)a.getFailureOrdering(); in.w = scalarW(a.getNewValOperand()->getType());
				ops1(0); ops1(1); ops1(2);
				break;
			}
			case Instruction::Call: case Instruction::Invoke: {
				auto& cb = cast<CallBase>(I);
				in.op = I.getOpcode() == Instruction::Call ? Op::Call : Op::Invoke;
				Value* cal = cb.getCalledOperand()->stripPointerCasts();
				if(auto* ga = dyn_cast<GlobalAlias>(cal)) cal = ga->getAliaseeObject();
				if(isa<InlineAsm>(cal)){
					if(cast<InlineAsm>(cal)->getAsmString().empty() && I.getType()->isVoidTy()){ in.op = Op::Nop; break; }
					in.sub = 99; // unsupported inline asm
				}
				in.callee = dyn_cast<Function>(cal);
				if(in.callee){
					auto ov = overrides.find(in.callee);
					if(ov != overrides.end()) in.callee = ov->second;
					if(in.callee->isIntrinsic()){
						auto id = in.callee->getIntrinsicID();
						if(id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::donothing || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end || id == Intrinsic::prefetch){ in.op = Op::Nop; break; }
					}
				}
				// operand 0: callee pointer
				if(in.callee || isa<InlineAsm>(cal)) in.ops.push_back(Opnd{});
				else operands(cb.getCalledOperand(), in.ops);
				for(unsigned k = 0; k < cb.arg_size(); ++k){
					Value* a = cb.getArgOperand(k);
					size_t before = in.ops.size();
					operands(a, in.ops);
					in.argLeaves.push_back(in.ops.size() - before);
					in.argByval.push_back(cb.isByValArgument(k));
					in.byvalSize.push_back(cb.isByValArgument(k) ? (uint32_t)DL->getTypeAllocSize(cb.getParamByValType(k)) : 0);
					in.argW.push_back(a->getType()->isMetadataTy() ? 1 : scalarW(a->getType()));
					in.argFp.push_back(a->getType()->isFloatingPointTy());
				}
				if(!I.getType()->isVoidTy()) in.w = scalarW(I.getType()->isStructTy() ? Type::getInt64Ty(I.getContext()) : I.getType());
				if(auto* st = dyn_cast<StructType>(I.getType())) if(st->getNumElements()) in.w2 = scalarW(st->getElementType(0));
				if(in.op == Op::Invoke){
					auto& iv = cast<InvokeInst>(I);
					in.e0 = mkEdge(&bb, iv.getNormalDest());
					in.e1 = mkEdge(&bb, iv.getUnwindDest());
				}
				break;
			}
			default: {
				std::string s; raw_string_ostream os(s); I.print(os);
				throw std::runtime_error("unsupported instruction " + s);
			}
			}
			f->code.push_back(std::move(in));
		}
	}
	cfuncs[F] = std::move(cf);
	return f;
}
