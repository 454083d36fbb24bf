// C++ exceptions and RTTI
#include "engine.h"
using namespace llvm;

int Engine::findExc(uint64_t handle){
	for(int i = (int)S->excs.size() - 1; i >= 0; --i) if(!S->excs[i].dead && S->excs[i].handle == handle) return i;
	return -1;
}
// 0 other, 1 class, 2 si_class, 3 vmi_class, 4 pointer
int Engine::tiKind(uint64_t ti){
	uint64_t vt = rd64(ti);
	Obj* o = find(vt);
	if(!o) return 0;
	if(o->name == "_ZTVN10__cxxabiv117__class_type_infoE") return 1;
	if(o->name == "_ZTVN10__cxxabiv120__si_class_type_infoE") return 2;
	if(o->name == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") return 3;
	if(o->name == "_ZTVN10__cxxabiv119__pointer_type_infoE") return 4;
	return 0;
}
bool Engine::sameType(uint64_t a, uint64_t b){
	if(a == b) return true;
	return cstr(cv(rd64(a + 8))) == cstr(cv(rd64(b + 8)));
}
bool Engine::upcast(uint64_t ti, uint64_t target, uint64_t obj, uint64_t& adj, bool& pub, bool){
	std::vector<std::pair<uint64_t, bool>> found;
	std::vector<std::pair<uint64_t, bool>> dummy;
	findSub(ti, target, obj, true, found, 0, dummy);
	std::set<uint64_t> pubs;
	for(auto& f : found) if(f.second) pubs.insert(f.first);
	std::set<uint64_t> alls;
	for(auto& f : found) alls.insert(f.first);
	if(alls.size() != 1 || pubs.empty()) return false;
	adj = *pubs.begin();
	pub = true;
	return true;
}
// collects every subobject of type dst reachable from (ti, p)
void Engine::findSub(uint64_t ti, uint64_t dst, uint64_t p, bool pub, std::vector<std::pair<uint64_t, bool>>& out, uint64_t want, std::vector<std::pair<uint64_t, bool>>& wantOut){
	if(sameType(ti, dst)){ out.emplace_back(p, pub); return; }
	int k = tiKind(ti);
	if(k == 2) findSub(rd64(ti + 16), dst, p, pub, out, want, wantOut);
	else if(k == 3){
		Val n = loadVal(cv(ti + 20), 32);
		for(uint64_t i = 0; i < n.v; ++i){
			uint64_t b = rd64(ti + 24 + i * 16);
			int64_t of = (int64_t)rd64(ti + 24 + i * 16 + 8);
			bool isPub = of & 2, virt = of & 1;
			int64_t off = of >> 8;
			uint64_t q;
			if(virt){
				if(p == 0) q = 0;
				else { uint64_t vt = rd64(p); q = p + (int64_t)rd64(vt + off); }
			} else q = p + off;
			findSub(b, dst, q, pub && isPub, out, want, wantOut);
		}
	}
}
bool Engine::canCatch(uint64_t c, uint64_t t, uint64_t obj, uint64_t& adj){
	adj = obj;
	if(c == 0) return true;
	if(sameType(c, t)){
		if(tiKind(t) == 4) adj = rd64(obj);
		return true;
	}
	int kc = tiKind(c), kt = tiKind(t);
	if(kt == 4 && kc == 4){
		uint64_t pt = rd64(t + 24), pc = rd64(c + 24);
		uint64_t pv = rd64(obj);
		Val qf = loadVal(cv(c + 16), 32);
		if(sameType(pt, pc)){ adj = pv; return true; }
		bool pub;
		uint64_t a;
		(void)qf;
		int kp = tiKind(pt);
		if((kp == 2 || kp == 3) && upcast(pt, pc, pv, a, pub)){ adj = a; return true; }
		if(cstr(cv(rd64(pc + 8))) == "v"){ adj = pv; return true; }
		return false;
	}
	if(kt != 2 && kt != 3) return false;
	bool pub;
	return upcast(t, c, obj, adj, pub);
}
uint64_t Engine::dynCast(uint64_t p, uint64_t src, uint64_t dst){
	uint64_t vt = rd64(p);
	int64_t top = (int64_t)rd64(vt - 16);
	uint64_t ti = rd64(vt - 8);
	uint64_t whole = p + top;
	// public downcast: a dst subobject that contains src subobject p publicly
	std::vector<std::pair<uint64_t, bool>> ds, d2;
	findSub(ti, dst, whole, true, ds, 0, d2);
	std::set<uint64_t> cand, all;
	for(auto& d : ds){
		all.insert(d.first);
		std::vector<std::pair<uint64_t, bool>> ss;
		findSub(dst, src, d.first, true, ss, 0, d2);
		for(auto& x : ss) if(x.first == p && x.second) cand.insert(d.first);
	}
	if(cand.size() == 1) return *cand.begin();
	if(cand.size() > 1) return 0;
	// cross cast: src public base of whole, dst unambiguous public base of whole
	std::vector<std::pair<uint64_t, bool>> ss;
	findSub(ti, src, whole, true, ss, 0, d2);
	bool srcPub = false;
	for(auto& x : ss) if(x.first == p && x.second) srcPub = true;
	if(!srcPub) return 0;
	if(all.size() == 1){ for(auto& d : ds) if(d.second) return d.first; }
	return 0;
}
// returns selector (0: no match)
int Engine::matchLP(const LandingPadInst* lp, uint32_t ei, bool& cleanup, uint64_t& adj){
	cleanup = lp->isCleanup();
	Exc& ex = S->excs[ei];
	for(unsigned i = 0; i < lp->getNumClauses(); ++i){
		if(lp->isCatch(i)){
			uint64_t c = constAddr(lp->getClause(i));
			if(canCatch(c, ex.ti, ex.obj, adj)) return (int)tid(c);
		} else {
			auto* arr = lp->getClause(i);
			bool ok = false;
			if(auto* ca = dyn_cast<ConstantArray>(arr)){ for(auto& o : ca->operands()){ uint64_t a; if(canCatch(constAddr(cast<Constant>(o)), ex.ti, ex.obj, a)) ok = true; } }
			if(!ok){ adj = ex.obj; return -1; }
		}
	}
	return 0;
}
void Engine::terminate(const std::string& why){
	// an enclosing vp_abortable catches it
	Thread& t = thr();
	for(int i = (int)t.st.size() - 1; i >= 0; --i){
		if(t.st[i].onret == OnRet::Marker){
			while((int)t.st.size() > i) popFrame();
			t.caught.clear();
			Val v = cv(1);
			finishCall(&v, 1);
			return;
		}
	}
	error("abort", why);
}
void Engine::unwind(uint32_t ei){
	Thread& t = thr();
	bool handler = false;
	int limit = -1;
	for(int i = (int)t.st.size() - 1; i >= 0; --i){
		Frame& f = t.st[i];
		Ins& in = f.f->code[f.pc];
		if(in.op == Op::Invoke){
			bool cl; uint64_t adj = 0;
			uint32_t tgt = f.f->bbStart[f.f->edges[in.e1].target];
			auto* lp = dyn_cast<LandingPadInst>(f.f->code[tgt].I);
			if(!lp) error("internal", "no landing pad");
			if(matchLP(lp, ei, cl, adj)){ handler = true; break; }
		}
		if(f.onret == OnRet::Marker || f.onret == OnRet::ThreadEnd || f.onret == OnRet::Ctor || f.onret == OnRet::FreeExc){ limit = i; break; }
	}
	(void)limit;
	if(!handler){
		std::string tn = cstr(cv(rd64(S->excs[ei].ti + 8)));
		terminate("uncaught exception of type " + llvm::demangle("_ZTS" + tn).substr(0, 120));
		return;
	}
	for(;;){
		Frame& f = fr();
		Ins& in = f.f->code[f.pc];
		if(in.op == Op::Invoke){
			bool cl; uint64_t adj = 0;
			uint32_t tgt = f.f->bbStart[f.f->edges[in.e1].target];
			auto* lp = cast<LandingPadInst>(f.f->code[tgt].I);
			int sel = matchLP(lp, ei, cl, adj);
			if(sel || cl){
				if(sel) S->excs[ei].adj = adj;
				f.lpPtr = S->excs[ei].handle;
				f.lpSel = (uint32_t)sel;
				jump(in.e1);
				return;
			}
		}
		popFrame();
	}
}
void Engine::throwObj(uint64_t obj, uint64_t ti, uint64_t dtor){
	Exc e{};
	e.handle = e.obj = obj; e.ti = ti; e.dtor = dtor; e.adj = obj;
	e.handlers = 0; e.refs = 1; e.primary = -1; e.dead = false;
	S->excs.push_back(e);
	thr().uncaught++;
	unwind(S->excs.size() - 1);
}
// drops one reference; the current call instruction is completed here
void Engine::releaseExc(uint32_t idx){
	Exc& e = S->excs[idx];
	if(--e.refs > 0){ finishCall(nullptr, 0); return; }
	e.dead = true;
	if(e.primary >= 0){
		Obj* h = find(e.handle);
		uint32_t hid = h->id;
		uint32_t pr = (uint32_t)e.primary;
		freeObj(hid);
		releaseExc(pr);
		return;
	}
	Obj* o = find(e.obj);
	if(e.dtor){
		Obj* fo = find(e.dtor);
		const Function* F = fo ? (const Function*)fo->fn : nullptr;
		if(!F || F->isDeclaration()) throw PathEnd{"exception destructor without body"};
		std::vector<std::vector<Val>> a{{cv(e.obj)}};
		pushCall(F, a, OnRet::FreeExc, o->id);
		return;
	}
	freeObj(o->id);
	finishCall(nullptr, 0);
}
