// calls: intrinsics, libc / C++ runtime functions and the vp_* harness interface
#include "engine.h"
#include <cmath>
#include <cfloat>
#include <cxxabi.h>
#include <llvm/IR/IntrinsicsX86.h>
using namespace llvm;
typedef std::vector<std::vector<Val>> Args;
typedef std::function<void(Engine&, Ins&, Args&)> Handler;
static std::unordered_map<std::string, Handler> table;
static void fin(Engine& g, Val v){ g.finishCall(&v, 1); }
static void fin0(Engine& g){ g.finishCall(nullptr, 0); }
static uint64_t argc64(Engine& g, Args& a, unsigned i, unsigned w = 64){ return g.concretize(a[i][0], w); }

static void throwStd(Engine& g, const char* fn){
	// models.cpp provides vp_throw_* functions
	const Function* F = g.M->getFunction(fn);
	if(!F || F->isDeclaration()) throw PathEnd{std::string("no model ") + fn};
	g.pushCall(F, {});
}
static uint64_t heapAlloc(Engine& g, uint64_t n, uint8_t tag, bool counted = true){
	uint32_t id = g.newObj(n, OHeap, "heap");
	g.S->mem[id]->tag = tag;
	if(counted) g.S->heapLive++;
	return g.S->mem[id]->base;
}
static const uint64_t HUGE_ALLOC = 4u << 20;
static void opNew(Engine& g, Args& a, uint8_t tag, bool nothrow = false){
	Val n = a[0][0];
	if(n.e && !n.e->isConst()){
		// split off sizes that no allocator could serve
		if(g.decide(mkBin(K::Ult, mkConst(HUGE_ALLOC, 64), n.e))){
			if(nothrow){ fin(g, cv(0)); return; }
			throwStd(g, "vp_throw_bad_alloc");
			return;
		}
	}
	uint64_t k = g.concretize(n, 64);
	bool fail = k > HUGE_ALLOC;
	if(g.S->oomArmed){ g.S->allocCount++; if((int64_t)g.S->allocCount == g.S->allocFailAt) fail = true; }
	if(fail){
		if(nothrow){ fin(g, cv(0)); return; }
		throwStd(g, "vp_throw_bad_alloc");
		return;
	}
	fin(g, cv(heapAlloc(g, k, tag)));
}
static void opDel(Engine& g, Args& a, uint8_t tag){
	uint64_t p = argc64(g, a, 0);
	if(p){
		Obj* o = g.find(p);
		if(!o || o->kind != OHeap || o->base != p) g.error("memory", "delete/free of a pointer that was not allocated");
		if(o->freed) g.error("memory", "double free");
		if(o->tag != tag) g.error("memory", "mismatched allocation and deallocation functions");
		g.freeObj(o->id);
		g.S->heapLive--;
	}
	fin0(g);
}
// equality of n bytes as an expression
static E bytesEq(Engine& g, const Val& p, const Val& q, uint64_t n){
	E r = mkTrue();
	for(uint64_t i = 0; i < n; ++i){
		Val x = g.loadVal(g.addOff(p, i), 8), y = g.loadVal(g.addOff(q, i), 8);
		if(!x.e && !y.e){ if(x.v != y.v) return mkFalse(); continue; }
		r = mkBin(K::And, r, mkBin(K::Eq, g.toE(x, 8), g.toE(y, 8)));
	}
	return r;
}
static Val memcmpE(Engine& g, const Val& p, const Val& q, uint64_t n, unsigned esz = 1){
	E r = mkConst(0, 32);
	for(uint64_t i = n; i-- > 0;){
		E x = g.toE(g.loadVal(g.addOff(p, i * esz), 8 * esz), 8 * esz), y = g.toE(g.loadVal(g.addOff(q, i * esz), 8 * esz), 8 * esz);
		E eq = mkBin(K::Eq, x, y);
		E lt = esz == 1 ? mkBin(K::Ult, x, y) : mkBin(K::Slt, x, y);
		r = mkIte(eq, r, mkIte(lt, mkConst((u128)-1, 32), mkConst(1, 32)));
	}
	return Engine::fromE(r);
}
static E inRange(E c, unsigned lo, unsigned hi){
	unsigned w = c->width;
	return mkBin(K::And, mkBin(K::Ule, mkConst(lo, w), c), mkBin(K::Ule, c, mkConst(hi, w)));
}
static void boolRes(Engine& g, E b, unsigned w = 32){ fin(g, Engine::fromE(mkZExt(b, w))); }

static void setup(){
	auto& t = table;
	// ---- harness interface
	t["vp_sym_bytes"] = [](Engine& g, Ins&, Args& a){
		uint64_t n = argc64(g, a, 1);
		SymRec r;
		r.name = g.cstr(a[2][0]);
		for(uint64_t i = 0; i < n; ++i){
			E v = g.freshVar(8);
			r.vars.push_back(v->aux);
			g.storeVal(g.addOff(a[0][0], i), Val{0, v}, 8);
		}
		g.S->syms.push_back(r);
		fin0(g);
	};
	t["vp_choice"] = [](Engine& g, Ins&, Args& a){
		uint64_t n = argc64(g, a, 0);
		if(n == 0) throw PathEnd{""};
		// the variable must exist before forking so that siblings agree on it
		uint32_t id = g.S->nvars;
		E v = mkVar(id, 16);
		uint64_t pick = g.S->model->get(id);
		// fork over all values
		for(uint64_t k = 0; k < n; ++k){
			if(k == (pick < n ? pick : 0)) continue;
			auto s = std::make_unique<State>(*g.S);
			auto m = std::make_shared<Model>(*g.S->model);
			if(m->v.size() <= id) m->v.resize(id + 1, 0);
			m->v[id] = k;
			m->serial = ++modelSerial;
			s->model = m;
			State* cur = g.S;
			g.S = s.get();
			g.S->nvars = id + 1;
			SymRec r; r.name = g.cstr(a[1][0]); r.vars.push_back(id); r.choice = true;
			g.S->syms.push_back(r);
			g.addConstraint(mkBin(K::Eq, v, mkConst(k, 16)));
			fin(g, cv(k));
			g.S = cur;
			g.work.push_back(std::move(s));
			++g.forks;
		}
		uint64_t k = pick < n ? pick : 0;
		auto m = std::make_shared<Model>(*g.S->model);
		if(m->v.size() <= id) m->v.resize(id + 1, 0);
		m->v[id] = k;
			m->serial = ++modelSerial;
		g.S->model = m;
		g.S->nvars = id + 1;
		SymRec r; r.name = g.cstr(a[1][0]); r.vars.push_back(id); r.choice = true;
		g.S->syms.push_back(r);
		g.addConstraint(mkBin(K::Eq, v, mkConst(k, 16)));
		fin(g, cv(k));
	};
	t["vp_assume"] = [](Engine& g, Ins&, Args& a){
		Val c = a[0][0];
		if(!c.e){ if(!(c.v & 1)) throw PathEnd{""}; fin0(g); return; }
		E b = c.e->width == 1 ? c.e : mkNot(mkBin(K::Eq, c.e, mkConst(0, c.e->width)));
		if(evalExpr(b, *g.S->model) & 1){ g.addConstraint(b); fin0(g); return; }
		ModelP m; bool unk;
		if(!g.mayBe(b, m, unk)){ if(unk) throw PathEnd{"solver gave no answer for an assumption"}; throw PathEnd{""}; }
		g.S->model = m;
		g.addConstraint(b);
		fin0(g);
	};
	t["vp_assert"] = [](Engine& g, Ins&, Args& a){
		Val c = a[0][0];
		++g.asserts;
		if(!c.e){ if(!(c.v & 1)) g.error("assert", g.cstr(a[1][0])); fin0(g); return; }
		E b = c.e->width == 1 ? c.e : mkNot(mkBin(K::Eq, c.e, mkConst(0, c.e->width)));
		++g.assertsSym;
		if(!(evalExpr(b, *g.S->model) & 1)){ g.record("assert", g.cstr(a[1][0]), g.S->model); }
		else {
			ModelP m; bool unk;
			if(g.mayBe(mkNot(b), m, unk)){ g.record("assert", g.cstr(a[1][0]), m); }
			else { if(unk) g.noteTrunc("solver gave no answer for an assertion"); fin0(g); return; }
		}
		// continue on the side where it holds
		ModelP m; bool unk;
		if(!(evalExpr(b, *g.S->model) & 1)){
			if(!g.mayBe(b, m, unk)) throw PathEnd{""};
			g.S->model = m;
		}
		g.addConstraint(b);
		fin0(g);
	};
	t["vp_concretize"] = [](Engine& g, Ins&, Args& a){ fin(g, cv(argc64(g, a, 0))); };
	t["vp_reach"] = [](Engine& g, Ins&, Args& a){ g.reached[g.cstr(a[0][0])]++; fin0(g); };
	t["vp_heap_count"] = [](Engine& g, Ins&, Args&){ fin(g, cv((uint64_t)g.S->heapLive)); };
	t["vp_symbolic"] = [](Engine& g, Ins&, Args&){ fin(g, cv(1)); };
	t["vp_observe"] = [](Engine& g, Ins&, Args& a){
		uint64_t n = argc64(g, a, 2);
		ObsRec r;
		r.name = g.cstr(a[0][0]);
		for(uint64_t i = 0; i < n; ++i) r.bytes.push_back(g.loadVal(g.addOff(a[1][0], i), 8));
		g.S->obs.push_back(r);
		fin0(g);
	};
	t["vp_abortable"] = [](Engine& g, Ins&, Args& a){
		Obj* o = g.find(argc64(g, a, 0));
		if(!o || o->kind != OFunc) g.error("memory", "bad function pointer");
		g.S->outv.clear();
		Args aa{{a[1][0]}};
		g.pushCall((const Function*)o->fn, aa, OnRet::Marker);
	};
	// captured standard error: model streams append here
	t["vp_capture"] = [](Engine& g, Ins&, Args& a){
		uint64_t n = argc64(g, a, 1);
		for(uint64_t i = 0; i < n; ++i) g.S->outv.push_back(g.loadVal(g.addOff(a[0][0], i), 8));
		fin0(g);
	};
	t["vp_captured_size"] = [](Engine& g, Ins&, Args&){ fin(g, cv(g.S->outv.size())); };
	t["vp_captured_read"] = [](Engine& g, Ins&, Args& a){
		uint64_t n = argc64(g, a, 1);
		for(uint64_t i = 0; i < n && i < g.S->outv.size(); ++i) g.storeVal(g.addOff(a[0][0], i), g.S->outv[i], 8);
		fin0(g);
	};
	t["vp_arm_alloc_failure"] = [](Engine& g, Ins&, Args& a){ g.S->oomArmed = true; g.S->allocCount = 0; g.S->allocFailAt = (int64_t)argc64(g, a, 0); fin0(g); };
	t["vp_disarm_alloc_failure"] = [](Engine& g, Ins&, Args&){ g.S->oomArmed = false; g.S->allocFailAt = -1; fin0(g); };
	t["vp_shared"] = [](Engine& g, Ins&, Args& a){ Obj* o = g.find(argc64(g, a, 0)); if(!o) g.error("memory", "vp_shared"); g.wr(o->id)->shared = true; fin0(g); };
	t["vp_spawn"] = [](Engine& g, Ins&, Args& a){
		Obj* o = g.find(argc64(g, a, 0));
		if(!o || o->kind != OFunc) g.error("memory", "bad function pointer");
		Args aa{{a[1][0]}};
		fin0(g);
		uint32_t parent = g.S->cur, id = g.S->th.size();
		if(g.S->th[parent].vc.empty()) g.S->th[parent].vc = {1};
		g.S->th.emplace_back();
		g.S->th[id].vc = g.S->th[parent].vc;
		g.S->th[id].vc.resize(id + 1, 0);
		g.S->th[id].vc[id] = 1;
		g.S->th[parent].vc[parent]++;
		g.S->cur = id;
		g.pushCall((const Function*)o->fn, aa, OnRet::ThreadEnd);
		g.S->cur = parent;
		// the spawner runs on; scheduling happens at its next visible operation or at join
	};
	t["vp_join"] = [](Engine& g, Ins&, Args&){
		Thread& t = g.thr();
		bool all = true;
		for(uint32_t i = 1; i < g.S->th.size(); ++i) if(!g.S->th[i].done) all = false;
		if(all){
			t.joining = false;
			for(uint32_t i = 1; i < g.S->th.size(); ++i){ auto& b = g.S->th[i].vc; if(t.vc.size() < b.size()) t.vc.resize(b.size(), 0); for(size_t k = 0; k < b.size(); ++k) if(b[k] > t.vc[k]) t.vc[k] = b[k]; }
			g.S->schedPending = false;
			fin0(g);
			return;
		}
		t.joining = true;
		g.schedule();
	};
	t["vp_native_double_to_text"] = [](Engine& g, Ins&, Args& a){
		// (buf, n, fmt, precision, double bits) for concrete values only
		uint64_t bits = argc64(g, a, 4);
		double d; memcpy(&d, &bits, 8);
		std::string fmt = g.cstr(a[2][0]);
		char b[512];
		int r = snprintf(b, sizeof b, fmt.c_str(), (int)argc64(g, a, 3, 32), d);
		for(int i = 0; i <= r && i < (int)argc64(g, a, 1); ++i) g.storeVal(g.addOff(a[0][0], i), cv((uint8_t)b[i]), 8);
		fin(g, cv((uint32_t)r));
	};
	// ---- allocation
	t["_Znwm"] = [](Engine& g, Ins&, Args& a){ opNew(g, a, 1); };
	t["_Znam"] = [](Engine& g, Ins&, Args& a){ opNew(g, a, 2); };
	t["_ZnwmSt11align_val_t"] = t["_Znwm"];
	t["_ZnamSt11align_val_t"] = t["_Znam"];
	t["_ZnwmRKSt9nothrow_t"] = [](Engine& g, Ins&, Args& a){ opNew(g, a, 1, true); };
	t["_ZnamRKSt9nothrow_t"] = [](Engine& g, Ins&, Args& a){ opNew(g, a, 2, true); };
	for(auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) t[n] = [](Engine& g, Ins&, Args& a){ opDel(g, a, 1); };
	for(auto n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdaPvRKSt9nothrow_t"}) t[n] = [](Engine& g, Ins&, Args& a){ opDel(g, a, 2); };
	t["malloc"] = [](Engine& g, Ins&, Args& a){ uint64_t n = argc64(g, a, 0); if(n > HUGE_ALLOC){ fin(g, cv(0)); return; } fin(g, cv(heapAlloc(g, n, 0))); };
	t["calloc"] = [](Engine& g, Ins&, Args& a){ uint64_t n = argc64(g, a, 0) * argc64(g, a, 1); if(n > HUGE_ALLOC){ fin(g, cv(0)); return; } uint64_t p = heapAlloc(g, n, 0); g.find(p)->un.clear(); fin(g, cv(p)); };
	t["free"] = [](Engine& g, Ins&, Args& a){ opDel(g, a, 0); };
	t["realloc"] = [](Engine& g, Ins&, Args& a){
		uint64_t p = argc64(g, a, 0), n = argc64(g, a, 1);
		if(n > HUGE_ALLOC){ fin(g, cv(0)); return; }
		uint64_t q = heapAlloc(g, n, 0);
		if(p){
			Obj* o = g.find(p);
			if(!o || o->freed || o->base != p) g.error("memory", "realloc of a bad pointer");
			g.memCopy(cv(q), cv(p), std::min<uint64_t>(n, o->size), false);
			g.freeObj(o->id);
			g.S->heapLive--;
		}
		fin(g, cv(q));
	};
	// ---- memory / strings
	t["memcpy"] = [](Engine& g, Ins&, Args& a){ uint64_t n = argc64(g, a, 2); g.memCopy(a[0][0], a[1][0], n, false); fin(g, a[0][0]); };
	t["memmove"] = [](Engine& g, Ins&, Args& a){ uint64_t n = argc64(g, a, 2); g.memCopy(a[0][0], a[1][0], n, true); fin(g, a[0][0]); };
	t["memset"] = [](Engine& g, Ins&, Args& a){ uint64_t n = argc64(g, a, 2); Val c = a[1][0]; Val b = c.e ? Engine::fromE(mkExtract(c.e, 0, 8)) : cv(c.v & 0xff); if(n) g.resolve(a[0][0], n, true); for(uint64_t i = 0; i < n; ++i) g.storeVal(g.addOff(a[0][0], i), b, 8); fin(g, a[0][0]); };
	t["memcmp"] = [](Engine& g, Ins&, Args& a){ uint64_t n = argc64(g, a, 2); if(n){ g.resolve(a[0][0], n, false); g.resolve(a[1][0], n, false); } fin(g, memcmpE(g, a[0][0], a[1][0], n)); };
	t["bcmp"] = [](Engine& g, Ins&, Args& a){ uint64_t n = argc64(g, a, 2); if(n){ g.resolve(a[0][0], n, false); g.resolve(a[1][0], n, false); } boolRes(g, mkNot(bytesEq(g, a[0][0], a[1][0], n))); };
	t["wmemcmp"] = [](Engine& g, Ins&, Args& a){ uint64_t n = argc64(g, a, 2); if(n){ g.resolve(a[0][0], n * 4, false); g.resolve(a[1][0], n * 4, false); } fin(g, memcmpE(g, a[0][0], a[1][0], n, 4)); };
	t["wmemcpy"] = [](Engine& g, Ins&, Args& a){ uint64_t n = argc64(g, a, 2); g.memCopy(a[0][0], a[1][0], n * 4, false); fin(g, a[0][0]); };
	t["wmemmove"] = [](Engine& g, Ins&, Args& a){ uint64_t n = argc64(g, a, 2); g.memCopy(a[0][0], a[1][0], n * 4, true); fin(g, a[0][0]); };
	t["wmemset"] = [](Engine& g, Ins&, Args& a){ uint64_t n = argc64(g, a, 2); for(uint64_t i = 0; i < n; ++i) g.storeVal(g.addOff(a[0][0], i * 4), a[1][0], 32); fin(g, a[0][0]); };
	t["strlen"] = [](Engine& g, Ins&, Args& a){
		uint64_t n = 0;
		for(;; ++n){ Val b = g.loadVal(g.addOff(a[0][0], n), 8); if(g.decideV(g.icmp(CmpInst::ICMP_EQ, b, cv(0), 8))) break; }
		fin(g, cv(n));
	};
	t["wcslen"] = [](Engine& g, Ins&, Args& a){
		uint64_t n = 0;
		for(;; ++n){ Val b = g.loadVal(g.addOff(a[0][0], n * 4), 32); if(g.decideV(g.icmp(CmpInst::ICMP_EQ, b, cv(0), 32))) break; }
		fin(g, cv(n));
	};
	t["memchr"] = [](Engine& g, Ins&, Args& a){
		uint64_t n = argc64(g, a, 2);
		Val c = a[1][0]; c = c.e ? Engine::fromE(mkExtract(c.e, 0, 8)) : cv(c.v & 0xff);
		for(uint64_t i = 0; i < n; ++i){
			Val b = g.loadVal(g.addOff(a[0][0], i), 8);
			if(g.decideV(g.icmp(CmpInst::ICMP_EQ, b, c, 8))){ fin(g, g.addOff(a[0][0], i)); return; }
		}
		fin(g, cv(0));
	};
	t["wmemchr"] = [](Engine& g, Ins&, Args& a){
		uint64_t n = argc64(g, a, 2);
		for(uint64_t i = 0; i < n; ++i){
			Val b = g.loadVal(g.addOff(a[0][0], i * 4), 32);
			if(g.decideV(g.icmp(CmpInst::ICMP_EQ, b, a[1][0], 32))){ fin(g, g.addOff(a[0][0], i * 4)); return; }
		}
		fin(g, cv(0));
	};
	t["strchr"] = [](Engine& g, Ins&, Args& a){
		Val c = a[1][0]; c = c.e ? Engine::fromE(mkExtract(c.e, 0, 8)) : cv(c.v & 0xff);
		for(uint64_t i = 0;; ++i){
			Val b = g.loadVal(g.addOff(a[0][0], i), 8);
			if(g.decideV(g.icmp(CmpInst::ICMP_EQ, b, c, 8))){ fin(g, g.addOff(a[0][0], i)); return; }
			if(g.decideV(g.icmp(CmpInst::ICMP_EQ, b, cv(0), 8))) break;
		}
		fin(g, cv(0));
	};
	auto strcmpImpl = [](Engine& g, Args& a, uint64_t n){
		for(uint64_t i = 0; i < n; ++i){
			Val x = g.loadVal(g.addOff(a[0][0], i), 8), y = g.loadVal(g.addOff(a[1][0], i), 8);
			if(!g.decideV(g.icmp(CmpInst::ICMP_EQ, x, y, 8))){ bool lt = g.decideV(g.icmp(CmpInst::ICMP_ULT, x, y, 8)); fin(g, cv(lt ? 0xffffffffu : 1)); return; }
			if(g.decideV(g.icmp(CmpInst::ICMP_EQ, x, cv(0), 8))) break;
		}
		fin(g, cv(0));
	};
	t["strcmp"] = [=](Engine& g, Ins&, Args& a){ strcmpImpl(g, a, ~0ull); };
	t["strncmp"] = [=](Engine& g, Ins&, Args& a){ strcmpImpl(g, a, argc64(g, a, 2)); };
	// ---- ctype, C locale
	t["isspace"] = [](Engine& g, Ins&, Args& a){ E c = g.toE(a[0][0], 32); boolRes(g, mkBin(K::Or, mkBin(K::Eq, c, mkConst(32, 32)), inRange(c, 9, 13))); };
	t["isdigit"] = [](Engine& g, Ins&, Args& a){ E c = g.toE(a[0][0], 32); boolRes(g, inRange(c, '0', '9')); };
	t["isalpha"] = [](Engine& g, Ins&, Args& a){ E c = g.toE(a[0][0], 32); boolRes(g, mkBin(K::Or, inRange(c, 'a', 'z'), inRange(c, 'A', 'Z'))); };
	t["isalnum"] = [](Engine& g, Ins&, Args& a){ E c = g.toE(a[0][0], 32); boolRes(g, mkBin(K::Or, inRange(c, '0', '9'), mkBin(K::Or, inRange(c, 'a', 'z'), inRange(c, 'A', 'Z')))); };
	t["isxdigit"] = [](Engine& g, Ins&, Args& a){ E c = g.toE(a[0][0], 32); boolRes(g, mkBin(K::Or, inRange(c, '0', '9'), mkBin(K::Or, inRange(c, 'a', 'f'), inRange(c, 'A', 'F')))); };
	t["isblank"] = [](Engine& g, Ins&, Args& a){ E c = g.toE(a[0][0], 32); boolRes(g, mkBin(K::Or, mkBin(K::Eq, c, mkConst(32, 32)), mkBin(K::Eq, c, mkConst(9, 32)))); };
	t["isupper"] = [](Engine& g, Ins&, Args& a){ E c = g.toE(a[0][0], 32); boolRes(g, inRange(c, 'A', 'Z')); };
	t["islower"] = [](Engine& g, Ins&, Args& a){ E c = g.toE(a[0][0], 32); boolRes(g, inRange(c, 'a', 'z')); };
	t["isprint"] = [](Engine& g, Ins&, Args& a){ E c = g.toE(a[0][0], 32); boolRes(g, inRange(c, 32, 126)); };
	t["isgraph"] = [](Engine& g, Ins&, Args& a){ E c = g.toE(a[0][0], 32); boolRes(g, inRange(c, 33, 126)); };
	t["iscntrl"] = [](Engine& g, Ins&, Args& a){ E c = g.toE(a[0][0], 32); boolRes(g, mkBin(K::Or, inRange(c, 0, 31), mkBin(K::Eq, c, mkConst(127, 32)))); };
	t["ispunct"] = [](Engine& g, Ins&, Args& a){ E c = g.toE(a[0][0], 32); boolRes(g, mkBin(K::And, inRange(c, 33, 126), mkNot(mkBin(K::Or, inRange(c, '0', '9'), mkBin(K::Or, inRange(c, 'a', 'z'), inRange(c, 'A', 'Z')))))); };
	t["iswspace"] = t["isspace"];
	t["tolower"] = [](Engine& g, Ins&, Args& a){ E c = g.toE(a[0][0], 32); fin(g, Engine::fromE(mkIte(inRange(c, 'A', 'Z'), mkBin(K::Add, c, mkConst(32, 32)), c))); };
	t["toupper"] = [](Engine& g, Ins&, Args& a){ E c = g.toE(a[0][0], 32); fin(g, Engine::fromE(mkIte(inRange(c, 'a', 'z'), mkBin(K::Sub, c, mkConst(32, 32)), c))); };
	// ---- process
	t["abort"] = [](Engine& g, Ins&, Args&){ g.terminate("abort() called"); };
	t["_ZSt9terminatev"] = [](Engine& g, Ins&, Args&){ g.terminate("std::terminate() called"); };
	t["_ZSt10unexpectedv"] = t["_ZSt9terminatev"];
	t["__cxa_call_unexpected"] = t["_ZSt9terminatev"];
	t["__cxa_pure_virtual"] = [](Engine& g, Ins&, Args&){ g.terminate("pure virtual call"); };
	t["exit"] = [](Engine&, Ins&, Args&){ throw PathEnd{"exit() called"}; };
	t["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = [](Engine& g, Ins&, Args& a){ g.terminate("libstdc++ assertion failed: " + g.cstr(a[3][0])); };
	t["__assert_fail"] = [](Engine& g, Ins&, Args& a){ g.terminate("assert() failed: " + g.cstr(a[0][0])); };
	t["__cxa_atexit"] = [](Engine& g, Ins&, Args&){ fin(g, cv(0)); };
	t["atexit"] = t["__cxa_atexit"];
	t["__cxa_guard_acquire"] = [](Engine& g, Ins&, Args& a){ Val v = g.loadVal(a[0][0], 8); fin(g, cv(!v.e && v.v == 0)); };
	t["__cxa_guard_release"] = [](Engine& g, Ins&, Args& a){ g.storeVal(a[0][0], cv(1), 8); fin0(g); };
	t["__cxa_guard_abort"] = [](Engine& g, Ins&, Args&){ fin0(g); };
	t["sched_yield"] = [](Engine& g, Ins&, Args&){ fin(g, cv(0)); };
	t["nanosleep"] = t["sched_yield"];
	t["syscall"] = [](Engine& g, Ins&, Args&){ fin(g, cv(0)); }; // futex wait/wake: spurious wake-ups are allowed
	t["__errno_location"] = [](Engine& g, Ins&, Args&){ fin(g, cv(g.extGlobals["vp_errno"])); };
	t["getenv"] = [](Engine& g, Ins&, Args&){ fin(g, cv(0)); };
	// ---- exceptions
	t["__cxa_allocate_exception"] = [](Engine& g, Ins&, Args& a){ uint64_t n = argc64(g, a, 0); uint32_t id = g.newObj(n, OExc, "exception"); fin(g, cv(g.S->mem[id]->base)); };
	t["__cxa_free_exception"] = [](Engine& g, Ins&, Args& a){ Obj* o = g.find(argc64(g, a, 0)); g.freeObj(o->id); fin0(g); };
	t["__cxa_throw"] = [](Engine& g, Ins&, Args& a){ g.throwObj(argc64(g, a, 0), argc64(g, a, 1), argc64(g, a, 2)); };
	t["__cxa_begin_catch"] = [](Engine& g, Ins&, Args& a){
		int i = g.findExc(argc64(g, a, 0));
		if(i < 0) g.error("internal", "begin_catch");
		Exc& e = g.S->excs[i];
		Thread& th = g.thr();
		if(e.handlers < 0) e.handlers = -e.handlers + 1; else e.handlers++;
		th.uncaught--;
		if(th.caught.empty() || th.caught.back() != (uint32_t)i) th.caught.push_back(i);
		fin(g, cv(e.adj));
	};
	t["__cxa_get_exception_ptr"] = [](Engine& g, Ins&, Args& a){ int i = g.findExc(argc64(g, a, 0)); fin(g, cv(g.S->excs[i].adj)); };
	t["__cxa_end_catch"] = [](Engine& g, Ins&, Args&){
		Thread& th = g.thr();
		if(th.caught.empty()){ fin0(g); return; }
		uint32_t i = th.caught.back();
		Exc& e = g.S->excs[i];
		if(e.handlers < 0){
			if(++e.handlers == 0) th.caught.pop_back();
			fin0(g);
			return;
		}
		if(--e.handlers == 0){ th.caught.pop_back(); g.releaseExc(i); return; }
		fin0(g);
	};
	t["__cxa_rethrow"] = [](Engine& g, Ins&, Args&){
		Thread& th = g.thr();
		if(th.caught.empty()){ g.terminate("rethrow without exception"); return; }
		uint32_t i = th.caught.back();
		g.S->excs[i].handlers = -g.S->excs[i].handlers;
		th.uncaught++;
		g.unwind(i);
	};
	t["__cxa_current_exception_type"] = [](Engine& g, Ins&, Args&){ Thread& th = g.thr(); fin(g, cv(th.caught.empty() ? 0 : g.S->excs[th.caught.back()].ti)); };
	t["_ZSt18uncaught_exceptionv"] = [](Engine& g, Ins&, Args&){ fin(g, cv(g.thr().uncaught > 0)); };
	t["_ZSt19uncaught_exceptionsv"] = [](Engine& g, Ins&, Args&){ fin(g, cv(g.thr().uncaught)); };
	t["vp_exc_current"] = [](Engine& g, Ins&, Args&){ // adds a reference
		Thread& th = g.thr();
		if(th.caught.empty()){ fin(g, cv(0)); return; }
		uint32_t i = th.caught.back();
		if(g.S->excs[i].primary >= 0) i = (uint32_t)g.S->excs[i].primary;
		g.S->excs[i].refs++;
		fin(g, cv(g.S->excs[i].obj));
	};
	t["vp_exc_addref"] = [](Engine& g, Ins&, Args& a){ int i = g.findExc(argc64(g, a, 0)); if(i < 0) g.error("memory", "exception_ptr to a destroyed exception"); g.S->excs[i].refs++; fin0(g); };
	t["vp_exc_release"] = [](Engine& g, Ins&, Args& a){ int i = g.findExc(argc64(g, a, 0)); if(i < 0) g.error("memory", "exception_ptr to a destroyed exception"); g.releaseExc(i); };
	t["vp_exc_rethrow"] = [](Engine& g, Ins&, Args& a){
		int i = g.findExc(argc64(g, a, 0));
		if(i < 0) g.error("memory", "rethrow of a destroyed exception");
		Exc p = g.S->excs[i];
		g.S->excs[i].refs++;
		uint32_t id = g.newObj(1, OExc, "dependent exception", true);
		Exc e = p;
		e.handle = g.S->mem[id]->base;
		e.handlers = 0; e.refs = 1; e.primary = i; e.dead = false;
		g.S->excs.push_back(e);
		g.thr().uncaught++;
		g.unwind(g.S->excs.size() - 1);
	};
	t["__dynamic_cast"] = [](Engine& g, Ins&, Args& a){ fin(g, cv(g.dynCast(argc64(g, a, 0), argc64(g, a, 1), argc64(g, a, 2)))); };
	t["__cxa_demangle"] = [](Engine& g, Ins&, Args& a){
		std::string n = g.cstr(a[0][0]);
		int st = 0;
		char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st);
		if(a[3][0].e || a[3][0].v) g.storeVal(a[3][0], cv((uint32_t)st), 32);
		if(!d){ fin(g, cv(0)); return; }
		size_t len = strlen(d) + 1;
		uint64_t p = heapAlloc(g, len, 0);
		for(size_t i = 0; i < len; ++i) g.storeVal(cv(p + i), cv((uint8_t)d[i]), 8);
		free(d);
		fin(g, cv(p));
	};
	// ---- math (concrete only, except those with exact symbolic forms)
	auto m1 = [](const char* nm, double (*fn)(double)){
		table[nm] = [fn, nm](Engine& g, Ins&, Args& a){
			Val x = a[0][0];
			if(x.e && !x.e->isConst()) throw PathEnd{std::string("symbolic argument of ") + nm};
			double d; memcpy(&d, &x.v, 8); d = fn(d); uint64_t r; memcpy(&r, &d, 8); fin(g, cv(r));
		};
	};
	m1("floor", floor); m1("ceil", ceil); m1("round", round); m1("trunc", trunc); m1("sin", sin); m1("cos", cos);
	t["fegetround"] = [](Engine& g, Ins&, Args&){ fin(g, cv(0)); };
}

bool Engine::intrinsic(Ins& in, Args& a){
	auto id = in.callee->getIntrinsicID();
	unsigned w = in.w;
	auto vec = [&](std::function<Val(unsigned)> fn){
		std::vector<Val> r;
		for(uint32_t i = 0; i < in.n; ++i) r.push_back(fn(i));
		finishCall(r.data(), r.size());
		return true;
	};
	auto B = [&](K k, const Val& x, const Val& y, unsigned ww){ return fromE(mkBin(k, toE(x, ww), toE(y, ww))); };
	switch(id){
	case Intrinsic::memcpy: case Intrinsic::memcpy_inline: { uint64_t n = concretize(a[2][0], in.argW[2]); memCopy(a[0][0], a[1][0], n, false); finishCall(nullptr, 0); return true; }
	case Intrinsic::memmove: { uint64_t n = concretize(a[2][0], in.argW[2]); memCopy(a[0][0], a[1][0], n, true); finishCall(nullptr, 0); return true; }
	case Intrinsic::memset: case Intrinsic::memset_inline: {
		uint64_t n = concretize(a[2][0], in.argW[2]);
		if(n){
			Ref r = resolve(a[0][0], n, true);
			if(!r.sym){ Obj* o = wr(r.o->id); for(uint64_t i = 0; i < n; ++i) storeAt(o, r.off + i, a[1][0], 8); }
			else for(uint64_t i = 0; i < n; ++i) storeVal(addOff(a[0][0], i), a[1][0], 8);
		}
		finishCall(nullptr, 0);
		return true;
	}
	case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::ssa_copy: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation:
		finishCall(a[0].data(), a[0].size()); return true;
	case Intrinsic::is_constant: { Val v = cv(0); finishCall(&v, 1); return true; }
	case Intrinsic::objectsize: { Val v = cv((a[1][0].v & 1) ? 0 : ~0ull); if(w == 32) v.v &= 0xffffffff; finishCall(&v, 1); return true; }
	case Intrinsic::eh_typeid_for: { Val v = cv(tid(a[0][0].v)); finishCall(&v, 1); return true; }
	case Intrinsic::ctpop: return vec([&](unsigned i){
		E x = toE(a[0][i], w), r = mkConst(0, w);
		for(unsigned b = 0; b < w; ++b) r = mkBin(K::Add, r, w == 1 ? x : mkZExt(mkExtract(x, b, 1), w));
		return fromE(r);
	});
	case Intrinsic::ctlz: return vec([&](unsigned i){
		E x = toE(a[0][i], w), r = mkConst(w, w);
		for(unsigned b = 0; b < w; ++b) r = mkIte(mkExtract(x, b, 1), mkConst(w - 1 - b, w), r);
		return fromE(r);
	});
	case Intrinsic::cttz: return vec([&](unsigned i){
		E x = toE(a[0][i], w), r = mkConst(w, w);
		for(unsigned b = w; b-- > 0;) r = mkIte(mkExtract(x, b, 1), mkConst(b, w), r);
		return fromE(r);
	});
	case Intrinsic::bswap: return vec([&](unsigned i){
		E x = toE(a[0][i], w), r = nullptr;
		for(unsigned b = 0; b < w; b += 8){ E p = mkExtract(x, b, 8); r = r ? mkConcat(r, p) : p; }
		return fromE(r);
	});
	case Intrinsic::bitreverse: return vec([&](unsigned i){
		E x = toE(a[0][i], w), r = nullptr;
		for(unsigned b = 0; b < w; ++b){ E p = mkExtract(x, b, 1); r = r ? mkConcat(r, p) : p; }
		return fromE(r);
	});
	case Intrinsic::fshl: case Intrinsic::fshr: return vec([&](unsigned i){
		E x = toE(a[0][i], w), y = toE(a[1][i], w), s = mkBin(K::URem, toE(a[2][i], w), mkConst(w, w));
		E inv = mkBin(K::Sub, mkConst(w, w), s);
		E z = mkBin(K::Eq, s, mkConst(0, w));
		if(id == Intrinsic::fshl) return fromE(mkIte(z, x, mkBin(K::Or, mkBin(K::Shl, x, s), mkBin(K::LShr, y, inv))));
		return fromE(mkIte(z, y, mkBin(K::Or, mkBin(K::Shl, x, inv), mkBin(K::LShr, y, s))));
	});
	case Intrinsic::umin: return vec([&](unsigned i){ E x = toE(a[0][i], w), y = toE(a[1][i], w); return fromE(mkIte(mkBin(K::Ult, x, y), x, y)); });
	case Intrinsic::umax: return vec([&](unsigned i){ E x = toE(a[0][i], w), y = toE(a[1][i], w); return fromE(mkIte(mkBin(K::Ult, x, y), y, x)); });
	case Intrinsic::smin: return vec([&](unsigned i){ E x = toE(a[0][i], w), y = toE(a[1][i], w); return fromE(mkIte(mkBin(K::Slt, x, y), x, y)); });
	case Intrinsic::smax: return vec([&](unsigned i){ E x = toE(a[0][i], w), y = toE(a[1][i], w); return fromE(mkIte(mkBin(K::Slt, x, y), y, x)); });
	case Intrinsic::abs: return vec([&](unsigned i){ E x = toE(a[0][i], w); return fromE(mkIte(mkBin(K::Slt, x, mkConst(0, w)), mkBin(K::Sub, mkConst(0, w), x), x)); });
	case Intrinsic::usub_sat: return vec([&](unsigned i){ E x = toE(a[0][i], w), y = toE(a[1][i], w); return fromE(mkIte(mkBin(K::Ult, x, y), mkConst(0, w), mkBin(K::Sub, x, y))); });
	case Intrinsic::uadd_sat: return vec([&](unsigned i){ E x = toE(a[0][i], w), y = toE(a[1][i], w); E s = mkBin(K::Add, x, y); return fromE(mkIte(mkBin(K::Ult, s, x), mkConst(maskOf(w), w), s)); });
	case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
	case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
		unsigned ww = in.w2;
		bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
		bool mul = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow;
		unsigned ew = mul ? ww * 2 : ww + 1;
		E x = toE(a[0][0], ww), y = toE(a[1][0], ww);
		K k = mul ? K::Mul : (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? K::Add : K::Sub;
		E r = mkBin(k, x, y);
		E o;
		if(ew > 128){ throw PathEnd{"wide overflow multiply"}; }
		if(!sg && mul && (x->isConst() || y->isConst())){
			if(x->isConst()) std::swap(x, y);
			E o2 = y->val == 0 ? mkFalse() : mkBin(K::Ult, mkConst(maskOf(ww) / y->val, ww), x);
			Val v[2] = {fromE(r), fromE(o2)};
			finishCall(v, 2);
			return true;
		}
		if(id == Intrinsic::uadd_with_overflow || id == Intrinsic::usub_with_overflow){
			E o2 = id == Intrinsic::uadd_with_overflow ? (y->isConst() ? mkBin(K::Ult, mkConst(~y->val, ww), x) : x->isConst() ? mkBin(K::Ult, mkConst(~x->val, ww), y) : mkBin(K::Ult, r, x)) : mkBin(K::Ult, x, y);
			Val v[2] = {fromE(r), fromE(o2)};
			finishCall(v, 2);
			return true;
		}
		E X = sg ? mkSExt(x, ew) : mkZExt(x, ew), Y = sg ? mkSExt(y, ew) : mkZExt(y, ew);
		E R = mkBin(k, X, Y);
		o = mkNot(mkBin(K::Eq, R, sg ? mkSExt(r, ew) : mkZExt(r, ew)));
		Val v[2] = {fromE(r), fromE(o)};
		finishCall(v, 2);
		return true;
	}
	case Intrinsic::fabs: return vec([&](unsigned i){ return B(K::And, a[0][i], Val{0, mkConst(maskOf(w - 1), w)}, w); });
	case Intrinsic::sqrt: return vec([&](unsigned i){ return fromE(mkF(K::FSqrt, w, toE(a[0][i], w))); });
	case Intrinsic::fmuladd: return vec([&](unsigned i){ return fromE(mkF(K::FAdd, w, mkF(K::FMul, w, toE(a[0][i], w), toE(a[1][i], w)), toE(a[2][i], w))); });
	case Intrinsic::copysign: return vec([&](unsigned i){ E s = mkBin(K::And, toE(a[1][i], w), mkConst((u128)1 << (w - 1), w)); return fromE(mkBin(K::Or, mkBin(K::And, toE(a[0][i], w), mkConst(maskOf(w - 1), w)), s)); });
	case Intrinsic::is_fpclass: {
		unsigned fw = in.argW[0];
		if(fw == 80) throw PathEnd{"is.fpclass x87"};
		E x = toE(a[0][0], fw);
		unsigned eb = fw == 32 ? 8 : 11, mb = fw == 32 ? 23 : 52;
		E ex = mkExtract(x, mb, eb), ma = mkExtract(x, 0, mb), sg = mkExtract(x, fw - 1, 1);
		E exOnes = mkBin(K::Eq, ex, mkConst(maskOf(eb), eb)), exZ = mkBin(K::Eq, ex, mkConst(0, eb)), maZ = mkBin(K::Eq, ma, mkConst(0, mb));
		E q = mkExtract(ma, mb - 1, 1);
		E nan = mkBin(K::And, exOnes, mkNot(maZ)), inf = mkBin(K::And, exOnes, maZ), zero = mkBin(K::And, exZ, maZ), sub = mkBin(K::And, exZ, mkNot(maZ)), nor = mkBin(K::And, mkNot(exOnes), mkNot(exZ));
		unsigned msk = (unsigned)a[1][0].v;
		E r = mkFalse();
		auto add = [&](unsigned bit, E c){ if(msk & (1u << bit)) r = mkBin(K::Or, r, c); };
		E ns = mkNot(sg);
		add(0, mkBin(K::And, nan, mkNot(q))); add(1, mkBin(K::And, nan, q));
		add(2, mkBin(K::And, inf, sg)); add(3, mkBin(K::And, nor, sg)); add(4, mkBin(K::And, sub, sg)); add(5, mkBin(K::And, zero, sg));
		add(6, mkBin(K::And, zero, ns)); add(7, mkBin(K::And, sub, ns)); add(8, mkBin(K::And, nor, ns)); add(9, mkBin(K::And, inf, ns));
		Val v = fromE(r);
		finishCall(&v, 1);
		return true;
	}
	case Intrinsic::trap: error("ub", "trap executed");
	case Intrinsic::debugtrap: error("ub", "trap executed");
	case Intrinsic::ubsantrap: error("ub", "undefined behaviour check " + std::to_string(a[0][0].v));
	case Intrinsic::vastart: {
		Frame& f = fr();
		uint64_t va = concretize(a[0][0], 64);
		uint64_t area = f.varargs ? S->mem[f.varargs]->base : 0;
		storeVal(cv(va), cv(48), 32);
		storeVal(cv(va + 4), cv(176), 32);
		storeVal(cv(va + 8), cv(area), 64);
		storeVal(cv(va + 16), cv(0), 64);
		finishCall(nullptr, 0);
		return true;
	}
	case Intrinsic::vaend: finishCall(nullptr, 0); return true;
	case Intrinsic::vacopy: memCopy(a[0][0], a[1][0], 24, true); finishCall(nullptr, 0); return true;
	case Intrinsic::stacksave: { Val v = cv(0); finishCall(&v, 1); return true; }
	case Intrinsic::stackrestore: finishCall(nullptr, 0); return true;
	case Intrinsic::x86_sse2_pause: finishCall(nullptr, 0); return true;
	case Intrinsic::get_rounding: { Val v = cv(1); finishCall(&v, 1); return true; }
	case Intrinsic::threadlocal_address: finishCall(a[0].data(), 1); return true;
	case Intrinsic::load_relative: {
		uint64_t b = concretize(a[0][0], 64), o = concretize(a[1][0], in.argW[1]);
		Val d = loadVal(cv(b + o), 32);
		Val v = cv(b + (int64_t)(int32_t)d.v);
		finishCall(&v, 1);
		return true;
	}
	case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul: {
		K k = id == Intrinsic::vector_reduce_add ? K::Add : id == Intrinsic::vector_reduce_or ? K::Or : id == Intrinsic::vector_reduce_and ? K::And : id == Intrinsic::vector_reduce_xor ? K::Xor : K::Mul;
		E r = nullptr;
		for(auto& x : a[0]){ E y = toE(x, w); r = r ? mkBin(k, r, y) : y; }
		Val v = fromE(r);
		finishCall(&v, 1);
		return true;
	}
	default: break;
	}
	throw PathEnd{"unsupported intrinsic " + in.callee->getName().str()};
}

void Engine::doCall(Ins& in){
	if(table.empty()) setup();
	if(in.sub == 99) throw PathEnd{"inline assembly"};
	Args args;
	args.reserve(in.argLeaves.size());
	size_t at = 1;
	for(size_t i = 0; i < in.argLeaves.size(); ++i){
		args.emplace_back();
		for(uint32_t k = 0; k < in.argLeaves[i]; ++k) args.back().push_back(get(in.ops[at++]));
	}
	const Function* F = in.callee;
	if(!F){
		uint64_t p = concretize(get(in.ops[0]), 64);
		Obj* o = find(p);
		if(!o || o->kind != OFunc || o->base != p) error("memory", p == 0 ? "call through a null function pointer" : "call through an invalid function pointer");
		F = (const Function*)o->fn;
		auto ov = overrides.find(F);
		if(ov != overrides.end()) F = ov->second;
	}
	if(F->isIntrinsic()){ intrinsic(in, args); return; }
	auto h = table.find(F->getName().str());
	if(h != table.end() && (F->isDeclaration() || F->getName().startswith("vp_"))){ h->second(*this, in, args); return; }
	if(F->isDeclaration()) throw PathEnd{"unsupported external " + F->getName().str()};
	// byval copies
	std::vector<uint32_t> copies;
	for(size_t i = 0; i < in.argByval.size(); ++i){
		if(!in.argByval[i]) continue;
		uint32_t id = newObj(in.byvalSize[i], OStack, "byval");
		memCopy(cv(S->mem[id]->base), args[i][0], in.byvalSize[i], true);
		args[i][0] = cv(S->mem[id]->base);
		copies.push_back(id);
	}
	uint32_t va = 0;
	if(F->isVarArg()){
		size_t fixed = F->arg_size();
		std::vector<std::pair<Val, unsigned>> slots; // 8-byte slots
		uint64_t size = 0;
		std::vector<std::pair<uint64_t, size_t>> place;
		for(size_t i = fixed; i < args.size(); ++i){
			if(in.argW[i] == 80) size = (size + 15) & ~15ull;
			place.emplace_back(size, i);
			size += in.argW[i] == 80 ? 16 : 8;
		}
		va = newObj(size, OStack, "varargs");
		Obj* o = wr(va);
		for(auto& p : place) storeAt(o, p.first, args[p.second][0], in.argW[p.second]);
	}
	pushCall(F, args);
	fr().allocas = copies;
	fr().varargs = va;
}
