#include "engine.h"
#include <cmath>
using namespace llvm;

// ---------------------------------------------------------------- program loading
uint64_t Engine::funcAddr(const Function* f){
	auto ov = overrides.find(f);
	if(ov != overrides.end()) f = ov->second;
	auto it = fAddr.find(f);
	if(it != fAddr.end()) return it->second;
	throw std::runtime_error("function without address " + f->getName().str());
}
uint64_t Engine::globalAddr(const GlobalVariable* g){
	auto it = gAddr.find(g);
	if(it != gAddr.end()) return it->second;
	throw std::runtime_error("global without address " + g->getName().str());
}
static uint64_t baseOf(uint32_t id){ return ((uint64_t)(id + 1) << 24) + 0x400000; }

uint32_t Engine::newObj(uint64_t size, OKind k, const std::string& name, bool init){
	auto* o = new Obj;
	o->id = S->mem.size();
	o->base = baseOf(o->id);
	o->size = size;
	o->kind = k;
	o->name = name;
	o->b.assign(size, 0);
	if(!init) o->un.assign(size, 1);
	S->mem.emplace_back(o);
	return o->id;
}
Obj* Engine::wr(uint32_t id){
	ObjP& p = S->mem[id];
	if(p->refs > 1){ Obj* n = new Obj(*p.p); n->refs = 0; p = ObjP(n); }
	return p.p;
}
Obj* Engine::find(uint64_t addr){
	uint64_t k = addr >> 24;
	if(k == 0 || k > S->mem.size()) return nullptr;
	return S->mem[k - 1].p;
}

void Engine::load(Module& m){
	M = &m;
	DL = &m.getDataLayout();
	for(auto& f : m){
		StringRef n = f.getName();
		if(n.startswith("vp_ovr__")){
			if(Function* t = m.getFunction(n.drop_front(8))) overrides[t] = &f;
		}
	}
}

void Engine::initGlobals(){
	// addresses first
	for(auto& f : *M){
		uint32_t id = newObj(1, OFunc, f.getName().str(), true);
		S->mem[id]->fn = &f;
		S->mem[id]->ro = true;
		fAddr[&f] = S->mem[id]->base;
	}
	for(auto& g : M->globals()){
		uint64_t sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 8;
		if(!g.hasInitializer()){
			auto n = g.getName();
			if(n.startswith("_ZTVN10__cxxabiv1")) sz = 128;
			if(n.startswith("_ZTI")) sz = 32;
			if(g.hasExternalWeakLinkage()){ gAddr[&g] = 0; continue; }
			if(sz > (8u << 20)) throw std::runtime_error("global too big");
		}
		uint32_t id = newObj(sz, OGlobal, g.getName().str(), true);
		gAddr[&g] = S->mem[id]->base;
		extGlobals[g.getName().str()] = S->mem[id]->base;
	}
	for(auto& g : M->globals()){ // type information of the fundamental types lives in the C++ runtime library
		if(g.hasInitializer() || !g.getName().startswith("_ZTI") || !gAddr[&g]) continue;
		std::string n = g.getName().substr(4).str();
		uint32_t id = newObj(n.size() + 1, OGlobal, "_ZTS" + n, true);
		for(size_t i = 0; i < n.size(); ++i) S->mem[id]->b[i] = n[i];
		S->mem[id]->ro = true;
		Val v = cv(S->mem[id]->base);
		storeAt(find(gAddr[&g]), 8, v, 64);
		find(gAddr[&g])->ro = true;
	}
	for(auto& g : M->globals()){
		if(!g.hasInitializer() || g.getName() == "llvm.global_ctors" || g.getName() == "llvm.used" || g.getName() == "llvm.compiler.used" || g.getName() == "llvm.global_dtors") continue;
		Obj* o = find(gAddr[&g]);
		std::vector<Leaf> l;
		flatten(g.getValueType(), l, 0);
		std::vector<Val> v;
		constVals(g.getInitializer(), v);
		if(l.size() != v.size()) throw std::runtime_error("initializer shape " + g.getName().str());
		for(size_t i = 0; i < l.size(); ++i) storeAt(o, l[i].off, v[i], l[i].w);
		o->ro = g.isConstant();
	}
}

// ---------------------------------------------------------------- decisions
void Engine::addConstraint(E c){
	if(c->isConst()) return;
	if(c->kind == K::And && c->width == 1){ addConstraint(c->k[0]); addConstraint(c->k[1]); return; }
	if(c->kind == K::Not && c->k[0]->kind == K::Or){ addConstraint(mkNot(c->k[0]->k[0])); addConstraint(mkNot(c->k[0]->k[1])); return; }
	for(E x : S->cs) if(x == c) return;
	S->cs.push_back(c);
}
bool Engine::mayBe(E cond, ModelP& m, bool& unknown){
	unknown = false;
	Res r = solver.check(S->cs, cond, S->model, m);
	if(r == Res::Unknown){ unknown = true; return false; }
	return r == Res::Sat;
}
// 1: the path condition plainly implies c, -1: it implies the negation, 0: not known
int Engine::implied(E c){
	if(c->isConst()) return c->val ? 1 : -1;
	E n = mkNot(c);
	std::vector<E> q;
	for(E x : S->cs){
		if(x == c) return 1;
		if(x == n) return -1;
		bool dep = false;
		for(auto v : x->vars->v) if(std::binary_search(c->vars->v.begin(), c->vars->v.end(), v)){ dep = true; break; }
		if(dep) q.push_back(x);
	}
	if(q.empty()) return 0;
	bool v = evalExpr(c, *S->model) & 1;
	q.push_back(v ? n : c);
	if(solver.rangeUnsat(q)) return v ? 1 : -1;
	return 0;
}
bool Engine::decide(E cond){
	if(cond->isConst()) return cond->val & 1;
	if(spec) throw MergeFail{};
	bool v = evalExpr(cond, *S->model) & 1;
	E mine = v ? cond : mkNot(cond), other = v ? mkNot(cond) : cond;
	for(E c : S->cs) if(c == mine) return v;
	ModelP m2;
	bool unk;
	if(mayBe(other, m2, unk)){
		auto n = std::make_unique<State>(*S);
		n->model = m2;
		State* cur = S;
		S = n.get();
		addConstraint(other);
		S = cur;
		n->depth++;
		work.push_back(std::move(n));
		++forks;
		static const bool prof = getenv("VSE_FORKS") != nullptr;
		if(prof) ++forkSites[where()];
		addConstraint(mine);
	} else if(unk){
		noteTrunc("solver gave no answer for one branch");
		addConstraint(mine);
	}
	return v;
}
uint64_t Engine::concretize(const Val& v, unsigned w){
	if(!v.e) return v.v;
	if(v.e->isConst()) return v.e->c64();
	uint64_t x = (uint64_t)evalExpr(v.e, *S->model);
	decide(mkBin(K::Eq, v.e, mkConst(x, w)));
	return x;
}
E Engine::freshVar(unsigned w){ return mkVar(S->nvars++, w); }

std::string Engine::where(){
	std::string r;
	for(int pass = 0; pass < 1; ++pass){
		for(int t = (int)S->cur, i = (int)S->th[t].st.size() - 1; i >= 0; --i){
			Frame& f = S->th[t].st[i];
			if(f.pc >= f.f->code.size()) continue;
			const Instruction* I = f.f->code[f.pc].I;
			const DebugLoc& dl = I->getDebugLoc();
			std::string fn = demangle(f.f->F->getName().str());
			if(fn.size() > 80) fn = fn.substr(0, 80) + "~";
			std::string loc;
			if(dl){
				const DILocation* d = dl.get();
				while(d){
					std::string l = (d->getFilename() + ":" + Twine(d->getLine())).str();
					if(!loc.empty()) loc += "<-";
					loc += l;
					d = d->getInlinedAt();
				}
			}
			if(!r.empty()) r += " | ";
			r += fn + " @ " + loc;
			if(r.size() > 900) break;
		}
	}
	return r;
}
void Engine::snapshot(Violation& v, const ModelP& m){
	v.syms = S->syms;
	for(auto& s : S->syms){
		std::vector<uint64_t> x;
		for(auto id : s.vars) x.push_back(m->get(id));
		v.vals.push_back(x);
	}
	v.sched = S->schedTrace;
	for(auto& o : S->obs){
		std::string b;
		for(auto& y : o.bytes) b.push_back((char)(y.e ? (uint8_t)evalExpr(y.e, *m) : (uint8_t)y.v));
		v.obs.emplace_back(o.name, b);
	}
}
void Engine::record(const std::string& kind, const std::string& msg, const ModelP& m){
	Violation v;
	v.kind = kind; v.msg = msg; v.where = where();
	std::string key = kind + "|" + msg + "|" + v.where.substr(0, v.where.find(" | "));
	if(violationKeys.count(key)) return;
	violationKeys.insert(key);
	snapshot(v, m);
	violations.push_back(std::move(v));
	double d = elapsed() + afterViolation;
	if(d < deadline) deadline = d;
}
void Engine::error(const std::string& kind, const std::string& msg){
	if(spec) throw MergeFail{};
	record(kind, msg, S->model);
	throw PathEnd{""};
}

// ---------------------------------------------------------------- memory
static std::string hex(uint64_t v){ char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }
Engine::Ref Engine::resolve(const Val& a, uint64_t n, bool write){
	auto check = [&](uint64_t addr) -> Obj* {
		Obj* o = find(addr);
		if(!o) error("memory", addr < 4096 ? "null pointer access" : "wild pointer access");
		if(o->freed) error("memory", std::string("use after ") + (o->kind == OStack ? "return" : "free") + " of " + (o->kind == OStack ? "stack" : "heap") + " object");
		uint64_t off = addr - o->base;
		if(off > o->size || n > o->size - off) error("memory", std::string(write ? "write" : "read") + " out of bounds of " + (o->kind == OGlobal ? "global " + o->name : o->kind == OStack ? "stack object " + o->name : o->kind == OFunc ? "function" : "heap object") + " size " + std::to_string(o->size));
		if(write && o->ro) error("memory", "write to read-only object " + o->name);
		return o;
	};
	if(!a.e || a.e->isConst()){
		uint64_t ad = a.e ? a.e->c64() : a.v;
		Obj* o = check(ad);
		return Ref{o, ad - o->base, nullptr};
	}
	if(spec) throw MergeFail{};
	uint64_t ad = (uint64_t)evalExpr(a.e, *S->model);
	Obj* o = check(ad);
	E off = mkBin(K::Sub, a.e, mkConst(o->base, 64));
	if(off->isConst()) return Ref{o, off->c64(), nullptr};
	E inb = mkBin(K::Ule, off, mkConst(o->size - n, 64));
	decide(inb);
	if(!o->ro){ // often only one value is possible
		ModelP m; bool unk;
		E same = mkBin(K::Eq, a.e, mkConst(ad, 64));
		if(!mayBe(mkNot(same), m, unk) && !unk) return Ref{o, ad - o->base, nullptr};
	}
	if(o->size == n) return Ref{o, 0, nullptr};
	return Ref{o, 0, off};
}
Val Engine::readByte(Obj* o, uint64_t off){
	if(!o->sym.empty() && o->sym[off]) return Val{0, o->sym[off]};
	if(!o->un.empty() && o->un[off]){
		if(spec) throw MergeFail{};
		Obj* w = wr(o->id);
		E v = freshVar(8);
		if(w->sym.empty()) w->sym.assign(w->size, nullptr);
		w->sym[off] = v;
		w->un[off] = 0;
		return Val{0, v};
	}
	return cv(o->b[off]);
}
Val Engine::loadAt(Obj* o, uint64_t off, unsigned w){
	unsigned nb = storeBytes(w);
	bool conc = o->sym.empty() && o->un.empty();
	if(!conc){
		conc = true;
		for(unsigned i = 0; i < nb; ++i){
			if(!o->un.empty() && o->un[off + i]){ conc = false; break; }
			if(!o->sym.empty() && o->sym[off + i]){ conc = false; break; }
		}
	}
	if(conc){
		if(w <= 64){
			uint64_t r = 0;
			memcpy(&r, &o->b[off], nb);
			if(w < 64) r &= ((uint64_t)1 << w) - 1;
			return cv(r);
		}
		u128 r = 0;
		if(nb > 16) throw PathEnd{"wide load"};
		memcpy(&r, &o->b[off], nb);
		return Val{0, mkConst(r, w)};
	}
	uint32_t id = o->id;
	E e = nullptr;
	for(unsigned i = 0; i < nb; ++i){
		Val b = readByte(S->mem[id].p, off + i);
		E x = toE(b, 8);
		e = e ? mkConcat(x, e) : x;
	}
	if(w % 8) e = mkExtract(e, 0, w);
	return fromE(e);
}
void Engine::storeAt(Obj* o, uint64_t off, const Val& v, unsigned w){
	unsigned nb = storeBytes(w);
	if(!v.e){
		uint64_t x = v.v;
		memcpy(&o->b[off], &x, nb > 8 ? 8 : nb);
		if(!o->un.empty()) for(unsigned i = 0; i < nb; ++i) o->un[off + i] = 0;
		if(!o->sym.empty()) for(unsigned i = 0; i < nb; ++i) o->sym[off + i] = nullptr;
		return;
	}
	E e = v.e;
	if(w % 8) e = mkZExt(e, nb * 8);
	if(e->isConst()){
		u128 x = e->val;
		memcpy(&o->b[off], &x, nb);
		if(!o->un.empty()) for(unsigned i = 0; i < nb; ++i) o->un[off + i] = 0;
		if(!o->sym.empty()) for(unsigned i = 0; i < nb; ++i) o->sym[off + i] = nullptr;
		return;
	}
	if(o->sym.empty()) o->sym.assign(o->size, nullptr);
	for(unsigned i = 0; i < nb; ++i){
		E b = mkExtract(e, i * 8, 8);
		if(b->isConst()){ o->b[off + i] = (uint8_t)b->val; o->sym[off + i] = nullptr; }
		else o->sym[off + i] = b;
		if(!o->un.empty()) o->un[off + i] = 0;
	}
}
Val Engine::loadVal(const Val& a, unsigned w){
	unsigned nb = storeBytes(w);
	Ref r = resolve(a, nb, false);
	if(!r.sym) return loadAt(r.o, r.off, w);
	uint32_t id = r.o->id;
	uint64_t last = r.o->size - nb;
	if(last > 8192){
		uint64_t c = concretize(Val{0, r.sym}, 64);
		return loadAt(S->mem[id].p, c, w);
	}
	// restrict to the feasible window using the expression's own structure
	unsigned bits = 1;
	while(((uint64_t)1 << bits) <= last) ++bits;
	std::function<E(uint64_t, int)> mux = [&](uint64_t pos, int bit) -> E {
		if(pos > last) return nullptr;
		if(bit < 0) return toE(loadAt(S->mem[id].p, pos, w), w);
		E bt = mkExtract(r.sym, bit, 1);
		if(bt->isConst()) return mux(bt->val ? pos | ((uint64_t)1 << bit) : pos, bit - 1);
		E lo = mux(pos, bit - 1);
		E hi = mux(pos | ((uint64_t)1 << bit), bit - 1);
		if(!hi) return lo;
		if(!lo) return hi;
		return mkIte(bt, hi, lo);
	};
	E e = mux(0, bits - 1);
	if(!e) throw PathEnd{"empty mux"};
	return fromE(e);
}
void Engine::storeVal(const Val& a, const Val& v, unsigned w){
	unsigned nb = storeBytes(w);
	Ref r = resolve(a, nb, true);
	if(!r.sym){ storeAt(wr(r.o->id), r.off, v, w); return; }
	uint32_t id = r.o->id;
	if(r.o->size > 256){
		uint64_t c = concretize(Val{0, r.sym}, 64);
		storeAt(wr(id), c, v, w);
		return;
	}
	E e = toE(v, w);
	if(w % 8) e = mkZExt(e, nb * 8);
	Obj* o = wr(id);
	std::vector<E> nb2(o->size);
	for(uint64_t p = 0; p < o->size; ++p){
		E cur = nullptr;
		bool changed = false;
		for(unsigned k = 0; k < nb; ++k){
			if(p < k) continue;
			uint64_t at = p - k;
			if(at > o->size - nb) continue;
			E c = mkBin(K::Eq, r.sym, mkConst(at, 64));
			if(c->isConst() && !c->val) continue;
			if(!cur){ Val b = readByte(S->mem[id].p, p); cur = toE(b, 8); }
			cur = mkIte(c, mkExtract(e, k * 8, 8), cur);
			changed = true;
		}
		if(changed) nb2[p] = cur;
	}
	o = wr(id);
	for(uint64_t p = 0; p < o->size; ++p) if(nb2[p]) storeAt(o, p, fromE(nb2[p]), 8);
}
void Engine::memCopy(const Val& d, const Val& s, uint64_t n, bool move){
	if(n == 0) return;
	Ref rs = resolve(s, n, false);
	Ref rd = resolve(d, n, true);
	if(!rs.sym && !rd.sym){
		uint32_t sid = rs.o->id, did = rd.o->id;
		if(!move && sid == did && rs.off != rd.off && rs.off < rd.off + n && rd.off < rs.off + n) error("memory", "memcpy with overlapping ranges");
		std::vector<uint8_t> b(rs.o->b.begin() + rs.off, rs.o->b.begin() + rs.off + n), u;
		std::vector<E> y;
		if(!rs.o->un.empty()) u.assign(rs.o->un.begin() + rs.off, rs.o->un.begin() + rs.off + n);
		if(!rs.o->sym.empty()) y.assign(rs.o->sym.begin() + rs.off, rs.o->sym.begin() + rs.off + n);
		Obj* o = wr(did);
		memcpy(&o->b[rd.off], b.data(), n);
		if(!u.empty() || !o->un.empty()){
			bool any = false;
			if(!u.empty()) for(auto x : u) any |= x;
			if(any && o->un.empty()) o->un.assign(o->size, 0);
			if(!o->un.empty()) for(uint64_t i = 0; i < n; ++i) o->un[rd.off + i] = u.empty() ? 0 : u[i];
		}
		if(!y.empty() || !o->sym.empty()){
			bool any = false;
			for(auto x : y) any |= x != nullptr;
			if(any && o->sym.empty()) o->sym.assign(o->size, nullptr);
			if(!o->sym.empty()) for(uint64_t i = 0; i < n; ++i) o->sym[rd.off + i] = y.empty() ? nullptr : y[i];
		}
		return;
	}
	std::vector<Val> t;
	for(uint64_t i = 0; i < n; ++i) t.push_back(loadVal(addOff(s, i), 8));
	for(uint64_t i = 0; i < n; ++i) storeVal(addOff(d, i), t[i], 8);
}
std::string Engine::cstr(const Val& a){
	std::string r;
	if(a.e) return "?";
	for(uint64_t i = 0; i < 4096; ++i){
		Val v = loadVal(cv(a.v + i), 8);
		if(v.e){ r += '?'; continue; }
		if(!v.v) break;
		r += (char)v.v;
	}
	return r;
}

// ---------------------------------------------------------------- operations
Val Engine::bin(K k, const Val& a, const Val& b, unsigned w){
	if(!a.e && !b.e && w <= 64){
		uint64_t m = w == 64 ? ~0ull : ((uint64_t)1 << w) - 1, x = a.v, y = b.v;
		int64_t sx = (int64_t)(x << (64 - w)) >> (64 - w), sy = (int64_t)(y << (64 - w)) >> (64 - w);
		switch(k){
		case K::Add: return cv((x + y) & m);
		case K::Sub: return cv((x - y) & m);
		case K::Mul: return cv((x * y) & m);
		case K::UDiv: if(!y) error("ub", "division by zero"); return cv(x / y);
		case K::URem: if(!y) error("ub", "division by zero"); return cv(x % y);
		case K::SDiv: if(!y) error("ub", "division by zero"); if(sy == -1) return cv((uint64_t)(-(uint64_t)sx) & m); return cv((uint64_t)(sx / sy) & m);
		case K::SRem: if(!y) error("ub", "division by zero"); if(sy == -1) return cv(0); return cv((uint64_t)(sx % sy) & m);
		case K::And: return cv(x & y);
		case K::Or: return cv(x | y);
		case K::Xor: return cv(x ^ y);
		case K::Shl: return cv(y >= w ? 0 : (x << y) & m);
		case K::LShr: return cv(y >= w ? 0 : x >> y);
		case K::AShr: return cv((uint64_t)(sx >> (y >= w ? w - 1 : y)) & m);
		default: abort();
		}
	}
	E ea = toE(a, w), eb = toE(b, w);
	if((k == K::UDiv || k == K::URem || k == K::SDiv || k == K::SRem) && !eb->isConst()){
		if(decide(mkBin(K::Eq, eb, mkConst(0, w)))) error("ub", "division by zero");
	}
	return fromE(mkBin(k, ea, eb));
}
Val Engine::icmp(unsigned p, const Val& a, const Val& b, unsigned w){
	if(!a.e && !b.e){
		uint64_t x = a.v, y = b.v;
		int64_t sx = (int64_t)(x << (64 - w)) >> (64 - w), sy = (int64_t)(y << (64 - w)) >> (64 - w);
		switch(p){
		case CmpInst::ICMP_EQ: return cv(x == y);
		case CmpInst::ICMP_NE: return cv(x != y);
		case CmpInst::ICMP_UGT: return cv(x > y);
		case CmpInst::ICMP_UGE: return cv(x >= y);
		case CmpInst::ICMP_ULT: return cv(x < y);
		case CmpInst::ICMP_ULE: return cv(x <= y);
		case CmpInst::ICMP_SGT: return cv(sx > sy);
		case CmpInst::ICMP_SGE: return cv(sx >= sy);
		case CmpInst::ICMP_SLT: return cv(sx < sy);
		case CmpInst::ICMP_SLE: return cv(sx <= sy);
		}
	}
	E x = toE(a, w), y = toE(b, w), r;
	switch(p){
	case CmpInst::ICMP_EQ: r = mkBin(K::Eq, x, y); break;
	case CmpInst::ICMP_NE: r = mkNot(mkBin(K::Eq, x, y)); break;
	case CmpInst::ICMP_UGT: r = mkBin(K::Ult, y, x); break;
	case CmpInst::ICMP_UGE: r = mkBin(K::Ule, y, x); break;
	case CmpInst::ICMP_ULT: r = mkBin(K::Ult, x, y); break;
	case CmpInst::ICMP_ULE: r = mkBin(K::Ule, x, y); break;
	case CmpInst::ICMP_SGT: r = mkBin(K::Slt, y, x); break;
	case CmpInst::ICMP_SGE: r = mkBin(K::Sle, y, x); break;
	case CmpInst::ICMP_SLT: r = mkBin(K::Slt, x, y); break;
	case CmpInst::ICMP_SLE: r = mkBin(K::Sle, x, y); break;
	default: abort();
	}
	return fromE(r);
}

void Engine::jump(uint32_t edge){
	Frame& f = fr();
	Edge& e = f.f->edges[edge];
	if(e.copies.size() == 1) f.regs[e.copies[0].first] = get(e.copies[0].second);
	else if(!e.copies.empty()){
		static std::vector<Val> tmp;
		tmp.clear();
		for(auto& c : e.copies) tmp.push_back(get(c.second));
		for(size_t i = 0; i < e.copies.size(); ++i) f.regs[e.copies[i].first] = tmp[i];
	}
	f.pc = f.f->bbStart[e.target];
}
bool Engine::simpleBlock(CFunc* f, uint32_t bb){
	if(f->simple.size() != f->bbStart.size()) f->simple.assign(f->bbStart.size(), 0);
	int8_t& r = f->simple[bb];
	if(r) return r > 0;
	r = -1;
	for(uint32_t i = f->bbStart[bb], n = 0; n < 24; ++i, ++n){
		const Ins& in = f->code[i];
		switch(in.op){
		case Op::Bin: case Op::ICmp: case Op::ZExt: case Op::SExt: case Op::Trunc: case Op::Copy: case Op::Select: case Op::Gep: case Op::Nop: break;
		case Op::Load: case Op::Store: if(in.order) return false; break;
		case Op::Br: r = 1; return true;
		default: return false;
		}
	}
	return false;
}
// if(c){ straight-line code } else { straight-line code }: both sides are run and their results joined into ite(c, a, b)
bool Engine::tryMerge(Ins& in, E cond){
	if(spec || S->th.size() > 1) return false;
	CFunc* f = fr().f;
	uint32_t e[2] = {in.e0, in.e1}, join;
	uint32_t t0 = f->edges[e[0]].target, t1 = f->edges[e[1]].target;
	bool s0 = simpleBlock(f, t0), s1 = simpleBlock(f, t1);
	auto next = [&](uint32_t bb){ uint32_t i = f->bbStart[bb]; while(f->code[i].op != Op::Br) ++i; return f->code[i].e0; };
	uint32_t n0 = s0 ? next(t0) : 0, n1 = s1 ? next(t1) : 0;
	if(t0 == t1) return false;
	if(s0 && s1 && f->edges[n0].target == f->edges[n1].target) join = f->edges[n0].target;
	else if(s0 && f->edges[n0].target == t1) join = t1;
	else if(s1 && f->edges[n1].target == t0) join = t0;
	else return false;
	if(implied(cond)) return false; // decided without a fork
	std::unique_ptr<State> n[2];
	State* keep = S;
	uint32_t last[2];
	bool ok = true;
	for(int k = 0; k < 2 && ok; ++k){
		n[k] = std::make_unique<State>(*keep);
		S = n[k].get();
		spec = true;
		try {
			uint32_t ed = e[k];
			jump(ed);
			if(f->edges[ed].target != join){
				ed = k ? n1 : n0;
				while(fr().pc != f->bbStart[join]) step();
			}
			last[k] = ed;
		} catch(MergeFail&){ ok = false; }
		spec = false;
	}
	S = keep;
	if(!ok || n[0]->mem.size() != keep->mem.size() || n[1]->mem.size() != keep->mem.size() || n[0]->nvars != keep->nvars || n[1]->nvars != keep->nvars) return false;
	const Edge& le = f->edges[last[0]];
	Frame &f0 = n[0]->th[S->cur].st.back(), &f1 = n[1]->th[S->cur].st.back();
	auto eq = [](const Val& a, const Val& b){ return a.e == b.e && (a.e || a.v == b.v); };
	for(size_t i = 0; i < le.copies.size(); ++i){
		int32_t s = le.copies[i].first;
		if(!le.w[i] && !eq(f0.regs[s], f1.regs[s])) return false;
	}
	std::vector<uint32_t> objs;
	for(uint32_t i = 0; i < keep->mem.size(); ++i){
		Obj *a = n[0]->mem[i].p, *b = n[1]->mem[i].p;
		if(a == b) continue;
		if(a->size != b->size || a->freed != b->freed || a->un != b->un || a->shared) return false;
		objs.push_back(i);
	}
	for(size_t i = 0; i < le.copies.size(); ++i){
		int32_t s = le.copies[i].first;
		if(eq(f0.regs[s], f1.regs[s])) continue;
		f0.regs[s] = fromE(mkIte(cond, toE(f0.regs[s], le.w[i]), toE(f1.regs[s], le.w[i])));
	}
	S = n[0].get();
	for(auto i : objs){
		Obj* b = n[1]->mem[i].p;
		Obj* a = wr(i);
		for(uint64_t o = 0; o < a->size; ++o){
			E ea = a->sym.empty() ? nullptr : a->sym[o], eb = b->sym.empty() ? nullptr : b->sym[o];
			if(ea == eb && (ea || a->b[o] == b->b[o])) continue;
			E r = mkIte(cond, ea ? ea : mkConst(a->b[o], 8), eb ? eb : mkConst(b->b[o], 8));
			if(a->sym.empty()) a->sym.assign(a->size, nullptr);
			if(r->isConst()){ a->sym[o] = nullptr; a->b[o] = (uint8_t)r->c64(); }
			else a->sym[o] = r;
		}
	}
	S = keep;
	*S = std::move(*n[0]);
	++merges;
	return true;
}
void Engine::popFrame(){
	Frame& f = fr();
	for(auto id : f.allocas) freeObj(id);
	if(f.varargs) freeObj(f.varargs);
	thr().st.pop_back();
}
void Engine::pushCall(const Function* F, const std::vector<std::vector<Val>>& args, OnRet r, uint64_t ra){
	if(thr().st.size() > 400) error("recursion", "call depth above 400 frames");
	CFunc* cf = compiled(F);
	++cf->execs;
	thr().st.emplace_back();
	Frame& f = thr().st.back();
	f.f = cf;
	f.regs.resize(cf->nslots);
	f.onret = r;
	f.onretArg = ra;
	for(size_t i = 0; i < cf->argSlot.size() && i < args.size(); ++i)
		for(size_t k = 0; k < args[i].size() && k < cf->argN[i]; ++k) f.regs[cf->argSlot[i] + k] = args[i][k];
}
void Engine::finishCall(const Val* r, uint32_t n){
	Frame& f = fr();
	Ins& in = f.f->code[f.pc];
	if(in.dst >= 0) for(uint32_t i = 0; i < in.n; ++i) f.regs[in.dst + i] = i < n ? r[i] : cv(0);
	if(in.op == Op::Invoke) jump(in.e0);
	else ++f.pc;
}
void Engine::doRet(const std::vector<Val>& r){
	OnRet o = fr().onret;
	uint64_t oa = fr().onretArg;
	popFrame();
	switch(o){
	case OnRet::None: finishCall(r.data(), r.size()); return;
	case OnRet::FreeExc: {
		freeObj((uint32_t)oa);
		finishCall(nullptr, 0);
		return;
	}
	case OnRet::Marker: { Val v = cv(0); finishCall(&v, 1); return; }
	case OnRet::Ctor: return;
	case OnRet::ThreadEnd:
		thr().done = true;
		if(S->cur == 0) { endPath(); return; }
		S->stamp++;
		schedule();
		return;
	}
}
static unsigned orderedAcq(uint8_t o){ return o == 4 || o == 6 || o == 7; }
static unsigned orderedRel(uint8_t o){ return o == 5 || o == 6 || o == 7; }

// ---------------------------------------------------------------- threads
static void vjoin(VClock& a, const VClock& b){ if(a.size() < b.size()) a.resize(b.size(), 0); for(size_t i = 0; i < b.size(); ++i) if(b[i] > a[i]) a[i] = b[i]; }
bool Engine::runnable(uint32_t t){
	Thread& th = S->th[t];
	if(th.done) return false;
	if(th.joining){
		for(uint32_t i = 1; i < S->th.size(); ++i) if(!S->th[i].done) return false;
		return true;
	}
	if(th.blocked && th.spinStamp == S->stamp) return false;
	return true;
}
// the same operation again without any visible change in between: wait for one
bool Engine::spinning(const Ins& in){
	Thread& t = thr();
	if(t.spinStamp != S->stamp){ t.spins.clear(); t.spinStamp = S->stamp; }
	for(auto* p : t.spins) if(p == &in){
		t.blocked = true;
		t.spins.clear();
		S->schedPending = false;
		schedule();
		return true;
	}
	t.spins.push_back(&in);
	return false;
}
void Engine::schedule(){
	std::vector<uint32_t> r;
	for(uint32_t t = 0; t < S->th.size(); ++t) if(runnable(t)) r.push_back(t);
	if(r.empty()){
		// only spinning threads are left; a spin loop may be bounded, so let them run on for a while
		if(++S->wakes > 400) error("deadlock", "no thread can make progress");
		for(uint32_t k = 1; k <= S->th.size() && r.empty(); ++k){ uint32_t t = (S->cur + k) % S->th.size(); if(!S->th[t].done && !S->th[t].joining) r.push_back(t); }
		if(r.empty()) error("deadlock", "no thread can make progress");
	}
	++schedPoints;
	// the current thread first, others as siblings
	uint32_t first = r[0];
	for(auto t : r) if(t == S->cur) first = t;
	E v = nullptr;
	uint32_t id = S->nvars;
	auto choose = [&](State& st, uint32_t t){ // the schedule is symbolic: one variable per decision
		if(r.size() < 2) return;
		auto m = std::make_shared<Model>(*st.model);
		if(m->v.size() <= id) m->v.resize(id + 1, 0);
		m->v[id] = t;
		m->serial = ++modelSerial;
		st.model = m;
		st.nvars = id + 1;
		st.cs.push_back(mkBin(K::Eq, v, mkConst(t, 16)));
	};
	if(r.size() > 1) v = mkVar(id, 16);
	for(auto t : r){
		if(t == first) continue;
		auto n = std::make_unique<State>(*S);
		choose(*n, t);
		if(t != S->cur){ n->switches++; n->schedTrace.push_back("T" + std::to_string(t)); }
		n->cur = t;
		n->schedPending = true;
		n->th[t].blocked = false;
		work.push_back(std::move(n));
		++forks;
	}
	choose(*S, first);
	if(first != S->cur) S->schedTrace.push_back("T" + std::to_string(first));
	S->cur = first;
	S->th[first].blocked = false;
	S->schedPending = true;
}
bool Engine::visible(const Ins& in, uint64_t, bool){
	if(S->th.size() < 2) return true;
	if(S->schedPending){ S->schedPending = false; return true; }
	schedule();
	return false; // re-dispatch
}
void Engine::acquire(uint64_t addr, uint8_t order){
	Thread& t = thr();
	auto it = S->atomRel.find(addr);
	if(it == S->atomRel.end()) return;
	if(orderedAcq(order)) vjoin(t.vc, it->second);
	else vjoin(S->atomRel[0x1000000000000000ull + S->cur], it->second); // pending for an acquire fence
}
void Engine::release(uint64_t addr, uint8_t order, bool rmw){
	Thread& t = thr();
	if(t.vc.size() <= S->cur) t.vc.resize(S->cur + 1, 0);
	if(orderedRel(order)){
		if(rmw) vjoin(S->atomRel[addr], t.vc);
		else S->atomRel[addr] = t.vc;
		t.vc[S->cur]++;
	} else {
		VClock base;
		auto f = S->atomRel.find(0x2000000000000000ull + S->cur);
		if(f != S->atomRel.end()) base = f->second;
		if(rmw) vjoin(S->atomRel[addr], base);
		else S->atomRel[addr] = base;
	}
}
void Engine::hbRead(Obj* o){
	Thread& t = thr();
	AccessRec& a = S->acc[o->id];
	if(t.vc.size() <= S->cur) t.vc.resize(S->cur + 1, 0);
	for(size_t i = 0; i < a.w.size(); ++i) if(i != S->cur && a.w[i] > (i < t.vc.size() ? t.vc[i] : 0)) error("race", "data race: read not ordered after another thread's write");
	if(a.r.size() <= S->cur) a.r.resize(S->cur + 1, 0);
	a.r[S->cur] = t.vc[S->cur] + 0;
	if(a.r[S->cur] == 0) a.r[S->cur] = 1;
}
void Engine::hbWrite(Obj* o){
	Thread& t = thr();
	AccessRec& a = S->acc[o->id];
	if(t.vc.size() <= S->cur) t.vc.resize(S->cur + 1, 0);
	for(size_t i = 0; i < a.w.size(); ++i) if(i != S->cur && a.w[i] > (i < t.vc.size() ? t.vc[i] : 0)) error("race", "data race: write not ordered after another thread's write");
	for(size_t i = 0; i < a.r.size(); ++i) if(i != S->cur && a.r[i] > (i < t.vc.size() ? t.vc[i] : 0)) error("race", "data race: write not ordered after another thread's read");
	if(a.w.size() <= S->cur) a.w.resize(S->cur + 1, 0);
	a.w[S->cur] = t.vc[S->cur];
	if(a.w[S->cur] == 0) a.w[S->cur] = 1;
}

// ---------------------------------------------------------------- interpreter
void Engine::exec(Ins& in){
	Frame& f = fr();
	switch(in.op){
	case Op::Nop: break;
	case Op::Bin:
		if(in.n == 1) f.regs[in.dst] = bin(in.k, get(in.ops[0]), get(in.ops[1]), in.w);
		else { std::vector<Val> r; for(uint32_t i = 0; i < in.n; ++i) r.push_back(bin(in.k, get(in.ops[i]), get(in.ops[in.n + i]), in.w)); for(uint32_t i = 0; i < in.n; ++i) fr().regs[in.dst + i] = r[i]; }
		break;
	case Op::FBin:
		for(uint32_t i = 0; i < in.n; ++i) f.regs[in.dst + i] = fromE(mkF(in.k, in.w, toE(get(in.ops[i]), in.w), toE(get(in.ops[in.n + i]), in.w)));
		break;
	case Op::FNeg:
		for(uint32_t i = 0; i < in.n; ++i) f.regs[in.dst + i] = fromE(mkBin(K::Xor, toE(get(in.ops[i]), in.w), mkConst((u128)1 << (in.w - 1), in.w)));
		break;
	case Op::ICmp:
		for(uint32_t i = 0; i < in.n; ++i) f.regs[in.dst + i] = icmp(in.sub, get(in.ops[i]), get(in.ops[in.n + i]), in.w);
		break;
	case Op::FCmp:
		for(uint32_t i = 0; i < in.n; ++i) f.regs[in.dst + i] = fromE(mkF(K::FCmp, 1, toE(get(in.ops[i]), in.w), toE(get(in.ops[in.n + i]), in.w), in.sub));
		break;
	case Op::ZExt:
		for(uint32_t i = 0; i < in.n; ++i){ Val a = get(in.ops[i]); f.regs[in.dst + i] = (!a.e && in.w2 <= 64) ? a : fromE(mkZExt(toE(a, in.w), in.w2)); }
		break;
	case Op::SExt:
		for(uint32_t i = 0; i < in.n; ++i){
			Val a = get(in.ops[i]);
			if(!a.e && in.w2 <= 64){
				uint64_t x = (uint64_t)((int64_t)(a.v << (64 - in.w)) >> (64 - in.w));
				f.regs[in.dst + i] = cv(in.w2 == 64 ? x : x & (((uint64_t)1 << in.w2) - 1));
			} else f.regs[in.dst + i] = fromE(mkSExt(toE(a, in.w), in.w2));
		}
		break;
	case Op::Trunc:
		for(uint32_t i = 0; i < in.n; ++i){
			Val a = get(in.ops[i]);
			if(!a.e) f.regs[in.dst + i] = cv(in.w2 == 64 ? a.v : a.v & (((uint64_t)1 << in.w2) - 1));
			else f.regs[in.dst + i] = fromE(mkExtract(a.e, 0, in.w2));
		}
		break;
	case Op::FPCast:
		for(uint32_t i = 0; i < in.n; ++i) f.regs[in.dst + i] = fromE(mkF(in.k, in.w2, toE(get(in.ops[i]), in.w)));
		break;
	case Op::Copy:
		if(in.n == 1) f.regs[in.dst] = get(in.ops[0]);
		else for(uint32_t i = 0; i < in.n; ++i) f.regs[in.dst + i] = get(in.ops[i]);
		break;
	case Op::Shuffle: { // bitcast between shapes
		E e = nullptr;
		if((uint64_t)in.w * in.ops.size() > 128) throw PathEnd{"wide bitcast"};
		for(auto& o : in.ops){ E x = toE(get(o), in.w); e = e ? mkConcat(x, e) : x; }
		for(uint32_t i = 0; i < in.n; ++i) f.regs[in.dst + i] = fromE(mkExtract(e, i * in.w2, in.w2));
		break;
	}
	case Op::Select: {
		unsigned nc = in.sub ? in.n : 1;
		for(uint32_t i = 0; i < in.n; ++i){
			Val c = get(in.ops[in.sub ? i : 0]);
			Val a = get(in.ops[nc + i]), b = get(in.ops[nc + in.n + i]);
			int k = c.e ? implied(c.e) : 0;
			if(!c.e) f.regs[in.dst + i] = (c.v & 1) ? a : b;
			else if(k) f.regs[in.dst + i] = k > 0 ? a : b;
			else f.regs[in.dst + i] = fromE(mkIte(c.e, toE(a, in.leaves[i].w), toE(b, in.leaves[i].w)));
		}
		break;
	}
	case Op::ExtractElt: {
		Val ix = get(in.ops[0]);
		uint64_t i = concretize(ix, 64);
		if(i + 1 >= in.ops.size()) error("ub", "vector index");
		f.regs[in.dst] = get(in.ops[1 + i]);
		break;
	}
	case Op::InsertElt: {
		uint64_t ix = concretize(get(in.ops[0]), 64);
		Val v = get(in.ops[1]);
		std::vector<Val> r;
		for(uint32_t i = 0; i < in.n; ++i) r.push_back(i == ix ? v : get(in.ops[2 + i]));
		for(uint32_t i = 0; i < in.n; ++i) f.regs[in.dst + i] = r[i];
		break;
	}
	case Op::Load: {
		Val a = get(in.ops[0]);
		if(S->th.size() > 1){
			Ref r0 = resolve(a, in.cofs, false);
			uint64_t ad = r0.o->base + r0.off;
			if(in.order >= 2){
				if(!visible(in, ad, false)) return;
				Thread& t = thr();
				if(!r0.sym && spinning(in)) return;
				acquire(ad, in.order);
			} else if(r0.o->shared) hbRead(r0.o);
		}
		if(in.n == 1){ Val v = loadVal(a, in.leaves[0].w); fr().regs[in.dst] = v; }
		else {
			std::vector<Val> r;
			for(auto& l : in.leaves) r.push_back(loadVal(addOff(a, l.off), l.w));
			for(uint32_t i = 0; i < in.n; ++i) fr().regs[in.dst + i] = r[i];
		}
		break;
	}
	case Op::Store: {
		Val a = get(in.ops[0]);
		if(S->th.size() > 1){
			Ref r0 = resolve(a, in.cofs, true);
			uint64_t ad = r0.o->base + r0.off;
			if(in.order >= 2){
				if(!visible(in, ad, true)) return;
				S->stamp++;
				release(ad, in.order, false);
			} else if(r0.o->shared) hbWrite(r0.o);
		}
		if(in.leaves.size() == 1) storeVal(a, get(in.ops[1]), in.leaves[0].w);
		else { resolve(a, in.cofs, true); for(size_t i = 0; i < in.leaves.size(); ++i) storeVal(addOff(a, in.leaves[i].off), get(in.ops[1 + i]), in.leaves[i].w); }
		break;
	}
	case Op::Gep: {
		Val a = get(in.ops[0]);
		bool sym = a.e;
		for(auto& g : in.gep) if(get(g.o).e) sym = true;
		if(!sym){
			uint64_t r = a.v + in.cofs;
			for(auto& g : in.gep){ uint64_t x = get(g.o).v; x = (uint64_t)((int64_t)(x << (64 - g.w)) >> (64 - g.w)); r += x * g.scale; }
			f.regs[in.dst] = cv(r);
		} else {
			E e = toE(a, 64);
			for(auto& g : in.gep){
				E x = toE(get(g.o), g.w);
				if(g.w < 64) x = mkSExt(x, 64); else if(g.w > 64) x = mkExtract(x, 0, 64);
				e = mkBin(K::Add, e, mkBin(K::Mul, x, mkConst(g.scale, 64)));
			}
			f.regs[in.dst] = fromE(mkBin(K::Add, e, mkConst((u128)(uint64_t)in.cofs, 64)));
		}
		break;
	}
	case Op::Alloca: {
		uint64_t n = concretize(get(in.ops[0]), in.w) * in.cofs;
		if(n > (4u << 20)) throw PathEnd{"huge alloca"};
		uint32_t id = newObj(n, OStack, "stack");
		Frame& f2 = fr();
		f2.allocas.push_back(id);
		f2.regs[in.dst] = cv(S->mem[id]->base);
		break;
	}
	case Op::Br: jump(in.e0); return;
	case Op::CondBr: { Val c = get(in.ops[0]); if(merge && c.e && !c.e->isConst() && tryMerge(in, c.e)) return; bool v = decideV(get(in.ops[0])); jump(v ? in.e0 : in.e1); return; }
	case Op::Switch: {
		Val c = get(in.ops[0]);
		if(!c.e){
			for(auto& k : in.cases) if((uint64_t)k.first == c.v){ jump(k.second); return; }
			jump(in.e0);
			return;
		}
		u128 v = evalExpr(c.e, *S->model);
		uint32_t tgt = in.e0;
		for(auto& k : in.cases) if(k.first == v) tgt = k.second;
		E cond = tgt == in.e0 ? mkTrue() : mkFalse();
		for(auto& k : in.cases){
			E eq = mkBin(K::Eq, c.e, mkConst(k.first, in.w));
			if(tgt == in.e0) cond = mkBin(K::And, cond, mkNot(eq));
			else if(k.second == tgt) cond = mkBin(K::Or, cond, eq);
		}
		decide(cond);
		jump(tgt);
		return;
	}
	case Op::Ret: {
		std::vector<Val> r;
		for(auto& o : in.ops) r.push_back(get(o));
		doRet(r);
		return;
	}
	case Op::Call: case Op::Invoke: doCall(in); return;
	case Op::LandingPad:
		f.regs[in.dst] = cv(f.lpPtr);
		f.regs[in.dst + 1] = cv(f.lpSel);
		break;
	case Op::Resume: {
		Val p = get(in.ops[0]);
		int e = findExc(p.v);
		if(e < 0) error("internal", "resume without exception");
		popFrame();
		unwind(e);
		return;
	}
	case Op::Unreachable: error("ub", "unreachable code executed");
	case Op::Fence:
		if(S->th.size() > 1){
			if(!visible(in, 0, false)) return;
			Thread& t = thr();
			if(orderedAcq(in.order)) vjoin(t.vc, S->atomRel[0x1000000000000000ull + S->cur]);
			if(orderedRel(in.order)){ S->atomRel[0x2000000000000000ull + S->cur] = t.vc; if(t.vc.size() <= S->cur) t.vc.resize(S->cur + 1, 0); t.vc[S->cur]++; }
		}
		break;
	case Op::AtomicRMW: {
		Val a = get(in.ops[0]), b = get(in.ops[1]);
		Val old = loadVal(a, in.w);
		Val nv;
		switch((AtomicRMWInst::BinOp)in.sub){
		case AtomicRMWInst::Xchg: nv = b; break;
		case AtomicRMWInst::Add: nv = bin(K::Add, old, b, in.w); break;
		case AtomicRMWInst::Sub: nv = bin(K::Sub, old, b, in.w); break;
		case AtomicRMWInst::And: nv = bin(K::And, old, b, in.w); break;
		case AtomicRMWInst::Or: nv = bin(K::Or, old, b, in.w); break;
		case AtomicRMWInst::Xor: nv = bin(K::Xor, old, b, in.w); break;
		default: throw PathEnd{"unsupported atomicrmw"};
		}
		if(S->th.size() > 1){
			Ref r0 = resolve(a, storeBytes(in.w), true);
			uint64_t ad = r0.o->base + r0.off;
			if(!visible(in, ad, true)) return;
			Thread& t = thr();
			bool same = !old.e && !nv.e && old.v == nv.v;
			if(same){
				if(spinning(in)) return;
			} else S->stamp++;
			acquire(ad, in.order);
			release(ad, in.order, true);
		}
		storeVal(a, nv, in.w);
		fr().regs[in.dst] = old;
		break;
	}
	case Op::CmpXchg: {
		Val a = get(in.ops[0]), c = get(in.ops[1]), nv = get(in.ops[2]);
		Val old = loadVal(a, in.w);
		Val eq = icmp(CmpInst::ICMP_EQ, old, c, in.w);
		bool ok = decideV(eq);
		if(S->th.size() > 1){
			Ref r0 = resolve(a, storeBytes(in.w), true);
			uint64_t ad = r0.o->base + r0.off;
			if(!visible(in, ad, true)) return;
			Thread& t = thr();
			if(!ok){
				if(spinning(in)) return;
				acquire(ad, in.sub);
			} else { S->stamp++; acquire(ad, in.order); release(ad, in.order, true); }
		}
		if(ok) storeVal(a, nv, in.w);
		fr().regs[in.dst] = old;
		fr().regs[in.dst + 1] = cv(ok);
		break;
	}
	default: throw PathEnd{"unsupported operation"};
	}
	++fr().pc;
}
void Engine::step(){
	Frame& f = fr();
	if(trace){
		Ins& in = f.f->code[f.pc];
		std::string s; raw_string_ostream os(s); in.I->print(os);
		fprintf(stderr, "[T%u d%zu %s] %s\n", S->cur, thr().st.size(), f.f->F->getName().str().substr(0, 60).c_str(), s.c_str());
	}
	exec(f.f->code[f.pc]);
}
// random values for the inputs of a completed path that keep its path condition true
void Engine::perturb(){
	if(S->syms.empty()) return;
	auto m = std::make_shared<Model>(*S->model);
	std::unordered_map<uint32_t, std::vector<E>> by;
	for(E c : S->cs) for(auto v : c->vars->v) by[v].push_back(c);
	unsigned budget = 4000;
	for(auto& s : S->syms){
		if(s.choice) continue;
		for(auto id : s.vars){
			if(m->v.size() <= id) m->v.resize(id + 1, 0);
			uint64_t keep = m->v[id];
			for(unsigned tries = 0; tries < 3; ++tries){
				rng = rng * 6364136223846793005ull + 1442695040888963407ull;
				m->v[id] = (rng >> 40) & 0xff;
				m->serial = ++modelSerial;
				bool ok = true;
				for(E c : by[id]){ if(!budget){ ok = false; break; } --budget; if(!(evalExpr(c, *m) & 1)){ ok = false; break; } }
				if(ok) break;
				m->v[id] = keep;
				m->serial = ++modelSerial;
			}
		}
	}
	S->model = m;
}
void Engine::endPath(){
	++pathsDone;
	if(pathChecks < 40 && !S->cs.empty()){
		// the solver confirms that the path just completed is feasible (no vacuous path conditions)
		++pathChecks;
		Res r = solver.feasible(S->cs);
		if(r == Res::Sat) ++pathSat;
		else if(r == Res::Unsat) noteTrunc("internal: completed path is infeasible");
	}
	perturb();
	if(samples.size() < samplesWanted){
		unsigned reps = pathsDone <= 4 ? 6 : pathsDone <= 16 ? 2 : 1;
		for(unsigned i = 0; i < reps && samples.size() < samplesWanted; ++i){
			if(i) perturb();
			Violation v;
			snapshot(v, S->model);
			samples.push_back(std::move(v));
			if(S->syms.empty()) break;
		}
	} else if(pathsDone % 7 == 0){
		Violation v;
		snapshot(v, S->model);
		samples[(pathsDone * 2654435761u) % samples.size()] = std::move(v);
	}
	throw PathEnd{"done"};
}
void Engine::run(const std::string& entry){
	t0 = std::chrono::steady_clock::now();
	deadline = timeLimit;
	auto s0 = std::make_unique<State>();
	S = s0.get();
	S->model = std::make_shared<Model>();
	S->th.emplace_back();
	initGlobals();
	const Function* F = M->getFunction(entry);
	if(!F || F->isDeclaration()) throw std::runtime_error("entry not found: " + entry);
	// global constructors
	if(auto* gc = M->getGlobalVariable("llvm.global_ctors")){
		std::vector<std::pair<uint64_t, const Function*>> ctors;
		if(auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
			for(auto& o : ca->operands()){
				auto* cs = cast<ConstantStruct>(o);
				if(auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.emplace_back(cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn);
			}
		std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b){ return a.first < b.first; });
		for(auto& c : ctors){
			try {
				pushCall(c.second, {}, OnRet::Ctor);
				while(!thr().st.empty()){ step(); ++steps; }
			} catch(PathEnd& pe){
				throw std::runtime_error("global constructor " + c.second->getName().str() + ": " + pe.reason + (violations.empty() ? "" : " " + violations.back().msg + " " + violations.back().where));
			}
		}
	}
	S->heapLive = 0;
	std::vector<std::vector<Val>> noargs;
	pushCall(F, noargs, OnRet::ThreadEnd);
	S->steps = 0;
	work.push_back(std::move(s0));
	while(!work.empty()){
		std::unique_ptr<State> cur = std::move(work.back());
		work.pop_back();
		S = cur.get();
		try {
			for(;;){
				step();
				++S->steps;
				if((++steps & 1023) == 0 && elapsed() > deadline){ timedOut = true; throw PathEnd{"time limit"}; }
				if(S->steps > maxSteps){ record("nontermination", "more than " + std::to_string(maxSteps) + " instructions on one path", S->model); throw PathEnd{"step limit"}; }
			}
		} catch(PathEnd& pe){
			if(pe.reason == "done"){}
			else if(pe.reason.empty()) ++pruned;
			else noteTrunc(pe.reason);
		} catch(std::exception& ex){
			noteTrunc(std::string("engine: ") + ex.what());
		}
		S = nullptr;
		if(timedOut){ if(!work.empty()) truncated["time limit (queued states)"] += work.size(); work.clear(); }
		if(pathsDone >= maxPaths){ if(!work.empty()) truncated["path limit"] += work.size(); work.clear(); }
		if(violations.size() >= maxViolations){ if(!work.empty()) truncated["stopped after violations"] += work.size(); work.clear(); }
	}
}
