#include <functional>
#include <algorithm>
#include "expr.h"
#include <deque>
#include <cmath>
#include <algorithm>

static std::deque<Expr> arena;
struct Key {
	K kind; uint16_t width; uint32_t aux; u128 val; E a, b, c;
	bool operator==(const Key& o) const {
		return kind == o.kind && width == o.width && aux == o.aux && val == o.val && a == o.a && b == o.b && c == o.c;
	}
};
struct KeyH {
	size_t operator()(const Key& k) const {
		uint64_t h = (uint64_t)k.kind * 0x9E3779B97F4A7C15ull;
		auto mix = [&](uint64_t x){ h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
		mix(k.width); mix(k.aux); mix((uint64_t)k.val); mix((uint64_t)(k.val >> 64));
		mix(k.a ? k.a->id : 0); mix(k.b ? k.b->id : 0); mix(k.c ? k.c->id : 0);
		return h;
	}
};
static std::unordered_map<Key, E, KeyH> table;
static std::map<std::vector<uint32_t>, VarSet*> vsets;
static std::unordered_map<uint64_t, const VarSet*> vunion;
static uint32_t vsetCount = 0;
size_t exprCount(){ return arena.size(); }

static const VarSet* internVS(std::vector<uint32_t> v){
	auto it = vsets.find(v);
	if(it != vsets.end()) return it->second;
	auto* p = new VarSet{v, vsetCount++};
	vsets[v] = p;
	return p;
}
static const VarSet* emptyVS(){ static const VarSet* e = internVS({}); return e; }
const VarSet* varUnion(const VarSet* a, const VarSet* b){
	if(a == b || b->v.empty()) return a;
	if(a->v.empty()) return b;
	if(a->id > b->id) std::swap(a, b);
	uint64_t key = ((uint64_t)a->id << 32) | b->id;
	auto it = vunion.find(key);
	if(it != vunion.end()) return it->second;
	std::vector<uint32_t> r;
	std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
	auto* p = internVS(std::move(r));
	vunion[key] = p;
	return p;
}

static E make(K k, unsigned w, uint32_t aux, u128 val, E a = nullptr, E b = nullptr, E c = nullptr){
	Key key{k, (uint16_t)w, aux, val, a, b, c};
	auto it = table.find(key);
	if(it != table.end()) return it->second;
	arena.emplace_back();
	Expr& e = arena.back();
	e.kind = k; e.width = w; e.aux = aux; e.val = val; e.id = arena.size();
	e.k[0] = a; e.k[1] = b; e.k[2] = c;
	e.n = c ? 3 : b ? 2 : a ? 1 : 0;
	e.fp = k >= K::FAdd;
	e.dv = (k == K::UDiv || k == K::URem || k == K::SDiv || k == K::SRem) && w >= 24 && b->isConst();
	if(k == K::Var) e.vars = internVS({aux});
	else {
		e.vars = emptyVS();
		for(unsigned i = 0; i < e.n; ++i){ e.vars = varUnion(e.vars, e.k[i]->vars); e.fp |= e.k[i]->fp; e.dv |= e.k[i]->dv; }
	}
	table.emplace(key, &e);
	return &e;
}

E mkConst(u128 v, unsigned w){ return make(K::Const, w, 0, v & maskOf(w)); }
E mkVar(uint32_t id, unsigned w){ return make(K::Var, w, id, 0); }

static bool isOnes(E e){ return e->isConst() && e->val == maskOf(e->width); }

E mkExtract(E e, unsigned off, unsigned w){
	if(off == 0 && w == e->width) return e;
	switch(e->kind){
	case K::Const: return mkConst(e->val >> off, w);
	case K::Extract: return mkExtract(e->k[0], off + e->aux, w);
	case K::Concat: {
		unsigned lw = e->k[1]->width;
		if(off + w <= lw) return mkExtract(e->k[1], off, w);
		if(off >= lw) return mkExtract(e->k[0], off - lw, w);
		return mkConcat(mkExtract(e->k[0], 0, off + w - lw), mkExtract(e->k[1], off, lw - off));
	}
	case K::ZExt: {
		unsigned iw = e->k[0]->width;
		if(off + w <= iw) return mkExtract(e->k[0], off, w);
		if(off >= iw) return mkConst(0, w);
		return mkZExt(mkExtract(e->k[0], off, iw - off), w);
	}
	case K::SExt: {
		unsigned iw = e->k[0]->width;
		if(off + w <= iw) return mkExtract(e->k[0], off, w);
		if(off < iw) return mkSExt(mkExtract(e->k[0], off, iw - off), w);
		return mkSExt(mkExtract(e->k[0], iw - 1, 1), w);
	}
	case K::And: case K::Or: case K::Xor:
		if(e->k[1]->isConst() || e->k[0]->kind == K::Concat || e->k[1]->kind == K::Concat || e->k[0]->kind == K::ZExt || e->k[1]->kind == K::ZExt)
			return mkBin(e->kind, mkExtract(e->k[0], off, w), mkExtract(e->k[1], off, w));
		break;
	case K::Not: return mkNot(mkExtract(e->k[0], off, w));
	case K::Ite:
		if((e->k[1]->isConst() || e->k[2]->isConst()))
			return mkIte(e->k[0], mkExtract(e->k[1], off, w), mkExtract(e->k[2], off, w));
		break;
	case K::Add: case K::Sub: case K::Mul:
		if(off == 0) return mkBin(e->kind, mkExtract(e->k[0], 0, w), mkExtract(e->k[1], 0, w));
		break;
	case K::Shl:
		if(e->k[1]->isConst()){
			unsigned s = (unsigned)e->k[1]->val;
			if(e->k[1]->val < e->width){
				if(off >= s) return mkExtract(e->k[0], off - s, w);
				if(off + w <= s) return mkConst(0, w);
			}
		}
		break;
	default: break;
	}
	return make(K::Extract, w, off, 0, e);
}

E mkConcat(E hi, E lo){
	unsigned w = hi->width + lo->width;
	assert(w <= 128);
	if(hi->isConst() && lo->isConst()) return mkConst((hi->val << lo->width) | lo->val, w);
	if(hi->kind == K::Extract && lo->kind == K::Extract && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->width)
		return mkExtract(hi->k[0], lo->aux, w);
	// the low part of a sum was narrowed when it was taken apart
	if(hi->kind == K::Extract && hi->aux == lo->width && lo->kind != K::Extract && !lo->isConst() && mkExtract(hi->k[0], 0, lo->width) == lo)
		return mkExtract(hi->k[0], 0, w);
	// (a ++ b) ++ c with b,c adjacent extracts
	if(hi->kind == K::Concat && lo->kind == K::Extract && hi->k[1]->kind == K::Extract && hi->k[1]->k[0] == lo->k[0] && hi->k[1]->aux == lo->aux + lo->width)
		return mkConcat(hi->k[0], mkExtract(lo->k[0], lo->aux, hi->k[1]->width + lo->width));
	if(hi->isConst() && hi->val == 0) return mkZExt(lo, w);
	if(hi->kind == K::ZExt) return mkZExt(mkConcat(hi->k[0], lo), w);
	if(hi->kind == K::SExt && hi->k[0]->kind==K::Extract && hi->k[0]->k[0]==lo && hi->k[0]->width==1 && hi->k[0]->aux==lo->width-1) return mkSExt(lo,w);
	// extract pieces of zext/sext/ops rebuilt: handled by mkExtract folding
	// keep concats right-nested: (a++b)++c -> a++(b++c)
	if(hi->kind == K::Concat) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
	if(lo->kind == K::Concat && hi->kind == K::Extract && lo->k[0]->kind == K::Extract && hi->k[0] == lo->k[0]->k[0] && hi->aux == lo->k[0]->aux + lo->k[0]->width)
		return mkConcat(mkExtract(hi->k[0], lo->k[0]->aux, hi->width + lo->k[0]->width), lo->k[1]);
	return make(K::Concat, w, 0, 0, hi, lo);
}

E mkZExt(E e, unsigned w){
	if(w == e->width) return e;
	assert(w > e->width);
	if(e->isConst()) return mkConst(e->val, w);
	if(e->kind == K::ZExt) return mkZExt(e->k[0], w);
	if(e->kind == K::Ite && e->k[1]->isConst() && e->k[2]->isConst())
		return mkIte(e->k[0], mkZExt(e->k[1], w), mkZExt(e->k[2], w));
	return make(K::ZExt, w, 0, 0, e);
}
E mkSExt(E e, unsigned w){
	if(w == e->width) return e;
	assert(w > e->width);
	if(e->isConst()) return mkConst((u128)sextOf(e->val, e->width), w);
	if(e->kind == K::SExt) return mkSExt(e->k[0], w);
	if(e->kind == K::ZExt) return mkZExt(e->k[0], w);
	if(e->kind == K::Ite && e->k[1]->isConst() && e->k[2]->isConst())
		return mkIte(e->k[0], mkSExt(e->k[1], w), mkSExt(e->k[2], w));
	return make(K::SExt, w, 0, 0, e);
}

E mkNot(E e){
	if(e->isConst()) return mkConst(~e->val, e->width);
	if(e->kind == K::Not) return e->k[0];
	if(e->width == 1){
		if(e->kind == K::Ult) return mkBin(K::Ule, e->k[1], e->k[0]);
		if(e->kind == K::Ule) return mkBin(K::Ult, e->k[1], e->k[0]);
		if(e->kind == K::Slt) return mkBin(K::Sle, e->k[1], e->k[0]);
		if(e->kind == K::Sle) return mkBin(K::Slt, e->k[1], e->k[0]);
	}
	return make(K::Not, e->width, 0, 0, e);
}

E mkIte(E c, E t, E f){
	if(c->isConst()) return c->val ? t : f;
	if(t == f) return t;
	if(c->kind == K::Not) return mkIte(c->k[0], f, t);
	if(t->width == 1){
		if(t->isConst() && f->isConst()) return t->val ? c : mkNot(c);
		if(t->isConst()) return t->val ? mkBin(K::Or, c, f) : mkBin(K::And, mkNot(c), f);
		if(f->isConst()) return f->val ? mkBin(K::Or, mkNot(c), t) : mkBin(K::And, c, t);
	}
	if(t->kind == K::Ite && t->k[0] == c) return mkIte(c, t->k[1], f);
	if(f->kind == K::Ite && f->k[0] == c) return mkIte(c, t, f->k[2]);
	return make(K::Ite, t->width, 0, 0, c, t, f);
}

static bool commut(K k){ return k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor || k == K::Eq; }

static u128 foldBin(K k, unsigned w, u128 a, u128 b){
	u128 m = maskOf(w);
	a &= m; b &= m;
	switch(k){
	case K::Add: return (a + b) & m;
	case K::Sub: return (a - b) & m;
	case K::Mul: return (a * b) & m;
	case K::UDiv: return b == 0 ? m : a / b;
	case K::URem: return b == 0 ? a : a % b;
	case K::SDiv: { i128 x = sextOf(a, w), y = sextOf(b, w); if(y == 0) return x < 0 ? 1 : m; if(y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
	case K::SRem: { i128 x = sextOf(a, w), y = sextOf(b, w); if(y == 0) return a; if(y == -1) return 0; return (u128)(x % y) & m; }
	case K::And: return a & b;
	case K::Or: return a | b;
	case K::Xor: return a ^ b;
	case K::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
	case K::LShr: return b >= w ? 0 : a >> (unsigned)b;
	case K::AShr: { i128 x = sextOf(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
	case K::Eq: return a == b;
	case K::Ult: return a < b;
	case K::Ule: return a <= b;
	case K::Slt: return sextOf(a, w) < sextOf(b, w);
	case K::Sle: return sextOf(a, w) <= sextOf(b, w);
	default: abort();
	}
}

// trailing known zero bits / upper bound of value
static u128 ubound(E e, int d = 0){
	u128 m = maskOf(e->width);
	if(d > 4) return m;
	switch(e->kind){
	case K::Const: return e->val;
	case K::ZExt: return ubound(e->k[0], d + 1);
	case K::Concat: return (ubound(e->k[0], d + 1) << e->k[1]->width) | (e->k[1]->isConst() ? e->k[1]->val : maskOf(e->k[1]->width));
	case K::And: return std::min(ubound(e->k[0], d + 1), ubound(e->k[1], d + 1));
	case K::Ite: return std::max(ubound(e->k[1], d + 1), ubound(e->k[2], d + 1));
	case K::LShr: if(e->k[1]->isConst() && e->k[1]->val < e->width) return ubound(e->k[0], d + 1) >> (unsigned)e->k[1]->val; return m;
	case K::URem: if(e->k[1]->isConst() && e->k[1]->val) return e->k[1]->val - 1; return m;
	case K::UDiv: if(e->k[1]->isConst() && e->k[1]->val) return ubound(e->k[0], d + 1) / e->k[1]->val; return m;
	case K::Add: { u128 a = ubound(e->k[0], d + 1), b = ubound(e->k[1], d + 1); if(a <= m - b) return a + b; return m; }
	case K::Shl: if(e->k[1]->isConst() && e->k[1]->val < e->width){ u128 a = ubound(e->k[0], d+1); unsigned s=(unsigned)e->k[1]->val; if(a <= (m >> s)) return a << s; } return m;
	case K::Mul: { u128 a = ubound(e->k[0], d + 1), b = ubound(e->k[1], d + 1); if(a == 0 || b == 0) return 0; if(a <= m / b) return a * b; return m; }
	case K::Or: case K::Xor: { u128 a = ubound(e->k[0], d + 1) | ubound(e->k[1], d + 1); u128 r = 0; while(r < a){ r = (r << 1) | 1; } return r; }
	default: return m;
	}
}

E mkBin(K k, E a, E b){
	unsigned w = a->width;
	if(a->width != b->width){ fprintf(stderr, "width mismatch %d: %u %u\n", (int)k, a->width, b->width); abort(); }
	bool cmp = k == K::Eq || k == K::Ult || k == K::Ule || k == K::Slt || k == K::Sle;
	if(a->isConst() && b->isConst()) return mkConst(foldBin(k, w, a->val, b->val), cmp ? 1 : w);
	if(commut(k)){
		if(a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b);
	}
	u128 m = maskOf(w);
	switch(k){
	case K::Add:
		if(b->isConst()){
			if(b->val == 0) return a;
			if(a->kind == K::ZExt && (b->val & maskOf(a->k[0]->width)) == 0) return mkConcat(mkConst(b->val >> a->k[0]->width, w - a->k[0]->width), a->k[0]);
			if(a->kind == K::Add && a->k[1]->isConst()) return mkBin(K::Add, a->k[0], mkConst(a->k[1]->val + b->val, w));
			if(a->kind == K::Sub && a->k[0]->isConst()) return mkBin(K::Sub, mkConst(a->k[0]->val + b->val, w), a->k[1]);
			if(a->kind == K::Ite && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkBin(k, a->k[1], b), mkBin(k, a->k[2], b));
		} else {
			if(a->kind == K::Add && a->k[1]->isConst()) return mkBin(K::Add, mkBin(K::Add, a->k[0], b), a->k[1]);
			if(b->kind == K::Add && b->k[1]->isConst()) return mkBin(K::Add, mkBin(K::Add, a, b->k[0]), b->k[1]);
			if(a->kind == K::Sub && a->k[1] == b) return a->k[0];
			if(b->kind == K::Sub && b->k[1] == a) return b->k[0];
		}
		if(w == 1) return mkBin(K::Xor, a, b);
		for(int i = 0; i < 2; ++i){
			E x = i ? b : a, y = i ? a : b;
			if(y->kind == K::Concat && y->k[1]->isConst() && y->k[1]->val == 0 && ubound(x) <= maskOf(y->k[1]->width))
				return mkConcat(y->k[0], mkExtract(x, 0, y->k[1]->width));
		}
		break;
	case K::Sub:
		if(b->isConst()) return mkBin(K::Add, a, mkConst(-b->val, w));
		if(a == b) return mkConst(0, w);
		if(w == 1) return mkBin(K::Xor, a, b);
		if(a->kind == K::Add && a->k[1]->isConst()) return mkBin(K::Add, mkBin(K::Sub, a->k[0], b), a->k[1]);
		if(b->kind == K::Add && b->k[1]->isConst()) return mkBin(K::Add, mkBin(K::Sub, a, b->k[0]), mkConst(-b->k[1]->val, w));
		if(a->kind == K::Add && a->k[0] == b) return a->k[1];
		if(a->kind == K::Add && a->k[1] == b) return a->k[0];
		break;
	case K::Mul:
		if(b->isConst()){
			if(b->val == 0) return b;
			if(b->val == 1) return a;
			for(unsigned i = 1; i < w; ++i) if(b->val == ((u128)1 << i)) return mkBin(K::Shl, a, mkConst(i, w));
			if(a->kind == K::Mul && a->k[1]->isConst()) return mkBin(K::Mul, a->k[0], mkConst(a->k[1]->val * b->val, w));
		}
		if(w == 1) return mkBin(K::And, a, b);
		if(!b->isConst() && (a->kind == K::Mul || b->kind == K::Mul)){
			// products in one order, so that equal products are one term
			std::vector<E> f;
			std::function<void(E)> collect = [&](E x){ if(x->kind == K::Mul && f.size() < 16){ collect(x->k[0]); collect(x->k[1]); } else f.push_back(x); };
			collect(a); collect(b);
			u128 c = 1;
			std::vector<E> g;
			for(E x : f) if(x->isConst()) c = (c * x->val) & m; else g.push_back(x);
			if(c == 0) return mkConst(0, w);
			std::sort(g.begin(), g.end(), [](E x, E y){ return x->id < y->id; });
			E r = g[0];
			for(size_t i = 1; i < g.size(); ++i) r = make(K::Mul, w, 0, 0, r, g[i]);
			return c == 1 ? r : mkBin(K::Mul, r, mkConst(c, w));
		}
		break;
	case K::UDiv:
		if(b->isConst()){
			if(b->val == 1) return a;
			for(unsigned i = 1; i < w; ++i) if(b->val == ((u128)1 << i)) return mkBin(K::LShr, a, mkConst(i, w));
			if(b->val > ubound(a)) return mkConst(0, w);
			if(a->kind == K::UDiv && a->k[1]->isConst() && a->k[1]->val && b->val){
				if(b->val > m / a->k[1]->val) return mkConst(0, w);
				return mkBin(K::UDiv, a->k[0], mkConst(a->k[1]->val * b->val, w));
			}
			// narrow
			if(a->kind == K::ZExt && b->val && (b->val & ~maskOf(a->k[0]->width)) == 0)
				return mkZExt(mkBin(K::UDiv, a->k[0], mkConst(b->val, a->k[0]->width)), w);
		}
		break;
	case K::URem:
		if(b->isConst()){
			if(b->val == 1) return mkConst(0, w);
			for(unsigned i = 1; i < w; ++i) if(b->val == ((u128)1 << i)) return mkBin(K::And, a, mkConst(b->val - 1, w));
			if(b->val > ubound(a)) return a;
			if(a->kind == K::ZExt && b->val && (b->val & ~maskOf(a->k[0]->width)) == 0)
				return mkZExt(mkBin(K::URem, a->k[0], mkConst(b->val, a->k[0]->width)), w);
		}
		break;
	case K::SDiv: case K::SRem: {
		u128 half = m >> 1;
		if(b->isConst() && b->val <= half && b->val && ubound(a) <= half) return mkBin(k == K::SDiv ? K::UDiv : K::URem, a, b);
		if(k == K::SDiv && b->isConst() && b->val == 1) return a;
		break;
	}
	case K::And:
		if(a == b) return a;
		if(b->isConst()){
			if(b->val == 0) return b;
			if(b->val == m) return a;
			if(a->kind == K::And && a->k[1]->isConst()) return mkBin(K::And, a->k[0], mkConst(a->k[1]->val & b->val, w));
			if(a->kind == K::ZExt) return mkZExt(mkBin(K::And, a->k[0], mkConst(b->val, a->k[0]->width)), w);
			// mask of low bits
			for(unsigned i = 1; i < w; ++i) if(b->val == maskOf(i)) return mkZExt(mkExtract(a, 0, i), w);
			if(a->kind == K::Ite && (a->k[1]->isConst() && a->k[2]->isConst())) return mkIte(a->k[0], mkBin(k, a->k[1], b), mkBin(k, a->k[2], b));
		}
		if(a->kind == K::Not && a->k[0] == b) return mkConst(0, w);
		if(b->kind == K::Not && b->k[0] == a) return mkConst(0, w);
		if(a->kind == K::ZExt && b->kind == K::ZExt){
			unsigned n = std::max(a->k[0]->width, b->k[0]->width);
			return mkZExt(mkBin(k, mkZExt(a->k[0], n), mkZExt(b->k[0], n)), w);
		}
		break;
	case K::Or:
		if(a == b) return a;
		if(b->isConst()){
			if(b->val == 0) return a;
			if(b->val == m) return b;
			if(a->kind == K::Or && a->k[1]->isConst()) return mkBin(K::Or, a->k[0], mkConst(a->k[1]->val | b->val, w));
			if(a->kind == K::Ite && (a->k[1]->isConst() && a->k[2]->isConst())) return mkIte(a->k[0], mkBin(k, a->k[1], b), mkBin(k, a->k[2], b));
		}
		if(a->kind == K::Not && a->k[0] == b) return mkConst(m, w);
		if(b->kind == K::Not && b->k[0] == a) return mkConst(m, w);
		// zext(x) | (y << k) with non-overlapping bits -> concat
		for(int i = 0; i < 2; ++i){
			E x = i ? b : a, y = i ? a : b;
			if(y->kind == K::Shl && y->k[1]->isConst() && y->k[1]->val < w && y->k[1]->val > 0){
				unsigned s = (unsigned)y->k[1]->val;
				if(ubound(x) <= maskOf(s)) return mkConcat(mkExtract(y->k[0], 0, w - s), mkExtract(x, 0, s));
			}
			if(y->kind == K::Concat && y->k[1]->isConst() && y->k[1]->val == 0 && ubound(x) <= maskOf(y->k[1]->width))
				return mkConcat(y->k[0], mkExtract(x, 0, y->k[1]->width));
		}
		// zext(a++0s) | ...
		if(a->kind == K::ZExt && b->kind == K::ZExt){
			unsigned n = std::max(a->k[0]->width, b->k[0]->width);
			return mkZExt(mkBin(k, mkZExt(a->k[0], n), mkZExt(b->k[0], n)), w);
		}
		break;
	case K::Xor:
		if(a == b) return mkConst(0, w);
		if(b->isConst()){
			if(b->val == 0) return a;
			if(b->val == m) return mkNot(a);
			if(a->kind == K::Xor && a->k[1]->isConst()) return mkBin(K::Xor, a->k[0], mkConst(a->k[1]->val ^ b->val, w));
			if(a->kind == K::Ite && (a->k[1]->isConst() && a->k[2]->isConst())) return mkIte(a->k[0], mkBin(k, a->k[1], b), mkBin(k, a->k[2], b));
		}
		break;
	case K::Shl:
		if(b->isConst()){
			if(b->val == 0) return a;
			if(b->val >= w) return mkConst(0, w);
			return mkConcat(mkExtract(a, 0, w - (unsigned)b->val), mkConst(0, (unsigned)b->val));
		}
		break;
	case K::LShr:
		if(b->isConst()){
			if(b->val == 0) return a;
			if(b->val >= w) return mkConst(0, w);
			return mkZExt(mkExtract(a, (unsigned)b->val, w - (unsigned)b->val), w);
		}
		break;
	case K::AShr:
		if(b->isConst()){
			if(b->val == 0) return a;
			unsigned s = b->val >= w ? w - 1 : (unsigned)b->val;
			return mkSExt(mkExtract(a, s, w - s), w);
		}
		break;
	case K::Eq:
		if(a == b) return mkTrue();
		if(w == 1){
			if(b->isConst()) return b->val ? a : mkNot(a);
		}
		if(b->isConst()){
			switch(a->kind){
			case K::ZExt:
				if(b->val & ~maskOf(a->k[0]->width)) return mkFalse();
				return mkBin(K::Eq, a->k[0], mkConst(b->val, a->k[0]->width));
			case K::SExt: {
				unsigned iw = a->k[0]->width;
				if(((u128)sextOf(b->val, iw) & m) != b->val) return mkFalse();
				return mkBin(K::Eq, a->k[0], mkConst(b->val, iw));
			}
			case K::Concat:
				return mkBin(K::And, mkBin(K::Eq, a->k[0], mkConst(b->val >> a->k[1]->width, a->k[0]->width)), mkBin(K::Eq, a->k[1], mkConst(b->val, a->k[1]->width)));
			case K::Add: if(a->k[1]->isConst()) return mkBin(K::Eq, a->k[0], mkConst(b->val - a->k[1]->val, w)); break;
			case K::Sub:
				if(b->val == 0) return mkBin(K::Eq, a->k[0], a->k[1]);
				if(a->k[0]->isConst()) return mkBin(K::Eq, a->k[1], mkConst(a->k[0]->val - b->val, w));
				break;
			case K::Xor: if(a->k[1]->isConst()) return mkBin(K::Eq, a->k[0], mkConst(b->val ^ a->k[1]->val, w)); if(b->val == 0) return mkBin(K::Eq, a->k[0], a->k[1]); break;
			case K::Not: return mkBin(K::Eq, a->k[0], mkConst(~b->val, w));
			case K::Ite: {
				bool tc = a->k[1]->isConst(), fc = a->k[2]->isConst();
				if(tc && fc){
					bool te = a->k[1]->val == b->val, fe = a->k[2]->val == b->val;
					if(te && fe) return mkTrue();
					if(te) return a->k[0];
					if(fe) return mkNot(a->k[0]);
					return mkFalse();
				}
				if(tc || fc) return mkIte(a->k[0], mkBin(K::Eq, a->k[1], b), mkBin(K::Eq, a->k[2], b));
				break;
			}
			case K::And:
				if(a->k[1]->isConst() && (b->val & ~a->k[1]->val)) return mkFalse();
				// single-bit tests
				if(a->k[1]->isConst()){
					u128 mk = a->k[1]->val;
					if(mk && (mk & (mk - 1)) == 0){
						unsigned bit = 0; while(!((mk >> bit) & 1)) ++bit;
						E t = mkExtract(a->k[0], bit, 1);
						return b->val ? t : mkNot(t);
					}
				}
				break;
			case K::UDiv:
				if(b->val == 0 && a->k[1]->isConst() && a->k[1]->val) return mkBin(K::Ult, a->k[0], a->k[1]);
				break;
			default: break;
			}
			if(b->val > ubound(a)) return mkFalse();
		} else {
			if(a->kind == K::ZExt && b->kind == K::ZExt && a->k[0]->width == b->k[0]->width) return mkBin(K::Eq, a->k[0], b->k[0]);
			if(a->kind == K::ZExt && b->kind == K::ZExt){
				unsigned n = std::max(a->k[0]->width, b->k[0]->width);
				if(n < w) return mkBin(K::Eq, mkZExt(a->k[0], n), mkZExt(b->k[0], n));
			}
			if(a->kind == K::SExt && b->kind == K::SExt && a->k[0]->width == b->k[0]->width) return mkBin(K::Eq, a->k[0], b->k[0]);
			if(a->kind == K::Add && b->kind == K::Add && a->k[1] == b->k[1]) return mkBin(K::Eq, a->k[0], b->k[0]);
			if(a->kind == K::Add && a->k[1]->isConst() && a->k[0] == b) return mkFalse();
			if(b->kind == K::Add && b->k[1]->isConst() && b->k[0] == a) return mkFalse();
			if(a->kind == K::Concat && b->kind == K::Concat && a->k[0]->width == b->k[0]->width)
				return mkBin(K::And, mkBin(K::Eq, a->k[0], b->k[0]), mkBin(K::Eq, a->k[1], b->k[1]));
		}
		break;
	case K::Ult:
		if(a == b) return mkFalse();
		if(b->isConst()){
			if(b->val == 0) return mkFalse();
			if(b->val == 1) return mkBin(K::Eq, a, mkConst(0, w));
			if(ubound(a) < b->val) return mkTrue();
			if(a->kind == K::UDiv && a->k[1]->isConst() && a->k[1]->val){ // x / c < d  <=>  x < c * d
				if(b->val > m / a->k[1]->val) return mkTrue();
				return mkBin(K::Ult, a->k[0], mkConst(a->k[1]->val * b->val, w));
			}
			if(a->kind == K::ZExt) return mkBin(K::Ult, a->k[0], mkConst(b->val, a->k[0]->width));
			if(a->kind == K::Ite && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkBin(k, a->k[1], b), mkBin(k, a->k[2], b));
		}
		if(a->isConst()){
			if(a->val == m) return mkFalse();
			if(a->val >= ubound(b)) return mkFalse();
			if(b->kind == K::UDiv && b->k[1]->isConst() && b->k[1]->val) // d < x / c  <=>  not x / c < d + 1
				return mkNot(mkBin(K::Ult, b, mkConst(a->val + 1, w)));
			if(b->kind == K::ZExt) return mkBin(K::Ult, mkConst(a->val, b->k[0]->width), b->k[0]);
			if(b->kind == K::Ite && b->k[1]->isConst() && b->k[2]->isConst()) return mkIte(b->k[0], mkBin(k, a, b->k[1]), mkBin(k, a, b->k[2]));
		}
		if(a->kind == K::ZExt && b->kind == K::ZExt){
			unsigned n = std::max(a->k[0]->width, b->k[0]->width);
			if(n < w) return mkBin(k, mkZExt(a->k[0], n), mkZExt(b->k[0], n));
		}
		if(w == 1) return mkBin(K::And, mkNot(a), b);
		break;
	case K::Ule:
		if(a == b) return mkTrue();
		if(b->isConst()){
			if(b->val == m) return mkTrue();
			if(ubound(a) <= b->val) return mkTrue();
			return mkBin(K::Ult, a, mkConst(b->val + 1, w));
		}
		if(a->isConst()){
			if(a->val == 0) return mkTrue();
			return mkBin(K::Ult, mkConst(a->val - 1, w), b);
		}
		if(a->kind == K::ZExt && b->kind == K::ZExt){
			unsigned n = std::max(a->k[0]->width, b->k[0]->width);
			if(n < w) return mkBin(k, mkZExt(a->k[0], n), mkZExt(b->k[0], n));
		}
		if(w == 1) return mkBin(K::Or, mkNot(a), b);
		break;
	case K::Slt: case K::Sle:
		if(a == b) return k == K::Sle ? mkTrue() : mkFalse();
		if(w > 1){
			u128 half = m >> 1;
			if(ubound(a) <= half && ubound(b) <= half) return mkBin(k == K::Slt ? K::Ult : K::Ule, a, b);
			// both sign extended from the same width
			if(a->kind == K::SExt && b->kind == K::SExt && a->k[0]->width == b->k[0]->width) return mkBin(k, a->k[0], b->k[0]);
			if(a->kind == K::SExt && b->isConst()){
				unsigned iw = a->k[0]->width;
				i128 bv = sextOf(b->val, w), lo = -((i128)1 << (iw - 1)), hi = ((i128)1 << (iw - 1)) - 1;
				if(bv > hi) return mkTrue();
				if(bv < lo) return mkFalse();
				return mkBin(k, a->k[0], mkConst((u128)bv, iw));
			}
			if(b->kind == K::SExt && a->isConst()){
				unsigned iw = b->k[0]->width;
				i128 av = sextOf(a->val, w), lo = -((i128)1 << (iw - 1)), hi = ((i128)1 << (iw - 1)) - 1;
				if(av < lo) return mkTrue();
				if(av > hi) return mkFalse();
				return mkBin(k, mkConst((u128)av, iw), b->k[0]);
			}
			// sign test
			if(k == K::Slt && b->isConst() && b->val == 0) return mkExtract(a, w - 1, 1);
			if(k == K::Slt && a->isConst() && a->val == m) return mkNot(mkExtract(b, w - 1, 1));
			if(k == K::Sle && a->isConst() && a->val == 0) return mkNot(mkExtract(b, w - 1, 1));
			if(k == K::Sle && b->isConst() && b->val == m) return mkExtract(a, w - 1, 1);
			if(a->kind == K::Ite && a->k[1]->isConst() && a->k[2]->isConst() && b->isConst()) return mkIte(a->k[0], mkBin(k, a->k[1], b), mkBin(k, a->k[2], b));
		} else {
			return k == K::Slt ? mkBin(K::And, a, mkNot(b)) : mkBin(K::Or, a, mkNot(b));
		}
		break;
	default: break;
	}
	return make(k, cmp ? 1 : w, 0, 0, a, b);
}

// ---------------------------------------------------------------- floating point
template <class To, class From> static To bitc(From f){ static_assert(sizeof(To) == sizeof(From), ""); To t; memcpy(&t, &f, sizeof(t)); return t; }
static long double ld(u128 v){ long double r = 0; memcpy(&r, &v, 10); return r; }
static u128 ldBits(long double d){ u128 r = 0; memcpy(&r, &d, 10); return r; }
static float f32(u128 v){ return bitc<float>((uint32_t)v); }
static double f64(u128 v){ return bitc<double>((uint64_t)v); }
static u128 fromLD(long double d, unsigned w){ // exact conversions only
	if(w == 32) return bitc<uint32_t>((float)d);
	if(w == 64) return bitc<uint64_t>((double)d);
	return ldBits(d);
}
static long double toLD(u128 v, unsigned w){ return w == 32 ? (long double)f32(v) : w == 64 ? (long double)f64(v) : ld(v); }

template <class T> static bool fcmp(unsigned p, T a, T b){
	bool uno = a != a || b != b;
	// llvm: 0 false,1 oeq,2 ogt,3 oge,4 olt,5 ole,6 one,7 ord,8 uno,9 ueq,...,15 true
	bool eq = a == b, gt = a > b, lt = a < b;
	bool r = ((p & 1) && eq) || ((p & 2) && gt) || ((p & 4) && lt) || ((p & 8) && uno);
	return r;
}
static u128 foldF(K k, unsigned w, unsigned aux, unsigned iw, u128 a, u128 b){
	switch(k){
	case K::FAdd: case K::FSub: case K::FMul: case K::FDiv: case K::FRem: case K::FSqrt:
		if(w == 32){ float x = f32(a), y = f32(b); volatile float r = k == K::FAdd ? x + y : k == K::FSub ? x - y : k == K::FMul ? x * y : k == K::FDiv ? x / y : k == K::FRem ? fmodf(x, y) : sqrtf(x); return bitc<uint32_t>((float)r); }
		if(w == 64){ double x = f64(a), y = f64(b); volatile double r = k == K::FAdd ? x + y : k == K::FSub ? x - y : k == K::FMul ? x * y : k == K::FDiv ? x / y : k == K::FRem ? fmod(x, y) : sqrt(x); return bitc<uint64_t>((double)r); }
		{ long double x = ld(a), y = ld(b); long double r = k == K::FAdd ? x + y : k == K::FSub ? x - y : k == K::FMul ? x * y : k == K::FDiv ? x / y : k == K::FRem ? fmodl(x, y) : sqrtl(x); return ldBits(r); }
	case K::FCmp:
		if(iw == 32) return fcmp(aux, f32(a), f32(b));
		if(iw == 64) return fcmp(aux, f64(a), f64(b));
		return fcmp(aux, ld(a), ld(b));
	case K::FPExt: return fromLD(toLD(a, iw), w);
	case K::FPTrunc:
		if(iw == 64 && w == 32) return bitc<uint32_t>((float)f64(a));
		return fromLD(ld(a), w);
	case K::FPToSI: { long double d = truncl(toLD(a, iw)); if(d != d) return (u128)1 << (w - 1); if(d >= ldexpl(1, w - 1) || d < -ldexpl(1, w - 1)) return (u128)1 << (w - 1); return (u128)(i128)d & maskOf(w); }
	case K::FPToUI: { long double d = truncl(toLD(a, iw)); if(d != d || d < 0 || d >= ldexpl(1, w)) return maskOf(w); return (u128)d & maskOf(w); }
	case K::SIToFP: { i128 s = sextOf(a, iw); if(w == 32) return bitc<uint32_t>((float)s); if(w == 64) return bitc<uint64_t>((double)s); return ldBits((long double)s); }
	case K::UIToFP: { if(w == 32) return bitc<uint32_t>((float)a); if(w == 64) return bitc<uint64_t>((double)a); return ldBits((long double)a); }
	default: abort();
	}
}
E mkF(K k, unsigned w, E a, E b, unsigned aux){
	if(a->isConst() && (!b || b->isConst())) return mkConst(foldF(k, w, aux, a->width, a->val, b ? b->val : 0), w);
	if(k == K::FPTrunc && a->kind == K::FPExt && a->k[0]->width == w) return a->k[0];
	if(k == K::FPExt && a->kind == K::FPExt) return mkF(K::FPExt, w, a->k[0]);
	if(k == K::FCmp){
		if(aux == 0) return mkFalse();
		if(aux == 15) return mkTrue();
		// comparisons of extended values
		if(a->kind == K::FPExt && b->kind == K::FPExt && a->k[0]->width == b->k[0]->width) return mkF(k, 1, a->k[0], b->k[0], aux);
		if(w != 1) w = 1;
	}
	return make(k, w, aux, 0, a, b);
}

// ---------------------------------------------------------------- evaluation
static uint64_t epoch = 1;
uint64_t modelSerial = 0;
static uint64_t epochModel = 0;
void evalNewEpoch(){ ++epoch; epochModel = 0; }
static u128 evalRec(E e, const Model& m){
	if(e->kind == K::Const) return e->val;
	if(e->ev_epoch == epoch) return e->ev_val;
	u128 r = 0;
	unsigned w = e->width;
	switch(e->kind){
	case K::Var: r = m.get(e->aux) & maskOf(w); break;
	case K::Extract: r = (evalRec(e->k[0], m) >> e->aux) & maskOf(w); break;
	case K::Concat: { u128 hi = evalRec(e->k[0], m); r = (hi << e->k[1]->width) | evalRec(e->k[1], m); break; }
	case K::ZExt: r = evalRec(e->k[0], m); break;
	case K::SExt: r = (u128)sextOf(evalRec(e->k[0], m), e->k[0]->width) & maskOf(w); break;
	case K::Not: r = ~evalRec(e->k[0], m) & maskOf(w); break;
	case K::Ite: r = evalRec(e->k[0], m) ? evalRec(e->k[1], m) : evalRec(e->k[2], m); break;
	default:
		if(e->kind >= K::FAdd) r = foldF(e->kind, w, e->aux, e->k[0]->width, evalRec(e->k[0], m), e->k[1] ? evalRec(e->k[1], m) : 0) & maskOf(w);
		else { u128 a = evalRec(e->k[0], m); u128 b = evalRec(e->k[1], m); r = foldBin(e->kind, e->k[0]->width, a, b); }
	}
	e->ev_epoch = epoch;
	e->ev_val = r;
	return r;
}
u128 evalExpr(E e, const Model& m){
	if(e->isConst()) return e->val;
	if(epochModel != m.serial){ ++epoch; epochModel = m.serial; }
	return evalRec(e, m);
}

std::string exprToString(E e, int d){
	static const char* nm[] = {"const","var","extract","concat","zext","sext","+","-","*","udiv","sdiv","urem","srem","&","|","^","<<",">>","ashr","~","==","<u","<=u","<s","<=s","ite","f+","f-","f*","f/","fsqrt","frem","fcmp","fpext","fptrunc","fptosi","fptoui","sitofp","uitofp"};
	if(e->isConst()){ char b[64]; snprintf(b, sizeof b, "%llx:%u", (unsigned long long)e->val, e->width); return b; }
	if(e->kind == K::Var) return "v" + std::to_string(e->aux);
	if(d == 0) return "...";
	std::string s = "(";
	s += nm[(int)e->kind];
	if(e->kind == K::Extract) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->width) + "]";
	for(unsigned i = 0; i < e->n; ++i) s += " " + exprToString(e->k[i], d - 1);
	return s + ")";
}
