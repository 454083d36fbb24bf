#include "solver.h"
#include <z3.h>
#include <chrono>
#include <algorithm>
#include <cstdio>

static double nowMs(){ return std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
#define C ((Z3_context)ctx)
#define A(x) ((Z3_ast)(x))

static void errh(Z3_context c, Z3_error_code e){ fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }

Solver::Solver(){
	Z3_config cfg = Z3_mk_config();
	ctx = Z3_mk_context(cfg);
	Z3_set_error_handler(C, errh);
	Z3_del_config(cfg);
}

static Z3_sort fsort(Z3_context c, unsigned w){
	return w == 32 ? Z3_mk_fpa_sort_32(c) : w == 64 ? Z3_mk_fpa_sort_64(c) : Z3_mk_fpa_sort(c, 15, 64);
}
// 80-bit extended is held as the 79-bit IEEE form (15,64) in the solver; memory form has the explicit integer bit.
void* Solver::trFp(E e){
	unsigned w = e->width;
	Z3_sort s = fsort(C, w);
	if(w == 80){
		// drop the explicit integer bit (bit 63): sign|exp at 64..79, fraction 0..62
		Z3_ast b = A(tr(e));
		Z3_ast x = Z3_mk_concat(C, Z3_mk_extract(C, 79, 64, b), Z3_mk_extract(C, 62, 0, b));
		return Z3_mk_fpa_to_fp_bv(C, x, s);
	}
	return Z3_mk_fpa_to_fp_bv(C, A(tr(e)), s);
}

static Z3_ast fpToBits(Z3_context c, Z3_ast f, unsigned w){
	Z3_ast b = Z3_mk_fpa_to_ieee_bv(c, f);
	if(w == 80){
		Z3_ast ex = Z3_mk_extract(c, 77, 63, b);
		Z3_ast zero = Z3_mk_unsigned_int64(c, 0, Z3_mk_bv_sort(c, 15));
		Z3_ast one1 = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)), zero1 = Z3_mk_unsigned_int64(c, 0, Z3_mk_bv_sort(c, 1));
		Z3_ast ib = Z3_mk_ite(c, Z3_mk_eq(c, ex, zero), zero1, one1);
		return Z3_mk_concat(c, Z3_mk_concat(c, Z3_mk_extract(c, 78, 63, b), ib), Z3_mk_extract(c, 62, 0, b));
	}
	return b;
}

void* Solver::tr(E e){
	bool am = absMode && e->dv;
	if(am){ auto it = absMemo.find(e); if(it != absMemo.end()) return it->second; }
	else if(e->z3) return e->z3;
	Z3_ast r = nullptr;
	unsigned w = e->width;
	if(am && (e->kind == K::UDiv || e->kind == K::URem) && w >= 24 && e->k[1]->isConst() && e->k[1]->val && w <= 64){
		std::string n = "a" + std::to_string(e->id);
		r = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), Z3_mk_bv_sort(C, w));
		uint64_t lim = e->kind == K::URem ? (uint64_t)e->k[1]->val - 1 : (uint64_t)(maskOf(w) / e->k[1]->val);
		absSide[e] = Z3_mk_bvule(C, r, Z3_mk_unsigned_int64(C, lim, Z3_mk_bv_sort(C, w)));
		absMemo[e] = r;
		return r;
	}
	auto b2v = [&](Z3_ast b){
		Z3_sort s1 = Z3_mk_bv_sort(C, 1);
		return Z3_mk_ite(C, b, Z3_mk_unsigned_int64(C, 1, s1), Z3_mk_unsigned_int64(C, 0, s1));
	};
	auto isT = [&](Z3_ast v){ return Z3_mk_eq(C, v, Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1))); };
	switch(e->kind){
	case K::Const: {
		if(w <= 64) r = Z3_mk_unsigned_int64(C, e->c64(), Z3_mk_bv_sort(C, w));
		else r = Z3_mk_concat(C, Z3_mk_unsigned_int64(C, (uint64_t)(e->val >> 64), Z3_mk_bv_sort(C, w - 64)), Z3_mk_unsigned_int64(C, (uint64_t)e->val, Z3_mk_bv_sort(C, 64)));
		break;
	}
	case K::Var: {
		std::string n = "v" + std::to_string(e->aux);
		r = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), Z3_mk_bv_sort(C, w));
		break;
	}
	case K::Extract: r = Z3_mk_extract(C, e->aux + w - 1, e->aux, A(tr(e->k[0]))); break;
	case K::Concat: { Z3_ast a = A(tr(e->k[0])); r = Z3_mk_concat(C, a, A(tr(e->k[1]))); break; }
	case K::ZExt: r = Z3_mk_zero_ext(C, w - e->k[0]->width, A(tr(e->k[0]))); break;
	case K::SExt: r = Z3_mk_sign_ext(C, w - e->k[0]->width, A(tr(e->k[0]))); break;
	case K::Not: r = Z3_mk_bvnot(C, A(tr(e->k[0]))); break;
	case K::Ite: { Z3_ast c = isT(A(tr(e->k[0]))); Z3_ast t = A(tr(e->k[1])); r = Z3_mk_ite(C, c, t, A(tr(e->k[2]))); break; }
	default:
		if(e->kind >= K::FAdd){
			Z3_ast rm = Z3_mk_fpa_rne(C), rtz = Z3_mk_fpa_rtz(C);
			switch(e->kind){
			case K::FAdd: r = Z3_mk_fpa_add(C, rm, A(trFp(e->k[0])), A(trFp(e->k[1]))); break;
			case K::FSub: r = Z3_mk_fpa_sub(C, rm, A(trFp(e->k[0])), A(trFp(e->k[1]))); break;
			case K::FMul: r = Z3_mk_fpa_mul(C, rm, A(trFp(e->k[0])), A(trFp(e->k[1]))); break;
			case K::FDiv: r = Z3_mk_fpa_div(C, rm, A(trFp(e->k[0])), A(trFp(e->k[1]))); break;
			case K::FSqrt: r = Z3_mk_fpa_sqrt(C, rm, A(trFp(e->k[0]))); break;
			case K::FRem: r = Z3_mk_fpa_rem(C, A(trFp(e->k[0])), A(trFp(e->k[1]))); break;
			case K::FPExt: case K::FPTrunc: r = Z3_mk_fpa_to_fp_float(C, rm, A(trFp(e->k[0])), fsort(C, w)); break;
			case K::SIToFP: r = Z3_mk_fpa_to_fp_signed(C, rm, A(tr(e->k[0])), fsort(C, w)); break;
			case K::UIToFP: r = Z3_mk_fpa_to_fp_unsigned(C, rm, A(tr(e->k[0])), fsort(C, w)); break;
			case K::FPToSI: r = Z3_mk_fpa_to_sbv(C, rtz, A(trFp(e->k[0])), w); break;
			case K::FPToUI: r = Z3_mk_fpa_to_ubv(C, rtz, A(trFp(e->k[0])), w); break;
			case K::FCmp: {
				Z3_ast a = A(trFp(e->k[0])), b = A(trFp(e->k[1]));
				Z3_ast parts[4]; unsigned n = 0;
				if(e->aux & 1) parts[n++] = Z3_mk_fpa_eq(C, a, b);
				if(e->aux & 2) parts[n++] = Z3_mk_fpa_gt(C, a, b);
				if(e->aux & 4) parts[n++] = Z3_mk_fpa_lt(C, a, b);
				if(e->aux & 8){ Z3_ast o[2] = {Z3_mk_fpa_is_nan(C, a), Z3_mk_fpa_is_nan(C, b)}; parts[n++] = Z3_mk_or(C, 2, o); }
				r = b2v(n == 1 ? parts[0] : Z3_mk_or(C, n, parts));
				break;
			}
			default: abort();
			}
			if(e->kind != K::FCmp && e->kind != K::FPToSI && e->kind != K::FPToUI) r = fpToBits(C, r, w);
			break;
		}
		Z3_ast a = A(tr(e->k[0]));
		Z3_ast b = A(tr(e->k[1]));
		switch(e->kind){
		case K::Add: r = Z3_mk_bvadd(C, a, b); break;
		case K::Sub: r = Z3_mk_bvsub(C, a, b); break;
		case K::Mul: r = Z3_mk_bvmul(C, a, b); break;
		case K::UDiv: r = Z3_mk_bvudiv(C, a, b); break;
		case K::SDiv: r = Z3_mk_bvsdiv(C, a, b); break;
		case K::URem: r = Z3_mk_bvurem(C, a, b); break;
		case K::SRem: r = Z3_mk_bvsrem(C, a, b); break;
		case K::And: r = Z3_mk_bvand(C, a, b); break;
		case K::Or: r = Z3_mk_bvor(C, a, b); break;
		case K::Xor: r = Z3_mk_bvxor(C, a, b); break;
		case K::Shl: r = Z3_mk_bvshl(C, a, b); break;
		case K::LShr: r = Z3_mk_bvlshr(C, a, b); break;
		case K::AShr: r = Z3_mk_bvashr(C, a, b); break;
		case K::Eq: r = b2v(Z3_mk_eq(C, a, b)); break;
		case K::Ult: r = b2v(Z3_mk_bvult(C, a, b)); break;
		case K::Ule: r = b2v(Z3_mk_bvule(C, a, b)); break;
		case K::Slt: r = b2v(Z3_mk_bvslt(C, a, b)); break;
		case K::Sle: r = b2v(Z3_mk_bvsle(C, a, b)); break;
		default: abort();
		}
	}
	if(am) absMemo[e] = r; else e->z3 = r;
	return r;
}

// Interval reasoning over the constraints' byte variables: a cheap sound way to refute a query before the solver sees it.
Solver::Rg Solver::range(E e){
	if(e->isConst()) return {e->val, e->val};
	auto it = rgMemo.find(e);
	if(it != rgMemo.end()) return it->second;
	u128 m = maskOf(e->width);
	Rg r{0, m};
	auto R = [&](int i){ return range(e->k[i]); };
	switch(e->kind){
	case K::Var: { auto d = rgDom.find(e->aux); if(d != rgDom.end()) r = d->second; break; }
	case K::ZExt: r = R(0); break;
	case K::SExt: { Rg a = R(0); if(a.hi <= maskOf(e->k[0]->width - 1)) r = a; break; }
	case K::Concat: { Rg a = R(0), b = R(1); unsigned s = e->k[1]->width; r = {(a.lo << s) + b.lo, (a.hi << s) + b.hi}; break; }
	case K::Extract: { Rg a = R(0); if((a.lo >> e->aux >> (e->width - 1) >> 1) == (a.hi >> e->aux >> (e->width - 1) >> 1)){ r = {(a.lo >> e->aux) & m, (a.hi >> e->aux) & m}; } break; }
	case K::Add: {
		Rg a = R(0), b = R(1);
		if(a.hi <= m - b.hi) r = {a.lo + b.lo, a.hi + b.hi};
		else if(a.lo > m - b.lo) r = {(a.lo + b.lo) & m, (a.hi + b.hi) & m}; // always wraps
		break;
	}
	case K::Sub: { Rg a = R(0), b = R(1); if(a.lo >= b.hi) r = {a.lo - b.hi, a.hi - b.lo}; break; }
	case K::Mul: { Rg a = R(0), b = R(1); if(a.hi == 0 || b.hi == 0) r = {0, 0}; else if(a.hi <= m / b.hi) r = {a.lo * b.lo, a.hi * b.hi}; break; }
	case K::UDiv: { Rg a = R(0), b = R(1); if(b.lo) r = {a.lo / b.hi, a.hi / b.lo}; break; }
	case K::URem: { Rg a = R(0), b = R(1); if(b.lo){ if(b.lo == b.hi && a.lo / b.lo == a.hi / b.lo) r = {a.lo % b.lo, a.hi % b.lo}; else r = {0, std::min(a.hi, b.hi - 1)}; } break; }
	case K::And: { Rg a = R(0), b = R(1); r = e->width == 1 ? Rg{a.lo & b.lo, a.hi & b.hi} : Rg{0, std::min(a.hi, b.hi)}; break; }
	case K::Or: { Rg a = R(0), b = R(1); if(e->width == 1) r = {a.lo | b.lo, a.hi | b.hi}; else { u128 x = a.hi | b.hi, y = 0; while(y < x) y = (y << 1) | 1; r = {std::max(a.lo, b.lo), y}; } break; }
	case K::Not: { Rg a = R(0); r = {m & ~a.hi, m & ~a.lo}; break; }
	case K::Eq: { Rg a = R(0), b = R(1); if(a.hi < b.lo || b.hi < a.lo) r = {0, 0}; else if(a.lo == a.hi && b.lo == b.hi && a.lo == b.lo) r = {1, 1}; break; }
	case K::Ult: { Rg a = R(0), b = R(1); if(a.hi < b.lo) r = {1, 1}; else if(a.lo >= b.hi) r = {0, 0}; break; }
	case K::Ule: { Rg a = R(0), b = R(1); if(a.hi <= b.lo) r = {1, 1}; else if(a.lo > b.hi) r = {0, 0}; break; }
	case K::Slt: case K::Sle: {
		Rg a = R(0), b = R(1);
		u128 half = maskOf(e->k[0]->width - 1);
		bool an = a.lo > half, ap = a.hi <= half, bn = b.lo > half, bp = b.hi <= half;
		if((ap && bp) || (an && bn)){
			if(e->kind == K::Slt){ if(a.hi < b.lo) r = {1, 1}; else if(a.lo >= b.hi) r = {0, 0}; }
			else { if(a.hi <= b.lo) r = {1, 1}; else if(a.lo > b.hi) r = {0, 0}; }
		} else if(an && bp) r = {1, 1};
		else if(ap && bn) r = {0, 0};
		break;
	}
	case K::Ite: {
		Rg c = R(0);
		if(c.lo == 1) r = R(1);
		else if(c.hi == 0) r = R(2);
		else { Rg a = R(1), b = R(2); r = {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; }
		break;
	}
	default: break;
	}
	if(!rgTerm.empty()){
		auto t = rgTerm.find(e);
		if(t != rgTerm.end()){
			Rg x{std::max(r.lo, t->second.lo), std::min(r.hi, t->second.hi)};
			if(x.lo > x.hi) rgEmpty = true; // contradictory bounds
			else r = x;
		}
	}
	rgMemo.emplace(e, r);
	return r;
}
bool Solver::rangeUnsat(const std::vector<E>& q){
	rgMemo.clear();
	rgDom.clear();
	rgTerm.clear();
	rgEmpty = false;
	// bounds of single variables: var < c, c < var, var == c, possibly shifted by a constant
	auto note = [&](E v, u128 lo, u128 hi){
		while(v->kind == K::ZExt){ u128 mm = maskOf(v->k[0]->width); if(lo > mm) return; hi = std::min(hi, mm); v = v->k[0]; }
		u128 m = maskOf(v->width);
		if(v->kind == K::Add && v->k[1]->isConst() && v->k[0]->kind == K::Var){
			u128 c = v->k[1]->val, nlo = (lo - c) & m, nhi = (hi - c) & m;
			if(nlo > nhi) return; // wraps
			lo = nlo; hi = nhi; v = v->k[0];
		}
		if(v->kind != K::Var){ // bounds of a whole term
			if(lo == 0 && hi == m) return;
			auto t = rgTerm.emplace(v, Rg{0, m}).first;
			t->second.lo = std::max(t->second.lo, lo);
			t->second.hi = std::min(t->second.hi, hi);
			if(t->second.lo > t->second.hi) rgEmpty = true;
			return;
		}
		auto d = rgDom.emplace(v->aux, Rg{0, maskOf(v->width)}).first;
		d->second.lo = std::max(d->second.lo, lo);
		d->second.hi = std::min(d->second.hi, hi);
	};
	std::function<void(E)> learn = [&](E e){
		if(e->kind == K::And && e->width == 1){ learn(e->k[0]); learn(e->k[1]); return; }
		if(e->kind == K::Ult || e->kind == K::Ule){
			bool st = e->kind == K::Ult;
			if(e->k[1]->isConst()) note(e->k[0], 0, e->k[1]->val - (st ? 1 : 0));
			else if(e->k[0]->isConst()) note(e->k[1], e->k[0]->val + (st ? 1 : 0), maskOf(e->k[1]->width));
		} else if(e->kind == K::Slt || e->kind == K::Sle){
			// 0 <= c < var signed: the variable is in (c, half]
			u128 half = maskOf(e->k[0]->width - 1);
			if(e->k[0]->isConst() && e->k[0]->val <= half && e->k[1]->kind == K::Var) note(e->k[1], e->k[0]->val + (e->kind == K::Slt ? 1 : 0), half);
		} else if(e->kind == K::Eq && e->k[1]->isConst()) note(e->k[0], e->k[1]->val, e->k[1]->val);
		else if(e->kind == K::Extract && e->width == 1 && e->aux + 1 == e->k[0]->width) note(e->k[0], maskOf(e->aux) + 1, maskOf(e->k[0]->width));
		else if(e->kind == K::Not && e->k[0]->width == 1){
			E n = e->k[0];
			if(n->kind == K::Extract && n->aux + 1 == n->k[0]->width) note(n->k[0], 0, maskOf(n->aux));
		}
	};
	for(E e : q) learn(e);
	if(rgEmpty) return true;
	for(auto& d : rgDom) if(d.second.lo > d.second.hi) return true;
	// signed upper bounds of variables already known to be non-negative
	for(E e : q) if((e->kind == K::Slt || e->kind == K::Sle) && e->k[0]->kind == K::Var && e->k[1]->isConst()){
		u128 half = maskOf(e->k[0]->width - 1);
		auto d = rgDom.find(e->k[0]->aux);
		if(e->k[1]->val <= half && d != rgDom.end() && d->second.hi <= half) d->second.hi = std::min(d->second.hi, e->k[1]->val - (e->kind == K::Slt && e->k[1]->val ? 1 : 0));
	}
	for(E e : q){ Rg r = range(e); if(r.hi == 0 || rgEmpty) return true; }
	return false;
}

static std::string dec(u128 v){ if(!v) return "0"; std::string r; while(v){ r.insert(r.begin(), char('0' + (int)(v % 10))); v /= 10; } return r; }
static Z3_ast num(Z3_context c, u128 v){ return Z3_mk_numeral(c, dec(v).c_str(), Z3_mk_int_sort(c)); }
// (c * x + y) divided by c, where nothing wraps: x + y / c, remainder y % c
bool Solver::splitMul(E e, IntTerm& r){
	E s = e->k[0];
	u128 c = e->k[1]->val, m = maskOf(e->width);
	if(s->kind != K::Add) return false;
	for(int i = 0; i < 2; ++i){
		E p = s->k[i], y = s->k[1 - i];
		if(p->kind != K::Mul || !p->k[1]->isConst() || p->k[1]->val != c) continue;
		IntTerm X = trInt(p->k[0]), Y = trInt(y);
		if(X.hi > m / c || X.hi * c > m - Y.hi) continue;
		if(e->kind == K::URem || e->kind == K::SRem){
			if(Y.hi < c) r = Y; else r = {Z3_mk_mod(C, A(Y.t), num(C, c)), 0, c - 1};
		} else if(Y.hi < c) r = X;
		else { Z3_ast x[2] = {A(X.t), Z3_mk_div(C, A(Y.t), num(C, c))}; r = {Z3_mk_add(C, 2, x), X.lo + Y.lo / c, X.hi + Y.hi / c}; }
		return true;
	}
	return false;
}
// the value of e as an integer in [0, 2^w)
Solver::IntTerm Solver::trInt(E e){
	auto it = intMemo.find(e);
	if(it != intMemo.end()) return it->second;
	unsigned w = e->width;
	if(w > 64) throw NoInt{};
	u128 m = maskOf(w), M = m + 1;
	auto add = [&](Z3_ast a, Z3_ast b){ Z3_ast x[2] = {a, b}; return Z3_mk_add(C, 2, x); };
	auto sub = [&](Z3_ast a, Z3_ast b){ Z3_ast x[2] = {a, b}; return Z3_mk_sub(C, 2, x); };
	auto mul = [&](Z3_ast a, Z3_ast b){ Z3_ast x[2] = {a, b}; return Z3_mk_mul(C, 2, x); };
	IntTerm r{nullptr, 0, m};
	auto I = [&](int i){ return trInt(e->k[i]); };
	if(w == 1 && e->kind != K::Const && e->kind != K::Var && e->kind != K::Extract){
		r.t = Z3_mk_ite(C, A(trIntBool(e)), num(C, 1), num(C, 0));
	} else switch(e->kind){
	case K::Const: r = {num(C, e->val), e->val, e->val}; break;
	case K::Var: {
		std::string n = "v" + std::to_string(e->aux);
		Z3_ast v = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), Z3_mk_int_sort(C));
		intSide.push_back(Z3_mk_le(C, num(C, 0), v));
		intSide.push_back(Z3_mk_le(C, v, num(C, m)));
		r.t = v;
		break;
	}
	case K::ZExt: r = I(0); break;
	case K::SExt: {
		IntTerm a = I(0);
		u128 half = maskOf(e->k[0]->width - 1);
		if(a.hi <= half) r = a;
		else r.t = Z3_mk_ite(C, Z3_mk_le(C, A(a.t), num(C, half)), A(a.t), add(A(a.t), num(C, M - (maskOf(e->k[0]->width) + 1))));
		break;
	}
	case K::Concat: { IntTerm a = I(0), b = I(1); unsigned s = e->k[1]->width; r = {add(mul(A(a.t), num(C, (u128)1 << s)), A(b.t)), (a.lo << s) + b.lo, (a.hi << s) + b.hi}; break; }
	case K::Extract: {
		IntTerm a = I(0);
		Z3_ast t = A(a.t);
		u128 lo = a.lo, hi = a.hi;
		if(e->aux){ t = Z3_mk_div(C, t, num(C, (u128)1 << e->aux)); lo >>= e->aux; hi >>= e->aux; }
		if(hi > m){ t = Z3_mk_mod(C, t, num(C, M)); lo = 0; hi = m; }
		r = {t, lo, hi};
		break;
	}
	case K::Add: {
		IntTerm a = I(0), b = I(1);
		Z3_ast s = add(A(a.t), A(b.t));
		if(a.hi + b.hi <= m) r = {s, a.lo + b.lo, a.hi + b.hi};
		else if(a.lo + b.lo > m) r = {sub(s, num(C, M)), a.lo + b.lo - M, a.hi + b.hi - M};
		else r.t = Z3_mk_ite(C, Z3_mk_le(C, s, num(C, m)), s, sub(s, num(C, M)));
		break;
	}
	case K::Sub: {
		IntTerm a = I(0), b = I(1);
		Z3_ast s = sub(A(a.t), A(b.t));
		if(a.lo >= b.hi) r = {s, a.lo - b.hi, a.hi - b.lo};
		else r.t = Z3_mk_ite(C, Z3_mk_le(C, num(C, 0), s), s, add(s, num(C, M)));
		break;
	}
	case K::Shl: case K::Mul: {
		u128 c;
		if(!e->k[1]->isConst()) throw NoInt{};
		c = e->k[1]->val;
		if(e->kind == K::Shl){ if(c >= w) throw NoInt{}; c = (u128)1 << (unsigned)c; }
		IntTerm a = I(0);
		if(c > (m >> 1) && e->kind == K::Mul){ // a negative constant
			u128 n = M - c;
			if(n > (u128)1 << 40) throw NoInt{};
			Z3_ast s = mul(A(a.t), num(C, n));
			r.t = Z3_mk_mod(C, Z3_mk_unary_minus(C, s), num(C, M));
			break;
		}
		Z3_ast s = mul(A(a.t), num(C, c));
		if(a.hi * c <= m) r = {s, a.lo * c, a.hi * c};
		else r.t = Z3_mk_mod(C, s, num(C, M));
		break;
	}
	case K::LShr: {
		if(!e->k[1]->isConst() || e->k[1]->val >= w) throw NoInt{};
		IntTerm a = I(0); unsigned s = (unsigned)e->k[1]->val;
		r = {Z3_mk_div(C, A(a.t), num(C, (u128)1 << s)), a.lo >> s, a.hi >> s};
		break;
	}
	case K::UDiv: case K::URem: {
		if(!e->k[1]->isConst() || !e->k[1]->val) throw NoInt{};
		if(IntTerm x; splitMul(e, x)){ r = x; break; }
		IntTerm a = I(0); u128 c = e->k[1]->val;
		if(e->kind == K::UDiv) r = {Z3_mk_div(C, A(a.t), num(C, c)), a.lo / c, a.hi / c};
		else if(a.hi < c) r = a;
		else r = {Z3_mk_mod(C, A(a.t), num(C, c)), 0, c - 1};
		break;
	}
	case K::SDiv: case K::SRem: {
		u128 half = m >> 1;
		if(!e->k[1]->isConst() || !e->k[1]->val || e->k[1]->val > half) throw NoInt{};
		IntTerm a = I(0); u128 c = e->k[1]->val;
		if(IntTerm x; a.hi <= half && splitMul(e, x)){ r = x; break; }
		Z3_ast pos = Z3_mk_le(C, A(a.t), num(C, half)), neg = sub(num(C, M), A(a.t)); // magnitude of a negative value
		bool dv = e->kind == K::SDiv;
		Z3_ast p = dv ? Z3_mk_div(C, A(a.t), num(C, c)) : Z3_mk_mod(C, A(a.t), num(C, c));
		if(a.hi <= half){ r = dv ? IntTerm{p, a.lo / c, a.hi / c} : IntTerm{p, 0, c - 1}; break; }
		Z3_ast n = dv ? Z3_mk_div(C, neg, num(C, c)) : Z3_mk_mod(C, neg, num(C, c));
		r.t = Z3_mk_ite(C, pos, p, Z3_mk_ite(C, Z3_mk_eq(C, n, num(C, 0)), num(C, 0), sub(num(C, M), n)));
		break;
	}
	case K::And: {
		if(!e->k[1]->isConst()) throw NoInt{};
		u128 c = e->k[1]->val;
		if((c & (c + 1)) == 0){ IntTerm a = I(0); r = {Z3_mk_mod(C, A(a.t), num(C, c + 1)), 0, c}; break; }
		throw NoInt{};
	}
	case K::Not: { IntTerm a = I(0); r = {sub(num(C, m), A(a.t)), m - a.hi, m - a.lo}; break; }
	case K::Ite: { IntTerm a = I(1), b = I(2); r = {Z3_mk_ite(C, A(trIntBool(e->k[0])), A(a.t), A(b.t)), std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; break; }
	default: throw NoInt{};
	}
	auto h = intHi.find(e);
	if(h != intHi.end()){ r.hi = std::min(r.hi, h->second); if(r.lo > r.hi) r.lo = 0; }
	intMemo.emplace(e, r);
	return r;
}
void* Solver::trIntBool(E e){
	auto it = intBool.find(e);
	if(it != intBool.end()) return it->second;
	Z3_ast r = nullptr;
	auto sg = [&](E x){ // signed value
		IntTerm a = trInt(x);
		u128 m = maskOf(x->width), half = m >> 1;
		if(a.hi <= half) return A(a.t);
		Z3_ast y[2] = {A(a.t), num(C, m + 1)};
		return Z3_mk_ite(C, Z3_mk_le(C, A(a.t), num(C, half)), A(a.t), Z3_mk_sub(C, 2, y));
	};
	switch(e->kind){
	case K::Const: r = e->val ? Z3_mk_true(C) : Z3_mk_false(C); break;
	case K::Not: r = Z3_mk_not(C, A(trIntBool(e->k[0]))); break;
	case K::And: { Z3_ast x[2] = {A(trIntBool(e->k[0])), A(trIntBool(e->k[1]))}; r = Z3_mk_and(C, 2, x); break; }
	case K::Or: { Z3_ast x[2] = {A(trIntBool(e->k[0])), A(trIntBool(e->k[1]))}; r = Z3_mk_or(C, 2, x); break; }
	case K::Xor: r = Z3_mk_xor(C, A(trIntBool(e->k[0])), A(trIntBool(e->k[1]))); break;
	case K::Ite: r = Z3_mk_ite(C, A(trIntBool(e->k[0])), A(trIntBool(e->k[1])), A(trIntBool(e->k[2]))); break;
	case K::Eq: r = e->k[0]->width == 1 ? Z3_mk_eq(C, A(trIntBool(e->k[0])), A(trIntBool(e->k[1]))) : Z3_mk_eq(C, A(trInt(e->k[0]).t), A(trInt(e->k[1]).t)); break;
	case K::Ult: r = Z3_mk_lt(C, A(trInt(e->k[0]).t), A(trInt(e->k[1]).t)); break;
	case K::Ule: r = Z3_mk_le(C, A(trInt(e->k[0]).t), A(trInt(e->k[1]).t)); break;
	case K::Slt: { Z3_ast x = sg(e->k[0]); r = Z3_mk_lt(C, x, sg(e->k[1])); break; }
	case K::Sle: { Z3_ast x = sg(e->k[0]); r = Z3_mk_le(C, x, sg(e->k[1])); break; }
	case K::Var: case K::Extract: r = Z3_mk_eq(C, A(trInt(e).t), num(C, 1)); break;
	default: throw NoInt{};
	}
	intBool.emplace(e, r);
	return r;
}
Res Solver::callInt(const std::vector<E>& q, std::vector<std::pair<uint32_t, uint64_t>>& asg, unsigned to){
	intMemo.clear(); intBool.clear(); intHi.clear(); intSide.clear();
	std::vector<Z3_ast> as;
	try {
		for(E e : q) if((e->kind == K::Ult || e->kind == K::Ule) && e->k[1]->isConst()){
			u128 c = e->k[1]->val - (e->kind == K::Ult ? 1 : 0);
			auto x = intHi.emplace(e->k[0], c).first;
			x->second = std::min(x->second, c);
		}
		// a constraint must not be simplified by the bound it states: it is asserted over the unbounded term
		for(E e : q){
			if((e->kind == K::Ult || e->kind == K::Ule) && e->k[1]->isConst()){
				as.push_back(Z3_mk_le(C, A(trInt(e->k[0]).t), num(C, e->k[1]->val - (e->kind == K::Ult ? 1 : 0))));
			} else as.push_back(A(trIntBool(e)));
		}
	} catch(NoInt&){ return Res::Unknown; }
	Z3_solver s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_LIA"));
	Z3_solver_inc_ref(C, s);
	Z3_params p = Z3_mk_params(C);
	Z3_params_inc_ref(C, p);
	Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), to);
	Z3_solver_set_params(C, s, p);
	Z3_params_dec_ref(C, p);
	for(auto a : as) Z3_solver_assert(C, s, a);
	for(auto a : intSide) Z3_solver_assert(C, s, A(a));
	Z3_lbool r = Z3_solver_check(C, s);
	Res res = r == Z3_L_TRUE ? Res::Sat : r == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
	if(res == Res::Sat){
		const VarSet* vs = q[0]->vars;
		for(E e : q) vs = varUnion(vs, e->vars);
		Z3_model m = Z3_solver_get_model(C, s);
		Z3_model_inc_ref(C, m);
		for(auto v : vs->v){
			std::string n = "v" + std::to_string(v);
			Z3_ast out = nullptr;
			uint64_t x = 0;
			if(Z3_model_eval(C, m, Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), Z3_mk_int_sort(C)), true, &out) && out) Z3_get_numeral_uint64(C, out, &x);
			asg.emplace_back(v, x);
		}
		Z3_model_dec_ref(C, m);
	}
	Z3_solver_dec_ref(C, s);
	return res;
}

Res Solver::callSolver(const std::vector<E>& q, std::vector<std::pair<uint32_t, uint64_t>>& asg){
	double t0 = nowMs();
	++st.solverCalls;
	bool fp = false;
	const VarSet* vs = q[0]->vars;
	std::unordered_map<uint32_t, unsigned> widths;
	for(E e : q){ fp |= e->fp; vs = varUnion(vs, e->vars); }
	if(fp) ++st.fpQueries;
	bool dv = false;
	for(E e : q) dv |= e->dv;
	if(dv && !fp){
		// first try with every division by a constant replaced by an unknown within its bounds: if that is already
		// unsatisfiable, so is the query
		Z3_solver s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
		Z3_solver_inc_ref(C, s);
		Z3_params p = Z3_mk_params(C);
		Z3_params_inc_ref(C, p);
		Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), std::min(timeoutMs, 10000u));
		Z3_solver_set_params(C, s, p);
		Z3_params_dec_ref(C, p);
		Z3_ast one = Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1));
		absMode = true;
		absSide.clear();
		absMemo.clear();
		for(E e : q) Z3_solver_assert(C, s, Z3_mk_eq(C, A(tr(e)), one));
		for(auto& x : absSide) Z3_solver_assert(C, s, A(x.second));
		absMode = false;
		Z3_lbool r = Z3_solver_check(C, s);
		Z3_solver_dec_ref(C, s);
		if(r == Z3_L_FALSE){
			double dt = nowMs() - t0;
			st.ms += dt;
			if(dt > st.maxMs) st.maxMs = dt;
			++st.unsat; ++st.absUnsat;
			return Res::Unsat;
		}
	}
	Z3_solver s = fp ? Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BVFP")) : Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
	Z3_solver_inc_ref(C, s);
	Z3_params p = Z3_mk_params(C);
	Z3_params_inc_ref(C, p);
	Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), dv && !fp ? std::min(timeoutMs, 6000u) : timeoutMs);
	Z3_solver_set_params(C, s, p);
	Z3_sort s1 = Z3_mk_bv_sort(C, 1);
	Z3_ast one = Z3_mk_unsigned_int64(C, 1, s1);
	for(E e : q) Z3_solver_assert(C, s, Z3_mk_eq(C, A(tr(e)), one));
	std::string dump;
	if(dumpEvery && st.dumped < dumpMax && st.solverCalls % dumpEvery == 1 % dumpEvery) dump = Z3_solver_to_string(C, s);
	Z3_lbool r = Z3_solver_check(C, s);
	if(r == Z3_L_UNDEF && dv && !fp){
		// in integer arithmetic, then with the whole time
		Res ri = callInt(q, asg, std::min(timeoutMs, 6000u));
		if(ri != Res::Unknown){
			double dt = nowMs() - t0;
			st.ms += dt;
			if(dt > st.maxMs) st.maxMs = dt;
			++st.intDecided;
			if(ri == Res::Sat) ++st.sat; else ++st.unsat;
			Z3_params_dec_ref(C, p);
			Z3_solver_dec_ref(C, s);
			return ri;
		}
		asg.clear();
		if(timeoutMs > 6000){
			Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), timeoutMs);
			Z3_solver_set_params(C, s, p);
			r = Z3_solver_check(C, s);
		}
	}
	Z3_params_dec_ref(C, p);
	Res res = r == Z3_L_TRUE ? Res::Sat : r == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
	if(!dump.empty()){
		std::string fn = dumpDir + "/q" + std::to_string(st.dumped) + (res == Res::Sat ? ".sat" : res == Res::Unsat ? ".unsat" : ".unknown") + ".smt2";
		if(FILE* f = fopen(fn.c_str(), "w")){ fprintf(f, "(set-logic %s)\n%s(check-sat)\n", fp ? "QF_BVFP" : "QF_BV", dump.c_str()); fclose(f); ++st.dumped; }
	}
	if(res == Res::Sat){
		Z3_model m = Z3_solver_get_model(C, s);
		Z3_model_inc_ref(C, m);
		unsigned n = Z3_model_get_num_consts(C, m);
		for(unsigned i = 0; i < n; ++i){
			Z3_func_decl d = Z3_model_get_const_decl(C, m, i);
			const char* nm = Z3_get_symbol_string(C, Z3_get_decl_name(C, d));
			if(nm[0] != 'v' || nm[1] < '0' || nm[1] > '9') continue;
			uint32_t id = atoi(nm + 1);
			Z3_ast v = Z3_model_get_const_interp(C, m, d);
			uint64_t x = 0;
			if(v && Z3_is_numeral_ast(C, v)) Z3_get_numeral_uint64(C, v, &x);
			asg.emplace_back(id, x);
		}
		// variables of the query that the model leaves free get 0
		std::unordered_set<uint32_t> have;
		for(auto& a : asg) have.insert(a.first);
		for(auto v : vs->v) if(!have.count(v)) asg.emplace_back(v, 0);
		Z3_model_dec_ref(C, m);
	}
	Z3_solver_dec_ref(C, s);
	double dt = nowMs() - t0;
	st.ms += dt;
	if(dt > st.maxMs) st.maxMs = dt;
	static const char* slow = getenv("VSE_SLOW");
	if(slow && dt > atof(slow)){ fprintf(stderr, "SLOW %.0f ms res %d at %s\n", dt, (int)res, where ? where().c_str() : ""); for(E e : q) fprintf(stderr, "   %s\n", exprToString(e, 7).substr(0, 600).c_str()); }
	if(res == Res::Sat) ++st.sat; else if(res == Res::Unsat) ++st.unsat; else ++st.unknown;
	return res;
}

// whether a and b are the same floating-point terms up to the listed pairs of integer terms
bool Solver::congruent(E a, E b, std::vector<std::pair<E, E>>& pairs){
	if(a == b) return true;
	if(a->width != b->width) return false;
	if(!a->fp && !b->fp){ pairs.emplace_back(a, b); return true; }
	if(a->kind != b->kind || a->aux != b->aux || a->n != b->n) return false;
	for(unsigned i = 0; i < a->n; ++i){
		E x = a->k[i], y = b->k[i];
		if(a->kind == K::UIToFP && x->width != y->width){
			unsigned w = std::max(x->width, y->width);
			x = mkZExt(x, w); y = mkZExt(y, w);
		}
		if(!congruent(x, y, pairs)) return false;
	}
	return true;
}
Res Solver::feasible(const std::vector<E>& cs){
	++st.queries;
	std::vector<std::pair<uint32_t, uint64_t>> asg;
	std::vector<E> q;
	for(E c : cs) if(!c->isConst()) q.push_back(c);
	if(q.empty()) return Res::Sat;
	return callSolver(q, asg);
}
Res Solver::check(const std::vector<E>& cs, E cond, const ModelP& base, ModelP& out){
	++st.queries;
	if(cond->isConst()){
		if(cond->val){ out = base; return Res::Sat; }
		return Res::Unsat;
	}
	// independence slicing
	std::vector<E> q{cond};
	const VarSet* vs = cond->vars;
	std::vector<E> rest;
	for(E c : cs) if(!c->vars->v.empty()) rest.push_back(c);
	bool ch = true;
	std::unordered_set<uint32_t> vset(vs->v.begin(), vs->v.end());
	while(ch){
		ch = false;
		std::vector<E> nr;
		for(E c : rest){
			bool dep = false;
			for(auto v : c->vars->v) if(vset.count(v)){ dep = true; break; }
			if(dep){ q.push_back(c); for(auto v : c->vars->v) if(vset.insert(v).second) ch = true; }
			else nr.push_back(c);
		}
		rest.swap(nr);
	}
	std::sort(q.begin() + 1, q.end(), [](E a, E b){ return a->id < b->id; });
	q.erase(std::unique(q.begin() + 1, q.end()), q.end());
	for(size_t i = 1; i < q.size(); ++i) if(q[i]->kind == K::Not ? q[i]->k[0] == cond : (cond->kind == K::Not && cond->k[0] == q[i])) return Res::Unsat;
	std::string key;
	key.resize(q.size() * 4);
	for(size_t i = 0; i < q.size(); ++i) memcpy(&key[i * 4], &q[i]->id, 4);
	auto mkModel = [&](const std::vector<std::pair<uint32_t, uint64_t>>& asg){
		auto m = std::make_shared<Model>(*base);
		for(auto& a : asg){ if(m->v.size() <= a.first) m->v.resize(a.first + 1, 0); m->v[a.first] = a.second; }
		out = m;
	};
	auto it = cache.find(key);
	if(it != cache.end()){
		++st.cacheHits;
		if(it->second.first == Res::Sat) mkModel(it->second.second);
		return it->second.first;
	}
	std::vector<std::pair<uint32_t, uint64_t>> asg;
	if(q.size() > 1 && rangeUnsat(q)){
		++st.rangeUnsat;
		cache.emplace(key, std::make_pair(Res::Unsat, asg));
		return Res::Unsat;
	}
	if(cond->fp && cond->kind == K::Not){
		// the same floating-point operations on integers that can be shown equal
		std::vector<std::pair<E, E>> pairs;
		std::function<bool(E)> leaves = [&](E e){
			if(e->kind == K::And && e->width == 1) return leaves(e->k[0]) && leaves(e->k[1]);
			return e->kind == K::Eq && congruent(e->k[0], e->k[1], pairs);
		};
		bool cong = leaves(cond->k[0]);
		std::sort(pairs.begin(), pairs.end(), [](auto& x, auto& y){ return std::make_pair(x.first->id, x.second->id) < std::make_pair(y.first->id, y.second->id); });
		pairs.erase(std::unique(pairs.begin(), pairs.end()), pairs.end());
		if(cong && pairs.size() <= 12){
			bool all = true;
			for(auto& p : pairs){
				ModelP dummy;
				if(check(cs, mkNot(mkBin(K::Eq, p.first, p.second)), base, dummy) != Res::Unsat){ all = false; break; }
			}
			if(all){
				++st.congruent;
				cache.emplace(key, std::make_pair(Res::Unsat, asg));
				return Res::Unsat;
			}
		}
	}
	Res r = callSolver(q, asg);
	if(r == Res::Sat){
		mkModel(asg);
		// validate the model against the expressions (guards the translation)
		for(E e : q) if(!evalExpr(e, *out)){
			bool fp = false; for(E x : q) fp |= x->fp;
			if(!fp){ fprintf(stderr, "MODEL MISMATCH: %s\n", exprToString(e, 8).c_str()); }
			r = Res::Unknown; ++st.unknown; --st.sat;
			break;
		}
	}
	cache.emplace(key, std::make_pair(r, asg));
	return r;
}
