// C11: flag sets
#include "vp.h"
#include <utki/flags.hpp>
#include <sstream>
enum class e1 { a, enum_size };
enum class e5 { a, b, c, d, e, enum_size };
enum class e8 : uint8_t { a, enum_size = 8 };
enum class e64 : unsigned { a, enum_size = 64 };
enum class e70 { a, enum_size = 70 };
enum class e130 : int64_t { a, enum_size = 130 };
enum class e32 : uint32_t { a, enum_size = 32 };
enum class e63 : int8_t { a, enum_size = 63 };
enum class e128 : uint8_t { a, enum_size = 128 };
enum class e300 : uint16_t { a, enum_size = 300 };
namespace {
template <class En> constexpr size_t N = size_t(En::enum_size);
template <class En> struct model { // the mathematical set
	static constexpr int W = N<En> > 192 ? int((N<En> + 63) / 64) : 3;
	uint64_t w[W];
	bool has(size_t i) const { return (w[i / 64] >> (i % 64)) & 1; }
	static uint64_t mask(size_t k){ size_t lo = k * 64; return N<En> <= lo ? 0 : N<En> - lo >= 64 ? ~uint64_t(0) : (uint64_t(1) << (N<En> - lo)) - 1; }
	static model any(const char* name){ model m; vp_sym_bytes(m.w, sizeof m.w, name); for(int k = 0; k < W; ++k) m.w[k] &= mask(k); return m; }
	static model one(uint64_t i){ model m; for(int k = 0; k < W; ++k) m.w[k] = uint64_t(i / 64 == uint64_t(k)) << (i % 64); return m; }
	static model full(bool v){ model m; for(int k = 0; k < W; ++k) m.w[k] = v ? mask(k) : 0; return m; }
	model op(const model& o, int what) const { model m; for(int k = 0; k < W; ++k) m.w[k] = what == 0 ? w[k] & o.w[k] : what == 1 ? w[k] | o.w[k] : w[k] ^ o.w[k]; return m; }
	model inv() const { model m; for(int k = 0; k < W; ++k) m.w[k] = ~w[k] & mask(k); return m; }
	model put(const model& o, bool v) const { model m; for(int k = 0; k < W; ++k) m.w[k] = (w[k] & ~o.w[k]) | (o.w[k] & (uint64_t(0) - uint64_t(v))); return m; }
	bool same(const model& o) const { bool r = true; for(int k = 0; k < W; ++k) r &= w[k] == o.w[k]; return r; }
};
template <class En> utki::flags<En> make(const model<En>& m){
	utki::flags<En> f;
	for(size_t i = 0; i < N<En>; ++i) f.set(En(i), m.has(i));
	return f;
}
template <class En> void same(const utki::flags<En>& f, const model<En>& m, const char* what){
	bool ok = true, ok2 = true, all = true, none = true;
	for(size_t i = 0; i < N<En>; ++i){
		ok &= f.get(En(i)) == m.has(i);
		ok2 &= f[En(i)] == m.has(i);
		all &= m.has(i);
		none &= !m.has(i);
	}
	vp_assert(ok, what);
	vp_assert(ok2, "reading by subscript agrees");
	vp_assert(f.is_set() == all, "is_set() exactly when all flags are set");
	vp_assert(f.is_clear() == none, "is_clear() exactly when no flag is set");
	vp_assert(f.size() == N<En>, "size is the number of items");
}
enum { set_one, set_val, set_all, clear_one, clear_all, invert, compl_, and_, or_, xor_, and_as, or_as, xor_as, or_enum, subscript, flip_sub, num_ops };
template <class En> model<En> step(utki::flags<En>& f, const model<En>& m, unsigned op){
	using F = utki::flags<En>;
	using M = model<En>;
	uint64_t i = 0;
	M one{};
	bool v = false;
	if(op == set_one || op == set_val || op == clear_one || op == or_enum || op == subscript || op == flip_sub){
		i = vp_sym<uint16_t>("item");
		vp_assume(i < N<En>);
		one = M::one(i);
	}
	if(op == set_val || op == set_all || op == subscript) v = vp_sym<uint8_t>("value") & 1;
	En e = En(i);
	F* ret = &f;
	M r = m;
	switch(op){
	case set_one: ret = &f.set(e); r = m.put(one, true); break;
	case set_val: ret = &f.set(e, v); r = m.put(one, v); break;
	case set_all: ret = &f.set(v); r = M::full(v); break;
	case clear_one: ret = &f.clear(e); r = m.put(one, false); break;
	case clear_all: ret = &f.clear(); r = M::full(false); break;
	case invert: ret = &f.invert(); r = m.inv(); break;
	case compl_: { F g = ~f; same(f, m, "operator~ leaves the operand"); same(g, m.inv(), "operator~"); f = g; r = m.inv(); break; }
	case and_: case or_: case xor_: case and_as: case or_as: case xor_as: {
		M o = M::any("other");
		F g = make(o);
		int w = int(op >= and_as ? op - and_as : op - and_);
		r = m.op(o, w);
		if(op < and_as){
			F h = w == 0 ? f & g : w == 1 ? f | g : f ^ g;
			same(f, m, "a binary operator leaves its left operand");
			same(h, r, "a binary operator");
			f = h;
		} else ret = w == 0 ? &(f &= g) : w == 1 ? &(f |= g) : &(f ^= g);
		same(g, o, "the right operand is left alone");
		break;
	}
	case or_enum: { F g = f | e; same(f, m, "operator| leaves its operand"); f = g; r = m.put(one, true); break; }
	case subscript: f[e] = v; r = m.put(one, v); break;
	default: f[e].flip(); r = m.op(one, 2); break;
	}
	vp_assert(ret == &f, "returns itself");
	same(f, r, "exactly the stated flags change");
	return r;
}
template <class En> void history(unsigned ops){
	auto m = model<En>::any("initial");
	auto f = make(m);
	same(f, m, "made flag by flag");
	for(unsigned k = 0; k < ops; ++k) m = step(f, m, unsigned(vp_choice(num_ops, "op")));
	// comparison with any other set
	auto o = model<En>::any("compared");
	auto g = make(o);
	bool eq = f == g, ne = f != g;
	vp_assert(eq == m.same(o), "equal exactly when the same flags are set");
	vp_assert(ne == !m.same(o), "unequal exactly when some flag differs");
	vp_observe_val("eq", eq);
	vp_observe("set", m.w, sizeof m.w);
	auto c = f;
	vp_assert(c == f && !(c != f), "a copy is equal");
}
template <class En> void construct(){
	using F = utki::flags<En>;
	using M = model<En>;
	same(F(), M::full(false), "default is empty");
	same(F(false), M::full(false), "initially false");
	same(F(true), M::full(true), "initially true");
	uint64_t i = vp_sym<uint16_t>("i"), j = vp_sym<uint16_t>("j"), k = vp_sym<uint16_t>("k");
	vp_assume(i < N<En>);
	vp_assume(j < N<En>);
	vp_assume(k < N<En>);
	same(F(En(i)), M::one(i), "single flag");
	same(F({En(i), En(j), En(k)}), M::one(i).op(M::one(j), 1).op(M::one(k), 1), "list of flags");
	same(utki::make_flags({En(i), En(j)}), M::one(i).op(M::one(j), 1), "make_flags");
	same(F(En(i) | En(j)), M::one(i).op(M::one(j), 1), "items or-ed together");
	same(En(i) | En(j) | En(k), M::one(i).op(M::one(j), 1).op(M::one(k), 1), "items or-ed together");
	vp_observe_val("i", i);
}
template <class En> void print(){
	auto m = model<En>::any("set");
	auto f = make(m);
	std::stringstream ss;
	ss << f;
	std::string s = ss.str();
	vp_assert(s.size() == N<En>, "one character per flag");
	bool ok = true;
	for(size_t i = 0; i < N<En> && i < s.size(); ++i) ok &= s[N<En> - 1 - i] == char('0' + m.has(i));
	vp_assert(ok, "every flag's value is printed");
	vp_observe("s", s.data(), s.size());
}
}
VP_ENTRY(c11_hist_1){ history<e1>(VP_BOUND(2, 3)); }
VP_ENTRY(c11_hist_5){ history<e5>(VP_BOUND(2, 3)); }
VP_ENTRY(c11_hist_64){ history<e64>(VP_BOUND(1, 2)); }
VP_ENTRY(c11_hist_70){ history<e70>(VP_BOUND(1, 2)); }
VP_ENTRY(c11_hist_130){ history<e130>(VP_BOUND(1, 2)); }
VP_ENTRY(c11_construct_5){ construct<e5>(); }
VP_ENTRY(c11_construct_64){ construct<e64>(); }
VP_ENTRY(c11_construct_70){ construct<e70>(); }
VP_ENTRY(c11_construct_130){ construct<e130>(); }
VP_ENTRY(c11_print_5){ print<e5>(); }
VP_ENTRY(c11_print_8){ print<e8>(); }
VP_ENTRY(c11_construct_32){ construct<e32>(); }
VP_ENTRY(c11_construct_63){ construct<e63>(); }
VP_ENTRY(c11_construct_128){ if(VP_TIER) construct<e128>(); }
VP_ENTRY(c11_construct_300){ if(VP_TIER) construct<e300>(); }
VP_ENTRY(c11_hist_32){ history<e32>(1); }
VP_ENTRY(c11_hist_63){ history<e63>(1); }
VP_ENTRY(c11_hist_128){ if(VP_TIER) history<e128>(1); }
VP_ENTRY(c11_hist_300){ if(VP_TIER) history<e300>(1); }
