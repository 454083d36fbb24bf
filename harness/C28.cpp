// C28: numeric helpers
#include "vp.h"
#include <utki/math.hpp>
#include <cmath>
namespace {
template <class T> void sign_int(){
	T n = vp_sym<T>("n");
	T r = utki::sign(n);
	bool neg = std::is_signed_v<T> && ((uint64_t(n) >> (sizeof(T) * 8 - 1)) & 1);
	vp_assert(r == (neg ? T(-1) : T(1)), "minus one for negative numbers, one otherwise");
	vp_observe_val("r", r);
}
template <class T, class B> void sign_float(){
	B bits = vp_sym<B>("bits");
	T n;
	memcpy(&n, &bits, sizeof(n));
	T r = utki::sign(n);
	// negative: sign bit set, not zero, not a NaN
	B mag = B(bits << 1);
	B inf = sizeof(T) == 4 ? B(0xff000000u) : B(0xffe0000000000000u);
	bool neg = ((bits >> (sizeof(B) * 8 - 1)) != 0) & (mag != 0) & (mag <= inf);
	B rb, one = sizeof(T) == 4 ? B(0x3f800000u) : B(0x3ff0000000000000u);
	memcpy(&rb, &r, sizeof(r));
	vp_assert(rb == (one | (B(neg) << (sizeof(B) * 8 - 1))), "minus one for negative numbers, one otherwise");
	vp_observe_val("rb", rb);
}
// modulo 2^n
template <class T> void pow_unsigned(){
	T x = vp_sym<T>("x");
	T p = x;
	vp_assert(utki::pow2(x) == (p = T(p * x)), "x^2");
	vp_assert(utki::pow3(x) == (p = T(p * x)), "x^3");
	vp_assert(utki::pow4(x) == (p = T(p * x)), "x^4");
	vp_assert(utki::pow5(x) == (p = T(p * x)), "x^5");
	vp_assert(utki::pow6(x) == (p = T(p * x)), "x^6");
	vp_observe_val("p", p);
}
// 8 bits are computed with in int: as long as the exact power fits an int
void pow_u8(){
	uint8_t x = vp_sym<uint8_t>("x");
	uint8_t x4 = x <= 215 ? x : uint8_t(x & 127), x5 = x <= 73 ? x : uint8_t(x & 63), x6 = x <= 35 ? x : uint8_t(x & 31);
	vp_assert(utki::pow2(x) == uint8_t(x * x), "x^2");
	vp_assert(utki::pow3(x) == uint8_t(x * x * x), "x^3");
	vp_assert(utki::pow4(x4) == uint8_t(unsigned(x4) * x4 * x4 * x4), "x^4");
	vp_assert(utki::pow5(x5) == uint8_t(unsigned(x5) * x5 * x5 * x5 * x5), "x^5");
	vp_assert(utki::pow6(x6) == uint8_t(unsigned(x6) * x6 * x6 * x6 * x6 * x6), "x^6");
	vp_observe_val("x", x);
}
// signed: as long as the product is representable
template <class T> void pow_signed(int bits){
	T x = vp_sym<T>("x");
	T lim = T(T(1) << bits);
	vp_assume((x >= -lim) & (x <= lim));
	using U = std::make_unsigned_t<T>;
	U p = U(x);
	vp_assert(U(utki::pow2(x)) == (p = U(p * U(x))), "x^2");
	vp_assert(U(utki::pow3(x)) == (p = U(p * U(x))), "x^3");
	vp_assert(U(utki::pow4(x)) == (p = U(p * U(x))), "x^4");
	vp_assert(U(utki::pow5(x)) == (p = U(p * U(x))), "x^5");
	vp_assert(U(utki::pow6(x)) == (p = U(p * U(x))), "x^6");
	vp_observe_val("p", p);
}
void pow_small_signed(){ // the result of one product fits even for the smallest type
	int8_t x = vp_sym<int8_t>("x");
	vp_assume((x >= -11) & (x <= 11));
	vp_assert(utki::pow2(x) == x * x, "x^2");
	if((x >= -5) & (x <= 5)) vp_assert(utki::pow3(x) == x * x * x, "x^3");
	if((x >= -3) & (x <= 3)) vp_assert(utki::pow4(x) == x * x * x * x, "x^4");
	if((x >= -2) & (x <= 2)) vp_assert(utki::pow5(x) == x * x * x * x * x && utki::pow6(x) == x * x * x * x * x * x, "x^5, x^6");
	vp_observe_val("x", x);
}
// floating point: exact whenever the product is exactly representable
template <class T> void pow_float(int range){
	int16_t m = vp_sym<int16_t>("m");
	vp_assume((m >= -range) & (m <= range));
	T x = T(m);
	int64_t p = m;
	p *= m; vp_assert(utki::pow2(x) == T(p), "x^2");
	p *= m; vp_assert(utki::pow3(x) == T(p), "x^3");
	p *= m; vp_assert(utki::pow4(x) == T(p), "x^4");
	p *= m; vp_assert(utki::pow5(x) == T(p), "x^5");
	p *= m; vp_assert(utki::pow6(x) == T(p), "x^6");
	vp_observe_val("p", p);
}
// angles: error of the conversion relative to the exact value at most a few units in the last place
template <class T> void angle(bool to_rad){
	int8_t k = vp_sym<int8_t>("m");
	const double scales[] = {1, 0.25, 3, 0x1p40};
	double sc = scales[vp_choice(sizeof(T) == 4 || VP_TIER ? 4 : 2, "scale")];
	T x = T(k) * T(sc);
	T r = to_rad ? utki::deg_to_rad(x) : utki::rad_to_deg(x);
	// 2^-20 resp. 2^-49 relative tolerance: eight units in the last place
	double f = to_rad ? 0.017453292519943295769 : 57.295779513082320877;
	double want = double(k) * sc * f;
	double tol = sizeof(T) == 4 ? 0x1p-20 : 0x1p-49;
	double d = double(r) - want;
	if(d < 0) d = -d;
	double w = want < 0 ? -want : want;
	vp_assert(d <= w * tol, "the linear map, up to rounding");
	vp_observe_val("r", r);
}
}
VP_ENTRY(c28_sign_i8){ sign_int<int8_t>(); }
VP_ENTRY(c28_sign_i16){ sign_int<int16_t>(); }
VP_ENTRY(c28_sign_i32){ sign_int<int32_t>(); }
VP_ENTRY(c28_sign_i64){ sign_int<int64_t>(); }
VP_ENTRY(c28_sign_u8){ sign_int<uint8_t>(); }
VP_ENTRY(c28_sign_u64){ sign_int<uint64_t>(); }
VP_ENTRY(c28_sign_float){ sign_float<float, uint32_t>(); }
VP_ENTRY(c28_sign_double){ sign_float<double, uint64_t>(); }
VP_ENTRY(c28_pow_u8){ pow_u8(); }
VP_ENTRY(c28_pow_u32){ pow_unsigned<uint32_t>(); }
VP_ENTRY(c28_pow_u64){ pow_unsigned<uint64_t>(); }
VP_ENTRY(c28_pow_i8){ pow_small_signed(); }
VP_ENTRY(c28_pow_i32){ pow_signed<int32_t>(5); }
VP_ENTRY(c28_pow_i64){ pow_signed<int64_t>(VP_BOUND(6, 10)); }
VP_ENTRY(c28_pow_float){ pow_float<float>(15); }
VP_ENTRY(c28_pow_double){ pow_float<double>(VP_BOUND(31, 127)); }
VP_ENTRY(c28_rad_float){ angle<float>(true); }
VP_ENTRY(c28_deg_float){ angle<float>(false); }
VP_ENTRY(c28_rad_double){ angle<double>(true); }
VP_ENTRY(c28_deg_double){ angle<double>(false); }
