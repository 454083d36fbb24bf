// C29: parsing of floating-point numbers
#include "vp.h"
#include <utki/string.hpp>
#include <array>
#include <stdexcept>
namespace {
bool is(bool c){ return vp_concretize(c) != 0; } // decides a condition on this path

template <class F> struct fmt_of;
template <> struct fmt_of<double> { using U = uint64_t; static constexpr int mant = 52, emax = 0x7ff, bias = 1075, fast = 22; };
template <> struct fmt_of<float> { using U = uint32_t; static constexpr int mant = 23, emax = 0xff, bias = 150, fast = 10; };

// what a text starts with, written from the description of the formats
struct number {
	bool valid = false, neg = false, inf = false, nan = false;
	size_t end = 0;
	unsigned __int128 digits = 0; // value = digits * 10^exp
	int exp = 0;
	bool more = false; // plus something less than one unit of the last digit
};
bool many_digits = false; // texts of many digits, most of them zero
bool quick_exponents = false; // only a selection of exponents
bool letter(char c, char low){ return (c == low) | (c == low - 32); }
bool word(const char* p, size_t n, const char* w){
	size_t k = std::strlen(w);
	if(n < k) return false;
	for(size_t i = 0; i < k; ++i) if(!is(letter(p[i], w[i]))) return false;
	return true;
}
number parse(char* p, size_t n, utki::chars_format f){
	number r;
	size_t i = 0;
	if(n == 0) return r;
	if(is(p[0] == '-')){ r.neg = true; i = 1; }
	auto digit = [&](size_t k){ return is((p[k] >= '0') & (p[k] <= '9')); };
	size_t s = i, digits = 0;
	size_t zeros = 0, kept = 0; // with many digits: zeros which are not in r.digits yet, digits which are
	auto add = [&](size_t k, bool fraction){
		if(!many_digits){
			r.digits = r.digits * 10 + static_cast<unsigned char>(p[k] - '0');
			if(fraction) --r.exp;
			return;
		}
		if(is(p[k] == '0')){ if(kept || r.more){ ++zeros; if(fraction) --r.exp; } else if(fraction) --r.exp; return; }
		if(fraction) --r.exp;
		if(r.more || kept + zeros + 1 > 30){
			r.more = true;
			++zeros; // this position is left out
			return;
		}
		for(; zeros; --zeros, ++kept) r.digits *= 10;
		r.digits = r.digits * 10 + static_cast<unsigned char>(p[k] - '0');
		++kept;
	};
	for(; i < n && digit(i); ++i, ++digits) add(i, false);
	if(i < n && is(p[i] == '.')){
		size_t k = i + 1;
		for(; k < n && digit(k); ++k, ++digits) add(k, true);
		i = k;
	}
	if(many_digits) r.exp += int(zeros); // positions left out at the end
	if(digits == 0){ // no digits: infinity or not a number
		r.exp = 0;
		if(word(p + s, n - s, "infinity")){ r.valid = r.inf = true; r.end = s + 8; }
		else if(word(p + s, n - s, "inf")){ r.valid = r.inf = true; r.end = s + 3; }
		else if(word(p + s, n - s, "nan")){
			r.valid = r.nan = true;
			r.end = s + 3;
			if(r.end < n && is(p[r.end] == '(')){
				for(size_t k = r.end + 1; k < n; ++k){
					char c = p[k];
					if(is(c == ')')){ r.end = k + 1; break; }
					if(!is(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_'))) break;
				}
			}
		}
		return r;
	}
	bool have_exp = false;
	if(f != utki::chars_format::fixed && i < n && is((p[i] == 'e') | (p[i] == 'E'))){
		size_t k = i + 1;
		bool en = false;
		if(k < n){
			if(is(p[k] == '-')){ en = true; ++k; }
			else if(is(p[k] == '+')) ++k;
		}
		int e = 0;
		size_t es = k;
		for(; k < n && digit(k); ++k){
			p[k] = char(vp_concretize(static_cast<unsigned char>(p[k]))); // one path per exponent
			if(e < 100000000) e = e * 10 + (p[k] - '0');
		}
		if(quick_exponents) vp_assume(e < 13 || e == 22 || e == 23 || e == 38 || e == 39 || e == 45 || e == 46 || e == 60 || e == 99);
		if(k != es){ have_exp = true; i = k; r.exp += en ? -e : e; }
	}
	if(f == utki::chars_format::scientific && !have_exp) return r; // the exponent is mandatory (and there are digits, so no inf or nan)
	r.valid = true;
	r.end = i;
	return r;
}

// natural numbers of up to 40 * 32 bits
struct big {
	static constexpr int N = 44;
	std::array<uint32_t, N> w{};
	explicit big(unsigned __int128 v){ for(int i = 0; i < 4; ++i){ w[size_t(i)] = uint32_t(v); v >>= 32; } }
	void mul(uint32_t k){
		uint64_t c = 0;
		for(auto& x : w){ c += uint64_t(x) * k; x = uint32_t(c); c >>= 32; }
	}
	void mul10(int n){
		for(; n >= 9; n -= 9) mul(1000000000);
		for(; n > 0; --n) mul(10);
	}
	void shl(int n){
		int q = n / 32, r = n % 32;
		for(int i = N - 1; i >= 0; --i){
			uint32_t x = i - q >= 0 ? w[size_t(i - q)] : 0, y = i - q - 1 >= 0 ? w[size_t(i - q - 1)] : 0;
			w[size_t(i)] = r ? (x << r) | (y >> (32 - r)) : x;
		}
	}
};
big times(unsigned __int128 v, int e10, int e2){ // v * 10^e10 * 2^e2: first the constant, then one multiplication by each piece of v
	big c(1);
	c.mul10(e10);
	c.shl(e2);
	big r(0);
	for(int k = 0; k < 4; ++k){
		uint32_t f = uint32_t(v >> (32 * k));
		uint64_t cy = 0;
		for(int i = k; i < big::N; ++i){
			uint64_t t = uint64_t(c.w[size_t(i - k)]) * f + r.w[size_t(i)] + cy; // < 2^64
			r.w[size_t(i)] = uint32_t(t);
			cy = t >> 32;
		}
	}
	return r;
}
// -1, 0, 1 without branching
struct order { bool less, equal; };
order compare(const big& a, const big& b){
	bool lt = false, eq = true;
	for(int i = big::N - 1; i >= 0; --i){
		lt = lt | (eq & (a.w[size_t(i)] < b.w[size_t(i)]));
		eq = eq & (a.w[size_t(i)] == b.w[size_t(i)]);
	}
	return {lt, eq};
}
const double pow10d[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};

// is v with error code ec right for r.digits * 10^r.exp?
template <class F> void check_value(F v, std::errc ec, const number& r){
	using T = fmt_of<F>;
	typename T::U bits;
	std::memcpy(&bits, &v, sizeof(bits));
	if(r.nan){
		vp_assert(ec == std::errc() && v != v, "not a number");
		return;
	}
	if(!r.inf && !r.more && r.exp >= -T::fast && r.exp <= T::fast && is(r.digits <= (uint64_t(1) << (T::mant + 1)))){
		// the digits and the power of ten are exact in the type, so one division or multiplication rounds correctly
		F d = F(uint64_t(r.digits)), p = F(pow10d[r.exp < 0 ? -r.exp : r.exp]);
		F w = r.exp < 0 ? d / p : d * p;
		if(r.neg) w = -w;
		typename T::U wb;
		std::memcpy(&wb, &w, sizeof(wb));
		vp_assert(ec == std::errc(), "a number in range");
		vp_assert(bits == wb, "the nearest value");
		return;
	}
	vp_assert((bits >> (sizeof(bits) * 8 - 1)) == typename T::U(r.neg), "the sign");
	typename T::U mag = typename T::U(bits << 1) >> 1;
	const typename T::U inf = typename T::U(T::emax) << T::mant;
	if(r.inf){
		vp_assert(ec == std::errc() && mag == inf, "infinity");
		return;
	}
	if(is(r.digits == 0)){
		vp_assert(ec == std::errc() && mag == 0, "zero");
		return;
	}
	unsigned ex = unsigned(vp_concretize(mag >> T::mant));
	typename T::U fr = mag & ((typename T::U(1) << T::mant) - 1);
	if(r.exp > 340 || r.exp < -400){ // digits are between 1 and 10^38: beyond any range (the texts used here have less than 39 digits)
		vp_assert(ec == std::errc::result_out_of_range, "out of range");
		vp_assert(mag == (r.exp > 0 ? inf : 0), "the limit value");
		return;
	}
	int e10 = r.exp;
	// x compared with K * 2^e: both multiplied to be natural
	auto cmp = [&](unsigned __int128 k, int e){
		big a = times(r.digits, e10 > 0 ? e10 : 0, e < 0 ? -e : 0);
		big b = times(k, e10 < 0 ? -e10 : 0, e > 0 ? e : 0);
		order o = compare(a, b);
		if(r.more) o.equal = false; // above the truncated number, which no boundary follows within a unit
		return o;
	};
	if(ex == unsigned(T::emax)){
		vp_assert(fr == 0 && ec == std::errc::result_out_of_range, "too big: infinity and an error");
		order o = cmp((uint64_t(4) << T::mant) - 1, T::emax - 1 - T::bias - 1); // max + half of its unit
		vp_assert(!o.less, "too big indeed");
		return;
	}
	uint64_t m = ex ? (uint64_t(1) << T::mant) | fr : uint64_t(fr);
	int e = ex ? int(ex) - T::bias : 1 - T::bias;
	bool even = (m & 1) == 0;
	order up = cmp(2 * m + 1, e - 1);
	vp_assert(up.less | (up.equal & even), "not above the middle to the next value");
	bool border = ex > 1 && is(fr == 0); // the lower neighbour is nearer
	if(is(m != 0)){
		order lo = border ? cmp(4 * m - 1, e - 2) : cmp(2 * m - 1, e - 1);
		vp_assert((!lo.less & !lo.equal) | (lo.equal & even), "not below the middle to the previous value");
		vp_assert(ec == std::errc(), "a number in range");
	} else vp_assert(ec == std::errc::result_out_of_range, "too small: zero and an error");
}
template <class F> F marker();
template <> double marker(){ uint64_t b = 0x7ff123456789abcd; double d; std::memcpy(&d, &b, 8); return d; }
template <> float marker(){ uint32_t b = 0x7fa12345; float d; std::memcpy(&d, &b, 4); return d; }
template <class F> bool same_bits(const F& a, const F& b){ return std::memcmp(&a, &b, sizeof(F)) == 0; }

const utki::chars_format formats[] = {utki::chars_format::general, utki::chars_format::scientific, utki::chars_format::fixed};

template <class F> void run(char* p, size_t n, utki::chars_format f, bool dflt = false){
	number want = parse(p, n, f);
	const F init = F(12345.5);
	F v = init;
	auto r = dflt ? utki::from_chars(p, p + n, v) : utki::from_chars(p, p + n, v, f);
	size_t end = vp_concretize(size_t(r.ptr - p));
	vp_assert(end <= n, "the address is inside of the text");
	if(!want.valid){
		vp_assert(r.ec == std::errc::invalid_argument, "no number: invalid argument");
		vp_assert(end == 0, "no number: the address is the start");
		vp_assert(same_bits(v, init), "no number: the value is untouched");
		vp_reach("no number");
		return;
	}
	vp_assert(end == want.end, "the address after the number");
	vp_assert(r.ec != std::errc::invalid_argument, "there is a number");
	check_value(v, r.ec, want);
	vp_observe("v", &v, sizeof(v));
	vp_reach("number");
}
// the long double form against the double form
void run_long(char* p, size_t n, utki::chars_format f){
	parse(p, n, f); // settles the exponent
	const double init = 12345.5;
	double d = init;
	long double l = init;
	auto r = utki::from_chars(p, p + n, d, f);
	auto s = utki::from_chars(p, p + n, l, f);
	vp_assert(r.ptr == s.ptr, "long double: the same address");
	vp_assert(r.ec == s.ec, "long double: the same error");
	if(r.ec == std::errc::invalid_argument) vp_assert(l == init, "long double: untouched");
	else if(r.ec == std::errc()){
		long double w = d;
		vp_assert(std::memcmp(&w, &l, 10) == 0, "long double: the same value");
	}
	vp_reach("long double");
}
struct text { // a text in an exact-size buffer
	vp_buf<char> b;
	text(size_t n) : b(n, "text") {}
};
}
namespace {
template <class F> void any_text(utki::chars_format f, size_t max){
	quick_exponents = VP_TIER == 0;
	size_t n = vp_choice(max + 1, "n");
	vp_buf<char> b(n, "text");
	run<F>(b.p, n, f);
}
}
VP_ENTRY(c29_double_general){ any_text<double>(utki::chars_format::general, VP_BOUND(4, 5)); }
VP_ENTRY(c29_double_scientific){ any_text<double>(utki::chars_format::scientific, VP_BOUND(4, 5)); }
VP_ENTRY(c29_double_fixed){ any_text<double>(utki::chars_format::fixed, VP_BOUND(4, 5)); }
VP_ENTRY(c29_float_general){ any_text<float>(utki::chars_format::general, VP_BOUND(4, 5)); }
VP_ENTRY(c29_float_scientific){ any_text<float>(utki::chars_format::scientific, VP_BOUND(4, 5)); }
VP_ENTRY(c29_float_fixed){ any_text<float>(utki::chars_format::fixed, VP_BOUND(4, 5)); }
VP_ENTRY(c29_long){
	size_t n = vp_choice(VP_BOUND(5, 6), "n");
	vp_buf<char> b(n, "text");
	run_long(b.p, n, formats[vp_choice(3, "format")]);
}
VP_ENTRY(c29_default_format){
	size_t n = vp_choice(VP_BOUND(4, 5), "n");
	vp_buf<char> b(n, "text");
	if(vp_choice(2, "type")) run<double>(b.p, n, utki::chars_format::general, true);
	else run<float>(b.p, n, utki::chars_format::general, true);
}

namespace {
// '?': an arbitrary digit, '*': an arbitrary character, others: themselves; with an optional minus
template <class F> void pattern(const char* t, utki::chars_format f, bool minus, unsigned max = 100){
	size_t k = std::strlen(t), n = k + minus;
	vp_buf<char> b(n);
	if(minus) b[0] = '-';
	for(size_t i = 0; i < k; ++i){
		char& c = b[i + minus];
		c = t[i];
		if(t[i] == '?' && max == 0) c = '7';
		else if(t[i] == '?'){ --max; c = vp_sym<char>("digit"); vp_assume(c >= '0' && c <= '9'); }
		else if(t[i] == '*') c = vp_sym<char>("char");
	}
	run<F>(b.p, n, f);
}
template <class F, size_t N> void patterns(const char* const (&t)[N], unsigned max = 100){
	size_t i = vp_choice(N, "pattern");
	pattern<F>(t[i], utki::chars_format::general, i % 3 == 1, max);
}
}
VP_ENTRY(c29_double_exponents_1){
	static const char* const t[] = {"?.?e22", "?.?e23", "?.?e24"};
	patterns<double>(t, VP_BOUND(1, 100));
}
VP_ENTRY(c29_double_exponents_2){
	static const char* const t[] = {"?e-22", "?e-23", "?.?e-24"};
	patterns<double>(t, VP_BOUND(1, 100));
}
VP_ENTRY(c29_double_exponents_3){
	static const char* const t[] = {"??e55", "??e-60", "?e155"};
	patterns<double>(t, VP_BOUND(1, 100));
}
VP_ENTRY(c29_double_exponents_4){
	static const char* const t[] = {"?e-200", "?.?e307", "?.?e308"};
	patterns<double>(t, VP_BOUND(1, 100));
}
VP_ENTRY(c29_double_exponents_5){
	static const char* const t[] = {"?.?e309", "?e310", "?e-307"};
	patterns<double>(t, VP_BOUND(1, 100));
}
VP_ENTRY(c29_double_exponents_6){
	static const char* const t[] = {"?.?e-308", "?.?e-309", "?.?e-322"};
	patterns<double>(t, VP_BOUND(1, 100));
}
VP_ENTRY(c29_double_exponents_7){
	static const char* const t[] = {"?.?e-323", "?.?e-324", "?e-325"};
	patterns<double>(t, VP_BOUND(1, 100));
}
VP_ENTRY(c29_double_exponents_8){
	static const char* const t[] = {"?e-342", "?e-343", "?e999"};
	patterns<double>(t, VP_BOUND(1, 100));
}
VP_ENTRY(c29_double_exponents_9){
	static const char* const t[] = {"?e-999", "?e99999", "?e-99999"};
	patterns<double>(t, VP_BOUND(1, 100));
}
VP_ENTRY(c29_double_exponents_10){
	static const char* const t[] = {"?e99999999999999999999", "?e-99999999999999999999", "0.?e1"};
	patterns<double>(t, VP_BOUND(1, 100));
}
VP_ENTRY(c29_double_exponents_11){
	static const char* const t[] = {"?.e+0012", "000?e-0005", "0e?9"};
	patterns<double>(t, VP_BOUND(1, 100));
}
VP_ENTRY(c29_double_exponents_12){
	static const char* const t[] = {"0.0e-9?9"};
	patterns<double>(t, VP_BOUND(1, 100));
}
VP_ENTRY(c29_double_digits_a_1){
	static const char* const t[] = {"9007199254740??3"};
	patterns<double>(t);
}
VP_ENTRY(c29_double_digits_a_2){
	static const char* const t[] = {"900719925474099?"};
	patterns<double>(t);
}
VP_ENTRY(c29_double_digits_a_3){
	static const char* const t[] = {"9007199254740993.0000000000000000000?"};
	patterns<double>(t);
}
VP_ENTRY(c29_double_digits_a_4){
	static const char* const t[] = {"18014398509481??4"};
	patterns<double>(t, VP_BOUND(1, 100));
}
VP_ENTRY(c29_double_digits_a_5){
	static const char* const t[] = {"1.797693134862315?e308"};
	patterns<double>(t, VP_BOUND(1, 100));
}
VP_ENTRY(c29_double_digits_a_6){
	static const char* const t[] = {"1.7976931348623158??e308"};
	patterns<double>(t, VP_BOUND(1, 100));
}
VP_ENTRY(c29_double_digits_a_7){
	static const char* const t[] = {"2.2250738585072011?e-308"};
	patterns<double>(t, VP_BOUND(1, 100));
}
VP_ENTRY(c29_double_digits_a_8){
	static const char* const t[] = {"2.2250738585072014?e-308"};
	patterns<double>(t, VP_BOUND(1, 100));
}
VP_ENTRY(c29_double_digits_a_9){
	static const char* const t[] = {"2.225073858507201?5e-308"};
	patterns<double>(t, VP_BOUND(1, 100));
}
VP_ENTRY(c29_double_digits_b_1){
	static const char* const t[] = {"4.9406564584124654?e-324", "2.4703282292062327?e-324", "2.4703282292062327208?e-324"};
	patterns<double>(t);
}
VP_ENTRY(c29_double_digits_b_2){
	static const char* const t[] = {"7.410984687618698162?e-324", "1?34567890123456789", "1?345678901234567890"};
	patterns<double>(t);
}
VP_ENTRY(c29_double_digits_b_3){
	static const char* const t[] = {"184467440737095516??", "1234567890123456789012?45", "0.000000000000000000000000?5"};
	patterns<double>(t);
}
VP_ENTRY(c29_double_digits_c_1){
	static const char* const t[] = {"1.000000000000000111022302462515654?2", "1.00000000000000011102230246251565404?", "1.00000000000000033306690738754696?", "8.9255e-2?", "6.?2214076e23"};
	patterns<double>(t);
}
VP_ENTRY(c29_double_digits_c_2){
	static const char* const t[] = {"1.6?2176634e-19", "0.1234?678", "0.?2?45678", "123.?2345?78", "123.1?34567?"};
	patterns<double>(t);
}
VP_ENTRY(c29_double_digits_c_3){
	static const char* const t[] = {"0.12345678?2345?7?", "0.1234567890?", "0000000000000000000000000000?.5"};
	patterns<double>(t);
}
VP_ENTRY(c29_float_exponents_1){
	static const char* const t[] = {"?.?e10", "?.?e11", "?e-10", "?e-11", "?.?e20", "?e-30"};
	patterns<float>(t, VP_BOUND(1, 100));
}
VP_ENTRY(c29_float_exponents_2){
	static const char* const t[] = {"?.?e37", "?.?e38", "?.?e39", "?e40", "?.?e-37", "?.?e-38"};
	patterns<float>(t, VP_BOUND(1, 100));
}
VP_ENTRY(c29_float_exponents_3){
	static const char* const t[] = {"?.?e-44", "?.?e-45", "?.?e-46", "?e-47", "?e-64", "?e-65"};
	patterns<float>(t, VP_BOUND(1, 100));
}
VP_ENTRY(c29_float_exponents_4){
	static const char* const t[] = {"?e999", "?e-999", "?e99999999999999999999", "?e-99999999999999999999", "?.e+0012", "000?e-0005"};
	patterns<float>(t, VP_BOUND(1, 100));
}
VP_ENTRY(c29_float_exponents_5){
	static const char* const t[] = {"0e?9"};
	patterns<float>(t, VP_BOUND(1, 100));
}
VP_ENTRY(c29_float_digits_1){
	static const char* const t[] = {"1677721?", "1677721?.??"};
	patterns<float>(t);
}
VP_ENTRY(c29_float_digits_2){
	static const char* const t[] = {"33554?33", "33554434.0000000000000000?"};
	patterns<float>(t);
}
VP_ENTRY(c29_float_digits_3){
	static const char* const t[] = {"1.00000005960464477539062?", "1.000000178813934326171875?"};
	patterns<float>(t);
}
VP_ENTRY(c29_float_digits_4){
	static const char* const t[] = {"3.402823?6e38", "3.4028235?7e38"};
	patterns<float>(t);
}
VP_ENTRY(c29_float_digits_5){
	static const char* const t[] = {"3.40282356779733?e38", "1.1754943?e-38"};
	patterns<float>(t);
}
VP_ENTRY(c29_float_digits_6){
	static const char* const t[] = {"1.17549435?e-38", "7.0064923216240853?e-46"};
	patterns<float>(t);
}
VP_ENTRY(c29_float_digits_7){
	static const char* const t[] = {"7.00649232162408535461864791?e-46", "1?34567890123456789"};
	patterns<float>(t);
}
VP_ENTRY(c29_float_digits_8){
	static const char* const t[] = {"0.?2?45678", "0.1234567890?"};
	patterns<float>(t);
}
VP_ENTRY(c29_float_digits_9){
	static const char* const t[] = {"8.???e9"};
	patterns<float>(t);
}
VP_ENTRY(c29_long_digits){
	static const char* const t[] = {"900719925474099?", "1.797693134862315?e308", "?e309", "?e-325", "?.?e22", "?e-200", "0.1234?678", "-?.5*"};
	const char* p = t[vp_choice(sizeof(t) / sizeof(t[0]), "pattern")];
	size_t n = std::strlen(p);
	vp_buf<char> b(n);
	for(size_t i = 0; i < n; ++i){
		b[i] = p[i];
		if(p[i] == '?'){ b[i] = vp_sym<char>("digit"); vp_assume(b[i] >= '0' && b[i] <= '9'); }
		else if(p[i] == '*') b[i] = vp_sym<char>("char");
	}
	run_long(b.p, n, utki::chars_format::general);
}
// extents: numbers followed by an arbitrary character, an exponent with arbitrary characters
VP_ENTRY(c29_extent){
	static const char* const t[] = {"1.5*", "1e5*", "1.5e+*", "1.5e-*", "1.5e**", "12**", ".*", "-.*", "*.5", "1.**", "1e*", "0x*", "0*1", "00*", "1.5E0*", "*1e1", "1..*", "1e1.*"};
	const char* p = t[vp_choice(sizeof(t) / sizeof(t[0]), "pattern")];
	auto f = formats[vp_choice(3, "format")];
	quick_exponents = true;
	if(vp_choice(2, "type")) pattern<double>(p, f, vp_choice(2, "minus") != 0);
	else pattern<float>(p, f, false);
}
namespace {
// a word in any mix of cases with arbitrary characters in place of '*'
template <class F> void words(){
	static const char* const t[] = {"inf", "inf*", "infinity", "infinit", "infinity*", "in", "*nf", "i*f", "in*", "infinit*", "nan", "nan*", "na", "*an", "n*n", "na*", "nan(", "nan()", "nan(*)", "nan(a*", "nan(ab)*", "nan(*9)", "nan**"};
	const char* p = t[vp_choice(sizeof(t) / sizeof(t[0]), "word")];
	size_t k = std::strlen(p), minus = vp_choice(3, "sign");
	size_t n = k + (minus != 0);
	vp_buf<char> b(n);
	if(minus) b[0] = minus == 1 ? '-' : '+';
	for(size_t i = 0; i < k; ++i){
		char& c = b[i + (minus != 0)];
		if(p[i] == '*') c = vp_sym<char>("char");
		else if(p[i] >= 'a' && p[i] <= 'z') c = char(p[i] - 32 * (vp_sym<uint8_t>("case") & 1));
		else c = p[i];
	}
	run<F>(b.p, n, formats[vp_choice(3, "format")]);
}
}
VP_ENTRY(c29_words_double){ words<double>(); }
VP_ENTRY(c29_words_float){ words<float>(); }
namespace {
template <class F> void read(size_t max){
	size_t n = vp_choice(max + 1, "n");
	vp_buf<char> b(n, "text");
	size_t s = 0;
	while(s < n && is((b[s] == ' ') | ((b[s] >= 9) & (b[s] <= 13)))) ++s;
	quick_exponents = VP_TIER == 0;
	number want = parse(b.p + s, n - s, utki::chars_format::general);
	F ref = 0;
	auto rr = utki::from_chars(b.p + s, b.p + n, ref); // decided by the other entries
	utki::string_parser p(std::string_view(b.p, n));
	F v = 77;
	int o = vp_outcome<std::invalid_argument>([&]{ v = p.template read_number<F>(); });
	if(!want.valid){
		vp_assert(o == 1, "no number: std::invalid_argument");
		return;
	}
	vp_assert(o == 0, "a number is read");
	vp_assert(p.get_view().data() == b.p + s + want.end && p.get_view().size() == n - s - want.end, "consumes exactly the number");
	if(rr.ec == std::errc()) vp_assert(std::memcmp(&v, &ref, sizeof(F) > 8 ? 10 : sizeof(F)) == 0, "the value");
	else vp_assert(v == 0, "zero for numbers out of range");
	vp_reach("read");
}
}
VP_ENTRY(c29_read_double){ read<double>(VP_BOUND(4, 5)); }
VP_ENTRY(c29_read_float){ read<float>(VP_BOUND(4, 5)); }
VP_ENTRY(c29_read_long){ read<long double>(VP_BOUND(4, 5)); }
VP_ENTRY(c29_read_range){
	static const char* const t[] = {"?e309", "?e-325", "-?e400", " \n?e99 ", "?.?e38,", "1e39?"};
	const char* p = t[vp_choice(sizeof(t) / sizeof(t[0]), "pattern")];
	size_t n = std::strlen(p);
	vp_buf<char> b(n);
	for(size_t i = 0; i < n; ++i){
		b[i] = p[i];
		if(p[i] == '?'){ b[i] = vp_sym<char>("digit"); vp_assume(b[i] >= '1' && b[i] <= '9'); }
	}
	utki::string_parser d(std::string_view(b.p, n)), f(std::string_view(b.p, n)), l(std::string_view(b.p, n));
	double vd = d.read_number<double>();
	float vf = f.read_number<float>();
	long double vl = l.read_number<long double>();
	vp_assert(d.get_view().data() == f.get_view().data() && d.get_view().data() == l.get_view().data(), "the same extent");
	number want = parse(b.p, n, utki::chars_format::general);
	bool big = p[1] == 'e' || p[2] == 'e';
	if(big && want.valid){
		vp_assert(vd == 0 || want.exp < 300, "out of range of double: zero");
		vp_assert(vl == (long double)(vd), "the long double form agrees");
		if(want.exp > 40 || want.exp < -50) vp_assert(vf == 0, "out of range of float: zero");
	}
}
namespace {
// texts of many digits: (zeros) head (zeros) digit with the exponent which makes it the head with a small tail
template <class F> void tails(const char* const* heads, size_t num){
	many_digits = true;
	static const uint16_t quick[] = {0, 3, 20, 101, 769}, all[] = {0, 1, 3, 10, 19, 20, 38, 101, 300, 766, 767, 768, 769, 770, 800, 1200};
	const char* head = heads[vp_choice(num, "head")];
	size_t z = VP_TIER ? all[vp_choice(16, "zeros")] : quick[vp_choice(5, "zeros")];
	std::string t;
	switch(vp_choice(3, "form")){
	case 0: t = std::string(head) + '.' + std::string(z, '0') + '?'; break;
	case 1: t = std::string(z, '0') + head + ".0?"; break;
	default: t = std::string(head) + std::string(z, '0') + "?e-" + std::to_string(z + 1); break;
	}
	if(vp_choice(2, "minus")) t = '-' + t;
	vp_buf<char> b(t.size());
	memcpy(b.p, t.data(), t.size());
	for(size_t i = 0; i < b.n; ++i) if(b[i] == '?'){ b[i] = vp_sym<char>("digit"); vp_assume(b[i] >= '0' && b[i] <= '9'); }
	run<F>(b.p, b.n, utki::chars_format::general);
}
// a digit with many zeros around it
template <class F> void zeros(){
	many_digits = true;
	static const uint16_t n[] = {18, 19, 20, 45, 300, 400, 1200};
	size_t z = n[VP_TIER ? vp_choice(7, "zeros") : 1 + 2 * vp_choice(3, "zeros")];
	static const int16_t off[] = {-330, -46, -1, 0, 2, 38, 308};
	int e = off[VP_TIER ? vp_choice(7, "exponent") : 2 * vp_choice(4, "exponent")];
	std::string t;
	switch(vp_choice(3, "form")){
	case 0: t = "?" + std::string(z, '0') + "e" + std::to_string(e - int(z)); break;
	case 1: t = "0." + std::string(z, '0') + "?e" + std::to_string(e + int(z)); break;
	default: t = "?." + std::string(z, '0') + "e" + std::to_string(e); break;
	}
	vp_buf<char> b(t.size());
	memcpy(b.p, t.data(), t.size());
	for(size_t i = 0; i < b.n; ++i) if(b[i] == '?'){ b[i] = vp_sym<char>("digit"); vp_assume(b[i] >= '0' && b[i] <= '9'); }
	run<F>(b.p, b.n, utki::chars_format::general);
}
}
VP_ENTRY(c29_tails_double){ static const char* const h[] = {"9007199254740993", "9007199254740992", "9007199254740995", "4503599627370497", "1"}; tails<double>(h, 5); }
VP_ENTRY(c29_tails_float){ static const char* const h[] = {"16777217", "16777219", "33554434", "8388609", "1"}; tails<float>(h, 5); }
VP_ENTRY(c29_zeros_double){ zeros<double>(); }
VP_ENTRY(c29_zeros_float){ zeros<float>(); }
