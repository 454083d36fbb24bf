// C07: integers to text and back
#include "vp.h"
#include <utki/string.hpp>
#include <stdexcept>
#include <type_traits>
namespace {
using utki::integer_base;
const unsigned base_of[] = {2, 8, 10, 16};
char digit_char(uint64_t d){ return char(d < 10 ? '0' + d : 'a' + (d - 10)); }

// canonical digits of v in the base, with prefix for unsigned types
template <class T> void check_text(const std::string& s, T v, unsigned bi){
	using U = std::make_unsigned_t<T>;
	unsigned base = base_of[bi];
	size_t at = 0;
	U m = U(v);
	if constexpr(std::is_signed_v<T>){
		bool neg = v < 0;
		vp_assert(s.size() > 0, "not empty");
		vp_assert((s[0] == '-') == neg, "minus sign exactly for negative numbers");
		if(s[0] == '-'){ at = 1; m = U(U(0) - m); }
	} else if(base != 10){
		const char* pre = base == 2 ? "0b" : base == 8 ? "0" : "0x";
		size_t n = strlen(pre);
		vp_assert(s.size() > n, "longer than the prefix");
		for(size_t i = 0; i < n; ++i) vp_assert(s[i] == pre[i], "prefix");
		at = n;
	}
	vp_assert(s.size() > at, "there are digits");
	std::conditional_t<(sizeof(U) > 4), uint64_t, uint32_t> q = m;
	bool ok = true;
	size_t i = s.size();
	if(base == 10 && sizeof(T) > 2){
		// the digits of the standard library (trusted)
		char ref[24];
		auto e = std::to_chars(ref, ref + sizeof ref, v);
		at = 0;
		vp_assert(size_t(e.ptr - ref) == s.size() - at, "number of digits");
		for(size_t j = 0; j < s.size() - at && ref + j < e.ptr; ++j) ok &= s[at + j] == ref[j];
		vp_assert(ok, "digits of the value");
		return;
	}
	if(base == 10){
		while(i > at + 1){
			auto r = unsigned(q % 100);
			q /= 100;
			ok &= s[--i] == char('0' + r % 10);
			ok &= s[--i] == char('0' + r / 10);
		}
		if(i == at + 1){
			ok &= s[--i] == char('0' + q);
			ok &= q < 10;
			q = 0;
		}
	} else {
		unsigned sh = base == 2 ? 1 : base == 8 ? 3 : 4;
		while(i > at){ ok &= s[--i] == digit_char(q & (base - 1)); q >>= sh; }
	}
	vp_assert(ok, "digits of the value");
	vp_assert(q == 0, "all digits of the value");
	vp_assert(s[at] != '0' || s.size() == at + 1, "no leading zeros");
}
template <class T> void to_text(bool round_trip){
	T v = vp_sym<T>("value");
	unsigned bi = unsigned(vp_choice(4, "base"));
	std::string s0 = utki::to_string(v, integer_base(bi));
	std::string s(s0.data(), vp_concretize(s0.size()));
	check_text(s, v, bi);
	vp_observe("text", s.data(), s.size());
	if(bi == 2){
		std::string d = utki::to_string(v);
		vp_assert(d.size() == s.size(), "decimal is the default");
		bool eq = true;
		for(size_t i = 0; i < s.size() && i < d.size(); ++i) eq &= s[i] == d[i];
		vp_assert(eq, "decimal is the default");
	}
	if(std::is_signed_v<T> && bi != 2) return;
	if(!round_trip && bi == 2) return;
	utki::string_parser p(s);
	T r{};
	int o = vp_outcome<std::invalid_argument>([&](){ r = p.read_number<T>(); });
	vp_assert(o == 0, "the text is a number");
	vp_assert(r == v, "the value survives");
	vp_assert(p.empty(), "the whole text is consumed");
	vp_reach("round trip");
}
bool space(char c){
	return bool(unsigned(c == ' ') | unsigned(c == '\n') | unsigned(c == '\t') | unsigned(c == '\r') | unsigned(c == '\v') | unsigned(c == '\f'));
}
int digit_of(char c, unsigned base){
	int d = -1;
	if(c >= '0' && c <= '9') d = c - '0';
	else if(c >= 'a' && c <= 'z') d = c - 'a' + 10;
	else if(c >= 'A' && c <= 'Z') d = c - 'A' + 10;
	return d >= 0 && unsigned(d) < base ? d : -1;
}
// reference reading of a number; returns false when there is none
template <class T> bool reference(const char* b, size_t n, T& value, size_t& end){
	size_t i = 0;
	while(i < n && space(b[i])) ++i;
	bool neg = false;
	unsigned base = 10;
	if constexpr(std::is_signed_v<T>){
		if(i < n && b[i] == '-'){ neg = true; ++i; }
	} else if(i < n && b[i] == '0'){
		if(i + 1 >= n){ value = 0; end = i + 1; return true; }
		if(b[i + 1] == 'x'){
			if(i + 2 < n && digit_of(b[i + 2], 16) >= 0){ base = 16; i += 2; }
			else { value = 0; end = i + 1; return true; }
		} else if(b[i + 1] == 'b'){
			if(i + 2 < n && digit_of(b[i + 2], 2) >= 0){ base = 2; i += 2; }
			else { value = 0; end = i + 1; return true; }
		} else if(digit_of(b[i + 1], 8) >= 0) base = 8;
		else if(digit_of(b[i + 1], 10) < 0){ value = 0; end = i + 1; return true; }
	}
	size_t first = i;
	unsigned __int128 sum = 0;
	bool over = false, long_text = n - i > 24;
	while(i < n){
		int d = digit_of(b[i], base);
		if(d < 0) break;
		if(long_text) over |= uint64_t(sum >> 64) >> 32 != 0;
		sum = sum * base + unsigned(d);
		++i;
	}
	if(i == first) return false;
	end = i;
	unsigned __int128 limit = (unsigned __int128)std::make_unsigned_t<T>(std::numeric_limits<T>::max()) + (neg ? 1 : 0);
	bool fits = !over && sum <= limit;
	using U = std::make_unsigned_t<T>;
	U mag = U(sum);
	if(neg) mag = U(U(0) - mag);
	value = fits ? T(mag) : T(0);
	return true;
}
template <class T> void check_read(const char* b, size_t n){
	utki::string_parser p(std::string_view(b, n));
	T r{};
	int o = vp_outcome<std::invalid_argument>([&](){ r = p.read_number<T>(); });
	vp_assert(o != 2, "only std::invalid_argument is thrown");
	T want{};
	size_t end = 0;
	bool is = reference<T>(b, n, want, end);
	vp_assert(is == (o == 0), "throws exactly when there is no number");
	if(is){
		vp_assert(r == want, "the value read");
		vp_assert(p.size() == n - end, "exactly the longest number prefix is consumed");
		if(p.size()) vp_assert(p.get_view().data() == b + end, "the rest of the text");
		vp_observe_val("value", r);
		vp_observe_val("end", end);
		vp_reach("number");
	} else vp_reach("no number");
}
template <class T> void read_any(size_t max){
	size_t n = vp_choice(max + 1, "size");
	vp_buf<char> b(n, "text");
	check_read<T>(b.p, n);
}
// digit strings up to and beyond the range of the type
template <class T> std::string limit_text(bool neg, unsigned base){ // the largest magnitude of the type in the base
	using U = std::make_unsigned_t<T>;
	U m = U(std::numeric_limits<T>::max());
	if(neg) ++m;
	std::string s;
	for(; m; m = U(m / base)) s.insert(s.begin(), digit_char(m % base));
	return s;
}
// the digits d[0..n) with a prefix, read back; fits: whether they denote a value of the type
template <class T> void check_digits(const std::string& pre, const char* d, size_t n, unsigned base, bool fits, bool fits_always){
	bool neg = pre == "-";
	size_t pn = pre.size();
	size_t tail = vp_choice(2, "tail");
	vp_buf<char> b(pn + n + tail);
	memcpy(b.p, pre.data(), pn);
	memcpy(b.p + pn, d, n);
	if(tail) b[pn + n] = ' ';
	utki::string_parser p(std::string_view(b.p, b.n));
	T r{};
	int o = vp_outcome<std::invalid_argument>([&](){ r = p.read_number<T>(); });
	vp_assert(o == 0, "digits are a number");
	vp_assert(p.size() == tail, "all digits are consumed, whether they fit or not");
	using U = std::make_unsigned_t<T>;
	U sum = 0;
	for(size_t i = 0; i < n; ++i){
		unsigned v = unsigned(d[i]) - '0';
		if(base == 16) v = (unsigned(d[i]) & 0xf) + 9 * ((unsigned(d[i]) >> 6) & 1);
		sum = U(sum * base + v);
	}
	if(neg) sum = U(U(0) - sum);
	T want = T(sum);
	if(sizeof(T) > 2 && fits_always){ // the value according to the standard library (trusted): the solver cannot show 32/64-bit sums equal
		want = 0;
		const char* first = b.p + (neg ? 0 : pn);
		auto e = std::from_chars(first, b.p + pn + n, want, int(base));
		vp_assert(e.ec == std::errc() && e.ptr == b.p + pn + n, "reference value");
	}
	vp_assert(r == (fits ? want : T(0)), fits ? "the value of the digits" : "zero when the digits do not fit the type");
	vp_observe_val("value", r);
	vp_reach(fits ? "fits" : "does not fit");
}
void assume_digits(const char* d, size_t n, unsigned base){
	for(size_t i = 0; i < n; ++i){
		char c = d[i];
		if(base == 16) vp_assume(bool((unsigned(c >= '0') & unsigned(c <= '9')) | (unsigned(c >= 'a') & unsigned(c <= 'f')) | (unsigned(c >= 'A') & unsigned(c <= 'F'))));
		else vp_assume(bool(unsigned(c >= '0') & unsigned(c <= char('0' + base - 1))));
	}
}
template <class T> std::string prefix(unsigned bi){
	if(std::is_signed_v<T>) return vp_sym_bool("minus") ? "-" : "";
	return bi == 0 ? "0b" : bi == 1 ? "0" : bi == 3 ? "0x" : "";
}
// all digit strings shorter than the type's limit
template <class T> void read_short(){
	unsigned bi = std::is_signed_v<T> ? 2 : unsigned(vp_choice(4, "base"));
	std::string pre = prefix<T>(bi);
	size_t max = limit_text<T>(pre == "-", base_of[bi]).size() - 1;
	size_t n = 1 + vp_choice(max, "digits");
	vp_buf<char> d(n, "d");
	assume_digits(d.p, n, base_of[bi]);
	if(bi == 2 && !std::is_signed_v<T>) vp_assume(d[0] != '0'); // else octal, or only the zero is read
	check_digits<T>(pre, d.p, n, base_of[bi], true, true);
}
// digit strings that agree with the limit up to a window of w arbitrary digits, and longer ones
template <class T> void read_limit(size_t w){
	unsigned bi = std::is_signed_v<T> ? 2 : unsigned(vp_choice(4, "base"));
	unsigned base = base_of[bi];
	std::string pre = prefix<T>(bi);
	std::string lim = limit_text<T>(pre == "-", base);
	size_t at = vp_choice(lim.size() - w + 1, "window");
	vp_buf<char> d(lim.size());
	memcpy(d.p, lim.data(), lim.size());
	vp_sym_bytes(d.p + at, w, "d");
	assume_digits(d.p + at, w, base);
	if(at == 0) vp_assume(d[0] != '0');
	// digits <= limit, decided from the most significant digit
	bool less = false, greater = false;
	for(size_t i = 0; i < w; ++i){
		auto val = [&](char c){ return base == 16 ? (unsigned(c) & 0xf) + 9 * ((unsigned(c) >> 6) & 1) : unsigned(c) - '0'; };
		unsigned x = val(d[at + i]), y = val(lim[at + i]);
		less |= bool(unsigned(x < y) & unsigned(!greater));
		greater |= bool(unsigned(x > y) & unsigned(!less));
	}
	check_digits<T>(pre, d.p, d.n, base, !greater, false);
}
template <class T> void read_longer(size_t w){
	unsigned bi = std::is_signed_v<T> ? 2 : unsigned(vp_choice(4, "base"));
	unsigned base = base_of[bi];
	std::string pre = prefix<T>(bi);
	std::string lim = limit_text<T>(pre == "-", base);
	size_t more = 1 + vp_choice(2, "more");
	if(lim.size() + more < w) more = w;
	size_t n = lim.size() + more;
	vp_buf<char> d(n);
	memset(d.p, vp_sym_bool("ones") ? '1' : '0', n);
	d[0] = '1';
	size_t at = vp_choice(n - w + 1, "window");
	vp_sym_bytes(d.p + at, w, "d");
	assume_digits(d.p + at, w, base);
	if(at == 0) vp_assume(d[0] != '0');
	check_digits<T>(pre, d.p, n, base, false, false);
}
}
VP_ENTRY(c07_text_u8){ to_text<uint8_t>(true); }
VP_ENTRY(c07_text_i8){ to_text<int8_t>(true); }
VP_ENTRY(c07_text_u16){ to_text<uint16_t>(true); }
VP_ENTRY(c07_text_i16){ to_text<int16_t>(true); }
VP_ENTRY(c07_text_u32){ to_text<uint32_t>(false); }
VP_ENTRY(c07_text_i32){ to_text<int32_t>(false); }
VP_ENTRY(c07_text_u64){ to_text<uint64_t>(false); }
VP_ENTRY(c07_text_i64){ to_text<int64_t>(false); }
VP_ENTRY(c07_read_u8){ read_any<uint8_t>(VP_BOUND(5, 7)); }
VP_ENTRY(c07_read_i8){ read_any<int8_t>(VP_BOUND(5, 7)); }
VP_ENTRY(c07_read_u32){ read_any<uint32_t>(VP_BOUND(4, 6)); }
VP_ENTRY(c07_read_i64){ read_any<int64_t>(VP_BOUND(4, 6)); }
VP_ENTRY(c07_short_u16){ read_short<uint16_t>(); }
VP_ENTRY(c07_limit_u16){ read_limit<uint16_t>(VP_BOUND(2, 4)); }
VP_ENTRY(c07_longer_u16){ read_longer<uint16_t>(VP_BOUND(2, 3)); }
VP_ENTRY(c07_short_i16){ read_short<int16_t>(); }
VP_ENTRY(c07_limit_i16){ read_limit<int16_t>(VP_BOUND(2, 4)); }
VP_ENTRY(c07_longer_i16){ read_longer<int16_t>(VP_BOUND(2, 3)); }
VP_ENTRY(c07_short_u32){ read_short<uint32_t>(); }
VP_ENTRY(c07_limit_u32){ read_limit<uint32_t>(VP_BOUND(2, 4)); }
VP_ENTRY(c07_longer_u32){ read_longer<uint32_t>(VP_BOUND(2, 3)); }
VP_ENTRY(c07_short_i32){ read_short<int32_t>(); }
VP_ENTRY(c07_limit_i32){ read_limit<int32_t>(VP_BOUND(2, 4)); }
VP_ENTRY(c07_longer_i32){ read_longer<int32_t>(VP_BOUND(2, 3)); }
VP_ENTRY(c07_short_u64){ read_short<uint64_t>(); }
VP_ENTRY(c07_limit_u64){ read_limit<uint64_t>(VP_BOUND(2, 4)); }
VP_ENTRY(c07_longer_u64){ read_longer<uint64_t>(VP_BOUND(2, 3)); }
VP_ENTRY(c07_short_i64){ read_short<int64_t>(); }
VP_ENTRY(c07_limit_i64){ read_limit<int64_t>(VP_BOUND(2, 4)); }
VP_ENTRY(c07_longer_i64){ read_longer<int64_t>(VP_BOUND(2, 3)); }
VP_ENTRY(c07_read_u16){ read_any<uint16_t>(VP_BOUND(3, 5)); }
VP_ENTRY(c07_read_i16){ read_any<int16_t>(VP_BOUND(3, 5)); }
VP_ENTRY(c07_read_i32){ read_any<int32_t>(VP_BOUND(3, 5)); }
VP_ENTRY(c07_read_u64){ read_any<uint64_t>(VP_BOUND(3, 5)); }
// much white space, many leading zeros
namespace {
template <class T> void long_lead(){
	static const uint16_t lens[] = {0, 1, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000};
	size_t sp = lens[vp_choice(18, "spaces")];
	unsigned kind = unsigned(vp_choice(std::is_signed_v<T> ? 3 : 6, "prefix"));
	static const char* const pre[] = {"", "-", "-0", "0", "0x", "0b"};
	std::string t(sp, ' ');
	for(size_t i = 0; i < sp; ++i) t[i] = " \n\t\r\v\f"[i % 6];
	t += std::is_signed_v<T> ? pre[kind] : kind == 1 || kind == 2 ? "1" : pre[kind];
	size_t z = sp > 40 ? 0 : lens[vp_choice(18, "zeros")];
	if(z && kind < 3 && !std::is_signed_v<T> && kind == 0) t += '1';
	t.append(z, '0');
	size_t m = vp_choice(3, "arbitrary");
	vp_buf<char> b(t.size() + m);
	memcpy(b.p, t.data(), t.size());
	vp_sym_bytes(b.p + t.size(), m, "text");
	check_read<T>(b.p, b.n);
}
}
VP_ENTRY(c07_lead_u8){ long_lead<uint8_t>(); }
VP_ENTRY(c07_lead_i32){ long_lead<int32_t>(); }
VP_ENTRY(c07_lead_u64){ if(VP_TIER) long_lead<uint64_t>(); }
