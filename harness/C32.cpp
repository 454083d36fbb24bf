// C32: strings made from buffers, values and indentation
#include "vp.h"
#include <utki/string.hpp>
#include <new>
#include <sstream>
#include <stdexcept>
namespace {
template <class S> void same(const S& s, const void* p, size_t n, const char* what){
	size_t len = vp_concretize(s.size());
	vp_assert(len == n, what);
	const unsigned char* b = static_cast<const unsigned char*>(p);
	bool eq = true;
	for(size_t i = 0; i < n; ++i) eq &= static_cast<unsigned char>(s.data()[i]) == b[i];
	vp_assert(eq, what);
	vp_observe("s", s.data(), len);
}
template <class T> void from_buffer(size_t max){
	size_t n = vp_choice(max + 1, "n");
	vp_buf<T> b(n, "bytes");
	utki::span<const T> sp(b.p, n);
	same(utki::make_string(sp), b.p, n, "string of a span");
	std::string_view v = utki::make_string_view(sp);
	same(v, b.p, n, "view of a span");
	vp_assert(static_cast<const void*>(v.data()) == static_cast<const void*>(b.p), "the view is in place");
	utki::span<T> ms(b.p, n);
	same(utki::make_string(utki::span<const T>(ms)), b.p, n, "string of a mutable span");
	std::vector<T> vec(b.begin(), b.end());
	same(utki::make_string(vec), b.p, n, "string of a vector");
	vp_reach("buffer");
}
template <class T, size_t N> void from_array(){
	std::array<T, N> a;
	if(N) vp_sym_bytes(a.data(), N * sizeof(T), "a");
	same(utki::make_string(a), a.data(), N, "string of an array");
}
}
VP_ENTRY(c32_chars){ from_buffer<char>(VP_BOUND(18, 40)); }
VP_ENTRY(c32_bytes){ from_buffer<uint8_t>(VP_BOUND(18, 40)); }
VP_ENTRY(c32_null_span){
	utki::span<const char> c; utki::span<const uint8_t> u;
	vp_assert(utki::make_string(c).empty() && utki::make_string(u).empty(), "string of a null span");
	vp_assert(utki::make_string_view(c).empty() && utki::make_string_view(u).empty(), "view of a null span");
}
VP_ENTRY(c32_arrays){
	switch(vp_choice(8, "kind")){
		case 0: from_array<char, 0>(); break;
		case 1: from_array<char, 1>(); break;
		case 2: from_array<char, 15>(); break;
		case 3: from_array<char, 16>(); break;
		case 4: from_array<uint8_t, 0>(); break;
		case 5: from_array<uint8_t, 1>(); break;
		case 6: from_array<uint8_t, 15>(); break;
		default: from_array<uint8_t, 33>(); break;
	}
}
// long buffers: arbitrary bytes at the ends and at internal block borders, any length of the list
VP_ENTRY(c32_long){
	static const size_t len[] = {31, 32, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097};
	size_t n = len[vp_choice(sizeof(len) / sizeof(len[0]), "length")];
	vp_buf<uint8_t> b(n);
	for(size_t i = 0; i < n; ++i) b[i] = uint8_t(i * 7 + 1);
	b[0] = vp_sym<uint8_t>("first");
	b[n / 2] = vp_sym<uint8_t>("middle");
	b[n - 1] = vp_sym<uint8_t>("last");
	utki::span<const uint8_t> sp(b.p, n);
	utki::span<const char> sc(reinterpret_cast<const char*>(b.p), n);
	same(utki::make_string(sp), b.p, n, "string of a long byte span");
	same(utki::make_string(sc), b.p, n, "string of a long character span");
	same(utki::make_string_view(sp), b.p, n, "view of a long byte span");
}
namespace {
struct point { char a, b; };
std::ostream& operator<<(std::ostream& o, const point& p){ return o << p.a << ':' << p.b; }
// value of the decimal text [p, e); bad is set unless it is the canonical decimal of a value
__int128 decimal(const char* p, const char* e, bool& bad){ // of up to 20 digits
	bool neg = false;
	if(p != e && vp_concretize(*p == '-')){ neg = true; ++p; }
	bad |= p == e;
	if(e - p > 1) bad |= *p == '0';
	unsigned __int128 v = 0;
	for(const char* q = p; q != e; ++q){
		bad |= (*q < '0') | (*q > '9');
		v = v * 10 + static_cast<unsigned char>(*q - '0');
	}
	return __int128(neg ? -v : v);
}
template <class T> void cat_number(){
	T v;
	if(sizeof(T) == 2) v = vp_sym<T>("value");
	else { // wide types: around the borders of the type and of narrower ones
		static const uint64_t base[] = {0, 128, 256, 32768, 65536, 1000000, 999999999, 1000000000, 2147483648u, 4294967296u,
			1000000000000u, 9223372036854775808u, 10000000000000000000u, 18446744073709551615u};
		v = T(base[vp_choice(sizeof(base) / sizeof(base[0]), "base")] + vp_choice(2, "offset") - 1);
	}
	std::string s = utki::cat(v);
	size_t n = vp_concretize(s.size());
	vp_assert(n >= 1 && n <= 20, "length of a number");
	bool bad = false;
	__int128 d = decimal(s.data(), s.data() + n, bad);
	vp_assert(!bad, "canonical decimal digits");
	vp_assert(d == __int128(v), "the value");
	vp_observe("s", s.data(), n);
}
}
// every sequence of up to 4 pieces of every kind, with arbitrary characters
VP_ENTRY(c32_cat){
	char c = vp_sym<char>("c"), d = vp_sym<char>("d");
	size_t ls = vp_choice(4, "length of the string"), lv = vp_choice(3, "length of the view"), lz = vp_choice(3, "length of the literal");
	vp_buf<char> bs(ls, "string"), bv(lv, "view");
	vp_buf<char> bz(lz + 1, "literal");
	for(size_t i = 0; i < lz; ++i) vp_assume(bz[i] != 0);
	bz[lz] = 0;
	std::string s(bs.begin(), bs.end());
	std::string_view v(bv.p, lv);
	const char* z = bz.p;
	point p{c, d};
	std::string want, got;
	auto add = [&](const char* q, size_t n){ want.append(q, n); };
	char pt[3] = {c, ':', d};
	switch(vp_choice(8, "order")){
		case 0: got = utki::cat(c, s, v, z); add(&c, 1); add(bs.p, ls); add(bv.p, lv); add(z, lz); break;
		case 1: got = utki::cat(z, v, s, c); add(z, lz); add(bv.p, lv); add(bs.p, ls); add(&c, 1); break;
		case 2: got = utki::cat(p, s, p); add(pt, 3); add(bs.p, ls); add(pt, 3); break;
		case 3: got = utki::cat(s); add(bs.p, ls); break;
		case 4: got = utki::cat(v, v, v); add(bv.p, lv); add(bv.p, lv); add(bv.p, lv); break;
		case 5: got = utki::cat(z, "x", d, std::string(s), p); add(z, lz); add("x", 1); add(&d, 1); add(bs.p, ls); add(pt, 3); break;
		case 6: got = utki::cat(); break;
		default: got = utki::cat(c, d, c, d, s, s, v, z, "", c); add(&c, 1); add(&d, 1); add(&c, 1); add(&d, 1); add(bs.p, ls); add(bs.p, ls); add(bv.p, lv); add(z, lz); add(&c, 1); break;
	}
	same(got, want.data(), want.size(), "the texts of the arguments in order");
	vp_reach("concatenated");
}
VP_ENTRY(c32_cat_numbers){
	switch(vp_choice(8, "type")){
		case 0: cat_number<short>(); break;
		case 1: cat_number<unsigned short>(); break;
		case 2: cat_number<int>(); break;
		case 3: cat_number<unsigned>(); break;
		case 4: cat_number<long>(); break;
		case 5: cat_number<unsigned long>(); break;
		case 6: cat_number<long long>(); break;
		default: { // numbers between other things
			uint8_t a = vp_sym<uint8_t>("a"); int8_t b = vp_sym<int8_t>("b"); bool t = vp_sym_bool("t");
			std::string s = utki::cat(int(a), '/', int(b), "/", t);
			size_t n = vp_concretize(s.size());
			vp_assert(n >= 5 && n <= 10, "length");
			size_t x = 0;
			while(x < n && !vp_concretize(s[x] == '/')) ++x;
			size_t y = x + 1;
			while(y < n && !vp_concretize(s[y] == '/')) ++y;
			vp_assert(y + 2 == n, "three pieces");
			bool bad = false;
			__int128 da = decimal(s.data(), s.data() + x, bad), db = decimal(s.data() + x + 1, s.data() + y, bad);
			vp_assert(!bad, "canonical decimal digits");
			vp_assert(da == a, "the first number");
			vp_assert(db == b, "the second number");
			vp_assert(s[y + 1] == (t ? '1' : '0'), "the third");
		}
	}
}
VP_ENTRY(c32_cat_base){
	uint8_t a = vp_sym<uint8_t>("a");
	std::string s = utki::cat('<', std::hex, unsigned(a), '>');
	size_t n = vp_concretize(s.size());
	vp_assert(n == size_t(vp_concretize(a < 16) ? 3 : 4), "length of a hexadecimal number");
	auto dig = [](unsigned d){ return char(d < 10 ? '0' + d : 'a' + d - 10); };
	vp_assert(s[0] == '<' && s[n - 1] == '>' && s[n - 2] == dig(a & 15u), "the texts");
	if(n == 4) vp_assert(s[1] == dig(a >> 4), "the high digit");
}
// any depth and step with a result of up to N characters
VP_ENTRY(c32_indent_small){
	const uint64_t max = VP_BOUND(40, 150);
	unsigned depth = 0, step = 0;
	uint64_t want = 0;
	switch(vp_choice(3, "kind")){
		case 0: depth = vp_sym<unsigned>("depth"); vp_assume(depth <= max); want = depth; break;
		case 1: step = vp_sym<unsigned>("step"); break;
		default:
			depth = unsigned(vp_choice(max, "depth")) + 1;
			step = vp_sym<unsigned>("step");
			vp_assume(step != 0 && step <= max / depth);
			want = uint64_t(depth) * step;
	}
	std::string s = utki::make_indentation(depth, step);
	size_t n = vp_concretize(s.size());
	vp_assert(n == want, "length of the indentation");
	char c = step == 0 ? '\t' : ' ';
	bool eq = true;
	for(size_t i = 0; i < n; ++i) eq &= s[i] == c;
	vp_assert(eq, "only tabs or only spaces");
	vp_observe("s", s.data(), n);
}
VP_ENTRY(c32_indent_default){
	size_t d = vp_choice(VP_BOUND(40, 150), "depth");
	std::string s = utki::make_indentation(unsigned(d));
	vp_assert(s.size() == d, "one tab per level");
	for(size_t i = 0; i < d; ++i) vp_assert(s[i] == '\t', "only tabs");
}
// listed sizes with longer results
VP_ENTRY(c32_indent_long){
	static const unsigned v[] = {0, 1, 2, 3, 4, 8, 15, 16, 17, 31, 32, 100, 127, 128, 255, 256, 257};
	const size_t k = sizeof(v) / sizeof(v[0]);
	unsigned depth = v[vp_choice(k, "depth")], step = v[vp_choice(k, "step")];
	if(depth > 100 && step > 8) vp_assume(step == 16 || step == 255 || step == 256);
	std::string s = utki::make_indentation(depth, step);
	size_t want = step ? size_t(depth) * step : depth;
	vp_assert(s.size() == want, "length of the indentation");
	vp_assert(s.find_first_not_of(step ? ' ' : '\t') == std::string::npos, "only tabs or only spaces");
}
// whatever the product: never a result of a different length
VP_ENTRY(c32_indent_any){
	unsigned depth = vp_sym<unsigned>("depth"), step = vp_sym<unsigned>("step");
	uint64_t want = 0;
	switch(vp_choice(3, "range")){
		case 0: vp_assume(depth < 0x10000); break;
		case 1: vp_assume(depth >= 0x10000 && step < 0x10000); break;
		default: vp_assume(depth >= 0x10000 && step >= 0x10000); break;
	}
	if(vp_choice(2, "tabs")){
		step = 0;
		want = depth;
	} else {
		vp_assume(step != 0);
		want = uint64_t(depth) * step;
	}
	// (the single product 2^63 - 1, where the string's signed length check flips, is left out: it would need factoring)
	if(vp_choice(2, "huge")) vp_assume(want >> 63);
	else {
		vp_assume(want > (uint64_t(8) << 20));
		vp_assume(want < (uint64_t(1) << 63) - 1);
	}
	bool thrown = false;
	uint64_t n = 0;
	try {
		n = utki::make_indentation(depth, step).size();
	} catch(const std::bad_alloc&){
		thrown = true;
	} catch(const std::length_error&){
		thrown = true;
	}
	vp_assert(thrown || n == want, "a result of a different length");
	vp_reach("done");
}
