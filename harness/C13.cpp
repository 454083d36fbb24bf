// C13: spans
#include "vp.h"
#include <utki/span.hpp>
#include <utki/string.hpp>
#include <sstream>
#include <stdexcept>
namespace {
// s is exactly the n elements at p
template <class T, class U> void denotes(utki::span<T> s, U* p, size_t n, const char* what){
	vp_assert(s.size() == n, what);
	vp_assert(s.empty() == (n == 0), "empty exactly when there are no elements");
	vp_assert(s.size_bytes() == n * sizeof(U), "size in bytes");
	const auto& c = s;
	if(n != 0){
		vp_assert(s.data() == p && c.data() == p, "refers to the source's memory");
		vp_assert(&s.front() == p && &c.front() == p, "front");
		vp_assert(&s.back() == p + (n - 1) && &c.back() == p + (n - 1), "back");
	}
	vp_assert(s.begin() == s.data() && s.cbegin() == s.data() && s.end() == s.data() + n && s.cend() == s.data() + n, "iterators delimit the memory");
	vp_assert(s.end_pointer() == s.data() + n, "end pointer");
	size_t k = 0;
	for(auto& e : s){ vp_assert(k < n && &e == p + k, "forward iteration"); ++k; }
	vp_assert(k == n, "forward iteration visits all");
	for(auto i = s.rbegin(); i != s.rend(); ++i){ vp_assert(k != 0 && &*i == p + (k - 1), "reverse iteration"); --k; }
	vp_assert(k == 0, "reverse iteration visits all");
	k = n;
	for(auto i = c.crbegin(); i != c.crend(); ++i){ vp_assert(k != 0 && &*i == p + (k - 1), "const reverse iteration"); --k; }
	vp_assert(k == 0, "const reverse iteration visits all");
	for(k = 0; k < n; ++k) vp_assert(&s[k] == p + k && &c[k] == p + k && &s.at(k) == p + k && &c.at(k) == p + k, "element access");
	size_t bad = vp_sym<size_t>("bad");
	vp_assume(bad >= n);
	vp_assert(vp_outcome<std::out_of_range>([&]{ s.at(bad); }) == 1, "checked access throws std::out_of_range");
	vp_assert(vp_outcome<std::out_of_range>([&]{ c.at(bad); }) == 1, "checked const access throws std::out_of_range");
}
template <class T> void sources(size_t max){
	size_t n = vp_choice(max + 1, "n");
	vp_buf<T> b(n, "b");
	using S = utki::span<T>;
	using C = utki::span<const T>;
	switch(vp_choice(8, "source")){
	case 0: { denotes(S(b.p, n), b.p, n, "pointer and size"); denotes(C(b.p, n), b.p, n, "const, pointer and size"); break; }
	case 1: { denotes(utki::make_span(b.p, n), b.p, n, "make_span, pointer and size"); break; }
	case 2: { S s(b.p, n); C c = s; S t = s; S u; u = s; denotes(c, b.p, n, "other span"); denotes(t, b.p, n, "copy"); denotes(u, b.p, n, "assigned"); S m(std::move(t)); denotes(m, b.p, n, "moved"); break; }
	case 3: { std::vector<T> v(b.begin(), b.end()); denotes(S(v), v.data(), n, "vector"); denotes(C(v), v.data(), n, "vector, const span"); denotes(utki::make_span(v), v.data(), n, "make_span(vector)"); break; }
	case 4: { const std::vector<T> v(b.begin(), b.end()); denotes(C(v), v.data(), n, "const vector"); denotes(utki::make_span(v), v.data(), n, "make_span(const vector)"); break; }
	case 5: { std::vector<T> v(b.begin(), b.end()); auto r = utki::make_vector(utki::make_span(b.p, n)); auto r2 = utki::make_vector(C(b.p, n));
		vp_assert(r.size() == n && r2.size() == n, "vector of the span's size"); bool ok = true; for(size_t k = 0; k < n; ++k){ ok &= r[k] == b[k]; ok &= r2[k] == b[k]; } vp_assert(ok, "vector of the span's elements"); break; }
	case 6: denotes(S(), static_cast<T*>(nullptr), 0, "default"); break;
	default: {
		std::array<T, 5> a; for(size_t k = 0; k < 5; ++k) a[k] = T(k);
		std::array<T, 1> o{};
		std::array<T, 0> z{};
		const auto& ca = a; const auto& co = o; const auto& cz = z;
		denotes(S(a), a.data(), 5, "array"); denotes(C(ca), a.data(), 5, "const array"); denotes(utki::make_span(a), a.data(), 5, "make_span(array)"); denotes(utki::make_span(ca), a.data(), 5, "make_span(const array)");
		denotes(S(o), o.data(), 1, "array of 1"); denotes(utki::make_span(co), o.data(), 1, "make_span(const array of 1)");
		denotes(S(z), z.data(), 0, "array of 0"); denotes(utki::make_span(z), z.data(), 0, "make_span(array of 0)"); denotes(utki::make_span(cz), cz.data(), 0, "make_span(const array of 0)");
	}
	}
	vp_observe_val("n", n);
}
void strings(size_t max){
	size_t n = vp_choice(max + 1, "n");
	vp_buf<char> b(n, "b");
	using C = utki::span<const char>;
	switch(vp_choice(6, "source")){
	case 0: { std::string s(b.begin(), b.end()); denotes(utki::span<char>(s), s.data(), n, "string"); denotes(utki::make_span(s), s.data(), n, "make_span(string)"); break; }
	case 1: { const std::string s(b.begin(), b.end()); denotes(C(s), s.data(), n, "const string"); denotes(utki::make_span(s), s.data(), n, "make_span(const string)"); break; }
	case 2: { std::string_view s(b.p, n); denotes(C(s), b.p, n, "string view"); denotes(utki::make_span(s), b.p, n, "make_span(string view)"); break; }
	case 3: { // zero-terminated
		vp_buf<char> z(n + 1);
		bool nz = true;
		for(size_t k = 0; k < n; ++k){ z[k] = b[k]; nz &= b[k] != 0; }
		vp_assume(nz);
		z[n] = 0;
		const char* p = z.p;
		denotes(C(p), p, n, "C string");
		denotes(utki::make_span(p), p, n, "make_span(C string)");
		char* q = z.p;
		denotes(utki::span<char>(q), q, n, "mutable C string");
		break;
	}
	case 4: { // bytes and characters
		utki::span<char> s(b.p, n);
		auto u = utki::to_uint8_t(s); static_assert(std::is_same_v<decltype(u), utki::span<uint8_t>>);
		denotes(u, reinterpret_cast<uint8_t*>(b.p), n, "characters as bytes");
		denotes(utki::to_char(u), b.p, n, "bytes as characters");
		auto cu = utki::to_uint8_t(C(b.p, n));
		denotes(cu, reinterpret_cast<const uint8_t*>(b.p), n, "const characters as bytes");
		denotes(utki::to_char(cu), b.p, n, "const bytes as characters");
		break;
	}
	default: { // text
		utki::span<char> s(b.p, n);
		std::ostringstream o;
		o << s;
		std::string t = o.str();
		vp_assert(t.size() == n && memcmp(t.data(), b.p, n) == 0, "printing gives the elements in order");
		std::string m = utki::make_string(C(b.p, n));
		vp_assert(m.size() == n && memcmp(m.data(), b.p, n) == 0, "string of the characters");
		std::string m2 = utki::make_string(utki::to_uint8_t(C(b.p, n)));
		vp_assert(m2.size() == n && memcmp(m2.data(), b.p, n) == 0, "string of the bytes");
		auto sv = utki::make_string_view(C(b.p, n));
		vp_assert(sv.size() == n && (n == 0 || sv.data() == b.p), "string view in place");
	}
	}
	vp_observe_val("n", n);
}
void widechars(){
	size_t n = vp_choice(4, "n");
	vp_buf<char32_t> b(n, "b");
	std::u32string s(b.begin(), b.end());
	const std::u32string cs(b.begin(), b.end());
	std::u32string_view v(b.p, n);
	denotes(utki::span<char32_t>(s), s.data(), n, "u32string");
	denotes(utki::make_span(s), s.data(), n, "make_span(u32string)");
	denotes(utki::span<const char32_t>(cs), cs.data(), n, "const u32string");
	denotes(utki::make_span(v), b.p, n, "u32string view");
	vp_observe_val("n", n);
}
void init_list(){
	uint32_t v[3];
	vp_sym_bytes(v, sizeof v, "v");
	auto f = [&](utki::span<const uint32_t> s, size_t n){
		vp_assert(s.size() == n, "initializer list: size");
		bool ok = true;
		for(size_t k = 0; k < n; ++k) ok &= s[k] == v[k];
		vp_assert(ok, "initializer list: elements");
	};
	f({v[0]}, 1);
	f({v[0], v[1]}, 2);
	f({v[0], v[1], v[2]}, 3);
	f(utki::make_span({v[0], v[1], v[2]}), 3);
	std::initializer_list<uint32_t> l{v[0], v[1]};
	denotes(utki::span<const uint32_t>(l), l.begin(), 2, "initializer list");
	denotes(utki::make_span(l), l.begin(), 2, "make_span(initializer list)");
	vp_observe("v", v, sizeof v);
}
template <class T> void sub(size_t max){
	size_t n = vp_choice(max + 1, "n"), off = vp_choice(n + 1, "off"), cnt = vp_choice(n - off + 1, "count");
	vp_buf<T> b(n, "b");
	utki::span<T> s(b.p, n);
	utki::span<const T> c(b.p, n);
	denotes(s.subspan(off), b.p + off, n - off, "the rest");
	denotes(s.subspan(off, cnt), b.p + off, cnt, "subspan");
	denotes(c.subspan(off, cnt), b.p + off, cnt, "const subspan");
	denotes(s.subspan(off).subspan(0, cnt), b.p + off, cnt, "subspan of a subspan");
	vp_assert(s.size() == n && s.data() == b.p, "the span itself is not changed");
	// writing goes to the source
	if(cnt != 0){
		T x = vp_sym<T>("x");
		s.subspan(off, cnt)[cnt - 1] = x;
		vp_assert(b[off + cnt - 1] == x, "writing through a subspan");
	}
	vp_observe_val("n", n);
}
template <class T> void contains(size_t total){
	size_t n = vp_choice(total + 1, "n"), off = vp_choice(total - n + 1, "off");
	vp_buf<T> b(total, "b");
	utki::span<T> s(b.p + off, n);
	utki::span<const T> c(b.p + off, n);
	size_t i = vp_sym<uint8_t>("i");
	vp_assume(i <= total);
	bool in = (i >= off) & (i < off + n);
	bool r = utki::overlaps(s, b.p + i), r2 = utki::overlaps(c, b.p + i);
	vp_assert(r == in, "contains exactly its own elements' addresses");
	vp_assert(r2 == in, "const: contains exactly its own elements' addresses");
	utki::span<T> e;
	vp_assert(!utki::overlaps(e, b.p + i) && !utki::overlaps(e, static_cast<T*>(nullptr)), "an empty span contains nothing");
	vp_assert(!utki::overlaps(s, static_cast<T*>(nullptr)), "no element is at the null address");
	vp_observe_val("r", r);
}
template <class A, class B> void compare(size_t max){
	size_t n = vp_choice(max + 1, "n"), m = vp_choice(max + 1, "m");
	vp_buf<A> x(n, "x");
	vp_buf<B> y(m, "y");
	utki::span<A> a(x.p, n);
	utki::span<const B> b(y.p, m);
	size_t k = n < m ? n : m;
	bool eq = n == m, lt = n < m, gt = m < n;
	for(size_t i = 0; i < k; ++i) eq &= x[i] == y[i];
	for(size_t i = k; i-- > 0;){ bool d = x[i] != y[i]; lt = d ? x[i] < y[i] : lt; gt = d ? y[i] < x[i] : gt; }
	vp_assert(utki::deep_equals(a, b) == eq, "deep_equals");
	vp_assert(utki::deep_not_equals(a, b) == !eq, "deep_not_equals");
	vp_assert(utki::deep_less_than(a, b) == lt, "deep_less_than");
	vp_assert(utki::deep_greater_than(a, b) == gt, "deep_greater_than");
	vp_assert(utki::deep_less_or_equals(a, b) == !gt, "deep_less_or_equals");
	vp_assert(utki::deep_greater_or_equals(a, b) == !lt, "deep_greater_or_equals");
	vp_observe_val("eq", eq);
}
// long sequences
size_t long_size(){
	static const uint32_t q[] = {16, 17, 64, 65, 255, 256, 257}, t[] = {15, 16, 17, 31, 33, 63, 64, 65, 127, 129, 255, 256, 257, 1000};
	return VP_TIER ? t[vp_choice(14, "n")] : q[vp_choice(7, "n")];
}
void long_sources(){
	size_t n = long_size();
	vp_buf<char> b(n + 1);
	for(size_t k = 0; k < n; ++k) b[k] = char(1 + k % 100);
	b[n] = 0;
	char x = vp_sym<char>("x");
	vp_assume(x != 0);
	b[n / 2] = x;
	switch(vp_choice(6, "source")){
	case 0: { std::vector<char> v(b.begin(), b.end() - 1); denotes(utki::make_span(v), v.data(), n, "vector"); denotes(utki::span<const char>(v), v.data(), n, "vector"); break; }
	case 1: { std::string v(b.begin(), b.end() - 1); denotes(utki::make_span(v), v.data(), n, "string"); std::string_view w = v; denotes(utki::make_span(w), v.data(), n, "view"); break; }
	case 2: { const char* p = b.p; denotes(utki::make_span(p), p, n, "C string"); break; }
	case 3: { auto v = utki::make_vector(utki::make_span(b.p, n)); vp_assert(v.size() == n && memcmp(v.data(), b.p, n) == 0, "vector of the span's elements");
		auto s = utki::make_string(utki::span<const char>(b.p, n)); vp_assert(s.size() == n && memcmp(s.data(), b.p, n) == 0, "string of the characters"); break; }
	case 4: { std::ostringstream o; o << utki::make_span(b.p, n); auto t = o.str(); vp_assert(t.size() == n && memcmp(t.data(), b.p, n) == 0, "printing gives the elements in order"); break; }
	default: { vp_buf<uint64_t> w(n); denotes(utki::make_span(w.p, n), w.p, n, "pointer and size"); }
	}
	vp_observe_val("n", n);
}
void long_sub(){
	size_t n = long_size();
	static const uint16_t cuts[] = {0, 1, 15, 16, 17, 64, 127, 128, 254, 255, 256};
	vp_buf<uint16_t> b(n);
	for(size_t k = 0; k < n; ++k) b[k] = uint16_t(k);
	utki::span<uint16_t> s(b.p, n);
	size_t off = cuts[vp_choice(11, "off")];
	vp_assume(off <= n);
	size_t left = n - off;
	denotes(s.subspan(off), b.p + off, left, "the rest");
	size_t cnt = vp_sym<size_t>("count");
	vp_assume(cnt <= left);
	auto r = s.subspan(off, cnt);
	vp_assert(r.size() == cnt && r.data() == b.p + off, "subspan");
	size_t i = vp_sym<size_t>("i");
	vp_assume(i < cnt);
	vp_assert(&r[i] == b.p + off + i && &r.at(i) == &r[i], "element of a subspan");
	bool in = utki::overlaps(r, b.p + off + i);
	vp_assert(in, "contains its elements' addresses");
	vp_observe_val("off", off);
}
template <class A, class B> void long_compare(){
	size_t n = long_size();
	unsigned rel = unsigned(vp_choice(3, "relation")); // second: same length, longer, shorter
	size_t m = rel == 0 ? n : rel == 1 ? n + 1 + n / 2 : n - 1 - n / 3;
	vp_buf<A> x(n);
	vp_buf<B> y(m);
	for(size_t k = 0; k < n; ++k) x[k] = A(k % 101);
	for(size_t k = 0; k < m; ++k) y[k] = B(k % 101);
	size_t k = n < m ? n : m;
	size_t at = vp_choice(3, "at") * (k - 1) / 2;
	A u = vp_sym<A>("x");
	B v = vp_sym<B>("y");
	x[at] = u;
	y[at] = v;
	bool d = u != v;
	bool eq = !d & (n == m), lt = d ? u < v : n < m, gt = d ? v < u : m < n;
	utki::span<A> a(x.p, n);
	utki::span<const B> b(y.p, m);
	vp_assert(utki::deep_equals(a, b) == eq, "deep_equals");
	vp_assert(utki::deep_not_equals(a, b) == !eq, "deep_not_equals");
	vp_assert(utki::deep_less_than(a, b) == lt, "deep_less_than");
	vp_assert(utki::deep_greater_than(a, b) == gt, "deep_greater_than");
	vp_assert(utki::deep_less_or_equals(a, b) == !gt, "deep_less_or_equals");
	vp_assert(utki::deep_greater_or_equals(a, b) == !lt, "deep_greater_or_equals");
	vp_observe_val("eq", eq);
}
}
VP_ENTRY(c13_long_sources){ long_sources(); }
VP_ENTRY(c13_long_sub){ long_sub(); }
VP_ENTRY(c13_long_compare){ long_compare<uint8_t, uint8_t>(); }
VP_ENTRY(c13_long_compare_mixed){ long_compare<int32_t, int8_t>(); }
VP_ENTRY(c13_sources_u8){ sources<uint8_t>(VP_BOUND(6, 10)); }
VP_ENTRY(c13_sources_u32){ sources<uint32_t>(VP_BOUND(4, 7)); }
VP_ENTRY(c13_strings){ strings(VP_BOUND(6, 10)); }
VP_ENTRY(c13_widechars){ widechars(); }
VP_ENTRY(c13_init_list){ init_list(); }
VP_ENTRY(c13_sub_u8){ sub<uint8_t>(VP_BOUND(5, 8)); }
VP_ENTRY(c13_sub_u64){ sub<uint64_t>(VP_BOUND(3, 6)); }
VP_ENTRY(c13_contains_u8){ contains<uint8_t>(VP_BOUND(5, 9)); }
VP_ENTRY(c13_contains_u32){ contains<uint32_t>(VP_BOUND(4, 7)); }
VP_ENTRY(c13_compare_u8){ compare<uint8_t, uint8_t>(VP_BOUND(3, 4)); }
VP_ENTRY(c13_compare_mixed){ compare<int32_t, int8_t>(VP_BOUND(3, 4)); }
// more elements than fit 16 bits
VP_ENTRY(c13_huge){
	size_t n = 65537 + vp_choice(2, "size") * 70000;
	vp_buf<uint8_t> b(n);
	memset(b.p, 7, n);
	utki::span<uint8_t> s(b.p, n);
	size_t off = vp_sym<uint32_t>("off"), cnt = vp_sym<uint32_t>("count");
	vp_assume(off <= n && cnt <= n - off);
	auto r = s.subspan(off, cnt);
	vp_assert(r.size() == cnt && r.data() == b.p + off && r.size_bytes() == cnt, "subspan");
	vp_assert(s.subspan(off).size() == n - off, "the rest");
	vp_assert(utki::overlaps(s, b.p + off) == (off < n), "contains its elements' addresses");
	auto v = utki::make_vector(s);
	vp_assert(v.size() == n && v[0] == 7 && v[n - 1] == 7, "a vector of the elements");
	v[n - 1] = vp_sym<uint8_t>("last");
	auto w = utki::make_span(v);
	vp_assert(w.size() == n && &w.back() == &v[n - 1], "a span of the vector");
	bool eq = utki::deep_equals(w, s), less = utki::deep_less_than(w, s), more = utki::deep_greater_than(w, s);
	vp_assert(eq == (v[n - 1] == 7), "equal");
	vp_assert(less == (v[n - 1] < 7), "less");
	vp_assert(more == (v[n - 1] > 7), "greater");
	vp_observe_val("cnt", cnt);
}
