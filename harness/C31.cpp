// C31: container helpers
#include "vp.h"
#include <utki/utility.hpp>
#include <array>
#include <deque>
#include <list>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
namespace {
template <class C, class T> void contains_seq(unsigned max){
	unsigned n = unsigned(vp_choice(max + 1, "n"));
	C c;
	T v = vp_sym<T>("v");
	bool any = false;
	for(unsigned i = 0; i < n; ++i){ T e = vp_sym<T>("e"); c.push_back(e); any |= e == v; }
	bool r = utki::contains(c, v);
	vp_assert(r == any, "true exactly when some element equals the value");
	vp_assert(c.size() == n, "unchanged");
	vp_observe_val("r", r);
}
template <class M> void contains_map(unsigned max){
	unsigned n = unsigned(vp_choice(max + 1, "n"));
	M m;
	uint8_t v = vp_sym<uint8_t>("v");
	bool any = false;
	for(unsigned i = 0; i < n; ++i){ uint8_t k = vp_sym<uint8_t>("k"); uint8_t x = vp_sym<uint8_t>("x"); m[k] = x; any |= k == v; }
	bool r = utki::contains(m, v);
	vp_assert(r == any, "true exactly when some key equals the value");
	vp_observe_val("r", r);
}
struct greater { bool operator()(uint8_t a, uint8_t b) const { return a > b; } };
template <class M> void flip(unsigned max){
	unsigned n = unsigned(vp_choice(max + 1, "n"));
	uint8_t k[6]; uint16_t v[6];
	M m;
	for(unsigned i = 0; i < n; ++i){
		k[i] = vp_sym<uint8_t>("k"); v[i] = vp_sym<uint16_t>("v");
		bool distinct = true;
		for(unsigned j = 0; j < i; ++j) distinct &= (k[j] != k[i]) & (v[j] != v[i]);
		vp_assume(distinct);
		m.emplace(k[i], v[i]);
	}
	auto f = utki::flip_map(m);
	vp_assert(f.size() == n, "as many entries");
	for(unsigned i = 0; i < n; ++i){ auto it = f.find(v[i]); vp_assert(it != f.end() && it->second == k[i], "keys and values are swapped"); }
	auto g = utki::flip_map(f);
	vp_assert(g.size() == n, "flipping twice");
	for(unsigned i = 0; i < n; ++i){ auto it = g.find(k[i]); vp_assert(it != g.end() && it->second == v[i], "gives back the original"); }
	vp_assert(m.size() == n, "the original is unchanged");
	auto h = utki::flip_map<std::greater<uint16_t>>(m);
	vp_assert(h.size() == n, "with another ordering");
	uint32_t last = 0x10000, ok = 1;
	for(auto& e : h){ ok &= unsigned(e.first < last); last = e.first; }
	vp_assert(ok == 1, "in the given ordering");
	for(unsigned i = 0; i < n; ++i){ auto it = h.find(v[i]); vp_assert(it != h.end() && it->second == k[i], "keys and values are swapped"); }
	vp_observe_val("n", f.size());
	vp_reach("flipped");
}
// equal values: some key of each value remains
template <class F> void flip_equal(unsigned max, F flipped){
	unsigned n = unsigned(vp_choice(max + 1, "n"));
	std::map<uint8_t, uint8_t> m;
	uint8_t k[6], v[6];
	size_t want = 0;
	for(unsigned i = 0; i < n; ++i){
		k[i] = vp_sym<uint8_t>("k");
		v[i] = vp_sym<uint8_t>("v");
		bool distinct = true, fresh = true;
		for(unsigned j = 0; j < i; ++j){ distinct &= k[j] < k[i]; fresh &= v[j] != v[i]; }
		vp_assume(distinct);
		want += fresh;
		m.emplace_hint(m.end(), k[i], v[i]);
	}
	auto f = flipped(m);
	vp_assert(f.size() == want, "one entry per value");
	for(auto& e : f){
		bool from = false;
		for(unsigned i = 0; i < n; ++i) from |= (v[i] == e.first) & (k[i] == e.second);
		vp_assert(from, "every entry comes from the original");
	}
	vp_observe_val("n", f.size());
}
// iterators over positions, with a narrow difference type
template <class D, class Cat> struct pos_iter {
	using difference_type = D; using value_type = int64_t; using pointer = const int64_t*; using reference = const int64_t&; using iterator_category = Cat;
	int64_t p = 0;
	const int64_t& operator*() const { return p; }
	pos_iter& operator++(){ ++p; return *this; }
	pos_iter operator++(int){ auto r = *this; ++p; return r; }
	pos_iter& operator--(){ --p; return *this; }
	pos_iter operator--(int){ auto r = *this; --p; return r; }
	pos_iter& operator+=(D d){ p += d; return *this; }
	pos_iter& operator-=(D d){ p -= d; return *this; }
	pos_iter operator+(D d) const { auto r = *this; r.p += d; return r; }
	pos_iter operator-(D d) const { auto r = *this; r.p -= d; return r; }
	D operator-(const pos_iter& o) const { return D(p - o.p); }
	const int64_t& operator[](D) const { return p; }
	bool operator==(const pos_iter& o) const { return p == o.p; }
	bool operator!=(const pos_iter& o) const { return p != o.p; }
	bool operator<(const pos_iter& o) const { return p < o.p; }
	bool operator>(const pos_iter& o) const { return p > o.p; }
	bool operator<=(const pos_iter& o) const { return p <= o.p; }
	bool operator>=(const pos_iter& o) const { return p >= o.p; }
};
template <class I> void steps(uint64_t max){
	uint64_t n = vp_sym<uint64_t>("n");
	int64_t start = vp_sym<int32_t>("start");
	vp_assume(n <= max);
	I i{start};
	I a = utki::next(i, n);
	vp_assert(a.p == start + int64_t(n), "exactly n steps forward");
	I b = utki::prev(i, n);
	vp_assert(b.p == start - int64_t(n), "exactly n steps back");
	vp_observe_val("a", a.p);
	vp_observe_val("b", b.p);
}
template <class C> void walk(unsigned max){
	unsigned n = unsigned(vp_choice(max + 1, "size")), k = unsigned(vp_choice(max + 1, "k"));
	vp_assume(k <= n);
	C c;
	for(unsigned i = 0; i < n; ++i) c.push_back(vp_sym<uint32_t>("e"));
	auto it = utki::next(c.begin(), k);
	auto want = c.begin();
	for(unsigned i = 0; i < k; ++i) ++want;
	vp_assert(it == want, "k steps forward");
	auto back = utki::prev(c.end(), n - k);
	vp_assert(back == want, "n - k steps back");
	auto ci = utki::next(c.cbegin(), k);
	vp_assert(ci == want, "constant iterator");
	vp_observe_val("k", k);
}
void pointers(){
	unsigned n = unsigned(vp_choice(VP_BOUND(5, 9), "n"));
	std::vector<uint32_t> v(n);
	for(auto& e : v) e = vp_sym<uint32_t>("e");
	vp_assert(utki::end_pointer(v) == v.data() + n, "vector");
	const auto& cv = v;
	vp_assert(utki::end_pointer(cv) == v.data() + n, "constant vector");
	std::string s(n, 'a');
	vp_assert(utki::end_pointer(s) == s.data() + n, "string");
	std::string_view sv(s);
	vp_assert(utki::end_pointer(sv) == s.data() + n, "view");
	vp_assert(utki::end_pointer(utki::make_span(v)) == v.data() + n, "span");
	std::array<uint16_t, 3> a{};
	vp_assert(utki::end_pointer(a) == a.data() + 3, "array");
	uint8_t raw[4];
	vp_assert(utki::end_pointer(raw) == raw + 4, "plain array");
	vp_observe_val("n", n);
}
}
VP_ENTRY(c31_contains_vector){ contains_seq<std::vector<uint32_t>, uint32_t>(VP_BOUND(6, 10)); }
VP_ENTRY(c31_contains_list){ contains_seq<std::list<uint16_t>, uint16_t>(VP_BOUND(5, 8)); }
VP_ENTRY(c31_contains_deque){ contains_seq<std::deque<uint8_t>, uint8_t>(VP_BOUND(5, 8)); }
VP_ENTRY(c31_contains_string){ contains_seq<std::string, char>(VP_BOUND(6, 18)); }
VP_ENTRY(c31_contains_map){ contains_map<std::map<uint8_t, uint8_t>>(VP_BOUND(3, 4)); }
VP_ENTRY(c31_contains_map_other){ contains_map<std::map<uint8_t, uint8_t, greater>>(VP_BOUND(3, 4)); }
VP_ENTRY(c31_contains_array){
	uint8_t raw[3]; bool any = false;
	uint8_t v = vp_sym<uint8_t>("v");
	for(auto& e : raw){ e = vp_sym<uint8_t>("e"); any |= e == v; }
	vp_assert(utki::contains(raw, v) == any, "plain array");
	std::array<uint8_t, 3> a{raw[0], raw[1], raw[2]};
	vp_assert(utki::contains(a, v) == any, "array");
	vp_assert(utki::contains(utki::make_span(raw, 3), v) == any, "span");
	std::array<uint8_t, 0> none{};
	vp_assert(!utki::contains(none, v), "empty array");
	vp_observe_val("any", any);
}
VP_ENTRY(c31_contains_set){
	std::set<uint8_t> s;
	uint8_t v = vp_sym<uint8_t>("v");
	bool any = false;
	unsigned n = unsigned(vp_choice(4, "n"));
	for(unsigned i = 0; i < n; ++i){ uint8_t e = vp_sym<uint8_t>("e"); s.insert(e); any |= e == v; }
	vp_assert(utki::contains(s, v) == any, "set");
	vp_observe_val("any", any);
}
VP_ENTRY(c31_flip_pair){
	uint8_t pa = vp_sym<uint8_t>("a");
	uint32_t pb = vp_sym<uint32_t>("b");
	std::pair<uint8_t, uint32_t> p(pa, pb);
	std::pair<uint32_t, uint8_t> q = utki::flip_pair(p);
	vp_assert(q.first == p.second && q.second == p.first, "swapped");
	auto r = utki::flip_pair(q);
	vp_assert(r == p, "flipping twice");
	vp_observe_val("q", q.first);
}
VP_ENTRY(c31_flip_map){ flip<std::map<uint8_t, uint16_t>>(VP_BOUND(3, 4)); }
VP_ENTRY(c31_flip_map_other){ flip<std::map<uint8_t, uint16_t, greater>>(VP_BOUND(3, 3)); }
VP_ENTRY(c31_flip_equal){ flip_equal(VP_BOUND(4, 5), [](const auto& m){ return utki::flip_map(m); }); }
VP_ENTRY(c31_flip_equal_other){ flip_equal(VP_BOUND(4, 5), [](const auto& m){ return utki::flip_map<std::greater<uint8_t>>(m); }); }
VP_ENTRY(c31_steps_i8){ steps<pos_iter<int8_t, std::random_access_iterator_tag>>(VP_BOUND(700, 3000)); }
VP_ENTRY(c31_steps_i16){ steps<pos_iter<int16_t, std::random_access_iterator_tag>>(VP_BOUND(1u << 18, 1u << 20)); }
VP_ENTRY(c31_steps_i32){ steps<pos_iter<int32_t, std::random_access_iterator_tag>>(uint64_t(1) << 36); }
VP_ENTRY(c31_steps_i64){ steps<pos_iter<int64_t, std::random_access_iterator_tag>>(uint64_t(1) << 62); }
VP_ENTRY(c31_steps_bidirectional){ steps<pos_iter<int8_t, std::bidirectional_iterator_tag>>(VP_BOUND(300, 600)); }
VP_ENTRY(c31_walk_vector){ walk<std::vector<uint32_t>>(VP_BOUND(6, 10)); }
VP_ENTRY(c31_walk_list){ walk<std::list<uint32_t>>(VP_BOUND(6, 10)); }
VP_ENTRY(c31_end_pointer){ pointers(); }
// long collections: concrete but for one element and the value
VP_ENTRY(c31_contains_long){
	static const uint16_t sizes[] = {17, 65, 257, 1025};
	size_t n = sizes[vp_choice(VP_BOUND(3, 4), "size")];
	size_t at = vp_choice(3, "place") * (n - 1) / 2;
	std::vector<uint32_t> c(n);
	for(size_t i = 0; i < n; ++i) c[i] = uint32_t(i * 3);
	uint32_t x = vp_sym<uint32_t>("x");
	c[at] = x;
	uint32_t v = vp_sym<uint32_t>("v");
	bool any = (v % 3 == 0) & (v / 3 < n) & (v != at * 3);
	any |= v == x;
	switch(vp_choice(4, "kind")){
	case 0: vp_assert(utki::contains(c, v) == any, "vector"); break;
	case 1: vp_assert(utki::contains(std::list<uint32_t>(c.begin(), c.end()), v) == any, "list"); break;
	case 2: vp_assert(utki::contains(std::deque<uint32_t>(c.begin(), c.end()), v) == any, "deque"); break;
	default: vp_assert(utki::contains(utki::make_span(c), v) == any, "span"); break;
	}
	vp_observe_val("any", any);
}
// more elements than fit 16 bits
VP_ENTRY(c31_huge){
	size_t n = 65537;
	std::vector<uint8_t> v(n, 9);
	v[n - 1] = vp_sym<uint8_t>("last");
	vp_assert(utki::contains(v, uint8_t(8)) == (v[n - 1] == 8), "vector");
	size_t k = vp_sym<uint32_t>("steps");
	vp_assume(k <= n);
	vp_assert(utki::next(v.begin(), k) - v.begin() == ptrdiff_t(k), "next");
	vp_assert(v.end() - utki::prev(v.end(), k) == ptrdiff_t(k), "prev");
	std::list<uint8_t> l(v.begin(), v.end());
	vp_assert(utki::next(l.begin(), n) == l.end() && *utki::next(l.begin(), n - 1) == v[n - 1], "next in a list");
	vp_assert(utki::prev(l.end(), n) == l.begin(), "prev in a list");
	vp_assert(utki::contains(l, uint8_t(8)) == (v[n - 1] == 8), "list");
	vp_observe_val("k", k);
}
