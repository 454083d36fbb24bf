// C14: sort
#include "vp.h"
#include <utki/sort.hpp>
#include <deque>
#include <vector>
namespace {
struct item { uint8_t key; uint8_t tag; };
// an element that is empty after it has been moved from, and owns memory
struct owner {
	uint8_t key = 0, tag = 0xff;
	uint8_t* p = nullptr;
	owner(uint8_t k, uint8_t t) : key(k), tag(t), p(new uint8_t(t)) {}
	owner(const owner& o) : key(o.key), tag(o.tag), p(o.p ? new uint8_t(*o.p) : nullptr) {}
	owner(owner&& o) noexcept : key(o.key), tag(o.tag), p(o.p) { o.p = nullptr; o.tag = 0xff; o.key = 0; }
	owner& operator=(const owner& o){ if(this != &o){ delete p; key = o.key; tag = o.tag; p = o.p ? new uint8_t(*o.p) : nullptr; } return *this; }
	owner& operator=(owner&& o) noexcept { if(this != &o){ delete p; key = o.key; tag = o.tag; p = o.p; o.p = nullptr; o.tag = 0xff; o.key = 0; } return *this; }
	~owner(){ delete p; }
};
// operators that order by something else: the given ordering has to be used
inline bool operator<(const item& a, const item& b){ return a.tag < b.tag; }
inline bool operator>(const item& a, const item& b){ return a.tag > b.tag; }
inline bool operator==(const item& a, const item& b){ return a.tag == b.tag; }
inline bool operator<(const owner& a, const owner& b){ return a.tag < b.tag; }
inline bool operator>(const owner& a, const owner& b){ return a.tag > b.tag; }
inline bool operator==(const owner& a, const owner& b){ return a.tag == b.tag; }
// v: sorted elements, key: original keys by tag, before(a, b): the ordering
template <class It, class Cmp> void check(It first, size_t n, const uint8_t* key, Cmp before){
	uint32_t seen = 0;
	bool keys = true, sorted = true;
	for(size_t i = 0; i < n; ++i){
		size_t t = first[i].tag;
		vp_assert(t < n, "an original element");
		vp_assert(!(seen >> t & 1), "each element once");
		seen |= 1u << t;
		keys &= first[i].key == key[t];
		if(i) sorted &= !before(first[i], first[i - 1]);
	}
	vp_assert(keys, "elements are unchanged");
	vp_assert(sorted, "no element is ordered before its predecessor");
	for(size_t i = 0; i < n; ++i){ auto t = first[i].tag; vp_observe_val("tag", t); }
}
void run(size_t n, unsigned key_mask, unsigned order){
	vp_buf<uint8_t> key(n, "keys");
	for(size_t i = 0; i < n; ++i) key[i] &= uint8_t(key_mask);
	vp_buf<item> b(n + 2);
	b[0] = b[n + 1] = item{0x80, 0x7f};
	for(size_t i = 0; i < n; ++i) b[i + 1] = item{key[i], uint8_t(i)};
	item* p = b.p + 1;
	auto less = [](const item& x, const item& y){ return x.key < y.key; };
	auto greater = [](const item& x, const item& y){ return x.key > y.key; };
	if(order == 0){ utki::sort(p, p + n, less); check(p, n, key.p, less); }
	else { utki::sort(p, p + n, greater); check(p, n, key.p, greater); }
	vp_assert(b[0].tag == 0x7f && b[0].key == 0x80 && b[n + 1].tag == 0x7f && b[n + 1].key == 0x80, "nothing outside of the range is touched");
	vp_reach("sorted");
}
}
// every weak ordering of n elements
VP_ENTRY(c14_any){ run(vp_choice(VP_BOUND(6, 7), "size"), 0xff, 0); }
VP_ENTRY(c14_greater){ run(vp_choice(VP_BOUND(5, 6), "size"), 0xff, 1); }
// longer ranges of elements of two kinds
VP_ENTRY(c14_two_keys){ run(6 + vp_choice(VP_BOUND(5, 7), "size"), 1, 0); }
// long ranges: a concrete arrangement in which one element is arbitrary
namespace {
void lengthy(size_t n, unsigned pattern, size_t at){
	vp_buf<uint8_t> key(n);
	for(size_t i = 0; i < n; ++i){
		size_t k = 0;
		switch(pattern){
		case 0: k = i; break; // ascending
		case 1: k = n - i; break; // descending
		case 2: k = i < n / 2 ? i : n - i; break; // rising, then falling
		case 3: k = 7; break; // all equal
		default: k = (i * 37 + 11) % 101; break; // scattered
		}
		key[i] = uint8_t(2 * k);
	}
	key[at] = vp_sym<uint8_t>("key");
	vp_buf<item> b(n + 2);
	b[0] = b[n + 1] = item{0x80, 0xff};
	for(size_t i = 0; i < n; ++i) b[i + 1] = item{key[i], uint8_t(i)};
	item* p = b.p + 1;
	bool up = vp_sym_bool("ascending");
	if(up) utki::sort(p, p + n, [](const item& x, const item& y){ return x.key < y.key; });
	else utki::sort(p, p + n, [](const item& x, const item& y){ return x.key > y.key; });
	bool seen[128] = {};
	bool sorted = true, keys = true;
	for(size_t i = 0; i < n; ++i){
		size_t t = p[i].tag;
		vp_assert(t < n, "an original element");
		vp_assert(!seen[t], "each element once");
		seen[t] = true;
		keys &= p[i].key == key[t];
		if(i) sorted &= up ? p[i - 1].key <= p[i].key : p[i - 1].key >= p[i].key;
	}
	vp_assert(keys, "elements are unchanged");
	vp_assert(sorted, "no element is ordered before its predecessor");
	vp_assert(b[0].tag == 0xff && b[0].key == 0x80 && b[n + 1].tag == 0xff && b[n + 1].key == 0x80, "nothing outside of the range is touched");
	vp_reach("sorted");
	vp_observe("keys", key.p, n);
}
}
VP_ENTRY(c14_long){
	static const uint8_t sizes[] = {15, 16, 17, 31, 33, 64, 65, 100};
	size_t n = sizes[vp_choice(VP_BOUND(4, 8), "size")];
	unsigned pattern = unsigned(vp_choice(5, "pattern"));
	static const uint8_t places[] = {0, 1, 4, 7, 8};
	size_t at = places[vp_choice(5, "place")] * (n - 1) / 8;
	lengthy(n, pattern, at);
}
VP_ENTRY(c14_owner){
	size_t n = vp_choice(VP_BOUND(5, 6), "size");
	vp_buf<uint8_t> key(n, "keys");
	size_t heap = vp_heap_count();
	{
		std::deque<owner> d;
		for(size_t i = 0; i < n; ++i) d.emplace_back(key[i], uint8_t(i));
		auto less = [](const owner& x, const owner& y){ return x.key < y.key; };
		utki::sort(d.begin(), d.end(), less);
		vp_assert(d.size() == n, "number of elements");
		check(d.begin(), n, key.p, less);
		for(auto& o : d) vp_assert(o.p && *o.p == o.tag, "owned values move along");
	}
	vp_assert(vp_heap_count() == heap, "nothing leaks");
}
VP_ENTRY(c14_default_order){
	size_t n = vp_choice(VP_BOUND(5, 6), "size");
	std::vector<int> v(n);
	for(auto& x : v) x = vp_sym<int8_t>("x");
	std::vector<int> w = v;
	utki::sort(w.begin(), w.end());
	bool sorted = true, perm = true;
	for(size_t i = 1; i < n; ++i) sorted &= w[i - 1] <= w[i];
	for(size_t i = 0; i < n; ++i){
		unsigned a = 0, b = 0;
		for(size_t j = 0; j < n; ++j){ a += v[j] == w[i]; b += w[j] == w[i]; }
		perm &= a == b;
	}
	vp_assert(sorted, "ascending by default");
	vp_assert(perm, "a permutation");
	vp_observe("w", w.data(), n * sizeof(int));
}
