// C22: LINQ-style queries
#include "vp.h"
#include <utki/linq.hpp>
#include <list>
#include <map>
#include <string>
#include <vector>
namespace {
// moving from an item or changing it is seen in its content
struct item {
	uint8_t key = 0, id = 0xff; bool gone = false;
	item() = default;
	item(uint8_t key, uint8_t id) : key(key), id(id) {}
	item(const item& o) = default;
	item(item&& o) noexcept : key(o.key), id(o.id), gone(o.gone) { o.key = 0xee; o.id = 0xee; o.gone = true; }
	item& operator=(const item& o) = default;
	item& operator=(item&& o) noexcept { key = o.key; id = o.id; gone = o.gone; if(this != &o){ o.key = 0xee; o.id = 0xee; o.gone = true; } return *this; }
};
struct input { size_t n; vp_buf<uint8_t> k; explicit input(size_t max) : n(vp_choice(max + 1, "n")), k(n, "keys") {} 
	template <class C> C make() const { C c; for(size_t i = 0; i < n; ++i) c.emplace_back(k[i], uint8_t(i)); return c; } };
template <class C> void unchanged(const C& c, const input& in){
	vp_assert(c.size() == in.n, "a collection given by reference keeps its size");
	bool ok = true;
	size_t i = 0;
	for(auto& e : c){ ok &= e.key == in.k[i]; ok &= e.id == uint8_t(i); ok &= !e.gone; ++i; }
	vp_assert(ok, "a collection given by reference is left unchanged");
}
uint32_t f(const item& e){ return uint32_t(e.key) * 256 + e.id + 7 + (e.gone ? 100000 : 0); }
uint32_t want(const input& in, size_t i){ return uint32_t(in.k[i]) * 256 + uint32_t(i) + 7; }
template <class R> void mapped(const R& r, const input& in, bool pos){
	vp_assert(r.size() == in.n, "select: one result per element");
	bool ok = true;
	for(size_t i = 0; i < in.n; ++i) ok &= r[i] == want(in, i) + (pos ? uint32_t(i) * 1000000 : 0);
	vp_assert(ok, "select maps every element in order");
}
template <class C> void select(size_t max){
	input in(max);
	C c = in.make<C>();
	const C& cc = c;
	auto one = [](const item& e){ return f(e); };
	auto two = [](const item& e, size_t i){ return f(e) + uint32_t(i) * 1000000; };
	switch(vp_choice(6, "how")){
	case 0: mapped(utki::linq(c).select(one).get(), in, false); unchanged(c, in); break;
	case 1: mapped(utki::linq(cc).select(one).get(), in, false); unchanged(c, in); break;
	case 2: mapped(utki::linq(C(c)).select(one).get(), in, false); unchanged(c, in); break;
	case 3: mapped(utki::linq(c).select(two).get(), in, true); unchanged(c, in); break;
	case 4: mapped(utki::linq(std::move(c)).select([](item e){ return f(e); }).get(), in, false); break;
	default: mapped(utki::linq(c).select([](item e, size_t i){ return f(e) + uint32_t(i) * 1000000; }).get(), in, true); unchanged(c, in); break;
	}
	vp_observe_val("n", in.n);
}
// positions of the elements satisfying the predicate
template <class R> void filtered(const R& r, const input& in, uint8_t bit){
	size_t m = 0;
	bool ok = true;
	auto it = r.begin();
	for(size_t i = 0; i < in.n; ++i) if(in.k[i] & bit){ vp_assert(it != r.end(), "where keeps every element satisfying the predicate"); ok &= it->id == i; ok &= it->key == in.k[i]; ok &= !it->gone; ++it; ++m; }
	vp_assert(it == r.end() && r.size() == m, "where keeps only the elements satisfying the predicate");
	vp_assert(ok, "where keeps the elements in order");
}
template <class C> void where(size_t max){
	input in(max);
	uint8_t bit = vp_sym<uint8_t>("mask");
	C c = in.make<C>();
	const C& cc = c;
	auto p = [bit](const item& e){ return (e.key & bit) != 0; };
	switch(vp_choice(4, "how")){
	case 0: filtered(utki::linq(c).where(p).get(), in, bit); unchanged(c, in); break;
	case 1: filtered(utki::linq(cc).where(p).get(), in, bit); unchanged(c, in); break;
	case 2: filtered(utki::linq(C(c)).where(p).get(), in, bit); unchanged(c, in); break;
	default: filtered(utki::linq(std::move(c)).where(p).get(), in, bit); break;
	}
	vp_observe_val("bit", bit);
}
template <class R> void sorted(const R& r, const input& in){
	vp_assert(r.size() == in.n, "order_by keeps the number of elements");
	uint64_t seen = 0;
	bool ok = true, perm = true;
	for(size_t i = 0; i < in.n; ++i){
		perm &= r[i].id < in.n && !r[i].gone;
		size_t id = vp_concretize(r[i].id);
		if(id < in.n){ perm &= r[i].key == in.k[id]; seen |= uint64_t(1) << id; }
		if(i) ok &= r[i - 1].key <= r[i].key;
	}
	vp_assert(perm && seen == (uint64_t(1) << in.n) - 1, "order_by yields a permutation");
	vp_assert(ok, "order_by sorts by the key");
}
void order(size_t max){
	input in(max);
	using C = std::vector<item>;
	C c = in.make<C>();
	const C& cc = c;
	auto k = [](const item& e) -> const uint8_t& { return e.key; };
	switch(vp_choice(4, "how")){
	case 0: sorted(utki::linq(c).order_by(k).get(), in); unchanged(c, in); break;
	case 1: sorted(utki::linq(cc).order_by(k).get(), in); unchanged(c, in); break;
	case 2: sorted(utki::linq(C(c)).order_by(k).get(), in); unchanged(c, in); break;
	default: { auto l = in.make<std::list<item>>(); sorted(utki::linq(l).order_by(k).get(), in); unchanged(l, in); break; }
	}
	vp_observe_val("n", in.n);
}
template <class R> void grouped(const R& r, const input& in){
	size_t total = 0;
	const uint8_t* prev = nullptr;
	bool ok = true;
	for(auto& g : r){
		vp_assert(!g.second.empty(), "no empty group");
		if(prev) ok &= *prev < g.first;
		prev = &g.first;
		size_t last = 0;
		bool first = true;
		for(auto& e : g.second){
			ok &= e.key == g.first;
			ok &= !e.gone;
			size_t id = vp_concretize(e.id);
			ok &= id < in.n;
			ok &= first || id > last;
			if(id < in.n) ok &= in.k[id] == e.key;
			last = id;
			first = false;
			++total;
		}
	}
	vp_assert(ok, "group_by: groups in key order, elements of that key in original order");
	vp_assert(total == in.n, "group_by partitions the elements");
}
template <class C> void group(size_t max){
	input in(max);
	C c = in.make<C>();
	const C& cc = c;
	auto k = [](const item& e){ return e.key; };
	switch(vp_choice(4, "how")){
	case 0: grouped(utki::linq(c).group_by(k).get(), in); unchanged(c, in); break;
	case 1: grouped(utki::linq(cc).group_by(k).get(), in); unchanged(c, in); break;
	case 2: grouped(utki::linq(C(c)).group_by(k).get(), in); unchanged(c, in); break;
	default: grouped(utki::linq(std::move(c)).group_by(k).get(), in); break;
	}
	vp_observe_val("n", in.n);
}
void chained(size_t max){
	input in(max);
	uint8_t bit = vp_sym<uint8_t>("mask");
	using C = std::vector<item>;
	C c = in.make<C>();
	switch(vp_choice(4, "query")){
	case 0: { // where, order, select
		auto r = utki::linq(c).where([bit](const item& e){ return (e.key & bit) != 0; }).order_by([](const item& e) -> const uint8_t& { return e.key; }).select([](item e){ return e; }).get();
		size_t m = 0;
		for(size_t i = 0; i < in.n; ++i) m += (in.k[i] & bit) != 0;
		vp_assert(r.size() == m, "chain: number of elements");
		bool ok = true;
		uint64_t seen = 0;
		for(size_t i = 0; i < r.size(); ++i){ size_t id = vp_concretize(r[i].id); ok &= id < in.n; if(id < in.n){ ok &= r[i].key == in.k[id]; ok &= (r[i].key & bit) != 0; ok &= !(seen >> id & 1); seen |= uint64_t(1) << id; } if(i) ok &= r[i - 1].key <= r[i].key; }
		vp_assert(ok, "chain: filtered, sorted, mapped");
		break;
	}
	case 1: { // group, then size of each group by position
		auto r = utki::linq(c).group_by([](const item& e){ return e.key; }).select([](auto g, size_t i){ return g.second.size() * 100 + i; }).get();
		size_t total = 0;
		for(size_t i = 0; i < r.size(); ++i){ vp_assert(r[i] % 100 == i && r[i] >= 100, "chain: position of the group"); total += r[i] / 100; }
		vp_assert(total == in.n, "chain: groups partition the elements");
		break;
	}
	case 2: { // select, where
		auto r = utki::linq(c).select([](const item& e, size_t i){ return item(uint8_t(e.key ^ 0x55), uint8_t(i)); }).where([bit](const item& e){ return (e.key & bit) != 0; }).get();
		size_t m = 0;
		bool ok = true;
		for(size_t i = 0; i < in.n; ++i) if(uint8_t(in.k[i] ^ 0x55) & bit){ vp_assert(m < r.size(), "chain: kept"); ok &= r[m].id == i; ok &= r[m].key == uint8_t(in.k[i] ^ 0x55); ++m; }
		vp_assert(ok && m == r.size(), "chain: mapped then filtered");
		break;
	}
	default: { // order, group
		auto r = utki::linq(C(c)).order_by([](const item& e) -> const uint8_t& { return e.key; }).group_by([](const item& e){ return uint8_t(e.key & 1); }).get();
		size_t total = 0;
		bool ok = true;
		for(auto& g : r){ total += g.second.size(); for(size_t i = 0; i < g.second.size(); ++i){ ok &= (g.second[i].key & 1) == g.first; if(i) ok &= g.second[i - 1].key <= g.second[i].key; } }
		vp_assert(ok && total == in.n && r.size() <= 2, "chain: sorted then grouped");
	}
	}
	unchanged(c, in);
	vp_observe_val("n", in.n);
}
// a map as the collection
void maps(){
	uint8_t v[3];
	vp_sym_bytes(v, sizeof v, "v");
	std::map<int, item> m;
	for(int i = 0; i < 3; ++i) m.emplace(i * 2, item(v[i], uint8_t(i)));
	auto w = utki::linq(m).where([](const std::pair<const int, item>& e){ return e.second.key > 9; }).get();
	size_t n = 0;
	bool ok = true;
	for(int i = 0; i < 3; ++i){ bool in = v[i] > 9; n += in; auto it = w.find(i * 2); ok &= (it != w.end()) == in; if(it != w.end()) ok &= it->second.key == v[i]; }
	vp_assert(ok && w.size() == n, "where over a map");
	auto s = utki::linq(m).select([](const std::pair<const int, item>& e){ return unsigned(e.first) * 256 + e.second.key; }).get();
	vp_assert(s.size() == 3 && s[0] == v[0] && s[1] == 512u + v[1] && s[2] == 1024u + v[2], "select over a map");
	ok = m.size() == 3;
	for(int i = 0; i < 3; ++i){ ok &= m[i * 2].key == v[i]; ok &= !m[i * 2].gone; }
	vp_assert(ok, "the map is left unchanged");
	vp_observe("v", v, 3);
}
}
VP_ENTRY(c22_select){ select<std::vector<item>>(VP_BOUND(5, 8)); }
VP_ENTRY(c22_select_list){ select<std::list<item>>(VP_BOUND(4, 6)); }
VP_ENTRY(c22_where){ where<std::vector<item>>(VP_BOUND(4, 6)); }
VP_ENTRY(c22_where_list){ where<std::list<item>>(VP_BOUND(3, 5)); }
VP_ENTRY(c22_order){ order(VP_BOUND(4, 5)); }
VP_ENTRY(c22_group){ group<std::vector<item>>(VP_BOUND(4, 5)); }
VP_ENTRY(c22_group_list){ group<std::list<item>>(VP_BOUND(3, 4)); }
VP_ENTRY(c22_chain){ chained(VP_BOUND(3, 4)); }
VP_ENTRY(c22_map){ maps(); }
// long collections: concrete but for one element
namespace {
struct num { uint32_t v; };
void lengthy(size_t n){
	std::vector<num> v(n);
	for(size_t i = 0; i < n; ++i) v[i].v = uint32_t(i * 7919 % 10007);
	size_t at = vp_choice(3, "place") * (n - 1) / 2;
	uint32_t x = vp_sym<uint32_t>("x");
	v[at].v = x;
	const auto& cv = v;
	switch(vp_choice(4, "query")){
	case 0: {
		auto r = utki::linq(v).select([](const num& e, size_t i){ return uint64_t(i) << 32 | e.v; }).get();
		vp_assert(r.size() == n, "select: one result per element");
		bool ok = true;
		for(size_t i = 0; i < n; ++i) ok &= r[i] == (uint64_t(i) << 32 | v[i].v);
		vp_assert(ok, "select maps every element in order");
		break;
	}
	case 1: {
		auto r = utki::linq(cv).where([](const num& e){ return e.v % 2 == 1; }).get();
		size_t m = 0;
		bool ok = true;
		for(size_t i = 0; i < n; ++i) if(v[i].v % 2 == 1){ vp_assert(m < r.size(), "where keeps the elements"); ok &= r[m].v == v[i].v; ++m; }
		vp_assert(ok && m == r.size(), "where keeps exactly the elements in order");
		break;
	}
	case 2: {
		auto r = utki::linq(v).order_by([](const num& e) -> const uint32_t& { return e.v; }).get();
		vp_assert(r.size() == n, "order_by keeps the number of elements");
		bool ok = true;
		for(size_t i = 1; i < n; ++i) ok &= r[i - 1].v <= r[i].v;
		vp_assert(ok, "order_by sorts by the key");
		uint64_t a = 0, b = 0, c = 0, d = 0;
		for(size_t i = 0; i < n; ++i){ a += v[i].v; b += r[i].v; c ^= v[i].v * uint64_t(2654435761u); d ^= r[i].v * uint64_t(2654435761u); }
		vp_assert(a == b && c == d, "order_by yields a permutation");
		break;
	}
	default: {
		auto r = utki::linq(v).group_by([](const num& e){ return e.v & 3; }).get();
		size_t total = 0;
		bool ok = true;
		for(auto& g : r){
			size_t m = 0;
			for(size_t i = 0; i < n; ++i) if((v[i].v & 3) == g.first){ vp_assert(m < g.second.size(), "group_by keeps the elements"); ok &= g.second[m].v == v[i].v; ++m; }
			ok &= m == g.second.size();
			total += m;
		}
		vp_assert(ok && total == n, "group_by partitions the elements in their original order");
	}
	}
	vp_observe_val("x", x);
}
}
VP_ENTRY(c22_long){
	static const uint16_t sizes[] = {17, 33, 100, 257, 300, 1025};
	lengthy(sizes[vp_choice(VP_BOUND(3, 6), "size")]);
}
VP_ENTRY(c22_positions){
	size_t n = VP_BOUND(66000, 66000);
	std::vector<num> v(n, num{5});
	size_t at = vp_choice(2, "place") * (n - 1);
	uint32_t x = vp_sym<uint32_t>("x");
	v[at].v = x;
	auto r = utki::linq(v).select([](const num& e, size_t i){ return uint64_t(i) << 32 | e.v; }).get();
	vp_assert(r.size() == n, "select: one result per element");
	bool ok = true;
	for(size_t i = 0; i < n; ++i) ok &= r[i] == (uint64_t(i) << 32 | v[i].v);
	vp_assert(ok, "select maps every element with its position");
	vp_observe_val("x", x);
}
