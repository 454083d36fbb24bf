// C15: tree traversal
#include "vp.h"
#include <utki/tree.hpp>
#include <algorithm>
#include <list>
#include <stdexcept>
#include "forest.h"
namespace {
using T = utki::tree<uint8_t>;
template <class It> void node_queries(It it, const oracle<T>& o, size_t k){
	const auto& cit = it;
	vp_assert(&*it == o.node[k] && it.operator->() == o.node[k] && &*cit == o.node[k], "the node in pre-order");
	vp_assert(it.depth() == o.path[k].size(), "depth");
	auto ix = it.index();
	vp_assert(ix == o.path[k], "the index of the node");
	for(size_t d = 0; d < o.path[k].size(); ++d) vp_assert(&it.at_level(d) == o.ancestor(k, d) && &cit.at_level(d) == o.ancestor(k, d), "the ancestor at each level");
	size_t over = vp_sym<size_t>("level");
	vp_assume(over >= o.path[k].size());
	vp_assert(vp_outcome<std::out_of_range>([&]{ it.at_level(over); }) == 1, "no ancestor below the node itself");
	vp_assert(vp_outcome<std::out_of_range>([&]{ cit.at_level(over); }) == 1, "no ancestor below the node itself (const)");
	vp_assert(it.is_last_child() == o.last[k], "last child query");
}
void walk(const shape& s){
	auto roots = s.build<T>(0, 0, s.n);
	oracle<T> o(roots);
	vp_assert(o.node.size() == s.n, "self check");
	auto tr = utki::make_traversal(roots);
	const auto& croots = roots;
	auto ctr = utki::make_traversal(croots);
	auto end = tr.end();
	vp_assert(!end.is_last_child(), "the end is no last child");
	size_t k = 0;
	bool vals = true;
	for(auto& n : tr){ vp_assert(k < s.n && &n == o.node[k], "forward iteration in pre-order"); vals &= n.value == s.val[k]; ++k; }
	vp_assert(k == s.n && vals, "forward iteration visits every node");
	k = 0;
	for(const auto& n : ctr){ vp_assert(k < s.n && &n == o.node[k], "const forward iteration in pre-order"); ++k; }
	vp_assert(k == s.n, "const forward iteration visits every node");
	for(auto i = tr.rbegin(); i != tr.rend(); ++i){ vp_assert(k != 0 && &*i == o.node[k - 1], "reverse iteration"); --k; }
	vp_assert(k == 0, "reverse iteration visits every node");
	k = s.n;
	for(auto i = ctr.crbegin(); i != ctr.crend(); ++i){ vp_assert(k != 0 && &*i == o.node[k - 1], "const reverse iteration"); --k; }
	vp_assert(k == 0, "const reverse iteration visits every node");
	// every position
	auto it = tr.begin();
	auto ct = tr.cbegin();
	for(k = 0; k < s.n; ++k, ++it, ++ct){
		vp_assert(it != end && !(it == end), "not yet at the end");
		node_queries(it, o, k);
		node_queries(ct, o, k);
		auto fw = it;
		auto& r = ++fw;
		vp_assert(&r == &fw && !(fw == it), "stepping");
		--fw;
		vp_assert(fw == it && &*fw == o.node[k], "forward then back returns to the same node");
		vp_assert(fw.index() == o.path[k], "forward then back gives the same index");
		if(k != 0){ auto bw = it; --bw; vp_assert(&*bw == o.node[k - 1], "one step back"); ++bw; vp_assert(bw == it, "back then forward returns to the same node"); }
		auto mi = tr.make_iterator(o.path[k]);
		vp_assert(mi == it && &*mi == o.node[k], "the index leads back to the node");
		auto mc = ctr.make_const_iterator(o.path[k]);
		vp_assert(&*mc == o.node[k] && mc.index() == o.path[k], "the index leads back to the node (const)");
		vp_assert(&*ctr.make_iterator(o.path[k]) == o.node[k], "the index leads back to the node (const)");
		vp_assert(&tr[o.path[k]] == o.node[k], "subscript by index");
		const auto& ktr = ctr;
		vp_assert(&ktr[o.path[k]] == o.node[k] && &ktr[utki::make_span(o.path[k])] == o.node[k], "const subscript by index");
		vp_assert(tr.is_valid(o.path[k]) && ctr.is_valid(utki::make_span(o.path[k])), "the node's index is valid");
		++mi;
		if(k + 1 < s.n) vp_assert(&*mi == o.node[k + 1], "an iterator made from an index continues"); else vp_assert(mi == end, "an iterator made from an index reaches the end");
	}
	vp_assert(it == end && !(it != end), "reached the end");
	vp_observe_val("n", s.n);
}
void order(const shape& s){
	auto roots = s.build<T>(0, 0, s.n);
	auto tr = utki::make_traversal(roots);
	std::vector<decltype(tr.begin())> its;
	for(auto i = tr.begin(); i != tr.end(); ++i) its.push_back(i);
	its.push_back(tr.end());
	size_t a = vp_choice(its.size(), "a"), b = vp_choice(its.size(), "b");
	auto &x = its[a], &y = its[b];
	vp_assert((x == y) == (a == b) && (x != y) == (a != b), "equality of iterators");
	vp_assert((x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b), "iterator order is the visiting order");
	vp_observe_val("n", s.n);
}
void index(size_t max, size_t len){
	shape s(max);
	auto roots = s.build<T>(0, 0, s.n);
	oracle<T> o(roots);
	auto tr = utki::make_traversal(roots);
	const auto& croots = roots;
	const auto ctr = utki::make_traversal(croots);
	size_t n = vp_choice(len + 1, "len");
	std::vector<size_t> ix;
	for(size_t k = 0; k < n; ++k){
		size_t v = vp_choice(max + 1, "i");
		if(v == max){ v = vp_sym<size_t>("big"); vp_assume(v >= max); }
		ix.push_back(v);
	}
	const T* want = nullptr;
	for(size_t k = 0; k < s.n; ++k){
		bool same = o.path[k].size() == n;
		for(size_t j = 0; same && j < n; ++j) same = o.path[k][j] == ix[j];
		if(same) want = o.node[k];
	}
	bool v1 = tr.is_valid(ix), v2 = tr.is_valid(utki::make_span(ix));
	vp_assert(v1 == (want != nullptr) && v2 == v1, "an index is valid exactly when such a node exists");
	if(n != 0){
		const T* got = nullptr;
		int r = vp_outcome<std::out_of_range>([&]{ got = &*tr.make_iterator(ix); });
		vp_assert(r == (want ? 0 : 1), "an index outside of the tree throws std::out_of_range");
		vp_assert(r == 1 || got == want, "the index leads to the node");
		got = nullptr;
		r = vp_outcome<std::out_of_range>([&]{ got = &*ctr.make_const_iterator(utki::make_span(ix)); });
		vp_assert(r == (want ? 0 : 1) && (r == 1 || got == want), "const: an index outside of the tree throws std::out_of_range");
	}
	if(n == 2){
		vp_assert(tr.is_valid({ix[0], ix[1]}) == v1, "index given as a list");
		if(v1) vp_assert(&tr[{ix[0], ix[1]}] == want && &*tr.make_iterator({ix[0], ix[1]}) == want && &*ctr.make_const_iterator({ix[0], ix[1]}) == want, "index given as a list");
	}
	vp_reach(want ? "valid" : "invalid");
	vp_observe_val("v", v1);
}
// children in a linked list
using L = utki::tree<uint8_t, std::list>;
void list_walk(const shape& s){
	auto roots = s.build<L>(0, 0, s.n);
	oracle<L> o(roots);
	auto tr = utki::make_traversal(roots);
	size_t k = 0;
	for(auto i = tr.begin(); i != tr.end(); ++i){
		vp_assert(k < s.n && &*i == o.node[k], "forward iteration in pre-order");
		vp_assert(i.index() == o.path[k] && i.is_last_child() == o.last[k] && i.depth() == o.path[k].size(), "index and depth");
		vp_assert(&*tr.make_iterator(o.path[k]) == o.node[k], "the index leads back to the node");
		++k;
	}
	vp_assert(k == s.n, "forward iteration visits every node");
	for(auto i = tr.end(); k != 0;){ --i; --k; vp_assert(&*i == o.node[k], "backward iteration"); }
	for(auto i = tr.rbegin(); i != tr.rend(); ++i) ++k;
	vp_assert(k == s.n, "reverse iteration visits every node");
	vp_observe_val("n", s.n);
}
}
namespace {
shape some_large(){
	static const uint16_t quick[] = {12, 34}, all[] = {9, 12, 17, 34, 70, 140, 300};
	unsigned form = unsigned(vp_choice(shape::num_forms, "form"));
	size_t size = VP_TIER ? all[vp_choice(7, "size")] : quick[vp_choice(2, "size")];
	if(form == shape::chain && size > 70) size = 70;
	return shape::large(form, size);
}
}
VP_ENTRY(c15_large){ walk(some_large()); }
VP_ENTRY(c15_large_list){ list_walk(some_large()); }
VP_ENTRY(c15_large_order){ order(shape::large(unsigned(vp_choice(shape::num_forms, "form")), VP_BOUND(12, 20))); }
VP_ENTRY(c15_large_index){
	shape s = some_large();
	auto roots = s.build<T>(0, 0, s.n);
	oracle<T> o(roots);
	auto tr = utki::make_traversal(roots);
	// around every node: one component replaced, one more component
	size_t v = vp_sym<size_t>("component");
	for(size_t k = 0; k < s.n; k += s.n > 40 ? 7 : 1){
		auto ix = o.path[k];
		size_t width = 0;
		for(size_t j = 0; j < s.n; ++j) width += o.path[j].size() == ix.size() && std::equal(ix.begin(), ix.end() - 1, o.path[j].begin());
		ix.back() = v;
		vp_assert(tr.is_valid(ix) == (v < width), "an index is valid exactly when such a node exists");
		ix.back() = width;
		vp_assert(!tr.is_valid(ix) && vp_outcome<std::out_of_range>([&]{ tr.make_iterator(ix); }) == 1, "one past the last sibling");
		ix = o.path[k];
		ix.push_back(s.subtree_end(k) - k); // more than it has children
		vp_assert(!tr.is_valid(ix) && vp_outcome<std::out_of_range>([&]{ tr.make_iterator(ix); }) == 1, "no such child");
	}
	vp_observe_val("n", s.n);
}
VP_ENTRY(c15_walk){ walk(shape(VP_BOUND(5, 7))); }
VP_ENTRY(c15_order){ order(shape(VP_BOUND(5, 6))); }
VP_ENTRY(c15_index){ index(VP_BOUND(3, 4), VP_BOUND(3, 3)); }
VP_ENTRY(c15_list){ list_walk(shape(VP_BOUND(5, 6))); }
// more children than fit 16 bits
VP_ENTRY(c15_huge){
	size_t n = 65537;
	std::vector<T> roots(2);
	roots[1].children.resize(n);
	uint8_t v = vp_sym<uint8_t>("value");
	roots[1].children[n - 1].value = v;
	auto tr = utki::make_traversal(roots);
	size_t k = 0;
	bool ok = true;
	auto it = tr.begin();
	for(; it != tr.end() && k < n + 3; ++it, ++k) ok &= &*it == (k < 2 ? &roots[k] : &roots[1].children[k - 2]);
	vp_assert(ok && k == n + 2, "every node once, in order");
	for(; k > 0 && ok; --k){ --it; ok &= &*it == (k <= 2 ? &roots[k - 1] : &roots[1].children[k - 3]); }
	vp_assert(ok && it == tr.begin(), "every node once, backwards");
	size_t i = vp_choice(2, "index") ? n - 1 : 65535;
	auto j = tr.make_iterator({1, i});
	vp_assert(&*j == &roots[1].children[i] && j.index() == std::vector<size_t>({1, i}) && j.is_last_child() == (i == n - 1), "the node of an index");
	size_t c = vp_sym<size_t>("component");
	vp_assert(tr.is_valid({1, c}) == (c < n), "an index is valid exactly when such a node exists");
	vp_observe_val("v", v);
}
