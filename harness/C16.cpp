// C16: tree insertion and removal
#include "vp.h"
#include <utki/tree.hpp>
#include <list>
#include "forest.h"
namespace {
// the forest is exactly the stated one
template <class T> void same(const typename T::container_type& roots, const shape& s, const char* what){
	oracle<T> o(roots);
	vp_assert(o.node.size() == s.n, what);
	bool ok = true;
	for(size_t k = 0; k < s.n; ++k){
		vp_assert(o.path[k].size() == s.depth[k] + 1, what);
		ok &= o.node[k]->value == s.val[k];
	}
	vp_assert(ok, what);
}
template <class Tr, class It, class T> void returned(Tr& tr, It r, const oracle<T>& o, size_t k, const char* what){
	if(k == o.node.size()){ vp_assert(r == tr.end(), what); return; }
	vp_assert(r != tr.end() && &*r == o.node[k], what);
	vp_assert(r.index() == o.path[k], "the returned iterator knows the index");
	for(; k < o.node.size(); ++k, ++r) vp_assert(&*r == o.node[k], "the returned iterator continues in pre-order");
	vp_assert(r == tr.end(), "the returned iterator reaches the end");
}
enum { ins, ins_copy, after, after_copy, era, num_ops };
template <class T> void step(typename T::container_type& roots, shape& s, size_t stride = 1){
	using C = typename T::container_type;
	auto tr = utki::make_traversal(roots);
	unsigned op = unsigned(vp_choice(num_ops, "op"));
	size_t places = op == ins || op == ins_copy ? s.n + 1 : s.n; // the end is a place to insert before
	size_t at = places == 0 ? size_t(vp_choice(0, "at")) : places - 1 - stride * size_t(vp_choice((places - 1) / stride + 1, "at"));
	auto it = tr.begin();
	for(size_t k = 0; k < at; ++k) ++it;
	size_t d = at == s.n ? 0 : s.depth[at];
	if(op == era){
		size_t e = s.subtree_end(at);
		s.erase(at, e);
		auto r = tr.erase(it);
		same<T>(roots, s, "erasing removes exactly the node with its subtree");
		returned(tr, r, oracle<T>(roots), at, "erasing returns the next node in traversal order");
		return;
	}
	uint8_t v = vp_sym<uint8_t>("new"), w = vp_sym<uint8_t>("new child");
	bool child = vp_choice(2, "with child");
	C cs;
	std::vector<std::pair<size_t, uint8_t>> sub{{0, v}};
	if(child){ cs.push_back(T(w)); sub.push_back({1, w}); }
	T t(v, cs);
	size_t pos = op == ins || op == ins_copy ? at : s.subtree_end(at);
	s.insert(pos, d, sub);
	auto r = op == ins ? tr.insert(it, std::move(t)) : op == ins_copy ? tr.insert(it, t) : op == after ? tr.insert_after(it, std::move(t)) : tr.insert_after(it, t);
	same<T>(roots, s, "inserting adds exactly the subtree at exactly that place");
	returned(tr, r, oracle<T>(roots), pos, "inserting returns the new node");
	if(op == ins_copy || op == after_copy) vp_assert(t.value == v && t.children.size() == size_t(child), "the inserted value is copied");
}
template <class T> void history(size_t max, unsigned ops){
	size_t heap = vp_heap_count();
	{
		shape s(max);
		auto roots = s.build<T>(0, 0, s.n);
		for(unsigned k = 0; k < ops; ++k) step<T>(roots, s);
		vp_observe_val("n", s.n);
		s.depth = {}; s.val = {};
		roots = typename T::container_type();
	}
	(void)heap;
}
using V = utki::tree<uint8_t>;
using L = utki::tree<uint8_t, std::list>;
// inserting a copy of a node of the same tree
void self_insert(size_t max){
	shape s(max);
	auto roots = s.build<V>(0, 0, s.n);
	auto tr = utki::make_traversal(roots);
	size_t from = vp_choice(s.n, "from"), at = vp_choice(s.n, "at");
	auto i = tr.begin();
	for(size_t k = 0; k < from; ++k) ++i;
	auto j = tr.begin();
	for(size_t k = 0; k < at; ++k) ++j;
	std::vector<std::pair<size_t, uint8_t>> sub;
	for(size_t k = from; k < s.subtree_end(from); ++k) sub.push_back({s.depth[k] - s.depth[from], s.val[k]});
	bool aft = vp_choice(2, "after");
	size_t pos = aft ? s.subtree_end(at) : at;
	s.insert(pos, s.depth[at], sub);
	const V& t = *i;
	auto r = aft ? tr.insert_after(j, t) : tr.insert(j, t);
	same<V>(roots, s, "inserting a copy of a node of the tree");
	returned(tr, r, oracle<V>(roots), pos, "inserting returns the new node");
	vp_observe_val("n", s.n);
}
void equality(size_t max){
	shape a(max), b(max);
	V x(a.n ? a.val[0] : uint8_t(0), a.build<V>(0, 0, a.n)), y(a.n ? a.val[0] : uint8_t(0), b.build<V>(0, 0, b.n));
	bool eq = a.depth == b.depth;
	if(eq) for(size_t k = 0; k < a.n; ++k) eq &= a.val[k] == b.val[k];
	vp_assert((x == y) == eq && (y == x) == eq, "trees are equal exactly when shapes and values agree");
	V c = x;
	vp_assert(c == x, "a copy is equal");
	same<V>(c.children, a, "a copy has the same nodes");
	c = y;
	vp_assert(c == y, "an assigned tree is equal");
	same<V>(c.children, b, "an assigned tree has the same nodes");
	V m = std::move(c);
	same<V>(m.children, b, "a moved tree has the same nodes");
	uint8_t v = vp_sym<uint8_t>("other");
	m.value = v;
	vp_assert((m == y) == (v == y.value), "a different value makes it different");
	vp_assert((m == v) && ((y == v) == (y.value == v)), "comparison with a value");
	// changing one leaves the other
	if(!m.children.empty()){ m.children.front().value = uint8_t(m.children.front().value + 1); m.children.front().children.clear(); }
	same<V>(y.children, b, "a copy is independent");
	vp_observe_val("eq", eq);
}
}
namespace {
template <class T> void large(size_t size, size_t stride){
	shape s = shape::large(unsigned(vp_choice(shape::num_forms, "form")), size);
	auto roots = s.build<T>(0, 0, s.n);
	step<T>(roots, s, stride);
	vp_observe_val("n", s.n);
}
}
VP_ENTRY(c16_large){ if(VP_TIER) large<V>(vp_choice(2, "size") ? 34 : 12, 1); else large<V>(vp_choice(2, "size") ? 34 : 12, 3); }
VP_ENTRY(c16_large_list){ large<L>(VP_BOUND(12, 20), VP_BOUND(2, 1)); }
VP_ENTRY(c16_one_op){ history<V>(VP_BOUND(4, 5), 1); }
VP_ENTRY(c16_two_ops){ history<V>(VP_BOUND(2, 3), 2); }
VP_ENTRY(c16_list){ history<L>(VP_BOUND(3, 4), 1); }
VP_ENTRY(c16_self){ self_insert(VP_BOUND(3, 4)); }
VP_ENTRY(c16_equality){ equality(VP_BOUND(2, 3)); }
// more children than fit 16 bits
VP_ENTRY(c16_huge){
	using T = utki::tree<uint8_t>;
	size_t n = 65537;
	std::vector<T> roots(1);
	roots[0].children.reserve(n + 1);
	roots[0].children.resize(n);
	auto tr = utki::make_traversal(roots);
	uint8_t v = vp_sym<uint8_t>("new");
	vp_assume(v != 0);
	unsigned op = unsigned(vp_choice(3, "op"));
	auto it = tr.make_iterator({0, n - 1});
	auto r = op == 0 ? tr.insert(it, T(v)) : op == 1 ? tr.insert_after(it, T(v)) : tr.erase(it);
	auto& c = roots[0].children;
	vp_assert(c.size() == (op == 2 ? n - 1 : n + 1), "one node more or less");
	size_t at = op == 0 ? n - 1 : n;
	if(op < 2){
		vp_assert(c[at].value == v && &*r == &c[at] && r.index() == std::vector<size_t>({0, at}), "the new node in its place");
		vp_assert(c[at - 1].value == 0 && c[2 * n - 1 - at].value == 0, "the others in theirs");
	} else vp_assert(r == tr.end(), "erasing returns the next node in traversal order");
	vp_observe_val("v", v);
}
