// C23: views
#include "vp.h"
#include <utki/views.hpp>
#include <array>
#include <list>
#include <string>
#include <tuple>
#include <vector>
namespace {
template <class V> void fill(V& v, size_t n, const uint8_t* b){ v.assign(b, b + n); }
template <class V> std::vector<const uint8_t*> addresses(const V& v){ std::vector<const uint8_t*> r; for(auto& e : v) r.push_back(&e); return r; }
template <class A, class B> void zip2(size_t max){
	size_t n = vp_choice(max + 1, "n"), m = vp_choice(max + 1, "m");
	vp_buf<uint8_t> x(n, "x"), y(m, "y");
	A a; B b;
	fill(a, n, x.p);
	fill(b, m, y.p);
	auto pa = addresses(a), pb = addresses(b);
	size_t k = 0, min = n < m ? n : m;
	uint8_t add = vp_sym<uint8_t>("add");
	bool ok = true;
	for(auto t : utki::views::zip(a, b)){
		vp_assert(k < min, "as many tuples as the shortest collection has elements");
		vp_assert(&std::get<0>(t) == pa[k] && &std::get<1>(t) == pb[k], "the elements in place");
		ok &= std::get<0>(t) == x[k];
		ok &= std::get<1>(t) == y[k];
		std::get<0>(t) = uint8_t(std::get<0>(t) + add);
		++k;
	}
	vp_assert(k == min, "every position is visited");
	vp_assert(ok, "the elements' values");
	size_t i = 0;
	for(auto& e : a){ ok &= e == uint8_t(x[i] + (i < min ? add : 0)); ++i; }
	vp_assert(i == n && a.size() == n, "size unchanged");
	i = 0;
	for(auto& e : b){ ok &= e == y[i]; ++i; }
	vp_assert(i == m, "size unchanged");
	vp_assert(ok, "no other element is written");
	// const collections
	const A& ca = a;
	const B& cb = b;
	k = 0;
	for(auto t : utki::views::zip(ca, cb)){
		vp_assert(k < min && &std::get<0>(t) == pa[k] && &std::get<1>(t) == pb[k], "const: the elements in place");
		++k;
	}
	vp_assert(k == min, "const: every position is visited");
	k = 0;
	for(auto t : utki::views::zip(cb, a)){
		vp_assert(k < min && &std::get<1>(t) == pa[k] && &std::get<0>(t) == pb[k], "mixed: the elements in place");
		++k;
	}
	vp_assert(k == min, "mixed: every position is visited");
	vp_observe_val("k", k);
	vp_reach(n > m ? "first longer" : n < m ? "second longer" : "equal");
}
template <class V> void reverse_and_skip(size_t max){
	size_t n = vp_choice(max + 1, "n");
	vp_buf<uint8_t> x(n, "x");
	V v;
	fill(v, n, x.p);
	auto pv = addresses(v);
	size_t k = 0;
	bool ok = true;
	for(auto& e : utki::views::reverse(v)){
		vp_assert(k < n && &e == pv[n - 1 - k], "elements in place, backwards");
		ok &= e == x[n - 1 - k];
		++k;
	}
	vp_assert(k == n, "all elements");
	k = 0;
	const V& cv = v;
	for(auto& e : utki::views::reverse(cv)){ vp_assert(k < n && &e == pv[n - 1 - k], "const: elements in place, backwards"); ++k; }
	vp_assert(k == n, "const: all elements");
	auto skip = [&](auto view, size_t s){
		size_t k = s;
		for(auto& e : view){ vp_assert(k < n && &e == pv[k], "elements in place after the skipped ones"); ok &= e == x[k]; ++k; }
		vp_assert(k == n, "all but the first N elements");
	};
	skip(utki::skip_front<0>(v), 0);
	if(n >= 1){ skip(utki::skip_front<1>(v), 1); skip(utki::skip_front<1>(cv), 1); }
	if(n >= 2) skip(utki::skip_front<2>(v), 2);
	if(n >= 4) skip(utki::skip_front<4>(v), 4);
	vp_assert(ok, "values");
	vp_observe_val("n", n);
}
}
VP_ENTRY(c23_zip_vector_vector){ zip2<std::vector<uint8_t>, std::vector<uint8_t>>(VP_BOUND(4, 7)); }
VP_ENTRY(c23_zip_list_vector){ zip2<std::list<uint8_t>, std::vector<uint8_t>>(VP_BOUND(3, 5)); }
VP_ENTRY(c23_zip_vector_list){ zip2<std::vector<uint8_t>, std::list<uint8_t>>(VP_BOUND(3, 5)); }
VP_ENTRY(c23_zip3){
	size_t n = vp_choice(VP_BOUND(4, 5), "n"), m = vp_choice(VP_BOUND(4, 5), "m"), l = vp_choice(VP_BOUND(4, 5), "l");
	vp_buf<uint8_t> x(n, "x"), y(m, "y"), z(l, "z");
	std::vector<uint8_t> a(x.p, x.p + n);
	std::list<uint8_t> b(y.p, y.p + m);
	const std::vector<uint8_t> c(z.p, z.p + l);
	auto pb = addresses(b);
	size_t min = n < m ? n : m, k = 0;
	if(l < min) min = l;
	bool ok = true;
	for(auto [p, q, r] : utki::views::zip(a, b, c)){
		vp_assert(k < min, "as many tuples as the shortest collection has elements");
		vp_assert(&p == a.data() + k && &q == pb[k] && &r == c.data() + k, "the elements in place");
		ok &= p == x[k];
		ok &= q == y[k];
		ok &= r == z[k];
		++k;
	}
	vp_assert(k == min, "every position is visited");
	vp_assert(ok, "values");
	vp_observe_val("k", k);
}
VP_ENTRY(c23_zip_one){
	size_t n = vp_choice(VP_BOUND(4, 6), "n");
	vp_buf<uint8_t> x(n, "x");
	std::vector<uint8_t> a(x.p, x.p + n);
	size_t k = 0;
	for(auto t : utki::views::zip(a)){ vp_assert(k < n && &std::get<0>(t) == a.data() + k, "single collection"); ++k; }
	vp_assert(k == n, "all elements");
	std::array<uint8_t, 3> arr{{1, 2, 3}};
	k = 0;
	for(auto t : utki::views::zip(arr, a)){ vp_assert(k < 3 && k < n && &std::get<0>(t) == &arr[k] && &std::get<1>(t) == a.data() + k, "array"); ++k; }
	vp_assert(k == (n < 3 ? n : 3), "array: count");
	vp_observe_val("n", n);
}
VP_ENTRY(c23_reverse_vector){ reverse_and_skip<std::vector<uint8_t>>(VP_BOUND(5, 8)); }
VP_ENTRY(c23_reverse_list){ reverse_and_skip<std::list<uint8_t>>(VP_BOUND(5, 8)); }
// long collections, one element arbitrary
namespace {
template <class A, class B> void zip_long(){
	static const uint16_t s[] = {8, 16, 17, 64, 129, 256, 257, 1000};
	size_t n = s[vp_choice(VP_BOUND(7, 8), "n")];
	size_t m = n + vp_choice(3, "difference");
	vp_buf<uint8_t> x(n), y(m);
	for(size_t i = 0; i < n; ++i) x[i] = uint8_t(i * 3);
	for(size_t i = 0; i < m; ++i) y[i] = uint8_t(i * 5);
	bool swap = vp_choice(2, "swap");
	size_t at = vp_choice(2, "at") * (n - 1);
	x[at] = vp_sym<uint8_t>("x");
	A a; B b;
	if(swap){ fill(a, m, y.p); fill(b, n, x.p); } else { fill(a, n, x.p); fill(b, m, y.p); }
	auto pa = addresses(a), pb = addresses(b);
	size_t k = 0;
	bool ok = true;
	for(auto t : utki::views::zip(a, b)){
		vp_assert(k < n, "as many tuples as the shortest collection has elements");
		vp_assert(&std::get<0>(t) == pa[k] && &std::get<1>(t) == pb[k], "the elements in place");
		ok &= (swap ? std::get<1>(t) : std::get<0>(t)) == x[k];
		++k;
	}
	vp_assert(k == n && ok, "every position is visited");
	k = pa.size();
	for(auto& e : utki::views::reverse(a)){ vp_assert(k != 0 && &e == pa[k - 1], "elements in place, backwards"); --k; }
	vp_assert(k == 0, "all elements");
	k = 5;
	for(auto& e : utki::skip_front<5>(a)){ vp_assert(k < pa.size() && &e == pa[k], "elements in place after the skipped ones"); ++k; }
	vp_assert(k == pa.size(), "all but the first N elements");
	vp_observe_val("n", n);
}
}
VP_ENTRY(c23_long){ zip_long<std::vector<uint8_t>, std::vector<uint8_t>>(); }
VP_ENTRY(c23_long_list){ zip_long<std::list<uint8_t>, std::vector<uint8_t>>(); }
VP_ENTRY(c23_long_list2){ if(VP_TIER) zip_long<std::vector<uint8_t>, std::list<uint8_t>>(); }
// more elements than fit 16 bits
VP_ENTRY(c23_huge){
	size_t n = 65537;
	std::vector<uint8_t> a(n + vp_choice(2, "longer"), 1);
	std::vector<uint8_t> b(n, 2);
	uint8_t x = b[n - 1] = vp_sym<uint8_t>("last");
	size_t k = 0, sum = 0;
	bool ok = true;
	for(auto t : utki::views::zip(a, b)){
		ok &= &std::get<0>(t) == a.data() + k;
		ok &= &std::get<1>(t) == b.data() + k;
		if(k >= n) break;
		sum += std::get<1>(t);
		++k;
	}
	vp_assert(ok && k == n && sum == 2 * (n - 1) + x, "every position is visited");
	for(auto& e : utki::views::reverse(b)){ ok &= k != 0 && &e == b.data() + k - 1; if(k == 0) break; --k; }
	vp_assert(ok && k == 0, "every element, backwards");
	k = 3;
	for(auto& e : utki::skip_front<3>(b)){ ok &= &e == b.data() + k; if(k >= n) break; ++k; }
	vp_assert(ok && k == n, "every element after the skipped ones");
	vp_observe_val("x", x);
}
