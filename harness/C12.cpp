// C12: enumeration ranges and enumeration-indexed arrays
#include "vp.h"
#include <utki/enum_array.hpp>
#include <utki/enum_iterable.hpp>
enum class e1 { a, enum_size };
enum class e5 { a, b, c, d, e, enum_size };
enum class e7c : signed char { a, enum_size = 7 };
enum class e70 : uint16_t { a, enum_size = 70 };
enum class e127 : int8_t { a, enum_size = 127 };
enum class e200 : uint8_t { a, enum_size = 200 };
enum class e255 : uint8_t { a, enum_size = 255 };
enum class e256 : uint16_t { a, enum_size = 256 };
enum class e257 : int16_t { a, enum_size = 257 };
enum class e300 { a, enum_size = 300 };
enum class e1000 : uint64_t { a, enum_size = 1000 };
enum class e66000 : uint32_t { a, enum_size = 66000 };
namespace {
template <class En> constexpr size_t N = size_t(En::enum_size);
template <class En> void iterate(){
	utki::enum_iterable<En> it;
	size_t k = 0;
	for(auto e : it){
		vp_assert(k < N<En>, "iteration ends after the last item");
		vp_assert(size_t(e) == k, "items come in order, each once");
		++k;
	}
	vp_assert(k == N<En>, "every item is visited");
	vp_assert(it.size() == N<En>, "size is the item count");
	k = 0;
	for(auto i = it.cbegin(); i != it.cend(); ++i){ vp_assert(k < N<En> && size_t(*i) == k, "const iteration"); ++k; }
	vp_assert(k == N<En>, "const iteration visits every item");
	vp_assert(utki::enum_iterable_v<En>.size() == N<En>, "size");
	k = 0;
	for(auto e : utki::enum_iterable_v<En>){ vp_assert(k < N<En> && size_t(e) == k, "variable template"); ++k; }
	vp_assert(k == N<En>, "variable template visits every item");
	auto i = it.begin();
	auto& r = ++i;
	vp_assert(&r == &i, "increment returns the iterator itself");
}
template <class En, class T> void array(){
	utki::enum_array<T, En> a;
	vp_assert(a.size() == N<En>, "one element per item");
	T init[N<En>];
	vp_sym_bytes(init, sizeof init, "initial");
	size_t k = 0;
	for(auto& e : a){ e = init[k]; ++k; }
	vp_assert(k == N<En>, "as many elements as items");
	const auto& ca = a;
	size_t i = vp_sym<uint16_t>("item");
	vp_assume(i < N<En>);
	vp_assert(ca[En(i)] == init[i], "the element at the item's position is read");
	T v = vp_sym<T>("value");
	a[En(i)] = v;
	bool ok = true;
	for(size_t j = 0; j < N<En>; ++j) ok &= ca[En(j)] == (j == i ? v : init[j]);
	vp_assert(ok, "only the element at the item's position is written");
	for(size_t j = 0; j < N<En>; ++j) vp_assert(&a[En(j)] == a.data() + j && &ca[En(j)] == a.data() + j && &a[j] == a.data() + j, "position");
	vp_observe_val("v", v);
}
template <class En, class T> void zip(){
	utki::enum_array<T, En> a;
	T init[N<En>];
	vp_sym_bytes(init, sizeof init, "initial");
	for(size_t j = 0; j < N<En>; ++j) a[j] = init[j];
	size_t k = 0;
	T x = vp_sym<T>("x");
	bool ok = true;
	for(auto p : a.zip_with_enum()){
		vp_assert(k < N<En>, "no more pairs than items");
		vp_assert(&std::get<0>(p) == a.data() + k, "the element by reference");
		vp_assert(size_t(std::get<1>(p)) == k, "its own item");
		ok &= std::get<0>(p) == init[k];
		std::get<0>(p) = T(init[k] ^ x);
		++k;
	}
	vp_assert(k == N<En>, "a pair for every item");
	vp_assert(ok, "values seen");
	for(size_t j = 0; j < N<En>; ++j) ok &= a[j] == T(init[j] ^ x);
	vp_assert(ok, "writing through the pair writes the element");
	const auto& ca = a;
	k = 0;
	for(const auto& p : ca.zip_with_enum()){
		vp_assert(k < N<En> && &std::get<0>(p) == a.data() + k && size_t(std::get<1>(p)) == k, "pairs of a const array");
		++k;
	}
	vp_assert(k == N<En>, "a pair for every item of a const array");
	vp_observe("a", a.data(), sizeof(T) * N<En>);
}
}
VP_ENTRY(c12_iter_small){ iterate<e1>(); iterate<e5>(); iterate<e7c>(); vp_reach("done"); }
VP_ENTRY(c12_iter_big){ iterate<e70>(); iterate<e127>(); iterate<e200>(); iterate<e255>(); iterate<e256>(); iterate<e257>(); iterate<e300>(); iterate<e1000>(); vp_reach("done"); }
VP_ENTRY(c12_array_1){ array<e1, uint32_t>(); }
VP_ENTRY(c12_array_5){ array<e5, uint64_t>(); }
VP_ENTRY(c12_array_7c){ array<e7c, uint16_t>(); }
VP_ENTRY(c12_array_70){ array<e70, uint8_t>(); }
VP_ENTRY(c12_array_200){ array<e200, uint8_t>(); }
VP_ENTRY(c12_array_255){ array<e255, uint8_t>(); }
VP_ENTRY(c12_zip_1){ zip<e1, uint32_t>(); }
VP_ENTRY(c12_zip_5){ zip<e5, uint32_t>(); }
VP_ENTRY(c12_zip_7c){ zip<e7c, uint8_t>(); }
VP_ENTRY(c12_zip_70){ zip<e70, uint8_t>(); }
VP_ENTRY(c12_zip_200){ zip<e200, uint8_t>(); }
VP_ENTRY(c12_array_257){ array<e257, uint8_t>(); }
VP_ENTRY(c12_array_300){ array<e300, uint32_t>(); }
VP_ENTRY(c12_zip_256){ zip<e256, uint8_t>(); }
VP_ENTRY(c12_zip_300){ zip<e300, uint16_t>(); }
// more items than fit 16 bits
VP_ENTRY(c12_huge){
	size_t k = 0;
	bool ok = true;
	for(auto e : utki::enum_iterable<e66000>()){ ok &= size_t(e) == k; ++k; if(k > 66000) break; }
	vp_assert(ok && k == 66000 && utki::enum_iterable<e66000>().size() == 66000, "iteration visits every item once");
	auto& a = *new utki::enum_array<uint8_t, e66000>;
	memset(a.data(), 0, 66000);
	static const uint32_t items[] = {0, 255, 256, 32768, 65535, 65536, 65999};
	size_t i = items[vp_choice(7, "item")];
	uint8_t v = vp_sym<uint8_t>("value");
	a[e66000(i)] = v;
	vp_assert(a.data()[i] == v && &a[e66000(i)] == a.data() + i && a.size() == 66000, "the element at the item's position");
	a.fill(1);
	k = 0;
	for(auto p : a.zip_with_enum()){ ok &= &std::get<0>(p) == a.data() + k; ok &= size_t(std::get<1>(p)) == k; ++k; if(k > 66000) break; }
	vp_assert(ok && k == 66000, "a pair for every item");
	delete &a;
	vp_observe_val("v", v);
}
