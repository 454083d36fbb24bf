// C20: shared and unique references
#include "vp.h"
#include <utki/shared_ref.hpp>
#include <utki/unique_ref.hpp>
#include <utki/shared.hpp>
#include <memory>
#include <typeinfo>
#include <vector>
namespace {
int alive[4];
struct base { virtual ~base() { --alive[id]; } int id; uint32_t v; base(int id, uint32_t v) : id(id), v(v) { ++alive[id]; } base(const base&) = delete; bool operator==(const base& o) const { return v == o.v; } bool operator<(const base& o) const { return v < o.v; } };
struct other { virtual ~other() = default; uint64_t w = 5; };
struct derived : public other, public base { uint32_t d; derived(int id, uint32_t v) : base(id, v), d(~v) {} }; // base is not at the start
struct leaf : public derived { using derived::derived; };
struct unrelated : public base { using base::base; };

using sb = utki::shared_ref<base>;
using sd = utki::shared_ref<derived>;
using scb = utki::shared_ref<const base>;
// owners of up to 3 objects; which object each owner refers to is tracked by its id
struct owners {
	std::vector<std::pair<int, sb>> b;
	std::vector<std::pair<int, sd>> d;
	std::vector<std::pair<int, scb>> c;
	std::vector<std::pair<int, std::shared_ptr<base>>> p;
	std::vector<std::pair<int, std::weak_ptr<base>>> w;
};
void history(unsigned ops){
	for(auto& a : alive) a = 0;
	uint32_t vals[4];
	vp_sym_bytes(vals, sizeof vals, "vals");
	const base* addr[4] = {};
	int made = 0;
	{
		owners o;
		auto check = [&]{
			int n[4] = {};
			bool ok = true;
			for(auto& x : o.b){ ++n[x.first]; const base& r = x.second; vp_assert(&x.second.get() == addr[x.first] && &r == addr[x.first] && x.second.to_shared_ptr().get() == addr[x.first], "yields the very object"); ok &= x.second.get().v == vals[x.first]; }
			for(auto& x : o.d){ ++n[x.first]; vp_assert(&x.second.get() == dynamic_cast<const derived*>(addr[x.first]), "yields the very object"); ok &= x.second.get().v == vals[x.first]; ok &= x.second.get().d == ~vals[x.first]; }
			for(auto& x : o.c){ ++n[x.first]; vp_assert(&x.second.get() == addr[x.first], "yields the very object"); ok &= x.second.get().v == vals[x.first]; }
			for(auto& x : o.p) ++n[x.first];
			vp_assert(ok, "the object's content is kept");
			for(int i = 0; i < made; ++i) vp_assert(alive[i] == (n[i] ? 1 : 0), "alive exactly while there is an owner");
			for(auto& x : o.w) vp_assert(x.second.expired() == (n[x.first] == 0) && x.second.lock().get() == (n[x.first] ? addr[x.first] : nullptr), "weak pointers follow");
			for(auto& x : o.b) vp_assert(x.second.to_shared_ptr().use_count() == n[x.first], "all owners share ownership");
			for(auto& x : o.d) vp_assert(x.second.to_shared_ptr().use_count() == n[x.first], "all owners share ownership");
		};
		for(unsigned k = 0; k < ops; ++k){
			unsigned op = unsigned(vp_choice(12, "op"));
			switch(op){
			case 0: { if(made == 3) return; int id = made++; auto r = utki::make_shared<derived>(id, vals[id]); addr[id] = &r.get(); o.d.emplace_back(id, r); break; }
			case 1: { if(made == 3) return; int id = made++; sb r(std::make_shared<base>(id, vals[id])); addr[id] = &r.get(); o.b.emplace_back(id, std::move(r)); break; }
			case 2: { if(o.d.empty()) return; auto& x = o.d.back(); o.b.emplace_back(x.first, sb(x.second)); break; } // to base
			case 3: { if(o.b.empty()) return; auto& x = o.b.back(); scb c = x.second; o.c.emplace_back(x.first, c); break; } // to const
			case 4: { if(o.b.empty()) return; sb r(o.b.front().second); o.b.emplace_back(o.b.front().first, r); break; } // copy
			case 5: { if(o.b.size() < 2) return; o.b.front().second = o.b.back().second; o.b.front().first = o.b.back().first; break; } // copy assignment
			case 6: { if(o.b.empty()) return; sb r(std::move(o.b.back().second)); int id = o.b.back().first; o.b.pop_back(); o.b.emplace_back(id, std::move(r)); break; } // move
			case 7: { if(o.b.size() < 2) return; auto m = std::move(o.b.back()); o.b.pop_back(); o.b.front().second = std::move(m.second); o.b.front().first = m.first; break; } // move assignment
			case 8: { if(o.b.empty()) return; o.b.erase(o.b.begin()); break; }
			case 9: { if(o.d.empty()) return; o.d.pop_back(); break; }
			case 10: { if(o.b.empty()) return; auto& x = o.b.back(); const std::shared_ptr<base>& s = x.second; o.p.emplace_back(x.first, s); std::weak_ptr<base> w = x.second; o.w.emplace_back(x.first, w); o.w.emplace_back(x.first, utki::make_weak(x.second)); break; }
			default: { if(o.c.empty() && o.p.empty()) return; o.c.clear(); o.p.clear(); break; }
			}
			check();
		}
	}
	for(int i = 0; i < made; ++i) vp_assert(alive[i] == 0, "destroyed with the last owner");
	vp_observe_val("made", made);
	vp_reach("complete");
}
void casts(){
	for(auto& a : alive) a = 0;
	uint32_t v = vp_sym<uint32_t>("v");
	unsigned kind = unsigned(vp_choice(4, "dynamic type"));
	{
		sb r = kind == 0 ? sb(utki::make_shared<base>(0, v)) : kind == 1 ? sb(utki::make_shared<derived>(0, v)) : kind == 2 ? sb(utki::make_shared<leaf>(0, v)) : sb(utki::make_shared<unrelated>(0, v));
		const base* p = &r.get();
		bool is = kind == 1 || kind == 2;
		// other owners and observers do not matter
		std::vector<sb> owners(size_t(vp_choice(3, "other owners")), r);
		std::vector<std::weak_ptr<base>> observers(size_t(vp_choice(2, "observers")), std::weak_ptr<base>(r));
		const long own = 1 + long(owners.size());
		int res = vp_outcome<std::bad_cast>([&]{
			auto d = utki::dynamic_reference_cast<derived>(r);
			static_assert(std::is_same_v<decltype(d), sd>);
			vp_assert(static_cast<const base*>(&d.get()) == p && d.get().v == v, "the checked cast returns the same object");
			vp_assert(r.to_shared_ptr().use_count() == own + 1, "the checked cast shares ownership");
			// keeps it alive on its own
			sb gone = std::move(r);
			r = sb(d);
		});
		vp_assert(res == (is ? 0 : 1), "the checked cast returns or throws std::bad_cast");
		vp_assert(alive[0] == 1 && r.to_shared_ptr().use_count() == own, "the cast's result is gone");
		res = vp_outcome<std::bad_cast>([&]{ auto o = utki::dynamic_reference_cast<other>(r); vp_assert(o.get().w == 5, "cross cast"); });
		vp_assert(res == (is ? 0 : 1), "cross cast returns or throws std::bad_cast");
		res = vp_outcome<std::bad_cast>([&]{ auto o = utki::dynamic_reference_cast<const leaf>(r); vp_assert(&o.get() == p, "const cast"); });
		vp_assert(res == (kind == 2 ? 0 : 1), "cast to the const most derived type");
		res = vp_outcome<std::bad_cast>([&]{ auto o = utki::dynamic_reference_cast<base>(r); vp_assert(&o.get() == p, "to itself"); });
		vp_assert(res == 0 && r.to_shared_ptr().use_count() == own, "cast to its own type");
		std::shared_ptr<const base> cp = r;
		std::weak_ptr<const base> cw = r;
		vp_assert(cp.get() == p && cp.use_count() == own + 1 && cw.lock() == cp, "conversion to const pointers");
	}
	vp_assert(alive[0] == 0, "destroyed once");
	vp_observe_val("v", v);
}
void comparisons(){
	for(auto& a : alive) a = 0;
	uint32_t v = vp_sym<uint32_t>("v"), w = vp_sym<uint32_t>("w");
	auto a = utki::make_shared<base>(0, v), b = utki::make_shared<base>(1, w);
	auto c = a;
	vp_assert((a == b) == (v == w) && (a == c), "equality of the referred objects");
	vp_assert((a == b.get()) == (v == w), "equality with an object");
	vp_assert((a < b.get()) == (v < w) && (b < a.get()) == (w < v), "order of the referred objects");
	auto x = utki::make_unique<base>(2, v), y = utki::make_unique<base>(3, w);
	vp_assert((x == y) == (v == w) && (x == y.get()) == (v == w), "unique: equality of the referred objects");
	vp_assert((x < y.get()) == (v < w) && (y < x.get()) == (w < v), "unique: order of the referred objects");
	vp_assert(!(x < x.get()), "unique: not below itself");
	vp_observe_val("eq", bool(v == w));
}
using ub = utki::unique_ref<base>;
using ud = utki::unique_ref<derived>;
void unique_history(unsigned ops){
	for(auto& a : alive) a = 0;
	uint32_t vals[4];
	vp_sym_bytes(vals, sizeof vals, "vals");
	const base* addr[4] = {};
	int made = 0;
	{
		std::vector<std::pair<int, ub>> b;
		std::vector<std::pair<int, ud>> d;
		std::vector<std::pair<int, std::unique_ptr<base>>> p;
		auto check = [&]{
			int n[4] = {};
			bool ok = true;
			for(auto& x : b){ ++n[x.first]; const base& r = x.second; vp_assert(&x.second.get() == addr[x.first] && &r == addr[x.first], "yields the very object"); ok &= r.v == vals[x.first]; }
			for(auto& x : d){ ++n[x.first]; vp_assert(static_cast<const base*>(&x.second.get()) == addr[x.first], "yields the very object"); ok &= x.second.get().d == ~vals[x.first]; }
			for(auto& x : p){ ++n[x.first]; vp_assert(x.second.get() == addr[x.first], "yields the very object"); }
			vp_assert(ok, "the object's content is kept");
			for(int i = 0; i < made; ++i) vp_assert(alive[i] == n[i], "alive exactly while there is its owner");
		};
		for(unsigned k = 0; k < ops; ++k){
			switch(vp_choice(9, "op")){
			case 0: { if(made == 3) return; int id = made++; auto r = utki::make_unique<derived>(id, vals[id]); addr[id] = &r.get(); d.emplace_back(id, std::move(r)); break; }
			case 1: { if(made == 3) return; int id = made++; ub r(std::make_unique<base>(id, vals[id])); addr[id] = &r.get(); b.emplace_back(id, std::move(r)); break; }
			case 2: { if(d.empty()) return; int id = d.back().first; ub r(std::move(d.back().second)); d.pop_back(); b.emplace_back(id, std::move(r)); break; } // to base
			case 3: { if(b.empty()) return; int id = b.back().first; ub r(std::move(b.back().second)); b.pop_back(); vp_assert(alive[id] == 1, "moving keeps the object"); b.emplace_back(id, std::move(r)); break; } // move
			case 4: { if(b.size() < 2) return; auto m = std::move(b.back()); b.pop_back(); b.front().second = std::move(m.second); b.front().first = m.first; break; } // move assignment
			case 5: { if(b.empty()) return; int id = b.back().first; auto q = std::move(b.back().second).to_unique_ptr(); b.pop_back(); p.emplace_back(id, std::move(q)); break; }
			case 6: { if(p.empty()) return; int id = p.back().first; b.emplace_back(id, ub(std::move(p.back().second))); p.pop_back(); break; }
			case 7: { if(b.empty()) return; b.erase(b.begin()); break; }
			default: { if(p.empty()) return; p.pop_back(); break; }
			}
			check();
		}
	}
	for(int i = 0; i < made; ++i) vp_assert(alive[i] == 0, "destroyed with its owner");
	vp_observe_val("made", made);
	vp_reach("complete");
}
// from the object itself
struct mine : public utki::shared { uint32_t v; explicit mine(uint32_t v) : v(v) { ++alive[0]; } ~mine() override { --alive[0]; }
	utki::shared_ref<mine> me(){ return utki::make_shared_from(*this); } };
struct mine2 : public other, public mine { using mine::mine; utki::shared_ref<mine2> me2(){ return utki::make_shared_from(*this); } };
struct stdmine : public std::enable_shared_from_this<stdmine> { uint32_t v; explicit stdmine(uint32_t v) : v(v) { ++alive[0]; } ~stdmine(){ --alive[0]; } };
template <class T> void from_self(){
	alive[0] = 0;
	uint32_t v = vp_sym<uint32_t>("v");
	bool keep_first = vp_choice(2, "keep first"), weak_only = vp_choice(2, "weak only");
	std::weak_ptr<T> w;
	{
		std::unique_ptr<utki::shared_ref<T>> first(new utki::shared_ref<T>(utki::make_shared<T>(v)));
		T* p = &first->get();
		w = utki::make_weak_from(*p);
		vp_assert(w.lock().get() == p, "a weak pointer from the object");
		if(!weak_only){
			auto r = utki::make_shared_from(*p);
			static_assert(std::is_same_v<decltype(r), utki::shared_ref<T>>);
			vp_assert(&r.get() == p && r.to_shared_ptr().use_count() == 2, "shares ownership with the existing owner");
			if constexpr(!std::is_same_v<T, stdmine>){
			const T& c = *p;
			auto rc = utki::make_shared_from(c);
			vp_assert(&rc.get() == p && r.to_shared_ptr().use_count() == 3, "const: shares ownership with the existing owner"); }
			if(!keep_first){ first.reset(); vp_assert(alive[0] == 1 && !w.expired(), "kept alive by the reference made from the object"); }
			vp_assert(r.get().v == v, "usable");
		}
		vp_assert(alive[0] == (first ? 1 : 0) && w.expired() == !first, "alive exactly while there is an owner");
	}
	vp_assert(alive[0] == 0 && w.expired(), "destroyed once");
	vp_observe_val("v", v);
}
}
namespace {
// many owners of one object
void many(){
	static const uint16_t sizes[] = {16, 65, 128, 255, 256, 257, 1000};
	size_t n = sizes[vp_choice(7, "owners")];
	for(auto& a : alive) a = 0;
	uint32_t v = vp_sym<uint32_t>("v");
	unsigned order = unsigned(vp_choice(3, "order"));
	{
		std::vector<sb> o;
		std::vector<scb> c;
		std::vector<std::shared_ptr<base>> p;
		std::weak_ptr<base> w;
		{
			auto d = utki::make_shared<derived>(0, v);
			w = utki::make_weak(sb(d));
			for(size_t i = 0; i < n; ++i) switch(i % 3){
			case 0: o.push_back(d); break;
			case 1: c.push_back(sb(d)); break;
			default: p.push_back(sb(d).to_shared_ptr()); break;
			}
		}
		vp_assert(size_t(w.use_count()) == n && alive[0] == 1, "all owners share ownership");
		bool ok = true;
		for(auto& x : o) ok &= x.get().v == v;
		for(auto& x : c) ok &= x.get().v == v;
		for(auto& x : p) ok &= x->v == v;
		vp_assert(ok, "the object's content is kept");
		for(unsigned k = 0; k < 3; ++k){
			switch((k + order) % 3){ case 0: o.clear(); break; case 1: c.clear(); break; default: p.clear(); break; }
			size_t left = o.size() + c.size() + p.size();
			vp_assert(size_t(w.use_count()) == left && alive[0] == (left ? 1 : 0), "alive exactly while there is an owner");
		}
	}
	// many objects
	{
		std::vector<ub> u;
		std::vector<sb> s;
		for(size_t i = 0; i < n; ++i){ u.push_back(utki::make_unique<base>(1, v + uint32_t(i))); s.push_back(utki::make_shared<derived>(2, v - uint32_t(i))); }
		vp_assert(size_t(alive[1]) == n && size_t(alive[2]) == n, "each its own object");
		bool ok = true;
		for(size_t i = 0; i < n; ++i){ ok &= u[i].get().v == v + uint32_t(i); ok &= s[i].get().v == v - uint32_t(i); }
		vp_assert(ok, "the objects' contents");
		size_t m = n / 2 + 1;
		u.erase(u.begin(), u.begin() + std::ptrdiff_t(m));
		s.erase(s.begin(), s.begin() + std::ptrdiff_t(m));
		vp_assert(size_t(alive[1]) == n - m && size_t(alive[2]) == n - m, "destroyed with their owners");
		for(size_t i = m; i < n; ++i){ ok &= u[i - m].get().v == v + uint32_t(i); ok &= s[i - m].get().v == v - uint32_t(i); }
		vp_assert(ok, "the objects' contents after moving");
	}
	vp_assert(alive[1] == 0 && alive[2] == 0, "all destroyed");
	vp_observe_val("v", v);
}
}
VP_ENTRY(c20_many){ many(); }
VP_ENTRY(c20_history){ history(VP_BOUND(5, 6)); }
VP_ENTRY(c20_casts){ casts(); }
VP_ENTRY(c20_compare){ comparisons(); }
VP_ENTRY(c20_unique){ unique_history(VP_BOUND(5, 6)); }
VP_ENTRY(c20_self_shared){ from_self<mine>(); }
VP_ENTRY(c20_self_second_base){ from_self<mine2>(); }
VP_ENTRY(c20_self_std){ from_self<stdmine>(); }
