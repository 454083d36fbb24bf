// C19: singletons
#include "vp.h"
#include <utki/singleton.hpp>
#include <memory>
#include <new>
#include <stdexcept>
namespace {
struct boom {};
int alive_total;
template <int tag> struct plain : public utki::singleton<plain<tag>> {
	uint32_t v;
	explicit plain(uint32_t v, bool fail = false) : v(v) { if(fail) throw boom(); ++alive_total; }
	~plain() override { --alive_total; }
};
// not at the start of the object
struct pad { virtual ~pad() = default; uint64_t x = 1; };
struct second : public pad, public utki::singleton<second> {
	uint32_t v;
	explicit second(uint32_t v, bool fail = false) : v(v) { if(fail) throw boom(); ++alive_total; }
	~second() override { --alive_total; }
};
template <int tag> struct intr : public utki::intrusive_singleton<intr<tag>> {
	friend class utki::intrusive_singleton<intr<tag>>;
	static typename utki::intrusive_singleton<intr<tag>>::instance_type instance;
	uint32_t v;
	explicit intr(uint32_t v, bool fail = false) : v(v) { if(fail) throw boom(); ++alive_total; }
	~intr() override { --alive_total; }
};
template <int tag> typename utki::intrusive_singleton<intr<tag>>::instance_type intr<tag>::instance;

template <class S> struct slot {
	std::unique_ptr<S> p;
	uint32_t v = 0;
	void check(){
		vp_assert(S::is_created() == bool(p), "the created query tells whether an instance exists");
		if(p){
			vp_assert(&S::inst() == p.get(), "the accessor returns that very instance");
			vp_assert(S::inst().v == v, "the instance is usable");
		}
	}
	void step(unsigned op, uint32_t nv){
		switch(op){
		case 0: { // create
			int r = vp_outcome<std::logic_error>([&]{ std::unique_ptr<S> q(new S(nv)); p = std::move(q); v = nv; });
			last = r;
			break;
		}
		case 1: last = vp_outcome<boom>([&]{ std::unique_ptr<S> q(new S(nv, true)); }); break; // the constructor of the derived class throws
		case 2: p.reset(); last = 0; break;
		default: last = vp_outcome<std::logic_error>([&]{ S local(nv); vp_assert(&S::inst() == &local && S::is_created(), "the instance is the local one"); }); break;
		}
	}
	int last = 0;
};
template <class A, class B> void history(unsigned ops){
	alive_total = 0;
	slot<A> a;
	slot<B> b;
	a.check();
	b.check();
	for(unsigned k = 0; k < ops; ++k){
		unsigned which = unsigned(vp_choice(2, "type")), op = unsigned(vp_choice(4, "op"));
		uint32_t nv = vp_sym<uint32_t>("value");
		bool had = which ? bool(b.p) : bool(a.p);
		if(which) b.step(op, nv); else a.step(op, nv);
		int r = which ? b.last : a.last;
		bool has = which ? bool(b.p) : bool(a.p);
		switch(op){
		case 0: vp_assert(r == (had ? 1 : 0), "creating a second instance throws std::logic_error"); vp_assert(has, "the first instance stays, or there is one now"); break;
		case 1: vp_assert(r == (had ? 2 : 1), "a failing construction fails"); vp_assert(has == had, "a failed construction leaves everything as it was"); break;
		case 2: vp_assert(!has, "destroyed"); break;
		default: vp_assert(r == (had ? 1 : 0) && has == had, "a second, local instance"); break;
		}
		a.check();
		b.check();
		vp_assert(alive_total == int(bool(a.p)) + int(bool(b.p)), "at most one instance per type is alive");
	}
	a.p.reset();
	b.p.reset();
	a.check();
	b.check();
	vp_assert(alive_total == 0, "all destroyed");
	vp_observe_val("ops", ops);
}
}
namespace {
template <class S> void cycles(){
	alive_total = 0;
	slot<S> a;
	uint32_t nv = vp_sym<uint32_t>("value");
	unsigned pattern = unsigned(vp_choice(4, "pattern"));
	for(unsigned k = 0; k < VP_BOUND(70, 700); ++k){
		bool had = bool(a.p);
		unsigned op = pattern == 0 ? (had ? 2 : 0) : pattern == 1 ? k % 4 : pattern == 2 ? (k % 3 == 2 ? (had ? 2 : 0) : 3) : (k % 7 == 6 ? (had ? 2 : 0) : k % 2);
		a.step(op, nv + k);
		bool has = bool(a.p);
		switch(op){
		case 0: vp_assert(a.last == (had ? 1 : 0) && has, "creating a second instance throws std::logic_error"); break;
		case 1: vp_assert(a.last == (had ? 2 : 1) && has == had, "a failing construction fails"); break;
		case 2: vp_assert(!has, "destroyed"); break;
		default: vp_assert(a.last == (had ? 1 : 0) && has == had, "a second, local instance"); break;
		}
		a.check();
		vp_assert(alive_total == int(bool(a.p)), "at most one instance is alive");
	}
	a.p.reset();
	a.check();
	vp_observe_val("pattern", pattern);
}
}
VP_ENTRY(c19_cycles_plain){ cycles<plain<4>>(); }
VP_ENTRY(c19_cycles_second){ cycles<second>(); }
VP_ENTRY(c19_cycles_intrusive){ cycles<intr<3>>(); }
VP_ENTRY(c19_plain){ history<plain<0>, plain<1>>(VP_BOUND(4, 5)); }
VP_ENTRY(c19_second_base){ history<second, plain<2>>(VP_BOUND(4, 5)); }
VP_ENTRY(c19_intrusive){ history<intr<0>, intr<1>>(VP_BOUND(4, 5)); }
VP_ENTRY(c19_mixed){ history<plain<3>, intr<2>>(VP_BOUND(4, 5)); }
