// C17: signals
#include "vp.h"
#include <utki/signal.hpp>
#include <memory>
#include <string>
#include <vector>
namespace {
struct call { unsigned id; uint64_t a, b; };
std::vector<call>* trace;
// a by-value argument whose content is lost when it is moved from
struct owner {
	std::unique_ptr<uint32_t> p;
	explicit owner(uint32_t v) : p(new uint32_t(v)) {}
	owner(const owner& o) : p(o.p ? new uint32_t(*o.p) : nullptr) {}
	owner(owner&&) = default;
	owner& operator=(const owner& o){ p.reset(o.p ? new uint32_t(*o.p) : nullptr); return *this; }
	owner& operator=(owner&&) = default;
	~owner() = default;
};
// what each kind of signal is emitted with and what its callbacks see
struct none { using S = utki::signal<>; static S::callback_type make(unsigned id){ return [id]{ trace->push_back({id, 0, 0}); }; } static void emit(S& s, uint64_t, uint64_t){ s.emit(); } static call want(unsigned id, uint64_t, uint64_t){ return {id, 0, 0}; } };
struct ints { using S = utki::signal<uint64_t, uint8_t>; static S::callback_type make(unsigned id){ return [id](uint64_t a, uint8_t b){ trace->push_back({id, a, b}); a = 0; b = 0; }; } static void emit(S& s, uint64_t a, uint64_t b){ s.emit(a, uint8_t(b)); } static call want(unsigned id, uint64_t a, uint64_t b){ return {id, a, uint8_t(b)}; } };
struct owners { using S = utki::signal<owner, std::string>;
	static S::callback_type make(unsigned id){ return [id](owner a, std::string b){
		bool ok = a.p && b.size() == 20;
		vp_assert(ok, "every callback gets its own equal copy");
		trace->push_back({id, a.p ? *a.p : 0, b.empty() ? 0u : uint8_t(b[19])});
		owner gone = std::move(a); std::string g2 = std::move(b); if(gone.p) *gone.p = 0; // whatever is done to a copy
	}; }
	static void emit(S& s, uint64_t a, uint64_t b){
		std::string t(20, char(b));
		owner o{uint32_t(a)};
		if(vp_choice(2, "lvalue")){ s.emit(o, t); bool ok = o.p && *o.p == uint32_t(a) && t.size() == 20; vp_assert(ok, "the emitted value is not changed"); }
		else s.emit(owner(uint32_t(a)), std::move(t));
	}
	static call want(unsigned id, uint64_t a, uint64_t b){ return {id, uint32_t(a), uint8_t(b)}; } };
struct refs { using S = utki::signal<const owner&, uint64_t&>; static const owner* seen; static uint64_t* seen2;
	static S::callback_type make(unsigned id){ return [id](const owner& a, uint64_t& b){ vp_assert(&a == seen && &b == seen2, "an argument passed by reference is the emitted object"); trace->push_back({id, *a.p, b}); ++b; }; }
	static void emit(S& s, uint64_t a, uint64_t b){ owner o{uint32_t(a)}; uint64_t c = b; seen = &o; seen2 = &c; size_t n = s.size(); s.emit(o, c); vp_assert(c == b + n, "every callback worked on the emitted object"); }
	static call want(unsigned id, uint64_t a, uint64_t b){ return {id, uint32_t(a), b}; } };
const owner* refs::seen; uint64_t* refs::seen2;

template <class X> void history(unsigned ops){
	std::vector<call> log;
	trace = &log;
	typename X::S s;
	std::vector<std::pair<unsigned, typename X::S::connection>> live;
	unsigned next = 0;
	for(unsigned k = 0; k < ops; ++k){
		unsigned op = unsigned(vp_choice(live.empty() ? 2 : 3, "op"));
		if(op == 0){
			auto c = s.connect(X::make(next));
			live.emplace_back(next++, c);
		} else if(op == 2){
			size_t i = vp_choice(live.size(), "which");
			s.disconnect(live[i].second);
			live.erase(live.begin() + i);
		} else {
			uint64_t a = vp_sym<uint64_t>("a"), b = vp_sym<uint8_t>("b");
			log.clear();
			X::emit(s, a, b);
			vp_assert(log.size() == live.size(), "each connected callback is called exactly once, and no other");
			bool ok = true;
			for(size_t i = 0; i < log.size(); ++i){
				auto w = X::want(live[i].first, a, b);
				vp_assert(log[i].id == w.id, "in connection order");
				ok &= log[i].a == w.a;
				ok &= log[i].b == w.b + (std::is_same_v<X, refs> ? i : 0);
			}
			vp_assert(ok, "every callback receives the emitted values");
		}
		vp_assert(s.size() == live.size() && s.empty() == live.empty(), "the number of callbacks matches the connections");
	}
	for(auto& l : live) s.disconnect(l.second);
	vp_assert(s.size() == 0 && s.empty(), "all disconnected");
	log.clear();
	X::emit(s, 1, 2);
	vp_assert(log.empty(), "no callback is called after disconnecting all");
	vp_observe_val("next", next);
}
// callbacks own state that lives exactly as long as they are connected
void lifetime(){
	utki::signal<int> s;
	auto p = std::make_shared<int>(0);
	size_t n = vp_choice(4, "n");
	std::vector<utki::signal<int>::connection> cs;
	for(size_t i = 0; i < n; ++i) cs.push_back(s.connect([p](int v){ *p += v; }));
	vp_assert(size_t(p.use_count()) == n + 1, "one callback object per connection");
	int v = vp_sym<int8_t>("v");
	s.emit(v);
	vp_assert(*p == int(n) * v, "each called once");
	while(!cs.empty()){ size_t i = vp_choice(cs.size(), "which"); s.disconnect(cs[i]); cs.erase(cs.begin() + i); vp_assert(size_t(p.use_count()) == cs.size() + 1 && s.size() == cs.size(), "a disconnected callback is dropped"); }
	vp_observe_val("v", v);
}
// many connections
void many(size_t n, size_t positions){
	std::vector<call> log;
	trace = &log;
	ints::S s;
	std::vector<ints::S::connection> cs;
	for(unsigned i = 0; i < n; ++i) cs.push_back(s.connect(ints::make(i)));
	size_t gone = positions < n ? vp_choice(positions, "gone") * (n - 1) / (positions - 1) : vp_choice(n, "gone");
	s.disconnect(cs[gone]);
	uint64_t a = vp_sym<uint64_t>("a");
	ints::emit(s, a, 3);
	vp_assert(log.size() == n - 1 && s.size() == n - 1, "all but the disconnected one");
	bool ok = true;
	for(size_t i = 0; i + 1 < n; ++i){ vp_assert(log[i].id == (i < gone ? i : i + 1), "in connection order"); ok &= log[i].a == a; }
	vp_assert(ok, "every callback receives the value");
	for(size_t i = 0; i < n; ++i) if(i != gone) s.disconnect(cs[i]);
	vp_observe_val("gone", gone);
}
}
VP_ENTRY(c17_none){ history<none>(VP_BOUND(5, 7)); }
VP_ENTRY(c17_ints){ history<ints>(VP_BOUND(5, 7)); }
VP_ENTRY(c17_owners){ history<owners>(VP_BOUND(5, 6)); }
VP_ENTRY(c17_refs){ history<refs>(VP_BOUND(5, 7)); }
VP_ENTRY(c17_lifetime){ lifetime(); }
VP_ENTRY(c17_many){ many(VP_BOUND(9, 20), 20); }
VP_ENTRY(c17_very_many){ static const uint16_t n[] = {17, 33, 64, 65, 129, 256, 257, 600}; many(n[vp_choice(VP_BOUND(7, 8), "n")], 5); }
VP_ENTRY(c17_huge){ many(65537, 2); }
// one signal used for a long time
VP_ENTRY(c17_cycles){
	std::vector<call> log;
	trace = &log;
	ints::S s;
	std::vector<std::pair<unsigned, ints::S::connection>> live;
	unsigned pattern = unsigned(vp_choice(4, "pattern")), next = 0;
	uint64_t a = vp_sym<uint64_t>("a");
	for(unsigned k = 0; k < VP_BOUND(70, 700); ++k){
		if(live.size() < 3 || k % 5 == 0){ auto c = s.connect(ints::make(next)); live.emplace_back(next++, c); }
		else {
			size_t i = pattern == 0 ? 0 : pattern == 1 ? live.size() - 1 : pattern == 2 ? k % live.size() : live.size() / 2;
			s.disconnect(live[i].second);
			live.erase(live.begin() + i);
		}
		log.clear();
		ints::emit(s, a, k);
		vp_assert(log.size() == live.size() && s.size() == live.size(), "each connected callback is called exactly once, and no other");
		bool ok = true;
		for(size_t i = 0; i < log.size(); ++i){ vp_assert(log[i].id == live[i].first, "in connection order"); ok &= log[i].a == a; ok &= log[i].b == uint8_t(k); }
		vp_assert(ok, "every callback receives the emitted values");
	}
	for(auto& l : live) s.disconnect(l.second);
	vp_observe_val("next", next);
}
