// C18: scope exit
#include "vp.h"
#include <utki/utility.hpp>
#include <memory>
#include <stdexcept>
namespace {
struct odd {}; // not a std::exception
struct marker { uint32_t* runs; uint32_t add; uint32_t how; std::shared_ptr<int> own;
	void operator()() const { *runs += add; if(how == 1) throw std::runtime_error("x"); if(how == 2) throw odd(); if(how == 3) throw 5; } };
// how: what the action throws; leave: how the scope is left; rel: whether it is released first
void scenario(bool deprecated){
	uint32_t runs = 0;
	uint32_t add = vp_sym<uint32_t>("add");
	vp_assume(add != 0);
	unsigned how = unsigned(vp_choice(4, "action throws")), leave = unsigned(vp_choice(4, "leave")), rel = unsigned(vp_choice(3, "release"));
	auto own = std::make_shared<int>(7);
	unsigned left = 99;
	std::function<void()> got;
	auto body = [&]{
		utki::scope_exit se(marker{&runs, add, how, own});
		vp_assert(runs == 0, "not before the end of the scope");
		if(rel){
			got = deprecated ? se.reset() : se.release();
			vp_assert(bool(got), "the caller receives the action");
			if(rel == 2){ auto again = se.release(); vp_assert(!again, "nothing more to release"); }
		}
		if(leave == 1) throw std::logic_error("y");
		if(leave == 2) throw odd();
		if(leave == 3) return;
	};
	try { body(); left = 0; } catch(std::logic_error&){ left = 1; } catch(odd&){ left = 2; } catch(...){ left = 98; }
	vp_assert(left == (leave == 3 ? 0 : leave), "the scope is left as if there was no action");
	vp_assert(runs == (rel ? 0 : add), "the action runs exactly once unless released");
	if(rel){
		vp_assert(own.use_count() == 2, "the released action is kept by the caller only");
		bool threw = false;
		try { got(); } catch(...){ threw = true; }
		vp_assert(threw == (how != 0) && runs == add, "the caller received that very action");
		got = nullptr;
	}
	vp_assert(own.use_count() == 1, "the action is destroyed");
	vp_observe_val("runs", runs);
}
void empty_action(){
	uint32_t x = vp_sym<uint32_t>("x"), runs = x;
	{ utki::scope_exit se{std::function<void()>()}; }
	{ utki::scope_exit se{std::function<void()>(nullptr)}; auto g = se.release(); vp_assert(!g, "an empty action stays empty"); }
	bool caught = false;
	try { utki::scope_exit se{std::function<void()>()}; throw odd(); } catch(odd&){ caught = true; }
	vp_assert(caught && runs == x, "an empty action is harmless");
	vp_observe_val("x", x);
}
// several in one scope run in reverse order, each once, also during unwinding and when actions throw
void nested(){
	uint32_t log = 0;
	unsigned thr = unsigned(vp_choice(8, "which throw")), leave = unsigned(vp_choice(2, "leave")), rel = unsigned(vp_choice(8, "which are released"));
	auto act = [&](uint32_t k){ return [&log, k, thr]{ log = log * 4 + k; if(thr >> (k - 1) & 1) throw odd(); }; };
	bool caught = false;
	try {
		utki::scope_exit a(act(1));
		utki::scope_exit b(act(2));
		{
			utki::scope_exit c(act(3));
			if(rel & 4) c.release();
		}
		if(rel & 1) a.release();
		if(rel & 2) b.release();
		if(leave) throw std::runtime_error("z");
	} catch(std::runtime_error&){ caught = true; }
	uint32_t want = 0;
	for(uint32_t k = 3; k >= 1; --k) if(!(rel >> (k - 1) & 1)) want = want * 4 + k;
	vp_assert(log == want, "each action that is not released ran once, in reverse order");
	vp_assert(caught == (leave != 0), "the exception of the scope is delivered");
	vp_observe_val("log", log);
}
// an action that itself uses a scope exit and handles exceptions, during unwinding
void within_unwinding(){
	uint32_t n = 0;
	uint8_t v = vp_sym<uint8_t>("v");
	int got = -1;
	try {
		utki::scope_exit a([&]{
			utki::scope_exit b([&]{ n += 10; throw odd(); });
			try { throw int(v); } catch(int i){ n += 100; vp_assert(i == v, "inner exception"); }
			n += 1;
			throw std::logic_error("ignored");
		});
		throw int(v);
	} catch(int i){ got = i; }
	vp_assert(n == 111 && got == v, "the outer exception goes on");
	vp_assert(std::uncaught_exceptions() == 0, "no exception is left behind");
	vp_observe_val("n", n);
}
}
VP_ENTRY(c18_scenario){ scenario(false); }
VP_ENTRY(c18_reset){ scenario(true); }
VP_ENTRY(c18_empty){ empty_action(); }
VP_ENTRY(c18_nested){ nested(); }
VP_ENTRY(c18_unwinding){ within_unwinding(); }
