// C26: assertions
#include "vp.h"
#include <utki/debug.hpp>
#include <string>
extern "C" void vp_set_terminal(int fd, bool on);
#ifdef DEBUG
constexpr bool debug = true;
#else
constexpr bool debug = false;
#endif
namespace {
struct thing { uint32_t x = 0; };
struct call {
	unsigned form; // which overload
	bool holds;
	bool owns; // a shared pointer owns something
	bool message;
	uint32_t line;
	const char* file;
	std::string text;
	unsigned printed = 0, evaluated = 0, returned = 0;
};
template <class C> void with(call& c, C&& cond, bool always){
	std::function<void(std::ostream&)> print = [&c](std::ostream& o){ ++c.printed; o << c.text; };
	if(!c.message) print = nullptr;
	utki::source_location sl(c.line, 3, c.file);
	if constexpr(std::is_same_v<std::decay_t<C>, bool>) if(always){
		if(c.message || c.form % 2) utki::assert_always(cond, print, sl); else utki::assert_always(cond, sl);
		return;
	}
	if(c.message) utki::assert(cond, print, sl); else utki::assert(cond, sl);
}
void run(void* p){
	call& c = *static_cast<call*>(p);
	switch(c.form){
		case 0: case 1: with(c, c.holds, true); break;
		case 2: with(c, c.holds, false); break;
		case 3: { std::function<bool()> f = [&c]{ ++c.evaluated; return c.holds; }; with(c, f, false); break; }
		case 4: { thing t; thing* q = c.holds ? &t : nullptr; with(c, q, false); break; }
		case 5: { const char* q = c.holds ? "" : nullptr; with(c, q, false); break; }
		case 6: { std::shared_ptr<thing> q; thing t; // null or not, whatever else it owns
			bool owns = c.owns;
			if(owns) q = std::make_shared<thing>();
			if(!(owns && c.holds)) q = std::shared_ptr<thing>(std::shared_ptr<thing>(q), c.holds ? &t : nullptr); with(c, q, false); break; }
		case 7: { std::unique_ptr<thing> q; if(c.holds) q = std::make_unique<thing>(); with(c, q, false); break; }
		case 8: { std::function<void(int)> q; if(c.holds) q = [&c](int){ ++c.evaluated; }; with(c, q, false); break; }
		case 9: { // the macros; their place in the source is here
			if(c.message){ ASSERT(c.holds, [&c](auto& o){ ++c.printed; o << c.text; }) }
			else { ASSERT(c.holds) }
			break;
		}
		case 10: { // the condition of the macro is evaluated once in debug build and not at all otherwise
			ASSERT((++c.evaluated, c.holds))
			break;
		}
		default: { auto q = std::make_unique<thing>(); if(!c.holds) q.reset(); ASSERT(q, [&c](auto& o){ ++c.printed; o << c.text; }) break; }
	}
	++c.returned;
}
void go(bool texts, size_t longer = 0){
	call c{};
	c.form = unsigned(vp_choice(12, "form"));
	c.holds = vp_sym_bool("holds");
	c.owns = c.form == 6 && vp_sym_bool("owns");
	c.message = c.form == 11 || (c.form != 10 && vp_sym_bool("message"));
	c.line = texts ? vp_sym<uint32_t>("line") : 42;
	const char* files[] = {"", "f.cpp", "/a/b c.hpp"};
	c.file = files[texts ? vp_choice(3, "file") : 1];
	if(longer) vp_assume(c.message);
	unsigned n = longer ? unsigned(longer) : c.message ? unsigned(vp_choice(texts ? VP_BOUND(4, 8) : 2, "length")) : 0;
	vp_buf<char> b(n, "text");
	if(longer) for(size_t i = 0; i < n; ++i) if(i != 0 && i != n / 2 && i != n - 1) b[i] = char('a' + i % 26);
	c.text.assign(b.p, n);
	bool active = c.form <= 1 || debug;
	bool expect = active && !c.holds;
	vp_set_terminal(2, texts && vp_choice(2, "terminal"));
	bool aborted = vp_abortable(run, &c);
	vp_assert(aborted == expect, "aborts exactly when the assertion is active and its condition is false");
	std::string out(vp_captured_size(), ' ');
	vp_captured_read(out.data(), out.size());
	if(!expect){
		vp_assert(c.returned == 1, "returns");
		vp_assert(c.printed == 0, "the message is not evaluated");
		vp_assert(out.empty(), "nothing is written");
		vp_assert(c.evaluated == unsigned((c.form == 3 || c.form == 10) && debug), "the condition is evaluated only in a debug build, once");
		vp_reach("no effect");
		return;
	}
	std::string pre;
	if(c.form < 9){
		pre = c.file;
		pre += ':';
		char d[12]; int k = 0; // decimal digits of the line number
		uint32_t v = c.line;
		do { d[k++] = char('0' + v % 10); v /= 10; } while(v);
		while(k) pre += d[--k];
	} else {
		pre = __FILE__;
	}
	pre += ':';
	size_t on = vp_concretize(out.size()), pn = pre.size();
	vp_assert(on > pn + n, "location and message are written");
	unsigned bad = 0;
	for(size_t i = 0; i < pn; ++i) bad |= unsigned(out[i] ^ pre[i]);
	vp_assert(bad == 0, "the location is written first");
	for(size_t i = 0; i < n; ++i) bad |= unsigned(out[on - 1 - n + i] ^ c.text[i]);
	vp_assert(bad == 0 && out[on - 1] == '\n', "the message is written last");
	vp_observe("out", out.data(), c.form < 9 ? out.size() : 1);
	vp_reach("aborted");
}
}
VP_ENTRY(c26_forms){ go(false); }
VP_ENTRY(c26_long){ static const uint16_t n[] = {15, 16, 17, 64, 128, 255, 256, 257, 511, 512, 1000, 1024, 4096, 5000}; go(false, n[vp_choice(14, "size")]); }
VP_ENTRY(c26_texts){ go(true); }
VP_ENTRY(c26_repeat){ // assertions which hold have no effect however often they are made
	unsigned n = unsigned(1 + vp_choice(4, "n"));
	unsigned printed = 0;
	size_t before = vp_heap_count();
	for(unsigned i = 0; i < n; ++i){
		bool c = vp_sym<uint8_t>("c") != 0;
		vp_assume(c);
		utki::assert_always(c, [&](auto& o){ ++printed; o << i; }, SL);
		utki::assert(c, [&](auto& o){ ++printed; o << i; }, SL);
		ASSERT(c, [&](auto& o){ ++printed; o << i; })
	}
	vp_assert(printed == 0 && vp_heap_count() == before, "no effect");
	vp_reach("repeated");
}
#if CFG_CPP >= 20
namespace { struct at { bool holds; unsigned form; unsigned line; };
void here(void* p){
	at& a = *static_cast<at*>(p);
	switch(a.form){
		case 0: a.line = __LINE__; utki::assert_always(a.holds); break;
		case 1: a.line = __LINE__; utki::assert_always(a.holds, [](auto& o){ o << "m"; }); break;
		case 2: a.line = __LINE__; utki::assert(a.holds); break;
		default: a.line = __LINE__; utki::assert(a.holds, [](auto& o){ o << "m"; }); break;
	}
}
}
VP_ENTRY(c26_default_location){
	at a{vp_sym_bool("holds"), unsigned(vp_choice(4, "form")), 0};
	bool aborted = vp_abortable(here, &a);
	bool expect = !a.holds && (a.form < 2 || debug);
	vp_assert(aborted == expect, "aborts exactly when the condition is false");
	if(!expect) return;
	std::string out(vp_captured_size(), ' ');
	vp_captured_read(out.data(), out.size());
	std::string pre = __FILE__;
	pre += ":";
	vp_assert(out.compare(0, pre.size(), pre) == 0 && out.size() > pre.size() + 10, "the location is that of the caller");
	vp_reach("aborted");
}
#endif
