// C33: logging and debug-only code
#include "vp.h"
#include <utki/debug.hpp>
#include <utki/log.hpp>
#include <iostream>
#include <streambuf>
#include <string>
#ifdef DEBUG
constexpr bool debug = true;
#else
constexpr bool debug = false;
#endif
namespace {
// stands behind the standard output: what was written, and how much of it was flushed
struct recorder : std::streambuf {
	std::string text;
	size_t flushed = 0;
	int_type overflow(int_type c) override { if(!traits_type::eq_int_type(c, traits_type::eof())) text.push_back(traits_type::to_char_type(c)); return traits_type::not_eof(c); }
	std::streamsize xsputn(const char* s, std::streamsize n) override { text.append(s, size_t(n)); return n; }
	int sync() override { flushed = text.size(); return 0; }
};
struct redirect {
	recorder r;
	std::streambuf* old;
	redirect() : old(std::cout.rdbuf(&r)) {}
	~redirect(){ std::cout.rdbuf(old); }
};
struct thing { char a, b; unsigned* times; };
std::ostream& operator<<(std::ostream& o, const thing& t){ ++*t.times; return o << t.a << '|' << t.b; }

void is(const redirect& d, const std::string& want, const char* what){
	vp_assert(d.r.text.size() == want.size(), what);
	unsigned bad = 0;
	for(size_t i = 0; i < want.size() && i < d.r.text.size(); ++i) bad |= unsigned(d.r.text[i] ^ want[i]);
	vp_assert(bad == 0, what);
	vp_assert(d.r.flushed == d.r.text.size(), "everything is flushed");
}
std::string some(unsigned max, const char* name){
	size_t n = vp_choice(max + 1, name);
	std::string s(n, 'x');
	if(n) vp_sym_bytes(s.data(), n, name);
	return s;
}
std::string decimal(uint8_t v){ // branches as the printing does
	std::string s;
	if(vp_concretize(v >= 100)) s += char('0' + v / 100);
	if(vp_concretize(v >= 10)) s += char('0' + v / 10 % 10);
	s += char('0' + v % 10);
	return s;
}
struct boom {};
enum { log_, log_empty, logcat_, log_d, log_d_empty, logcat_d, run_d, run_d_empty, num_ops };
void step(redirect& d, std::string& want, unsigned max){
	unsigned op = unsigned(vp_choice(num_ops, "op"));
	unsigned called = 0;
	switch(op){
	case log_: case log_d: {
		std::string a = some(max, "a");
		char c = vp_sym<char>("c");
		unsigned form = unsigned(vp_choice(3, "form")); // writes nothing, a text, a text piece by piece with flushing in between
		auto print = [&](std::ostream& o){
			++called;
			if(form == 1) o << a << c;
			else if(form == 2){ o << c; o.flush(); o.write(a.data(), std::streamsize(a.size())); o.put(c); }
		};
		if(op == log_) utki::log(print); else utki::log_debug(print);
		bool on = op == log_ || debug;
		vp_assert(called == unsigned(on), "the print function is called exactly once, in a debug-only form only in a debug build");
		if(on && form == 1){ want += a; want += c; }
		if(on && form == 2){ want += c; want += a; want += c; }
		break;
	}
	case log_empty: utki::log(nullptr); utki::log(std::function<void(std::ostream&)>()); break;
	case log_d_empty: utki::log_debug(nullptr); utki::log_debug(std::function<void(std::ostream&)>()); break;
	case logcat_: case logcat_d: {
		bool on = op == logcat_ || debug;
		unsigned form = unsigned(vp_choice(5, "form"));
		std::string a = some(max, "a");
		char c = vp_sym<char>("c");
		thing t{vp_sym<char>("t"), vp_sym<char>("u"), &called};
		std::string e;
		auto run = [&](const auto&... args){ if(op == logcat_) utki::logcat(args...); else utki::logcat_debug(args...); };
		switch(form){
		case 0: run(); break;
		case 1: run(a); e = a; break;
		case 2: run(t, "lit", a, c); e = std::string() + t.a + '|' + t.b + "lit" + a + c; break;
		case 3: { int v = vp_sym<uint8_t>("v"); run(c, v, std::string_view(a), -7, 1000u); e = std::string() + c + (on ? decimal(uint8_t(v)) : std::string()) + a + "-71000"; break; }
		default: run(a, t, a, t, c, true); e = a + t.a + '|' + t.b + a + t.a + '|' + t.b + c + "1"; break;
		}
		if(on) want += e;
		unsigned n = form == 2 ? 1 : form == 4 ? 2 : 0;
		vp_assert(called == (on ? n : 0), "every argument is printed exactly once, in a debug-only form only in a debug build");
		break;
	}
	case run_d: {
		uint32_t v = vp_sym<uint32_t>("v"), x = 0;
		utki::run_debug([&]{ ++called; x = v; });
		vp_assert(called == unsigned(debug) && x == (debug ? v : 0), "a debug-only procedure runs exactly once in a debug build and never otherwise");
		break;
	}
	default: utki::run_debug(nullptr); utki::run_debug(std::function<void()>()); break;
	}
	is(d, want, "exactly the logged texts, in order");
}
void history(unsigned ops, unsigned max){
	redirect d;
	std::string want;
	for(unsigned k = 0; k < ops; ++k) step(d, want, max);
	vp_observe("text", d.r.text.data(), d.r.text.size());
}
}
VP_ENTRY(c33_one){ history(1, VP_BOUND(6, 12)); }
VP_ENTRY(c33_history){ history(VP_BOUND(2, 3), 1); }
VP_ENTRY(c33_long){
	static const uint32_t sizes[] = {15, 16, 17, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 8193, 70000};
	size_t n = sizes[vp_choice(20, "size")];
	std::string t(n, 'a');
	for(size_t i = 0; i < n; ++i) t[i] = char('a' + i % 23);
	t[0] = vp_sym<char>("first");
	t[n / 2] = vp_sym<char>("middle");
	t[n - 1] = vp_sym<char>("last");
	redirect d;
	std::string want;
	switch(vp_choice(n > 10000 ? 4 : 5, "form")){
	case 0: utki::log([&](std::ostream& o){ o << t; }); want = t; break;
	case 1: utki::logcat(t, n, t); want = t + std::to_string(n) + t; break;
	case 2: utki::log_debug([&](std::ostream& o){ o << t << t; }); if(debug) want = t + t; break;
	case 3: utki::logcat_debug(t, "x"); if(debug) want = t + "x"; break;
	default: utki::log([&](std::ostream& o){ for(char c : t) o << c; }); want = t; break;
	}
	is(d, want, "the whole text");
	vp_observe_val("n", n);
}
VP_ENTRY(c33_many){
	redirect d;
	std::string want;
	char c = vp_sym<char>("c");
	unsigned form = unsigned(vp_choice(4, "form"));
	for(unsigned i = 0; i < VP_BOUND(300, 2000); ++i){
		std::string s(i % 7, char('a' + i % 26));
		bool on = form < 2 || debug;
		switch(form){
		case 0: utki::log([&](auto& o){ o << s << c; }); break;
		case 1: utki::logcat(s, c); break;
		case 2: utki::log_debug([&](auto& o){ o << s << c; }); break;
		default: utki::logcat_debug(s, c); break;
		}
		if(on){ want += s; want += c; }
		vp_assert(d.r.flushed == want.size(), "everything is flushed");
	}
	is(d, want, "exactly the logged texts, in order");
	vp_observe_val("c", c);
}
VP_ENTRY(c33_throwing){ // what the function throws comes out; later logging works
	redirect d;
	char a = vp_sym<char>("a"), b = vp_sym<char>("b");
	unsigned op = unsigned(vp_choice(3, "op"));
	bool on = op == 0 || debug;
	int r = vp_outcome<boom>([&]{
		switch(op){
		case 0: utki::log([&](std::ostream&){ throw boom(); }); break;
		case 1: utki::log_debug([&](std::ostream&){ throw boom(); }); break;
		default: utki::run_debug([&]{ throw boom(); }); break;
		}
	});
	vp_assert(r == (on ? 1 : 0), "an exception of the function is passed on");
	utki::logcat(a, b);
	is(d, std::string() + a + b, "later logging is whole");
	vp_observe_val("a", a);
}
