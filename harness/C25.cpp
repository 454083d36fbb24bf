// C25: descriptions of exceptions and their causes
#include "vp.h"
#include <utki/exception.hpp>
#include <stdexcept>
#include <string>
namespace c25 {
struct odd { int x = 0; };
struct own : public utki::exception {
	std::string m;
	explicit own(std::string m) : m(std::move(m)) {}
	const char* what() const noexcept override { return m.c_str(); }
};
}
namespace {
using c25::odd;
using c25::own;
enum kind : unsigned { k_runtime, k_logic, k_odd, k_int, k_own, innermost_kinds };
enum wrap : unsigned { w_std_runtime, w_std_odd, w_std_own, w_stacked_logic, w_stacked_own, w_stacked_runtime, wraps };
struct level { unsigned k; std::string msg; };
std::string text(const char* name, unsigned max){
	unsigned n = unsigned(vp_choice(max + 1, name));
	std::string s(n, 'x');
	if(n) vp_sym_bytes(s.data(), n, name);
	unsigned bad = 0;
	for(unsigned i = 0; i < n; ++i) bad |= unsigned(s[i] == 0) | unsigned(s[i] == '\n');
	vp_assume(bad == 0);
	return s;
}
[[noreturn]] void raise(const level* l, unsigned i, unsigned n, bool causeless){
	if(i + 1 == n){
		if(causeless) switch(l[i].k){ // a nested exception made when nothing was being handled
			case k_runtime: std::throw_with_nested(std::runtime_error(l[i].msg));
			case k_own: std::throw_with_nested(own(l[i].msg));
			default: std::throw_with_nested(odd());
		}
		switch(l[i].k){
			case k_runtime: throw std::runtime_error(l[i].msg);
			case k_logic: throw std::logic_error(l[i].msg);
			case k_odd: throw odd();
			case k_int: throw 7;
			default: throw own(l[i].msg);
		}
	}
	try { raise(l, i + 1, n, causeless); }
	catch(...){
		switch(l[i].k){
			case w_std_runtime: std::throw_with_nested(std::runtime_error(l[i].msg));
			case w_std_odd: std::throw_with_nested(odd());
			case w_std_own: std::throw_with_nested(own(l[i].msg));
			case w_stacked_logic: utki::throw_with_nested(std::logic_error(l[i].msg));
			case w_stacked_own: utki::throw_with_nested(own(l[i].msg));
			default: utki::throw_with_nested(std::runtime_error(l[i].msg));
		}
	}
	std::abort();
}
struct line { const char* type; bool msg; };
line describe(unsigned k, bool inner, bool causeless){
	if(inner && causeless) switch(k){
		case k_runtime: return {"std::_Nested_exception<std::runtime_error>", true};
		case k_own: return {"std::_Nested_exception<c25::own>", true};
		default: return {"std::_Nested_exception<c25::odd>", false};
	}
	if(inner) switch(k){
		case k_runtime: return {"std::runtime_error", true};
		case k_logic: return {"std::logic_error", true};
		case k_odd: return {"c25::odd", false};
		case k_int: return {"int", false};
		default: return {"c25::own", true};
	}
	switch(k){
		case w_std_runtime: return {"std::_Nested_exception<std::runtime_error>", true};
		case w_std_odd: return {"std::_Nested_exception<c25::odd>", false};
		case w_std_own: return {"std::_Nested_exception<c25::own>", true};
		case w_stacked_logic: return {"std::logic_error", true};
		case w_stacked_own: return {"c25::own", true};
		default: return {"std::runtime_error", true};
	}
}
bool stacked(const level* l, unsigned n){ return n > 1 && l[0].k >= w_stacked_logic; }
void compare(const std::string& got, const level* l, unsigned n, bool causeless, const std::string& ind, const char* head){
	std::string e = head;
	for(unsigned i = 0; i < n; ++i){
		line d = describe(l[i].k, i + 1 == n, causeless);
		if(i) e += '\n';
		e += ind;
		e += d.type;
		if(d.msg){ e += ": "; e += l[i].msg; }
	}
	size_t gs = vp_concretize(got.size());
	vp_assert(gs == e.size(), "the description has the expected length");
	unsigned bad = 0;
	for(size_t i = 0; i < gs; ++i) bad |= unsigned(got[i] ^ e[i]);
	vp_assert(bad == 0, "one line per exception, from the outermost to the innermost");
	vp_observe("d", got.data(), got.size());
}
void chain(unsigned depth, unsigned msg, unsigned indent, bool causeless){
	unsigned n = unsigned(1 + vp_choice(depth, "depth"));
	level l[5];
	for(unsigned i = 0; i < n; ++i){
		bool in = i + 1 == n;
		unsigned k = unsigned(vp_choice(in ? unsigned(innermost_kinds) : unsigned(wraps), "kind"));
		if(in && causeless) vp_assume(k == k_runtime || k == k_own || k == k_odd);
		l[i].k = k;
		l[i].msg = describe(k, in, causeless).msg ? text("msg", msg) : std::string();
	}
	std::string ind = text("indent", indent);
	size_t before = vp_heap_count();
	{
		std::string own_text, std_text, what_text, again_text, cur_text;
		bool has_own = false, has_std = false;
		try { raise(l, 0, n, causeless); }
		catch(const utki::exception& e){ has_own = has_std = true; own_text = e.to_string(ind); what_text = e.what(); again_text = e.what(); if(!stacked(l, n)) std_text = utki::to_string(e, ind); cur_text = utki::current_exception_to_string(ind); }
		catch(const std::exception& e){ has_std = true; std_text = utki::to_string(e, ind); cur_text = utki::current_exception_to_string(ind); }
		catch(...){ cur_text = utki::current_exception_to_string(ind); }
		compare(cur_text, l, n, causeless, ind, "");
		if(has_own) compare(own_text, l, n, causeless, ind, "");
		if(has_std && !stacked(l, n)) compare(std_text, l, n, causeless, ind, "");
		if(stacked(l, n)) compare(what_text, l, n, causeless, "- ", "exception stack:\n");
		if(stacked(l, n)) vp_assert(again_text == what_text, "asked again it is the same");
	}
	vp_assert(vp_heap_count() == before, "nothing is left allocated");
	vp_reach("described");
}
}
VP_ENTRY(c25_chain){ chain(VP_BOUND(3, 4), VP_BOUND(1, 1), 1, false); }
VP_ENTRY(c25_texts){ chain(2, VP_BOUND(3, 4), VP_BOUND(3, 4), false); }
VP_ENTRY(c25_causeless){ chain(VP_BOUND(3, 3), 1, 1, true); }
VP_ENTRY(c25_deep){ // long stacks of one kind
	unsigned n = unsigned(1 + vp_choice(VP_BOUND(10, 20), "n"));
	if(n > VP_BOUND(8, 18)) n = VP_TIER ? (n == 19 ? 40 : 70) : n == 9 ? 17 : 34;
	bool st = vp_sym_bool("stacked");
	std::string m = text("msg", 1);
	std::string got;
	struct r {
		static void go(unsigned i, bool st, const std::string& m){
			if(i == 0) throw std::logic_error(m);
			try { go(i - 1, st, m); } catch(...){ if(st) utki::throw_with_nested(std::runtime_error(m)); else std::throw_with_nested(std::runtime_error(m)); }
		}
	};
	try { r::go(n, st, m); } catch(...){ got = utki::current_exception_to_string("\t"); }
	std::string e;
	for(unsigned i = 0; i < n; ++i){ e += st ? "\tstd::runtime_error: " : "\tstd::_Nested_exception<std::runtime_error>: "; e += m; e += '\n'; }
	e += "\tstd::logic_error: ";
	e += m;
	vp_assert(got.size() == e.size(), "as many lines as exceptions");
	unsigned bad = 0;
	for(size_t i = 0; i < e.size(); ++i) bad |= unsigned(got[i] ^ e[i]);
	vp_assert(bad == 0, "the lines");
	vp_observe("d", got.data(), got.size());
}
VP_ENTRY(c25_none){
	std::string ind = text("indent", 2);
	bool after = vp_sym_bool("after a handled one");
	if(after){ try { throw odd(); } catch(...){} }
	int r = vp_outcome<std::logic_error>([&]{ utki::current_exception_to_string(ind); });
	vp_assert(r == 1, "std::logic_error when no exception is being handled");
	vp_reach("none");
}
VP_ENTRY(c25_not_thrown){ // an exception object which was never thrown
	std::string m = text("msg", 2), ind = text("indent", 2);
	std::string a = utki::to_string(std::runtime_error(m), ind);
	std::string e = ind + "std::runtime_error: " + m;
	vp_assert(a == e, "type and message");
	own o(m);
	std::string b = o.to_string(ind), f = ind + "c25::own: " + m;
	vp_assert(b == f && utki::to_string(o, ind) == f, "type and message");
	vp_observe("a", a.data(), a.size());
	vp_observe("b", b.data(), b.size());
}
VP_ENTRY(c25_long){ // long messages and indentations
	static const uint16_t sizes[] = {15, 16, 31, 64, 127, 255, 256, 257, 1000, 4096, 5000};
	size_t n = sizes[vp_choice(11, "length")];
	unsigned which = unsigned(vp_choice(3, "long"));
	std::string m(which == 1 ? 2 : n, 'm'), c(which == 0 ? 3 : n, 'c'), ind(which == 2 ? 1 : n / 4, ' ');
	char x = vp_sym<char>("character");
	vp_assume(bool(unsigned(x != 0) & unsigned(x != '\n')));
	m[m.size() - 1] = c[c.size() / 2] = x;
	bool st = vp_sym_bool("stacked");
	std::string got;
	try {
		try { throw std::logic_error(c); } catch(...){ if(st) utki::throw_with_nested(std::runtime_error(m)); else std::throw_with_nested(own(m)); }
	} catch(...){ got = utki::current_exception_to_string(ind); }
	std::string e = ind + (st ? "std::runtime_error: " : "std::_Nested_exception<c25::own>: ") + m + '\n' + ind + "std::logic_error: " + c;
	vp_assert(got.size() == e.size(), "the length of the description");
	unsigned bad = 0;
	for(size_t i = 0; i < e.size() && i < got.size(); ++i) bad |= unsigned(got[i] ^ e[i]);
	vp_assert(bad == 0, "the whole messages");
	vp_observe_val("n", n);
}
