// C24: printf-style formatting
#include "vp.h"
#include <utki/string.hpp>
#include <cstdarg>
#include <cstdio>
#include <stdexcept>
// the k-th call of the formatter reports an error when armed (0: never)
static unsigned fail_at = 0, calls = 0;
static bool fired = false;
static int verdict(int r){
	++calls;
	if(calls == fail_at){ fired = true; return -1; }
	return r;
}
#ifdef VP_NATIVE
#	include <dlfcn.h>
extern "C" int vsnprintf(char* b, size_t n, const char* f, va_list a) noexcept {
	static auto real = reinterpret_cast<int (*)(char*, size_t, const char*, va_list)>(dlsym(RTLD_NEXT, "vsnprintf"));
	return verdict(real(b, n, f, a));
}
extern "C" int __vsnprintf_chk(char* b, size_t n, int, size_t, const char* f, va_list a) noexcept { return vsnprintf(b, n, f, a); }
#else
extern "C" int vp_vsnprintf_result(int r){ return verdict(r); }
#endif
namespace {
// lengths below, at and above any power-of-two buffer one would guess first
const unsigned lengths[] = {0, 1, 2, 15, 16, 63, 64, 127, 128, 255, 256, 511, 512, 513, 1021, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192};
unsigned length(unsigned n = sizeof(lengths) / sizeof(*lengths)){ return lengths[vp_choice(n, "length")]; }
// text of n characters, some of them arbitrary: the first, the last and those where internal buffers may end
struct text {
	vp_buf<char> b;
	text(unsigned n) : b(n + 1) {
		for(unsigned i = 0; i < n; ++i) b[i] = char('a' + i % 23);
		b[n] = 0;
		for(unsigned i : {0u, 1022u, 1023u, 1024u, n - 1}) if(i < n){ char c = vp_sym<char>("c"); vp_assume(c != 0); b[i] = c; }
	}
};
// mismatches are accumulated: one assertion per text
struct cursor {
	const std::string& s; size_t pos = 0; unsigned bad = 0;
	void ch(char c){ bad |= unsigned(pos >= s.size() || (s[pos] != c)); ++pos; }
	void str(const char* p, size_t n){ if(n > s.size() || pos > s.size() - n){ bad = 1; pos += n; return; } for(size_t i = 0; i < n; ++i) bad |= unsigned(s[pos + i] ^ p[i]); pos += n; }
	void hex(uint32_t v){
		static const char d[] = "0123456789abcdef";
		for(int i = 28; i >= 0; i -= 4) ch(d[(v >> i) & 15]);
	}
	bool done(){ return bad == 0 && pos == s.size(); }
};
template <class F> bool formatted(std::string& out, F&& f){
	calls = 0;
	fired = false;
	int r = vp_outcome<std::logic_error>([&]{ out = f(); });
	vp_assert(r == 0 || r == 1, "only std::logic_error is thrown");
	vp_assert((r == 1) == fired, "std::logic_error exactly when the formatter reports an error");
	return r == 0;
}
void one(unsigned nlen, unsigned fail){
	text t(nlen);
	fail_at = fail;
	std::string s;
	if(!formatted(s, [&]{ return utki::make_string("%s", t.b.p); })) return;
	s.reserve(s.size());
	vp_assert(s.size() == nlen, "complete, nothing more");
	cursor c{s};
	c.str(t.b.p, nlen);
	vp_assert(c.done() && s.c_str()[s.size()] == 0, "the text");
	vp_observe_val("n", s.size());
	vp_reach("formatted");
}
std::string wrap(const char* f, ...){
	va_list a;
	va_start(a, f);
	auto r = utki::make_string_va_list(f, a);
	va_end(a);
	return r;
}
// the arguments left after some were taken by the caller
std::string wrap_rest(unsigned& taken, const char* f, ...){
	va_list a;
	va_start(a, f);
	taken = va_arg(a, unsigned);
	auto r = utki::make_string_va_list(f, a);
	va_end(a);
	return r;
}
// more arguments than fit into registers, of mixed kinds
void many(unsigned n, unsigned form, unsigned fail){
	text t(n);
	uint32_t x = vp_sym<uint32_t>("x"), y = vp_sym<uint32_t>("y"), z = vp_sym<uint32_t>("z");
	x |= 0x80000000u; y |= 0x80000000u; z |= 0x80000000u; // eight digits
	char c1 = vp_sym<char>("c1"), c2 = vp_sym<char>("c2");
	vp_assume(c1 != 0 && c2 != 0);
	uint64_t w = vp_sym<uint64_t>("w") | 0x8000000000000000u;
	unsigned taken = 7;
	const char* f = "%c%s%08x%%%f|%c%08x-%s%016llx:%.2f%08x%s.";
	fail_at = fail;
	std::string s;
	if(!formatted(s, [&]() -> std::string {
		switch(form){
			case 0: return utki::make_string(f, c1, t.b.p, x, 1.5, c2, y, "mid", static_cast<unsigned long long>(w), -2.25, z, "end");
			case 1: return wrap(f, c1, t.b.p, x, 1.5, c2, y, "mid", static_cast<unsigned long long>(w), -2.25, z, "end");
			default: return wrap_rest(taken, f, 99u, c1, t.b.p, x, 1.5, c2, y, "mid", static_cast<unsigned long long>(w), -2.25, z, "end");
		}
	})) return;
	if(form == 2) vp_assert(taken == 99, "taken by the caller");
	cursor k{s};
	k.ch(c1); k.str(t.b.p, n); k.hex(x); k.str("%1.500000|", 10); k.ch(c2); k.hex(y); k.str("-mid", 4);
	k.hex(uint32_t(w >> 32)); k.hex(uint32_t(w)); k.str(":-2.25", 6); k.hex(z); k.str("end.", 4);
	vp_assert(k.done(), "every argument in its place");
	vp_observe_val("n", s.size());
	vp_observe_val("x", x);
	vp_reach("formatted");
}
}
VP_ENTRY(c24_text){ one(length(), 0); }
VP_ENTRY(c24_short_text){ // every length of a short text, every character
	unsigned n = unsigned(vp_choice(VP_BOUND(20, 40), "n"));
	vp_buf<char> b(n + 1, "t");
	b[n] = 0;
	for(unsigned i = 0; i < n; ++i) vp_assume(b[i] != 0);
	fail_at = 0;
	std::string s = utki::make_string("<%s>", b.p);
	cursor c{s};
	c.ch('<'); c.str(b.p, n); c.ch('>');
	vp_assert(c.done(), "the text");
	vp_observe("s", s.data(), s.size());
}
VP_ENTRY(c24_every_length){ // all lengths around the kilobyte
	unsigned n = unsigned(VP_BOUND(1010, 960) + vp_choice(VP_BOUND(30, 140), "n"));
	one(n, 0);
}
VP_ENTRY(c24_width){
	int w = int(length());
	char ch = vp_sym<char>("ch");
	vp_assume(ch != 0);
	fail_at = 0;
	std::string s = utki::make_string("%*d%c", w, -5, ch);
	size_t n = w < 2 ? 2 : size_t(w);
	vp_assert(s.size() == n + 1, "the width");
	unsigned bad = 0;
	for(size_t i = 0; i + 2 < n; ++i) bad |= unsigned(s[i] ^ ' ');
	vp_assert(bad == 0 && s[n - 2] == '-' && s[n - 1] == '5' && s[n] == ch, "padded");
	vp_observe_val("n", s.size());
}
VP_ENTRY(c24_many){ unsigned n = length(), form = unsigned(vp_choice(3, "form")); many(n, form, 0); }
VP_ENTRY(c24_plain){ // a format without arguments, of any characters but the percent sign
	unsigned n = length();
	text t(n);
	unsigned pc = 0;
	for(unsigned i = 0; i < n; ++i) pc |= unsigned(t.b[i] == '%');
	vp_assume(pc == 0);
	fail_at = 0;
	std::string s = utki::make_string(t.b.p);
	cursor c{s};
	c.str(t.b.p, n);
	vp_assert(c.done(), "the text");
	vp_observe_val("n", s.size());
}
VP_ENTRY(c24_integers){
	int8_t a = vp_sym<int8_t>("a");
	uint8_t b = vp_sym<uint8_t>("b");
	fail_at = 0;
	std::string s = utki::make_string("%i,%u", int(a), unsigned(b));
	// decimal digits of both
	char e[16]; size_t n = 0;
	unsigned m = a < 0 ? unsigned(-int(a)) : unsigned(a);
	if(a < 0) e[n++] = '-';
	if(m >= 100) e[n++] = char('0' + m / 100);
	if(m >= 10) e[n++] = char('0' + m / 10 % 10);
	e[n++] = char('0' + m % 10);
	e[n++] = ',';
	if(b >= 100) e[n++] = char('0' + b / 100);
	if(b >= 10) e[n++] = char('0' + b / 10 % 10);
	e[n++] = char('0' + b % 10);
	cursor c{s};
	c.str(e, n);
	vp_assert(c.done(), "the numbers");
	vp_observe("s", s.data(), s.size());
}
VP_ENTRY(c24_fault){ // the formatter fails on its first, second or third call
	unsigned f = unsigned(1 + vp_choice(3, "fail_at"));
	unsigned n = length(), form = unsigned(vp_choice(4, "form"));
	if(form < 3) many(n, form, f);
	else one(n, f);
}
VP_ENTRY(c24_error){ // a character which cannot be converted
	wchar_t w[2] = {wchar_t(0x100 + vp_choice(4, "w")), 0};
	unsigned n = length();
	text t(n);
	fail_at = 0;
	int r = vp_outcome<std::logic_error>([&]{ utki::make_string("%s%ls", t.b.p, w); });
	vp_assert(r == 1, "std::logic_error when the formatter reports an error");
	vp_reach("failed");
}
// more characters than fit 16 bits
VP_ENTRY(c24_huge){
	size_t n = 65534 + vp_choice(4, "length");
	std::string t(n, 'h');
	char c = vp_sym<char>("last");
	vp_assume(c != 0);
	std::string r = utki::make_string("%s%c", t.c_str(), c);
	vp_assert(r.size() == n + 1 && r[n] == c && r[0] == 'h' && memcmp(r.data(), t.data(), n) == 0, "the whole text");
	vp_observe("end", r.data() + n - 1, 2);
}
