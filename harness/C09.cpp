// C09: trimming and prefix / suffix tests
#include "vp.h"
#include <utki/string.hpp>
namespace {
template <class C> bool space(C c){
	return bool(unsigned(c == ' ') | unsigned(c == '\n') | unsigned(c == '\t') | unsigned(c == '\r') | unsigned(c == '\v') | unsigned(c == '\f'));
}
// expected [lo, hi) of the trimmed text
void expect(const char* b, size_t n, bool front, bool back, std::string_view r){
	size_t lo = 0, hi = n;
	bool run = true;
	if(front) for(size_t i = 0; i < n; ++i){ run &= space(b[i]); lo += run; }
	run = true;
	if(back) for(size_t i = n; i-- > 0;){ run &= space(b[i]); hi -= run; }
	size_t len = hi > lo ? hi - lo : 0;
	vp_assert(r.size() == len, "length of the trimmed view");
	if(r.size()) vp_assert(r.data() == b + lo, "the view is in the original storage, at the first kept character");
	else vp_assert(bool(unsigned(r.data() >= b) & unsigned(r.data() <= b + n)), "an empty view is in the original storage");
	vp_observe("trimmed", r.data(), r.size());
}
std::string_view run(std::string_view s, size_t which){ return which == 0 ? utki::trim_front(s) : which == 1 ? utki::trim_back(s) : utki::trim(s); }
std::string_view run(const char* s, size_t which){ return which == 0 ? utki::trim_front(s) : which == 1 ? utki::trim_back(s) : utki::trim(s); }
std::string_view run(const std::string& s, size_t which){ return which == 0 ? utki::trim_front(s) : which == 1 ? utki::trim_back(s) : utki::trim(s); }
}
// long texts
VP_ENTRY(c09_long){
	static const uint16_t lengths[] = {0, 1, 40, 300};
	vp_runs r(" x\n", 3, lengths, VP_BOUND(3, 4), 2);
	size_t w = vp_choice(3, "which");
	if(vp_choice(2, "kind")){
		std::string s(r.p(), r.n);
		expect(s.data(), r.n, w != 1, w != 0, run(s, w));
	} else expect(r.p(), r.n, w != 1, w != 0, run(std::string_view(r.p(), r.n), w));
}
VP_ENTRY(c09_starts_ends_long){
	static const uint16_t sizes[] = {15, 16, 17, 33, 64, 65, 255, 256, 257, 300};
	size_t m = sizes[vp_choice(10, "part size")];
	size_t extra = vp_choice(3, "longer by");
	size_t n = m - 1 + extra;
	size_t at = vp_choice(3, "place") * (m - 1) / 2;
	char x = vp_sym<char>("x"), y = vp_sym<char>("y");
	vp_buf<char> b(n), p(m);
	for(size_t i = 0; i < n; ++i) b[i] = 'a';
	for(size_t i = 0; i < m; ++i) p[i] = 'a';
	p[at] = x;
	size_t bs = at < n ? at : n - 1;
	b[bs] = y;
	bool st = m <= n, en = m <= n;
	if(m <= n) for(size_t i = 0; i < m; ++i){ st &= b[i] == p[i]; en &= b[n - m + i] == p[i]; }
	vp_assert(utki::starts_with(std::string_view(b.p, n), std::string_view(p.p, m)) == st, "starts_with");
	vp_assert(utki::ends_with(std::string_view(b.p, n), std::string_view(p.p, m)) == en, "ends_with");
	vp_observe_val("n", n);
}
VP_ENTRY(c09_view){
	size_t n = vp_choice(VP_BOUND(9, 13), "size");
	vp_buf<char> b(n, "text");
	size_t w = vp_choice(3, "which");
	expect(b.p, n, w != 1, w != 0, run(std::string_view(b.p, n), w));
}
VP_ENTRY(c09_cstr){
	size_t n = vp_choice(VP_BOUND(7, 10), "size");
	vp_buf<char> b(n + 1, "text");
	for(size_t i = 0; i < n; ++i) vp_assume(b[i] != 0);
	vp_assume(b[n] == 0);
	size_t w = vp_choice(3, "which");
	expect(b.p, n, w != 1, w != 0, run(static_cast<const char*>(b.p), w));
}
VP_ENTRY(c09_string){
	size_t n = vp_choice(VP_BOUND(7, 10), "size");
	vp_buf<char> b(n, "text");
	std::string s(b.p, n);
	size_t w = vp_choice(3, "which");
	expect(s.data(), n, w != 1, w != 0, run(s, w));
}
VP_ENTRY(c09_starts_ends){
	size_t n = vp_choice(VP_BOUND(7, 9), "size");
	size_t m = vp_choice(VP_BOUND(5, 7), "part size");
	vp_buf<char> b(n, "text"), p(m, "part");
	std::string_view s(b.p, n), q(p.p, m);
	bool st = m <= n, en = m <= n;
	if(m <= n) for(size_t i = 0; i < m; ++i){ st &= b[i] == p[i]; en &= b[n - m + i] == p[i]; }
	bool rs = utki::starts_with(s, q);
	vp_assert(rs == st, "starts_with");
	bool re = utki::ends_with(s, q);
	vp_assert(re == en, "ends_with");
	vp_observe_val("st", rs);
	vp_observe_val("en", re);
	vp_reach(rs ? "starts" : "not starts");
	vp_reach(re ? "ends" : "not ends");
}
// more white space than fits 16 bits
VP_ENTRY(c09_huge){
	size_t n = 65535 + vp_choice(3, "length"), m = vp_choice(2, "kept") * 65537, k = vp_choice(2, "behind") * n;
	std::string s(n + m + k + 1, ' ');
	for(size_t i = 0; i < m; ++i) s[n + i] = 'm';
	char c = s[n + m] = vp_sym<char>("last");
	bool sp = vp_concretize(space(c));
	size_t w = vp_choice(3, "which");
	auto r = run(std::string_view(s), w);
	size_t lo = w == 1 ? 0 : sp && !m ? s.size() : n, hi = w == 0 ? s.size() : n + m + !sp;
	if(sp && !m) lo = hi = 0;
	if(sp && !m && w == 1) hi = 0;
	vp_assert(r.size() == hi - lo, "length of the trimmed view");
	if(r.size()) vp_assert(r.data() == s.data() + lo, "place of the trimmed view");
	vp_observe_val("n", r.size());
}
