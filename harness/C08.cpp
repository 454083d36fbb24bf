// C08: split and join
#include "vp.h"
#include <utki/string.hpp>
#include <array>
namespace {
template <class C> void split_join(const C* b, size_t n, C d, int kind);
template <class C> void split_join(size_t max, int kind){
	size_t n = vp_choice(max + 1, "size");
	vp_buf<C> b(n, "text");
	C d = vp_sym<C>("delimiter");
	split_join<C>(b.p, n, d, kind);
}
template <class C> void split_join(const C* b, size_t n, C d, int kind){
	std::vector<std::basic_string<C>> v;
	if(kind == 0) v = utki::split(std::basic_string_view<C>(b, n), d);
	else if(kind == 1) v = utki::split(std::basic_string<C>(b, n), d);
	else {
		vp_buf<C> z(n + 1);
		for(size_t i = 0; i < n; ++i){ vp_assume(b[i] != C(0)); z[i] = b[i]; }
		z[n] = C(0);
		v = utki::split(static_cast<const C*>(z.p), d);
	}
	size_t num = 0;
	for(size_t i = 0; i < n; ++i) num += b[i] == d;
	vp_assert(v.size() == num + 1, "one more piece than there are delimiters");
	std::basic_string<C> all;
	bool clean = true;
	for(size_t k = 0; k < v.size(); ++k){
		if(k) all.push_back(d);
		for(C c : v[k]){ clean &= c != d; all.push_back(c); }
	}
	vp_assert(clean, "no piece contains the delimiter");
	bool same = all.size() == n;
	for(size_t i = 0; i < n && same; ++i) vp_assert(all[i] == b[i], "the pieces with the delimiter between them are the text");
	vp_assert(same, "the pieces with the delimiter between them have the length of the text");
	if constexpr(sizeof(C) == 1){
		std::string j = utki::join(v, d);
		vp_assert(j.size() == n, "length of the joined text");
		bool eq = true;
		for(size_t i = 0; i < j.size(); ++i) eq &= j[i] == b[i];
		vp_assert(eq, "joining gives back the text");
		vp_observe("joined", j.data(), j.size());
	}
	vp_observe_val("pieces", num);
}
}
VP_ENTRY(c08_view){ split_join<char>(VP_BOUND(8, 11), 0); }
VP_ENTRY(c08_string){ split_join<char>(VP_BOUND(6, 9), 1); }
VP_ENTRY(c08_cstr){ split_join<char>(VP_BOUND(6, 9), 2); }
VP_ENTRY(c08_u32){ split_join<char32_t>(VP_BOUND(6, 8), 0); }
VP_ENTRY(c08_u32_string){ split_join<char32_t>(VP_BOUND(5, 8), 1); }
namespace {
void words(const char* b, size_t n){
	auto v = utki::split(std::string_view(b, n));
	// the pieces in order, each one a maximal run
	size_t k = 0, i = 0;
	while(i < n){
		auto sp = [&](size_t j){ char c = b[j]; return bool(unsigned(c == ' ') | unsigned(c == '\n') | unsigned(c == '\t') | unsigned(c == '\r') | unsigned(c == '\v') | unsigned(c == '\f')); };
		if(sp(i)){ ++i; continue; }
		size_t e = i;
		while(e < n && !sp(e)) ++e;
		vp_assert(k < v.size(), "every run of non-whitespace is a word");
		vp_assert(v[k].size() == e - i, "a word is a maximal run");
		bool eq = true;
		for(size_t j = 0; j < v[k].size() && i + j < e; ++j) eq &= v[k][j] == b[i + j];
		vp_assert(eq, "a word has the characters of the text");
		++k;
		i = e;
	}
	vp_assert(k == v.size(), "there are no other words");
	vp_observe_val("words", k);
	vp_reach(k > 1 ? "many" : "few");
}
}
VP_ENTRY(c08_words){
	size_t n = vp_choice(VP_BOUND(8, 11), "size");
	vp_buf<char> b(n, "text");
	words(b.p, n);
}
// long texts
VP_ENTRY(c08_long){
	static const uint16_t lengths[] = {0, 17, 300};
	vp_runs r("x,", 2, lengths, 3, 3);
	char d = vp_choice(2, "delimiter") ? 'x' : ',';
	split_join<char>(r.p(), r.n, d, int(vp_choice(2, "kind")));
}
VP_ENTRY(c08_words_long){
	static const uint16_t lengths[] = {0, 17, 300};
	vp_runs r("x ", 2, lengths, 3, 3);
	words(r.p(), r.n);
}
VP_ENTRY(c08_join_many){
	static const uint16_t counts[] = {9, 33, 257, 1025};
	size_t num = counts[vp_choice(VP_BOUND(3, 4), "number")];
	size_t at = vp_choice(3, "place") * (num - 1) / 2;
	char d = vp_sym<char>("delimiter"), c = vp_sym<char>("character");
	std::vector<std::string> v(num, "a");
	v[at] = std::string(20, c);
	std::string j = utki::join(v, d);
	vp_assert(j.size() == (num - 1) * 2 + 20, "length of the joined text");
	bool ok = true;
	size_t k = 0;
	for(size_t i = 0; i < num; ++i){
		if(i) ok &= j[k++] == d;
		for(size_t e = 0; e < v[i].size(); ++e) ok &= j[k++] == v[i][e];
	}
	vp_assert(ok, "the pieces with the delimiter between them");
	vp_observe_val("size", j.size());
}
// joining arbitrary pieces (delimiters inside allowed): lengths and content
VP_ENTRY(c08_join){
	size_t num = vp_choice(4, "number");
	std::vector<std::string> v;
	char d = vp_sym<char>("delimiter");
	std::string want;
	for(size_t k = 0; k < num; ++k){
		size_t n = vp_choice(VP_BOUND(3, 4), "length");
		vp_buf<char> b(n, "piece");
		v.emplace_back(b.p, n);
		if(k) want.push_back(d);
		want.append(b.p, n);
	}
	std::string j = utki::join(v, d);
	vp_assert(j.size() == want.size(), "length");
	bool eq = true;
	for(size_t i = 0; i < j.size() && i < want.size(); ++i) eq &= j[i] == want[i];
	vp_assert(eq, "content");
	if(num == 3){
		std::array<std::string_view, 3> a{v[0], v[1], v[2]};
		vp_assert(utki::join(a, d) == want, "array of views");
	}
	vp_observe("joined", j.data(), j.size());
}
// more characters and pieces than fit 16 bits
VP_ENTRY(c08_huge){
	size_t n = 65535 + vp_choice(3, "length");
	bool pieces = vp_choice(2, "many pieces");
	vp_buf<char> b(n + 2);
	memset(b.p, pieces ? ' ' : 'x', n);
	char c = vp_sym<char>("character");
	vp_assume(bool(unsigned(c != ' ') & unsigned(c != '\t') & unsigned(c != '\n') & unsigned(c != '\r') & unsigned(c != '\v') & unsigned(c != '\f')));
	b[n] = ' ';
	b[n + 1] = c;
	std::string_view s(b.p, n + 2);
	auto v = utki::split(s, ' ');
	vp_assert(v.size() == (pieces ? n + 2 : 2), "one more piece than there are delimiters");
	vp_assert(v.back().size() == 1 && v.back()[0] == c, "the last piece");
	vp_assert(v[0].size() == (pieces ? 0 : n), "the first piece");
	auto w = utki::split(s);
	vp_assert(w.size() == (pieces ? 1 : 2) && w.back().size() == 1 && w.back()[0] == c, "words");
	if(!pieces) vp_assert(w[0].size() == n && w[0][0] == 'x' && w[0][n - 1] == 'x', "a long word");
	if(pieces) v.erase(v.begin() + 300, v.end() - 300);
	std::string j = utki::join(v, ' ');
	vp_assert(j.size() == (pieces ? 600 : n + 2) && j.back() == c, "joined again");
	vp_observe("end", j.data() + j.size() - 2, 2);
}
