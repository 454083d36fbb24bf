// C10: word wrap
#include "vp.h"
#include <utki/string.hpp>
namespace {
void wrap(size_t n, const char* b, unsigned width){
	auto v = utki::word_wrap(std::string_view(b, n), width);
	if(width == 0){
		vp_assert(v.size() == 1, "width zero: one line");
		vp_assert(v[0].size() == n, "width zero: the whole text");
		bool eq = true;
		for(size_t i = 0; i < n && i < v[0].size(); ++i) eq &= v[0][i] == b[i];
		vp_assert(eq, "width zero: the text");
		vp_reach("zero");
		return;
	}
	size_t at = 0; // position in the text
	size_t par = 0; // number of newlines before it
	size_t lines_since = 0; // lines completed since the last visible character
	size_t par_of_last = 0;
	bool first_line_of_visible = true;
	size_t newlines = 0;
	bool last_par_visible = false;
	for(size_t i = 0; i < n; ++i){
		if(b[i] == '\n'){ ++newlines; last_par_visible = false; }
		else if(b[i] != ' ') last_par_visible = true;
	}
	(void)first_line_of_visible;
	// line number of every visible character
	vp_buf<size_t> line_of(n ? n : 1);
	for(size_t k = 0; k < v.size(); ++k){
		vp_assert(v[k].size() <= width, "a line is not longer than the width");
		bool line_has = false;
		for(char c : v[k]){
			vp_assert(c != '\n', "a line contains no newline");
			if(c == ' ') continue;
			// the next visible character of the text
			while(at < n && (b[at] == ' ' || b[at] == '\n')){ if(b[at] == '\n') ++par; ++at; }
			vp_assert(at < n, "no characters are invented");
			vp_assert(b[at] == c, "characters come in order");
			if(par != par_of_last){
				vp_assert(!line_has, "a newline ends the line");
				vp_assert(lines_since >= par - par_of_last, "every newline ends a line of its own");
			}
			par_of_last = par;
			lines_since = 0;
			line_has = true;
			line_of[at] = k;
			++at;
		}
		++lines_since;
	}
	while(at < n && (b[at] == ' ' || b[at] == '\n')) ++at;
	vp_assert(at == n, "no characters are lost");
	vp_assert(v.size() >= newlines + (last_par_visible ? 1 : 0), "every newline ends a line");
	// words of a paragraph without leading or repeated spaces
	bool clean = true;
	for(size_t i = 0; i < n; ++i){
		if(i == 0 || b[i - 1] == '\n') clean = true;
		if(b[i] == '\n') continue;
		if(b[i] == ' '){
			if(i == 0 || b[i - 1] == '\n' || b[i - 1] == ' ') clean = false;
			continue;
		}
		if(!(i == 0 || b[i - 1] == '\n' || b[i - 1] == ' ')) continue;
		size_t e = i;
		while(e < n && b[e] != ' ' && b[e] != '\n') ++e;
		if(clean && e - i <= width){
			bool unbroken = true;
			for(size_t j = i; j < e; ++j) unbroken &= line_of[j] == line_of[i];
			vp_assert(unbroken, "a word that fits is not broken");
			// inside of the line its characters are adjacent because the line is checked to consist of these characters: spaces
			// in between would be counted here
			size_t run = 0;
			bool found = false;
			for(char c : v[line_of[i]]){
				run = c == ' ' ? 0 : run + 1;
				found |= run >= e - i;
			}
			vp_assert(found, "the word is contiguous in its line");
			vp_reach("kept word");
		}
	}
	vp_observe_val("lines", v.size());
	for(auto& l : v) vp_observe("line", l.data(), l.size());
}
}
VP_ENTRY(c10_wrap){
	size_t n = vp_choice(VP_BOUND(8, 9), "size");
	unsigned width = unsigned(vp_choice(n + 2, "width"));
	vp_buf<char> b(n, "text");
	wrap(n, b.p, width);
}
// any 32-bit width
VP_ENTRY(c10_any_width){
	size_t n = vp_choice(VP_BOUND(5, 7), "size");
	vp_buf<char> b(n, "text");
	unsigned width = vp_sym<unsigned>("width");
	wrap(n, b.p, width);
}
// long texts
VP_ENTRY(c10_long){
	static const uint16_t lengths[] = {0, 1, 19, 60};
	vp_runs r("x \n", 2, lengths, VP_BOUND(3, 4), 3);
	static const uint16_t widths[] = {1, 2, 15, 18, 19, 20, 21, 40, 80, 300};
	wrap(r.n, r.p(), widths[vp_choice(10, "width")]);
}
// many words
VP_ENTRY(c10_many){
	size_t count = VP_BOUND(12, 40);
	std::string s;
	for(size_t i = 0; i < count; ++i) s += std::string(1 + i % 7, 'a') + ' ';
	size_t at = vp_choice(3, "place") * (s.size() - 1) / 2;
	vp_buf<char> b(s.size());
	memcpy(b.p, s.data(), s.size());
	b[at] = vp_sym<char>("x");
	wrap(b.n, b.p, unsigned(1 + vp_choice(VP_BOUND(20, 40), "width")));
}
// lines longer than fits 16 bits
VP_ENTRY(c10_huge){
	unsigned width = 65536 + 3 * unsigned(vp_choice(2, "width"));
	vp_buf<char> b(width + 30);
	memset(b.p, 'w', b.n);
	size_t sp = vp_choice(3, "space");
	size_t at = sp == 1 ? width - 10 : width;
	if(sp) b[at] = ' ';
	char c = vp_sym<char>("last");
	vp_assume(c != ' ' && c != '\n');
	b[b.n - 1] = c;
	auto v = utki::word_wrap(std::string_view(b.p, b.n), width);
	vp_assert(v.size() == 2, "two lines");
	vp_assert(v[0].size() == (sp ? at : width), "the first line takes all what fits");
	vp_assert(v[0].size() + v[1].size() + (sp != 0) == b.n, "nothing is lost");
	vp_assert(v[1].back() == c && v[1][0] == 'w' && v[0][0] == 'w' && v[0].back() == 'w', "the text");
	vp_observe("second", v[1].data(), v[1].size());
}
