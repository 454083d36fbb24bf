// C06: string_parser
#include "vp.h"
#include <utki/string.hpp>
#include <stdexcept>
namespace {
bool space(char c){ // branch-free
	return bool(unsigned(c == ' ') | unsigned(c == '\n') | unsigned(c == '\t') | unsigned(c == '\r') | unsigned(c == '\v') | unsigned(c == '\f'));
}
enum op_kind { skip_ws, skip_ws_comma, skip_until, skip_one_of, word, word_until, chars_until, rd_char, pk_char, pk_nth, rd_chars, num_ops };

// runs one operation on the parser whose remaining text must be b[at, n), returns the new position
size_t step(utki::string_parser& p, const char* b, size_t at, size_t n, op_kind op, bool any_n){
	const char* t = b + at;
	size_t left = n - at;
	char c = 0;
	size_t num = 0;
	size_t set_n = 0;
	vp_buf<char> set(3);
	if(op == skip_until || op == word_until || op == chars_until) c = vp_sym<char>("c");
	if(op == skip_one_of){
		set_n = vp_choice(4, "set size");
		vp_sym_bytes(set.p, 3, "set");
	}
	if(op == pk_nth || op == rd_chars){
		num = vp_choice(left + 3, "n");
		if(num == left + 2) num = op == rd_chars && any_n ? vp_sym<size_t>("any n") : SIZE_MAX;
	}
	std::string_view ret;
	char rc = 0;
	int o = vp_outcome<std::invalid_argument>([&](){
		switch(op){
		case skip_ws: p.skip_whitespaces(); break;
		case skip_ws_comma: p.skip_whitespaces_and_comma(); break;
		case skip_until: p.skip_inclusive_until(c); break;
		case skip_one_of: rc = p.skip_inclusive_until_one_of(utki::span<const char>(set.p, set_n)); break;
		case word: ret = p.read_word(); break;
		case word_until: ret = p.read_word_until(c); break;
		case chars_until: ret = p.read_chars_until(c); break;
		case rd_char: rc = p.read_char(); break;
		case pk_char: rc = p.peek_char(); break;
		case pk_nth: rc = p.peek_char(num); break;
		default: ret = p.read_chars(num); break;
		}
	});
	vp_assert(o != 2, "only std::invalid_argument is thrown");
	size_t used = 0; // expected number of consumed characters
	bool throws = false;
	char want = 0; // expected returned character
	bool has_ret = false;
	switch(op){
	case skip_ws: { bool run = true; for(size_t i = 0; i < left; ++i){ run &= space(t[i]); used += run; } break; }
	case skip_ws_comma: {
		bool run = true, comma = false;
		for(size_t i = 0; i < left; ++i){
			bool is_comma = t[i] == ',';
			run &= bool(unsigned(space(t[i])) | (unsigned(is_comma) & unsigned(!comma)));
			comma |= is_comma;
			used += run;
		}
		break;
	}
	case skip_until: case skip_one_of: {
		bool run = true; // not found yet
		for(size_t i = 0; i < left; ++i){
			used += run;
			bool hit = false;
			if(op == skip_until) hit = t[i] == c;
			else for(size_t k = 0; k < set_n; ++k) hit |= t[i] == set[k];
			if(op == skip_one_of) want = char(want | (t[i] & char(-int(run & hit))));
			run &= !hit;
		}
		break;
	}
	case word: case word_until: case chars_until: {
		bool run = true;
		for(size_t i = 0; i < left; ++i){
			bool stop = op == chars_until ? false : space(t[i]);
			if(op != word) stop |= t[i] == c;
			run &= !stop;
			used += run;
		}
		has_ret = true;
		break;
	}
	case rd_char: if(left){ used = 1; want = t[0]; } else throws = true; break;
	case pk_char: if(left) want = t[0]; else throws = true; break;
	case pk_nth: if(num < left) want = t[num]; else throws = true; break;
	default: used = num < left ? num : left; has_ret = true; break;
	}
	vp_assert((o == 1) == throws, "throws exactly when asked for a character past the end");
	vp_assert(rc == want, "the returned character");
	if(has_ret){
		vp_assert(ret.size() == used, "the returned characters: length");
		vp_assert(bool(unsigned(ret.size() == 0) | unsigned(ret.data() == t)), "the returned characters: position");
		vp_observe("ret", ret.data(), ret.size());
	}
	auto v = p.get_view();
	vp_assert(v.size() == left - used, "the rest: length");
	vp_assert(bool(unsigned(v.size() == 0) | unsigned(v.data() == t + used)), "the rest: position");
	vp_assert(p.size() == v.size() && p.empty() == v.empty(), "size and emptiness");
	vp_reach(o ? "threw" : "done");
	return n - vp_concretize(v.size());
}
void history(size_t max, unsigned ops, bool any_n){
	size_t n = vp_choice(max + 1, "size");
	vp_buf<char> b(n, "text");
	utki::string_parser p(std::string_view(b.p, n));
	size_t at = 0;
	for(unsigned i = 0; i < ops; ++i) at = step(p, b.p, at, n, op_kind(vp_choice(num_ops, "op")), any_n);
	vp_observe_val("at", at);
	bool ok = true;
	auto v = p.get_view();
	for(size_t i = 0; i < v.size(); ++i) ok &= v[i] == b[at + i];
	vp_assert(ok, "the rest is unchanged text");
}
}
VP_ENTRY(c06_one){ history(VP_BOUND(7, 10), 1, true); }
VP_ENTRY(c06_two){ history(VP_BOUND(3, 5), 2, true); }
VP_ENTRY(c06_three){ history(VP_BOUND(1, 3), 3, false); }
VP_ENTRY(c06_is_space){
	char c = vp_sym<char>("c");
	vp_assert(utki::string_parser::is_space(c) == space(c), "the six space characters");
}
// long texts
VP_ENTRY(c06_long){
	static const uint16_t lengths[] = {0, 20, 300};
	vp_runs r(" x,", 3, lengths, VP_BOUND(2, 3), 2);
	utki::string_parser p(std::string_view(r.p(), r.n));
	op_kind op = op_kind(vp_choice(num_ops, "op"));
	if(op == pk_nth || op == rd_chars){
		size_t num = vp_choice(4, "n");
		num = num == 0 ? r.n / 2 : num == 1 ? r.n - 1 : num == 2 ? r.n : r.n + 1;
		std::string_view ret;
		char rc = 0;
		int o = vp_outcome<std::invalid_argument>([&](){ if(op == pk_nth) rc = p.peek_char(num); else ret = p.read_chars(num); });
		if(op == pk_nth){
			vp_assert(o == (num < r.n ? 0 : 1), "throws exactly past the end");
			if(o == 0) vp_assert(rc == r.p()[num], "the returned character");
			vp_assert(p.size() == r.n, "nothing is consumed");
		} else {
			size_t used = num < r.n ? num : r.n;
			vp_assert(o == 0 && ret.data() == r.p() && ret.size() == used, "the returned characters");
			vp_assert(p.size() == r.n - used, "the rest");
			if(p.size()) vp_assert(p.get_view().data() == r.p() + used, "the rest: position");
		}
		return;
	}
	size_t at = step(p, r.p(), 0, r.n, op, false);
	vp_observe_val("at", at);
}
// more characters than fit 16 bits
VP_ENTRY(c06_huge){
	size_t n = 65535 + vp_choice(3, "length");
	vp_buf<char> b(n + 2);
	static const char fill[] = " x";
	unsigned f = unsigned(vp_choice(2, "fill"));
	memset(b.p, fill[f], n);
	b[n] = vp_sym<char>("end");
	b[n + 1] = 'x';
	utki::string_parser p(std::string_view(b.p, n + 2));
	bool is_space = vp_concretize(space(b[n])), is_comma = vp_concretize(b[n] == ',');
	size_t used, ret = SIZE_MAX;
	std::string_view r;
	char c = 0;
	switch(vp_choice(8, "op")){
		case 0: p.skip_whitespaces(); used = f ? 0 : n + is_space; break;
		case 1: p.skip_whitespaces_and_comma(); used = f ? 0 : n + (is_space || is_comma); break;
		case 2: vp_assume(b[n] != fill[f]); p.skip_inclusive_until(b[n]); used = n + 1; break;
		case 3: { vp_assume(b[n] != fill[f]); char set[2] = {'\1', b[n]}; vp_assume(fill[f] != '\1'); c = p.skip_inclusive_until_one_of(utki::span<const char>(set, 2)); vp_assert(c == b[n], "the found character"); used = n + 1; break; }
		case 4: r = p.read_word(); ret = used = f ? (is_space ? n : n + 2) : 0; break;
		case 5: vp_assume(b[n] != fill[f]); r = p.read_word_until(b[n]); ret = used = f ? n : 0; break;
		case 6: vp_assume(b[n] != fill[f]); r = p.read_chars_until(b[n]); ret = used = n; break;
		default: { size_t k = n + vp_choice(3, "n"); c = p.peek_char(k < n + 2 ? k : n); vp_assert(c == b[k < n + 2 ? k : n], "the peeked character"); r = p.read_chars(k); ret = used = k; break; }
	}
	vp_assert(p.get_view().data() == b.p + used || p.empty(), "exactly the documented characters are consumed");
	vp_assert(p.size() == n + 2 - used, "the rest");
	if(ret != SIZE_MAX) vp_assert(r.size() == ret && (ret == 0 || r.data() == b.p), "the returned view");
	vp_observe_val("used", used);
}
