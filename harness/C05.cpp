// C05: UTF-8 decoding of arbitrary bytes
#include "vp.h"
#include <utki/unicode.hpp>
namespace {
constexpr size_t N = VP_BOUND(5, 7);
void check(const uint8_t* b, size_t n, const std::u32string& u){
	vp_assert(u.size() <= n, "at most as many characters as bytes");
	// the ASCII prefix (up to the first byte with the high bit set or a zero byte)
	size_t k = 0;
	while(k < n && b[k] != 0 && b[k] < 0x80) ++k;
	vp_assert(u.size() >= k, "ASCII prefix is delivered");
	bool ok = true;
	for(size_t i = 0; i < k && i < u.size(); ++i) ok &= u[i] == b[i];
	vp_assert(ok, "ASCII bytes are delivered unchanged and in order");
	vp_observe("u", u.data(), u.size() * 4);
	vp_reach(k == n ? "ascii" : "non-ascii");
}
}
VP_ENTRY(c05_span){
	size_t n = vp_choice(N + 1, "size");
	vp_buf<uint8_t> b(n, "bytes");
	std::u32string u = utki::to_utf32(utki::span<const uint8_t>(b.p, n));
	check(b.p, n, u);
}
VP_ENTRY(c05_iter){
	size_t n = vp_choice(N + 1, "size");
	vp_buf<uint8_t> b(n, "bytes");
	std::u32string u;
	size_t steps = 0;
	for(utki::utf8_iterator i(utki::span<const uint8_t>(b.p, n)); !i.is_end(); ++i){
		vp_assert(++steps <= n, "the end is reached after at most n characters");
		u.push_back(i.character());
	}
	check(b.p, n, u);
}
VP_ENTRY(c05_cstr){
	size_t n = vp_choice(N, "size");
	vp_buf<uint8_t> b(n + 1, "bytes");
	for(size_t i = 0; i < n; ++i) vp_assume(b[i] != 0);
	vp_assume(b[n] == 0);
	std::u32string u = utki::to_utf32(reinterpret_cast<const char*>(b.p));
	check(b.p, n, u);
}
VP_ENTRY(c05_string){
	size_t n = vp_choice(N, "size");
	vp_buf<uint8_t> b(n, "bytes");
	std::string s(reinterpret_cast<const char*>(b.p), n);
	s.shrink_to_fit();
	std::u32string u = utki::to_utf32(s);
	check(b.p, n, u);
}
VP_ENTRY(c05_view){
	size_t n = vp_choice(N, "size");
	vp_buf<uint8_t> b(n, "bytes");
	std::u32string u = utki::to_utf32(std::string_view(reinterpret_cast<const char*>(b.p), n));
	check(b.p, n, u);
}
// a long text: truncated anywhere
VP_ENTRY(c05_truncated){
	// one lead byte of any kind, k continuation bytes, end
	size_t k = vp_choice(8, "continuations");
	size_t pre = vp_choice(2, "prefix");
	vp_buf<uint8_t> b(pre + 1 + k, "bytes");
	if(pre) vp_assume(b[0] != 0 && b[0] < 0x80);
	vp_assume(b[pre] >= 0x80);
	for(size_t i = 0; i < k; ++i) vp_assume((b[pre + 1 + i] & 0xc0) == 0x80);
	bool z = vp_sym_bool("zero-terminated");
	std::u32string u;
	if(z){
		vp_buf<char> c(b.n + 1);
		memcpy(c.p, b.p, b.n);
		c[b.n] = 0;
		u = utki::to_utf32(static_cast<const char*>(c.p));
	} else u = utki::to_utf32(utki::span<const uint8_t>(b.p, b.n));
	check(b.p, b.n, u);
}
// well-formed characters followed by a sequence cut off by the end of the text: only those characters are delivered
VP_ENTRY(c05_cut_off){
	size_t pre = vp_choice(VP_BOUND(2, 3), "characters");
	size_t len = 2 + vp_choice(5, "length of the cut off sequence");
	size_t have = 1 + vp_choice(len - 1, "bytes of it");
	vp_buf<uint32_t> c(pre, "codes");
	uint8_t ref[32];
	size_t k = 0;
	for(size_t i = 0; i < pre; ++i){
		vp_assume(c[i] != 0 && c[i] < 0x80000000u);
		uint32_t v = c[i];
		size_t l = v < 0x80 ? 1 : v < 0x800 ? 2 : v < 0x10000 ? 3 : v < 0x200000 ? 4 : v < 0x4000000 ? 5 : 6;
		if(l == 1) ref[k] = uint8_t(v);
		else for(size_t j = 0; j < l; ++j) ref[k + j] = j ? uint8_t(0x80 | ((v >> (6 * (l - 1 - j))) & 0x3f)) : uint8_t((0xff00u >> l) | (v >> (6 * (l - 1))));
		k += l;
	}
	for(size_t j = 0; j < have; ++j){
		uint8_t x = vp_sym<uint8_t>("byte");
		ref[k++] = j ? uint8_t(0x80 | (x & 0x3f)) : uint8_t((0xff00u >> len) | (x & (0x7fu >> len)));
	}
	bool z = vp_sym_bool("zero-terminated");
	vp_buf<uint8_t> b(k + z);
	memcpy(b.p, ref, k);
	if(z) b[k] = 0;
	std::u32string u = z ? utki::to_utf32(reinterpret_cast<const char*>(b.p)) : utki::to_utf32(utki::span<const uint8_t>(b.p, k));
	vp_assert(u.size() == pre, "a cut off sequence ends the text without delivering a character");
	bool ok = true;
	for(size_t i = 0; i < pre && i < u.size(); ++i) ok &= u[i] == c[i];
	vp_assert(ok, "the characters before it are delivered");
	vp_observe("u", u.data(), u.size() * 4);
}
// a long text of ASCII, then arbitrary bytes, then maybe more of it
VP_ENTRY(c05_long){
	static const uint16_t sizes[] = {7, 8, 15, 16, 17, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 1000};
	size_t n = sizes[vp_choice(16, "ascii")];
	size_t m = vp_choice(VP_BOUND(3, 4), "arbitrary");
	size_t after = vp_choice(3, "after");
	vp_buf<uint8_t> b(n + m + after * 9);
	for(size_t i = 0; i < b.n; ++i) b[i] = uint8_t(1 + i % 127);
	vp_sym_bytes(b.p + n, m, "bytes");
	if(vp_choice(2, "zero-terminated")){
		vp_buf<char> z(b.n + 1);
		memcpy(z.p, b.p, b.n);
		z[b.n] = 0;
		check(b.p, b.n, utki::to_utf32(static_cast<const char*>(z.p)));
	} else check(b.p, b.n, utki::to_utf32(utki::span<const uint8_t>(b.p, b.n)));
}
// more bytes than fit 16 bits
VP_ENTRY(c05_huge){
	size_t n = 65534 + vp_choice(4, "ascii"), m = 1 + vp_choice(2, "arbitrary");
	vp_buf<uint8_t> b(n + m);
	memset(b.p, 'e', n);
	vp_sym_bytes(b.p + n, m, "bytes");
	utki::utf8_iterator it(utki::span<const uint8_t>(b.p, n + m));
	size_t k = 0;
	while(k < n && it.character() == U'e'){ ++k; ++it; }
	vp_assert(k == n, "the well-formed characters are delivered");
	size_t rest = 0;
	for(; !it.is_end() && rest < 5; ++it) ++rest;
	vp_assert(rest <= m, "no more characters than bytes");
	vp_observe_val("rest", rest);
}
