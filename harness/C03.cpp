// C03: base64
#include "vp.h"
#include <utki/base64.hpp>
#include <stdexcept>
#include <string_view>
namespace {
// standard encoding of one 6-bit group, arithmetic definition
char enc6(uint32_t v){
	// branch-free, so that a symbolic group does not multiply paths
	return char('A' + v + ((0u - (v >= 26)) & 6u) - ((0u - (v >= 52)) & 75u) - ((0u - (v >= 62)) & 15u) + ((0u - (v >= 63)) & 3u));
}
size_t encode(const uint8_t* p, size_t n, char* out, bool pad){
	size_t k = 0;
	for(size_t i = 0; i < n; i += 3){
		size_t m = n - i < 3 ? n - i : 3;
		uint32_t w = uint32_t(p[i]) << 16 | (m > 1 ? uint32_t(p[i + 1]) << 8 : 0) | (m > 2 ? p[i + 2] : 0);
		out[k++] = enc6(w >> 18);
		out[k++] = enc6((w >> 12) & 63);
		if(m > 1) out[k++] = enc6((w >> 6) & 63); else if(pad) out[k++] = '=';
		if(m > 2) out[k++] = enc6(w & 63); else if(pad) out[k++] = '=';
	}
	return k;
}
}
VP_ENTRY(c03_roundtrip){
	size_t n = vp_choice(VP_BOUND(9, 25), "size");
	bool pad = vp_sym_bool("pad");
	vp_buf<uint8_t> b(n, "bytes");
	char tmp[64];
	size_t k = encode(b.p, n, tmp, pad);
	vp_buf<char> e(k); // exact size: reading past the text is detected
	memcpy(e.p, tmp, k);
	std::vector<uint8_t> r = utki::base64_decode(std::string_view(e.p, k));
	vp_assert(r.size() == n, "decoded length");
	bool ok = true;
	for(size_t i = 0; i < n && i < r.size(); ++i) ok &= r[i] == b[i];
	vp_assert(ok, "decoding inverts encoding");
	vp_observe("r", r.data(), r.size());
	vp_reach("roundtrip");
}
// any characters at all
VP_ENTRY(c03_arbitrary){
	size_t n = vp_choice(VP_BOUND(10, 20), "size");
	vp_buf<char> b(n, "text");
	std::vector<uint8_t> r;
	int o = vp_outcome<std::invalid_argument>([&](){ r = utki::base64_decode(std::string_view(b.p, n)); });
	vp_assert(o != 2, "only std::invalid_argument is thrown");
	vp_reach(o ? "rejected" : "decoded");
	vp_observe_val("o", o);
	if(o == 0) vp_assert(r.size() <= n, "a decoded result is not longer than the text");
}
// a text that is the standard encoding of something, any alphabet character in any position
VP_ENTRY(c03_alphabet){
	size_t quads = 1 + vp_choice(VP_BOUND(2, 4), "quads");
	size_t tail = vp_choice(3, "tail"); // 0, or a tail of 2 or 3 characters
	size_t n = quads * 4 + (tail ? tail + 1 : 0);
	vp_buf<uint8_t> v(n, "sextets");
	vp_buf<char> e(n);
	for(size_t i = 0; i < n; ++i){ vp_assume(v[i] < 64); e[i] = enc6(v[i]); }
	std::vector<uint8_t> r = utki::base64_decode(std::string_view(e.p, n));
	size_t bytes = quads * 3 + tail;
	vp_assert(r.size() == bytes, "decoded length");
	bool ok = true;
	for(size_t i = 0; i < bytes && i < r.size(); ++i){
		size_t bit = i * 8, s = bit / 6, o = bit % 6;
		uint32_t w = uint32_t(v[s]) << 6 | v[s + 1];
		ok &= r[i] == uint8_t(w >> (12 - 8 - o));
	}
	vp_assert(ok, "decoded bytes are the concatenated 6-bit groups");
	vp_observe("r", r.data(), r.size());
}
// long texts
VP_ENTRY(c03_long){
	static const uint16_t sizes[] = {16, 17, 18, 47, 48, 49, 57, 58, 95, 96, 97, 191, 192, 193, 255, 256, 257, 767, 768, 769, 3000};
	size_t n = sizes[vp_choice(VP_BOUND(18, 21), "size")];
	bool pad = vp_sym_bool("pad");
	vp_buf<uint8_t> b(n);
	for(size_t i = 0; i < n; ++i) b[i] = uint8_t(i * 73 + (i >> 4));
	size_t at;
	switch(vp_choice(4, "at")){ case 0: at = 0; break; case 1: at = n / 2; break; case 2: at = n - 3; break; default: at = n - 4; break; }
	vp_sym_bytes(b.p + at, 3, "bytes");
	std::vector<char> tmp(n * 2);
	size_t k = encode(b.p, n, tmp.data(), pad);
	vp_buf<char> e(k);
	memcpy(e.p, tmp.data(), k);
	std::vector<uint8_t> r = utki::base64_decode(std::string_view(e.p, k));
	vp_assert(r.size() == n, "decoded length");
	bool ok = true;
	for(size_t i = 0; i < n && i < r.size(); ++i) ok &= r[i] == b[i];
	vp_assert(ok, "decoding inverts encoding");
	vp_observe("r", r.data(), r.size());
}
// a long text with arbitrary characters in it
VP_ENTRY(c03_long_arbitrary){
	static const uint16_t sizes[] = {16, 17, 18, 19, 63, 64, 65, 66, 76, 255, 256, 257, 258, 1026};
	size_t n = sizes[vp_choice(14, "size")];
	vp_buf<char> b(n);
	for(size_t i = 0; i < n; ++i) b[i] = enc6(uint32_t(vp_opaque(i * 11)) & 63);
	size_t at = vp_choice(3, "at") * (n - 3) / 2;
	size_t m = 1 + vp_choice(2, "arbitrary");
	vp_sym_bytes(b.p + at, m, "text");
	std::vector<uint8_t> r;
	int o = vp_outcome<std::invalid_argument>([&](){ r = utki::base64_decode(std::string_view(b.p, n)); });
	vp_assert(o != 2, "only std::invalid_argument is thrown");
	if(o == 0) vp_assert(r.size() <= n, "a decoded result is not longer than the text");
	vp_reach(o ? "rejected" : "decoded");
	vp_observe_val("o", o);
}
// a text of more groups than fit 16 bits
VP_ENTRY(c03_huge){
	size_t quads = 65535 + vp_choice(VP_BOUND(2, 3), "size"), n = quads * 4;
	vp_buf<char> e(n);
	memset(e.p, 'Q', n);
	uint8_t b[3];
	vp_sym_bytes(b, 3, "last");
	encode(b, 3, e.p + n - 4, true);
	std::vector<uint8_t> r = utki::base64_decode(std::string_view(e.p, n));
	vp_assert(r.size() == quads * 3, "decoded length");
	bool ok = r[0] == 0x41 && r[1] == 0x04 && r[2] == 0x10;
	ok &= memcmp(r.data(), r.data() + 3, r.size() - 6) == 0;
	for(size_t i = 0; i < 3; ++i) ok &= r[r.size() - 3 + i] == b[i];
	vp_assert(ok, "decoding inverts encoding");
	vp_observe("r", r.data() + r.size() - 6, 6);
}
