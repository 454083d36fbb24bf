// C04: UTF-8 encoding and round trip
#include "vp.h"
#include <utki/unicode.hpp>
#include <sstream>
namespace {
// reference: number of bytes of the shortest encoding (0: not encodable)
unsigned ref_len(uint32_t c){ return c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : c < 0x200000 ? 4 : c < 0x4000000 ? 5 : c < 0x80000000u ? 6 : 0; }
uint8_t ref_byte(uint32_t c, unsigned len, unsigned i){
	if(len == 1) return uint8_t(c);
	unsigned shift = 6 * (len - 1 - i);
	uint32_t bits = c >> shift;
	if(i == 0) return uint8_t((0xff00u >> len) | bits);
	return uint8_t(0x80 | (bits & 0x3f));
}
unsigned ref_encode(uint32_t c, uint8_t* out){
	unsigned n = ref_len(c);
	for(unsigned i = 0; i < n; ++i) out[i] = ref_byte(c, n, i);
	return n;
}
}
VP_ENTRY(c04_encode){
	uint32_t c = vp_sym<uint32_t>("code");
	auto a = utki::to_utf8(char32_t(c));
	unsigned n = ref_len(c);
	bool ok = true;
	for(unsigned i = 0; i < n; ++i) ok &= uint8_t(a[i]) == ref_byte(c, n, i);
	vp_assert(ok, "bytes of the shortest encoding");
	vp_assert(a[n] == 0, "zero terminator after the sequence");
	vp_observe("a", a.data(), n + 1);
	vp_reach("encode");
}
// one symbolic code value per position; every length of each
VP_ENTRY(c04_string){
	size_t n = vp_choice(VP_BOUND(3, 4), "count");
	vp_buf<char32_t> t(n, "codes");
	uint8_t ref[32];
	size_t k = 0;
	for(size_t i = 0; i < n; ++i){ vp_assume(t[i] != 0); k += ref_encode(t[i], ref + k); }
	std::string s = utki::to_utf8(utki::span<const char32_t>(t.p, n));
	vp_assert(s.size() == k, "length is the sum of the sequence lengths");
	bool ok = true;
	for(size_t i = 0; i < k && i < s.size(); ++i) ok &= uint8_t(s[i]) == ref[i];
	vp_assert(ok, "concatenation of the sequences");
	vp_observe("s", s.data(), s.size());
	std::u32string u(t.p, t.p + n);
	std::string s2 = utki::to_utf8(u);
	vp_assert(s2 == s, "both overloads agree");
}
namespace {
template <class F> void roundtrip(size_t max, F dec){
	size_t n = vp_choice(max + 1, "count");
	vp_buf<char32_t> t(n, "codes");
	uint8_t ref[64];
	size_t k = 0;
	for(size_t i = 0; i < n; ++i){ vp_assume(t[i] != 0 && t[i] < 0x80000000u); k += ref_encode(t[i], ref + k); }
	vp_buf<uint8_t> e(k);
	memcpy(e.p, ref, k);
	std::u32string u = dec(e.p, k);
	vp_assert(u.size() == n, "number of characters");
	bool ok = true;
	for(size_t i = 0; i < n && i < u.size(); ++i) ok &= u[i] == t[i];
	vp_assert(ok, "decoding returns the original code values");
	vp_observe("u", u.data(), u.size() * 4);
}
constexpr size_t RT = VP_BOUND(2, 3);
std::u32string collect(utki::utf8_iterator i){ std::u32string r; for(; !i.is_end(); ++i) r.push_back(i.character()); return r; }
struct zt { // zero-terminated copy of exactly the needed size
	vp_buf<char> b;
	zt(const uint8_t* p, size_t n) : b(n + 1) { memcpy(b.p, p, n); b[n] = 0; }
};
}
VP_ENTRY(c04_rt_span){ roundtrip(RT, [](const uint8_t* p, size_t n){ return utki::to_utf32(utki::span<const uint8_t>(p, n)); }); }
VP_ENTRY(c04_rt_charspan){ roundtrip(RT, [](const uint8_t* p, size_t n){ return utki::to_utf32(utki::span<const char>(reinterpret_cast<const char*>(p), n)); }); }
VP_ENTRY(c04_rt_view){ roundtrip(RT, [](const uint8_t* p, size_t n){ return utki::to_utf32(std::string_view(reinterpret_cast<const char*>(p), n)); }); }
VP_ENTRY(c04_rt_string){ roundtrip(RT, [](const uint8_t* p, size_t n){ return utki::to_utf32(std::string(reinterpret_cast<const char*>(p), n)); }); }
VP_ENTRY(c04_rt_cstr){ roundtrip(RT, [](const uint8_t* p, size_t n){ zt z(p, n); return utki::to_utf32(z.b.p); }); }
VP_ENTRY(c04_rt_iter){ roundtrip(RT, [](const uint8_t* p, size_t n){ return collect(utki::utf8_iterator(utki::span<const uint8_t>(p, n))); }); }
VP_ENTRY(c04_rt_iter_view){ roundtrip(RT, [](const uint8_t* p, size_t n){ return collect(utki::utf8_iterator(std::string_view(reinterpret_cast<const char*>(p), n))); }); }
VP_ENTRY(c04_rt_iter_cstr){ roundtrip(RT, [](const uint8_t* p, size_t n){ zt z(p, n); return utki::to_utf32(utki::utf8_iterator(z.b.p)); }); }
// the library's own encoder composed with its decoder
VP_ENTRY(c04_self){
	size_t n = vp_choice(RT + 1, "count");
	vp_buf<char32_t> t(n, "codes");
	for(size_t i = 0; i < n; ++i) vp_assume(t[i] != 0 && t[i] < 0x80000000u);
	std::u32string u(t.p, t.p + n);
	std::u32string r = utki::to_utf32(utki::to_utf8(u));
	vp_assert(r == u, "to_utf32 inverts to_utf8");
	vp_observe("r", r.data(), r.size() * 4);
}
// long strings: every length of sequence, one code value arbitrary
VP_ENTRY(c04_long){
	static const uint16_t sizes[] = {9, 16, 17, 33, 65, 129, 257, 400};
	static const uint32_t kinds[] = {0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xffff, 0x10000, 0x10ffff, 0x1fffff, 0x200000, 0x3ffffff, 0x4000000, 0x7fffffff};
	size_t n = sizes[vp_choice(VP_BOUND(7, 8), "count")];
	unsigned mode = unsigned(vp_choice(4, "mode"));
	size_t at = vp_choice(4, "at") * (n - 1) / 3;
	vp_buf<char32_t> t(n);
	for(size_t i = 0; i < n; ++i) t[i] = mode == 0 ? kinds[i % 14] : mode == 1 ? U'a' + uint32_t(i % 26) : mode == 2 ? 0x400 + uint32_t(i) : 0x1f600;
	uint32_t v = vp_sym<uint32_t>("code");
	vp_assume(v != 0 && v < 0x80000000u);
	t[at] = v;
	vp_concretize(ref_len(v));
	std::vector<uint8_t> ref(n * 6 + 8);
	size_t k = 0;
	for(size_t i = 0; i < n; ++i) k += ref_encode(t[i], ref.data() + k);
	std::string s = utki::to_utf8(utki::span<const char32_t>(t.p, n));
	vp_assert(s.size() == k, "length is the sum of the sequence lengths");
	bool ok = true;
	for(size_t i = 0; i < k && i < s.size(); ++i) ok &= uint8_t(s[i]) == ref[i];
	vp_assert(ok, "concatenation of the sequences");
	std::u32string u;
	if(vp_choice(2, "decoder")) u = utki::to_utf32(s);
	else u = collect(utki::utf8_iterator(std::string_view(s)));
	vp_assert(u.size() == n, "number of characters");
	ok = true;
	for(size_t i = 0; i < n && i < u.size(); ++i) ok &= u[i] == t[i];
	vp_assert(ok, "decoding returns the original code values");
	vp_observe("s", s.data(), s.size());
}
// more characters than fit 16 bits
VP_ENTRY(c04_huge){
	size_t n = 65536 + vp_choice(2, "count");
	vp_buf<char32_t> t(n);
	for(size_t i = 0; i < n; ++i) t[i] = U'z';
	uint32_t v = vp_sym<uint32_t>("code");
	vp_assume(v >= 0x80 && v < 0x800);
	t[n - 2] = v;
	std::string s = utki::to_utf8(utki::span<const char32_t>(t.p, n));
	vp_assert(s.size() == n + 1, "length is the sum of the sequence lengths");
	vp_assert(s[0] == 'z' && s[n] == 'z' && memcmp(s.data(), s.data() + 1, n - 3) == 0, "concatenation of the sequences");
	vp_assert(uint8_t(s[n - 2]) == uint8_t(0xc0 | v >> 6) && uint8_t(s[n - 1]) == uint8_t(0x80 | (v & 0x3f)), "the last sequences");
	std::u32string u = utki::to_utf32(std::string_view(s));
	vp_assert(u.size() == n, "number of characters");
	vp_assert(u[n - 2] == v && u[n - 1] == U'z' && u[0] == U'z', "decoding returns the original code values");
	vp_observe("s", s.data() + n - 8, 9);
}
