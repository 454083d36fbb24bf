// C01: serialization of integers and floats
#include "vp.h"
#include <utki/utility.hpp>
#include <array>

namespace {
// reference layout: byte i (counted from the least significant) of v
template <class U> uint8_t byte_of(U v, unsigned i){ return uint8_t((v >> (8 * i)) & 0xff); }
// value denoted by n bytes in the given order, by place value arithmetic (base 256)
template <class U> U denoted(const uint8_t* p, unsigned n, bool be){
	U r = 0, weight = 1;
	for(unsigned i = 0; i < n; ++i){ r = U(r + U(U(p[be ? n - 1 - i : i]) * weight)); if(i + 1 < n) weight = U(weight * vp_opaque(256)); }
	return r;
}

// the output buffer has guard bytes on both sides inside one allocation and the allocation itself is exact
template <class U, class Ser, class De> void check_int(Ser ser, De de, bool be, const char* nm){
	constexpr unsigned n = sizeof(U);
	U v = vp_sym<U>("value");
	vp_buf<uint8_t> b(n + 4, "buffer");
	uint8_t old[n + 4];
	memcpy(old, b.p, n + 4);
	uint8_t* r = ser(v, b.p + 2);
	vp_assert(r == b.p + 2 + n, "serialize returns the address after the written bytes");
	bool ok = true;
	for(unsigned i = 0; i < n; ++i) ok &= b[2 + i] == byte_of(v, be ? n - 1 - i : i);
	vp_assert(ok, "serialized bytes have the stated order");
	vp_assert(denoted<U>(b.p + 2, n, be) == v, "serialized bytes denote the value");
	ok = (b[0] == old[0]) & (b[1] == old[1]) & (b[n + 2] == old[n + 2]) & (b[n + 3] == old[n + 3]);
	vp_assert(ok, "no byte outside the field is changed");
	U w = de(b.p + 2);
	vp_assert(w == v, "deserialize inverts serialize");
	// an exactly sized field
	vp_buf<uint8_t> e(n, "bytes");
	U x = de(e.p);
	ok = true;
	for(unsigned i = 0; i < n; ++i) ok &= e[i] == byte_of(x, be ? n - 1 - i : i);
	vp_assert(ok, "deserialize yields the value with that layout");
	vp_assert(denoted<U>(e.p, n, be) == x, "deserialized value is the denoted one");
	uint8_t o[n];
	uint8_t* r2 = ser(x, o);
	vp_assert(r2 == o + n, "return address");
	vp_assert(memcmp(o, e.p, n) == 0, "serialize inverts deserialize");
	vp_observe_val("x", x);
	vp_observe("b", b.p, n + 4);
	vp_reach(nm);
}
}
VP_ENTRY(c01_u16le){ check_int<uint16_t>([](uint16_t v, uint8_t* p){ return utki::serialize16le(v, p); }, [](const uint8_t* p){ return utki::deserialize16le(p); }, false, "16le"); }
VP_ENTRY(c01_u16be){ check_int<uint16_t>([](uint16_t v, uint8_t* p){ return utki::serialize16be(v, p); }, [](const uint8_t* p){ return utki::deserialize16be(p); }, true, "16be"); }
VP_ENTRY(c01_u32le){ check_int<uint32_t>([](uint32_t v, uint8_t* p){ return utki::serialize32le(v, p); }, [](const uint8_t* p){ return utki::deserialize32le(p); }, false, "32le"); }
VP_ENTRY(c01_u32be){ check_int<uint32_t>([](uint32_t v, uint8_t* p){ return utki::serialize32be(v, p); }, [](const uint8_t* p){ return utki::deserialize32be(p); }, true, "32be"); }
VP_ENTRY(c01_u64le){ check_int<uint64_t>([](uint64_t v, uint8_t* p){ return utki::serialize64le(v, p); }, [](const uint8_t* p){ return utki::deserialize64le(p); }, false, "64le"); }
VP_ENTRY(c01_u64be){ check_int<uint64_t>([](uint64_t v, uint8_t* p){ return utki::serialize64be(v, p); }, [](const uint8_t* p){ return utki::deserialize64be(p); }, true, "64be"); }
namespace {
template <class Ser, class De> void check_float(Ser ser, De de, bool be, const char* nm){
	uint32_t bits = vp_sym<uint32_t>("value");
	float v;
	memcpy(&v, &bits, 4);
	vp_buf<uint8_t> b(6, "buffer");
	uint8_t old[6];
	memcpy(old, b.p, 6);
	uint8_t* r = ser(v, b.p + 1);
	vp_assert(r == b.p + 5, "serialize returns the address after the written bytes");
	bool ok = true;
	for(unsigned i = 0; i < 4; ++i) ok &= b[1 + i] == byte_of(bits, be ? 3 - i : i);
	vp_assert(ok, "serialized bytes have the stated order");
	vp_assert(denoted<uint32_t>(b.p + 1, 4, be) == bits, "serialized bytes denote the bit pattern");
	vp_assert((b[0] == old[0]) & (b[5] == old[5]), "no byte outside the field is changed");
	vp_buf<uint8_t> e(4, "bytes");
	float x = de(e.p);
	uint32_t xb;
	memcpy(&xb, &x, 4);
	ok = true;
	for(unsigned i = 0; i < 4; ++i) ok &= e[i] == byte_of(xb, be ? 3 - i : i);
	vp_assert(ok, "deserialize yields the value with that layout");
	vp_assert(denoted<uint32_t>(e.p, 4, be) == xb, "deserialized bit pattern is the denoted one");
	vp_observe_val("xb", xb);
	vp_reach(nm);
}
}
VP_ENTRY(c01_float_le){ check_float([](float v, uint8_t* p){ return utki::serialize_float_le(v, p); }, [](const uint8_t* p){ return utki::deserialize_float_le(p); }, false, "fle"); }
VP_ENTRY(c01_float_be){ check_float([](float v, uint8_t* p){ return utki::serialize_float_be(v, p); }, [](const uint8_t* p){ return utki::deserialize_float_be(p); }, true, "fbe"); }
