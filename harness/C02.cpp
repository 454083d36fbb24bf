// C02: deserializer
#include "vp.h"
#include <utki/deserializer.hpp>
#include <stdexcept>
#include <string_view>

namespace {
enum op_kind { u8, u16le, u32le, u64le, fle, u16be, u32be, u64be, fbe, rspan, rstring, skip, num_ops };

uint64_t denoted(const uint8_t* p, unsigned n, bool be){
	uint64_t r = 0;
	for(unsigned i = 0; i < n; ++i) r |= uint64_t(p[be ? n - 1 - i : i]) << (8 * i);
	return r;
}
uint32_t bits(float f){ uint32_t r; memcpy(&r, &f, 4); return r; }

// performs one operation on d, whose remaining bytes are expected to be [p, p + left); returns the number of bytes consumed
size_t step(utki::deserializer& d, const uint8_t* p, size_t left, op_kind op, size_t len){
	static const size_t need_tab[] = {1, 2, 4, 8, 4, 2, 4, 8, 4};
	size_t need = op < rspan ? need_tab[op] : len;
	uint64_t val = 0;
	const uint8_t* rp = nullptr;
	size_t rn = 0;
	int o = vp_outcome<std::invalid_argument>([&](){
		switch(op){
		case u8: val = d.read_uint8(); break;
		case u16le: val = d.read_uint16_le(); break;
		case u32le: val = d.read_uint32_le(); break;
		case u64le: val = d.read_uint64_le(); break;
		case fle: val = bits(d.read_float_le()); break;
		case u16be: val = d.read_uint16_be(); break;
		case u32be: val = d.read_uint32_be(); break;
		case u64be: val = d.read_uint64_be(); break;
		case fbe: val = bits(d.read_float_be()); break;
		case rspan: { auto s = d.read_span(len); rp = s.data(); rn = s.size(); break; }
		case rstring: { auto s = d.read_string(len); rp = reinterpret_cast<const uint8_t*>(s.data()); rn = s.size(); break; }
		default: d.skip(len); break;
		}
	});
	vp_assert(o != 2, "only std::invalid_argument is thrown");
	if(need > left){
		vp_assert(o == 1, "reading more bytes than remain throws");
		vp_assert(d.size() == left, "a failed operation leaves the position unchanged");
		vp_reach("failed");
		return 0;
	}
	vp_assert(o == 0, "an operation that fits succeeds");
	if(op < rspan){
		bool be = op >= u16be;
		vp_assert(val == denoted(p, unsigned(need), be), "value read is the one encoded by the next bytes");
	} else if(op != skip){
		vp_assert(rn == len, "length of the returned view");
		vp_assert(rp == p, "the returned view aliases the buffer in place");
	}
	vp_assert(d.size() == left - need, "position advances by exactly the length");
	vp_assert(d.empty() == (left == need), "empty() tells whether nothing remains");
	vp_reach("read");
	return need;
}
void history(unsigned max_size, unsigned ops){
	size_t n = vp_choice(max_size + 1, "size");
	vp_buf<uint8_t> b(n, "bytes");
	utki::deserializer d(utki::span<const uint8_t>(b.p, n));
	vp_assert(d.size() == n && d.empty() == (n == 0), "initial size");
	size_t at = 0;
	for(unsigned k = 0; k < ops; ++k){
		op_kind op = op_kind(vp_choice(num_ops, "op"));
		size_t len = 0;
		if(op >= rspan) len = vp_choice(n - at + 2, "len"); // up to one more than remains
		at += step(d, b.p + at, n - at, op, len);
	}
	// what remains is exactly the rest of the buffer, in place
	auto rest = d.read_span(n - at);
	vp_assert(rest.data() == b.p + at && rest.size() == n - at, "remaining bytes are the rest of the buffer");
	bool ok = true;
	for(size_t i = 0; i < rest.size(); ++i) ok &= rest[i] == b[at + i];
	vp_assert(ok, "content");
	vp_observe_val("at", at);
}
}
VP_ENTRY(c02_history2){ history(VP_BOUND(10, 18), 2); }
VP_ENTRY(c02_history3){ history(VP_BOUND(4, 9), 3); }
// any 64-bit length at all
VP_ENTRY(c02_huge_len){
	size_t n = vp_choice(VP_BOUND(3, 9), "size");
	vp_buf<uint8_t> b(n, "bytes");
	utki::deserializer d(utki::span<const uint8_t>(b.p, n));
	size_t at = 0;
	if(n && vp_sym_bool("first")){ at = step(d, b.p, n, u8, 0); }
	op_kind op = op_kind(rspan + vp_choice(3, "op"));
	size_t len = vp_sym<size_t>("len");
	if(len <= n - at) len = vp_concretize(len);
	at += step(d, b.p + at, n - at, op, len);
	at += step(d, b.p + at, n - at, u8, 0); // later operations are not disturbed
	vp_observe_val("at", at);
}
// long buffers: a long step in any way, then anything
VP_ENTRY(c02_long){
	static const uint32_t sizes[] = {15, 16, 17, 33, 65, 127, 128, 129, 255, 256, 257, 300, 1025, 32768, 65535, 65536, 65537, 70000};
	size_t n = sizes[vp_choice(18, "size")];
	vp_buf<uint8_t> b(n);
	for(size_t i = 0; i < n; ++i) b[i] = uint8_t(i * 37 + (i >> 8));
	size_t len;
	switch(vp_choice(5, "len")){
	case 0: len = n / 2; break;
	case 1: len = n - 9; break;
	case 2: len = n - 1; break;
	case 3: len = n; break;
	default: len = n + 1; break;
	}
	size_t k = len < n ? (n - len < 9 ? n - len : 9) : 0; // what follows is arbitrary
	if(k) vp_sym_bytes(b.p + len, k, "bytes");
	utki::deserializer d(utki::span<const uint8_t>(b.p, n));
	size_t at = step(d, b.p, n, op_kind(rspan + vp_choice(3, "op")), len);
	op_kind op = op_kind(vp_choice(num_ops, "next"));
	size_t rest = n - at;
	size_t l = op >= rspan ? (vp_choice(2, "all") ? rest : rest / 2) : 0;
	at += step(d, b.p + at, rest, op, l);
	auto s = d.read_span(n - at);
	vp_assert(s.data() == b.p + at && s.size() == n - at, "remaining bytes are the rest of the buffer");
	vp_observe_val("at", at);
}
// many operations, one after another
VP_ENTRY(c02_many){
	size_t n = VP_BOUND(300, 2000);
	vp_buf<uint8_t> b(n);
	for(size_t i = 0; i < n; ++i) b[i] = uint8_t(i * 29 + 3);
	vp_sym_bytes(b.p + n - 8, 8, "bytes");
	unsigned first = unsigned(vp_choice(num_ops, "op")), stride = unsigned(vp_choice(3, "stride"));
	utki::deserializer d(utki::span<const uint8_t>(b.p, n));
	size_t at = 0, got = 1;
	for(unsigned k = 0; got != 0 && k < 2000; ++k){
		op_kind op = op_kind((first + k * stride) % num_ops);
		got = step(d, b.p + at, n - at, op, op >= rspan ? 1 + k % 5 : 0);
		at += got;
	}
	vp_observe_val("at", at);
}
