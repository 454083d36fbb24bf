// C27: versions
#include "vp.h"
#include <utki/version.hpp>
#include <sstream>
using utki::version_duplet;
namespace {
version_duplet any(const char* n){ version_duplet v; v.major = vp_sym<uint16_t>(n); v.minor = vp_sym<uint16_t>(n); return v; }
}
VP_ENTRY(c27_order){
	version_duplet a = any("a"), b = any("b");
	bool ge = a >= b, lt = a < b, le = b >= a, gt = b < a;
	bool want = (a.major > b.major) | ((a.major == b.major) & (a.minor >= b.minor));
	vp_assert(ge == want, "first by major, then by minor");
	vp_assert(lt == !want, "less is the opposite of greater-or-equal");
	bool back = (b.major > a.major) | ((b.major == a.major) & (b.minor >= a.minor));
	vp_assert(le == back && gt == !back, "the other way round");
	uint32_t x = a.to_uint32_t(), y = b.to_uint32_t();
	vp_assert((x >= y) == want, "combining preserves the order");
	vp_assert((x == y) == ((a.major == b.major) & (a.minor == b.minor)), "combining loses nothing");
	vp_observe_val("x", x);
	vp_observe_val("ge", ge);
	vp_reach("compared");
}
VP_ENTRY(c27_total){
	version_duplet a = any("a"), b = any("b"), c = any("c");
	vp_assert((a >= b) || (b >= a), "total");
	vp_assert(!((a >= b) & (b >= c)) || (a >= c), "transitive");
	vp_assert(!(a < a) && (a >= a), "reflexive");
	vp_assert(!((a >= b) && (b >= a)) || ((a.major == b.major) & (a.minor == b.minor)), "antisymmetric");
	vp_reach("ordered");
}
VP_ENTRY(c27_number){
	version_duplet a = any("a");
	uint32_t x = a.to_uint32_t();
	vp_assert((x >> 16) == a.major && (x & 0xffff) == a.minor, "nothing is lost");
	vp_observe_val("x", x);
}
VP_ENTRY(c27_print){
	version_duplet a = any("a");
	std::stringstream ss;
	std::ostream& o = ss;
	std::ostream& r = o << a;
	vp_assert(&r == &o, "the stream is returned");
	std::string s = ss.str();
	size_t n = vp_concretize(s.size());
	vp_assert(n >= 3 && n <= 11, "the length");
	// parse back: digits without leading zeros, one dot
	uint32_t v[2] = {0, 0};
	unsigned dots = 0, bad = 0, len[2] = {0, 0};
	for(size_t i = 0; i < n; ++i){
		if(vp_concretize(s[i] == '.')){ ++dots; vp_assert(dots == 1, "one dot"); continue; }
		bad |= unsigned(s[i] < '0') | unsigned(s[i] > '9');
		if(len[dots] == 0 && i + 1 < n && s[i + 1] != '.') bad |= unsigned(s[i] == '0');
		v[dots] = v[dots] * 10 + uint32_t(s[i] - '0');
		++len[dots];
	}
	vp_assert(dots == 1 && bad == 0 && len[0] > 0 && len[1] > 0, "major.minor in decimal");
	vp_assert(v[0] == a.major, "the major number");
	vp_assert(v[1] == a.minor, "the minor number");
	vp_observe("s", s.data(), s.size());
}
