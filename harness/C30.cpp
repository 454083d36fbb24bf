// C30: ticks
#include "vp.h"
#include <utki/time.hpp>
static int64_t now_ns = 0;
static unsigned readings = 0;
#ifdef VP_NATIVE
#	include <chrono>
#	include <ctime>
// the clock of the process is replaced by the recorded readings
extern "C" int clock_gettime(clockid_t, struct timespec* t) noexcept {
	++readings;
	int64_t s = now_ns / 1000000000, n = now_ns % 1000000000;
	if(n < 0){ n += 1000000000; --s; }
	t->tv_sec = s; t->tv_nsec = n;
	return 0;
}
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { ++readings; return time_point(duration(now_ns)); }
steady_clock::time_point steady_clock::now() noexcept { ++readings; return time_point(duration(now_ns)); }
} } }
#else
extern "C" int64_t vp_clock_now_ns(){ ++readings; return now_ns; }
#endif
namespace {
// q = t / 10^6 for non-negative t, without dividing
void set(int64_t ms, uint32_t rest){ now_ns = int64_t(uint64_t(ms) * 1000000u + rest); }
}
VP_ENTRY(c30_reading){
	// any non-negative reading, as milliseconds and the rest
	uint64_t ms = vp_sym<uint64_t>("ms");
	uint32_t rest = vp_sym<uint32_t>("rest");
	vp_assume((ms <= 9223372036853u) & (rest < 1000000));
	set(int64_t(ms), rest);
	uint32_t t = utki::get_ticks_ms();
	vp_assert(readings >= 1, "the clock is read");
	vp_assert(t == uint32_t(ms), "whole milliseconds modulo 2^32");
	vp_observe_val("t", t);
}
VP_ENTRY(c30_difference){
	uint64_t a = vp_sym<uint64_t>("a"), d = vp_sym<uint64_t>("d");
	uint32_t r1 = vp_sym<uint32_t>("r1"), r2 = vp_sym<uint32_t>("r2");
	vp_assume((a <= 4611686018426u) & (d <= 4611686018426u) & (r1 < 1000000) & (r2 < 1000000));
	set(int64_t(a), r1);
	uint32_t t1 = utki::get_ticks_ms();
	set(int64_t(a + d), r2);
	uint32_t t2 = utki::get_ticks_ms();
	vp_assert(uint32_t(t2 - t1) == uint32_t(d), "the difference is the elapsed time across wrap-around");
	vp_observe_val("t1", t1);
	vp_observe_val("t2", t2);
}
