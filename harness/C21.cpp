// C21: spin lock
#include "vp.h"
#include <utki/spin_lock.hpp>
#include <mutex>
namespace {
struct data { uint32_t counter = 0; uint32_t inside = 0; uint32_t last = 0; };
struct ctx { utki::spin_lock* l; data* d; uint32_t add; unsigned times; };
void worker(void* p){
	auto& c = *static_cast<ctx*>(p);
	for(unsigned k = 0; k < c.times; ++k){
		c.l->lock();
		vp_assert(c.d->inside == 0, "at most one thread is between lock and unlock");
		c.d->inside = 1;
		uint32_t v = c.d->counter;
		c.d->counter = v + c.add;
		c.d->last = c.add;
		c.d->inside = 0;
		c.l->unlock();
	}
}
void count(unsigned threads, unsigned times){
	auto* l = new utki::spin_lock();
	auto* d = new data();
	vp_shared(d);
	ctx c[4];
	uint32_t sum = 0;
	for(unsigned i = 0; i < threads; ++i){
		c[i] = {l, d, vp_sym<uint32_t>("add"), vp_symbolic() ? times : times * 20000};
		sum += c[i].add * c[i].times;
	}
	for(unsigned i = 0; i < threads; ++i) vp_spawn(worker, &c[i]);
	vp_join();
	vp_assert(d->counter == sum, "no update is lost");
	vp_assert(d->inside == 0, "all left");
	l->lock(); // free again
	l->unlock();
	delete d;
	delete l;
	vp_reach("joined");
}
// what was written before an unlock is seen after the next lock
struct mail { uint32_t payload = 0; bool full = false; };
struct parcel { uint32_t payload = 0; };
struct mctx { utki::spin_lock* l; mail* m; parcel* p; uint32_t v; uint32_t got; bool seen; };
void sender(void* p){ auto& c = *static_cast<mctx*>(p); c.p->payload = c.v; c.l->lock(); c.m->payload = ~c.v; c.m->full = true; c.l->unlock(); }
void receiver(void* p){
	auto& c = *static_cast<mctx*>(p);
	for(;;){
		c.l->lock();
		c.seen = c.m->full;
		if(c.seen) c.got = c.m->payload;
		c.l->unlock();
		if(c.seen || vp_symbolic()) break;
	}
	if(c.seen) vp_assert((c.p->payload == c.v) & (c.got == ~c.v), "everything written before the unlock is visible");
}
void message(){
	uint32_t v = vp_sym<uint32_t>("v");
	// natively the message is passed many times, so that the threads meet
	for(unsigned round = 0; round < (vp_symbolic() ? 1 : 300); ++round){
		auto* l = new utki::spin_lock();
		auto* m = new mail();
		auto* p = new parcel();
		vp_shared(m);
		vp_shared(p);
		mctx c{l, m, p, v, 0, false}, r = c;
		vp_spawn(receiver, &r);
		vp_spawn(sender, &c);
		vp_join();
		vp_assert(m->full, "the message was sent");
		delete p;
		delete m;
		delete l;
	}
	vp_reach("joined");
}
// a waiting thread proceeds: two locks taken in turn, with the standard guards
struct two { utki::spin_lock a, b; };
struct tctx { two* t; data* x; data* y; uint32_t add; };
void both(void* p){
	auto& c = *static_cast<tctx*>(p);
	{
		for(unsigned k = 0; k < (vp_symbolic() ? 1 : 20000); ++k){
			std::lock_guard<utki::spin_lock> g(c.t->a);
			c.x->counter += c.add;
			std::lock_guard<utki::spin_lock> h(c.t->b);
			c.y->counter += c.add;
		}
	}
}
void nested(){
	auto* t = new two();
	auto *x = new data(), *y = new data();
	vp_shared(x);
	vp_shared(y);
	tctx c[2] = {{t, x, y, vp_sym<uint32_t>("add")}, {t, x, y, vp_sym<uint32_t>("add")}};
	for(auto& e : c) vp_spawn(both, &e);
	vp_join();
	uint32_t s = (c[0].add + c[1].add) * (vp_symbolic() ? 1 : 20000);
	vp_assert(x->counter == s && y->counter == s, "no update is lost");
	delete x;
	delete y;
	delete t;
	vp_reach("joined");
}
// one thread: a free lock is acquired, again and again; each lock is its own
void alone(){
	utki::spin_lock l, m;
	uint32_t v = vp_sym<uint32_t>("v"), x = 0;
	for(unsigned i = 0; i < 3; ++i){ l.lock(); m.lock(); x += v; m.unlock(); l.unlock(); }
	l.lock(); l.unlock(); m.lock(); m.unlock();
	vp_assert(x == 3 * v, "proceeds");
	vp_observe_val("x", x);
}
}
VP_ENTRY(c21_two_threads){ count(2, VP_BOUND(2, 3)); }
VP_ENTRY(c21_three_threads){ count(3, VP_BOUND(1, 2)); }
VP_ENTRY(c21_message){ message(); }
VP_ENTRY(c21_nested){ nested(); }
VP_ENTRY(c21_alone){ alone(); }
