// Harness interface. Under the symbolic engine the vp_* functions are engine primitives;
// natively (replay) vp/native_rt.cpp implements them with recorded values.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
extern "C" {
void vp_sym_bytes(void* p, size_t n, const char* name);
uint64_t vp_choice(uint64_t n, const char* name); // forks: 0..n-1
void vp_assume(bool c);
void vp_assert(bool c, const char* msg);
uint64_t vp_concretize(uint64_t v);
void vp_reach(const char* name);
void vp_observe(const char* name, const void* p, size_t n);
size_t vp_heap_count(); // live allocations made by the code under test
bool vp_symbolic();
bool vp_abortable(void (*fn)(void*), void* arg); // true: fn aborted/terminated the process
size_t vp_captured_size(); // what the last vp_abortable run wrote to standard error
void vp_captured_read(void* p, size_t n);
void vp_arm_alloc_failure(uint64_t nth);
void vp_disarm_alloc_failure();
void vp_shared(void* p);
void vp_spawn(void (*fn)(void*), void* arg);
void vp_join();
}
#ifdef VP_NATIVE
struct vp_entry_reg { vp_entry_reg(const char* name, void (*fn)()); };
#define VP_ENTRY(name) extern "C" void name(); static vp_entry_reg vp_reg_##name(#name, name); extern "C" void name()
#else
#define VP_ENTRY(name) extern "C" __attribute__((used)) void name()
#endif

template <class T> inline T vp_sym(const char* name){ T t; vp_sym_bytes(&t, sizeof(T), name); return t; }
inline bool vp_sym_bool(const char* name){ return vp_choice(2, name) != 0; }
template <class T> inline void vp_observe_val(const char* name, const T& t){ vp_observe(name, &t, sizeof(T)); }
// a constant the compiler cannot fold, so that oracles stay independent of compile-time simplification
inline uint64_t vp_opaque(uint64_t v){ volatile uint64_t x = v; return x; }
#ifndef VP_TIER
#	define VP_TIER 0
#endif
#define VP_BOUND(quick, thorough) (VP_TIER ? (thorough) : (quick))
#define VP_CHECK(c) vp_assert((c), #c)

// exact-size heap buffer, so that any access outside of it is detected by the engine (and by ASan natively)
template <class T> struct vp_buf {
	T* p; size_t n;
	explicit vp_buf(size_t n) : p(static_cast<T*>(::operator new(n * sizeof(T)))), n(n) {}
	vp_buf(size_t n, const char* name) : vp_buf(n) { vp_sym_bytes(p, n * sizeof(T), name); }
	vp_buf(const vp_buf&) = delete;
	~vp_buf(){ ::operator delete(p); }
	T& operator[](size_t i){ return p[i]; }
	const T& operator[](size_t i) const { return p[i]; }
	T* begin(){ return p; } T* end(){ return p + n; }
};

// 0: returned normally, 1: threw Ex (or derived), 2: threw something else
template <class Ex, class F> inline int vp_outcome(F&& f){
	try { f(); return 0; } catch(const Ex&){ return 1; } catch(...){ return 2; }
}

// a long text: runs of one character each, an arbitrary character after every run
struct vp_runs {
	size_t n = 0;
	vp_buf<char>* b = nullptr;
	vp_runs(const char* classes, size_t num_classes, const uint16_t* lengths, size_t num_lengths, size_t runs){
		size_t len[4]; char cls[4]; char sym[4];
		for(size_t i = 0; i < runs; ++i){
			len[i] = lengths[vp_choice(num_lengths, "run length")];
			cls[i] = len[i] ? classes[vp_choice(num_classes, "run character")] : classes[0];
			n += len[i] + 1;
		}
		b = new vp_buf<char>(n);
		size_t at = 0;
		for(size_t i = 0; i < runs; ++i){
			memset(b->p + at, cls[i], len[i]);
			at += len[i];
			sym[i] = vp_sym<char>("character");
			b->p[at++] = sym[i];
		}
	}
	vp_runs(const vp_runs&) = delete;
	~vp_runs(){ delete b; }
	char* p(){ return b->p; }
};
