// Native implementation of the harness interface: replays recorded values against the real build.
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <mutex>
#include <new>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <atomic>
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>
struct Rec { std::string name; bool choice; std::vector<uint64_t> vals; };
static std::vector<Rec>* recs; static size_t pos;
static std::map<std::string, void (*)()>* entries;
vp_entry_reg::vp_entry_reg(const char* n, void (*f)()){ if(!entries) entries = new std::map<std::string, void (*)()>; (*entries)[n] = f; }
static std::atomic<long> live{0};
static bool counting;
static bool armed; static uint64_t acount, afail;
static void* cnew(size_t n){
	if(armed && ++acount == afail) throw std::bad_alloc();
	if(counting && n > (size_t(4) << 20)) throw std::bad_alloc();
	void* p = malloc(n ? n : 1);
	if(!p) throw std::bad_alloc();
	++live;
	return p;
}
void* operator new(size_t n){ return cnew(n); }
void* operator new[](size_t n){ return cnew(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return cnew(n); } catch(...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return cnew(n); } catch(...) { return nullptr; } }
void operator delete(void* p, const std::nothrow_t&) noexcept { if(p){ --live; free(p); } }
void operator delete[](void* p, const std::nothrow_t&) noexcept { if(p){ --live; free(p); } }
void operator delete(void* p) noexcept { if(p){ --live; free(p); } }
void operator delete(void* p, size_t) noexcept { if(p){ --live; free(p); } }
void operator delete[](void* p) noexcept { if(p){ --live; free(p); } }
void operator delete[](void* p, size_t) noexcept { if(p){ --live; free(p); } }
extern "C" {
[[noreturn]] static void leave(int code){ fflush(nullptr); _exit(code); }
static Rec& next(const char* raw){
	std::string clean(raw);
	for(char& c : clean) if(c == ' ') c = '_';
	const char* name = clean.c_str();
	if(pos >= recs->size() || (*recs)[pos].name != clean){
		printf("VP_MISMATCH want %s have %s\n", name, pos < recs->size() ? (*recs)[pos].name.c_str() : "(none)");
		leave(44);
	}
	return (*recs)[pos++];
}
void vp_sym_bytes(void* p, size_t n, const char* name){
	Rec& r = next(name);
	if(r.vals.size() != n){ printf("VP_MISMATCH size %s\n", name); leave(44); }
	for(size_t i = 0; i < n; ++i) static_cast<uint8_t*>(p)[i] = uint8_t(r.vals[i]);
}
uint64_t vp_choice(uint64_t n, const char* name){ Rec& r = next(name); uint64_t v = r.vals.at(0); if(v >= n){ printf("VP_MISMATCH choice\n"); leave(44); } return v; }
void vp_assume(bool c){ if(!c){ printf("VP_ASSUME_FALSE\n"); leave(43); } }
void vp_assert(bool c, const char* msg){ if(!c){ printf("VP_ASSERT_FAILED: %s\n", msg); leave(42); } }
uint64_t vp_concretize(uint64_t v){ return v; }
void vp_reach(const char*){}
void vp_observe(const char* name, const void* p, size_t n){
	printf("OBS %s ", name);
	for(size_t i = 0; i < n; ++i) printf("%02x", static_cast<const uint8_t*>(p)[i]);
	printf("\n");
}
size_t vp_heap_count(){ return size_t(long(live)); }
bool vp_symbolic(){ return false; }
static std::string* captured;
bool vp_abortable(void (*fn)(void*), void* arg){
	if(!captured) captured = new std::string;
	captured->clear();
	long keep = live;
	int fd[2];
	fflush(nullptr);
	if(pipe(fd)) leave(45);
	pid_t pid = fork();
	if(pid == 0){
		close(fd[0]);
		dup2(fd[1], 2);
		signal(SIGABRT, SIG_DFL);
		fn(arg);
		fflush(nullptr);
		_exit(77);
	}
	close(fd[1]);
	char b[4096]; ssize_t k;
	while((k = read(fd[0], b, sizeof b)) > 0) captured->append(b, size_t(k));
	close(fd[0]);
	int st = 0;
	waitpid(pid, &st, 0);
	live = keep;
	if(WIFEXITED(st) && WEXITSTATUS(st) == 77){
		fn(arg); // it returns: its effects belong to this process
		return false;
	}
	if(WIFEXITED(st) && WEXITSTATUS(st) == 42){ leave(42); }
	if(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) return true;
	// sanitizer reports and crashes in the child are real errors
	fwrite(captured->data(), 1, captured->size(), stdout);
	printf("VP_CHILD_CRASHED %d\n", st);
	leave(46);
}
// terminals are pretended: this isatty() stands before the C library's
static bool terminals[3];
void vp_set_terminal(int fd, bool on){ terminals[fd] = on; }
int isatty(int fd) noexcept { return fd >= 0 && fd < 3 ? terminals[fd] : 0; }
size_t vp_captured_size(){ return captured->size(); }
void vp_captured_read(void* p, size_t n){ memcpy(p, captured->data(), n < captured->size() ? n : captured->size()); }
void vp_arm_alloc_failure(uint64_t nth){ armed = true; acount = 0; afail = nth; }
void vp_disarm_alloc_failure(){ armed = false; }
void vp_shared(void*){}
static std::vector<std::thread>* threads;
void vp_spawn(void (*fn)(void*), void* arg){ if(!threads) threads = new std::vector<std::thread>; threads->emplace_back(fn, arg); }
void vp_join(){ if(threads){ for(auto& t : *threads) t.join(); threads->clear(); } }
int vp_stub_override() __attribute__((weak));
}
int main(int argc, char** argv){
	// usage: prog entry file [file...]; each file is one recorded assignment
	static char outbuf[1 << 16];
	setvbuf(stdout, outbuf, _IOFBF, sizeof outbuf);
	if(argc < 3) return 2;
	if(!entries || !entries->count(argv[1])){ printf("no entry\n"); return 2; }
	recs = new std::vector<Rec>;
	auto load = [](const char* fn){
		recs->clear(); pos = 0;
		std::ifstream f(fn);
		std::string line;
		while(std::getline(f, line)){
			std::istringstream is(line);
			Rec r; int c; size_t n;
			std::string nm;
			is >> nm >> c >> n;
			r.name = nm; r.choice = c;
			for(size_t i = 0; i < n; ++i){ uint64_t v; is >> v; r.vals.push_back(v); }
			recs->push_back(r);
		}
	};
	if(argc == 3){
		load(argv[2]);
		counting = true;
		live = 0;
		(*entries)[argv[1]]();
		printf("VP_DONE\n");
		leave(0);
	}
	int bad = 0;
	for(int i = 2; i < argc; ++i){
		fflush(nullptr);
		pid_t pid = fork();
		if(pid == 0){
			printf("TRACE %s\n", argv[i]);
			alarm(20);
			load(argv[i]);
			counting = true; live = 0;
			(*entries)[argv[1]]();
			printf("VP_DONE\n");
			leave(0);
		}
		int st; waitpid(pid, &st, 0);
		printf("EXIT %s %d\n", argv[i], WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st));
		if(st) ++bad;
	}
	return 0;
}
