#pragma once
#include <map>
#include "exec.h"
#include <chrono>

struct PathEnd { std::string reason; };
struct MergeFail {};
struct Forked {}; // thrown when the state was re-queued
struct Engine {
	llvm::Module* M = nullptr;
	const llvm::DataLayout* DL = nullptr;
	Solver solver;
	// options
	double timeLimit = 120, afterViolation = 15;
	uint64_t maxSteps = 3000000;
	uint64_t maxPaths = 10000000;
	uint32_t maxSwitches = 1000;
	unsigned maxViolations = 12;
	bool trace = false;
	bool merge = false; // join short diamonds into conditional values instead of forking
	bool spec = false; // running one side of a diamond
	uint64_t merges = 0;
	bool tryMerge(Ins& in, E cond);
	bool simpleBlock(CFunc* f, uint32_t bb);
	unsigned samplesWanted = 64;
	// program
	std::unordered_map<llvm::Type*, uint32_t> leafCnt;
	std::unordered_map<const llvm::Function*, std::unique_ptr<CFunc>> cfuncs;
	std::unordered_map<const llvm::Function*, const llvm::Function*> overrides;
	std::unordered_map<const llvm::Function*, uint64_t> fAddr;
	std::unordered_map<const llvm::GlobalVariable*, uint64_t> gAddr;
	std::vector<ObjP> initMem;
	std::unordered_map<std::string, uint64_t> extGlobals;
	// exploration
	std::vector<std::unique_ptr<State>> work;
	State* S = nullptr; // current
	uint64_t pathsDone = 0, forks = 0, steps = 0, pruned = 0, asserts = 0, assertsSym = 0, schedPoints = 0;
	std::map<std::string, uint64_t> forkSites;
	std::map<std::string, uint64_t> truncated;
	std::map<std::string, uint64_t> reached;
	std::vector<Violation> violations;
	std::set<std::string> violationKeys;
	std::vector<Violation> samples; // completed paths, for native validation
	std::chrono::steady_clock::time_point t0;
	double deadline = 0;
	bool timedOut = false;

	void flatten(llvm::Type* t, std::vector<Leaf>& out, uint32_t off);
	uint32_t leafCount(llvm::Type* t);
	void constVals(const llvm::Constant* c, std::vector<Val>& out);
	uint64_t constAddr(const llvm::Constant* c);
	uint64_t funcAddr(const llvm::Function* f);
	uint64_t globalAddr(const llvm::GlobalVariable* g);
	CFunc* compiled(const llvm::Function* F);

	void load(llvm::Module& m);
	void initGlobals();
	void run(const std::string& entry);
	double elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

	// state helpers
	Frame& fr(){ return S->th[S->cur].st.back(); }
	Thread& thr(){ return S->th[S->cur]; }
	Val get(const Opnd& o){ return o.slot < 0 ? o.c : fr().regs[o.slot]; }
	void set(int32_t slot, Val v){ fr().regs[slot] = v; }
	static E toE(const Val& v, unsigned w){ return v.e ? v.e : mkConst(v.v, w); }
	static Val fromE(E e){ if(e->isConst() && e->width <= 64) return cv(e->c64()); return Val{0, e}; }
	bool decide(E cond);
	int implied(E c); // current side after forking
	bool decideV(const Val& v){ return v.e ? decide(v.e) : v.v & 1; }
	uint64_t concretize(const Val& v, unsigned w);
	void addConstraint(E c);
	bool mayBe(E cond, ModelP& m, bool& unknown);
	E freshVar(unsigned w);

	uint32_t newObj(uint64_t size, OKind k, const std::string& name, bool init = false);
	Obj* wr(uint32_t id);
	Obj* find(uint64_t addr);
	void freeObj(uint32_t id){ Obj* o = wr(id); o->freed = true; o->b.clear(); o->b.shrink_to_fit(); o->sym.clear(); o->sym.shrink_to_fit(); o->un.clear(); }
	[[noreturn]] void error(const std::string& kind, const std::string& msg);
	void record(const std::string& kind, const std::string& msg, const ModelP& m);
	std::string where();
	// returns the object and offset expression/concrete; forks when ambiguous
	struct Ref { Obj* o; uint64_t off; E sym; };
	Ref resolve(const Val& addr, uint64_t n, bool write);
	Val readByte(Obj* o, uint64_t off);
	Val loadVal(const Val& addr, unsigned w);
	Val loadAt(Obj* o, uint64_t off, unsigned w);
	void storeVal(const Val& addr, const Val& v, unsigned w);
	void storeAt(Obj* o, uint64_t off, const Val& v, unsigned w);
	Val addOff(const Val& a, uint64_t k){ return a.e ? fromE(mkBin(K::Add, a.e, mkConst(k, 64))) : cv(a.v + k); }
	uint64_t rd64(uint64_t a){ Val v = loadVal(cv(a), 64); if(v.e) throw PathEnd{"symbolic pointer in runtime structure"}; return v.v; }
	std::string cstr(const Val& a);
	void memCopy(const Val& d, const Val& s, uint64_t n, bool move);

	void step();
	void exec(Ins& in);
	void jump(uint32_t edge);
	void pushCall(const llvm::Function* f, const std::vector<std::vector<Val>>& args, OnRet r = OnRet::None, uint64_t ra = 0);
	void doCall(Ins& in);
	void finishCall(const Val* r, uint32_t n); // complete the call instruction of the current frame
	void doRet(const std::vector<Val>& r);
	void popFrame();
	bool external(Ins& in, const llvm::Function* f, std::vector<std::vector<Val>>& args);
	bool intrinsic(Ins& in, std::vector<std::vector<Val>>& args);
	Val bin(K k, const Val& a, const Val& b, unsigned w);
	Val icmp(unsigned p, const Val& a, const Val& b, unsigned w);
	// exceptions
	bool canCatch(uint64_t tiCatch, uint64_t tiThrown, uint64_t obj, uint64_t& adj);
	bool upcast(uint64_t ti, uint64_t target, uint64_t obj, uint64_t& adj, bool& pub, bool first = true);
	int tiKind(uint64_t ti);
	bool sameType(uint64_t a, uint64_t b);
	uint64_t dynCast(uint64_t p, uint64_t src, uint64_t dst);
	void findSub(uint64_t ti, uint64_t dst, uint64_t p, bool pub, std::vector<std::pair<uint64_t, bool>>& out, uint64_t want, std::vector<std::pair<uint64_t, bool>>& wantOut);
	void unwind(uint32_t exc);
	int matchLP(const llvm::LandingPadInst* lp, uint32_t exc, bool& cleanup, uint64_t& adj);
	void throwObj(uint64_t obj, uint64_t ti, uint64_t dtor);
	void terminate(const std::string& why);
	void releaseExc(uint32_t idx);
	int findExc(uint64_t handle);
	uint32_t tid(uint64_t ti){ return ti == 0 ? 1 : (uint32_t)(ti >> 24) + 16; }
	// threads
	bool visible(const Ins& in, uint64_t addr, bool write); // returns false when the scheduler switched
	void schedule();
	bool spinning(const Ins& in);
	void hbRead(Obj* o); void hbWrite(Obj* o);
	bool runnable(uint32_t t);
	void acquire(uint64_t addr, uint8_t order); void release(uint64_t addr, uint8_t order, bool rmw);
	uint64_t rng = 1, pathChecks = 0, pathSat = 0;
	void perturb();
	void endPath();
	void snapshot(Violation& v, const ModelP& m);
	void noteTrunc(const std::string& r){ ++truncated[r]; }
};
std::string jsonEsc(const std::string& s);
