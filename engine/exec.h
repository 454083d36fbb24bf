#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>

struct Val { uint64_t v = 0; E e = nullptr; };
inline Val cv(uint64_t v){ return Val{v, nullptr}; }

struct Leaf { uint16_t w; uint8_t fp; uint32_t off; }; // width in bits, byte offset inside the aggregate
inline unsigned storeBytes(unsigned w){ return (w + 7) / 8; }

enum OKind : uint8_t { OGlobal, OHeap, OStack, OFunc, OExc };
struct Obj {
	int refs = 0;
	uint32_t id = 0;
	uint64_t base = 0, size = 0;
	OKind kind = OHeap;
	bool freed = false, ro = false, shared = false;
	uint8_t tag = 0; // 0 malloc, 1 new, 2 new[]
	std::vector<uint8_t> b;
	std::vector<uint8_t> un; // empty: fully initialized
	std::vector<E> sym; // empty: fully concrete
	const void* fn = nullptr;
	std::string name;
};
struct ObjP {
	Obj* p = nullptr;
	ObjP() = default;
	ObjP(Obj* x) : p(x) { if(p) ++p->refs; }
	ObjP(const ObjP& o) : p(o.p) { if(p) ++p->refs; }
	ObjP(ObjP&& o) noexcept : p(o.p) { o.p = nullptr; }
	ObjP& operator=(ObjP o){ std::swap(p, o.p); return *this; }
	~ObjP(){ if(p && --p->refs == 0) delete p; }
	Obj* operator->() const { return p; }
	explicit operator bool() const { return p; }
};

struct Opnd { int32_t slot = -1; Val c; };

struct Edge { uint32_t target; std::vector<std::pair<int32_t, Opnd>> copies; std::vector<uint16_t> w; }; // w: widths, 0 for pointers

enum class Op : uint8_t {
	Bin, FBin, FNeg, ICmp, FCmp, ZExt, SExt, Trunc, FPCast, IToF, FToI, Copy, Select, Load, Store, Gep, Alloca,
	Br, CondBr, Switch, Ret, Call, Invoke, LandingPad, Resume, Unreachable, AtomicRMW, CmpXchg, Fence, ExtractElt, InsertElt, Shuffle, VAArg, Nop
};
struct GepStep { Opnd o; uint64_t scale; uint16_t w; };
struct CFunc;
struct Ins {
	Op op;
	K k = K::Const; // expression kind
	uint16_t w = 0, w2 = 0; // operand width, result width
	uint8_t sub = 0; // predicate, atomic op, etc.
	uint8_t order = 0; // memory order (0: not atomic)
	bool sgn = false;
	int32_t dst = -1; // first slot
	uint32_t n = 1; // number of leaves
	std::vector<Opnd> ops;
	std::vector<Leaf> leaves; // load/store/alloca/phi shapes
	std::vector<GepStep> gep;
	int64_t cofs = 0; // constant offset of gep, alloca size
	uint32_t e0 = 0, e1 = 0; // edges (br, condbr, invoke normal/unwind)
	std::vector<std::pair<u128, uint32_t>> cases; // switch
	// call
	const llvm::Function* callee = nullptr;
	int ext = -1; // external handler id (resolved lazily)
	std::vector<uint32_t> argLeaves; // leaves per argument
	std::vector<uint8_t> argByval; // size handled via byvalSize
	std::vector<uint32_t> byvalSize;
	std::vector<uint16_t> argW; // width of the first leaf
	std::vector<uint8_t> argFp;
	const llvm::Instruction* I = nullptr;
};
struct CFunc {
	const llvm::Function* F = nullptr;
	std::vector<Ins> code;
	std::vector<uint32_t> bbStart;
	std::vector<Edge> edges;
	std::vector<int32_t> argSlot; // per arg first slot
	std::vector<uint32_t> argN;
	uint32_t nslots = 0;
	uint64_t execs = 0;
	std::vector<int8_t> simple; // per block: 1 straight-line code that ends in a plain jump, -1 not, 0 not known yet
};

enum class OnRet : uint8_t { None, FreeExc, Marker, ThreadEnd, Ctor };
struct Frame {
	CFunc* f = nullptr;
	uint32_t pc = 0;
	std::vector<Val> regs;
	std::vector<uint32_t> allocas;
	OnRet onret = OnRet::None;
	uint64_t onretArg = 0;
	uint32_t varargs = 0; // object id
	// pending exception when entering a landing pad
	uint64_t lpPtr = 0; uint32_t lpSel = 0;
};
struct Exc {
	uint64_t handle, obj, ti, dtor, adj;
	int handlers = 0, refs = 1;
	int64_t primary = -1; // index of primary exc when dependent
	bool dead = false;
};
typedef std::vector<uint32_t> VClock;
struct Thread {
	std::vector<Frame> st;
	std::vector<uint32_t> caught; // indices into excs
	int uncaught = 0;
	bool done = false;
	bool joining = false;
	// scheduling
	std::vector<const Ins*> spins; uint64_t spinStamp = 0; // operations without effect since the last visible change
	bool blocked = false; // spinning: waits for another thread's visible write
	VClock vc;
};
struct SymRec { std::string name; std::vector<uint32_t> vars; bool choice = false; };
struct ObsRec { std::string name; std::vector<Val> bytes; };
struct AccessRec { VClock w, r; int wt = -1; };
struct State {
	std::vector<ObjP> mem;
	std::vector<Thread> th;
	uint32_t cur = 0;
	std::vector<E> cs;
	ModelP model;
	uint32_t nvars = 0;
	std::vector<SymRec> syms;
	std::vector<ObsRec> obs;
	std::vector<Exc> excs;
	std::set<uint64_t> atoms_seen;
	std::map<uint64_t, VClock> atomRel; // release clocks per atomic address
	std::map<uint32_t, AccessRec> acc; // shared objects
	uint64_t stamp = 0; // counts visible writes
	uint64_t steps = 0;
	int64_t heapLive = 0;
	uint32_t switches = 0, wakes = 0;
	bool schedPending = false; // a scheduling choice has been made for the next visible op
	std::string out; // captured stderr (concrete bytes; symbolic bytes appear in outSym)
	std::vector<Val> outv;
	uint32_t depth = 0;
	uint64_t clockCalls = 0;
	int64_t allocFailAt = -1; uint64_t allocCount = 0;
	bool oomArmed = false;
	std::vector<std::string> schedTrace;
	int64_t liveExc = 0;
};
struct Violation { std::string kind, msg, where; std::vector<SymRec> syms; std::vector<std::vector<uint64_t>> vals; std::vector<std::string> sched; std::vector<std::pair<std::string, std::string>> obs; };
