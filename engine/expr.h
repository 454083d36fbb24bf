// Hash-consed bit-vector (and IEEE float) expression DAG.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <memory>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <functional>
#include <cassert>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum class K : uint8_t {
	Const, Var, Extract, Concat, ZExt, SExt,
	Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
	Not, Eq, Ult, Ule, Slt, Sle, Ite,
	// floating point (operands are IEEE bit patterns, width 32/64/80)
	FAdd, FSub, FMul, FDiv, FSqrt, FRem, FCmp, // aux = llvm predicate
	FPExt, FPTrunc, FPToSI, FPToUI, SIToFP, UIToFP
};

struct VarSet { // interned sorted set of variable ids
	std::vector<uint32_t> v;
	uint32_t id;
};

struct Expr {
	K kind;
	uint16_t width;
	uint32_t aux; // extract offset / var id / fcmp predicate
	uint32_t id;
	uint32_t n;
	u128 val; // const
	const Expr* k[3];
	const VarSet* vars;
	bool fp; // contains a floating point operation
	bool dv; // contains a division of 24 or more bits by a constant
	// evaluation memo
	mutable uint64_t ev_epoch = 0;
	mutable u128 ev_val = 0;
	// translation memo (z3 ast)
	mutable void* z3 = nullptr;
	bool isConst() const { return kind == K::Const; }
	uint64_t c64() const { return (uint64_t)val; }
};
typedef const Expr* E;

inline u128 maskOf(unsigned w){ return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sextOf(u128 v, unsigned w){
	if(w >= 128) return (i128)v;
	u128 m = (u128)1 << (w - 1);
	v &= maskOf(w);
	return (i128)((v ^ m) - m);
}

E mkConst(u128 v, unsigned w);
E mkVar(uint32_t id, unsigned w);
E mkExtract(E e, unsigned off, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E e, unsigned w);
E mkSExt(E e, unsigned w);
E mkBin(K k, E a, E b); // arithmetic/bitwise/compare
E mkNot(E e); // bitwise not (logical for width 1)
E mkIte(E c, E t, E f);
E mkF(K k, unsigned w, E a, E b = nullptr, unsigned aux = 0);
inline E mkTrue(){ return mkConst(1, 1); }
inline E mkFalse(){ return mkConst(0, 1); }

extern uint64_t modelSerial;
struct Model {
	std::vector<uint64_t> v; // by variable id; missing = 0
	uint64_t serial = ++modelSerial;
	Model() = default;
	Model(const Model& o) : v(o.v) {}
	u128 get(uint32_t id) const { return id < v.size() ? v[id] : 0; }
};
typedef std::shared_ptr<const Model> ModelP;

u128 evalExpr(E e, const Model& m); // memoized within an epoch per model pointer
void evalNewEpoch();
u128 foldConst(K k, unsigned w, unsigned aux, const E* ops, unsigned n, const u128* vals);
const VarSet* varUnion(const VarSet* a, const VarSet* b);
std::string exprToString(E e, int depth = 6);
size_t exprCount();
