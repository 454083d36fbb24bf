#pragma once
#include "expr.h"
struct SolverStats {
	uint64_t queries = 0, solverCalls = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, fpQueries = 0, dumped = 0, rangeUnsat = 0, absUnsat = 0, intDecided = 0, congruent = 0;
	double ms = 0, maxMs = 0;
};
enum class Res { Sat, Unsat, Unknown };
struct Solver {
	unsigned timeoutMs = 20000;
	std::string dumpDir; unsigned dumpEvery = 0, dumpMax = 200;
	SolverStats st;
	std::function<std::string()> where;
	Solver();
	// constraints: path condition (known satisfiable with base), plus cond. On Sat returns a model extending base.
	Res feasible(const std::vector<E>& cs);
	Res check(const std::vector<E>& cs, E cond, const ModelP& base, ModelP& out);
	bool rangeUnsat(const std::vector<E>& q);
private:
	Res callSolver(const std::vector<E>& q, std::vector<std::pair<uint32_t, uint64_t>>& asg);
	bool congruent(E a, E b, std::vector<std::pair<E, E>>& pairs);
	void* ctx;
	void* tr(E e);
	bool absMode = false; // translate divisions by constants as bounded unknowns
	std::unordered_map<E, void*> absMemo;
	std::unordered_map<E, void*> absSide;
	struct Rg { u128 lo, hi; };
	Rg range(E e);
	std::unordered_map<E, Rg> rgMemo;
	std::unordered_map<uint32_t, Rg> rgDom;
	std::unordered_map<E, Rg> rgTerm; // learned bounds of terms
	bool rgEmpty = false;
	// integer arithmetic form of a query (exact; not every query has one)
	struct IntTerm { void* t; u128 lo, hi; };
	struct NoInt {};
	IntTerm trInt(E e);
	bool splitMul(E e, IntTerm& r);
	void* trIntBool(E e);
	Res callInt(const std::vector<E>& q, std::vector<std::pair<uint32_t, uint64_t>>& asg, unsigned to);
	std::unordered_map<E, IntTerm> intMemo;
	std::unordered_map<E, void*> intBool;
	std::unordered_map<E, u128> intHi;
	std::vector<void*> intSide;
	void* trFp(E e);
	std::unordered_map<std::string, std::pair<Res, std::vector<std::pair<uint32_t, uint64_t>>>> cache;
	std::vector<std::pair<std::vector<uint32_t>, ModelP>> recent;
};
