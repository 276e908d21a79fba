// Satisfiability of conjunctions of expressions: independence slicing, model
// reuse, local model repair, query cache, z3 as the deciding back end.
#pragma once
#include "expr.h"
#include <memory>

namespace sx {

struct Witness {		// an assignment, copy-on-write between states
	std::vector<uint64_t> v;
	uint64_t get(size_t i) const { return i < v.size() ? v[i] : 0; }
	void set(size_t i, uint64_t x) { if (i >= v.size()) v.resize(i + 1); v[i] = x; }
};
typedef std::shared_ptr<const Witness> WP;

struct SolverStats {
	uint64_t queries = 0, z3 = 0, z3sat = 0, z3unsat = 0, cached = 0, repaired = 0, witness = 0;
	double z3time = 0;
	double maxq = 0;
};
extern SolverStats st;

uint64_t evalE(E e, const Witness &w);

// Is pc /\ c satisfiable?  `w' satisfies pc.  On success `out' satisfies both.
bool satisfiable(const std::vector<E> &pc, E c, const WP &w, WP &out);
// XOR/AND normal form in front of z3 (for code that is linear over GF(2))
extern bool linMode;
// is e constant under the facts in pc?  1: yes, v is its value.  2: it depends on bit `bit' of variable `var', whose name starts with `pfx', and on nothing but such variables.  0: otherwise
int linLook(const std::vector<E> &pc, E e, const std::string &pfx, uint64_t &v, uint32_t &var, int &bit);
extern uint64_t linDecided;
void solverInit(unsigned timeout_ms, const char *dumpdir);
struct SolverGaveUp {};
}
