// Hash-consed bit-vector expressions (width 1..64) with a local simplifier.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <unordered_map>

namespace sx {

enum Op : uint8_t {
	CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR,
	SHL, LSHR, ASHR, CONCAT, EXTRACT, SEXT, EQ, ULT, ULE, SLT, SLE, ITE,
	SELECT
};

struct Expr {
	Op op;
	uint8_t w;
	bool uninit;		// contains an "uninitialised" variable
	uint32_t id;
	uint64_t val;		// CONST value, EXTRACT low bit, VAR index, SELECT table index
	uint64_t kz;		// bits known to be zero
	const Expr *a, *b, *c;
	bool isConst() const { return op == CONST; }
	bool isTrue() const { return op == CONST && w == 1 && val == 1; }
	bool isFalse() const { return op == CONST && w == 1 && val == 0; }
};
typedef const Expr *E;

struct VarInfo { std::string name; uint32_t idx; int w; bool uninit; };
struct Table { std::vector<uint64_t> v; int w; };

extern std::vector<VarInfo> vars;
extern std::vector<Table> tables;
extern std::vector<E> allExprs;

static inline uint64_t mask(int w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }

E mkConst(uint64_t v, int w);
E mkVar(const std::string &name, uint32_t idx, int w, bool uninit = false);
E mk(Op op, E a, E b);			// binary
E mkExtract(E x, int lo, int w);
E mkConcat(E hi, E lo);
E mkZExt(E x, int w);
E mkSExt(E x, int w);
E mkTrunc(E x, int w);
extern bool linMode;
E mkIte(E c, E a, E b);
E mkNot(E x);				// width 1: logical, else bitwise
E mkAnd(E a, E b);			// width 1
E mkOr(E a, E b);
E mkEq(E a, E b);
int mkTable(const std::vector<uint64_t> &v, int w);
E mkSelect(int table, E idx);
std::string show(E e, int depth = 6);

// Evaluate under an assignment (indexed by VAR index).
struct Assignment {
	std::vector<uint64_t> v;
	std::unordered_map<uint32_t, uint64_t> memo;
	uint64_t get(size_t i) const { return i < v.size() ? v[i] : 0; }
	uint64_t eval(E e);
};
uint64_t foldBin(Op op, uint64_t a, uint64_t b, int w, bool &ok);
// substitute variables (used for the uninitialised-read check)
E substUninit(E e, const std::string &tag, std::unordered_map<uint32_t, E> &memo);
void collectVars(E e, std::vector<uint32_t> &out, std::vector<bool> &seenExpr);
}
