// Bit-level XOR/AND normal form: every bit is an exclusive-or of atoms (input
// bits or conjunctions), kept as a set, so that everything linear over GF(2)
// cancels by construction.  What is left is decided by z3.
#pragma once
#include "expr.h"
#include <z3++.h>
namespace sx {
typedef uint32_t L;			// (xor set << 1) | complement
const std::vector<L> &blast(E e);
struct Fix { std::vector<std::pair<uint32_t, std::pair<uint64_t, uint64_t>>> f; };	// variable, mask, value
L underFix(L l, const Fix &f);		// cofactor under known input bits
L tidy(L l);				// re-normalise parts that depend on few input bits
Z3_ast xagZ3(z3::context &c, L l);
bool xagLiteral(L l, uint32_t &var, uint32_t &bit, int &val);	// l says: this input bit is val
bool xagConj(L l, L &a, L &b);	// l is the conjunction of a and b
bool xagLinear(std::vector<L> &q, Fix &f);	// exclusive-or elimination on a conjunction; false: contradiction
void xagInputs(L l, std::vector<std::pair<uint32_t, uint32_t>> &out);	// input bits (variable, bit)
extern uint64_t xagSets, xagAtoms;
}
