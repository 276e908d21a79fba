#include "expr.h"
#include <cassert>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <map>

namespace sx {

std::vector<VarInfo> vars;
std::vector<Table> tables;
std::vector<E> allExprs;

struct Key { Op op; uint8_t w; uint64_t val; E a, b, c; };
struct KeyHash {
	size_t operator()(const Key &k) const {
		uint64_t h = k.op * 0x9E3779B97F4A7C15ULL + k.w;
		auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; };
		mix(k.val);
		mix(k.a ? k.a->id + 1 : 0); mix(k.b ? k.b->id + 1 : 0); mix(k.c ? k.c->id + 1 : 0);
		return h;
	}
};
struct KeyEq {
	bool operator()(const Key &x, const Key &y) const {
		return x.op == y.op && x.w == y.w && x.val == y.val && x.a == y.a && x.b == y.b && x.c == y.c;
	}
};
static std::unordered_map<Key, E, KeyHash, KeyEq> table_;

static uint64_t computeKZ(const Expr *e)
{
	const uint64_t m = mask(e->w);
	switch (e->op) {
	case CONST: return ~e->val & m;
	case CONCAT: return ((e->a->kz << e->b->w) | e->b->kz) & m;
	case EXTRACT: return (e->a->kz >> e->val) & m;
	case AND: return (e->a->kz | e->b->kz) & m;
	case OR: case XOR: return e->a->kz & e->b->kz & m;
	case ITE: return e->b->kz & e->c->kz & m;
	case UREM: case LSHR: {
		// result <= a
		uint64_t mx = ~e->a->kz & mask(e->a->w);
		if (!mx) return m;
		int top = 63 - __builtin_clzll(mx);
		return m & ~mask(top + 1);
	}
	case ADD: {
		uint64_t mx = (~e->a->kz & m), my = (~e->b->kz & m);
		unsigned __int128 s = (unsigned __int128)mx + my;
		if (s > m) return 0;
		uint64_t t = (uint64_t)s;
		if (!t) return m;
		int top = 63 - __builtin_clzll(t);
		return m & ~mask(top + 1);
	}
	case SELECT: {
		uint64_t any = 0;
		for (uint64_t x : tables[e->val].v) any |= x;
		return ~any & m;
	}
	default: return 0;
	}
}

static E intern(Op op, int w, uint64_t val, E a, E b, E c)
{
	Key k{op, (uint8_t)w, val, a, b, c};
	auto it = table_.find(k);
	if (it != table_.end()) return it->second;
	Expr *e = new Expr;
	e->op = op; e->w = w; e->val = val; e->a = a; e->b = b; e->c = c;
	e->id = allExprs.size();
	e->uninit = (a && a->uninit) || (b && b->uninit) || (c && c->uninit);
	e->kz = 0;
	e->kz = computeKZ(e);
	allExprs.push_back(e);
	table_.emplace(k, e);
	return e;
}

E mkConst(uint64_t v, int w)
{
	static E small[65][260];
	v &= mask(w);
	if (v < 260) {
		E &s = small[w][v];
		if (!s) s = intern(CONST, w, v, nullptr, nullptr, nullptr);
		return s;
	}
	return intern(CONST, w, v, nullptr, nullptr, nullptr);
}

static std::map<std::pair<std::string, uint32_t>, E> varTable;

E mkVar(const std::string &name, uint32_t idx, int w, bool uninit)
{
	auto key = std::make_pair(name, idx);
	auto it = varTable.find(key);
	if (it != varTable.end()) {
		if (it->second->w != w) { fprintf(stderr, "var %s[%u] width clash\n", name.c_str(), idx); exit(3); }
		return it->second;
	}
	uint64_t i = vars.size();
	vars.push_back({name, idx, w, uninit});
	E e = intern(VAR, w, i, nullptr, nullptr, nullptr);
	if (uninit) const_cast<Expr *>(e)->uninit = true;
	varTable[key] = e;
	return e;
}

static int64_t sx_(uint64_t v, int w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }

uint64_t foldBin(Op op, uint64_t a, uint64_t b, int w, bool &ok)
{
	ok = true;
	const uint64_t m = mask(w);
	switch (op) {
	case ADD: return (a + b) & m;
	case SUB: return (a - b) & m;
	case MUL: return (a * b) & m;
	case UDIV: return b ? (a / b) & m : m;
	case UREM: return b ? (a % b) & m : a;
	case SDIV: {
		int64_t x = sx_(a, w), y = sx_(b, w);
		if (!y) return x < 0 ? 1 : m;
		if (y == -1) return (uint64_t)(-(uint64_t)x) & m;
		return (uint64_t)(x / y) & m;
	}
	case SREM: {
		int64_t x = sx_(a, w), y = sx_(b, w);
		if (!y) return a;
		if (y == -1) return 0;
		return (uint64_t)(x % y) & m;
	}
	case AND: return a & b;
	case OR: return a | b;
	case XOR: return a ^ b;
	case SHL: return b >= (uint64_t)w ? 0 : (a << b) & m;
	case LSHR: return b >= (uint64_t)w ? 0 : a >> b;
	case ASHR: {
		int64_t x = sx_(a, w);
		return (uint64_t)(b >= (uint64_t)w ? (x < 0 ? -1 : 0) : (x >> b)) & m;
	}
	case EQ: return a == b;
	case ULT: return a < b;
	case ULE: return a <= b;
	case SLT: return sx_(a, w) < sx_(b, w);
	case SLE: return sx_(a, w) <= sx_(b, w);
	default: ok = false; return 0;
	}
}

E mkNot(E x)
{
	if (x->w == 1) {
		if (x->isConst()) return mkConst(!x->val, 1);
		if (x->op == XOR && x->b->isConst()) return x->a;
		if (x->op == ULT) return mk(ULE, x->b, x->a);
		if (x->op == ULE) return mk(ULT, x->b, x->a);
		if (x->op == SLT) return mk(SLE, x->b, x->a);
		if (x->op == SLE) return mk(SLT, x->b, x->a);
		return intern(XOR, 1, 0, x, mkConst(1, 1), nullptr);
	}
	return mk(XOR, x, mkConst(~0ULL, x->w));
}

static bool isNotOf(E x, E y)
{
	if (x->op == XOR && x->w == 1 && x->b->isTrue() && x->a == y) return true;
	if (y->op == XOR && y->w == 1 && y->b->isTrue() && y->a == x) return true;
	if (x->op == ULT && y->op == ULE && x->a == y->b && x->b == y->a) return true;
	if (x->op == ULE && y->op == ULT && x->a == y->b && x->b == y->a) return true;
	if (x->op == SLT && y->op == SLE && x->a == y->b && x->b == y->a) return true;
	if (x->op == SLE && y->op == SLT && x->a == y->b && x->b == y->a) return true;
	return false;
}

// Is x implied by conjunct list / simple containment?
static bool conjHas(E conj, E x)
{
	int n = 0;
	while (conj->op == AND && conj->w == 1 && n++ < 12) {
		if (conj->a == x || conj->b == x) return true;
		// left-leaning or right-leaning chains
		if (conj->a->op == AND) conj = conj->a; else conj = conj->b;
	}
	return conj == x;
}

E mkAnd(E a, E b)
{
	if (a->isConst()) return a->val ? b : a;
	if (b->isConst()) return b->val ? a : b;
	if (a == b) return a;
	if (isNotOf(a, b)) return mkConst(0, 1);
	if (conjHas(a, b)) return a;
	if (conjHas(b, a)) return b;
	// absorption: a & (a | x) = a ; a & (!a | x) = a & x
	for (int k = 0; k < 2; k++) {
		if (b->op == OR) {
			if (b->a == a || b->b == a) return a;
			if (isNotOf(b->a, a)) return mkAnd(a, b->b);
			if (isNotOf(b->b, a)) return mkAnd(a, b->a);
		}
		if (b->op == AND && (isNotOf(b->a, a) || isNotOf(b->b, a))) return mkConst(0, 1);
		// x == k1 & x == k2
		if (a->op == EQ && b->op == EQ && a->a == b->a && a->b->isConst() && b->b->isConst() && a->b != b->b)
			return mkConst(0, 1);
		std::swap(a, b);
	}
	if (a->id > b->id) std::swap(a, b);
	return intern(AND, 1, 0, a, b, nullptr);
}

E mkOr(E a, E b)
{
	if (a->isConst()) return a->val ? a : b;
	if (b->isConst()) return b->val ? b : a;
	if (a == b) return a;
	if (isNotOf(a, b)) return mkConst(1, 1);
	for (int k = 0; k < 2; k++) {
		if (b->op == AND) {
			if (b->a == a || b->b == a) return a;
			if (isNotOf(b->a, a)) return mkOr(a, b->b);
			if (isNotOf(b->b, a)) return mkOr(a, b->a);
		}
		std::swap(a, b);
	}
	if (a->op == AND && b->op == AND) {
		// (x & y) | (x & !y) = x ; (x&y)|(x&z) = x & (y|z)
		for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) {
			E x1 = i ? a->b : a->a, y1 = i ? a->a : a->b;
			E x2 = j ? b->b : b->a, y2 = j ? b->a : b->b;
			if (x1 == x2) return mkAnd(x1, mkOr(y1, y2));
		}
	}
	if (a->id > b->id) std::swap(a, b);
	return intern(OR, 1, 0, a, b, nullptr);
}

E mkEq(E a, E b)
{
	if (a == b) return mkConst(1, 1);
	if (a->isConst() && !b->isConst()) std::swap(a, b);
	if (a->isConst()) return mkConst(a->val == b->val, 1);
	const int w = a->w;
	if (w == 1) {
		if (b->isConst()) return b->val ? a : mkNot(a);
	}
	// disjointness by known bits
	if (b->isConst() && (b->val & a->kz)) return mkConst(0, 1);
	if (b->isConst()) {
		switch (a->op) {
		case CONCAT:
			return mkAnd(mkEq(a->a, mkConst(b->val >> a->b->w, a->a->w)),
				     mkEq(a->b, mkConst(b->val, a->b->w)));
		case ITE: {
			E x = a->b, y = a->c;
			if (x->isConst()) {
				if (x->val == b->val) return mkOr(a->a, mkEq(y, b));
				return mkAnd(mkNot(a->a), mkEq(y, b));
			}
			if (y->isConst()) {
				if (y->val == b->val) return mkOr(mkNot(a->a), mkEq(x, b));
				return mkAnd(a->a, mkEq(x, b));
			}
			break;
		}
		case ADD:
			if (a->b->isConst()) return mkEq(a->a, mkConst(b->val - a->b->val, w));
			break;
		case XOR:
			if (a->b->isConst()) return mkEq(a->a, mkConst(b->val ^ a->b->val, w));
			if (b->val == 0) return mkEq(a->a, a->b);
			break;
		case SEXT: {
			uint64_t lo = b->val & mask(a->a->w);
			uint64_t back = (uint64_t)sx_(lo, a->a->w) & mask(w);
			if (back != b->val) return mkConst(0, 1);
			return mkEq(a->a, mkConst(lo, a->a->w));
		}
		default: break;
		}
	} else {
		if (a->op == CONCAT && b->op == CONCAT && a->b->w == b->b->w)
			return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
		if (a->op == ITE && b->op == ITE && a->a == b->a)
			return mkIte(a->a, mkEq(a->b, b->b), mkEq(a->c, b->c));
		if (a->op == ITE) {
			if (a->b == b) return mkOr(a->a, mkEq(a->c, b));
			if (a->c == b) return mkOr(mkNot(a->a), mkEq(a->b, b));
		}
		if (b->op == ITE) {
			if (b->b == a) return mkOr(b->a, mkEq(b->c, a));
			if (b->c == a) return mkOr(mkNot(b->a), mkEq(b->b, a));
		}
	}
	if (!b->isConst() && a->id > b->id) std::swap(a, b);
	return intern(EQ, 1, 0, a, b, nullptr);
}

E mkConcat(E hi, E lo)
{
	const int w = hi->w + lo->w;
	assert(w <= 64);
	if (hi->isConst() && lo->isConst()) return mkConst((hi->val << lo->w) | lo->val, w);
	// concat(x, concat(y, z)) -> right-assoc normal form: concat(concat(x,y),z)
	if (lo->op == CONCAT) return mkConcat(mkConcat(hi, lo->a), lo->b);
	// adjacent extracts
	if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && hi->val == lo->val + lo->w)
		return mkExtract(hi->a, lo->val, w);
	if (hi->op == EXTRACT && hi->a == lo && hi->val == lo->w)
		return mkExtract(hi->a, 0, w);
	if (hi->op == CONCAT) {
		E t = hi->b;
		if ((t->op == EXTRACT && lo->op == EXTRACT && t->a == lo->a && t->val == lo->val + lo->w) ||
		    (t->isConst() && lo->isConst()) ||
		    (t->op == ITE && lo->op == ITE && t->a == lo->a))
			return mkConcat(hi->a, mkConcat(t, lo));
	}
	if (hi->op == ITE && lo->op == ITE && hi->a == lo->a)
		return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
	return intern(CONCAT, w, 0, hi, lo, nullptr);
}

E mkExtract(E x, int lo, int w)
{
	if (lo == 0 && w == x->w) return x;
	assert(lo + w <= x->w);
	switch (x->op) {
	case CONST: return mkConst(x->val >> lo, w);
	case EXTRACT: return mkExtract(x->a, x->val + lo, w);
	case CONCAT: {
		int lw = x->b->w;
		if (lo >= lw) return mkExtract(x->a, lo - lw, w);
		if (lo + w <= lw) return mkExtract(x->b, lo, w);
		return mkConcat(mkExtract(x->a, 0, lo + w - lw), mkExtract(x->b, lo, lw - lo));
	}
	case SEXT:
		if (lo + w <= x->a->w) return mkExtract(x->a, lo, w);
		break;
	case ITE:
		if (x->b->isConst() || x->c->isConst() ||
		    x->b->op == CONCAT || x->c->op == CONCAT)
			return mkIte(x->a, mkExtract(x->b, lo, w), mkExtract(x->c, lo, w));
		break;
	case AND: case OR: case XOR:
		if (x->b->isConst() || w == 1 || x->a->op == CONCAT || x->b->op == CONCAT)
			return mk(x->op, mkExtract(x->a, lo, w), mkExtract(x->b, lo, w));
		break;
	case ADD: case SUB: case MUL:
		if (lo == 0) return mk(x->op, mkExtract(x->a, 0, w), mkExtract(x->b, 0, w));
		break;
	case SELECT: break;
	default: break;
	}
	uint64_t m = mask(w);
	if (((x->kz >> lo) & m) == m) return mkConst(0, w);
	return intern(EXTRACT, w, lo, x, nullptr, nullptr);
}

E mkZExt(E x, int w) { return w == x->w ? x : mkConcat(mkConst(0, w - x->w), x); }
E mkTrunc(E x, int w) { return mkExtract(x, 0, w); }

E mkSExt(E x, int w)
{
	if (w == x->w) return x;
	if (x->isConst()) return mkConst((uint64_t)sx_(x->val, x->w), w);
	if (x->kz >> (x->w - 1)) return mkZExt(x, w);
	if (x->op == ITE && x->b->isConst() && x->c->isConst())
		return mkIte(x->a, mkSExt(x->b, w), mkSExt(x->c, w));
	if (x->w == 1) return mkIte(x, mkConst(~0ULL, w), mkConst(0, w));
	return intern(SEXT, w, 0, x, nullptr, nullptr);
}

bool linMode;
E mkIte(E c, E a, E b)
{
	if (c->isConst()) return c->val ? a : b;
	if (a == b) return a;
	if (c->op == XOR && c->b->isTrue()) return mkIte(c->a, b, a);
	if (a->w == 1) {
		if (a->isTrue()) return mkOr(c, b);
		if (a->isFalse()) return mkAnd(mkNot(c), b);
		if (b->isTrue()) return mkOr(mkNot(c), a);
		if (b->isFalse()) return mkAnd(c, a);
		if (a == c) return mkOr(c, b);
		if (b == c) return mkAnd(c, a);
	}
	if (a->op == ITE && a->a == c) return mkIte(c, a->b, b);
	if (b->op == ITE && b->a == c) return mkIte(c, a, b->c);
	if (b->op == ITE && b->b == a) return mkIte(mkOr(c, b->a), a, b->c);
	if (a->op == ITE && a->c == b) return mkIte(mkAnd(c, a->a), a->b, b);
	if (linMode && a->w > 1) {	// keep what is linear linear
		if (a->op == XOR && a->a == b) return mk(XOR, b, mkIte(c, a->b, mkConst(0, a->w)));
		if (b->op == XOR && b->a == a) return mk(XOR, a, mkIte(c, mkConst(0, a->w), b->b));
	}
	return intern(ITE, a->w, 0, c, a, b);
}

// Split a|b (or a+b, a^b) with disjoint non-zero bits into a concat of slices.
static E disjointMerge(E a, E b)
{
	const int w = a->w;
	E out = nullptr;
	int hi = w, runs = 0;
	while (hi > 0) {
		// extend the run downward
		int who = -1, lo = hi;
		while (lo > 0) {
			int bit = lo - 1;
			bool az = (a->kz >> bit) & 1, bz = (b->kz >> bit) & 1;
			int o = (az && bz) ? -1 : bz ? 0 : 1;
			if (o >= 0) {
				if (who < 0) who = o;
				else if (who != o) break;
			}
			lo--;
		}
		E part = who < 0 ? mkConst(0, hi - lo) : mkExtract(who ? b : a, lo, hi - lo);
		out = out ? mkConcat(out, part) : part;
		hi = lo;
		if (++runs > 10) return nullptr;
	}
	return out;
}

static E mkAndW(E a, E b)
{
	const int w = a->w;
	if (b->isConst()) {
		uint64_t k = b->val, m = mask(w);
		if (k == m) return a;
		if (k == 0) return b;
		if ((~a->kz & m & ~k) == 0) return a;
		// few contiguous runs -> concat of slices
		int runs = 0;
		for (int i = 0; i < w; i++) if (i == 0 || ((k >> i) & 1) != ((k >> (i - 1)) & 1)) runs++;
		if (runs <= 4) {
			E out = nullptr;
			int hi = w;
			while (hi > 0) {
				int lo = hi - 1;
				uint64_t v = (k >> lo) & 1;
				while (lo > 0 && ((k >> (lo - 1)) & 1) == v) lo--;
				E part = v ? mkExtract(a, lo, hi - lo) : mkConst(0, hi - lo);
				out = out ? mkConcat(out, part) : part;
				hi = lo;
			}
			return out;
		}
	}
	if (((a->kz | b->kz) & mask(w)) == mask(w)) return mkConst(0, w);
	if (a == b) return a;
	return intern(AND, w, 0, a, b, nullptr);
}

E mk(Op op, E a, E b)
{
	if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %d %d\n", op, a->w, b->w); abort(); }
	const int w = a->w;
	if (a->isConst() && b->isConst()) {
		bool ok;
		uint64_t r = foldBin(op, a->val, b->val, w, ok);
		if (ok) return mkConst(r, op >= EQ ? 1 : w);
	}
	bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR;
	if (comm) {
		if (a->isConst()) std::swap(a, b);
		else if (!b->isConst() && a->id > b->id) std::swap(a, b);
	}
	// push binary ops with a constant through ITE with constant leaves
	if (b->isConst() && a->op == ITE && (a->b->isConst() || a->c->isConst()) && op != EQ)
		return mkIte(a->a, mk(op, a->b, b), mk(op, a->c, b));
	if (a->isConst() && b->op == ITE && (b->b->isConst() || b->c->isConst()) && op != EQ)
		return mkIte(b->a, mk(op, a, b->b), mk(op, a, b->c));
	switch (op) {
	case ADD:
		if (b->isConst() && b->val == 0) return a;
		if (b->isConst() && a->op == ADD && a->b->isConst())
			return mk(ADD, a->a, mkConst(a->b->val + b->val, w));
		if (((a->kz | b->kz) & mask(w)) == mask(w)) { E r = disjointMerge(a, b); if (r) return r; }
		if (b->isConst() && a->op == CONCAT && !(b->val & mask(a->b->w)))
			return mkConcat(mk(ADD, a->a, mkConst(b->val >> a->b->w, a->a->w)), a->b);
		if (w == 1) return mk(XOR, a, b);
		break;
	case SUB:
		if (b->isConst()) return mk(ADD, a, mkConst(-b->val, w));
		if (a == b) return mkConst(0, w);
		if (w == 1) return mk(XOR, a, b);
		break;
	case MUL:
		if (b->isConst()) {
			if (b->val == 0) return b;
			if (b->val == 1) return a;
			if ((b->val & (b->val - 1)) == 0)
				return mk(SHL, a, mkConst(__builtin_ctzll(b->val), w));
		}
		break;
	case UDIV:
		if (b->isConst() && b->val && (b->val & (b->val - 1)) == 0)
			return mk(LSHR, a, mkConst(__builtin_ctzll(b->val), w));
		break;
	case UREM:
		if (b->isConst() && b->val && (b->val & (b->val - 1)) == 0)
			return mkAndW(a, mkConst(b->val - 1, w));
		break;
	case AND:
		if (w == 1) return mkAnd(a, b);
		return mkAndW(a, b);
	case OR:
		if (w == 1) return mkOr(a, b);
		if (b->isConst()) {
			if (b->val == 0) return a;
			if (b->val == mask(w)) return b;
		}
		if (a == b) return a;
		if (((a->kz | b->kz) & mask(w)) == mask(w)) { E r = disjointMerge(a, b); if (r) return r; }
		break;
	case XOR:
		if (a == b) return mkConst(0, w);
		if (b->isConst() && b->val == 0) return a;
		if (w == 1 && b->isConst()) return mkNot(a);
		if (b->isConst() && a->op == XOR && a->b->isConst())
			return mk(XOR, a->a, mkConst(a->b->val ^ b->val, w));
		if (((a->kz | b->kz) & mask(w)) == mask(w)) { E r = disjointMerge(a, b); if (r) return r; }
		if (a->op == XOR && a->a == b) return a->b;
		if (a->op == XOR && a->b == b) return a->a;
		if (b->op == XOR && b->a == a) return b->b;
		if (b->op == XOR && b->b == a) return b->a;
		break;
	case SHL:
		if (b->isConst()) {
			if (b->val == 0) return a;
			if (b->val >= (uint64_t)w) return mkConst(0, w);
			return mkConcat(mkExtract(a, 0, w - b->val), mkConst(0, b->val));
		}
		if (a->isConst() && a->val == 0) return a;
		break;
	case LSHR:
		if (b->isConst()) {
			if (b->val == 0) return a;
			if (b->val >= (uint64_t)w) return mkConst(0, w);
			return mkConcat(mkConst(0, b->val), mkExtract(a, b->val, w - b->val));
		}
		if (a->isConst() && a->val == 0) return a;
		break;
	case ASHR:
		if (b->isConst()) {
			if (b->val == 0) return a;
			uint64_t k = b->val >= (uint64_t)w ? w - 1 : b->val;
			return mkSExt(mkExtract(a, k, w - k), w);
		}
		break;
	case EQ: return mkEq(a, b);
	case ULT:
		if (a == b) return mkConst(0, 1);
		if (b->isConst() && b->val == 0) return mkConst(0, 1);
		if (b->isConst() && (~a->kz & mask(w)) < b->val) return mkConst(1, 1);
		if (a->isConst() && (~b->kz & mask(w)) <= a->val) return mkConst(0, 1);
		if (a->isConst() && a->val == 0) return mkNot(mkEq(b, a));
		if (b->isConst() && b->val == 1) return mkEq(a, mkConst(0, w));
		if (a->op == CONCAT && a->a->isConst() && a->a->val == 0) {
			if (b->isConst() && (b->val >> a->b->w) == 0) return mk(ULT, a->b, mkConst(b->val, a->b->w));
			if (b->op == CONCAT && b->a == a->a) return mk(ULT, a->b, b->b);
		}
		break;
	case ULE:
		if (a == b) return mkConst(1, 1);
		if (a->isConst() && a->val == 0) return mkConst(1, 1);
		if (b->isConst() && (~a->kz & mask(w)) <= b->val) return mkConst(1, 1);
		if (a->isConst() && (~b->kz & mask(w)) < a->val) return mkConst(0, 1);
		if (b->isConst() && b->val == 0) return mkEq(a, b);
		if (b->op == CONCAT && b->a->isConst() && b->a->val == 0) {
			if (a->isConst() && (a->val >> b->b->w) == 0) return mk(ULE, mkConst(a->val, b->b->w), b->b);
			if (a->op == CONCAT && a->a == b->a) return mk(ULE, a->b, b->b);
		}
		break;
	case SLT:
		if (a == b) return mkConst(0, 1);
		// both known non-negative
		if ((a->kz >> (w - 1)) & (b->kz >> (w - 1)) & 1) return mk(ULT, a, b);
		break;
	case SLE:
		if (a == b) return mkConst(1, 1);
		if ((a->kz >> (w - 1)) & (b->kz >> (w - 1)) & 1) return mk(ULE, a, b);
		break;
	default: break;
	}
	return intern(op, op >= EQ ? 1 : w, 0, a, b, nullptr);
}

int mkTable(const std::vector<uint64_t> &v, int w)
{
	for (size_t i = 0; i < tables.size(); i++)
		if (tables[i].w == w && tables[i].v == v) return i;
	tables.push_back({v, w});
	return tables.size() - 1;
}

E mkSelect(int t, E idx)
{
	const Table &T = tables[t];
	if (idx->isConst()) return mkConst(idx->val < T.v.size() ? T.v[idx->val] : 0, T.w);
	return intern(SELECT, T.w, t, idx, nullptr, nullptr);
}

std::string show(E e, int d)
{
	char buf[64];
	if (!e) return "null";
	switch (e->op) {
	case CONST: snprintf(buf, sizeof buf, "0x%llx:%d", (unsigned long long)e->val, e->w); return buf;
	case VAR: snprintf(buf, sizeof buf, "%s[%u]", vars[e->val].name.c_str(), vars[e->val].idx); return buf;
	default: break;
	}
	if (d == 0) { snprintf(buf, sizeof buf, "#%u", e->id); return buf; }
	static const char *nm[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","cat","ext","sext","=","<u","<=u","<s","<=s","ite","sel"};
	std::string s = std::string("(") + nm[e->op];
	if (e->op == EXTRACT || e->op == SELECT) { snprintf(buf, sizeof buf, "[%llu:%d]", (unsigned long long)e->val, e->w); s += buf; }
	for (E x : {e->a, e->b, e->c}) if (x) s += " " + show(x, d - 1);
	return s + ")";
}

uint64_t Assignment::eval(E e)
{
	switch (e->op) {
	case CONST: return e->val;
	case VAR: return get(e->val) & mask(e->w);
	default: break;
	}
	auto it = memo.find(e->id);
	if (it != memo.end()) return it->second;
	uint64_t r = 0;
	switch (e->op) {
	case CONCAT: r = (eval(e->a) << e->b->w) | eval(e->b); break;
	case EXTRACT: r = (eval(e->a) >> e->val) & mask(e->w); break;
	case SEXT: r = (uint64_t)sx_(eval(e->a), e->a->w) & mask(e->w); break;
	case ITE: r = eval(e->a) ? eval(e->b) : eval(e->c); break;
	case SELECT: { uint64_t i = eval(e->a); r = i < tables[e->val].v.size() ? tables[e->val].v[i] : 0; break; }
	default: { bool ok; r = foldBin(e->op, eval(e->a), eval(e->b), e->a->w, ok); break; }
	}
	memo[e->id] = r;
	return r;
}

E substUninit(E e, const std::string &tag, std::unordered_map<uint32_t, E> &memo)
{
	if (!e->uninit) return e;
	auto it = memo.find(e->id);
	if (it != memo.end()) return it->second;
	E r = e;
	switch (e->op) {
	case VAR: r = mkVar(vars[e->val].name + tag, vars[e->val].idx, e->w, true); break;
	case CONCAT: r = mkConcat(substUninit(e->a, tag, memo), substUninit(e->b, tag, memo)); break;
	case EXTRACT: r = mkExtract(substUninit(e->a, tag, memo), e->val, e->w); break;
	case SEXT: r = mkSExt(substUninit(e->a, tag, memo), e->w); break;
	case ITE: r = mkIte(substUninit(e->a, tag, memo), substUninit(e->b, tag, memo), substUninit(e->c, tag, memo)); break;
	case SELECT: r = mkSelect(e->val, substUninit(e->a, tag, memo)); break;
	default: r = mk(e->op, substUninit(e->a, tag, memo), substUninit(e->b, tag, memo)); break;
	}
	memo[e->id] = r;
	return r;
}

void collectVars(E e, std::vector<uint32_t> &out, std::vector<bool> &seen)
{
	std::vector<E> st{e};
	while (!st.empty()) {
		E x = st.back(); st.pop_back();
		if (x->id < seen.size() && seen[x->id]) continue;
		if (x->id >= seen.size()) seen.resize(x->id + 1024);
		seen[x->id] = true;
		if (x->op == VAR) out.push_back(x->val);
		for (E y : {x->a, x->b, x->c}) if (y) st.push_back(y);
	}
}
}
