#include "xag.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <functional>

namespace sx {
typedef std::pair<uint32_t, uint64_t> WP2;	// word index, bits
typedef std::vector<WP2> Set;
uint64_t xagSets, xagAtoms;

struct Atom { bool in; uint32_t var; uint32_t bit; L a, b; };
static std::vector<Atom> atoms;
static std::vector<Set *> sets;
static std::unordered_map<uint64_t, std::vector<uint32_t>> setIdx;
static std::unordered_map<uint64_t, uint32_t> inIdx, andIdx;
static std::vector<std::vector<L> *> memo;

static std::vector<uint64_t> inMask, fixMask;	// atoms which are input bits; those of them which are fixed
static inline uint64_t maskAt(const std::vector<uint64_t> &m, uint32_t w) { return w < m.size() ? m[w] : 0; }
static void init() { if (sets.empty()) sets.push_back(new Set); }
static uint32_t intern(Set &s)
{
	init();
	if (s.empty()) return 0;
	uint64_t h = s.size();
	for (auto &p : s) { h ^= p.first + (p.second * 0x9e3779b97f4a7c15ULL); h *= 0xff51afd7ed558ccdULL; h ^= h >> 31; }
	auto &v = setIdx[h];
	for (uint32_t i : v) if (*sets[i] == s) return i;
	sets.push_back(new Set(std::move(s)));
	v.push_back(sets.size() - 1);
	xagSets = sets.size();
	return sets.size() - 1;
}
static L ofAtom(uint32_t a) { Set s{{a / 64, 1ULL << (a % 64)}}; return intern(s) << 1; }
static L input(uint32_t var, uint32_t bit)
{
	uint64_t k = (uint64_t)var << 8 | bit;
	auto it = inIdx.find(k);
	if (it != inIdx.end()) return ofAtom(it->second);
	atoms.push_back({true, var, bit, 0, 0}); xagAtoms++;
	{ size_t i = atoms.size() - 1; if (inMask.size() <= i / 64) inMask.resize(i / 64 + 64, 0); inMask[i / 64] |= 1ULL << (i % 64); }
	inIdx[k] = atoms.size() - 1;
	return ofAtom(atoms.size() - 1);
}
static L lxor(L a, L b)
{
	init();
	if (!(a >> 1)) return b ^ a;
	if (!(b >> 1)) return a ^ b;
	if ((a >> 1) == (b >> 1)) return (a ^ b) & 1;
	const Set &x = *sets[a >> 1], &y = *sets[b >> 1];
	Set r; r.reserve(x.size() + y.size());
	size_t i = 0, j = 0;
	while (i < x.size() && j < y.size()) {
		if (x[i].first < y[j].first) r.push_back(x[i++]);
		else if (x[i].first > y[j].first) r.push_back(y[j++]);
		else { uint64_t v = x[i].second ^ y[j].second; if (v) r.push_back({x[i].first, v}); i++; j++; }
	}
	r.insert(r.end(), x.begin() + i, x.end());
	r.insert(r.end(), y.begin() + j, y.end());
	return intern(r) << 1 | ((a ^ b) & 1);
}
static L lnot(L a) { return a ^ 1; }
static L land(L a, L b)
{
	init();
	if (a == 0 || b == 0 || a == (b ^ 1)) return 0;
	if (a == 1 || a == b) return b;
	if (b == 1) return a;
	if (a > b) std::swap(a, b);
	uint64_t k = (uint64_t)a << 32 | b;
	auto it = andIdx.find(k);
	if (it != andIdx.end()) return ofAtom(it->second);
	atoms.push_back({false, 0, 0, a, b}); xagAtoms++;
	andIdx[k] = atoms.size() - 1;
	return ofAtom(atoms.size() - 1);
}
static L lor(L a, L b) { return lnot(land(lnot(a), lnot(b))); }
static L lmux(L c, L a, L b) { return lxor(b, land(c, lxor(a, b))); }

typedef std::vector<L> V;
static V addV(const V &a, const V &b, L c)
{
	V r(a.size());
	for (size_t i = 0; i < a.size(); i++) {
		L x = lxor(a[i], b[i]);
		r[i] = lxor(x, c);
		c = lor(land(a[i], b[i]), land(x, c));
	}
	return r;
}
static V inv(V a) { for (auto &x : a) x = lnot(x); return a; }
static L ultV(const V &a, const V &b)	// a < b
{
	L lt = 0;
	for (size_t i = 0; i < a.size(); i++) lt = lmux(lxor(a[i], b[i]), b[i], lt);
	return lt;
}
static V muxV(L c, const V &a, const V &b) { V r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = lmux(c, a[i], b[i]); return r; }
static V shiftV(const V &a, const V &s, int kind)	// 0 shl, 1 lshr, 2 ashr
{
	size_t w = a.size(); V r = a; L fill = kind == 2 ? a[w - 1] : 0;
	L big = 0;
	for (size_t k = 0; k < s.size(); k++) {
		if (k >= 7 || (1ULL << k) >= w) { big = lor(big, s[k]); continue; }
		if (s[k] == 0) continue;
		V t(w); size_t d = 1u << k;
		for (size_t i = 0; i < w; i++) t[i] = kind == 0 ? (i >= d ? r[i - d] : 0) : (i + d < w ? r[i + d] : fill);
		r = muxV(s[k], t, r);
	}
	if (big != 0) { V z(w, kind == 2 ? fill : 0); r = muxV(big, z, r); }
	return r;
}
static V mulV(const V &a, const V &b)
{
	size_t w = a.size(); V r(w, 0);
	for (size_t k = 0; k < w; k++) {
		if (b[k] == 0) continue;
		V t(w, 0);
		for (size_t i = k; i < w; i++) t[i] = land(a[i - k], b[k]);
		r = addV(r, t, 0);
	}
	return r;
}
static void divV(const V &a, const V &b, V &q, V &m)	// unsigned
{
	size_t w = a.size(); V r(w + 1, 0), d = b; d.push_back(0); q.assign(w, 0);
	for (int i = w - 1; i >= 0; i--) {
		for (int k = w; k > 0; k--) r[k] = r[k - 1];
		r[0] = a[i];
		L ge = lnot(ultV(r, d));
		q[i] = ge;
		r = muxV(ge, addV(r, inv(d), 1), r);
	}
	m.assign(r.begin(), r.begin() + w);
}
static V absV(const V &a) { V z(a.size(), 0); return muxV(a.back(), addV(z, inv(a), 1), a); }
static V negV(const V &a) { V z(a.size(), 0); return addV(z, inv(a), 1); }
static V tableV(const Table &T, const V &idx, int bit, uint64_t base)
{
	if (bit < 0 || base >= T.v.size()) {
		uint64_t x = base < T.v.size() ? T.v[base] : 0; V r(T.w);
		for (int i = 0; i < T.w; i++) r[i] = x >> i & 1;
		return r;
	}
	if (idx[bit] == 0) return tableV(T, idx, bit - 1, base);
	if (idx[bit] == 1) return tableV(T, idx, bit - 1, base | 1ULL << bit);
	V hi = tableV(T, idx, bit - 1, base | 1ULL << bit), lo = tableV(T, idx, bit - 1, base);
	return muxV(idx[bit], hi, lo);
}
static V one(E e)
{
	init();
	V r(e->w);
	auto B = [](E x) -> const V & { return *memo[x->id]; };
	switch (e->op) {
	case CONST: for (int i = 0; i < e->w; i++) r[i] = e->val >> i & 1; return r;
	case VAR: for (int i = 0; i < e->w; i++) r[i] = input(e->val, i); return r;
	case AND: for (int i = 0; i < e->w; i++) r[i] = land(B(e->a)[i], B(e->b)[i]); return r;
	case OR: for (int i = 0; i < e->w; i++) r[i] = lor(B(e->a)[i], B(e->b)[i]); return r;
	case XOR: for (int i = 0; i < e->w; i++) r[i] = lxor(B(e->a)[i], B(e->b)[i]); return r;
	case ADD: return addV(B(e->a), B(e->b), 0);
	case SUB: return addV(B(e->a), inv(B(e->b)), 1);
	case MUL: return mulV(B(e->a), B(e->b));
	case UDIV: case UREM: { V q, m; divV(B(e->a), B(e->b), q, m); return e->op == UDIV ? q : m; }
	case SDIV: case SREM: {
		V a = B(e->a), b = B(e->b), q, m; L sa = a.back(), sb = b.back();
		divV(absV(a), absV(b), q, m);
		if (e->op == SDIV) return muxV(lxor(sa, sb), negV(q), q);
		return muxV(sa, negV(m), m);
	}
	case SHL: return shiftV(B(e->a), B(e->b), 0);
	case LSHR: return shiftV(B(e->a), B(e->b), 1);
	case ASHR: return shiftV(B(e->a), B(e->b), 2);
	case CONCAT: { V x = B(e->b); x.insert(x.end(), B(e->a).begin(), B(e->a).end()); return x; }
	case EXTRACT: return V(B(e->a).begin() + e->val, B(e->a).begin() + e->val + e->w);
	case SEXT: { V x = B(e->a); x.resize(e->w, x.back()); return x; }
	case EQ: { L l = 1; const V &a = B(e->a), &b = B(e->b); for (size_t i = 0; i < a.size(); i++) l = land(l, lnot(lxor(a[i], b[i]))); return {l}; }
	case ULT: return {ultV(B(e->a), B(e->b))};
	case ULE: return {lnot(ultV(B(e->b), B(e->a)))};
	case SLT: case SLE: {
		V a = B(e->a), b = B(e->b); a.back() ^= 1; b.back() ^= 1;
		return {e->op == SLT ? ultV(a, b) : lnot(ultV(b, a))};
	}
	case ITE: return muxV(B(e->a)[0], B(e->b), B(e->c));
	case SELECT: {
		const Table &T = tables[e->val]; int top = 0;
		while (top < e->a->w && top < 63 && (1ULL << top) < T.v.size()) top++;
		return tableV(T, B(e->a), top - 1, 0);
	}
	}
	fprintf(stderr, "blast: op %d\n", e->op); abort();
}
const std::vector<L> &blast(E e)
{
	if (memo.size() < allExprs.size()) memo.resize(allExprs.size() * 2 + 1024, nullptr);
	if (memo[e->id]) return *memo[e->id];
	std::vector<E> stk{e};
	while (!stk.empty()) {
		E x = stk.back();
		if (memo[x->id]) { stk.pop_back(); continue; }
		bool ready = true;
		for (E k : {x->a, x->b, x->c}) if (k && !memo[k->id]) { stk.push_back(k); ready = false; }
		if (!ready) continue;
		memo[x->id] = new V(one(x));
		stk.pop_back();
	}
	return *memo[e->id];
}
template <class F> static void eachAtom(uint32_t set, F f)
{
	for (auto &p : *sets[set]) { uint64_t b = p.second; while (b) { int i = __builtin_ctzll(b); b &= b - 1; f(p.first * 64 + i); } }
}

// ------------------------------------------------------------ cofactor
static std::unordered_map<uint32_t, L> coAtom, coSet;
static L coL(L l, const std::unordered_map<uint64_t, int> &fx);
static L coA(uint32_t a, const std::unordered_map<uint64_t, int> &fx)
{
	auto it = coAtom.find(a);
	if (it != coAtom.end()) return it->second;
	L r;
	if (atoms[a].in) {
		auto f = fx.find((uint64_t)atoms[a].var << 8 | atoms[a].bit);
		r = f == fx.end() ? ofAtom(a) : (L)f->second;
	} else {
		L x = coL(atoms[a].a, fx);
		r = x == 0 ? 0 : land(x, coL(atoms[a].b, fx));
	}
	return coAtom[a] = r;
}
static L coL(L l, const std::unordered_map<uint64_t, int> &fx)
{
	if (!(l >> 1)) return l;
	auto it = coSet.find(l >> 1);
	if (it != coSet.end()) return it->second ^ (l & 1);
	Set same; std::vector<L> rest;
	for (auto &p : *sets[l >> 1]) {
		uint64_t keep = p.second & maskAt(inMask, p.first) & ~maskAt(fixMask, p.first), b = p.second & ~keep;
		while (b) {
			int i = __builtin_ctzll(b); b &= b - 1;
			uint32_t a = p.first * 64 + i;
			L x = coA(a, fx);
			const Set &t = *sets[x >> 1];
			if (!(x & 1) && t.size() == 1 && t[0].first == p.first && t[0].second == 1ULL << i) keep |= 1ULL << i;
			else rest.push_back(x);
		}
		if (keep) same.push_back({p.first, keep});
	}
	L r = rest.empty() ? l & ~1u : intern(same) << 1;
	for (L x : rest) r = lxor(r, x);
	coSet[l >> 1] = r;
	return r ^ (l & 1);
}
L underFix(L l, const Fix &f)
{
	if (f.f.empty() || !(l >> 1)) return l;
	static std::unordered_map<uint64_t, int> fx; static std::vector<std::pair<uint32_t, std::pair<uint64_t, uint64_t>>> last;
	if (last != f.f) {
		coAtom.clear(); coSet.clear(); fx.clear();
		fixMask.assign(fixMask.size(), 0);
		last = f.f;
		for (auto &p : f.f) for (int b = 0; b < 64; b++) if (p.second.first >> b & 1) {
			fx[(uint64_t)p.first << 8 | b] = p.second.second >> b & 1;
			input(p.first, b);
			uint32_t i = inIdx[(uint64_t)p.first << 8 | b];
			if (fixMask.size() <= i / 64) fixMask.resize(i / 64 + 64, 0);
			fixMask[i / 64] |= 1ULL << (i % 64);
		}
	}
	return coL(l, fx);
}

// ------------------------------------------------------------ small supports
enum { MAXSUP = 13 };
static std::vector<std::vector<uint32_t> *> sup;	// atoms (inputs) an atom depends on; null: not computed; {~0}: too many
static const std::vector<uint32_t> &support(uint32_t a)
{
	if (sup.size() < atoms.size()) sup.resize(atoms.size() * 2 + 64, nullptr);
	if (sup[a]) return *sup[a];
	std::vector<uint32_t> r;
	if (atoms[a].in) r.push_back(a);
	else {
		bool big = false;
		for (L l : {atoms[a].a, atoms[a].b}) {
			if (big) break;
			std::vector<uint32_t> as;
			eachAtom(l >> 1, [&](uint32_t x) { as.push_back(x); });
			for (uint32_t x : as) {
				std::vector<uint32_t> s = support(x), u;
				if (!s.empty() && s[0] == ~0u) { big = true; break; }
				std::set_union(r.begin(), r.end(), s.begin(), s.end(), std::back_inserter(u));
				r.swap(u);
				if (r.size() > MAXSUP) { big = true; break; }
			}
		}
		if (big) r = {~0u};
	}
	if (sup.size() < atoms.size()) sup.resize(atoms.size() * 2 + 64, nullptr);
	return *(sup[a] = new std::vector<uint32_t>(r));
}
typedef std::vector<uint64_t> TT;
static TT ttAtom(uint32_t a, const std::vector<uint32_t> &in, std::unordered_map<uint32_t, TT> &m);
static TT ttL(L l, const std::vector<uint32_t> &in, std::unordered_map<uint32_t, TT> &m)
{
	size_t n = std::max<size_t>(1, (1u << in.size()) / 64); TT r(n, l & 1 ? ~0ULL : 0);
	eachAtom(l >> 1, [&](uint32_t a) { TT t = ttAtom(a, in, m); for (size_t i = 0; i < n; i++) r[i] ^= t[i]; });
	return r;
}
static TT ttAtom(uint32_t a, const std::vector<uint32_t> &in, std::unordered_map<uint32_t, TT> &m)
{
	auto it = m.find(a);
	if (it != m.end()) return it->second;
	size_t n = std::max<size_t>(1, (1u << in.size()) / 64); TT r(n);
	if (atoms[a].in) {
		static const uint64_t pat[6] = {0xaaaaaaaaaaaaaaaaULL, 0xccccccccccccccccULL, 0xf0f0f0f0f0f0f0f0ULL, 0xff00ff00ff00ff00ULL, 0xffff0000ffff0000ULL, 0xffffffff00000000ULL};
		size_t k = std::lower_bound(in.begin(), in.end(), a) - in.begin();
		for (size_t i = 0; i < n; i++) r[i] = k < 6 ? pat[k] : ((i >> (k - 6)) & 1 ? ~0ULL : 0);
	} else {
		TT x = ttL(atoms[a].a, in, m), y = ttL(atoms[a].b, in, m);
		for (size_t i = 0; i < n; i++) r[i] = x[i] & y[i];
	}
	return m[a] = r;
}
static L fromAnf(TT t, const std::vector<uint32_t> &in, size_t limit, bool &ok)
{
	size_t s = in.size(), n = 1u << s;
	// Moebius transform
	for (size_t k = 0; k < s; k++) {
		if (k < 6) {
			static const uint64_t lo[6] = {0x5555555555555555ULL, 0x3333333333333333ULL, 0x0f0f0f0f0f0f0f0fULL, 0x00ff00ff00ff00ffULL, 0x0000ffff0000ffffULL, 0x00000000ffffffffULL};
			for (auto &w : t) w ^= (w & lo[k]) << (1u << k);
		} else for (size_t i = 0; i < t.size(); i++) if (i >> (k - 6) & 1) t[i] ^= t[i ^ (1u << (k - 6))];
	}
	size_t cnt = 0;
	for (size_t i = 0; i < n; i++) cnt += t[i / 64] >> (i % 64) & 1;
	ok = cnt <= limit;
	if (!ok) return 0;
	L r = 0;
	for (size_t i = 0; i < n; i++) {
		if (!(t[i / 64] >> (i % 64) & 1)) continue;
		L m = 1;
		for (size_t k = 0; k < s; k++) if (i >> k & 1) m = land(m, ofAtom(in[k]));
		r = lxor(r, m);
	}
	return r;
}
static std::unordered_map<uint32_t, L> tidySet;
L tidy(L l)
{
	if (!(l >> 1)) return l;
	auto it = tidySet.find(l >> 1);
	if (it != tidySet.end()) return it->second ^ (l & 1);
	std::vector<uint32_t> as; Set ins;
	for (auto &p : *sets[l >> 1]) {
		uint64_t k = p.second & maskAt(inMask, p.first), b = p.second & ~k;
		if (k) ins.push_back({p.first, k});
		while (b) { int i = __builtin_ctzll(b); b &= b - 1; as.push_back(p.first * 64 + i); }
	}
	if (as.empty()) { tidySet[l >> 1] = l & ~1u; return l; }
	std::map<std::vector<uint32_t>, std::vector<uint32_t>> groups;
	L r = intern(ins) << 1;
	for (uint32_t a : as) {
		std::vector<uint32_t> s = support(a);
		if (s[0] == ~0u) r = lxor(r, land(tidy(atoms[a].a), tidy(atoms[a].b)));
		else groups[s].push_back(a);
	}
	for (auto &g : groups) {
		L raw = 0; bool ok = false; L n = 0;
		std::unordered_map<uint32_t, TT> m;
		size_t words = std::max<size_t>(1, (1u << g.first.size()) / 64); TT t(words, 0);
		for (uint32_t a : g.second) { raw = lxor(raw, ofAtom(a)); TT x = ttAtom(a, g.first, m); for (size_t i = 0; i < words; i++) t[i] ^= x[i]; }
		n = fromAnf(t, g.first, std::max<size_t>(8, g.second.size()), ok);
		r = lxor(r, ok ? n : raw);
	}
	tidySet[l >> 1] = r;
	return r ^ (l & 1);
}

// ------------------------------------------------------------ to z3
static std::unordered_map<uint32_t, Z3_ast> zSet, zAtom;
Z3_ast xagZ3(z3::context &c, L l)
{
	auto K = [&](Z3_ast a) { Z3_inc_ref(c, a); return a; };
	if (!(l >> 1)) return K(l & 1 ? Z3_mk_true(c) : Z3_mk_false(c));
	auto it = zSet.find(l >> 1);
	Z3_ast r = nullptr;
	if (it != zSet.end()) r = it->second;
	else {
		std::vector<uint32_t> as;
		eachAtom(l >> 1, [&](uint32_t a) { as.push_back(a); });
		for (uint32_t a : as) {
			Z3_ast x;
			auto f = zAtom.find(a);
			if (f != zAtom.end()) x = f->second;
			else {
				if (atoms[a].in) {
					VarInfo &v = vars[atoms[a].var];
					std::string n = v.name + "_" + std::to_string(v.idx);
					Z3_ast k = K(Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), v.w == 1 ? Z3_mk_bool_sort(c) : Z3_mk_bv_sort(c, v.w)));
					x = v.w == 1 ? k : K(Z3_mk_eq(c, K(Z3_mk_extract(c, atoms[a].bit, atoms[a].bit, k)), K(Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)))));
				} else {
					Z3_ast p[2] = {xagZ3(c, atoms[a].a), xagZ3(c, atoms[a].b)};
					x = K(Z3_mk_and(c, 2, p));
				}
				zAtom[a] = x;
			}
			r = r ? K(Z3_mk_xor(c, r, x)) : x;
		}
		zSet[l >> 1] = r;
	}
	return l & 1 ? K(Z3_mk_not(c, r)) : r;
}

bool xagLiteral(L l, uint32_t &var, uint32_t &bit, int &val)
{
	const Set &s = *sets[l >> 1];
	if (s.size() != 1 || __builtin_popcountll(s[0].second) != 1) return false;
	const Atom &a = atoms[s[0].first * 64 + __builtin_ctzll(s[0].second)];
	if (!a.in) return false;
	var = a.var; bit = a.bit; val = !(l & 1);
	return true;
}
bool xagConj(L l, L &a, L &b)
{
	const Set &s = *sets[l >> 1];
	if ((l & 1) || s.size() != 1 || __builtin_popcountll(s[0].second) != 1) return false;
	const Atom &t = atoms[s[0].first * 64 + __builtin_ctzll(s[0].second)];
	if (t.in) return false;
	a = t.a; b = t.b;
	return true;
}
// Gauss-Jordan over the members whose atoms are all input bits; fixed input bits
// come out in f, everything else is rewritten with what was eliminated.
bool xagLinear(std::vector<L> &q, Fix &f)
{
	std::vector<L> lin, rest;
	for (L l : q) {
		bool in = true;
		eachAtom(l >> 1, [&](uint32_t a) { if (!atoms[a].in) in = false; });
		(in ? lin : rest).push_back(l);
	}
	if (lin.size() < 2) return true;
	std::map<uint32_t, L> row;	// pivot atom -> row, reduced
	auto has = [&](L l, uint32_t a) { for (auto &p : *sets[l >> 1]) if (p.first == a / 64) return (bool)(p.second >> (a % 64) & 1); return false; };
	for (L l : lin) {
		l ^= 1;		// now: the exclusive-or is zero
		std::vector<uint32_t> as;
		eachAtom(l >> 1, [&](uint32_t a) { as.push_back(a); });
		for (uint32_t a : as) { auto it = row.find(a); if (it != row.end()) l = lxor(l, it->second); }
		if (l == 0) continue;
		if (l == 1) return false;
		uint32_t pv = ~0u; eachAtom(l >> 1, [&](uint32_t a) { if (pv == ~0u) pv = a; });
		for (auto &r : row) if (has(r.second, pv)) r.second = lxor(r.second, l);
		row[pv] = l;
	}
	std::map<uint32_t, std::pair<uint64_t, uint64_t>> m;
	q = rest;
	for (auto &r : row) {
		uint32_t v, b; int x;
		if (xagLiteral(r.second ^ 1, v, b, x)) { auto &p = m[v]; p.first |= 1ULL << b; p.second |= (uint64_t)x << b; }
		q.push_back(r.second ^ 1);
	}
	for (auto &p : m) f.f.push_back(p);
	return true;
}
void xagInputs(L l, std::vector<std::pair<uint32_t, uint32_t>> &out)
{
	std::vector<uint32_t> stk{l >> 1}; std::unordered_map<uint32_t, char> seen, seenA;
	while (!stk.empty()) {
		uint32_t x = stk.back(); stk.pop_back();
		if (!seen.emplace(x, 1).second) continue;
		eachAtom(x, [&](uint32_t a) {
			if (!seenA.emplace(a, 1).second) return;
			if (atoms[a].in) out.emplace_back(atoms[a].var, atoms[a].bit);
			else { stk.push_back(atoms[a].a >> 1); stk.push_back(atoms[a].b >> 1); }
		});
	}
}
}
