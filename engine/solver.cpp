#include "solver.h"
#include "xag.h"
#include <z3++.h>
#include <chrono>
#include <algorithm>
#include <cstdio>
#include <map>

namespace sx {

SolverStats st;
static z3::context *ctx;
static z3::solver *slv;
static std::vector<Z3_ast> cache;	// by expression id; bool for width 1
static unsigned tmo;

void solverInit(unsigned timeout_ms, const char *)
{
	tmo = timeout_ms;
	ctx = new z3::context();
	slv = nullptr;
}

// ---------------------------------------------------------------- evaluation
static std::vector<uint64_t> memoV;
static std::vector<uint32_t> memoG;
static uint32_t gen;

static uint64_t evalRec(E e, const Witness &w)
{
	if (e->op == CONST) return e->val;
	if (e->op == VAR) return w.get(e->val) & mask(e->w);
	if (memoG[e->id] == gen) return memoV[e->id];
	uint64_t r;
	switch (e->op) {
	case CONCAT: r = (evalRec(e->a, w) << e->b->w) | evalRec(e->b, w); break;
	case EXTRACT: r = (evalRec(e->a, w) >> e->val) & mask(e->w); break;
	case SEXT: { uint64_t x = evalRec(e->a, w); int aw = e->a->w; r = (aw < 64 && (x >> (aw - 1) & 1)) ? (x | ~mask(aw)) & mask(e->w) : x; break; }
	case ITE: r = evalRec(e->a, w) ? evalRec(e->b, w) : evalRec(e->c, w); break;
	case SELECT: { uint64_t i = evalRec(e->a, w); const auto &t = tables[e->val].v; r = i < t.size() ? t[i] : 0; break; }
	default:
		if (e->w == 1 && e->op == AND) { r = evalRec(e->a, w) && evalRec(e->b, w); break; }
		if (e->w == 1 && e->op == OR) { r = evalRec(e->a, w) || evalRec(e->b, w); break; }
		{ bool ok; r = foldBin(e->op, evalRec(e->a, w), evalRec(e->b, w), e->a->w, ok); }
	}
	memoG[e->id] = gen; memoV[e->id] = r;
	return r;
}
static void newGen()
{
	gen++;
	if (memoG.size() < allExprs.size()) { memoG.resize(allExprs.size() * 2 + 1024, 0); memoV.resize(memoG.size()); }
}
uint64_t evalE(E e, const Witness &w)
{
	if (e->op == CONST) return e->val;
	newGen();
	return evalRec(e, w);
}

// ---------------------------------------------------------------- variable sets
typedef std::vector<uint32_t> VSet;
static std::vector<VSet *> vsets;
static const VSet &varsOf(E e)
{
	if (e->id >= vsets.size()) vsets.resize(allExprs.size() + 1024, nullptr);
	if (vsets[e->id]) return *vsets[e->id];
	VSet *s = new VSet;
	std::vector<bool> seen;
	// iterative walk using generation marks
	newGen();
	std::vector<E> stk{e};
	while (!stk.empty()) {
		E x = stk.back(); stk.pop_back();
		if (memoG[x->id] == gen) continue;
		memoG[x->id] = gen;
		if (x->op == VAR) { s->push_back(x->val); continue; }
		if (x->id < vsets.size() && vsets[x->id] && x != e) {
			s->insert(s->end(), vsets[x->id]->begin(), vsets[x->id]->end());
			continue;
		}
		if (x->a) stk.push_back(x->a);
		if (x->b) stk.push_back(x->b);
		if (x->c) stk.push_back(x->c);
	}
	std::sort(s->begin(), s->end());
	s->erase(std::unique(s->begin(), s->end()), s->end());
	vsets[e->id] = s;
	return *s;
}

// ---------------------------------------------------------------- z3
// the context counts references; every term made here is kept
static inline Z3_ast K(Z3_ast a) { Z3_inc_ref(*ctx, a); return a; }
static inline Z3_sort K(Z3_sort a) { Z3_inc_ref(*ctx, (Z3_ast)a); return a; }
static Z3_ast tr(E e);
static Z3_ast keep(E e, Z3_ast a)
{
	if (e->id >= cache.size()) cache.resize(allExprs.size() + 4096, nullptr);
	Z3_inc_ref(*ctx, a);
	cache[e->id] = a;
	return a;
}
static Z3_ast bvOf(E e)
{
	Z3_ast a = tr(e);
	if (e->w != 1) return a;
	Z3_context c = *ctx;
	Z3_sort s = K(Z3_mk_bv_sort(c, 1));
	return K(Z3_mk_ite(c, a, K(Z3_mk_unsigned_int64(c, 1, s)), K(Z3_mk_unsigned_int64(c, 0, s))));
}
static Z3_ast boolOfBv1(Z3_ast a)
{
	Z3_context c = *ctx;
	return K(Z3_mk_eq(c, a, K(Z3_mk_unsigned_int64(c, 1, K(Z3_mk_bv_sort(c, 1))))));
}
static Z3_ast muxTree(const Table &T, Z3_ast idx, int iw, int bit, uint64_t base)
{
	Z3_context c = *ctx;
	Z3_sort s = K(Z3_mk_bv_sort(c, T.w));
	if (bit < 0 || base >= T.v.size())
		return K(Z3_mk_unsigned_int64(c, base < T.v.size() ? T.v[base] : 0, s));
	Z3_ast hi = muxTree(T, idx, iw, bit - 1, base | (1ULL << bit));
	Z3_ast lo = muxTree(T, idx, iw, bit - 1, base);
	if (hi == lo) return hi;
	return K(Z3_mk_ite(c, boolOfBv1(K(Z3_mk_extract(c, bit, bit, idx))), hi, lo));
}
static Z3_ast tr(E e)
{
	if (e->id < cache.size() && cache[e->id]) return cache[e->id];
	Z3_context c = *ctx;
	Z3_ast r = nullptr;
	switch (e->op) {
	case CONST:
		r = e->w == 1 ? (e->val ? K(Z3_mk_true(c)) : K(Z3_mk_false(c)))
			      : K(Z3_mk_unsigned_int64(c, e->val, K(Z3_mk_bv_sort(c, e->w))));
		break;
	case VAR: {
		std::string n = vars[e->val].name + "_" + std::to_string(vars[e->val].idx);
		r = K(Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()),
				e->w == 1 ? K(Z3_mk_bool_sort(c)) : K(Z3_mk_bv_sort(c, e->w))));
		break;
	}
	case CONCAT: r = K(Z3_mk_concat(c, bvOf(e->a), bvOf(e->b))); break;
	case EXTRACT: {
		r = K(Z3_mk_extract(c, e->val + e->w - 1, e->val, bvOf(e->a)));
		if (e->w == 1) r = boolOfBv1(r);
		break;
	}
	case SEXT: r = K(Z3_mk_sign_ext(c, e->w - e->a->w, bvOf(e->a))); break;
	case ITE: r = K(Z3_mk_ite(c, tr(e->a), tr(e->b), tr(e->c))); break;
	case SELECT: {
		const Table &T = tables[e->val];
		int top = 0;
		while (top < e->a->w && top < 63 && (1ULL << top) < T.v.size()) top++;
		r = muxTree(T, bvOf(e->a), e->a->w, top - 1, 0);
		// indices beyond the table never occur (bounds are checked first)
		if (e->w == 1) r = boolOfBv1(r);
		break;
	}
	case EQ:
		r = K(Z3_mk_eq(c, tr(e->a), tr(e->b))); break;
	case ULT: r = K(Z3_mk_bvult(c, bvOf(e->a), bvOf(e->b))); break;
	case ULE: r = K(Z3_mk_bvule(c, bvOf(e->a), bvOf(e->b))); break;
	case SLT: r = K(Z3_mk_bvslt(c, bvOf(e->a), bvOf(e->b))); break;
	case SLE: r = K(Z3_mk_bvsle(c, bvOf(e->a), bvOf(e->b))); break;
	default:
		if (e->w == 1 && (e->op == AND || e->op == OR || e->op == XOR)) {
			Z3_ast ab[2] = {tr(e->a), tr(e->b)};
			r = e->op == AND ? K(Z3_mk_and(c, 2, ab)) : e->op == OR ? K(Z3_mk_or(c, 2, ab)) : K(Z3_mk_xor(c, ab[0], ab[1]));
			break;
		}
		{
			Z3_ast a = bvOf(e->a), b = bvOf(e->b);
			switch (e->op) {
			case ADD: r = K(Z3_mk_bvadd(c, a, b)); break;
			case SUB: r = K(Z3_mk_bvsub(c, a, b)); break;
			case MUL: r = K(Z3_mk_bvmul(c, a, b)); break;
			case UDIV: r = K(Z3_mk_bvudiv(c, a, b)); break;
			case SDIV: r = K(Z3_mk_bvsdiv(c, a, b)); break;
			case UREM: r = K(Z3_mk_bvurem(c, a, b)); break;
			case SREM: r = K(Z3_mk_bvsrem(c, a, b)); break;
			case AND: r = K(Z3_mk_bvand(c, a, b)); break;
			case OR: r = K(Z3_mk_bvor(c, a, b)); break;
			case XOR: r = K(Z3_mk_bvxor(c, a, b)); break;
			case SHL: r = K(Z3_mk_bvshl(c, a, b)); break;
			case LSHR: r = K(Z3_mk_bvlshr(c, a, b)); break;
			case ASHR: r = K(Z3_mk_bvashr(c, a, b)); break;
			default: fprintf(stderr, "tr: op %d\n", e->op); abort();
			}
			if (e->w == 1) r = boolOfBv1(r);
		}
	}
	return keep(e, r);
}

struct VecHash {
	size_t operator()(const std::vector<uint32_t> &v) const {
		uint64_t h = v.size();
		for (uint32_t x : v) { h ^= x; h *= 0xff51afd7ed558ccdULL; h ^= h >> 29; }
		return h;
	}
};
struct CacheEnt { bool sat; std::vector<std::pair<uint32_t, uint64_t>> model; };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> qcache;

uint64_t linDecided;
static bool z3check(const std::vector<E> &cs, const VSet &vs, CacheEnt &out)
{
	auto t0 = std::chrono::steady_clock::now();
	if (!slv || st.z3 % 20000 == 19999) {
		delete slv;
		slv = new z3::solver(*ctx, z3::solver::simple());
		z3::params p(*ctx);
		if (tmo) p.set("timeout", tmo);
		slv->set(p);
	}
	bool hard = false;
	Z3_solver_push(*ctx, *slv);
	for (E c : cs) Z3_solver_assert(*ctx, *slv, tr(c));
	z3::check_result r = slv->check();
	(void)hard;
	if (r == z3::unknown) {
		Z3_solver_pop(*ctx, *slv, 1);
		throw SolverGaveUp();
	}
	out.sat = r == z3::sat;
	if (out.sat) {
		z3::model m = slv->get_model();
		for (uint32_t v : vs) {
			E ve = mkVar(vars[v].name, vars[v].idx, vars[v].w);
			Z3_ast res = nullptr;
			uint64_t x = 0;
			if (Z3_model_eval(*ctx, m, tr(ve), true, &res) && res) {
				z3::expr ex(*ctx, res);
				if (ve->w == 1) x = ex.is_true();
				else Z3_get_numeral_uint64(*ctx, res, &x);
			}
			out.model.emplace_back(v, x);
		}
	}
	Z3_solver_pop(*ctx, *slv, 1);
	double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
	st.z3time += dt; st.z3++;
	if (dt > st.maxq) st.maxq = dt;
	(out.sat ? st.z3sat : st.z3unsat)++;
	return out.sat;
}

// conditions of the form "bits of one variable equal a constant"
static bool litForm(E c, uint32_t &var, uint64_t &msk, uint64_t &val)
{
	bool neg = false;
	if (c->op == XOR && c->w == 1 && c->b->isTrue()) { neg = true; c = c->a; }
	E x = c; uint64_t k = 1;
	if (c->op == EQ && c->b->isConst()) { x = c->a; k = c->b->val; }
	else if (c->w != 1) return false;
	uint64_t lo = 0; int w = x->w;
	if (x->op == EXTRACT) { lo = x->val; x = x->a; }
	if (x->op != VAR) return false;
	var = x->val; msk = mask(w) << lo;
	val = (k & mask(w)) << lo;
	if (neg) { if (w == 1) val ^= msk; else val ^= (1ULL << lo); }
	return true;
}

// facts as normal forms, and the input bits they fix
struct Facts { Fix fix; std::vector<L> f; bool contra = false; };
static const Facts &factsOf(const std::vector<E> &pc)
{
	static std::vector<E> last; static Facts F; static std::map<uint32_t, std::pair<uint64_t, uint64_t>> m;
	if (last == pc && !pc.empty()) return F;
	std::vector<L> todo;
	bool ext = !last.empty() && last.size() < pc.size() && std::equal(last.begin(), last.end(), pc.begin());
	size_t from = ext ? last.size() : 0;
	if (ext) todo = F.f; else { m.clear(); F.fix.f.clear(); }
	for (size_t i = from; i < pc.size(); i++) todo.push_back(blast(pc[i])[0]);
	last = pc; F.f.clear(); F.contra = false;
	for (bool again = true; again; ) {
		again = false;
		std::vector<L> rest;
		for (size_t i = 0; i < todo.size(); i++) {
			L t = tidy(underFix(todo[i], F.fix)), ca, cb;
			uint32_t v, b; int x;
			if (xagConj(t, ca, cb)) { todo.push_back(ca); todo.push_back(cb); continue; }
			if (!(t >> 1)) { if (!t) F.contra = true; continue; }
			if (xagLiteral(t, v, b, x)) {
				auto &p = m[v];
				if (p.first >> b & 1) { if ((int)(p.second >> b & 1) != x) F.contra = true; }
				else { p.first |= 1ULL << b; p.second |= (uint64_t)x << b; again = true; }
				continue;
			}
			rest.push_back(t);
		}
		todo.swap(rest);
		F.fix.f.clear();
		for (auto &p : m) F.fix.f.push_back(p);
	}
	F.f = todo;
	return F;
}
int linLook(const std::vector<E> &pc, E e, const std::string &pfx, uint64_t &v, uint32_t &var, int &bit)
{
	const Fix &f = factsOf(pc).fix;
	std::vector<L> b = blast(e);
	v = 0; bool all = true;
	for (int i = 0; i < e->w; i++) {
		L l = tidy(underFix(b[i], f)); b[i] = l;
		if (l >> 1) all = false; else v |= (uint64_t)(l & 1) << i;
	}
	if (all) { linDecided++; return 1; }
	if (pfx.empty()) return 0;
	std::vector<std::pair<uint32_t, uint32_t>> in;
	for (L l : b) if (l >> 1) xagInputs(l, in);
	uint32_t bv = ~0u; int bb = -1;
	for (auto &p : in) {
		if (vars[p.first].name.compare(0, pfx.size(), pfx)) return 0;
		if (p.first < bv || (p.first == bv && (int)p.second > bb)) { bv = p.first; bb = p.second; }
	}
	var = bv; bit = bb;
	return 2;
}

struct InSet { std::vector<uint64_t> b; };	// input bits, var << 8 | bit
static const std::vector<uint64_t> &inputsOf(L l)
{
	static std::unordered_map<uint32_t, std::vector<uint64_t>> m;
	auto it = m.find(l >> 1);
	if (it != m.end()) return it->second;
	std::vector<std::pair<uint32_t, uint32_t>> in; xagInputs(l, in);
	std::vector<uint64_t> r;
	for (auto &p : in) r.push_back((uint64_t)p.first << 8 | p.second);
	std::sort(r.begin(), r.end());
	return m[l >> 1] = r;
}
static bool linSat(const std::vector<E> &pc, E c, const WP &w, WP &out)
{
	const Facts &F = factsOf(pc);
	L l = tidy(underFix(blast(c)[0], F.fix));
	if (l == 0 || F.contra) { linDecided++; return false; }
	const std::vector<L> &facts = F.f; std::vector<L> q{l};
	for (L f : facts) if (f == (l ^ 1)) { linDecided++; return false; }
	std::vector<uint64_t> in = inputsOf(l);
	std::vector<char> used(facts.size(), 0);
	for (bool grew = true; grew; ) {
		grew = false;
		for (size_t i = 0; i < facts.size(); i++) {
			if (used[i]) continue;
			const std::vector<uint64_t> &fi = inputsOf(facts[i]);
			std::vector<uint64_t> u, x;
			std::set_intersection(in.begin(), in.end(), fi.begin(), fi.end(), std::back_inserter(x));
			if (x.empty()) continue;
			used[i] = 1; q.push_back(facts[i]); grew = true;
			std::set_union(in.begin(), in.end(), fi.begin(), fi.end(), std::back_inserter(u));
			in.swap(u);
		}
	}
	std::sort(q.begin(), q.end()); q.erase(std::unique(q.begin(), q.end()), q.end());
	auto it = qcache.find(q);
	if (it == qcache.end()) {
		CacheEnt ent;
		auto t0 = std::chrono::steady_clock::now();
		if (!slv) { slv = new z3::solver(*ctx, z3::solver::simple()); z3::params p(*ctx); if (tmo) p.set("timeout", tmo); slv->set(p); }
		// exclusive-or elimination first
		std::vector<L> z = q; bool contra = false;
		for (int round = 0; round < 64 && !contra; round++) {
			std::vector<L> flat, todo = z; L ca, cb;
			while (!todo.empty()) {
				L x = todo.back(); todo.pop_back();
				if (x == 1) continue;
				if (x == 0) { contra = true; break; }
				if (xagConj(x, ca, cb)) { todo.push_back(ca); todo.push_back(cb); } else flat.push_back(x);
			}
			if (contra) break;
			std::sort(flat.begin(), flat.end()); flat.erase(std::unique(flat.begin(), flat.end()), flat.end());
			Fix fx;
			if (!xagLinear(flat, fx)) { contra = true; break; }
			std::vector<L> n;
			for (L x : flat) {
				uint32_t v, b; int val;
				bool lit = xagLiteral(x, v, b, val);
				n.push_back(lit ? x : tidy(underFix(x, fx)));
			}
			std::sort(n.begin(), n.end()); n.erase(std::unique(n.begin(), n.end()), n.end());
			if (n == z) break;
			z = n;
		}
		Z3_solver_push(*ctx, *slv);
		if (contra) z = {0};
		for (L f : z) Z3_solver_assert(*ctx, *slv, xagZ3(*ctx, f));
		z3::check_result r = slv->check();
		if (r == z3::unknown) { Z3_solver_pop(*ctx, *slv, 1); throw SolverGaveUp(); }
		ent.sat = r == z3::sat;
		if (ent.sat) {
			z3::model m = slv->get_model();
			uint32_t last = ~0u; uint64_t x = 0;
			for (uint64_t b : in) {
				uint32_t v = b >> 8;
				if (v != last) {
					last = v; x = 0; Z3_ast res = nullptr;
					E ve = mkVar(vars[v].name, vars[v].idx, vars[v].w);
					if (Z3_model_eval(*ctx, m, tr(ve), true, &res) && res) {
						z3::expr ex(*ctx, res);
						if (ve->w == 1) x = ex.is_true(); else Z3_get_numeral_uint64(*ctx, res, &x);
					}
				}
				ent.model.emplace_back(b & 0xff, (uint64_t)v << 1 | (x >> (b & 0xff) & 1));
			}
		}
		Z3_solver_pop(*ctx, *slv, 1);
		double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
		st.z3time += dt; st.z3++;
		if (dt > st.maxq) st.maxq = dt;
		(ent.sat ? st.z3sat : st.z3unsat)++;
		it = qcache.emplace(q, ent).first;
	} else st.cached++;
	if (!it->second.sat) return false;
	auto nw = std::make_shared<Witness>(*w);
	for (auto &p : it->second.model) {
		uint32_t v = p.second >> 1;
		nw->set(v, (nw->get(v) & ~(1ULL << p.first)) | (p.second & 1) << p.first);
	}
	out = nw;
	newGen();
	if (!evalRec(c, *nw)) { fprintf(stderr, "internal error: model does not satisfy query: %s\n", show(c, 8).c_str()); exit(3); }
	for (E x : pc) if (!evalRec(x, *nw)) { fprintf(stderr, "internal error: model does not satisfy fact: %s\n", show(x, 8).c_str()); exit(3); }
	return true;
}

bool satisfiable(const std::vector<E> &pc, E c, const WP &w, WP &out)
{
	st.queries++;
	if (c->isFalse()) return false;
	if (c->isTrue()) { out = w; return true; }
	if (evalE(c, *w)) { st.witness++; out = w; return true; }
	if (linMode) return linSat(pc, c, w, out);

	// slice: conjuncts transitively sharing variables with c
	std::vector<E> cs{c};
	VSet vs = varsOf(c);
	std::vector<char> used(pc.size(), 0);
	for (bool grew = true; grew; ) {
		grew = false;
		for (size_t i = 0; i < pc.size(); i++) {
			if (used[i]) continue;
			const VSet &pv = varsOf(pc[i]);
			bool hit = false;
			for (uint32_t v : pv) if (std::binary_search(vs.begin(), vs.end(), v)) { hit = true; break; }
			if (!hit) continue;
			used[i] = 1; cs.push_back(pc[i]);
			VSet u; std::set_union(vs.begin(), vs.end(), pv.begin(), pv.end(), std::back_inserter(u));
			if (u.size() != vs.size()) { vs.swap(u); grew = true; }
		}
	}
	// literal conflict / local repair
	uint32_t lv; uint64_t lm, lx;
	if (litForm(c, lv, lm, lx)) {
		auto nw = std::make_shared<Witness>(*w);
		nw->set(lv, (nw->get(lv) & ~lm) | lx);
		newGen();
		bool ok = true;
		for (E x : cs) if (!evalRec(x, *nw)) { ok = false; break; }
		if (ok) { st.repaired++; out = nw; return true; }
	}
	E nc = mkNot(c);
	for (size_t i = 1; i < cs.size(); i++) if (cs[i] == nc) { st.cached++; return false; }

	std::vector<uint32_t> key;
	for (E x : cs) key.push_back(x->id);
	std::sort(key.begin(), key.end());
	key.erase(std::unique(key.begin(), key.end()), key.end());
	auto it = qcache.find(key);
	if (it == qcache.end()) {
		CacheEnt ent;
		z3check(cs, vs, ent);
		if (qcache.size() > 400000) qcache.clear();
		it = qcache.emplace(key, ent).first;
	} else st.cached++;
	if (!it->second.sat) return false;
	auto nw = std::make_shared<Witness>(*w);
	for (auto &p : it->second.model) nw->set(p.first, p.second);
	out = nw;
	newGen();
	for (E x : cs) if (!evalRec(x, *nw)) { fprintf(stderr, "internal error: model does not satisfy query: %s\n", show(x, 8).c_str()); exit(3); }
	return true;
}
}
