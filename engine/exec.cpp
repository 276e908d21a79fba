// Symbolic executor for LLVM IR (the compiler's intermediate representation
// of /repo's sources plus a harness).
#include <pthread.h>
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/APInt.h>
#include <chrono>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <deque>
#include <algorithm>
#include <cassert>
#include <unistd.h>

using namespace sx;
namespace L = llvm;

static void die(const std::string &s) { fprintf(stderr, "engine error: %s\n", s.c_str()); exit(3); }

// ------------------------------------------------------------------ program
struct Opnd { int32_t reg = -1; uint64_t imm = 0; };
enum Code : uint8_t {
	C_BIN, C_ICMP, C_SELECT, C_ZEXT, C_SEXT, C_TRUNC, C_MOVE, C_GEP, C_LOAD, C_STORE,
	C_ALLOCA, C_BR, C_CBR, C_SWITCH, C_RET, C_CALL, C_CALLI, C_INTR, C_UNREACH, C_EXTRACTV, C_INSERTV,
	C_OVF
};
enum Intr { I_NONE, I_SYM, I_PARAM, I_ASSUME, I_ASSERT, I_COVER, I_CONC, I_TRY, I_CRASH, I_JOIN, I_MERGEABLE,
	I_NOTE, I_BUDGET, I_QEND, I_KNOWN, I_MEMCPY, I_MEMSET, I_MEMCMP, I_NOP, I_UMIN, I_UMAX, I_SMIN, I_SMAX, I_ABS, I_CTPOP,
	I_CTLZ, I_CTTZ, I_BSWAP, I_FSHL, I_FSHR, I_USUBSAT, I_UADDSAT, I_TRAP, I_ASSUMEX, I_BITREV, I_STRLEN };
struct Func;
struct GepIdx { Opnd o; int w; int64_t scale; };
struct Ins {
	Code code; uint8_t w = 0, w2 = 0; uint8_t sub = 0;
	int32_t dst = -1; int n = 1;
	Opnd a, b, c;
	int t0 = 0, t1 = 0;
	std::vector<Opnd> args; std::vector<int> argw;
	std::vector<GepIdx> gi; int64_t goff = 0;
	std::vector<std::pair<uint64_t, int>> cases;
	Func *callee = nullptr; int intr = 0; uint64_t size = 0;
};
struct Phi { int dst; int w; std::vector<std::pair<int, Opnd>> in; };
struct Block { std::vector<Phi> phis; std::vector<Ins> ins; std::vector<int> succ; bool seen = false;
	std::vector<bool> liveIn; };
struct Func {
	std::string name; bool repo = false; std::vector<Block> bb; int nregs = 0; std::vector<int> argreg; int id;
	uint64_t execs = 0; bool live = false;
	std::map<std::pair<int,int>, std::vector<int>> liveAt;
	bool declOnly = true;
};
static std::vector<Func *> funcs;
static std::vector<L::Module *> mods;
static std::map<std::string, Func *> extFuncs;
static std::map<const L::Function *, Func *> funcOf;

// ------------------------------------------------------------------ memory
static const int CH = 128;
static const E UNINIT = (E)1;
struct Chunk {
	int rc = 1; uint8_t b[CH]; E *s = nullptr; uint64_t h = 0;
	Chunk() {}
	Chunk(const Chunk &o) : rc(1) { memcpy(b, o.b, CH); if (o.s) { s = new E[CH]; memcpy(s, o.s, sizeof(E) * CH); } }
	~Chunk() { delete[] s; }
	void needS() { if (!s) { s = new E[CH]; memset(s, 0, sizeof(E) * CH); } }
};
struct Obj {
	int rc = 1; uint32_t size; bool ro = false; uint8_t kind = 0; uint32_t mrgLo = 0, mrgHi = 0;
	std::vector<Chunk *> ch; std::string name;
	Obj(uint32_t sz, bool uninit) : size(sz) {
		int n = (sz + CH - 1) / CH;
		for (int i = 0; i < n; i++) {
			Chunk *c = new Chunk(); memset(c->b, 0, CH);
			if (uninit) { c->needS(); for (int j = 0; j < CH; j++) c->s[j] = UNINIT; }
			ch.push_back(c);
		}
	}
	Obj(const Obj &o) : rc(1), size(o.size), ro(o.ro), kind(o.kind), mrgLo(o.mrgLo), mrgHi(o.mrgHi), ch(o.ch), name(o.name) { for (Chunk *c : ch) c->rc++; }
	~Obj() { for (Chunk *c : ch) if (!--c->rc) delete c; }
};
struct ORef {
	Obj *p = nullptr;
	ORef() {} ORef(Obj *x) : p(x) {}
	ORef(const ORef &o) : p(o.p) { if (p) p->rc++; }
	ORef(ORef &&o) : p(o.p) { o.p = nullptr; }
	ORef &operator=(const ORef &o) { if (o.p) o.p->rc++; drop(); p = o.p; return *this; }
	ORef &operator=(ORef &&o) { if (this != &o) { drop(); p = o.p; o.p = nullptr; } return *this; }
	void drop() { if (p && !--p->rc) delete p; p = nullptr; }
	~ORef() { drop(); }
};
static const uint64_t AOFF = 0x10000000;	// offset 0 of an object within its 32-bit window
static uint64_t addrOf(uint32_t id, int64_t off = 0) { return ((uint64_t)(id + 1) << 32) + AOFF + off; }
static uint32_t idOf(uint64_t a) { return (uint32_t)(a >> 32) - 1; }
static int64_t offOf(uint64_t a) { return (int64_t)(a & 0xffffffffULL) - (int64_t)AOFF; }

struct Val { uint64_t c; E e; };
static Val V(uint64_t c) { return {c, nullptr}; }
static inline Val VE(E e) { if (e->isConst()) return {e->val, nullptr}; return {0, e}; }
static inline E EX(const Val &v, int w) { return v.e ? v.e : mkConst(v.c, w); }

struct Frame { Func *f; int bb = 0, ip = 0, prev = -1; int retDst = -1, retN = 0; uint32_t objBase = 0; bool tryMark = false; std::vector<Val> r; };
struct State {
	std::vector<Frame> fr; std::vector<ORef> objs; std::vector<E> pc; WP w; uint64_t steps = 0, budget = 0; uint64_t budgetAt = 0;
	int joins = 0; bool atJoin = false;
};

// ------------------------------------------------------------------ globals
static std::vector<ORef> globals;
static std::map<const L::GlobalValue *, uint32_t> gvId;
static std::map<std::string, uint32_t> extGv;
static std::map<std::string, uint64_t> params;
static bool checkUninit = false;
static uint64_t stepLimit = 400000000ULL, totalSteps = 0;
static double timeLimit = 1e9;
static std::chrono::steady_clock::time_point T0;
static std::map<std::string, uint64_t> covers, known;
static uint64_t nPaths = 0, nForks = 0, nMerged = 0, nJoins = 0, nAssertC = 0, nAssertS = 0, nAssumeCut = 0, nQEnd = 0, nConc = 0, nMemSym = 0, nUninitChk = 0, maxStates = 0;
static int maxSamples = 0, nSamples = 0;
static std::set<std::string> assertKinds;
static std::map<std::string, uint64_t> rejectWhy;
static const char *cexFile = "cex.txt"; static const char *outFile = nullptr;
static std::vector<State *> active, waiting;
static size_t waitMax = 2000;	// executions parked at a join before those present are merged
static uint64_t seedSalt = 0; static bool verbose = false;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

static void report(const char *status, const std::string &what, const std::string &where)
{
	FILE *f = outFile ? fopen(outFile, "w") : stdout;
	auto esc = [](const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c >= 32) o += c; } return o; };
	fprintf(f, "{\"status\":\"%s\",\"what\":\"%s\",\"where\":\"%s\",\"paths\":%llu,\"forks\":%llu,\"joins\":%llu,\"merged\":%llu,"
		"\"asserts_concrete\":%llu,\"asserts_solver\":%llu,\"assumed_away\":%llu,\"out_of_bounds_ends\":%llu,\"case_splits\":%llu,\"linear_decided\":%llu,\"mem_checks_solver\":%llu,\"uninit_checks\":%llu,"
		"\"steps\":%llu,\"queries\":%llu,\"by_witness\":%llu,\"by_repair\":%llu,\"cached\":%llu,\"z3\":%llu,\"z3_sat\":%llu,\"z3_unsat\":%llu,\"z3_time\":%.3f,\"z3_max\":%.3f,\"wall\":%.2f,\"exprs\":%zu,\"sym_vars\":%zu,\"pending\":%zu,\"max_states\":%llu,\"samples\":%d",
		status, esc(what).c_str(), esc(where).c_str(), (unsigned long long)nPaths, (unsigned long long)nForks, (unsigned long long)nJoins, (unsigned long long)nMerged,
		(unsigned long long)nAssertC, (unsigned long long)nAssertS, (unsigned long long)nAssumeCut, (unsigned long long)nQEnd, (unsigned long long)nConc, (unsigned long long)linDecided, (unsigned long long)nMemSym, (unsigned long long)nUninitChk,
		(unsigned long long)totalSteps, (unsigned long long)st.queries, (unsigned long long)st.witness, (unsigned long long)st.repaired, (unsigned long long)st.cached, (unsigned long long)st.z3, (unsigned long long)st.z3sat, (unsigned long long)st.z3unsat, st.z3time, st.maxq, elapsed(), allExprs.size(), vars.size(), active.size() + waiting.size(), (unsigned long long)maxStates, nSamples);
	fprintf(f, ",\"functions\":{");
	bool first = true;
	for (Func *fn : funcs) if (fn->repo && fn->execs) {
		int seen = 0; for (auto &b : fn->bb) seen += b.seen;
		fprintf(f, "%s\"%s\":[%llu,%d,%zu]", first ? "" : ",", fn->name.c_str(), (unsigned long long)fn->execs, seen, fn->bb.size());
		first = false;
	}
	fprintf(f, "},\"covers\":{"); first = true;
	for (auto &c : covers) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(c.first).c_str(), (unsigned long long)c.second); first = false; }
	fprintf(f, "},\"known\":{"); first = true;
	for (auto &c : known) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(c.first).c_str(), (unsigned long long)c.second); first = false; }
	fprintf(f, "},\"assertions\":["); first = true;
	for (auto &c : assertKinds) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(c).c_str()); first = false; }
	fprintf(f, "]}\n");
	if (outFile) fclose(f); else fflush(f);
}

static void dumpInputs(FILE *f, const WP &w)
{
	for (auto &p : params) fprintf(f, "P %s %llu\n", p.first.c_str(), (unsigned long long)p.second);
	for (size_t i = 0; i < vars.size(); i++)
		if (!vars[i].uninit)
			fprintf(f, "S %s %u %llu\n", vars[i].name.c_str(), vars[i].idx, (unsigned long long)(w->get(i) & mask(vars[i].w)));
}
static std::string sampleBase; static uint64_t nextSample = 1;
static void sample(State &s)	// inputs of a completed execution, to be run natively
{
	if (nSamples >= maxSamples || nPaths < nextSample) return;
	nextSample = nPaths * 4;
	FILE *f = fopen((sampleBase + "." + std::to_string(nSamples)).c_str(), "w");
	if (!f) return;
	nSamples++;
	dumpInputs(f, s.w); fclose(f);
}
static void violation(State &s, const std::string &what, const WP &w)
{
	std::string where;
	for (auto it = s.fr.rbegin(); it != s.fr.rend(); ++it) where += (where.empty() ? "" : " < ") + it->f->name;
	FILE *f = fopen(cexFile, "w");
	if (f) {
		fprintf(f, "# %s\n# in %s\n", what.c_str(), where.c_str());
		dumpInputs(f, w);
		fclose(f);
	}
	report("violation", what, where);
	fflush(stdout);
	_exit(1);
}

// ------------------------------------------------------------------ compile
static int widthOf(L::Type *t)
{
	if (t->isPointerTy()) return 64;
	if (t->isIntegerTy()) { int w = t->getIntegerBitWidth(); if (w > 64) die("integer wider than 64 bits"); return w; }
	die("unsupported type"); return 0;
}
static int leaves(L::Type *t)
{
	if (t->isVoidTy()) return 0;
	if (auto *s = L::dyn_cast<L::StructType>(t)) { int n = 0; for (auto *e : s->elements()) n += leaves(e); return n; }
	if (auto *s = L::dyn_cast<L::ArrayType>(t)) return s->getNumElements() * leaves(s->getElementType());
	return 1;
}
static int leafOff(L::Type *t, L::ArrayRef<unsigned> idx)
{
	if (idx.empty()) return 0;
	if (auto *s = L::dyn_cast<L::StructType>(t)) {
		int n = 0; for (unsigned i = 0; i < idx[0]; i++) n += leaves(s->getElementType(i));
		return n + leafOff(s->getElementType(idx[0]), idx.slice(1));
	}
	auto *a = L::cast<L::ArrayType>(t);
	return idx[0] * leaves(a->getElementType()) + leafOff(a->getElementType(), idx.slice(1));
}
static Func *getFunc(const L::Function *F)
{
	auto it = funcOf.find(F);
	if (it != funcOf.end()) return it->second;
	if (F->isDeclaration()) {
		auto e = extFuncs.find(F->getName().str());
		if (e != extFuncs.end()) return funcOf[F] = e->second;
		return nullptr;
	}
	die("unknown function " + F->getName().str()); return nullptr;
}
static uint64_t constAddr(const L::GlobalValue *g)
{
	if (auto *F = L::dyn_cast<L::Function>(g)) {
		Func *f = getFunc(F);
		if (!f) die("address of undefined function " + F->getName().str());
		return 0xF000000000000000ULL + f->id * 16;
	}
	auto it = gvId.find(g);
	if (it != gvId.end()) return addrOf(it->second);
	auto e = extGv.find(g->getName().str());
	if (e != extGv.end()) return addrOf(e->second);
	die("undefined global " + g->getName().str()); return 0;
}
static uint64_t constVal(const L::Constant *c, const L::DataLayout &dl)
{
	if (auto *ci = L::dyn_cast<L::ConstantInt>(c)) { if (ci->getBitWidth() > 64) die("wide constant"); return ci->getZExtValue(); }
	if (L::isa<L::ConstantPointerNull>(c)) return 0;
	if (L::isa<L::UndefValue>(c)) return 0;
	if (auto *g = L::dyn_cast<L::GlobalAlias>(c)) return constVal(g->getAliasee(), dl);
	if (auto *g = L::dyn_cast<L::GlobalValue>(c)) return constAddr(g);
	if (auto *ce = L::dyn_cast<L::ConstantExpr>(c)) {
		switch (ce->getOpcode()) {
		case L::Instruction::GetElementPtr: {
			L::APInt off(64, 0);
			if (!L::cast<L::GEPOperator>(ce)->accumulateConstantOffset(dl, off)) die("const gep");
			return constVal(ce->getOperand(0), dl) + off.getSExtValue();
		}
		case L::Instruction::PtrToInt: case L::Instruction::IntToPtr: case L::Instruction::BitCast:
			return constVal(ce->getOperand(0), dl);
		case L::Instruction::Trunc: return constVal(ce->getOperand(0), dl) & mask(widthOf(ce->getType()));
		case L::Instruction::Sub: return (constVal(ce->getOperand(0), dl) - constVal(ce->getOperand(1), dl)) & mask(widthOf(ce->getType()));
		case L::Instruction::Add: return (constVal(ce->getOperand(0), dl) + constVal(ce->getOperand(1), dl)) & mask(widthOf(ce->getType()));
		default: die("const expr");
		}
	}
	die("constant kind"); return 0;
}
static void initGlobal(uint8_t *dst, const L::Constant *c, const L::DataLayout &dl)
{
	if (L::isa<L::ConstantAggregateZero>(c) || L::isa<L::UndefValue>(c)) return;
	if (auto *cds = L::dyn_cast<L::ConstantDataSequential>(c)) {
		auto r = cds->getRawDataValues(); memcpy(dst, r.data(), r.size()); return;
	}
	if (auto *cs = L::dyn_cast<L::ConstantStruct>(c)) {
		auto *sl = dl.getStructLayout(cs->getType());
		for (unsigned i = 0; i < cs->getNumOperands(); i++) initGlobal(dst + (uint64_t)sl->getElementOffset(i), cs->getOperand(i), dl);
		return;
	}
	if (auto *ca = L::dyn_cast<L::ConstantArray>(c)) {
		uint64_t es = dl.getTypeAllocSize(ca->getType()->getElementType());
		for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobal(dst + i * es, ca->getOperand(i), dl);
		return;
	}
	uint64_t v = constVal(c, dl); uint64_t n = dl.getTypeStoreSize(c->getType());
	memcpy(dst, &v, n);
}
static int intrinsicByName(const std::string &n)
{
	static const std::map<std::string, int> m = {
		{"vx_sym", I_SYM}, {"vx_param", I_PARAM}, {"vx_assume", I_ASSUME}, {"vx_assert", I_ASSERT}, {"vx_cover", I_COVER},
		{"vx_concretize", I_CONC}, {"vx_try", I_TRY}, {"vx_crash", I_CRASH}, {"vx_join", I_JOIN}, {"vx_mergeable", I_MERGEABLE},
		{"vx_note", I_NOTE}, {"vx_budget", I_BUDGET}, {"vx_quiet_end", I_QEND}, {"vx_known", I_KNOWN},
		{"memcpy", I_MEMCPY}, {"memmove", I_MEMCPY}, {"memset", I_MEMSET}, {"memcmp", I_MEMCMP}, {"bcmp", I_MEMCMP}, {"strlen", I_STRLEN},
		{"abort", I_TRAP}, {"__assert_fail", I_TRAP} };
	auto it = m.find(n);
	if (it != m.end()) return it->second;
	auto pre = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
	if (pre("llvm.memcpy") || pre("llvm.memmove")) return I_MEMCPY;
	if (pre("llvm.memset")) return I_MEMSET;
	if (pre("llvm.lifetime") || pre("llvm.dbg") || pre("llvm.donothing") || pre("llvm.experimental.noalias") || pre("llvm.prefetch")) return I_NOP;
	if (pre("llvm.assume")) return I_NOP;
	if (pre("llvm.umin")) return I_UMIN;
	if (pre("llvm.umax")) return I_UMAX;
	if (pre("llvm.smin")) return I_SMIN;
	if (pre("llvm.smax")) return I_SMAX;
	if (pre("llvm.abs")) return I_ABS;
	if (pre("llvm.ctpop")) return I_CTPOP;
	if (pre("llvm.ctlz")) return I_CTLZ;
	if (pre("llvm.cttz")) return I_CTTZ;
	if (pre("llvm.bswap")) return I_BSWAP;
	if (pre("llvm.bitreverse")) return I_BITREV;
	if (pre("llvm.fshl")) return I_FSHL;
	if (pre("llvm.fshr")) return I_FSHR;
	if (pre("llvm.usub.sat")) return I_USUBSAT;
	if (pre("llvm.uadd.sat")) return I_UADDSAT;
	if (pre("llvm.trap") || pre("llvm.ubsantrap")) return I_TRAP;
	return I_NONE;
}

static void compileFunc(const L::Function &F, Func *f, const L::DataLayout &dl)
{
	std::map<const L::Value *, int> reg; std::map<const L::BasicBlock *, int> bbi;
	int nr = 0;
	for (auto &a : F.args()) { reg[&a] = nr; f->argreg.push_back(nr++); }
	int bi = 0;
	for (auto &B : F) { bbi[&B] = bi++; for (auto &I : B) if (!I.getType()->isVoidTy()) { reg[&I] = nr; nr += std::max(1, leaves(I.getType())); } }
	f->nregs = nr; f->bb.resize(bi); f->declOnly = false;
	auto opn = [&](const L::Value *v) {
		Opnd o;
		auto it = reg.find(v);
		if (it != reg.end()) { o.reg = it->second; return o; }
		if (auto *c = L::dyn_cast<L::Constant>(v)) {
			if (leaves(c->getType()) > 1 || c->getType()->isStructTy()) { return o; }
			o.imm = constVal(c, dl); return o;
		}
		die("operand"); return o;
	};
	for (auto &B : F) {
		Block &b = f->bb[bbi[&B]];
		for (auto *S : L::successors(&B)) b.succ.push_back(bbi[S]);
		for (auto &I : B) {
			Ins x; x.code = C_MOVE;
			if (!I.getType()->isVoidTy()) { x.dst = reg[&I]; x.n = leaves(I.getType()); }
			auto scalar = [&]() { return widthOf(I.getType()); };
			if (auto *P = L::dyn_cast<L::PHINode>(&I)) {
				Phi p; p.dst = x.dst; p.w = scalar();
				for (unsigned i = 0; i < P->getNumIncomingValues(); i++) p.in.push_back({bbi[P->getIncomingBlock(i)], opn(P->getIncomingValue(i))});
				b.phis.push_back(p); continue;
			}
			if (auto *bo = L::dyn_cast<L::BinaryOperator>(&I)) {
				x.code = C_BIN; x.w = scalar(); x.a = opn(bo->getOperand(0)); x.b = opn(bo->getOperand(1));
				switch (bo->getOpcode()) {
				case L::Instruction::Add: x.sub = ADD; break; case L::Instruction::Sub: x.sub = SUB; break;
				case L::Instruction::Mul: x.sub = MUL; break; case L::Instruction::UDiv: x.sub = UDIV; break;
				case L::Instruction::SDiv: x.sub = SDIV; break; case L::Instruction::URem: x.sub = UREM; break;
				case L::Instruction::SRem: x.sub = SREM; break; case L::Instruction::And: x.sub = AND; break;
				case L::Instruction::Or: x.sub = OR; break; case L::Instruction::Xor: x.sub = XOR; break;
				case L::Instruction::Shl: x.sub = SHL; break; case L::Instruction::LShr: x.sub = LSHR; break;
				case L::Instruction::AShr: x.sub = ASHR; break;
				default: die("binary operator");
				}
			} else if (auto *ic = L::dyn_cast<L::ICmpInst>(&I)) {
				x.code = C_ICMP; x.w = widthOf(ic->getOperand(0)->getType()); x.a = opn(ic->getOperand(0)); x.b = opn(ic->getOperand(1));
				x.sub = ic->getPredicate();
			} else if (auto *se = L::dyn_cast<L::SelectInst>(&I)) {
				x.code = C_SELECT; x.w = scalar(); x.a = opn(se->getCondition()); x.b = opn(se->getTrueValue()); x.c = opn(se->getFalseValue());
			} else if (auto *ci = L::dyn_cast<L::CastInst>(&I)) {
				x.w = scalar(); x.w2 = widthOf(ci->getOperand(0)->getType()); x.a = opn(ci->getOperand(0));
				switch (ci->getOpcode()) {
				case L::Instruction::ZExt: x.code = C_ZEXT; break;
				case L::Instruction::SExt: x.code = C_SEXT; break;
				case L::Instruction::Trunc: x.code = C_TRUNC; break;
				case L::Instruction::PtrToInt: case L::Instruction::IntToPtr:
					x.code = x.w > x.w2 ? C_ZEXT : x.w < x.w2 ? C_TRUNC : C_MOVE; break;
				case L::Instruction::BitCast: x.code = C_MOVE; break;
				default: die("cast");
				}
			} else if (auto *ge = L::dyn_cast<L::GetElementPtrInst>(&I)) {
				x.code = C_GEP; x.w = 64; x.a = opn(ge->getPointerOperand());
				L::Type *t = ge->getSourceElementType(); bool firstIdx = true;
				for (auto it = ge->idx_begin(); it != ge->idx_end(); ++it) {
					const L::Value *iv = *it;
					if (!firstIdx) {
						if (auto *stt = L::dyn_cast<L::StructType>(t)) {
							unsigned k = L::cast<L::ConstantInt>(iv)->getZExtValue();
							x.goff += (uint64_t)dl.getStructLayout(stt)->getElementOffset(k); t = stt->getElementType(k); continue;
						}
						t = L::cast<L::ArrayType>(t)->getElementType();
					}
					firstIdx = false;
					int64_t sc = dl.getTypeAllocSize(t);
					if (auto *k = L::dyn_cast<L::ConstantInt>(iv)) x.goff += k->getSExtValue() * sc;
					else x.gi.push_back({opn(iv), widthOf(iv->getType()), sc});
				}
			} else if (auto *ld = L::dyn_cast<L::LoadInst>(&I)) {
				x.code = C_LOAD; x.w = scalar(); x.size = dl.getTypeStoreSize(I.getType()); x.a = opn(ld->getPointerOperand());
			} else if (auto *sto = L::dyn_cast<L::StoreInst>(&I)) {
				x.code = C_STORE; x.w = widthOf(sto->getValueOperand()->getType()); x.size = dl.getTypeStoreSize(sto->getValueOperand()->getType());
				x.a = opn(sto->getPointerOperand()); x.b = opn(sto->getValueOperand());
			} else if (auto *al = L::dyn_cast<L::AllocaInst>(&I)) {
				x.code = C_ALLOCA; x.size = dl.getTypeAllocSize(al->getAllocatedType()); x.a = opn(al->getArraySize()); x.w2 = widthOf(al->getArraySize()->getType());
			} else if (auto *br = L::dyn_cast<L::BranchInst>(&I)) {
				if (br->isConditional()) { x.code = C_CBR; x.a = opn(br->getCondition()); x.t0 = bbi[br->getSuccessor(0)]; x.t1 = bbi[br->getSuccessor(1)]; }
				else { x.code = C_BR; x.t0 = bbi[br->getSuccessor(0)]; }
			} else if (auto *sw = L::dyn_cast<L::SwitchInst>(&I)) {
				x.code = C_SWITCH; x.w = widthOf(sw->getCondition()->getType()); x.a = opn(sw->getCondition()); x.t0 = bbi[sw->getDefaultDest()];
				for (auto &cs : sw->cases()) x.cases.push_back({cs.getCaseValue()->getZExtValue(), bbi[cs.getCaseSuccessor()]});
			} else if (auto *rt = L::dyn_cast<L::ReturnInst>(&I)) {
				x.code = C_RET; if (rt->getReturnValue()) { x.a = opn(rt->getReturnValue()); x.n = leaves(rt->getReturnValue()->getType()); } else x.n = 0;
			} else if (auto *cl = L::dyn_cast<L::CallInst>(&I)) {
				for (auto &a : cl->args()) {
					if (a->getType()->isMetadataTy()) { x.args.push_back(Opnd()); x.argw.push_back(1); continue; }
					x.args.push_back(opn(a)); x.argw.push_back(widthOf(a->getType()));
				}
				L::Function *cf = cl->getCalledFunction();
				if (!cf) { if (cl->isInlineAsm()) { x.code = C_INTR; x.intr = I_NOP; } else { x.code = C_CALLI; x.a = opn(cl->getCalledOperand()); } }
				else {
					std::string nm = cf->getName().str();
					if (nm.compare(0, 5, "llvm.") == 0 && nm.find(".with.overflow") != std::string::npos) {
						x.code = C_OVF; x.w = widthOf(cl->getArgOperand(0)->getType()); x.a = x.args[0]; x.b = x.args[1];
						x.w2 = nm[5] == 's'; std::string op = nm.substr(6, 3);
						x.sub = op == "add" ? ADD : op == "sub" ? SUB : MUL;
					} else {
						Func *fn = getFunc(cf);
						if (fn) { x.code = C_CALL; x.callee = fn; }
						else {
							x.code = C_INTR; x.intr = intrinsicByName(nm);
							if (x.intr == I_NONE) { x.intr = -1; fprintf(stderr, "note: call to undefined %s\n", nm.c_str()); }
							if (!I.getType()->isVoidTy()) x.w = scalar();
						}
					}
				}
			} else if (L::isa<L::UnreachableInst>(&I)) x.code = C_UNREACH;
			else if (auto *fz = L::dyn_cast<L::FreezeInst>(&I)) { x.code = C_MOVE; x.a = opn(fz->getOperand(0)); x.w = scalar(); }
			else if (auto *ev = L::dyn_cast<L::ExtractValueInst>(&I)) {
				x.code = C_EXTRACTV; x.a = opn(ev->getAggregateOperand()); x.t0 = leafOff(ev->getAggregateOperand()->getType(), ev->getIndices());
			} else if (auto *iv = L::dyn_cast<L::InsertValueInst>(&I)) {
				x.code = C_INSERTV; x.a = opn(iv->getAggregateOperand()); x.b = opn(iv->getInsertedValueOperand()); x.t0 = leafOff(iv->getType(), iv->getIndices());
				x.t1 = leaves(iv->getInsertedValueOperand()->getType());
			} else { std::string s; die(std::string("unsupported instruction ") + I.getOpcodeName() + " in " + F.getName().str()); }
			b.ins.push_back(x);
		}
	}
}

// liveness (only needed where executions join)
static void regsUsed(const Ins &x, std::vector<int> &u)
{
	auto add = [&](const Opnd &o, int n = 1) { if (o.reg >= 0) for (int i = 0; i < n; i++) u.push_back(o.reg + i); };
	add(x.a, x.code == C_RET ? std::max(1, x.n) : x.code == C_INSERTV ? x.n : x.code == C_EXTRACTV ? x.t0 + 1 : 1); add(x.b, x.code == C_INSERTV ? std::max(1, x.t1) : 1); add(x.c);
	for (auto &o : x.args) add(o);
	for (auto &g : x.gi) add(g.o);
}
static void liveness(Func *f)
{
	if (f->live) return;
	f->live = true;
	for (auto &b : f->bb) b.liveIn.assign(f->nregs, false);
	for (bool ch = true; ch; ) {
		ch = false;
		for (int i = f->bb.size() - 1; i >= 0; i--) {
			Block &b = f->bb[i];
			std::vector<bool> l(f->nregs, false);
			for (int s : b.succ) {
				Block &S = f->bb[s];
				for (int r = 0; r < f->nregs; r++) if (S.liveIn[r]) l[r] = true;
				for (auto &p : S.phis) l[p.dst] = false;
			}
			for (int s : b.succ) for (auto &p : f->bb[s].phis) for (auto &in : p.in) if (in.first == i && in.second.reg >= 0) l[in.second.reg] = true;
			for (int k = b.ins.size() - 1; k >= 0; k--) {
				Ins &x = b.ins[k];
				if (x.dst >= 0) for (int j = 0; j < std::max(1, x.n); j++) l[x.dst + j] = false;
				std::vector<int> u; regsUsed(x, u); for (int r : u) l[r] = true;
			}
			for (auto &p : b.phis) l[p.dst] = true;	// defined at entry; harmless
			if (l != b.liveIn) { b.liveIn = l; ch = true; }
		}
	}
}
static const std::vector<int> &liveAfter(Func *f, int bb, int ip, int curDst, int curN)
{
	auto key = std::make_pair(bb, ip);
	auto it = f->liveAt.find(key);
	if (it != f->liveAt.end()) return it->second;
	liveness(f);
	std::vector<bool> l(f->nregs, false);
	Block &b = f->bb[bb];
	for (int s : b.succ) { for (int r = 0; r < f->nregs; r++) if (f->bb[s].liveIn[r]) l[r] = true; for (auto &p : f->bb[s].phis) l[p.dst] = false; }
	for (int s : b.succ) for (auto &p : f->bb[s].phis) for (auto &in : p.in) if (in.first == bb && in.second.reg >= 0) l[in.second.reg] = true;
	for (int k = b.ins.size() - 1; k >= ip; k--) {
		Ins &x = b.ins[k];
		if (x.dst >= 0) for (int j = 0; j < std::max(1, x.n); j++) l[x.dst + j] = false;
		std::vector<int> u; regsUsed(x, u); for (int r : u) l[r] = true;
	}
	if (curDst >= 0) for (int j = 0; j < std::max(1, curN); j++) l[curDst + j] = false;
	std::vector<int> out;
	for (int r = 0; r < f->nregs; r++) if (l[r]) out.push_back(r);
	return f->liveAt[key] = out;
}

// ------------------------------------------------------------------ memory access
static Obj *wr(State &s, uint32_t id)
{
	ORef &o = s.objs[id];
	if (o.p->rc > 1) { Obj *n = new Obj(*o.p); o.drop(); o.p = n; }
	return o.p;
}
static Chunk *wrc(Obj *o, int k)
{
	Chunk *&c = o->ch[k];
	if (c->rc > 1) { Chunk *n = new Chunk(*c); c->rc--; c = n; }
	c->h = 0;
	return c;
}
static bool inBounds(State &s, uint64_t a, uint64_t n)
{
	uint32_t id = idOf(a);
	if (id >= s.objs.size() || !s.objs[id].p) return false;
	int64_t off = offOf(a);
	return off >= 0 && (uint64_t)off + n <= s.objs[id].p->size;
}
static void badAccess(State &s, uint64_t a, uint64_t n, bool write)
{
	char buf[200]; uint32_t id = idOf(a);
	snprintf(buf, sizeof buf, "memory: out-of-bounds %s of %llu bytes at offset %lld of %s", write ? "write" : "read", (unsigned long long)n, (long long)offOf(a),
		 a < 4096 ? "null pointer" : id < s.objs.size() && s.objs[id].p ? s.objs[id].p->name.c_str() : "nothing");
	violation(s, buf, s.w);
}
static uint32_t uninitCtr;
static E byteAt(Obj *o, uint32_t off)	// symbolic or constant byte
{
	Chunk *c = o->ch[off / CH]; int k = off % CH;
	if (!c->s || !c->s[k]) return mkConst(c->b[k], 8);
	if (c->s[k] == UNINIT) c->h = 0, c->s[k] = mkVar("uninit", uninitCtr++, 8, true);
	return c->s[k];
}
static Val loadMem(State &s, uint64_t a, int n, int w)
{
	if (!inBounds(s, a, n)) badAccess(s, a, n, false);
	Obj *o = s.objs[idOf(a)].p; uint32_t off = offOf(a);
	Chunk *c = o->ch[off / CH]; int k = off % CH;
	if (k + n <= CH && !c->s) { uint64_t v = 0; memcpy(&v, c->b + k, n); return V(v & mask(w)); }
	bool sym = false; uint64_t v = 0;
	for (int i = 0; i < n; i++) {
		Chunk *cc = o->ch[(off + i) / CH]; int kk = (off + i) % CH;
		if (cc->s && cc->s[kk]) { sym = true; break; }
		v |= (uint64_t)cc->b[kk] << (8 * i);
	}
	if (!sym) return V(v & mask(w));
	E e = byteAt(o, off);
	for (int i = 1; i < n; i++) e = mkConcat(byteAt(o, off + i), e);
	if (w < n * 8) e = mkTrunc(e, w);
	return VE(e);
}
static void storeByte(Obj *o, uint32_t off, E e)
{
	Chunk *c = wrc(o, off / CH); int k = off % CH;
	if (e->isConst()) { c->b[k] = e->val; if (c->s) c->s[k] = nullptr; }
	else { c->needS(); c->s[k] = e; c->b[k] = 0; }
}
static void storeMem(State &s, uint64_t a, int n, Val v, int w)
{
	if (!inBounds(s, a, n)) badAccess(s, a, n, true);
	uint32_t id = idOf(a);
	if (s.objs[id].p->ro) violation(s, "memory: write to constant " + s.objs[id].p->name, s.w);
	Obj *o = wr(s, id); uint32_t off = offOf(a);
	if (!v.e) {
		int k = off % CH;
		if (k + n <= CH) {
			Chunk *c = wrc(o, off / CH); memcpy(c->b + k, &v.c, n);
			if (c->s) { memset(c->s + k, 0, n * sizeof(E)); }
			return;
		}
		for (int i = 0; i < n; i++) storeByte(o, off + i, mkConst(v.c >> (8 * i), 8));
		return;
	}
	E e = v.e; if (w < n * 8) e = mkZExt(e, n * 8);
	for (int i = 0; i < n; i++) storeByte(o, off + i, mkExtract(e, 8 * i, 8));
}
static void copyMem(State &s, uint64_t d, uint64_t a, uint64_t n)
{
	if (!n) return;
	if (!inBounds(s, a, n)) badAccess(s, a, n, false);
	if (!inBounds(s, d, n)) badAccess(s, d, n, true);
	if (s.objs[idOf(d)].p->ro) violation(s, "memory: write to constant", s.w);
	ORef keep = s.objs[idOf(a)];
	Obj *src = keep.p; uint32_t so = offOf(a), dof = offOf(d);
	if (idOf(a) == idOf(d)) src = new Obj(*src); // snapshot for overlap
	Obj *o = wr(s, idOf(d));
	uint64_t i = 0;
	while (i < n) {
		uint32_t x = so + i, y = dof + i;
		if (x % CH == 0 && y % CH == 0 && n - i >= (uint64_t)CH && y + CH <= o->size) {	// share whole chunks
			Chunk *c = src->ch[x / CH]; Chunk *&t = o->ch[y / CH];
			if (t != c) { c->rc++; if (!--t->rc) delete t; t = c; }
			i += CH; continue;
		}
		uint64_t m = std::min<uint64_t>(n - i, std::min(CH - x % CH, CH - y % CH));
		Chunk *c = src->ch[x / CH]; Chunk *t = wrc(o, y / CH);
		memcpy(t->b + y % CH, c->b + x % CH, m);
		if (c->s || t->s) {
			t->needS();
			if (c->s) memcpy(t->s + y % CH, c->s + x % CH, m * sizeof(E)); else memset(t->s + y % CH, 0, m * sizeof(E));
		}
		i += m;
	}
	if (idOf(a) == idOf(d)) delete src;
}
static void setMem(State &s, uint64_t d, Val v, uint64_t n)
{
	if (!n) return;
	if (!inBounds(s, d, n)) badAccess(s, d, n, true);
	if (s.objs[idOf(d)].p->ro) violation(s, "memory: write to constant", s.w);
	Obj *o = wr(s, idOf(d)); uint32_t off = offOf(d);
	if (v.e) { E e = mkTrunc(v.e, 8); for (uint64_t i = 0; i < n; i++) storeByte(o, off + i, e); return; }
	for (uint64_t i = 0; i < n; ) {
		uint32_t y = off + i; uint64_t m = std::min<uint64_t>(n - i, CH - y % CH);
		Chunk *t = wrc(o, y / CH); memset(t->b + y % CH, (int)v.c, m);
		if (t->s) { memset(t->s + y % CH, 0, m * sizeof(E)); if (m == (uint64_t)CH) { delete[] t->s; t->s = nullptr; } }
		i += m;
	}
}
static std::string cstr(State &s, uint64_t a)
{
	std::string r;
	for (;;) { Val v = loadMem(s, a++, 1, 8); if (v.e) die("symbolic string"); if (!v.c) break; r += (char)v.c; }
	return r;
}

// ------------------------------------------------------------------ execution
static State *cur;
static void addPC(State &s, E c)
{
	if (c->isTrue()) return;
	// conjunctions are stored as separate facts
	if (c->op == AND && c->w == 1) { addPC(s, c->a); addPC(s, c->b); return; }
	for (E x : s.pc) if (x == c) return;
	s.pc.push_back(c);
}
static bool sat(State &s, E c, WP &out)
{
	for (E x : s.pc) if (x == c) { out = s.w; return true; }
	return satisfiable(s.pc, c, s.w, out);
}
static void checkUninitDecision(State &s, E c)
{
	if (!checkUninit || !c->uninit) return;
	nUninitChk++;
	// can two different values of the uninitialised bytes decide differently?
	std::unordered_map<uint32_t, E> m1, m2;
	E c2 = substUninit(c, "'", m1);
	E d = mkNot(mkEq(c, c2));
	if (d->isFalse()) return;
	// path condition for both copies
	std::vector<E> pc = s.pc;
	for (E x : s.pc) if (x->uninit) pc.push_back(substUninit(x, "'", m1));
	auto w0 = std::make_shared<Witness>(*s.w);
	// give the copy the same values, so that the witness satisfies both
	size_t nv = vars.size();
	for (size_t i = 0; i < nv; i++) if (vars[i].uninit && vars[i].name.size() && vars[i].name.back() == '\'') {
		E o = mkVar(vars[i].name.substr(0, vars[i].name.size() - 1), vars[i].idx, vars[i].w, true);
		w0->set(i, w0->get(o->val));
	}
	WP out;
	if (satisfiable(pc, d, w0, out)) violation(s, "uninitialised memory decides a branch or an address", out);
}
static State *fork(State &s)
{
	nForks++;
	State *n = new State(s);
	return n;
}
// Case split a symbolic value: current state takes the witness value, others are queued.
static std::string splitPfx;
static uint64_t concretize(State &s, E e, bool redo);
// lin mode: 1 the value is constant here; 2 a case split was made, look again; 0 otherwise
static int lin(State &s, E e, uint64_t &v)
{
	uint32_t var; int bit;
	int r = linLook(s.pc, e, splitPfx, v, var, bit);
	if (r == 2) concretize(s, mkExtract(mkVar(vars[var].name, vars[var].idx, vars[var].w), bit, 1), true);
	return r;
}
static uint64_t concretize(State &s, E e, bool redo)
{
	if (linMode && e->op != VAR && !(e->op == EXTRACT && e->a->op == VAR)) {
		uint64_t v; int r;
		while ((r = lin(s, e, v)) == 2) ;
		if (r == 1) return v;
	}
	nConc++;
	checkUninitDecision(s, e);
	uint64_t v = evalE(e, *s.w);
	E eq = mkEq(e, mkConst(v, e->w)); E ne = mkNot(eq);
	WP o;
	if (sat(s, ne, o)) {
		State *n = fork(s);
		addPC(*n, ne); n->w = o;
		if (redo) n->fr.back().ip--;	// re-executes the instruction
		active.push_back(n);
	}
	addPC(s, eq);
	return v;
}
static inline Val get(Frame &f, const Opnd &o) { return o.reg >= 0 ? f.r[o.reg] : V(o.imm); }
static void gotoBB(Frame &f, int t)
{
	int from = f.bb; Block &b = f.f->bb[t];
	if (!b.phis.empty()) {
		Val tmp[64]; size_t n = b.phis.size(); std::vector<Val> big; Val *tp = tmp;
		if (n > 64) { big.resize(n); tp = big.data(); }
		for (size_t i = 0; i < n; i++) {
			Phi &p = b.phis[i]; bool ok = false;
			for (auto &in : p.in) if (in.first == from) { tp[i] = get(f, in.second); ok = true; break; }
			if (!ok) die("phi");
		}
		for (size_t i = 0; i < n; i++) f.r[b.phis[i].dst] = tp[i];
	}
	f.bb = t; f.ip = 0; b.seen = true;
}
static void pushFrame(State &s, Func *f, const std::vector<Val> &args, int retDst, int retN)
{
	if (f->declOnly) die("call to function without body " + f->name);
	if (s.fr.size() > 200) violation(s, "memory: call stack exhausted", s.w);
	s.fr.emplace_back();
	Frame &n = s.fr.back();
	n.f = f; n.r.assign(f->nregs, V(0)); n.retDst = retDst; n.retN = retN; n.objBase = s.objs.size();
	for (size_t i = 0; i < f->argreg.size() && i < args.size(); i++) n.r[f->argreg[i]] = args[i];
	f->execs++; f->bb[0].seen = true;
}
static void popObjs(State &s, uint32_t base) { while (s.objs.size() > base) s.objs.pop_back(); }
static E icmp(int pred, E a, E b)
{
	switch (pred) {
	case L::CmpInst::ICMP_EQ: return mkEq(a, b); case L::CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
	case L::CmpInst::ICMP_ULT: return mk(ULT, a, b); case L::CmpInst::ICMP_ULE: return mk(ULE, a, b);
	case L::CmpInst::ICMP_UGT: return mk(ULT, b, a); case L::CmpInst::ICMP_UGE: return mk(ULE, b, a);
	case L::CmpInst::ICMP_SLT: return mk(SLT, a, b); case L::CmpInst::ICMP_SLE: return mk(SLE, a, b);
	case L::CmpInst::ICMP_SGT: return mk(SLT, b, a); case L::CmpInst::ICMP_SGE: return mk(SLE, b, a);
	}
	die("icmp"); return nullptr;
}
static bool icmpC(int pred, uint64_t a, uint64_t b, int w)
{
	int64_t x = w >= 64 ? (int64_t)a : (int64_t)(a << (64 - w)) >> (64 - w), y = w >= 64 ? (int64_t)b : (int64_t)(b << (64 - w)) >> (64 - w);
	switch (pred) {
	case L::CmpInst::ICMP_EQ: return a == b; case L::CmpInst::ICMP_NE: return a != b;
	case L::CmpInst::ICMP_ULT: return a < b; case L::CmpInst::ICMP_ULE: return a <= b;
	case L::CmpInst::ICMP_UGT: return a > b; case L::CmpInst::ICMP_UGE: return a >= b;
	case L::CmpInst::ICMP_SLT: return x < y; case L::CmpInst::ICMP_SLE: return x <= y;
	case L::CmpInst::ICMP_SGT: return x > y; case L::CmpInst::ICMP_SGE: return x >= y;
	}
	die("icmp"); return false;
}
// Loads from constant tables at a symbolic index become table look-ups.
static bool tableLoad(State &s, E a, int n, int w, Val &out)
{
	uint64_t v = evalE(a, *s.w);
	uint32_t id = idOf(v);
	if (linMode) {
		int r;
		while ((r = lin(s, a, v)) == 2) ;
		if (r == 1) { out = loadMem(s, v, n, w); return true; }
	}
	if (id >= globals.size() || (!s.objs[id].p->ro && !linMode) || s.objs[id].p->size > 32768 || s.objs[id].p->size % n) return false;
	Obj *o = s.objs[id].p;
	E off = mk(SUB, a, mkConst(addrOf(id), 64));
	E ok = mk(ULE, off, mkConst(o->size - n, 64));
	WP m; nMemSym++;
	if (sat(s, mkNot(ok), m)) violation(s, "memory: out-of-bounds read of table " + o->name, m);
	int lg = 0; while ((1 << lg) < n) lg++;
	if ((off->kz & (n - 1)) != (uint64_t)(n - 1)) return false;
	int ib = 1; while ((1ULL << ib) < o->size / n) ib++;
	E idx = mkExtract(off, lg, ib);
	std::vector<uint64_t> tv;
	for (uint32_t i = 0; i + n <= o->size; i += n) { Val x = loadMem(s, addrOf(id, i), n, w); if (x.e) return false; tv.push_back(x.c); }
	out = VE(mkSelect(mkTable(tv, w), idx));
	return true;
}
// lin mode: a value whose normal form is a constant is that constant
static inline Val linConst(State &s, const Val &v)
{
	if (!linMode || !v.e || v.e->w == 1 || v.e->w > 32 || v.e->op == VAR || v.e->op == ITE) return v;
	if (v.e->op == CONCAT && v.e->a->op == VAR) return v;
	uint64_t c; uint32_t var; int bit;
	return linLook(s.pc, v.e, "", c, var, bit) == 1 ? V(c) : v;
}
enum { GO, ENDED };
// A branch around straight-line code without effects: both ways are computed and
// their results selected, so that linear code stays linear.
static int straight(Frame &f, int b)	// where the block goes, -1 if it does not qualify
{
	Block &k = f.f->bb[b];
	if (k.ins.size() > 16 || !k.phis.empty() || k.ins.empty() || k.ins.back().code != C_BR) return -1;
	for (size_t i = 0; i + 1 < k.ins.size(); i++) {
		switch (k.ins[i].code) {
		case C_BIN: if (k.ins[i].sub >= UDIV && k.ins[i].sub <= SREM) return -1; break;
		case C_ICMP: case C_SELECT: case C_ZEXT: case C_SEXT: case C_TRUNC: case C_MOVE: case C_GEP: case C_LOAD: break;
		default: return -1;
		}
	}
	return k.succ[0];
}
static inline void pure(Frame &f, Ins &x);
static bool ifConvert(State &s, Frame &f, E c, int t0, int t1)
{
	if (t0 == t1) return false;
	int j0 = straight(f, t0), j1 = straight(f, t1), from = f.bb, e0, e1, J;
	if (j0 >= 0 && j0 == t1) J = t1, e0 = t0, e1 = from, j1 = -1;
	else if (j1 >= 0 && j1 == t0) J = t0, e0 = from, e1 = t1, j0 = -1;
	else if (j0 >= 0 && j0 == j1) J = j0, e0 = t0, e1 = t1;
	else return false;
	for (Phi &p : f.f->bb[J].phis) if (p.w <= 0 || p.w > 64) return false;
	for (int b : {j0 >= 0 ? t0 : -1, j1 >= 0 ? t1 : -1}) {
		if (b < 0) continue;
		Block &k = f.f->bb[b];
		for (size_t i = 0; i + 1 < k.ins.size(); i++) {
			Ins &x = k.ins[i];
			if (x.code == C_LOAD) {
				Val a = get(f, x.a);
				if (a.e || !inBounds(s, a.c, x.size)) return false;
				f.r[x.dst] = loadMem(s, a.c, x.size, x.w);
			} else pure(f, x);
		}
		k.seen = true;
	}
	std::vector<Val> v;
	for (Phi &p : f.f->bb[J].phis) {
		Val a, b; bool fa = false, fb = false;
		for (auto &in : p.in) {
			if (in.first == e0 && !fa) { a = get(f, in.second); fa = true; }
			if (in.first == e1 && !fb) { b = get(f, in.second); fb = true; }
		}
		if (!fa || !fb) die("phi");
		v.push_back(VE(mkIte(c, EX(a, p.w), EX(b, p.w))));
	}
	for (size_t i = 0; i < v.size(); i++) f.r[f.f->bb[J].phis[i].dst] = v[i];
	f.bb = J; f.ip = 0; f.f->bb[J].seen = true;
	return true;
}
static int branch(State &s, Frame &f, E c, int t0, int t1)
{
	if (c->isConst()) { gotoBB(f, c->val ? t0 : t1); return GO; }
	checkUninitDecision(s, c);
	if (linMode) {
		uint64_t k; int r;
		while ((r = lin(s, c, k)) == 2) ;
		if (r == 1) { gotoBB(s.fr.back(), k ? t0 : t1); return GO; }
		if (ifConvert(s, s.fr.back(), c, t0, t1)) return GO;
	}
	bool v = evalE(c, *s.w);
	E tk = v ? c : mkNot(c), nt = v ? mkNot(c) : c;
	WP o;
	if (sat(s, nt, o)) {
		State *n = fork(s);
		addPC(*n, nt); n->w = o;
		gotoBB(n->fr.back(), v ? t1 : t0);
		active.push_back(n);
	}
	addPC(s, tk);
	gotoBB(s.fr.back(), v ? t0 : t1);
	return GO;
}
static int step(State &s);

static int doIntr(State &s, Frame &f, Ins &x)
{
	auto A = [&](int i) { return get(f, x.args[i]); };
	auto AE = [&](int i) { return EX(A(i), x.argw[i]); };
	auto conc = [&](int i) -> uint64_t { Val v = A(i); if (!v.e) return v.c; return concretize(s, v.e, true); };
	auto set = [&](E e) { s.fr.back().r[x.dst] = VE(e); };
	switch (x.intr) {
	case I_NOP: return GO;
	case I_SYM: {
		std::string n = cstr(s, conc(0)); int w = conc(2); uint32_t idx = conc(1);
		size_t before = vars.size(); (void)before;
		E v = mkVar(n, idx, w); set(mkZExt(v, 64)); return GO;
	}
	case I_PARAM: {
		std::string n = cstr(s, conc(0)); auto it = params.find(n);
		uint64_t v = it == params.end() ? conc(1) : it->second;
		set(mkConst(v, 32)); return GO;
	}
	case I_ASSUME: {
		E c = mkNot(mkEq(AE(0), mkConst(0, x.argw[0])));
		if (c->isTrue()) return GO;
		WP o;
		if (c->isFalse() || !sat(s, c, o)) { nAssumeCut++; return ENDED; }
		addPC(s, c); s.w = o; return GO;
	}
	case I_ASSERT: {
		Val v = A(0);
		std::string msg = cstr(s, conc(1));
		assertKinds.insert(msg);
		if (!v.e) { nAssertC++; if (!v.c) violation(s, msg, s.w); return GO; }
		E c = mkNot(mkEq(v.e, mkConst(0, x.argw[0])));
		nAssertS++;
		checkUninitDecision(s, c);
		WP o;
		if (sat(s, mkNot(c), o)) violation(s, msg, o);
		return GO;
	}
	case I_COVER: covers[cstr(s, conc(0))]++; return GO;
	case I_NOTE: return GO;
	case I_BUDGET: s.budget = conc(0); s.budgetAt = s.steps; return GO;
	case I_QEND: nQEnd++; return ENDED;
	case I_KNOWN: known[cstr(s, conc(0))]++; return ENDED;
	case I_CONC: { Val v = A(0); uint64_t r = v.e ? concretize(s, v.e, true) : v.c; s.fr.back().r[x.dst] = V(r); return GO; }
	case I_TRY: {
		uint64_t fp = conc(0); Func *fn = funcs[(fp - 0xF000000000000000ULL) / 16];
		std::vector<Val> args{A(1)}; int dst = x.dst;
		pushFrame(s, fn, args, dst, 1); s.fr.back().tryMark = true; return GO;
	}
	case I_CRASH: {
		while (!s.fr.empty() && !s.fr.back().tryMark) { popObjs(s, s.fr.back().objBase); s.fr.pop_back(); }
		if (s.fr.empty()) die("vx_crash outside vx_try");
		int d = s.fr.back().retDst; popObjs(s, s.fr.back().objBase); s.fr.pop_back();
		if (d >= 0) s.fr.back().r[d] = V(1);
		return GO;
	}
	case I_JOIN: s.atJoin = true; s.joins++; return GO;
	case I_MERGEABLE: {
		uint64_t a = conc(0), n = conc(1);
		if (!inBounds(s, a, n)) die("vx_mergeable");
		Obj *o = wr(s, idOf(a)); uint32_t lo = offOf(a), hi = lo + n;
		if (o->mrgHi == 0) { o->mrgLo = lo; o->mrgHi = hi; } else { o->mrgLo = std::min(o->mrgLo, lo); o->mrgHi = std::max(o->mrgHi, hi); }
		return GO;
	}
	case I_MEMCPY: { uint64_t d = conc(0), a = conc(1), n = conc(2); copyMem(s, d, a, n); if (x.dst >= 0) s.fr.back().r[x.dst] = V(d); return GO; }
	case I_MEMSET: { uint64_t d = conc(0), n = conc(2); setMem(s, d, A(1), n); if (x.dst >= 0) s.fr.back().r[x.dst] = V(d); return GO; }
	case I_STRLEN: { set(mkConst(cstr(s, conc(0)).size(), 64)); return GO; }
	case I_MEMCMP: {
		uint64_t p = conc(0), q = conc(1), n = conc(2);
		if (n && !inBounds(s, p, n)) badAccess(s, p, n, false);
		if (n && !inBounds(s, q, n)) badAccess(s, q, n, false);
		E r = mkConst(0, 32);
		for (int64_t i = (int64_t)n - 1; i >= 0; i--) {
			E a = byteAt(s.objs[idOf(p)].p, offOf(p) + i), b = byteAt(s.objs[idOf(q)].p, offOf(q) + i);
			r = mkIte(mkEq(a, b), r, mk(SUB, mkZExt(a, 32), mkZExt(b, 32)));
		}
		set(r); return GO;
	}
	case I_UMIN: { E a = AE(0), b = AE(1); set(mkIte(mk(ULT, a, b), a, b)); return GO; }
	case I_UMAX: { E a = AE(0), b = AE(1); set(mkIte(mk(ULT, a, b), b, a)); return GO; }
	case I_SMIN: { E a = AE(0), b = AE(1); set(mkIte(mk(SLT, a, b), a, b)); return GO; }
	case I_SMAX: { E a = AE(0), b = AE(1); set(mkIte(mk(SLT, a, b), b, a)); return GO; }
	case I_ABS: { E a = AE(0); set(mkIte(mk(SLT, a, mkConst(0, a->w)), mk(SUB, mkConst(0, a->w), a), a)); return GO; }
	case I_USUBSAT: { E a = AE(0), b = AE(1); set(mkIte(mk(ULT, a, b), mkConst(0, a->w), mk(SUB, a, b))); return GO; }
	case I_UADDSAT: { E a = AE(0), b = AE(1); E t = mk(ADD, a, b); set(mkIte(mk(ULT, t, a), mkConst(~0ULL, a->w), t)); return GO; }
	case I_CTPOP: { E a = AE(0); E r = mkConst(0, a->w); for (int i = 0; i < a->w; i++) r = mk(ADD, r, mkZExt(mkExtract(a, i, 1), a->w)); set(r); return GO; }
	case I_CTLZ: { E a = AE(0); E r = mkConst(a->w, a->w); for (int i = 0; i < a->w; i++) r = mkIte(mkExtract(a, i, 1), mkConst(a->w - 1 - i, a->w), r); set(r); return GO; }
	case I_CTTZ: { E a = AE(0); E r = mkConst(a->w, a->w); for (int i = a->w - 1; i >= 0; i--) r = mkIte(mkExtract(a, i, 1), mkConst(i, a->w), r); set(r); return GO; }
	case I_BSWAP: { E a = AE(0); E r = mkExtract(a, 0, 8); for (int i = 8; i < a->w; i += 8) r = mkConcat(r, mkExtract(a, i, 8)); set(r); return GO; }
	case I_BITREV: { E a = AE(0); E r = mkExtract(a, 0, 1); for (int i = 1; i < a->w; i++) r = mkConcat(r, mkExtract(a, i, 1)); set(r); return GO; }
	case I_FSHL: case I_FSHR: {
		E a = AE(0), b = AE(1), k = AE(2); int w = a->w;
		k = mk(UREM, k, mkConst(w, w));
		E inv = mk(SUB, mkConst(w, w), k);
		if (x.intr == I_FSHL) set(mk(OR, mk(SHL, a, k), mk(LSHR, b, inv)));	// shift by w gives 0
		else set(mk(OR, mk(SHL, a, inv), mk(LSHR, b, k)));
		return GO;
	}
	case I_TRAP: violation(s, "abort reached", s.w); return ENDED;
	default: die("call to undefined function"); return ENDED;
	}
}

static inline void pure(Frame &f, Ins &x)
{
		switch (x.code) {
		case C_BIN: {
			Val a = get(f, x.a), b = get(f, x.b);
			if (!a.e && !b.e) { bool ok; f.r[x.dst] = V(foldBin((Op)x.sub, a.c, b.c, x.w, ok)); }
			else f.r[x.dst] = VE(mk((Op)x.sub, EX(a, x.w), EX(b, x.w)));
			break;
		}
		case C_ICMP: {
			Val a = get(f, x.a), b = get(f, x.b);
			if (!a.e && !b.e) f.r[x.dst] = V(icmpC(x.sub, a.c, b.c, x.w));
			else f.r[x.dst] = VE(icmp(x.sub, EX(a, x.w), EX(b, x.w)));
			break;
		}
		case C_SELECT: {
			Val c = get(f, x.a);
			if (!c.e) f.r[x.dst] = get(f, c.c ? x.b : x.c);
			else f.r[x.dst] = VE(mkIte(c.e, EX(get(f, x.b), x.w), EX(get(f, x.c), x.w)));
			break;
		}
		case C_ZEXT: { Val a = get(f, x.a); f.r[x.dst] = a.e ? VE(mkZExt(a.e, x.w)) : a; break; }
		case C_SEXT: { Val a = get(f, x.a); f.r[x.dst] = VE(mkSExt(EX(a, x.w2), x.w)); break; }
		case C_TRUNC: { Val a = get(f, x.a); f.r[x.dst] = a.e ? VE(mkTrunc(a.e, x.w)) : V(a.c & mask(x.w)); break; }
		case C_MOVE: f.r[x.dst] = get(f, x.a); break;
		case C_GEP: {
			Val p = get(f, x.a); uint64_t off = x.goff; E oe = nullptr;
			for (auto &g : x.gi) {
				Val i = get(f, g.o);
				if (!i.e) { int64_t v = g.w >= 64 ? (int64_t)i.c : (int64_t)(i.c << (64 - g.w)) >> (64 - g.w); off += v * g.scale; }
				else { E t = mk(MUL, mkSExt(i.e, 64), mkConst(g.scale, 64)); oe = oe ? mk(ADD, oe, t) : t; }
			}
			if (!p.e && !oe) f.r[x.dst] = V(p.c + off);
			else { E e = mk(ADD, EX(p, 64), mkConst(off, 64)); if (oe) e = mk(ADD, oe, e); f.r[x.dst] = VE(e); }
			break;
		}
		default: die("pure");
		}
}
static int run(State &s)	// until the state ends, or reaches a join
{
	for (;;) {
		Frame &f = s.fr.back();
		Ins &x = f.f->bb[f.bb].ins[f.ip++];
		s.steps++; totalSteps++;
		if (s.budget && s.steps - s.budgetAt > s.budget) violation(s, "does not finish within the step budget", s.w);
		if (s.steps > stepLimit) violation(s, "does not terminate", s.w);
		switch (x.code) {
		case C_BIN: {
			Val a = get(f, x.a), b = get(f, x.b);
			if (x.sub >= UDIV && x.sub <= SREM) {
				if (!b.e) { if (b.c == 0) violation(s, "division by zero", s.w); }
				else { WP o; E z = mkEq(b.e, mkConst(0, x.w)); if (sat(s, z, o)) violation(s, "division by zero", o); }
			}
			if (!a.e && !b.e) { bool ok; f.r[x.dst] = V(foldBin((Op)x.sub, a.c, b.c, x.w, ok)); }
			else f.r[x.dst] = VE(mk((Op)x.sub, EX(a, x.w), EX(b, x.w)));
			break;
		}
		case C_ICMP: case C_SELECT: case C_ZEXT: case C_SEXT: case C_TRUNC: case C_MOVE: case C_GEP: pure(f, x); break;
		case C_LOAD: {
			Val a = get(f, x.a);
			if (a.e) {
				Val o;
				if (tableLoad(s, a.e, x.size, x.w, o)) { f.r[x.dst] = o; break; }
				a = V(concretize(s, a.e, true));
			}
			Val r = loadMem(s, a.c, x.size, x.w);
			s.fr.back().r[x.dst] = r;
			break;
		}
		case C_STORE: {
			Val a = get(f, x.a);
			if (a.e) a = V(concretize(s, a.e, true));
			storeMem(s, a.c, x.size, linConst(s, get(s.fr.back(), x.b)), x.w);
			break;
		}
		case C_ALLOCA: {
			Val n = get(f, x.a);
			uint64_t k = n.e ? concretize(s, n.e, true) : n.c;
			Obj *o = new Obj(x.size * k, true); o->name = "local of " + s.fr.back().f->name;
			s.objs.push_back(ORef(o));
			s.fr.back().r[x.dst] = V(addrOf(s.objs.size() - 1));
			break;
		}
		case C_BR: gotoBB(f, x.t0); break;
		case C_CBR: {
			Val c = get(f, x.a);
			if (!c.e) gotoBB(f, c.c ? x.t0 : x.t1); else branch(s, f, c.e, x.t0, x.t1);
			break;
		}
		case C_SWITCH: {
			Val c = get(f, x.a);
			if (c.e) {
				uint64_t v = evalE(c.e, *s.w);
				// split by target, not by value
				int tgt = x.t0; for (auto &k : x.cases) if (k.first == v) tgt = k.second;
				E in = mkConst(0, 1), none = mkConst(1, 1);
				for (auto &k : x.cases) { E q = mkEq(c.e, mkConst(k.first, x.w)); none = mkAnd(none, mkNot(q)); if (k.second == tgt) in = mkOr(in, q); }
				if (tgt == x.t0) in = mkOr(in, none);
				checkUninitDecision(s, in);
				WP o;
				if (sat(s, mkNot(in), o)) { State *n = fork(s); addPC(*n, mkNot(in)); n->w = o; n->fr.back().ip--; active.push_back(n); }
				addPC(s, in); gotoBB(s.fr.back(), tgt);
			} else { int t = x.t0; for (auto &k : x.cases) if (k.first == c.c) { t = k.second; break; } gotoBB(f, t); }
			break;
		}
		case C_RET: {
			Val v[8]; int n = x.n; for (int i = 0; i < n && i < 8; i++) v[i] = x.a.reg >= 0 ? f.r[x.a.reg + i] : V(x.a.imm);
			int dst = f.retDst; bool tm = f.tryMark;
			popObjs(s, f.objBase); s.fr.pop_back();
			if (s.fr.empty()) return ENDED;
			Frame &g = s.fr.back();
			if (tm) { if (dst >= 0) g.r[dst] = V(0); }
			else if (dst >= 0) for (int i = 0; i < n && i < 8; i++) g.r[dst + i] = v[i];
			break;
		}
		case C_CALL: {
			std::vector<Val> args; for (auto &o : x.args) args.push_back(linConst(s, get(f, o)));
			pushFrame(s, x.callee, args, x.dst, x.n);
			break;
		}
		case C_CALLI: {
			Val p = get(f, x.a); uint64_t fp = p.e ? concretize(s, p.e, true) : p.c;
			if (fp < 0xF000000000000000ULL || (fp - 0xF000000000000000ULL) / 16 >= funcs.size()) violation(s, "memory: call through a bad function pointer", s.w);
			std::vector<Val> args; for (auto &o : x.args) args.push_back(get(s.fr.back(), o));
			pushFrame(s, funcs[(fp - 0xF000000000000000ULL) / 16], args, x.dst, x.n);
			break;
		}
		case C_INTR:
			if (doIntr(s, f, x) == ENDED) return ENDED;
			if (s.atJoin) return GO;
			break;
		case C_EXTRACTV: f.r[x.dst] = f.r[x.a.reg + x.t0]; break;
		case C_INSERTV:
			for (int i = 0; i < x.n; i++) f.r[x.dst + i] = x.a.reg >= 0 ? f.r[x.a.reg + i] : V(0);
			for (int i = 0; i < x.t1; i++) f.r[x.dst + x.t0 + i] = x.b.reg >= 0 ? f.r[x.b.reg + i] : V(x.b.imm);
			break;
		case C_OVF: {
			E a = EX(get(f, x.a), x.w), b = EX(get(f, x.b), x.w); int w = x.w;
			if (w == 64 && x.sub == MUL) {
				if (!a->isConst() || !b->isConst()) die("64-bit overflow multiply");
				unsigned __int128 p = (unsigned __int128)a->val * b->val; f.r[x.dst] = V((uint64_t)p); f.r[x.dst + 1] = V((p >> 64) != 0); break;
			}
			E r = mk((Op)x.sub, a, b), o;
			if (x.sub == MUL) {
				E A = x.w2 ? mkSExt(a, 2 * w > 64 ? 64 : 2 * w) : mkZExt(a, 2 * w > 64 ? 64 : 2 * w), B = x.w2 ? mkSExt(b, A->w) : mkZExt(b, A->w);
				E p = mk(MUL, A, B); o = mkNot(mkEq(p, x.w2 ? mkSExt(r, A->w) : mkZExt(r, A->w)));
			} else if (!x.w2) o = x.sub == ADD ? mk(ULT, r, a) : mk(ULT, a, b);
			else {
				E sa = mkExtract(a, w - 1, 1), sb = mkExtract(b, w - 1, 1), sr = mkExtract(r, w - 1, 1);
				if (x.sub == SUB) sb = mkNot(sb);
				o = mkAnd(mkEq(sa, sb), mkNot(mkEq(sa, sr)));
			}
			f.r[x.dst] = VE(r); f.r[x.dst + 1] = VE(o);
			break;
		}
		case C_UNREACH: violation(s, "control reaches undefined behaviour", s.w); break;
		}
	}
}

// ------------------------------------------------------------------ joining
static uint64_t hmix(uint64_t h, uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 31); }
static uint64_t shape(State &s)
{
	uint64_t h = s.fr.size();
	for (size_t fi = 0; fi < s.fr.size(); fi++) {
		Frame &f = s.fr[fi];
		h = hmix(h, f.f->id); h = hmix(h, f.bb); h = hmix(h, f.ip); h = hmix(h, f.objBase);
		int cd = -1, cn = 0;
		if (fi + 1 < s.fr.size()) { cd = s.fr[fi + 1].retDst; cn = s.fr[fi + 1].retN; }
		for (int r : liveAfter(f.f, f.bb, f.ip, cd, cn)) { Val &v = f.r[r]; h = hmix(h, v.e ? 0x5555 + (uint64_t)v.e->id * 7919 : v.c); }
	}
	h = hmix(h, s.objs.size());
	for (size_t i = 0; i < s.objs.size(); i++) {
		Obj *o = s.objs[i].p; h = hmix(h, o->size);
		if (o->ro) continue;
		for (size_t k = 0; k < o->ch.size(); k++) {
			uint32_t lo = k * CH, hi = std::min<uint32_t>(lo + CH, o->size);
			if (o->mrgHi && lo >= o->mrgLo && hi <= o->mrgHi) continue;
			Chunk *c = o->ch[k];
			if (!o->mrgHi && c->h) { h = hmix(h, c->h); continue; }
			uint64_t outer = h; h = 1;
			for (uint32_t p = lo; p < hi; p++) {
				if (o->mrgHi && p >= o->mrgLo && p < o->mrgHi) continue;
				int j = p - lo; E e = c->s ? c->s[j] : nullptr;
				h = hmix(h, !e ? c->b[j] : e == UNINIT ? 0xdead : 0x100 + (uint64_t)e->id);
			}
			if (!o->mrgHi) c->h = h;
			h = hmix(outer, h);
		}
	}
	return h;
}
static E conj(const std::vector<E> &v, size_t from) { E c = mkConst(1, 1); for (size_t i = from; i < v.size(); i++) c = mkAnd(c, v[i]); return c; }
static void mergeGroup(std::vector<State *> &g)
{
	State *m = g[0];
	if (g.size() == 1) return;
	size_t pre = 0;
	for (;; pre++) {
		bool all = true;
		for (State *s : g) if (s->pc.size() <= pre || s->pc[pre] != m->pc[pre]) { all = false; break; }
		if (!all) break;
	}
	std::vector<E> rest; for (State *s : g) rest.push_back(conj(s->pc, pre));
	// balanced choice: value = ite(rest_i, v_i, ...)
	for (size_t oi = 0; oi < m->objs.size(); oi++) {
		bool diff = false;
		for (size_t i = 1; i < g.size(); i++) if (g[i]->objs[oi].p != m->objs[oi].p) { diff = true; break; }
		if (!diff) continue;
		Obj *o = wr(*m, oi);
		for (size_t k = 0; k < o->ch.size(); k++) {
			bool d = false;
			for (size_t i = 1; i < g.size(); i++) if (g[i]->objs[oi].p->ch[k] != o->ch[k]) { d = true; break; }
			if (!d) continue;
			for (uint32_t j = 0; j < CH && k * CH + j < o->size; j++) {
				bool dd = false; Chunk *c0 = o->ch[k];
				for (size_t i = 1; i < g.size() && !dd; i++) { Chunk *c = g[i]->objs[oi].p->ch[k]; E a = c0->s ? c0->s[j] : nullptr, b = c->s ? c->s[j] : nullptr; if (a != b || (!a && c0->b[j] != c->b[j])) dd = true; }
				if (!dd) continue;
				// group equal values
				std::vector<std::pair<E, E>> alt;
				for (size_t gi = 0; gi < g.size(); gi++) {
					E v = byteAt(g[gi]->objs[oi].p, k * CH + j); E r = rest[gi]; bool f = false;
					for (auto &p : alt) if (p.first == v) { p.second = mkOr(p.second, r); f = true; break; }
					if (!f) alt.push_back({v, r});
				}
				E v = alt.back().first;
				for (int i = (int)alt.size() - 2; i >= 0; i--) v = mkIte(alt[i].second, alt[i].first, v);
				storeByte(o, k * CH + j, v);
			}
		}
	}
	E any = mkConst(0, 1);
	for (E r : rest) any = mkOr(any, r);
	m->pc.resize(pre);
	addPC(*m, any);
	for (size_t i = 1; i < g.size(); i++) { m->steps = std::max(m->steps, g[i]->steps); delete g[i]; nMerged++; }
	g.resize(1);
}
static void joinAll()
{
	nJoins++;
	std::map<std::pair<int, uint64_t>, std::vector<State *>> groups;
	for (State *s : waiting) groups[{s->joins, shape(*s)}].push_back(s);
	size_t n = waiting.size();
	waiting.clear();
	for (auto &g : groups) { mergeGroup(g.second); g.second[0]->atJoin = false; active.push_back(g.second[0]); }
	if (verbose) fprintf(stderr, "join: %zu -> %zu states, %.1fs, %llu z3\n", n, active.size(), elapsed(), (unsigned long long)st.z3);
}

// ------------------------------------------------------------------ main
static void loadModules(const std::vector<std::pair<std::string, bool>> &files)
{
	static L::LLVMContext ctx;
	std::vector<bool> repo;
	for (auto &p : files) {
		L::SMDiagnostic e;
		auto m = L::parseIRFile(p.first, e, ctx);
		if (!m) die("cannot read " + p.first);
		mods.push_back(m.release()); repo.push_back(p.second);
	}
	for (size_t i = 0; i < mods.size(); i++)
		for (auto &F : *mods[i]) if (!F.isDeclaration()) {
			Func *f = new Func; f->name = F.getName().str(); f->repo = repo[i]; f->id = funcs.size();
			funcs.push_back(f); funcOf[&F] = f;
			if (!F.hasLocalLinkage()) { if (extFuncs.count(f->name)) die("duplicate definition " + f->name); extFuncs[f->name] = f; }
		}
	for (auto *M : mods) for (auto &G : M->globals()) if (!G.isDeclaration()) {
		uint64_t sz = M->getDataLayout().getTypeAllocSize(G.getValueType());
		Obj *o = new Obj(sz, false); o->ro = G.isConstant(); o->name = G.getName().str();
		gvId[&G] = globals.size();
		if (!G.hasLocalLinkage()) extGv[G.getName().str()] = globals.size();
		globals.push_back(ORef(o));
	}
	for (auto *M : mods) for (auto &G : M->globals()) if (!G.isDeclaration()) {
		Obj *o = globals[gvId[&G]].p; std::vector<uint8_t> b(o->size + 16);
		initGlobal(b.data(), G.getInitializer(), M->getDataLayout());
		for (uint32_t i = 0; i < o->size; i++) o->ch[i / CH]->b[i % CH] = b[i];
	}
	for (auto *M : mods) for (auto &F : *M) if (!F.isDeclaration()) compileFunc(F, funcOf[&F], M->getDataLayout());
}

static int realMain(int argc, char **argv)
{
	std::vector<std::pair<std::string, bool>> files; std::string entry = "vx_main"; unsigned tmo = 0;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&]() { if (i + 1 >= argc) die("args"); return std::string(argv[++i]); };
		if (a == "-R") files.push_back({nx(), true});
		else if (a == "-H") files.push_back({nx(), false});
		else if (a == "-p") { std::string p = nx(); size_t q = p.find('='); params[p.substr(0, q)] = strtoull(p.c_str() + q + 1, 0, 0); }
		else if (a == "-cex") cexFile = argv[++i];
		else if (a == "-o") outFile = argv[++i];
		else if (a == "-entry") entry = nx();
		else if (a == "-time") timeLimit = atof(nx().c_str());
		else if (a == "-uninit") checkUninit = true;
		else if (a == "-samples") maxSamples = atoi(nx().c_str());
		else if (a == "-sbase") sampleBase = nx();
		else if (a == "-v") verbose = true;
		else if (a == "-lin") { linMode = true; splitPfx = nx(); }
		else if (a == "-waitmax") waitMax = atoi(nx().c_str());
		else if (a == "-steps") stepLimit = strtoull(nx().c_str(), 0, 0);
		else if (a == "-qtimeout") tmo = atoi(nx().c_str());
		else die("unknown argument " + a);
	}
	T0 = std::chrono::steady_clock::now();
	solverInit(tmo, nullptr);
	loadModules(files);
	if (!extFuncs.count(entry)) die("no entry " + entry);
	State *s0 = new State; s0->objs = globals; s0->w = std::make_shared<Witness>();
	pushFrame(*s0, extFuncs[entry], {}, -1, 0);
	active.push_back(s0);
	uint64_t tick = 0, lcg = 1;
	try {
	while (!active.empty() || !waiting.empty()) {
		if (active.empty() || waiting.size() >= waitMax) { joinAll(); continue; }
		maxStates = std::max<uint64_t>(maxStates, active.size() + waiting.size());
		if ((++tick & 15) == 0 && elapsed() > timeLimit) { report("incomplete", "time limit", ""); _exit(0); }
		/* depth first, but a random pending state now and then, so that a time limit does not confine the search to one corner */
		if ((tick & 63) == 0 && active.size() > 1) { lcg = lcg * 6364136223846793005ULL + 1442695040888963407ULL; std::swap(active[(lcg >> 33) % active.size()], active.back()); }
		State *s = active.back(); active.pop_back();
		int r = run(*s);
		if (r == ENDED) { nPaths++; if (s->fr.empty()) sample(*s); delete s; }
		else waiting.push_back(s);
	}
	} catch (SolverGaveUp &) { report("incomplete", "solver gave up", ""); _exit(0); }
	report("ok", "", "");
	_exit(0);
}

struct MA { int c; char **v; };
static void *thr(void *p) { MA *m = (MA *)p; realMain(m->c, m->v); return nullptr; }
int main(int argc, char **argv)
{
	// expressions can be deep
	MA m{argc, argv}; pthread_t t; pthread_attr_t at;
	pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1ULL << 30);
	if (pthread_create(&t, &at, thr, &m)) { realMain(argc, argv); return 0; }
	pthread_join(t, nullptr);
	return 0;
}
