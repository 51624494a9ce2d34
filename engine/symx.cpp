// symx: a bounded symbolic executor for LLVM 18 IR (C++ programs) with Z3 as the deciding engine.
// See DESIGN.md. Encodes the functions of /repo (compiled to IR on every run) path by path; every branch whose
// condition depends on symbolic data is decided by the solver for all values, every assertion is a solver query.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "mem.h"
#include "solver.h"
#include <deque>
#include <map>
#include <set>
#include <unordered_set>
#include <atomic>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <math.h>
using namespace llvm;

// ---------------------------------------------------------------- values
struct Val { Expr *e; u64 c; };
static inline Expr *toE(const Val &v, unsigned w) { return v.e ? v.e : C(v.c, w); }
static inline Val fromE(Expr *e) { return isC(e) ? Val{nullptr, e->val} : Val{e, 0}; }
static inline Val cv(u64 c) { return Val{nullptr, c}; }

struct Leaf { u32 off; u8 w; u8 bytes; bool fp; };
static LLVMContext *g_ctx;
static Module *g_mod;
static const DataLayout *g_dl;

static std::unordered_map<Type *, std::vector<Leaf> *> g_leaves;
static void addLeaves(Type *t, u32 off, std::vector<Leaf> &out)
{
	if (auto *st = dyn_cast<StructType>(t)) {
		auto *sl = g_dl->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); i++) addLeaves(st->getElementType(i), off + (u32) sl->getElementOffset(i), out);
	} else if (auto *at = dyn_cast<ArrayType>(t)) {
		u32 es = (u32) g_dl->getTypeAllocSize(at->getElementType());
		for (u64 i = 0; i < at->getNumElements(); i++) addLeaves(at->getElementType(), off + es * (u32) i, out);
	} else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
		u32 es = (u32) g_dl->getTypeStoreSize(vt->getElementType());
		for (unsigned i = 0; i < vt->getNumElements(); i++) addLeaves(vt->getElementType(), off + es * i, out);
	} else if (t->isPointerTy()) out.push_back({off, 64, 8, false});
	else if (t->isIntegerTy()) {
		unsigned w = t->getIntegerBitWidth();
		out.push_back({off, (u8)(w > 255 ? 255 : w), (u8)((w + 7) / 8), false});
	} else if (t->isFloatTy()) out.push_back({off, 32, 4, true});
	else if (t->isDoubleTy()) out.push_back({off, 64, 8, true});
	else if (t->isX86_FP80Ty()) out.push_back({off, 80, 10, true});
	else out.push_back({off, 255, 255, false});
}
static const std::vector<Leaf> &leaves(Type *t)
{
	auto &p = g_leaves[t];
	if (!p) { p = new std::vector<Leaf>(); if (!t->isVoidTy() && !t->isLabelTy() && !t->isTokenTy() && !t->isMetadataTy()) addLeaves(t, 0, *p); }
	return *p;
}

// ---------------------------------------------------------------- decoded code
enum IOp : u8 {
	I_BIN, I_ICMP, I_FBIN, I_FCMP, I_FNEG, I_CAST, I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_CALL, I_RET, I_BR, I_CONDBR, I_SWITCH,
	I_MOVE, I_LPAD, I_RESUME, I_UNREACH, I_RMW, I_CMPXCHG, I_NOP, I_UNSUP, I_INSERTDYN, I_EXTRACTDYN, I_VAARG
};
struct Edge { u32 pc; std::vector<std::pair<i32, i32>> moves; }; // (dst, src)
struct GepTerm { i32 idx; u64 scale; u8 w; };
struct FnInfo;
struct Inst {
	IOp op;
	u8 sub = 0, w = 0, w2 = 0;
	u16 n = 1;      // number of leaf slots
	i32 dst = -1, a = 0, b = 0, c = 0;
	u64 imm = 0;
	Edge *e0 = nullptr, *e1 = nullptr;
	const std::vector<Leaf> *lv = nullptr;
	std::vector<i32> *args = nullptr;        // calls: operand base of each arg; select etc.
	std::vector<GepTerm> *gt = nullptr;
	std::vector<std::pair<u64, Edge *>> *cases = nullptr;
	FnInfo *callee = nullptr;
	const Instruction *src = nullptr;
};
struct State;
struct FnInfo {
	Function *F;
	std::string name;
	bool decoded = false;
	std::vector<Inst> code;
	u32 nregs = 0;
	std::vector<u32> argBase;
	std::vector<u8> argWidth;
	int builtin = 0;
	u64 addr = 0, calls = 0;
};
static std::vector<Val> g_consts; // index = -(code)-1
static std::unordered_map<const Constant *, i32> g_constIdx;
static std::unordered_map<const Function *, FnInfo *> g_fn;
static std::unordered_map<u64, FnInfo *> g_fnByAddr;
static std::unordered_map<const GlobalValue *, u64> g_gaddr;

// ---------------------------------------------------------------- addresses
enum { SEG = 22, REG = 44 };
enum { R_GLOBAL = 1, R_DOWN = 2, R_UP = 3, R_STACK = 4 };
static const u64 IDXMASK = (1ull << (REG - SEG)) - 1, SEGMASK = (1ull << SEG) - 1, OBJOFF = 0x1000;
static inline u64 mkAddr(u64 region, u64 idx) { return (region << REG) | (idx << SEG) | OBJOFF; }

// ---------------------------------------------------------------- state
struct Frame { FnInfo *f; u32 pc, base, stackMark; u64 vaArea; };
struct ExcRec { u64 obj, tinfo, dtor, adj; int handlers; bool rethrown; };
struct Thread {
	std::vector<Frame> fr;
	std::vector<Val> regs;
	ObjTable stack;
	std::vector<ExcRec> caught; // handler stack
	std::vector<ExcRec> inflight; // thrown, not caught yet
	std::vector<ExcRec> saved; // held by std::exception_ptr
	u64 curExc = 0; u64 curSel = 0;
	bool done = false;
};
struct TraceRec { const char *msg; Expr *e; u64 v; bool hv; };
struct InputRec { const char *name; u32 seq; Expr *var; u64 val; u8 w; };
struct State {
	u64 id = 0;
	std::vector<std::shared_ptr<Thread>> th;
	u32 cur = 0;
	ObjTable glob, up, down;
	std::vector<Expr *> pc;
	Model model;
	std::vector<InputRec> inputs;
	std::map<const char *, u32> streamCnt;
	std::vector<TraceRec> trace;
	u32 uninitEpoch = 0;
	int dir = 0;
	u64 steps = 0;
	u64 live[2] = {0, 0}; // objects and bytes allocated by operator new
	u32 initIdx = 0;
	u32 depth = 0;
	std::vector<std::pair<u64, u64>> kv; // sym_set/sym_get
	State() {}
	State(const State &s) = default;
	Thread &T() { return *th[cur]; }
	State *fork() const
	{
		State *n = new State(*this);
		for (auto &t : n->th) t = std::make_shared<Thread>(*t);
		n->depth++;
		return n;
	}
};

struct Options {
	std::string file, out, entry = "sym_main", smt;
	double maxTime = 600;
	u64 maxPaths = 0, maxSteps = 200000000;
	u32 jobs = 8, frontier = 400, maxCE = 4, timeoutMs = 30000, smtMax = 0, smtEvery = 1;
	u32 maxCeTotal = 12, wit = 0;
	double memMB = 3500;
	bool verbose = false;
	std::vector<std::string> only;
};
static Options opt;

struct CE { std::string kind, msg, where; std::vector<std::string> trace; std::vector<std::pair<std::string, std::pair<u32, u64>>> inputs; std::vector<std::string> stack; };
struct Result {
	u64 paths = 0, killed = 0, forks = 0, steps = 0, asserts = 0, assertQueries = 0, branchQueries = 0, picks = 0, errors = 0;
	std::map<std::string, u64> reach;
	std::vector<CE> ces, wits;
	std::map<std::string, u64> ceCount;
	std::map<std::string, std::pair<u64, std::string>> incomplete;
	std::set<std::string> funcs;
	std::map<std::string, u64> stubs;
};
static Result R;
static Solver S;
static std::deque<State *> g_work;
static double g_t0;
static bool g_stop = false;
struct Shared { std::atomic<u64> next; std::atomic<u32> ceTotal; std::atomic<u32> stop; };
static Shared *g_sh;

struct Kill {};       // path ended (normally / assumption failed)
struct EngineErr { std::string msg; };
static std::set<std::string> g_strpool;
static const char *intern(const std::string &s) { return g_strpool.insert(s).first->c_str(); }

static std::string demang(const std::string &n) { return llvm::demangle(n); }
static std::string locOf(const Instruction *I)
{
	if (!I) return "?";
	std::string r;
	if (auto &dl = I->getDebugLoc()) {
		auto *sc = dl->getScope();
		std::string f = sc->getFilename().str();
		r = f + ":" + std::to_string(dl.getLine());
	}
	return r;
}

// ---------------------------------------------------------------- constants
static u64 constLeaf(const Constant *c);
static u64 constGepOff(const GEPOperator *g)
{
	APInt off(64, 0);
	if (!g->accumulateConstantOffset(*g_dl, off)) throw EngineErr{"non constant GEP constant expression"};
	return off.getSExtValue();
}
static u64 constLeaf(const Constant *c)
{
	if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { if (ci->getValue().getActiveBits() > 64) throw EngineErr{"wide constant"}; return ci->getValue().extractBitsAsZExtValue(64, 0); } return ci->getZExtValue(); }
	if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
	if (auto *cf = dyn_cast<ConstantFP>(c)) { APInt b = cf->getValueAPF().bitcastToAPInt(); return b.getBitWidth() <= 64 ? b.getZExtValue() : 0; }
	if (auto *ga = dyn_cast<GlobalAlias>(c)) return constLeaf(ga->getAliasee());
	if (auto *gv = dyn_cast<GlobalValue>(c)) { auto it = g_gaddr.find(gv); if (it == g_gaddr.end()) throw EngineErr{"no address for " + gv->getName().str()}; return it->second; }
	if (auto *ce = dyn_cast<ConstantExpr>(c)) {
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: return constLeaf(ce->getOperand(0)) + constGepOff(cast<GEPOperator>(ce));
		case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::PtrToInt: case Instruction::IntToPtr: {
			u64 v = constLeaf(ce->getOperand(0));
			Type *t = ce->getType();
			if (t->isIntegerTy() && t->getIntegerBitWidth() < 64) v &= maskw(t->getIntegerBitWidth());
			return v;
		}
		case Instruction::Trunc: return constLeaf(ce->getOperand(0)) & maskw(ce->getType()->getIntegerBitWidth());
		case Instruction::Add: return (constLeaf(ce->getOperand(0)) + constLeaf(ce->getOperand(1))) & maskw(ce->getType()->getIntegerBitWidth());
		case Instruction::Sub: return (constLeaf(ce->getOperand(0)) - constLeaf(ce->getOperand(1))) & maskw(ce->getType()->getIntegerBitWidth());
		case Instruction::ICmp: {
			u64 x = constLeaf(ce->getOperand(0)), y = constLeaf(ce->getOperand(1));
			switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return x == y; case CmpInst::ICMP_NE: return x != y; case CmpInst::ICMP_ULT: return x < y; case CmpInst::ICMP_UGT: return x > y; default: break; }
			break;
		}
		default: break;
		}
	}
	std::string s; raw_string_ostream os(s); c->print(os);
	throw EngineErr{"unsupported constant " + s};
}
static void flattenConst(const Constant *c, std::vector<u64> &out)
{
	Type *t = c->getType();
	if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
		if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { out.insert(out.end(), leaves(t).size(), 0); return; }
		if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
			for (unsigned i = 0; i < cd->getNumElements(); i++) {
				if (cd->getElementType()->isIntegerTy()) out.push_back(cd->getElementAsInteger(i));
				else out.push_back(cd->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue());
			}
			return;
		}
		for (unsigned i = 0; i < c->getNumOperands(); i++) flattenConst(cast<Constant>(c->getOperand(i)), out);
		return;
	}
	out.push_back(constLeaf(c));
}
static void writeConst(const Constant *c, u8 *p)
{
	Type *t = c->getType();
	if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
	if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(p, r.data(), r.size()); return; }
	if (t->isStructTy()) {
		auto *sl = g_dl->getStructLayout(cast<StructType>(t));
		for (unsigned i = 0; i < c->getNumOperands(); i++) writeConst(cast<Constant>(c->getOperand(i)), p + sl->getElementOffset(i));
		return;
	}
	if (t->isArrayTy() || t->isVectorTy()) {
		Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
		u64 es = g_dl->getTypeAllocSize(et);
		for (unsigned i = 0; i < c->getNumOperands(); i++) writeConst(cast<Constant>(c->getOperand(i)), p + es * i);
		return;
	}
	if (t->isX86_FP80Ty()) { APInt b = cast<ConstantFP>(c)->getValueAPF().bitcastToAPInt(); memcpy(p, b.getRawData(), 10); return; }
	u64 v = constLeaf(c);
	memcpy(p, &v, g_dl->getTypeStoreSize(t));
}

// ---------------------------------------------------------------- decoding
struct Decoder {
	FnInfo *fi;
	std::unordered_map<const Value *, i32> slot;
	std::unordered_map<const BasicBlock *, u32> bbpc;
	std::vector<std::pair<Edge *, std::pair<const BasicBlock *, const BasicBlock *>>> pend;

	i32 constSlot(const Constant *c)
	{
		auto it = g_constIdx.find(c);
		if (it != g_constIdx.end()) return it->second;
		std::vector<u64> v;
		flattenConst(c, v);
		if (v.empty()) v.push_back(0);
		// stored so that slot code k (negative) has consecutive leaves at code-0, code-1 ... => index -(code)-1 + i
		i32 code = -(i32) g_consts.size() - 1;
		for (u64 x : v) g_consts.push_back(cv(x));
		g_constIdx[c] = code;
		return code;
	}
	i32 opnd(const Value *v)
	{
		if (auto *c = dyn_cast<Constant>(v)) return constSlot(c);
		auto it = slot.find(v);
		if (it == slot.end()) {
			if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return constSlot(ConstantInt::get(Type::getInt64Ty(*g_ctx), 0));
			throw EngineErr{"operand without slot in " + fi->name};
		}
		return it->second;
	}
	static i32 sub(i32 code, u32 k) { return code >= 0 ? code + (i32) k : code - (i32) k; }
	static unsigned wOf(Type *t) { if (t->isPointerTy()) return 64; if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); return 255; }
	Edge *edge(const BasicBlock *from, const BasicBlock *to)
	{
		Edge *e = new Edge();
		pend.push_back({e, {from, to}});
		return e;
	}
	void run();
	void inst(const Instruction &I);
};
static u32 leafIndex(Type *t, ArrayRef<unsigned> idx, Type **outT)
{
	u32 k = 0;
	for (unsigned i : idx) {
		if (auto *st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) k += (u32) leaves(st->getElementType(j)).size(); t = st->getElementType(i); }
		else { Type *et = t->getArrayElementType(); k += i * (u32) leaves(et).size(); t = et; }
	}
	*outT = t;
	return k;
}
static int builtinId(const std::string &n);
static FnInfo *fnInfo(Function *F);

void Decoder::inst(const Instruction &I)
{
	Inst d;
	d.src = &I;
	d.op = I_UNSUP;
	auto it = slot.find(&I);
	if (it != slot.end()) d.dst = it->second;
	Type *ty = I.getType();
	auto nleaf = [&](Type *t) { return (u16) leaves(t).size(); };
	auto push = [&]() { fi->code.push_back(d); };
	switch (I.getOpcode()) {
	case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
	case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
		static const std::map<unsigned, Op> m = {{Instruction::Add, O_ADD}, {Instruction::Sub, O_SUB}, {Instruction::Mul, O_MUL}, {Instruction::UDiv, O_UDIV}, {Instruction::SDiv, O_SDIV}, {Instruction::URem, O_UREM}, {Instruction::SRem, O_SREM}, {Instruction::And, O_AND}, {Instruction::Or, O_OR}, {Instruction::Xor, O_XOR}, {Instruction::Shl, O_SHL}, {Instruction::LShr, O_LSHR}, {Instruction::AShr, O_ASHR}};
		d.sub = m.at(I.getOpcode());
		d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1));
		d.n = nleaf(ty);
		unsigned w = wOf(ty->getScalarType());
		if (w <= 64) { d.op = I_BIN; d.w = w; }
		push(); return;
	}
	case Instruction::ICmp: {
		d.sub = cast<ICmpInst>(I).getPredicate();
		d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1));
		Type *ot = I.getOperand(0)->getType();
		unsigned w = wOf(ot->getScalarType());
		d.n = nleaf(ot);
		if (w <= 64) { d.op = I_ICMP; d.w = w; }
		push(); return;
	}
	case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
		if (ty->isFloatTy() || ty->isDoubleTy()) { d.op = I_FBIN; d.sub = I.getOpcode() == Instruction::FAdd ? 0 : I.getOpcode() == Instruction::FSub ? 1 : I.getOpcode() == Instruction::FMul ? 2 : I.getOpcode() == Instruction::FDiv ? 3 : 4; d.w = wOf(ty); d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); }
		push(); return;
	case Instruction::FNeg: if (ty->isFloatTy() || ty->isDoubleTy()) { d.op = I_FNEG; d.w = wOf(ty); d.a = opnd(I.getOperand(0)); } push(); return;
	case Instruction::FCmp: if (I.getOperand(0)->getType()->isFloatTy() || I.getOperand(0)->getType()->isDoubleTy()) { d.op = I_FCMP; d.sub = cast<FCmpInst>(I).getPredicate(); d.w = wOf(I.getOperand(0)->getType()); d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); } push(); return;
	case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
	case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt: {
		Type *ot = I.getOperand(0)->getType();
		unsigned w1 = wOf(ot->getScalarType()), w2 = wOf(ty->getScalarType());
		d.a = opnd(I.getOperand(0));
		if (w1 > 64 || w2 > 64 || leaves(ot).size() != leaves(ty).size()) { push(); return; }
		d.op = I_CAST; d.w = w1; d.w2 = w2; d.n = nleaf(ty);
		d.sub = I.getOpcode();
		push(); return;
	}
	case Instruction::Freeze: d.op = I_MOVE; d.a = opnd(I.getOperand(0)); d.n = nleaf(ty); push(); return;
	case Instruction::Select: {
		d.op = I_SELECT; d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); d.c = opnd(I.getOperand(2)); d.n = nleaf(ty);
		d.lv = &leaves(ty);
		d.sub = I.getOperand(0)->getType()->isVectorTy();
		d.w = ty->isPointerTy() ? 1 : 0;
		push(); return;
	}
	case Instruction::Load: d.op = I_LOAD; d.a = opnd(I.getOperand(0)); d.lv = &leaves(ty); d.n = nleaf(ty); d.imm = g_dl->getTypeStoreSize(ty); push(); return;
	case Instruction::Store: { Type *vt = I.getOperand(0)->getType(); d.op = I_STORE; d.b = opnd(I.getOperand(0)); d.a = opnd(I.getOperand(1)); d.lv = &leaves(vt); d.n = nleaf(vt); d.imm = g_dl->getTypeStoreSize(vt); push(); return; }
	case Instruction::GetElementPtr: {
		if (ty->isVectorTy()) { push(); return; }
		d.op = I_GEP; d.a = opnd(I.getOperand(0));
		u64 off = 0;
		for (auto gi = gep_type_begin(I), ge = gep_type_end(I); gi != ge; ++gi) {
			const Value *ix = gi.getOperand();
			if (StructType *st = gi.getStructTypeOrNull()) off += g_dl->getStructLayout(st)->getElementOffset((unsigned) cast<ConstantInt>(ix)->getZExtValue());
			else {
				u64 sc = g_dl->getTypeAllocSize(gi.getIndexedType());
				if (auto *ci = dyn_cast<ConstantInt>(ix)) off += sc * (u64) ci->getSExtValue();
				else { if (!d.gt) d.gt = new std::vector<GepTerm>(); d.gt->push_back({opnd(ix), sc, (u8) wOf(ix->getType())}); }
			}
		}
		d.imm = off;
		push(); return;
	}
	case Instruction::Alloca: {
		auto &A = cast<AllocaInst>(I);
		d.op = I_ALLOCA; d.imm = g_dl->getTypeAllocSize(A.getAllocatedType()); d.a = opnd(A.getArraySize()); d.w = wOf(A.getArraySize()->getType());
		push(); return;
	}
	case Instruction::ExtractValue: {
		auto &E = cast<ExtractValueInst>(I);
		Type *t; u32 k = leafIndex(E.getAggregateOperand()->getType(), E.getIndices(), &t);
		d.op = I_MOVE; d.a = sub(opnd(E.getAggregateOperand()), k); d.n = nleaf(t);
		push(); return;
	}
	case Instruction::InsertValue: {
		auto &E = cast<InsertValueInst>(I);
		Type *t; u32 k = leafIndex(ty, E.getIndices(), &t);
		d.op = I_MOVE; d.a = opnd(E.getAggregateOperand()); d.n = nleaf(ty);
		push();
		Inst d2; d2.op = I_MOVE; d2.src = &I; d2.dst = d.dst + (i32) k; d2.a = opnd(E.getInsertedValueOperand()); d2.n = nleaf(t);
		fi->code.push_back(d2);
		return;
	}
	case Instruction::ExtractElement: {
		if (auto *ci = dyn_cast<ConstantInt>(I.getOperand(1))) { d.op = I_MOVE; d.a = sub(opnd(I.getOperand(0)), (u32) ci->getZExtValue()); d.n = 1; }
		push(); return;
	}
	case Instruction::InsertElement: {
		if (auto *ci = dyn_cast<ConstantInt>(I.getOperand(2))) {
			d.op = I_MOVE; d.a = opnd(I.getOperand(0)); d.n = nleaf(ty); push();
			Inst d2; d2.op = I_MOVE; d2.src = &I; d2.dst = d.dst + (i32) ci->getZExtValue(); d2.a = opnd(I.getOperand(1)); d2.n = 1;
			fi->code.push_back(d2); return;
		}
		push(); return;
	}
	case Instruction::ShuffleVector: {
		auto &SV = cast<ShuffleVectorInst>(I);
		unsigned n0 = (unsigned) leaves(I.getOperand(0)->getType()).size();
		i32 a = opnd(I.getOperand(0)), b = opnd(I.getOperand(1));
		int k = 0;
		for (int m : SV.getShuffleMask()) {
			Inst d2; d2.op = I_MOVE; d2.src = &I; d2.dst = d.dst + k++; d2.n = 1;
			d2.a = m < 0 ? a : (unsigned) m < n0 ? sub(a, (u32) m) : sub(b, (u32) m - n0);
			fi->code.push_back(d2);
		}
		return;
	}
	case Instruction::Call: case Instruction::Invoke: {
		auto &CB = cast<CallBase>(I);
		if (isa<DbgInfoIntrinsic>(I)) return;
		d.op = I_CALL;
		d.args = new std::vector<i32>();
		Function *cf = dyn_cast<Function>(CB.getCalledOperand()->stripPointerCastsAndAliases());
		if (cf && cf->isIntrinsic()) {
			switch (cf->getIntrinsicID()) {
			case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::var_annotation:
			case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::assume: case Intrinsic::prefetch: case Intrinsic::dbg_assign: case Intrinsic::stackrestore:
				d.op = I_NOP; if (auto *iv = dyn_cast<InvokeInst>(&I)) { d.op = I_BR; d.e0 = edge(I.getParent(), iv->getNormalDest()); } push(); return;
			default: break;
			}
		}
		d.n = ty->isVoidTy() ? 0 : nleaf(ty);
		if (!ty->isVoidTy() && d.n == 1) d.w = wOf(ty);
		for (auto &a : CB.args()) d.args->push_back(opnd(a.get()));
		if (CB.isInlineAsm()) { d.op = cast<InlineAsm>(CB.getCalledOperand())->getAsmString().empty() ? I_NOP : I_UNSUP; push(); return; }
		if (cf) d.callee = fnInfo(cf); else d.a = opnd(CB.getCalledOperand());
		if (auto *iv = dyn_cast<InvokeInst>(&I)) { d.e0 = edge(I.getParent(), iv->getNormalDest()); d.e1 = edge(I.getParent(), iv->getUnwindDest()); }
		push(); return;
	}
	case Instruction::Ret: d.op = I_RET; d.n = 0; if (I.getNumOperands()) { d.a = opnd(I.getOperand(0)); d.n = nleaf(I.getOperand(0)->getType()); } push(); return;
	case Instruction::Br: {
		auto &B = cast<BranchInst>(I);
		if (B.isUnconditional()) { d.op = I_BR; d.e0 = edge(I.getParent(), B.getSuccessor(0)); }
		else { d.op = I_CONDBR; d.a = opnd(B.getCondition()); d.e0 = edge(I.getParent(), B.getSuccessor(0)); d.e1 = edge(I.getParent(), B.getSuccessor(1)); }
		push(); return;
	}
	case Instruction::Switch: {
		auto &SW = cast<SwitchInst>(I);
		d.op = I_SWITCH; d.a = opnd(SW.getCondition()); d.w = wOf(SW.getCondition()->getType());
		d.e0 = edge(I.getParent(), SW.getDefaultDest());
		d.cases = new std::vector<std::pair<u64, Edge *>>();
		for (auto &cs : SW.cases()) d.cases->push_back({cs.getCaseValue()->getZExtValue(), edge(I.getParent(), cs.getCaseSuccessor())});
		push(); return;
	}
	case Instruction::LandingPad: d.op = I_LPAD; push(); return;
	case Instruction::Resume: d.op = I_RESUME; d.a = opnd(I.getOperand(0)); push(); return;
	case Instruction::Unreachable: d.op = I_UNREACH; push(); return;
	case Instruction::Fence: d.op = I_NOP; push(); return;
	case Instruction::AtomicRMW: {
		auto &A = cast<AtomicRMWInst>(I);
		d.op = I_RMW; d.sub = A.getOperation(); d.a = opnd(A.getPointerOperand()); d.b = opnd(A.getValOperand()); d.lv = &leaves(ty); d.w = wOf(ty); d.imm = g_dl->getTypeStoreSize(ty);
		push(); return;
	}
	case Instruction::AtomicCmpXchg: {
		auto &A = cast<AtomicCmpXchgInst>(I);
		d.op = I_CMPXCHG; d.a = opnd(A.getPointerOperand()); d.b = opnd(A.getCompareOperand()); d.c = opnd(A.getNewValOperand());
		d.lv = &leaves(A.getCompareOperand()->getType()); d.w = wOf(A.getCompareOperand()->getType());
		push(); return;
	}
	case Instruction::PHI: return;
	default: push(); return;
	}
}
void Decoder::run()
{
	Function *F = fi->F;
	i32 n = 0;
	for (auto &A : F->args()) { fi->argBase.push_back((u32) n); slot[&A] = n; n += std::max<i32>(1, (i32) leaves(A.getType()).size()); fi->argWidth.push_back((u8) wOf(A.getType())); }
	for (auto &B : *F) for (auto &I : B) if (!I.getType()->isVoidTy() && !I.getType()->isTokenTy()) { slot[&I] = n; n += std::max<i32>(1, (i32) leaves(I.getType()).size()); }
	fi->nregs = (u32) n;
	for (auto &B : *F) {
		bbpc[&B] = (u32) fi->code.size();
		for (auto &I : B) inst(I);
	}
	for (auto &p : pend) {
		Edge *e = p.first;
		const BasicBlock *from = p.second.first, *to = p.second.second;
		e->pc = bbpc.at(to);
		for (auto &phi : to->phis()) {
			const Value *v = phi.getIncomingValueForBlock(from);
			i32 s = opnd(v), t = slot.at(&phi);
			for (u32 k = 0; k < leaves(phi.getType()).size(); k++) e->moves.push_back({t + (i32) k, sub(s, k)});
		}
	}
	fi->decoded = true;
}
static FnInfo *fnInfo(Function *F)
{
	auto &p = g_fn[F];
	if (!p) {
		p = new FnInfo();
		p->F = F;
		p->name = F->getName().str();
		auto a = g_gaddr.find(F);
		if (a != g_gaddr.end()) p->addr = a->second;
		p->builtin = builtinId(p->name);
	}
	return p;
}

// ---------------------------------------------------------------- interpreter
struct Interp {
	State *s = nullptr;
	Thread *t = nullptr;
	Inst *in = nullptr;

	[[noreturn]] void fail(const std::string &kind, const std::string &msg) { report(kind, msg, s->model); throw Kill(); }
	std::vector<std::string> stackTrace()
	{
		std::vector<std::string> r;
		for (size_t i = t->fr.size(); i-- > 0;) {
			auto &f = t->fr[i];
			const Instruction *I = f.pc < f.f->code.size() ? f.f->code[f.pc].src : nullptr;
			r.push_back(demang(f.f->name) + " " + locOf(I));
			if (r.size() > 24) break;
		}
		return r;
	}
	void fillTrace(CE &ce, const Model &m)
	{
		for (auto &r : s->trace) ce.trace.push_back(r.hv ? std::string(r.msg) + "=" + std::to_string(r.e ? evalExpr(r.e, m) : r.v) : std::string(r.msg));
		for (auto &i : s->inputs) ce.inputs.push_back({i.name, {i.seq, i.var ? evalExpr(i.var, m) : i.val}});
	}
	void witness()
	{
		if (R.wits.size() >= opt.wit || (opt.wit < 100 && (R.paths & (R.paths - 1)))) return;
		CE ce;
		ce.kind = "witness";
		fillTrace(ce, s->model);
		R.wits.push_back(ce);
	}
	void report(const std::string &kind, const std::string &msg, const Model &m)
	{
		std::string key = kind + ": " + msg;
		R.errors++;
		if (R.ceCount[key]++ >= 1 || R.ces.size() >= opt.maxCE) return;
		CE ce;
		ce.kind = kind; ce.msg = msg; ce.stack = stackTrace();
		fillTrace(ce, m);
		ce.where = ce.stack.empty() ? "" : ce.stack[0];
		R.ces.push_back(ce);
		if (g_sh->ceTotal.fetch_add(1) + 1 >= opt.maxCeTotal) g_sh->stop = 1;
	}
	void incomplete(const std::string &why)
	{
		auto &p = R.incomplete[why];
		if (p.first++ == 0) { std::string st; for (auto &x : stackTrace()) st += x + " <- "; p.second = st; }
	}

	// ---- solver helpers
	std::vector<u32> stampv; u32 stampN = 0;
	void slice(Expr *q, std::vector<Expr *> &out)
	{
		if (stampv.size() < g_vars.size()) stampv.resize(g_vars.size() + 64, 0);
		stampN++;
		for (u32 v : exprVars(q)) stampv[v] = stampN;
		out.clear();
		std::vector<Expr *> rest(s->pc.begin(), s->pc.end());
		bool ch = true;
		while (ch) {
			ch = false;
			size_t k = 0;
			for (size_t i = 0; i < rest.size(); i++) {
				Expr *e = rest[i];
				const auto &vs = exprVars(e);
				bool hit = false;
				for (u32 v : vs) if (stampv[v] == stampN) { hit = true; break; }
				if (hit) {
					for (u32 v : vs) if (stampv[v] != stampN) { stampv[v] = stampN; ch = true; }
					out.push_back(e);
				} else rest[k++] = e;
			}
			rest.resize(k);
		}
		out.push_back(q);
	}
	// is pc && q satisfiable? fills model update
	int sat(Expr *q, Solver::Entry **en)
	{
		if (isC(q)) { *en = nullptr; return q->val ? 1 : 0; }
		Expr *nq = mkNot(q);
		for (Expr *e : s->pc) if (e == nq) { *en = nullptr; return 0; }
		std::vector<Expr *> cs;
		slice(q, cs);
		int r = S.check(cs, en);
		if (r < 0) incomplete("solver returned unknown");
		return r;
	}
	void applyModel(Model &m, Solver::Entry *en)
	{
		if (!en) return;
		for (auto &p : en->model) { if (p.first >= m.size()) m.resize(p.first + 16, 0); m[p.first] = p.second; }
	}
	void addPC(State *st, Expr *c)
	{
		if (isC(c)) return;
		if (c->op == O_AND && c->w == 1) { addPC(st, c->a); addPC(st, c->b); return; }
		for (Expr *e : st->pc) if (e == c) return;
		st->pc.push_back(c);
	}
	// decide a symbolic condition for this state, forking if both outcomes are possible
	bool decide(Expr *c)
	{
		if (isC(c)) return c->val;
		Expr *nc = mkNot(c);
		for (Expr *e : s->pc) { if (e == c) return true; if (e == nc) return false; }
		bool v = evalExpr(c, s->model);
		Expr *mine = v ? c : nc, *other = v ? nc : c;
		Solver::Entry *en;
		R.branchQueries++;
		int r = sat(other, &en);
		if (r == 1) {
			State *n = s->fork();
			applyModel(n->model, en);
			addPC(n, other);
			R.forks++;
			g_work.push_back(n);
			addPC(s, mine);
		} // else: implied, nothing to add
		return v;
	}
	u64 concretize(const Val &v, unsigned w)
	{
		if (!v.e) return v.c;
		u64 k = evalExpr(v.e, s->model);
		Expr *eq = mkEq(v.e, C(k, w));
		if (isC(eq)) return k;
		for (Expr *e : s->pc) if (e == eq) return k;
		decide(eq);
		return k;
	}

	// ---- memory
	Obj *objAt(u64 addr, u64 &off, ObjTable **tab, u32 *idx)
	{
		u64 r = addr >> REG, ix = (addr >> SEG) & IDXMASK;
		off = (addr & SEGMASK) - OBJOFF;
		ObjTable *tb;
		if (r == R_GLOBAL) tb = &s->glob;
		else if (r == R_UP) tb = &s->up;
		else if (r == R_DOWN) { tb = &s->down; ix = IDXMASK - ix; }
		else if (r >= R_STACK && r < R_STACK + s->th.size()) tb = &s->th[r - R_STACK]->stack;
		else return nullptr;
		if (ix >= tb->n) return nullptr;
		if (tab) { *tab = tb; *idx = (u32) ix; }
		return tb->get((u32) ix);
	}
	std::string hex(u64 v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long) v); return b; }
	Obj *access(u64 addr, u64 n, u64 &off, bool write)
	{
		ObjTable *tb = nullptr; u32 ix = 0;
		Obj *o = objAt(addr, off, &tb, &ix);
		if (!o || (o->flags & OF_FUNC)) fail("memory", addr < 4096 ? "null pointer dereference" : "access to an invalid address");
		if (o->flags & OF_FREED) fail("memory", "use after free");
		if (off > o->size || n > o->size - off) { if (n == 0 && off <= o->size) return o; fail("memory", std::string(write ? "out-of-bounds write" : "out-of-bounds read") + ((o->flags & OF_HEAP) ? " (heap)" : (o->flags & OF_STACK) ? " (stack)" : " (global)")); }
		if (o->flags & OF_EXT) { incomplete("access to unmodelled external object"); throw Kill(); }
		if (write) {
			if (o->flags & OF_RO) fail("memory", "write to read-only memory");
			if (n) o = tb->getW(ix);
		}
		return o;
	}
	Expr *byteE(Obj *o, u64 off, u64 addr)
	{
		if (!o->tag || o->tag[off] == TG_CONC) return C(o->data[off], 8);
		if (o->tag[off] == TG_SYM) return o->sym[off];
		return mkVar("uninit", (u32)((addr >> SEG) * 2654435761u + o->epoch * 40503u + off), 8, false);
	}
	Val loadLeaf(Obj *o, u64 off, u64 addr, unsigned w, unsigned bytes)
	{
		bool conc = true;
		if (o->tag) for (unsigned i = 0; i < bytes; i++) if (o->tag[off + i]) { conc = false; break; }
		if (conc) { u64 v = 0; memcpy(&v, o->data + off, bytes); return cv(v & maskw(w)); }
		Expr *e = byteE(o, off, addr);
		for (unsigned i = 1; i < bytes; i++) e = mkConcat(byteE(o, off + i, addr + i), e);
		if (w < bytes * 8) e = mkExtract(e, 0, w);
		return fromE(e);
	}
	void storeLeaf(Obj *o, u64 off, const Val &v, unsigned w, unsigned bytes)
	{
		if (!v.e) {
			u64 x = v.c & maskw(w);
			memcpy(o->data + off, &x, bytes);
			if (o->tag) memset(o->tag + off, TG_CONC, bytes);
			return;
		}
		o->needSym();
		Expr *e = v.e;
		if (w < bytes * 8) e = mkZExt(e, bytes * 8);
		for (unsigned i = 0; i < bytes; i++) {
			Expr *b = mkExtract(e, i * 8, 8);
			if (isC(b)) { o->data[off + i] = (u8) b->val; o->tag[off + i] = TG_CONC; }
			else { o->sym[off + i] = b; o->tag[off + i] = TG_SYM; }
		}
	}
	// load of one scalar at possibly symbolic address
	u64 addrOf(const Val &p) { return concretize(p, 64); }
	u64 allocHeap(u64 size, u8 kind, bool zero)
	{
		if (kind != AK_MALLOC) { s->live[0]++; s->live[1] += size; }
		if (size > SEGMASK - 2 * OBJOFF) fail("memory", "allocation larger than the modelled 4 MB");
		Obj *o = Obj::make((u32) size, OF_HEAP);
		o->akind = kind;
		if (!zero) o->uninit();
		if (s->dir) { u32 k = s->down.push(o); return mkAddr(R_DOWN, IDXMASK - k); }
		u32 k = s->up.push(o);
		return mkAddr(R_UP, k);
	}
	void freeHeap(u64 addr, u8 kind)
	{
		if (!addr) return;
		u64 off; ObjTable *tb; u32 ix;
		Obj *o = objAt(addr, off, &tb, &ix);
		if (!o || !(o->flags & OF_HEAP) || off != 0) fail("memory", "free of a pointer that was not allocated");
		if (o->flags & OF_FREED) fail("memory", "double free");
		if ((o->akind == AK_MALLOC) != (kind == AK_MALLOC)) fail("memory", "mismatched allocation and deallocation functions");
		if (kind != AK_MALLOC) { s->live[0]--; s->live[1] -= o->size; }
		Obj *d = Obj::make(0, o->flags | OF_FREED);
		tb->set(ix, d);
	}
	u64 allocStack(u64 size)
	{
		if (size > SEGMASK - 2 * OBJOFF) fail("memory", "huge stack object");
		Obj *o = Obj::make((u32) size, OF_STACK);
		o->epoch = ++s->uninitEpoch;
		o->uninit();
		u32 k = t->stack.push(o);
		return mkAddr(R_STACK + s->cur, k);
	}
	void copyMem(u64 d, u64 sa, u64 n)
	{
		if (!n) return;
		u64 so, dof;
		Obj *so_ = access(sa, n, so, false);
		so_->rc++; // keep alive over write clone
		Obj *dd = access(d, n, dof, true);
		Obj *ss = so_;
		if (ss->tag || dd->tag) {
			if (ss == dd || (ss->rc > 1 && false)) {}
			std::vector<u8> td(n), tt(n, 0);
			std::vector<Expr *> te;
			memcpy(td.data(), ss->data + so, n);
			if (ss->tag) memcpy(tt.data(), ss->tag + so, n);
			bool anyS = false, any = false;
			for (u64 i = 0; i < n; i++) { if (tt[i] == TG_SYM) anyS = true; if (tt[i]) any = true; }
			if (anyS) { te.resize(n); for (u64 i = 0; i < n; i++) te[i] = tt[i] == TG_SYM ? ss->sym[so + i] : nullptr; }
			memcpy(dd->data + dof, td.data(), n);
			if (anyS) dd->needSym(); else if (any) dd->needTag();
			if (dd->tag) memcpy(dd->tag + dof, tt.data(), n);
			if (anyS) for (u64 i = 0; i < n; i++) if (te[i]) dd->sym[dof + i] = te[i];
		} else memmove(dd->data + dof, ss->data + so, n);
		so_->drop();
	}
	void rdStr(u64 p, std::string &out)
	{
		out.clear();
		for (;;) { u64 off; Obj *o = access(p, 1, off, false); if (o->tag && o->tag[off]) { out += '?'; } else { if (!o->data[off]) return; out += (char) o->data[off]; } p++; if (out.size() > 4000) return; }
	}
	u64 rd64(u64 p) { u64 off; Obj *o = access(p, 8, off, false); Val v = loadLeaf(o, off, p, 64, 8); return concretize(v, 64); }
	void wr(u64 p, u64 v, unsigned bytes) { u64 off; Obj *o = access(p, bytes, off, true); storeLeaf(o, off, cv(v), bytes * 8, bytes); }

	// ---- register access
	Val *rb = nullptr;
	inline const Val &R_(i32 code) { return code >= 0 ? rb[code] : g_consts[-(size_t) code - 1]; }
	inline const Val &Rk(i32 code, u32 k) { return code >= 0 ? rb[code + (i32) k] : g_consts[-(size_t) code - 1 + k]; }
	void sync() { t = s->th[s->cur].get(); if (!t->fr.empty()) rb = t->regs.data() + t->fr.back().base; }
	void take(Edge *e)
	{
		auto &m = e->moves;
		if (m.size() == 1) rb[m[0].first] = R_(m[0].second);
		else if (m.size() > 1) {
			Val tmp[64];
			std::vector<Val> big;
			Val *p = tmp;
			if (m.size() > 64) { big.resize(m.size()); p = big.data(); }
			for (size_t i = 0; i < m.size(); i++) p[i] = R_(m[i].second);
			for (size_t i = 0; i < m.size(); i++) rb[m[i].first] = p[i];
		}
		t->fr.back().pc = e->pc;
	}
	void pushFrame(FnInfo *f, const std::vector<Val> *args)
	{
		if (!f->decoded) { Decoder d; d.fi = f; d.run(); R.funcs.insert(f->name); }
		f->calls++;
		if (t->fr.size() > 4000) fail("limit", "call stack deeper than 4000 frames");
		u32 base = t->fr.empty() ? 0 : t->fr.back().base + t->fr.back().f->nregs;
		if (t->regs.size() < base + f->nregs) t->regs.resize(base + f->nregs + 64);
		t->fr.push_back({f, 0, base, t->stack.n, 0});
		rb = t->regs.data() + base;
		(void) args;
	}
	void popStackTo(u32 mark) { while (t->stack.n > mark) t->stack.pop(); }

	void callFn(FnInfo *f, const std::vector<i32> &argc_, const Inst *ci)
	{
		// evaluate arguments in caller context
		Val small[32];
		std::vector<Val> big;
		FnInfo *caller = t->fr.back().f;
		(void) caller;
		if (f->F->isDeclaration()) {
			incomplete("call to unmodelled function " + demang(f->name));
			throw Kill();
		}
		Function *F = f->F;
		size_t nfix = F->arg_size();
		const CallBase *cb = ci ? cast<CallBase>(ci->src) : nullptr;
		if (!f->decoded) { Decoder d; d.fi = f; d.run(); R.funcs.insert(f->name); }
		std::vector<std::pair<u32, Val>> vals;
		u64 va = 0;
		if (argc_.size() < nfix) fail("memory", "call with too few arguments");
		u32 nv = 0;
		for (size_t i = 0; i < nfix; i++) {
			u32 n = (u32) std::max<size_t>(1, leaves(F->getArg((unsigned) i)->getType()).size());
			if (nv + n > 32) { if (big.empty()) big.assign(small, small + nv); }
			for (u32 k = 0; k < n; k++) { Val v = Rk(argc_[i], k); if (big.empty()) small[nv++] = v; else { big.push_back(v); nv++; } }
		}
		Val *av = big.empty() ? small : big.data();
		if (F->isVarArg()) {
			u32 nvar = (u32)(argc_.size() - nfix);
			va = allocHeap(nvar * 8 + 8, AK_MALLOC, true);
			for (u32 i = 0; i < nvar; i++) {
				u64 off; Obj *o = access(va + i * 8, 8, off, true);
				Type *ty = cb->getArgOperand((unsigned)(nfix + i))->getType();
				unsigned w = Decoder::wOf(ty);
				Val v = R_(argc_[nfix + i]);
				if (v.e && w < 64) v = fromE(mkZExt(v.e, 64));
				storeLeaf(o, off, v, 64, 8);
			}
		}
		// byval copies
		std::vector<std::pair<u32, u64>> byv;
		u32 mark = t->stack.n;
		if (cb) {
			u32 pos = 0;
			for (size_t i = 0; i < nfix; i++) {
				if (cb->isByValArgument((unsigned) i)) {
					u64 sz = g_dl->getTypeAllocSize(cb->getParamByValType((unsigned) i));
					u64 a = allocStack(sz);
					copyMem(a, concretize(av[pos], 64), sz);
					av[pos] = cv(a);
				}
				pos += (u32) std::max<size_t>(1, leaves(F->getArg((unsigned) i)->getType()).size());
			}
		}
		pushFrame(f, nullptr);
		t->fr.back().stackMark = mark;
		t->fr.back().vaArea = va;
		for (u32 i = 0; i < nv; i++) rb[i] = av[i];
	}
	void retValues(const Val *v, u32 n)
	{
		Frame f = t->fr.back();
		popStackTo(f.stackMark);
		t->fr.pop_back();
		if (t->fr.empty()) { threadEnd(); return; }
		rb = t->regs.data() + t->fr.back().base;
		Inst &ci = t->fr.back().f->code[t->fr.back().pc];
		if (ci.dst >= 0 && ci.op == I_CALL && n) { for (u32 i = 0; i < n; i++) rb[ci.dst + (i32) i] = v[i]; }
		finishCall(ci);
	}
	void finishCall(Inst &ci) { if (ci.e0) take(ci.e0); else t->fr.back().pc++; }
	void setRet(const Val &v) { if (in->dst >= 0) rb[in->dst] = v; }

	void threadEnd();
	void nextInit();
	// ---- exceptions
	u64 vSi = 0, vVmi = 0, vClass = 0;
	bool matchType(u64 thrown, u64 want, u64 obj, u64 &adj)
	{
		if (!want) { adj = obj; return true; }
		if (thrown == want) { adj = obj; return true; }
		u64 vp = rd64(thrown);
		if (vp == vSi + 16) { u64 b = rd64(thrown + 16); return matchType(b, want, obj, adj); }
		if (vp == vVmi + 16) {
			u64 w = rd64(thrown + 16);
			u32 cnt = (u32)(w >> 32);
			for (u32 i = 0; i < cnt; i++) {
				u64 b = rd64(thrown + 24 + i * 16), of = rd64(thrown + 32 + i * 16);
				if (of & 1) { continue; }
				if (matchType(b, want, obj + (u64)((i64) of >> 8), adj)) return true;
			}
		}
		return false;
	}
	std::map<u64, u32> tid_;
	u32 typeId(u64 ti) { auto &x = tid_[ti]; if (!x) x = (u32) tid_.size(); return x; }
	std::string tiName(u64 ti) { std::string r; try { rdStr(rd64(ti + 8), r); } catch (Kill &) { return "?"; } return demang("_Z" + r); }
	void unwind()
	{
		// t->inflight.back() is being thrown
		ExcRec ex = t->inflight.back();
		std::vector<std::string> st = stackTrace();
		while (!t->fr.empty()) {
			Frame &f = t->fr.back();
			Inst &ci = f.f->code[f.pc];
			if (ci.op == I_CALL && ci.e1) {
				auto *iv = cast<InvokeInst>(ci.src);
				auto *lp = iv->getLandingPadInst();
				u64 sel = 0; bool hit = lp->isCleanup(); u64 adj = ex.obj;
				for (unsigned i = 0; i < lp->getNumClauses(); i++) {
					if (!lp->isCatch(i)) { throw EngineErr{"filter clause"}; }
					u64 ti = constLeaf(lp->getClause(i));
					u64 a;
					if (matchType(ex.tinfo, ti, ex.obj, a)) { sel = ti ? typeId(ti) : 0x7ffffff0; adj = a; hit = true; break; }
				}
				if (hit) {
					rb = t->regs.data() + f.base;
					t->inflight.back().adj = adj;
					t->curExc = ex.obj; t->curSel = sel;
					take(ci.e1);
					return;
				}
			}
			popStackTo(f.stackMark);
			t->fr.pop_back();
			if (!t->fr.empty()) rb = t->regs.data() + t->fr.back().base;
		}
		std::string stt;
		for (size_t i = 0; i < st.size() && i < 6; i++) stt += (i ? " <- " : "") + st[i];
		s->trace.push_back({intern("uncaught exception thrown at: " + stt), nullptr, 0, false});
		fail("exception", "uncaught exception of type " + tiName(ex.tinfo));
	}

	void callBuiltin(int id, FnInfo *f);
	void intrinsic(FnInfo *f);
	void step();
	void run(State *st);
	Val binop(Op op, const Val &a, const Val &b, unsigned w);
	Val icmp(unsigned pred, const Val &a, const Val &b, unsigned w);
	Val arg(u32 i) { return R_((*in->args)[i]); }
	u64 argc(u32 i, unsigned w = 64) { return concretize(R_((*in->args)[i]), w); }
	void addInput(const char *nm, Expr *var, u64 val, u8 w) { u32 &c = s->streamCnt[nm]; s->inputs.push_back({nm, c, var, val, w}); c++; }
	Expr *newInput(const char *nm, u8 w) { u32 c = s->streamCnt[nm]; Expr *v = mkVar(nm, c, w, true); addInput(nm, v, 0, w); return v; }
	void forkPick(u64 n, const char *nm);
};

Val Interp::binop(Op op, const Val &a, const Val &b, unsigned w)
{
	if (!a.e && !b.e) {
		u64 x = a.c, y = b.c, m = maskw(w);
		switch (op) {
		case O_ADD: return cv((x + y) & m);
		case O_SUB: return cv((x - y) & m);
		case O_MUL: return cv((x * y) & m);
		case O_AND: return cv(x & y);
		case O_OR: return cv(x | y);
		case O_XOR: return cv(x ^ y);
		case O_SHL: return cv(y >= w ? 0 : (x << y) & m);
		case O_LSHR: return cv(y >= w ? 0 : x >> y);
		case O_ASHR: { i64 k = sx(x, w); return cv((u64)(k >> (y >= w ? w - 1 : y)) & m); }
		case O_UDIV: if (!y) fail("arithmetic", "division by zero"); return cv(x / y);
		case O_UREM: if (!y) fail("arithmetic", "division by zero"); return cv(x % y);
		case O_SDIV: { if (!y) fail("arithmetic", "division by zero"); i64 p = sx(x, w), q = sx(y, w); return cv((q == -1 ? 0 - (u64) p : (u64)(p / q)) & m); }
		case O_SREM: { if (!y) fail("arithmetic", "division by zero"); i64 p = sx(x, w), q = sx(y, w); return cv((q == -1 ? 0 : (u64)(p % q)) & m); }
		default: abort();
		}
	}
	Expr *x = toE(a, w), *y = toE(b, w);
	switch (op) {
	case O_ADD: return fromE(mkAdd(x, y));
	case O_SUB: return fromE(mkSub(x, y));
	case O_MUL: return fromE(mkMul(x, y));
	case O_AND: return fromE(mkAnd(x, y));
	case O_OR: return fromE(mkOr(x, y));
	case O_XOR: return fromE(mkXor(x, y));
	case O_SHL: case O_LSHR: case O_ASHR: return fromE(mkShift(op, x, y));
	default:
		if (decide(mkEq(y, C(0, w)))) fail("arithmetic", "division by zero");
		return fromE(mkDiv(op, x, y));
	}
}
Val Interp::icmp(unsigned pred, const Val &a, const Val &b, unsigned w)
{
	if (!a.e && !b.e) {
		u64 x = a.c, y = b.c;
		i64 p = sx(x, w), q = sx(y, w);
		switch (pred) {
		case CmpInst::ICMP_EQ: return cv(x == y);
		case CmpInst::ICMP_NE: return cv(x != y);
		case CmpInst::ICMP_ULT: return cv(x < y);
		case CmpInst::ICMP_ULE: return cv(x <= y);
		case CmpInst::ICMP_UGT: return cv(x > y);
		case CmpInst::ICMP_UGE: return cv(x >= y);
		case CmpInst::ICMP_SLT: return cv(p < q);
		case CmpInst::ICMP_SLE: return cv(p <= q);
		case CmpInst::ICMP_SGT: return cv(p > q);
		default: return cv(p >= q);
		}
	}
	Expr *x = toE(a, w), *y = toE(b, w);
	switch (pred) {
	case CmpInst::ICMP_EQ: return fromE(mkEq(x, y));
	case CmpInst::ICMP_NE: return fromE(mkNot(mkEq(x, y)));
	case CmpInst::ICMP_ULT: return fromE(mkUlt(x, y));
	case CmpInst::ICMP_ULE: return fromE(mkNot(mkUlt(y, x)));
	case CmpInst::ICMP_UGT: return fromE(mkUlt(y, x));
	case CmpInst::ICMP_UGE: return fromE(mkNot(mkUlt(x, y)));
	case CmpInst::ICMP_SLT: return fromE(mkSlt(x, y));
	case CmpInst::ICMP_SLE: return fromE(mkNot(mkSlt(y, x)));
	case CmpInst::ICMP_SGT: return fromE(mkSlt(y, x));
	default: return fromE(mkNot(mkSlt(x, y)));
	}
}

static double asD(const Val &v, unsigned w) { if (w == 32) { float f; u32 x = (u32) v.c; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v.c, 8); return d; }
static Val fromD(double d, unsigned w) { if (w == 32) { float f = (float) d; u32 x; memcpy(&x, &f, 4); return cv(x); } u64 x; memcpy(&x, &d, 8); return cv(x); }

void Interp::forkPick(u64 n, const char *nm)
{
	if (n == 0) fail("harness", "sym_pick(0)");
	R.picks++;
	State *base = n > 1 ? s->fork() : nullptr;
	for (u64 k = n; k-- > 1;) {
		State *c = k > 1 ? base->fork() : base;
		std::swap(s, c);
		sync();
		setRet(cv(k));
		addInput(nm, nullptr, k, 32);
		Frame &f = t->fr.back();
		finishCall(f.f->code[f.pc]);
		std::swap(s, c);
		sync();
		g_work.push_back(c);
		R.forks++;
	}
	setRet(cv(0));
	addInput(nm, nullptr, 0, 32);
}

enum BI {
	B_NONE = 0, B_MALLOC, B_CALLOC, B_FREE, B_NEW, B_NEWARR, B_DEL, B_DELARR, B_MEMCMP, B_BCMP, B_STRLEN, B_MEMCHR, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_ABORT, B_TERMINATE,
	B_CXA_ALLOC, B_CXA_FREEEXC, B_CXA_THROW, B_CXA_BEGIN, B_CXA_END, B_CXA_RETHROW, B_CUREXC, B_RETHROWEXC, B_CXA_ATEXIT, B_GUARD_ACQ, B_GUARD_REL, B_PUREV,
	B_SYM_U, B_SYM_PICK, B_SYM_BYTES, B_SYM_ASSUME, B_SYM_ASSERT, B_SYM_REACH, B_SYM_TRACE, B_SYM_DIR, B_SYM_THREAD, B_SYM_SWITCH, B_SYM_NATIVE, B_SYM_FAIL, B_SYM_SELF, B_SYM_LIVE, B_SYM_ISSYM,
	B_SYM_TRACEV, B_ASSERTFAIL, B_RETZERO, B_STRCMP, B_REALLOC, B_SYM_MAYBE, B_SYM_KILL, B_SYM_CONC, B_NEWNT, B_SYM_PRINT, B_SYM_AND, B_SYM_OR, B_SYM_ITE, B_SYM_BYTESEQ, B_DYNCAST
};
static const std::map<std::string, int> &builtinMap()
{
	static const std::map<std::string, int> m = {
		{"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"free", B_FREE}, {"realloc", B_REALLOC}, {"_Znwm", B_NEW}, {"_Znam", B_NEWARR}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEWARR},
		{"_ZnwmSt11align_val_t", B_NEW}, {"_ZdlPvSt11align_val_t", B_DEL}, {"_ZdlPvmSt11align_val_t", B_DEL}, {"_ZdlPvRKSt9nothrow_t", B_DEL},
		{"_ZdlPv", B_DEL}, {"_ZdlPvm", B_DEL}, {"_ZdaPv", B_DELARR}, {"_ZdaPvm", B_DELARR},
		{"memcmp", B_MEMCMP}, {"bcmp", B_BCMP}, {"strlen", B_STRLEN}, {"memchr", B_MEMCHR}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"strcmp", B_STRCMP},
		{"abort", B_ABORT}, {"_ZSt9terminatev", B_TERMINATE}, {"__cxa_pure_virtual", B_PUREV}, {"__assert_fail", B_ASSERTFAIL},
		{"__cxa_allocate_exception", B_CXA_ALLOC}, {"__cxa_free_exception", B_CXA_FREEEXC}, {"__cxa_throw", B_CXA_THROW}, {"__cxa_begin_catch", B_CXA_BEGIN}, {"__cxa_end_catch", B_CXA_END},
		{"_ZSt17current_exceptionv", B_CUREXC}, {"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", B_RETHROWEXC}, {"__cxa_rethrow", B_CXA_RETHROW}, {"__cxa_atexit", B_CXA_ATEXIT}, {"__cxa_thread_atexit", B_CXA_ATEXIT}, {"__cxa_guard_acquire", B_GUARD_ACQ}, {"__cxa_guard_release", B_GUARD_REL}, {"__cxa_guard_abort", B_GUARD_REL},
		{"sym_u8", B_SYM_U}, {"sym_u16", B_SYM_U}, {"sym_u32", B_SYM_U}, {"sym_u64", B_SYM_U}, {"sym_pick", B_SYM_PICK}, {"sym_bytes", B_SYM_BYTES}, {"sym_assume", B_SYM_ASSUME}, {"sym_assert", B_SYM_ASSERT},
		{"sym_reach", B_SYM_REACH}, {"sym_trace", B_SYM_TRACE}, {"sym_tracev", B_SYM_TRACEV}, {"sym_dir", B_SYM_DIR}, {"sym_thread_create", B_SYM_THREAD}, {"sym_switch", B_SYM_SWITCH}, {"sym_self", B_SYM_SELF}, {"sym_live", B_SYM_LIVE},
		{"sym_is_native", B_SYM_NATIVE}, {"sym_fail", B_SYM_FAIL}, {"sym_kill", B_SYM_KILL}, {"sym_issym", B_SYM_ISSYM}, {"sym_concretize", B_SYM_CONC},
		{"sym_and", B_SYM_AND}, {"sym_or", B_SYM_OR}, {"sym_ite", B_SYM_ITE}, {"sym_byteseq", B_SYM_BYTESEQ}, {"__dynamic_cast", B_DYNCAST},
		{"pthread_mutex_lock", B_RETZERO}, {"pthread_mutex_unlock", B_RETZERO}, {"pthread_mutex_init", B_RETZERO}, {"pthread_mutex_destroy", B_RETZERO}, {"pthread_mutex_trylock", B_RETZERO},
		{"pthread_rwlock_rdlock", B_RETZERO}, {"pthread_rwlock_wrlock", B_RETZERO}, {"pthread_rwlock_unlock", B_RETZERO}, {"sched_yield", B_RETZERO},
		{"__libc_single_threaded", 0},
	};
	return m;
}
static int builtinId(const std::string &n)
{
	auto it = builtinMap().find(n);
	return it == builtinMap().end() ? 0 : it->second;
}

void Interp::callBuiltin(int id, FnInfo *f)
{
	Inst *ci = in;
	switch (id) {
	case B_MALLOC: setRet(cv(allocHeap(argc(0), AK_MALLOC, false))); break;
	case B_CALLOC: setRet(cv(allocHeap(argc(0) * argc(1), AK_MALLOC, true))); break;
	case B_REALLOC: {
		u64 p = argc(0), n = argc(1), off;
		u64 q = allocHeap(n, AK_MALLOC, false);
		if (p) { Obj *o = access(p, 0, off, false); copyMem(q, p, std::min<u64>(o->size, n)); freeHeap(p, AK_MALLOC); }
		setRet(cv(q)); break;
	}
	case B_FREE: freeHeap(argc(0), AK_MALLOC); break;
	case B_NEW: case B_NEWARR: {
		u64 n = argc(0);
		setRet(cv(allocHeap(n, AK_NEW, false))); break;
	}
	case B_DEL: case B_DELARR: freeHeap(argc(0), AK_NEW); break;
	case B_MEMCPY: case B_MEMMOVE: { u64 d = argc(0), sa = argc(1), n = argc(2); copyMem(d, sa, n); setRet(cv(d)); break; }
	case B_MEMSET: {
		u64 d = argc(0), n = argc(2), off;
		Val v = arg(1);
		if (v.e) v = fromE(mkExtract(toE(v, 32), 0, 8)); else v.c &= 0xff;
		if (n) { Obj *o = access(d, n, off, true); for (u64 i = 0; i < n; i++) storeLeaf(o, off + i, v, 8, 1); }
		setRet(cv(d)); break;
	}
	case B_MEMCMP: case B_BCMP: {
		u64 a = argc(0), b = argc(1), n = argc(2), oa = 0, ob = 0;
		Val r = cv(0);
		if (n) {
			Obj *x = access(a, n, oa, false), *y = access(b, n, ob, false);
			if (!x->tag && !y->tag) {
				int k = memcmp(x->data + oa, y->data + ob, n);
				r = cv((u32)(k < 0 ? -1 : k > 0));
			} else {
				Expr *e = C(0, 32);
				if (id == B_BCMP) {
					Expr *eq = C(1, 1);
					for (u64 i = 0; i < n; i++) { eq = mkAnd(eq, mkEq(byteE(x, oa + i, a + i), byteE(y, ob + i, b + i))); if (isC(eq) && !eq->val) break; }
					e = mkIte(eq, C(0, 32), C(1, 32));
				} else {
					// find first definite difference to shorten
					u64 m = n;
					for (u64 i = 0; i < n; i++) { Expr *p = byteE(x, oa + i, a + i), *q = byteE(y, ob + i, b + i); if (isC(p) && isC(q) && p != q) { m = i + 1; break; } }
					for (u64 i = m; i-- > 0;) {
						Expr *p = byteE(x, oa + i, a + i), *q = byteE(y, ob + i, b + i);
						e = mkIte(mkEq(p, q), e, mkIte(mkUlt(p, q), C(0xffffffffu, 32), C(1, 32)));
					}
				}
				r = fromE(e);
			}
		}
		setRet(r); break;
	}
	case B_STRLEN: {
		u64 p = argc(0), n = 0;
		for (;; n++) {
			u64 off; Obj *o = access(p + n, 1, off, false);
			Expr *b = byteE(o, off, p + n);
			if (decide(mkEq(b, C(0, 8)))) break;
		}
		setRet(cv(n)); break;
	}
	case B_STRCMP: {
		u64 p = argc(0), q = argc(1);
		for (u64 n = 0;; n++) {
			u64 o1, o2; Obj *a = access(p + n, 1, o1, false), *b = access(q + n, 1, o2, false);
			Expr *x = byteE(a, o1, p + n), *y = byteE(b, o2, q + n);
			if (!decide(mkEq(x, y))) { setRet(cv(decide(mkUlt(x, y)) ? 0xffffffffu : 1)); break; }
			if (decide(mkEq(x, C(0, 8)))) { setRet(cv(0)); break; }
		}
		break;
	}
	case B_MEMCHR: {
		u64 p = argc(0), n = argc(2);
		Expr *ch = mkExtract(toE(arg(1), 32), 0, 8);
		u64 r = 0;
		if (n) {
			u64 off; Obj *o = access(p, n, off, false);
			for (u64 i = 0; i < n; i++) if (decide(mkEq(byteE(o, off + i, p + i), ch))) { r = p + i; break; }
		}
		setRet(cv(r)); break;
	}
	case B_ABORT: fail("abort", "abort() called");
	case B_TERMINATE: fail("abort", "std::terminate() called");
	case B_PUREV: fail("abort", "pure virtual call");
	case B_ASSERTFAIL: { std::string m; rdStr(argc(0), m); fail("abort", "assert() failed: " + m); }
	case B_CXA_ALLOC: setRet(cv(allocHeap(argc(0), AK_MALLOC, false))); break;
	case B_CXA_FREEEXC: freeHeap(argc(0), AK_MALLOC); break;
	case B_CXA_THROW: {
		ExcRec r{argc(0), argc(1), argc(2), argc(0), 0, false};
		t->inflight.push_back(r);
		unwind();
		return;
	}
	case B_CXA_BEGIN: {
		u64 p = argc(0);
		// find in inflight
		bool ok = false;
		for (size_t i = t->inflight.size(); i-- > 0;) if (t->inflight[i].obj == p) {
			ExcRec r = t->inflight[i];
			t->inflight.erase(t->inflight.begin() + (long) i);
			r.handlers = 1; r.rethrown = false;
			t->caught.push_back(r);
			setRet(cv(r.adj));
			ok = true;
			break;
		}
		if (!ok) { for (size_t i = t->caught.size(); i-- > 0;) if (t->caught[i].obj == p) { ExcRec r = t->caught[i]; t->caught.push_back(r); setRet(cv(r.adj)); ok = true; break; } }
		if (!ok) throw EngineErr{"begin_catch of unknown exception"};
		break;
	}
	case B_CXA_END: {
		if (t->caught.empty()) throw EngineErr{"end_catch without catch"};
		ExcRec r = t->caught.back();
		t->caught.pop_back();
		bool other = r.rethrown;
		for (auto &c : t->caught) if (c.obj == r.obj) other = true;
		for (auto &c : t->saved) if (c.obj == r.obj) other = true;
		if (!other && r.dtor) {
			// call destructor; returns into this call instruction's continuation
			FnInfo *df = g_fnByAddr.count(r.dtor) ? g_fnByAddr[r.dtor] : nullptr;
			if (df && !df->F->isDeclaration()) {
				pushFrame(df, nullptr);
				rb[0] = cv(r.obj);
				return; // on return finishCall(ci) continues
			}
		}
		break;
	}
	case B_CXA_RETHROW: {
		if (t->caught.empty()) fail("abort", "rethrow without active exception");
		ExcRec r = t->caught.back();
		t->caught.back().rethrown = true;
		r.adj = r.obj;
		t->inflight.push_back(r);
		unwind();
		return;
	}
	case B_CUREXC: { // result in *argument 0; the exception object stays alive
		u64 o = 0;
		if (!t->caught.empty()) { o = t->caught.back().obj; t->saved.push_back(t->caught.back()); }
		wr(argc(0), o, 8);
		break;
	}
	case B_RETHROWEXC: {
		u64 o = rd64(argc(0));
		for (auto &th : s->th) for (auto &r0 : th->saved) if (r0.obj == o) {
			ExcRec r = r0;
			r.adj = r.obj; r.handlers = 0; r.rethrown = false;
			t->inflight.push_back(r);
			unwind();
			return;
		}
		fail("abort", "std::rethrow_exception without an exception");
	}
	case B_CXA_ATEXIT: setRet(cv(0)); break;
	case B_GUARD_ACQ: { u64 p = argc(0), off; Obj *o = access(p, 1, off, false); setRet(cv(o->data[off] == 0)); break; }
	case B_GUARD_REL: { wr(argc(0), f->name == "__cxa_guard_abort" ? 0 : 1, 1); break; }
	case B_RETZERO: setRet(cv(0)); break;
	case B_SYM_U: {
		std::string nm; rdStr(argc(0), nm);
		u8 w = f->name == "sym_u8" ? 8 : f->name == "sym_u16" ? 16 : f->name == "sym_u32" ? 32 : 64;
		setRet(fromE(newInput(intern(nm), w)));
		break;
	}
	case B_SYM_PICK: { u64 n = argc(0, 32); std::string nm; rdStr(argc(1), nm); forkPick(n, intern(nm)); break; }
	case B_SYM_BYTES: {
		u64 p = argc(0), n = argc(1), off;
		std::string nm; rdStr(argc(2), nm);
		const char *k = intern(nm);
		if (n) { Obj *o = access(p, n, off, true); for (u64 i = 0; i < n; i++) storeLeaf(o, off + i, fromE(newInput(k, 8)), 8, 1); }
		break;
	}
	case B_SYM_ASSUME: {
		Val v = arg(0);
		Expr *c = v.e ? mkNot(mkEq(v.e, C(0, v.e->w))) : C(v.c != 0, 1);
		if (isC(c)) { if (!c->val) { R.killed++; throw Kill(); } break; }
		if (!evalExpr(c, s->model)) {
			Solver::Entry *en;
			if (sat(c, &en) != 1) { R.killed++; throw Kill(); }
			applyModel(s->model, en);
		}
		addPC(s, c);
		break;
	}
	case B_SYM_ASSERT: {
		Val v = arg(0);
		R.asserts++;
		if (!v.e) { if (!v.c) { std::string m; rdStr(argc(1), m); fail("assert", m); } break; }
		Expr *c = mkNot(mkEq(v.e, C(0, v.e->w)));
		if (isC(c)) { if (!c->val) { std::string m; rdStr(argc(1), m); fail("assert", m); } break; }
		R.assertQueries++;
		Solver::Entry *en;
		int r = sat(mkNot(c), &en);
		if (r == 1) {
			std::string m; rdStr(argc(1), m);
			Model md = s->model;
			applyModel(md, en);
			report("assert", m, md);
			Solver::Entry *en2;
			if (sat(c, &en2) != 1) throw Kill();
			if (!evalExpr(c, s->model)) applyModel(s->model, en2);
			addPC(s, c);
		}
		break;
	}
	case B_SYM_REACH: { std::string m; rdStr(argc(0), m); R.reach[m]++; break; }
	case B_SYM_TRACE: { std::string m; rdStr(argc(0), m); s->trace.push_back({intern(m), nullptr, 0, false}); break; }
	case B_SYM_TRACEV: { std::string m; rdStr(argc(0), m); Val v = arg(1); s->trace.push_back({intern(m), v.e, v.c, true}); break; }
	case B_SYM_DIR: s->dir = (int) argc(0, 32); break;
	case B_SYM_SELF: setRet(cv(s->cur)); break;
	case B_SYM_LIVE: setRet(cv(s->live[argc(0) ? 1 : 0])); break;
	case B_SYM_NATIVE: setRet(cv(0)); break;
	case B_SYM_ISSYM: setRet(cv(arg(0).e != nullptr)); break;
	case B_SYM_CONC: setRet(cv(concretize(arg(0), 64))); break;
	case B_SYM_AND: { Val a = arg(0), b = arg(1); setRet(fromE(mkZExt(mkAnd(mkNot(mkEq(toE(a, 32), C(0, 32))), mkNot(mkEq(toE(b, 32), C(0, 32)))), 32))); break; }
	case B_SYM_OR: { Val a = arg(0), b = arg(1); setRet(fromE(mkZExt(mkOr(mkNot(mkEq(toE(a, 32), C(0, 32))), mkNot(mkEq(toE(b, 32), C(0, 32)))), 32))); break; }
	case B_SYM_ITE: { Val a = arg(0), b = arg(1), c = arg(2); setRet(fromE(mkIte(mkNot(mkEq(toE(a, 32), C(0, 32))), toE(b, 64), toE(c, 64)))); break; }
	case B_SYM_BYTESEQ: { // (p, q, n) -> 0/1 without forking
		u64 a = argc(0), b = argc(1), n = argc(2), oa = 0, ob = 0;
		Expr *eq = C(1, 1);
		if (n) {
			Obj *x = access(a, n, oa, false), *y = access(b, n, ob, false);
			for (u64 i = 0; i < n; i++) { eq = mkAnd(eq, mkEq(byteE(x, oa + i, a + i), byteE(y, ob + i, b + i))); if (isC(eq) && !eq->val) break; }
		}
		setRet(fromE(mkZExt(eq, 32))); break;
	}
	case B_SYM_FAIL: { std::string m; rdStr(argc(0), m); fail("assert", m); }
	case B_SYM_KILL: R.killed++; throw Kill();
	case B_SYM_THREAD: {
		u64 fn = argc(0), a = argc(1);
		FnInfo *tf = g_fnByAddr.count(fn) ? g_fnByAddr[fn] : nullptr;
		if (!tf) throw EngineErr{"thread function"};
		auto nt = std::make_shared<Thread>();
		s->th.push_back(nt);
		u32 id2 = (u32) s->th.size() - 1, sv = s->cur;
		s->cur = id2; sync();
		pushFrame(tf, nullptr);
		rb[0] = cv(a);
		s->cur = sv; sync();
		setRet(cv(id2));
		break;
	}
	case B_SYM_SWITCH: {
		u64 k = argc(0, 32);
		if (k >= s->th.size() || s->th[k]->done) fail("harness", "switch to a finished thread");
		finishCall(*ci);
		s->cur = (u32) k;
		sync();
		return;
	}
	case B_DYNCAST: {
		u64 p = argc(0), dst = argc(2);
		if (!p) { setRet(cv(0)); break; }
		u64 vp = rd64(p);
		i64 top = (i64) rd64(vp - 16);
		u64 ti = rd64(vp - 8), full = p + (u64) top, adj;
		setRet(cv(matchType(ti, dst, full, adj) ? adj : 0));
		break;
	}
	default: throw EngineErr{"builtin " + f->name};
	}
	finishCall(*ci);
}

void Interp::intrinsic(FnInfo *f)
{
	Inst *ci = in;
	unsigned w = ci->w;
	switch (f->F->getIntrinsicID()) {
	case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyMem(argc(0), argc(1), argc(2)); break;
	case Intrinsic::memset: case Intrinsic::memset_inline: {
		u64 d = argc(0), n = argc(2), off;
		Val v = arg(1);
		if (n) {
			Obj *o = access(d, n, off, true);
			if (!v.e) { memset(o->data + off, (int) v.c, n); if (o->tag) memset(o->tag + off, TG_CONC, n); }
			else for (u64 i = 0; i < n; i++) storeLeaf(o, off + i, v, 8, 1);
		}
		break;
	}
	case Intrinsic::umin: { Val a = arg(0), b = arg(1); Val c = icmp(CmpInst::ICMP_ULT, a, b, w); setRet(c.e ? fromE(mkIte(c.e, toE(a, w), toE(b, w))) : c.c ? a : b); break; }
	case Intrinsic::umax: { Val a = arg(0), b = arg(1); Val c = icmp(CmpInst::ICMP_UGT, a, b, w); setRet(c.e ? fromE(mkIte(c.e, toE(a, w), toE(b, w))) : c.c ? a : b); break; }
	case Intrinsic::smin: { Val a = arg(0), b = arg(1); Val c = icmp(CmpInst::ICMP_SLT, a, b, w); setRet(c.e ? fromE(mkIte(c.e, toE(a, w), toE(b, w))) : c.c ? a : b); break; }
	case Intrinsic::smax: { Val a = arg(0), b = arg(1); Val c = icmp(CmpInst::ICMP_SGT, a, b, w); setRet(c.e ? fromE(mkIte(c.e, toE(a, w), toE(b, w))) : c.c ? a : b); break; }
	case Intrinsic::abs: { Val a = arg(0); Val c = icmp(CmpInst::ICMP_SLT, a, cv(0), w); Val n = binop(O_SUB, cv(0), a, w); setRet(c.e ? fromE(mkIte(c.e, toE(n, w), toE(a, w))) : c.c ? n : a); break; }
	case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: setRet(arg(0)); break;
	case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
	case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
		unsigned ww = Decoder::wOf(ci->src->getOperand(0)->getType());
		Val a = arg(0), b = arg(1), r, o;
		auto id = f->F->getIntrinsicID();
		if (id == Intrinsic::uadd_with_overflow) { r = binop(O_ADD, a, b, ww); o = icmp(CmpInst::ICMP_ULT, r, a, ww); }
		else if (id == Intrinsic::usub_with_overflow) { r = binop(O_SUB, a, b, ww); o = icmp(CmpInst::ICMP_ULT, a, b, ww); }
		else if (id == Intrinsic::umul_with_overflow) {
			r = binop(O_MUL, a, b, ww);
			if (!a.e && !b.e) { unsigned __int128 p = (unsigned __int128) a.c * b.c; o = cv(ww >= 64 ? (u64)(p >> 64) != 0 : (u64) p > maskw(ww)); }
			else {
				if (!a.e) std::swap(a, b);
				if (b.e) b = cv(concretize(b, ww));
				o = b.c ? icmp(CmpInst::ICMP_UGT, a, cv(maskw(ww) / b.c), ww) : cv(0);
				r = binop(O_MUL, a, b, ww);
			}
		} else if (id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow) {
			bool add = id == Intrinsic::sadd_with_overflow;
			r = binop(add ? O_ADD : O_SUB, a, b, ww);
			Expr *A = toE(a, ww), *B = toE(b, ww), *Rr = toE(r, ww), *z = C(0, ww);
			Expr *sa = mkSlt(A, z), *sb = mkSlt(B, z), *sr = mkSlt(Rr, z);
			Expr *ov = add ? mkAnd(mkEq(sa, sb), mkNot(mkEq(sa, sr))) : mkAnd(mkNot(mkEq(sa, sb)), mkNot(mkEq(sa, sr)));
			o = fromE(ov);
		} else {
			if (!a.e) std::swap(a, b);
			if (b.e) b = cv(concretize(b, ww));
			r = binop(O_MUL, a, b, ww);
			i64 k = sx(b.c, ww), lo = ww >= 64 ? INT64_MIN : -(1ll << (ww - 1)), hi = ww >= 64 ? INT64_MAX : (1ll << (ww - 1)) - 1;
			if (k == 0 || k == 1) o = cv(0);
			else if (k == -1) o = icmp(CmpInst::ICMP_EQ, a, cv((u64) lo & maskw(ww)), ww);
			else {
				i64 mx = k > 0 ? hi / k : lo / k, mn = k > 0 ? lo / k : hi / k;
				Val p = icmp(CmpInst::ICMP_SGT, a, cv((u64) mx & maskw(ww)), ww), q = icmp(CmpInst::ICMP_SLT, a, cv((u64) mn & maskw(ww)), ww);
				o = fromE(mkOr(toE(p, 1), toE(q, 1)));
			}
		}
		if (ci->dst >= 0) { rb[ci->dst] = r; rb[ci->dst + 1] = o; }
		break;
	}
	case Intrinsic::uadd_sat: { Val a = arg(0), b = arg(1), r = binop(O_ADD, a, b, w), o = icmp(CmpInst::ICMP_ULT, r, a, w); setRet(o.e ? fromE(mkIte(o.e, C(maskw(w), w), toE(r, w))) : o.c ? cv(maskw(w)) : r); break; }
	case Intrinsic::usub_sat: { Val a = arg(0), b = arg(1), r = binop(O_SUB, a, b, w), o = icmp(CmpInst::ICMP_ULT, a, b, w); setRet(o.e ? fromE(mkIte(o.e, C(0, w), toE(r, w))) : o.c ? cv(0) : r); break; }
	case Intrinsic::ctlz: { u64 v = argc(0, w); setRet(cv(v ? (u64) __builtin_clzll(v) - (64 - w) : w)); break; }
	case Intrinsic::cttz: { u64 v = argc(0, w); setRet(cv(v ? (u64) __builtin_ctzll(v) : w)); break; }
	case Intrinsic::ctpop: { u64 v = argc(0, w); setRet(cv((u64) __builtin_popcountll(v))); break; }
	case Intrinsic::bswap: {
		Expr *e = toE(arg(0), w), *r = mkExtract(e, 0, 8);
		for (unsigned i = 1; i < w / 8; i++) r = mkConcat(r, mkExtract(e, i * 8, 8));
		setRet(fromE(r)); break;
	}
	case Intrinsic::fshl: case Intrinsic::fshr: {
		u64 sh = argc(2, w) % w;
		bool l = f->F->getIntrinsicID() == Intrinsic::fshl;
		Val a = arg(0), b = arg(1);
		if (!sh) { setRet(l ? a : b); break; }
		u64 ls = l ? sh : w - sh;
		setRet(binop(O_OR, binop(O_SHL, a, cv(ls), w), binop(O_LSHR, b, cv(w - ls), w), w));
		break;
	}
	case Intrinsic::eh_typeid_for: setRet(cv(typeId(argc(0)))); break;
	case Intrinsic::vastart: {
		u64 p = argc(0);
		wr(p, 48, 4); wr(p + 4, 304, 4); wr(p + 8, t->fr.back().vaArea, 8); wr(p + 16, 0, 8);
		break;
	}
	case Intrinsic::vaend: break;
	case Intrinsic::vacopy: copyMem(argc(0), argc(1), 24); break;
	case Intrinsic::stacksave: setRet(cv(0)); break;
	case Intrinsic::is_constant: setRet(cv(0)); break;
	case Intrinsic::objectsize: setRet(cv(~0ull)); break;
	case Intrinsic::trap: case Intrinsic::debugtrap: fail("abort", "trap instruction reached");
	case Intrinsic::threadlocal_address: setRet(arg(0)); break;
	case Intrinsic::load_relative: { u64 p = argc(0), o = argc(1), off; Obj *ob = access(p + o, 4, off, false); i32 d; memcpy(&d, ob->data + off, 4); setRet(cv(p + (u64)(i64) d)); break; }
	case Intrinsic::ceil: setRet(fromD(ceil(asD(arg(0), w)), w)); break;
	case Intrinsic::floor: setRet(fromD(floor(asD(arg(0), w)), w)); break;
	case Intrinsic::fabs: setRet(fromD(fabs(asD(arg(0), w)), w)); break;
	default: incomplete("unsupported intrinsic " + f->name); throw Kill();
	}
	finishCall(*ci);
}

static std::vector<FnInfo *> g_inits;
static FnInfo *g_entry;
void Interp::nextInit()
{
	if (s->initIdx < g_inits.size()) pushFrame(g_inits[s->initIdx++], nullptr);
	else if (s->initIdx == g_inits.size()) { s->initIdx++; pushFrame(g_entry, nullptr); }
	else { R.paths++; witness(); throw Kill(); }
}
void Interp::threadEnd()
{
	if (s->cur == 0) { nextInit(); return; }
	t->done = true;
	fail("harness", "thread function returned");
}

void Interp::step()
{
	Frame *f = &t->fr.back();
	in = &f->f->code[f->pc];
	Inst &d = *in;
	switch (d.op) {
	case I_NOP: f->pc++; break;
	case I_MOVE: for (u32 k = 0; k < d.n; k++) rb[d.dst + (i32) k] = Rk(d.a, k); f->pc++; break;
	case I_BIN: {
		if (d.n == 1) { Val v = binop((Op) d.sub, R_(d.a), R_(d.b), d.w); rb[d.dst] = v; }
		else for (u32 k = 0; k < d.n; k++) rb[d.dst + (i32) k] = binop((Op) d.sub, Rk(d.a, k), Rk(d.b, k), d.w);
		f->pc++; break;
	}
	case I_ICMP: {
		if (d.n == 1) { Val v = icmp(d.sub, R_(d.a), R_(d.b), d.w); rb[d.dst] = v; }
		else for (u32 k = 0; k < d.n; k++) rb[d.dst + (i32) k] = icmp(d.sub, Rk(d.a, k), Rk(d.b, k), d.w);
		f->pc++; break;
	}
	case I_FBIN: {
		if (R_(d.a).e || R_(d.b).e) { incomplete("symbolic floating point"); throw Kill(); }
		double a = asD(R_(d.a), d.w), b = asD(R_(d.b), d.w), r = d.sub == 0 ? a + b : d.sub == 1 ? a - b : d.sub == 2 ? a * b : d.sub == 3 ? a / b : fmod(a, b);
		rb[d.dst] = fromD(r, d.w); f->pc++; break;
	}
	case I_FNEG: rb[d.dst] = fromD(-asD(R_(d.a), d.w), d.w); f->pc++; break;
	case I_FCMP: {
		if (R_(d.a).e || R_(d.b).e) { incomplete("symbolic floating point"); throw Kill(); }
		double a = asD(R_(d.a), d.w), b = asD(R_(d.b), d.w);
		bool un = a != a || b != b, r;
		switch (d.sub & 7) { case 0: r = false; break; case 1: r = a == b; break; case 2: r = a > b; break; case 3: r = a >= b; break; case 4: r = a < b; break; case 5: r = a <= b; break; case 6: r = !un && a != b; break; default: r = !un; }
		if (d.sub & 8) r = r || un;
		rb[d.dst] = cv(r); f->pc++; break;
	}
	case I_CAST: {
		for (u32 k = 0; k < d.n; k++) {
			Val v = Rk(d.a, k), r;
			switch (d.sub) {
			case Instruction::Trunc: r = v.e ? fromE(mkExtract(v.e, 0, d.w2)) : cv(v.c & maskw(d.w2)); break;
			case Instruction::ZExt: r = v.e ? fromE(mkZExt(v.e, d.w2)) : v; break;
			case Instruction::SExt: r = v.e ? fromE(mkSExt(v.e, d.w2)) : cv((u64) sx(v.c, d.w) & maskw(d.w2)); break;
			case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
				if (d.w2 < d.w) r = v.e ? fromE(mkExtract(v.e, 0, d.w2)) : cv(v.c & maskw(d.w2));
				else if (d.w2 > d.w) r = v.e ? fromE(mkZExt(v.e, d.w2)) : v;
				else r = v;
				break;
			default:
				if (v.e) { v = cv(concretize(v, d.w)); }
				switch (d.sub) {
				case Instruction::FPToUI: r = cv((u64) asD(v, d.w) & maskw(d.w2)); break;
				case Instruction::FPToSI: r = cv((u64)(i64) asD(v, d.w) & maskw(d.w2)); break;
				case Instruction::UIToFP: r = fromD((double) v.c, d.w2); break;
				case Instruction::SIToFP: r = fromD((double) sx(v.c, d.w), d.w2); break;
				default: r = fromD(asD(v, d.w), d.w2); break;
				}
			}
			rb[d.dst + (i32) k] = r;
		}
		f->pc++; break;
	}
	case I_SELECT: {
		if (d.sub) { // vector condition
			for (u32 k = 0; k < d.n; k++) { Val c = Rk(d.a, k); unsigned w = (*d.lv)[k].w; if (!c.e) rb[d.dst + (i32) k] = c.c ? Rk(d.b, k) : Rk(d.c, k); else rb[d.dst + (i32) k] = fromE(mkIte(c.e, toE(Rk(d.b, k), w), toE(Rk(d.c, k), w))); }
			f->pc++; break;
		}
		Val c = R_(d.a);
		if (c.e && (d.w || d.n > 1)) c = cv(decide(c.e));
		f = &t->fr.back();
		if (!c.e) for (u32 k = 0; k < d.n; k++) rb[d.dst + (i32) k] = c.c ? Rk(d.b, k) : Rk(d.c, k);
		else { unsigned w = (*d.lv)[0].w; rb[d.dst] = fromE(mkIte(c.e, toE(R_(d.b), w), toE(R_(d.c), w))); }
		f->pc++; break;
	}
	case I_LOAD: {
		Val p = R_(d.a);
		if (p.e && d.n == 1) {
			// table lookup with a symbolic index: select over the object when small
			u64 a0 = evalExpr(p.e, s->model), off, b0;
			Obj *o = objAt(a0, off, nullptr, nullptr);
			unsigned by = (*d.lv)[0].bytes, w = (*d.lv)[0].w;
			if (o && !(o->flags & (OF_FREED | OF_FUNC | OF_EXT)) && o->size <= 512 && o->size >= by && off <= o->size - by) {
				b0 = a0 - off;
				Expr *rel = mkSub(p.e, C(b0, 64));
				if (decide(mkUlt(rel, C(o->size - by + 1, 64)))) {
					o = objAt(a0, off, nullptr, nullptr);
					Expr *r = nullptr;
					for (u64 k = 0; k + by <= o->size; k++) {
						Expr *eq = mkEq(rel, C(k, 64));
						if (isC(eq) && !eq->val) continue;
						Expr *x = toE(loadLeaf(o, k, b0 + k, w, by), w);
						r = r ? mkIte(eq, x, r) : x;
					}
					rb[d.dst] = fromE(r);
					f->pc++; break;
				}
			}
		}
		u64 a = addrOf(p), off;
		Obj *o = access(a, d.imm, off, false);
		for (u32 k = 0; k < d.n; k++) {
			const Leaf &l = (*d.lv)[k];
			if (l.bytes > 8) { incomplete("load of a scalar wider than 64 bits"); throw Kill(); }
			rb[d.dst + (i32) k] = loadLeaf(o, off + l.off, a + l.off, l.w, l.bytes);
		}
		f->pc++; break;
	}
	case I_STORE: {
		u64 a = addrOf(R_(d.a)), off;
		Obj *o = access(a, d.imm, off, true);
		for (u32 k = 0; k < d.n; k++) {
			const Leaf &l = (*d.lv)[k];
			if (l.bytes > 8) { if (l.w == 128 && !Rk(d.b, k).e) { storeLeaf(o, off + l.off, Rk(d.b, k), 64, 8); storeLeaf(o, off + l.off + 8, cv(0), 64, 8); continue; } incomplete("store of a scalar wider than 64 bits"); throw Kill(); }
			storeLeaf(o, off + l.off, Rk(d.b, k), l.w, l.bytes);
		}
		f->pc++; break;
	}
	case I_GEP: {
		Val p = R_(d.a);
		if (!p.e) p.c += d.imm; else p = fromE(mkAdd(p.e, C(d.imm, 64)));
		if (d.gt) for (auto &g : *d.gt) {
			Val x = R_(g.idx);
			if (!x.e) { u64 o = (u64) sx(x.c, g.w) * g.scale; if (!p.e) p.c += o; else p = fromE(mkAdd(p.e, C(o, 64))); }
			else p = fromE(mkAdd(toE(p, 64), mkMul(mkSExt(x.e, 64), C(g.scale, 64))));
		}
		rb[d.dst] = p;
		f->pc++; break;
	}
	case I_ALLOCA: { u64 n = concretize(R_(d.a), d.w); u64 a = allocStack(d.imm * n); rb[d.dst] = cv(a); t->fr.back().pc++; break; }
	case I_CALL: {
		FnInfo *cf = d.callee;
		if (!cf) {
			u64 a = concretize(R_(d.a), 64);
			auto it = g_fnByAddr.find(a);
			if (it == g_fnByAddr.end()) fail("memory", a < 4096 ? "call through a null function pointer" : "call through an invalid function pointer");
			cf = it->second;
		}
		if (cf->builtin) { cf->calls++; callBuiltin(cf->builtin, cf); }
		else if (cf->F->isIntrinsic()) intrinsic(cf);
		else callFn(cf, *d.args, &d);
		break;
	}
	case I_RET: {
		Val tmp[16];
		std::vector<Val> big;
		Val *p = tmp;
		if (d.n > 16) { big.resize(d.n); p = big.data(); }
		for (u32 k = 0; k < d.n; k++) p[k] = Rk(d.a, k);
		retValues(p, d.n);
		break;
	}
	case I_BR: take(d.e0); break;
	case I_CONDBR: {
		Val c = R_(d.a);
		bool v = c.e ? decide(c.e) : c.c;
		take(v ? d.e0 : d.e1);
		break;
	}
	case I_SWITCH: {
		Val c = R_(d.a);
		Edge *e = d.e0;
		if (!c.e) { for (auto &p : *d.cases) if (p.first == c.c) { e = p.second; break; } }
		else for (auto &p : *d.cases) if (decide(mkEq(c.e, C(p.first, d.w)))) { e = p.second; break; }
		take(e);
		break;
	}
	case I_LPAD: rb[d.dst] = cv(t->curExc); rb[d.dst + 1] = cv(t->curSel); f->pc++; break;
	case I_RESUME: {
		u64 p = concretize(R_(d.a), 64);
		// the exception object must be in flight
		for (size_t i = t->inflight.size(); i-- > 0;) if (t->inflight[i].obj == p) { ExcRec r = t->inflight[i]; t->inflight.erase(t->inflight.begin() + (long) i); t->inflight.push_back(r); break; }
		popStackTo(f->stackMark);
		t->fr.pop_back();
		if (!t->fr.empty()) rb = t->regs.data() + t->fr.back().base;
		unwind();
		break;
	}
	case I_UNREACH: fail("abort", "unreachable code reached");
	case I_RMW: {
		u64 a = addrOf(R_(d.a)), off;
		Obj *o = access(a, d.imm, off, true);
		unsigned by = (*d.lv)[0].bytes;
		Val old = loadLeaf(o, off, a, d.w, by), v = R_(d.b), nv;
		switch ((AtomicRMWInst::BinOp) d.sub) {
		case AtomicRMWInst::Xchg: nv = v; break;
		case AtomicRMWInst::Add: nv = binop(O_ADD, old, v, d.w); break;
		case AtomicRMWInst::Sub: nv = binop(O_SUB, old, v, d.w); break;
		case AtomicRMWInst::And: nv = binop(O_AND, old, v, d.w); break;
		case AtomicRMWInst::Or: nv = binop(O_OR, old, v, d.w); break;
		case AtomicRMWInst::Xor: nv = binop(O_XOR, old, v, d.w); break;
		default: incomplete("atomicrmw"); throw Kill();
		}
		storeLeaf(o, off, nv, d.w, by);
		if (d.dst >= 0) rb[d.dst] = old;
		f->pc++; break;
	}
	case I_CMPXCHG: {
		u64 a = addrOf(R_(d.a)), off;
		unsigned by = (*d.lv)[0].bytes;
		Obj *o = access(a, by, off, true);
		Val old = loadLeaf(o, off, a, d.w, by);
		Val eq = icmp(CmpInst::ICMP_EQ, old, R_(d.b), d.w);
		bool v = eq.e ? decide(eq.e) : eq.c;
		if (v) { o = access(a, by, off, true); storeLeaf(o, off, R_(d.c), d.w, by); }
		rb[d.dst] = old; rb[d.dst + 1] = cv(v);
		t->fr.back().pc++; break;
	}
	default: {
		std::string str; raw_string_ostream os(str); if (d.src) d.src->print(os);
		incomplete("unsupported instruction " + str);
		throw Kill();
	}
	}
}

static double rssMB()
{
	FILE *f = fopen("/proc/self/statm", "r");
	long a = 0, b = 0;
	if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); }
	return (double) b * 4096 / 1e6;
}
static bool timeUp()
{
	if (nowSec() - g_t0 > opt.maxTime) { R.incomplete["time limit"].first++; g_stop = true; g_sh->stop = 2; return true; }
	if (g_sh->stop) { g_stop = true; return true; }
	return false;
}
static u64 g_pathCounter = 0;
void Interp::run(State *st)
{
	s = st;
	sync();
	u64 n = 0;
	try {
		if (t->fr.empty()) nextInit();
		for (;;) {
			step();
			if ((++n & 0x3fffff) == 0 && timeUp()) break;
			if (++s->steps > opt.maxSteps) { incomplete("step limit per path"); break; }
		}
	} catch (Kill &) {
	} catch (EngineErr &e) {
		incomplete("engine: " + e.msg);
	}
	R.steps += n;
	delete s;
	s = nullptr;
}

// ---------------------------------------------------------------- JSON
static std::string js(const std::string &s)
{
	std::string r = "\"";
	for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char) c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += (char) c; }
	return r + "\"";
}
static void writeJson(const std::string &path, double cpu)
{
	FILE *f = fopen(path.c_str(), "w");
	fprintf(f, "{\"paths\":%llu,\"killed\":%llu,\"forks\":%llu,\"picks\":%llu,\"steps\":%llu,\"asserts\":%llu,\"assert_queries\":%llu,\"branch_queries\":%llu,\"errors\":%llu,", (unsigned long long) R.paths, (unsigned long long) R.killed, (unsigned long long) R.forks, (unsigned long long) R.picks, (unsigned long long) R.steps, (unsigned long long) R.asserts, (unsigned long long) R.assertQueries, (unsigned long long) R.branchQueries, (unsigned long long) R.errors);
	fprintf(f, "\"queries\":%llu,\"cache_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_time\":%.4f,\"solver_max\":%.4f,\"cpu\":%.2f,\"rss_mb\":%.0f,", (unsigned long long) g_ss.queries, (unsigned long long) g_ss.cacheHits, (unsigned long long) g_ss.sat, (unsigned long long) g_ss.unsat, (unsigned long long) g_ss.unknown, g_ss.time, g_ss.maxTime, cpu, rssMB());
	fprintf(f, "\"reach\":{");
	bool first = true;
	for (auto &p : R.reach) { fprintf(f, "%s%s:%llu", first ? "" : ",", js(p.first).c_str(), (unsigned long long) p.second); first = false; }
	fprintf(f, "},\"incomplete\":{");
	first = true;
	for (auto &p : R.incomplete) { fprintf(f, "%s%s:[%llu,%s]", first ? "" : ",", js(p.first).c_str(), (unsigned long long) p.second.first, js(p.second.second).c_str()); first = false; }
	fprintf(f, "},\"functions\":[");
	first = true;
	for (auto &p : R.funcs) { fprintf(f, "%s%s", first ? "" : ",", js(p).c_str()); first = false; }
	for (int wi = 0; wi < 2; wi++) {
	fprintf(f, wi ? "],\"witnesses\":[" : "],\"ces\":[");
	first = true;
	for (auto &c : wi ? R.wits : R.ces) {
		fprintf(f, "%s{\"kind\":%s,\"msg\":%s,\"where\":%s,\"stack\":[", first ? "" : ",", js(c.kind).c_str(), js(c.msg).c_str(), js(c.where).c_str());
		first = false;
		for (size_t i = 0; i < c.stack.size(); i++) fprintf(f, "%s%s", i ? "," : "", js(c.stack[i]).c_str());
		fprintf(f, "],\"trace\":[");
		for (size_t i = 0; i < c.trace.size(); i++) fprintf(f, "%s%s", i ? "," : "", js(c.trace[i]).c_str());
		fprintf(f, "],\"inputs\":[");
		for (size_t i = 0; i < c.inputs.size(); i++) fprintf(f, "%s[%s,%u,%llu]", i ? "," : "", js(c.inputs[i].first).c_str(), c.inputs[i].second.first, (unsigned long long) c.inputs[i].second.second);
		fprintf(f, "]}");
	}
	}
	fprintf(f, "]}\n");
	fclose(f);
}

static FnInfo *g_fnZero = nullptr;
int main(int argc, char **argv)
{
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&]() { return std::string(argv[++i]); };
		if (a == "--out") opt.out = nx();
		else if (a == "--entry") opt.entry = nx();
		else if (a == "--time") opt.maxTime = atof(nx().c_str());
		else if (a == "--steps") opt.maxSteps = strtoull(nx().c_str(), 0, 10);
		else if (a == "--jobs") opt.jobs = (u32) atoi(nx().c_str());
		else if (a == "--frontier") opt.frontier = (u32) atoi(nx().c_str());
		else if (a == "--max-ce") opt.maxCE = (u32) atoi(nx().c_str());
		else if (a == "--ce-total") opt.maxCeTotal = (u32) atoi(nx().c_str());
		else if (a == "--smt") opt.smt = nx();
		else if (a == "--smt-max") opt.smtMax = (u32) atoi(nx().c_str());
		else if (a == "--smt-every") opt.smtEvery = (u32) atoi(nx().c_str());
		else if (a == "--solver-timeout") opt.timeoutMs = (u32) atoi(nx().c_str());
		else if (a == "--wit") opt.wit = (u32) atoi(nx().c_str());
		else if (a == "--mem") opt.memMB = atof(nx().c_str());
		else if (a == "-v") opt.verbose = true;
		else opt.file = a;
	}
	g_t0 = nowSec();
	g_sh = (Shared *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	new (g_sh) Shared();
	g_sh->next = 0; g_sh->ceTotal = 0; g_sh->stop = 0;
	LLVMContext ctx;
	g_ctx = &ctx;
	SMDiagnostic err;
	auto mod = parseIRFile(opt.file, err, ctx);
	if (!mod) { err.print("symx", errs()); return 3; }
	g_mod = mod.get();
	g_dl = &g_mod->getDataLayout();
	S.timeoutMs = opt.timeoutMs;
	S.init();

	State *st = new State();
	st->th.push_back(std::make_shared<Thread>());
	// addresses
	st->glob.push(Obj::make(0, OF_FUNC)); // index 0 unused
	std::vector<GlobalVariable *> gvs;
	for (auto &F : *g_mod) { u32 k = st->glob.push(Obj::make(0, OF_FUNC)); g_gaddr[&F] = mkAddr(R_GLOBAL, k); }
	for (auto &G : g_mod->globals()) {
		u64 sz = g_dl->getTypeAllocSize(G.getValueType());
		Obj *o;
		if (G.isDeclaration()) {
			o = Obj::make((u32) std::max<u64>(sz, 256), OF_GLOBAL | OF_EXT);
			std::string n = G.getName().str();
			if (n == "__libc_single_threaded") { o->flags = OF_GLOBAL; o->data[0] = 1; }
			if (n == "__dso_handle") o->flags = OF_GLOBAL;
		} else o = Obj::make((u32) sz, OF_GLOBAL);
		u32 k = st->glob.push(o);
		g_gaddr[&G] = mkAddr(R_GLOBAL, k);
		gvs.push_back(&G);
	}
	for (auto &F : *g_mod) { FnInfo *fi = fnInfo(&F); fi->addr = g_gaddr[&F]; g_fnByAddr[fi->addr] = fi; }
	(void) g_fnZero;
	try {
		for (auto *G : gvs) if (!G->isDeclaration() && G->hasInitializer()) {
			u32 k = (u32)((g_gaddr[G] >> SEG) & IDXMASK);
			Obj *o = st->glob.getW(k);
			if (G->getName() == "llvm.global_ctors" || G->getName() == "llvm.used" || G->getName() == "llvm.compiler.used") continue;
			writeConst(G->getInitializer(), o->data);
			if (G->isConstant()) o->flags |= OF_RO;
		}
	} catch (EngineErr &e) { fprintf(stderr, "symx: %s\n", e.msg.c_str()); return 3; }
	if (auto *gc = g_mod->getGlobalVariable("llvm.global_ctors")) {
		if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
			std::vector<std::pair<u64, Function *>> v;
			for (auto &op : ca->operands()) { auto *cs = cast<ConstantStruct>(op); if (auto *F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F}); }
			std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
			for (auto &p : v) g_inits.push_back(fnInfo(p.second));
		}
	}
	Function *ef = g_mod->getFunction(opt.entry);
	if (!ef || ef->isDeclaration()) { fprintf(stderr, "symx: no entry %s\n", opt.entry.c_str()); return 3; }
	g_entry = fnInfo(ef);

	Interp I;
	auto ga = [&](const char *n) -> u64 { auto *g = g_mod->getNamedGlobal(n); return g ? g_gaddr[g] : 1; };
	I.vSi = ga("_ZTVN10__cxxabiv120__si_class_type_infoE");
	I.vVmi = ga("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
	I.vClass = ga("_ZTVN10__cxxabiv117__class_type_infoE");

	g_work.push_back(st);
	// breadth-first split
	while (!g_work.empty() && !g_stop && (opt.jobs > 1 ? g_work.size() < opt.frontier : true)) {
		State *x;
		if (opt.jobs > 1) { x = g_work.front(); g_work.pop_front(); }
		else { x = g_work.back(); g_work.pop_back(); }
		I.run(x);
		if (timeUp()) break;
	}
	double tsplit = nowSec() - g_t0;
	auto cpuNow = [&](int who) { struct rusage ru; getrusage(who, &ru); return (double) ru.ru_utime.tv_sec + (double) ru.ru_utime.tv_usec / 1e6 + (double) ru.ru_stime.tv_sec + (double) ru.ru_stime.tv_usec / 1e6; };
	int nparts = 1;
	if (!g_work.empty() && !g_stop && opt.jobs > 1) {
		std::vector<State *> fr(g_work.begin(), g_work.end());
		g_work.clear();
		// interleave so that long subtrees spread
		std::vector<pid_t> pids;
		writeJson(opt.out + ".0", cpuNow(RUSAGE_SELF));
		for (u32 j = 0; j < opt.jobs; j++) {
			pid_t p = fork();
			if (p == 0) {
				R = Result(); g_ss = SolverStats();
				if (!opt.smt.empty()) { S.smtDump = fopen((opt.smt + "." + std::to_string(j)).c_str(), "w"); S.smtDumpMax = opt.smtMax; S.dumpEvery = opt.smtEvery; }
				u64 cnt = 0;
				for (;;) {
					u64 k = g_sh->next.fetch_add(1);
					if (k >= fr.size()) break;
					g_work.push_back(fr[k]);
					while (!g_work.empty() && !g_stop) {
						State *x = g_work.back();
						g_work.pop_back();
						I.run(x);
						if ((++cnt & 15) == 0) {
							timeUp();
							if ((cnt & 1023) == 0 && rssMB() > opt.memMB) { R.incomplete["memory limit"].first++; g_stop = true; g_sh->stop = 2; }
						}
					}
					if (g_stop) break;
				}
				if (g_stop && g_sh->stop == 1) R.incomplete["stopped after counterexamples"].first++;
				writeJson(opt.out + "." + std::to_string(j + 1), cpuNow(RUSAGE_SELF));
				if (S.smtDump) fclose(S.smtDump);
				_exit(0);
			}
			pids.push_back(p);
		}
		nparts = 1 + (int) opt.jobs;
		int bad = 0;
		for (auto p : pids) { int stt; waitpid(p, &stt, 0); if (!WIFEXITED(stt) || WEXITSTATUS(stt)) bad++; }
		if (bad) { fprintf(stderr, "symx: %d worker process(es) died\n", bad); return 4; }
	} else {
		if (!g_work.empty() && g_sh->stop == 1) R.incomplete["stopped after counterexamples"].first++;
		writeJson(opt.out + ".0", cpuNow(RUSAGE_SELF));
	}
	FILE *f = fopen(opt.out.c_str(), "w");
	fprintf(f, "{\"parts\":%d,\"wall\":%.3f,\"split\":%.3f}\n", nparts, nowSec() - g_t0, tsplit);
	fclose(f);
	return 0;
}
