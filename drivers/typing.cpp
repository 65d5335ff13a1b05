// Operations requested without a result type: what is added for the types of the operands.
#include "ops.h"
#include <functional>
#include <memory>
using namespace vt;
static Sink* out;
struct Call { Instruction* r; bool isVoid; };
using Fn = std::function<Call(BasicBlock&, Args&, const std::vector<int>&)>;
static Flag<spv::ImageOperandsMask> mask(const std::vector<int>& x) { return spv::ImageOperandsMask(unsigned(x[0])); }
static std::map<std::string, Fn> table()
{
	std::map<std::string, Fn> t;
#define HELPER(h, e) t[#h] = [](BasicBlock& b, Args& a, const std::vector<int>& x) -> Call { (void)a; (void)x; return Call{ e, false }; };
#define PROC(h, e) t[#h] = [](BasicBlock& b, Args& a, const std::vector<int>& x) -> Call { (void)x; e; return Call{ nullptr, true }; };
#define H1(h) HELPER(h, b->h(a[0]))
#define H2(h) HELPER(h, b->h(a[0], a[1]))
#define H3(h) HELPER(h, b->h(a[0], a[1], a[2]))
// image operations with 2 or 3 operands before the image operands
#define M2(h) HELPER(h, x[0] == 0 ? b->h(a[0], a[1]) : a.size() == 2 ? b->h(a[0], a[1], mask(x)) : a.size() == 3 ? b->h(a[0], a[1], mask(x), a[2]) : b->h(a[0], a[1], mask(x), a[2], a[3]))
#define M3(h) HELPER(h, x[0] == 0 ? b->h(a[0], a[1], a[2]) : a.size() == 3 ? b->h(a[0], a[1], a[2], mask(x)) : a.size() == 4 ? b->h(a[0], a[1], a[2], mask(x), a[3]) : b->h(a[0], a[1], a[2], mask(x), a[3], a[4]))
#define I3(h) HELPER(h, b->h(a[0], a[1], a[2]))
#define I4(h) HELPER(h, b->h(a[0], a[1], a[2], a[3]))
#define G3(h) HELPER(h, b->h(a[0], a[1], a[2], spv::ImageOperandsMask::MaskNone, a[3]))
#define G4(h) HELPER(h, b->h(a[0], a[1], a[2], a[3], spv::ImageOperandsMask::MaskNone, a[4]))
		H1(opSNegate) H1(opFNegate) H1(opNot) H1(opLogicalNot) H1(opConvertFToU) H1(opConvertFToS) H1(opConvertSToF) H1(opConvertUToF) H1(opSatConvertSToU) H1(opSatConvertUToS) 
		H1(opIsNan) H1(opIsInf) H1(opIsFinite) H1(opIsNormal) H1(opSignBitSet) H1(opBitReverse) H1(opBitCount) H1(opDPdx) H1(opDPdy) H1(opFwidth) H1(opDPdxFine) H1(opDPdyFine) 
		H1(opFwidthFine) H1(opDPdxCoarse) H1(opDPdyCoarse) H1(opFwidthCoarse) H1(opQuantizeToF16) H1(opAny) H1(opAll) H1(opCopyObject) H1(opTranspose) H1(opUndef) H1(opImage) 
		H1(opImageQueryLevels) H1(opImageQuerySamples) H1(opImageQuerySize) H1(opImageQueryFormat) H1(opImageQueryOrder) H1(opSizeOf) H1(opLoad) H2(opIAdd) H2(opFAdd) H2(opISub) 
		H2(opFSub) H2(opIMul) H2(opFMul) H2(opUDiv) H2(opSDiv) H2(opFDiv) H2(opUMod) H2(opSRem) H2(opSMod) H2(opFRem) H2(opFMod) H2(opIAddCarry) H2(opISubBorrow) 
		H2(opUMulExtended) H2(OpSMulExtended) H2(opOrdered) H2(opUnordered) H2(opLogicalEqual) H2(opLogicalNotEqual) H2(opLogicalOr) H2(opLogicalAnd) H2(opIEqual) H2(opINotEqual) 
		H2(opUGreaterThan) H2(opSGreaterThan) H2(opUGreaterThanEqual) H2(opSGreaterThanEqual) H2(opULessThan) H2(opSLessThan) H2(opULessThanEqual) H2(opSLessThanEqual) 
		H2(opFOrdEqual) H2(opFUnordEqual) H2(opFOrdNotEqual) H2(opFUnordNotEqual) H2(opFOrdLessThan) H2(opFUnordLessThan) H2(opFOrdGreaterThan) H2(opFUnordGreaterThan) 
		H2(opFOrdLessThanEqual) H2(opFUnordLessThanEqual) H2(opFOrdGreaterThanEqual) H2(opFUnordGreaterThanEqual) H2(opShiftRightLogical) H2(opShiftRightArithmetic) 
		H2(opShiftLeftLogical) H2(opBitwiseOr) H2(opBitwiseXor) H2(opBitwiseAnd) H2(opVectorTimesScalar) H2(opMatrixTimesScalar) H2(opVectorTimesMatrix) H2(opMatrixTimesVector) 
		H2(opMatrixTimesMatrix) H2(opOuterProduct) H2(opDot) H2(opVectorExtractDynamic) H2(opBitcast) H2(opConvertUToPtr) H2(opPtrEqual) H2(opPtrNotEqual) H2(opImageQuerySizeLod) 
		H2(opSampledImage) H3(opSelect) H3(opVectorInsertDynamic) H3(opBitFieldSExtract) H3(opBitFieldUExtract) M2(opImageSampleImplictLod) I3(opImageSampleExplicitLodLevel) 
		G3(opImageSampleExplicitLodGrad) M2(opImageSampleProjImplictLod) I3(opImageSampleProjExplicitLodLevel) G3(opImageSampleProjExplicitLodGrad) 
		M3(opImageSampleDrefImplictLod) I4(opImageSampleDrefExplicitLodLevel) G4(opImageSampleDrefExplicitLodGrad) M3(opImageSampleProjDrefImplictLod) 
		I4(opImageSampleProjDrefExplicitLodLevel) G4(opImageSampleProjDrefExplicitLodGrad) M2(opImageFetch) M3(opImageGather) M3(opImageDrefGather) M2(opImageRead) 
		H2(opImageQueryLod) 
	HELPER(opBitFieldInsert, b->opBitFieldInsert(a[0], a[1], a[2], a[3]))
	HELPER(opUConvert, b->opUConvert(a[0], unsigned(x[0]))) HELPER(opSConvert, b->opSConvert(a[0], unsigned(x[0]))) HELPER(opFConvert, b->opFConvert(a[0], unsigned(x[0]))) HELPER(opConvertPtrToU, b->opConvertPtrToU(a[0], unsigned(x[0])))
	HELPER(opArrayLength, b->opArrayLength(a[0], unsigned(x[0])))
	HELPER(opPhi, a.size() == 1 ? b->opPhi(a[0]) : a.size() == 2 ? b->opPhi(a[0], a[1]) : b->opPhi(a[0], a[1], a[2]))
	t["opPhiDynamic"] = [](BasicBlock& b, Args& a, const std::vector<int>&) -> Call { List<Instruction*> l(b.getModule()->getAllocator()); for (auto* i : a) l.emplace_back(i); return Call{ b->opPhiDynamic(l), false }; };
	HELPER(opEmitVertex, b->opEmitVertex()) HELPER(opEndPrimitive, b->opEndPrimitive()) HELPER(opEmitStreamVertex, b->opEmitStreamVertex(a[0])) HELPER(opEndStreamPrimitive, b->opEndStreamPrimitive(a[0]))
	PROC(opStore, b->opStore(a[0], a[1])) PROC(opCopyMemory, b->opCopyMemory(a[0], a[1])) PROC(opCopyMemorySized, b->opCopyMemorySized(a[0], a[1], a[2]))
	HELPER(opImageWrite, b->opImageWrite(a[0], a[1], a[2]))
	return t;
}
struct Blocks : Watch
{
	using Watch::Watch; const Args* a = nullptr;
	std::string other(const Operand& o) override
	{
		if (o.type == Operand::Type::BranchTarget && o.branchTarget) for (size_t k = 0; k < a->size(); ++k) if ((*a)[k]->getBasicBlock() == o.branchTarget) return "[\"b\"," + n(int(k + 1)) + "]";
		return "[\"other\"]";
	}
};
struct Session
{
	HeapAllocator al; Logger lg; std::unique_ptr<Module> m; Function* f; static Rng R;
	Session() : m(new Module(&al, &lg)) { m->addCapability(spv::Capability::Shader); f = &m->addFunction<void>("f"); }
	void request(const std::map<std::string, Fn>& t, const J& s)
	{
		if (s.a[0].s == "operands") { operands(s); return; }
		const std::string& h = s.a[0].s; std::vector<int> x; for (auto& v : s.a[2].a) x.push_back(int(v.i));
		BasicBlock& b = f->addBasicBlock("b"); Args a; bool nulled = false;
		bool img = x.size() == 2, konst = (img && x[1] == 1) || (!img && x.size() == 1 && ((h.find("Stream") != std::string::npos && x[0] == 1))), sized = h == "opCopyMemorySized" && x[0] >= 0;
		bool phi = h == "opPhi" || h == "opPhiDynamic", typeFirst = h == "opBitcast" || h == "opConvertUToPtr" || h == "opUndef";
		for (size_t k = 0; k < s.a[1].a.size(); ++k)
		{
			const J& d = s.a[1].a[k]; Type ty = mkType(*m, d); bool last = k + 1 == s.a[1].a.size();
			if (typeFirst && k == 0) { a.push_back(m->addType(ty)); continue; }
			if (last && (konst || sized)) { a.push_back(constant(d, sized ? x[0] : 1)); continue; }
			BasicBlock& home = phi ? f->addBasicBlock("p") : b;
			// where the operand comes from does not matter
			unsigned where = phi || konst || sized || (img && x[0] != 0) || h.find("Stream") != std::string::npos || h == "opCopyMemorySized" ? 0 : R.below(8);
			if (where == 1 && !nulled && (isD(d, "Int") || isD(d, "Float") || isD(d, "Bool") || isD(d, "Vec") || isD(d, "Mat"))) { nulled = true; Constant c(&al); c.setOperation(spv::Op::OpConstantNull); c.getType() = ty; a.push_back(m->addConstant(c)); }
			else if (where == 2) a.push_back(f->addParameters(m->addType(ty)));
			else if (where == 3) { Instruction* u = home->opUndef(m->addType(ty)); a.push_back(home->opCopyObject(u)); }
			else a.push_back(home->opUndef(m->addType(ty)));
		}
		std::set<const Instruction*> had; for (const Instruction& i : b) had.insert(&i);
		size_t bbs = count(), total = everything();
		unsigned before = lg.errors; lg.lastError.clear();
		auto it = t.find(h); if (it == t.end()) { fprintf(stderr, "unknown helper %s\n", h.c_str()); exit(3); }
		Call c = it->second(b, a, x);
		std::vector<std::string> added; std::map<const Instruction*, int> pos; std::vector<const Instruction*> lst; bool order = true, fresh = false;
		for (const Instruction& i : b) { if (had.count(&i)) { if (fresh) order = false; continue; } fresh = true; if (i.getOperation() != spv::Op::OpNop) { lst.push_back(&i); pos[&i] = int(lst.size()); } }
		for (auto* i : lst)
		{
			std::vector<std::string> ops; std::string rt = "[]"; bool id = false, ty = false; spv::HasResultAndType(i->getOperation(), &id, &ty); size_t k = 0;
			for (const Operand& o : *i)
			{
				size_t p = k++;
				if (ty && p == 0) { rt = o.isInstruction() && o.instruction ? decode(o.instruction) : std::string("[\"none\"]"); continue; }
				if (id && p == size_t(ty ? 1 : 0)) { if (!o.isId()) ops.push_back("[\"noid\"]"); continue; }
				ops.push_back(operand(o, a, pos));
			}
			added.push_back("[" + n(unsigned(i->getOperation())) + "," + rt + "," + arr(ops) + "]");
		}
		bool err = c.isVoid ? lst.empty() : c.r == nullptr || c.r->isErrorInstr();
		// the instruction returned is the one added
		bool ret = c.isVoid || err || (!lst.empty() && c.r == lst.back());
		std::string last = lg.lastError.substr(0, 80);
		out->line(Obj().str("ev", "op").str("h", h).raw("ts", text(s.a[1])).raw("x", nums(x)).flag("err", err).num("logs", lg.errors - before).raw("new", arr(added)).flag("ret", ret).flag("order", order && bbs == count()).flag("alone", everything() == total + (countOf(b) - had.size())).str("last", last).done());
		if (!err && !c.isVoid && lst.size() == 1 && lst[0]->hasResultType()) raw(s, lst[0], a);
	}
	// the same request made without the helper: opcode, no result type, and the operands
	template<class ...A> static Instruction* build(BasicBlock& b, spv::Op op, const std::vector<const Operand*>& o, A ...done)
	{
		constexpr size_t k = sizeof...(A);
		if (k == o.size()) return b->makeOp(op, InvalidInstr, InvalidId, done...);
		if constexpr (k < 6)
		{
			if (o[k]->isInstruction()) return build(b, op, o, done..., o[k]->instruction);
			if (o[k]->isLiteral()) return build(b, op, o, done..., o[k]->literal);
			if constexpr (k < 4) { if (o[k]->isBranchTarget()) return build(b, op, o, done..., o[k]->branchTarget); }
		}
		return nullptr;
	}
	void raw(const J& s, const Instruction* i, const Args& a)
	{
		std::vector<const Operand*> o; size_t k = 0; for (const Operand& x : *i) if (k++ >= 2) o.push_back(&x);
		BasicBlock& b = f->addBasicBlock("r"); Blocks w(*m, *f, b, lg); w.a = &a;
		Instruction* r = build(b, i->getOperation(), o);
		if (r == nullptr) return;
		out->line(w.end(Obj().str("ev", "raw").str("h", s.a[0].s).raw("ts", text(s.a[1])).raw("x", text(s.a[2])), a, r).done());
	}
	void operands(const J& s)
	{
		spv::Op op = spv::Op(int(s.a[2].a[0].i)); BasicBlock& b = f->addBasicBlock("o"), &t = f->addBasicBlock("t");
		Instruction* val = b->opUndef(m->type<int>()); m->constant(1);
		Instruction* i = b.addInstruction(); i->setOperation(op);
		for (auto& x : s.a[1].a)
		{
			const std::string& k = x.s;
			if (k == "type") i->addOperand(m->type<int>()); else if (k == "value") i->addOperand(val); else if (k == "null") i->addOperand(InvalidInstr); else if (k == "error") i->addOperand(m->getErrorInstr());
			else if (k == "self") i->addOperand(i); else if (k == "id") i->addOperand(InvalidId); else if (k == "lit") i->addOperand(literal_t{ 7u }); else if (k == "block") i->addOperand(&t); else i->addOperand(static_cast<BasicBlock*>(nullptr));
		}
		unsigned before = lg.errors; lg.lastError.clear(); bool ok = i->validateOperands();
		out->line(Obj().str("ev", "valid").num("op", unsigned(op)).raw("s", text(s.a[1])).flag("ok", ok).num("logs", lg.errors - before).str("last", lg.lastError.substr(0, 60)).done());
	}
	size_t countOf(BasicBlock& b) { size_t k = 0; for (const Instruction& i : b) { (void)i; ++k; } return k; }
	size_t count() { size_t k = 0; for (const BasicBlock& b : *f) { (void)b; ++k; } return k; }
	// instructions outside of types, constants, capabilities and extensions
	size_t everything() { size_t k = 0; for (auto& g : m->getFunctions()) for (auto& b : g) for (auto& i : b) { (void)i; ++k; } for (auto* l : { &m->getNames(), &m->getDecorations(), &m->getGlobalVariables(), &m->getUndefs(), &m->getExecutionModes() }) for (auto& i : *l) { (void)i; ++k; } return k; }
	Instruction* constant(const J& d, int v)
	{
		if (isD(d, "Bool")) return m->constant(v != 0);
		if (isD(d, "Int") && d.a[1].i == 32) return d.a[2].i ? m->constant<int>(v) : m->constant<unsigned>(unsigned(v));
		if (isD(d, "Int") && d.a[1].i == 64) return d.a[2].i ? m->constant<long long>(v) : m->constant<unsigned long long>((unsigned long long)(v));
		if (isD(d, "Int") && d.a[1].i == 16) return d.a[2].i ? m->constant<short>(short(v)) : m->constant<unsigned short>((unsigned short)(v));
		if (isD(d, "Float") && d.a[1].i == 32) return m->constant<float>(float(v));
		if (isD(d, "Float") && d.a[1].i == 64) return m->constant<double>(double(v));
		Constant c(m->getAllocator()); Type t = mkType(*m, d); c.setOperation(spv::Op::OpConstantNull); c.getType() = t; return m->addConstant(c);
	}
	std::string operand(const Operand& o, const Args& a, const std::map<const Instruction*, int>& pos)
	{
		if (o.isLiteral()) return "[\"l\"," + n(o.literal.value >> 16) + "," + n(o.literal.value & 0xffffu) + "]";
		if (o.isInstruction() && o.instruction)
		{
			for (size_t k = 0; k < a.size(); ++k) if (a[k] == o.instruction) return "[\"a\"," + n(int(k + 1)) + "]";
			auto it = pos.find(o.instruction); if (it != pos.end()) return "[\"n\"," + n(it->second) + "]";
			return "[\"other\"]";
		}
		if (o.type == Operand::Type::BranchTarget && o.branchTarget) { for (size_t k = 0; k < a.size(); ++k) if (a[k]->getBasicBlock() == o.branchTarget) return "[\"b\"," + n(int(k + 1)) + "]"; return "[\"other\"]"; }
		return "[\"?\"]";
	}
};
Rng Session::R(1);
int main(int c, char** v)
{
	watchdog(600); Sink sk(v[1]); out = &sk; auto t = table(); if (c > 3) Session::R = Rng(strtoull(v[3], nullptr, 10));
	std::unique_ptr<Session> s; unsigned k = 0;
	auto lines = readLines(v[2]); for (size_t i = lines.size(); i > 1; --i) std::swap(lines[i - 1], lines[Session::R.below(unsigned(i))]);
	for (auto& l : lines) { if (k++ % 64 == 0) { s.reset(); s.reset(new Session); } s->request(t, parse(l)); }
	return 0;
}
