// Observing one request made on a block: what was added, complaints, what was returned.
#pragma once
#include "descs.h"
namespace vt
{
	// the type an instruction declares, from the operands of the instructions it is made of
	inline std::string decode(const Instruction* i)
	{
		if (i == nullptr) return "[\"null\"]";
		std::vector<const Operand*> o; for (const Operand& x : *i) o.push_back(&x);
		if (o.empty() || !o[0]->isId()) return "[\"noid\"]";
		o.erase(o.begin());
		auto sub = [&](size_t k) { return k < o.size() && o[k]->isInstruction() ? decode(o[k]->instruction) : std::string("[\"none\"]"); };
		auto lit = [&](size_t k) { return k < o.size() && o[k]->isLiteral() ? n(int(o[k]->literal.value)) : std::string("-1"); };
		auto subs = [&]() { std::vector<std::string> v; for (size_t k = 0; k < o.size(); ++k) v.push_back(sub(k)); return arr(v); };
		switch (i->getOperation())
		{
		case spv::Op::OpTypeVoid: return "[\"Void\"]";
		case spv::Op::OpTypeBool: return "[\"Bool\"]";
		case spv::Op::OpTypeInt: return "[\"Int\"," + lit(0) + "," + lit(1) + "]";
		case spv::Op::OpTypeFloat: return "[\"Float\"," + lit(0) + "]";
		case spv::Op::OpTypeVector: return "[\"Vec\"," + sub(0) + "," + lit(1) + "]";
		case spv::Op::OpTypeMatrix: return "[\"Mat\"," + sub(0) + "," + lit(1) + "]";
		case spv::Op::OpTypeArray: { std::string len = "-1"; if (o.size() > 1 && o[1]->isInstruction()) { std::vector<const Operand*> c; for (const Operand& x : *o[1]->instruction) c.push_back(&x); if (c.size() == 3 && c[2]->isLiteral()) len = n(int(c[2]->literal.value)); } return "[\"Arr\"," + sub(0) + "," + len + "]"; }
		case spv::Op::OpTypeRuntimeArray: return "[\"RArr\"," + sub(0) + "]";
		case spv::Op::OpTypeStruct: return "[\"Struct\"," + subs() + "]";
		case spv::Op::OpTypeFunction: return "[\"Fun\"," + subs() + "]";
		case spv::Op::OpTypePointer: return "[\"Ptr\"," + lit(0) + "," + sub(1) + "]";
		case spv::Op::OpTypeSampler: return "[\"Sampler\"]";
		case spv::Op::OpTypeSampledImage: return "[\"SImg\"," + sub(0) + "]";
		case spv::Op::OpTypeImage: return "[\"Img\"," + sub(0) + "," + lit(1) + "," + lit(2) + "," + lit(3) + "," + lit(4) + "," + lit(5) + "," + lit(6) + "," + (o.size() > 7 ? lit(7) : std::string("-1")) + "]";
		default: return "[\"T\"," + n(unsigned(i->getOperation())) + "]";
		}
	}
	using Args = std::vector<Instruction*>;
	struct Watch
	{
		Module& m; Function& f; BasicBlock& b; Logger& lg; std::set<const Instruction*> had; size_t bbs, total; unsigned before;
		Watch(Module& _m, Function& _f, BasicBlock& _b, Logger& _l) : m(_m), f(_f), b(_b), lg(_l)
		{
			for (const Instruction& i : b) had.insert(&i);
			bbs = count(); total = everything(); before = lg.errors; lg.lastError.clear();
		}
		size_t countOf() { size_t k = 0; for (const Instruction& i : b) { (void)i; ++k; } return k; }
		size_t count() { size_t k = 0; for (const BasicBlock& x : f) { (void)x; ++k; } return k; }
		// instructions outside of types, constants, capabilities and extensions
		size_t everything() { size_t k = 0; for (auto& g : m.getFunctions()) for (auto& x : g) for (auto& i : x) { (void)i; ++k; } for (auto* l : { &m.getNames(), &m.getDecorations(), &m.getGlobalVariables(), &m.getUndefs(), &m.getExecutionModes() }) for (auto& i : *l) { (void)i; ++k; } return k; }
		virtual std::string other(const Operand&) { return "[\"other\"]"; }
		std::string operand(const Operand& o, const Args& a, const std::map<const Instruction*, int>& pos)
		{
			if (o.isLiteral()) return "[\"l\"," + n(o.literal.value >> 16) + "," + n(o.literal.value & 0xffffu) + "]";
			if (o.isInstruction() && o.instruction)
			{
				for (size_t k = 0; k < a.size(); ++k) if (a[k] == o.instruction) return "[\"a\"," + n(int(k + 1)) + "]";
				auto it = pos.find(o.instruction); if (it != pos.end()) return "[\"n\"," + n(it->second) + "]";
				if (o.instruction->getOperation() == spv::Op::OpConstant)
				{
					std::vector<std::string> w; size_t k = 0; for (const Operand& x : *o.instruction) if (k++ >= 2) { w.push_back(n(x.isLiteral() ? x.literal.value >> 16 : 0xfffffu)); w.push_back(n(x.literal.value & 0xffffu)); }
					return "[\"k\"," + decode(o.instruction->getResultTypeInstr()) + "," + arr(w) + "]";
				}
			}
			return other(o);
		}
		Obj end(Obj o, const Args& a, Instruction* r)
		{
			std::vector<std::string> added; std::map<const Instruction*, int> pos; std::vector<const Instruction*> lst; bool order = true, fresh = false;
			for (const Instruction& i : b) { if (had.count(&i)) { if (fresh) order = false; continue; } fresh = true; if (i.getOperation() != spv::Op::OpNop) { lst.push_back(&i); pos[&i] = int(lst.size()); } }
			for (auto* i : lst)
			{
				std::vector<std::string> ops; std::string rt = "[]"; bool id = false, ty = false; spv::HasResultAndType(i->getOperation(), &id, &ty); size_t k = 0;
				for (const Operand& x : *i)
				{
					size_t p = k++;
					if (ty && p == 0) { rt = x.isInstruction() && x.instruction ? decode(x.instruction) : std::string("[\"none\"]"); continue; }
					if (id && p == size_t(ty ? 1 : 0)) { if (!x.isId()) ops.push_back("[\"noid\"]"); continue; }
					ops.push_back(operand(x, a, pos));
				}
				added.push_back("[" + n(unsigned(i->getOperation())) + "," + rt + "," + arr(ops) + "]");
			}
			bool err = r == nullptr || r->isErrorInstr();
			bool ret = err || (!lst.empty() && r == lst.back());
			return o.flag("err", err).num("logs", lg.errors - before).raw("new", arr(added)).flag("ret", ret).flag("order", order && bbs == count()).flag("alone", everything() == total + (countOf() - had.size())).str("last", lg.lastError.substr(0, 80));
		}
	};
}
