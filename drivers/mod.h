// Observation of a module through its public interface: every container, every instruction, every operand.
#pragma once
#include "vt.h"
#include "spvgentwo/SpvGenTwo.h"
#include "spvgentwo/ModuleTemplate.inl"
#include "spvgentwo/InstructionTemplate.inl"
#include "spvgentwo/Grammar.h"
#include "spvgentwo/GLSL450Instruction.h"
#include "spvgentwo/TypeInferenceAndValiation.h"
#include "common/HeapAllocator.h"

namespace vt
{
	using namespace spvgentwo;

	struct Snap
	{
		std::unordered_map<const Instruction*, int> ids; int next = 1;
		int node(const Instruction* i)
		{
			if (i == nullptr) return 0;
			auto it = ids.find(i); if (it != ids.end()) return it->second;
			return ids[i] = next++;
		}
		std::string operand(const Operand& o)
		{
			switch (o.type)
			{
			case Operand::Type::Instruction: return o.instruction == nullptr ? std::string("[\"0\"]") : "[\"i\"," + n(node(o.instruction)) + "]";
			case Operand::Type::BranchTarget: return o.branchTarget == nullptr ? std::string("[\"0\"]") : "[\"b\"," + n(node(o.branchTarget->getLabel())) + "]";
			case Operand::Type::Literal: return "[\"l\"," + n(o.literal.value >> 16) + "," + n(o.literal.value & 0xffffu) + "]";
			case Operand::Type::Id: return "[\"d\"," + n(int((unsigned)o.id)) + "]";
			}
			return "[\"?\"]";
		}
		// <<node, opcode, <<operands>>>>
		std::string instr(const Instruction& i)
		{
			std::string r = "[" + n(node(&i)) + "," + n(unsigned(i.getOperation())) + ",["; bool f = true;
			for (const Operand& o : i) { if (!f) r += ","; f = false; r += operand(o); }
			return r + "]]";
		}
		// numbers every instruction by its position in module order, so that the specification can index by number
		Snap& number(const Module& m) { eachInstr(m, [&](const Instruction& i) { node(&i); }); return *this; }
		template <class L> std::string list(const L& l) { std::string r = "["; bool f = true; for (const auto& i : l) { if (!f) r += ","; f = false; r += instr(i); } return r + "]"; }
		template <class M> std::string map(const M& l) { std::string r = "["; bool f = true; for (const auto& i : l) { if (!f) r += ","; f = false; r += instr(i.value); } return r + "]"; }
		std::string fun(const Function& f, const char* ep)
		{
			std::vector<std::string> bbs;
			for (const BasicBlock& b : f) bbs.push_back(Obj().raw("lab", instr(*b.getLabel())).raw("ins", list(b)).done());
			return Obj().raw("fn", instr(*f.getFunction())).raw("ps", list(f.getParameters())).raw("bbs", arr(bbs)).raw("end", instr(*f.getFunctionEnd())).raw("ep", ep).done();
		}
		// numbers of instructions that no longer exist are forgotten: their addresses may be used again
		void prune(const Module& m)
		{
			std::set<const Instruction*> live; eachInstr(m, [&](const Instruction& i) { live.insert(&i); });
			for (auto it = ids.begin(); it != ids.end();) if (!live.count(it->first)) it = ids.erase(it); else ++it;
		}
		template <class F> static void eachInstr(const Module& m, F fn)
		{
			for (auto& e : m.getCapabilities()) fn(e.value);
			for (auto& e : m.getExtensions()) fn(e.value);
			for (auto& e : m.getExtInstrImports()) fn(e.value);
			fn(m.getMemoryModel());
			for (auto& e : m.getEntryPoints()) fn(*e.getEntryPoint());
			for (auto* l : { &m.getExecutionModes(), &m.getSourceStrings(), &m.getNames(), &m.getModulesProcessed(), &m.getDecorations(), &m.getTypesAndConstants(), &m.getGlobalVariables(), &m.getUndefs(), &m.getLines() })
				for (auto& i : *l) fn(i);
			auto doFun = [&](const Function& f) { fn(*f.getFunction()); for (auto& p : f.getParameters()) fn(p); for (auto& b : f) { fn(*b.getLabel()); for (auto& i : b) fn(i); } fn(*f.getFunctionEnd()); };
			for (auto& f : m.getFunctions()) doFun(f);
			for (auto& f : m.getEntryPoints()) doFun(f);
		}
		std::string module(const Module& m)
		{
			std::vector<std::string> funs, eps;
			for (const auto& f : m.getFunctions()) funs.push_back(fun(f, "[]"));
			for (const auto& f : m.getEntryPoints()) { funs.push_back(fun(f, ("[" + n(node(f.getEntryPoint())) + "]").c_str())); eps.push_back(instr(*f.getEntryPoint())); }
			return Obj().raw("ver", w(m.getSpvVersion())).raw("gen", w(m.getSpvGenerator())).raw("bound", w(m.getSpvBound())).raw("schema", w(m.getSpvSchema()))
				.raw("caps", map(m.getCapabilities())).raw("exts", map(m.getExtensions())).raw("imps", map(m.getExtInstrImports())).raw("mm", instr(m.getMemoryModel()))
				.raw("eps", arr(eps)).raw("modes", list(m.getExecutionModes())).raw("srcs", list(m.getSourceStrings())).raw("names", list(m.getNames())).raw("procs", list(m.getModulesProcessed()))
				.raw("decs", list(m.getDecorations())).raw("tcs", list(m.getTypesAndConstants())).raw("vars", list(m.getGlobalVariables())).raw("undefs", list(m.getUndefs())).raw("lines", list(m.getLines()))
				.raw("funs", arr(funs)).done();
		}
	};

	// type description as the tagged tuple the specifications use
	inline std::string typeDesc(const Type& t)
	{
		auto sub = [&]() { std::string r = "["; bool f = true; for (const Type& s : t.getSubTypes()) { if (!f) r += ","; f = false; r += typeDesc(s); } return r + "]"; };
		auto front = [&]() { return t.getSubTypes().empty() ? std::string("[\"none\"]") : typeDesc(t.getSubTypes().front()); };
		switch (t.getType())
		{
		case spv::Op::OpTypeVoid: return "[\"Void\"]";
		case spv::Op::OpTypeBool: return "[\"Bool\"]";
		case spv::Op::OpTypeInt: return "[\"Int\"," + n(t.getIntWidth()) + "," + n(t.getIntSign() ? 1 : 0) + "]";
		case spv::Op::OpTypeFloat: return "[\"Float\"," + n(t.getFloatWidth()) + "]";
		case spv::Op::OpTypeVector: return "[\"Vec\"," + front() + "," + n(t.getVectorComponentCount()) + "]";
		case spv::Op::OpTypeMatrix: return "[\"Mat\"," + front() + "," + n(t.getMatrixColumnCount()) + "]";
		case spv::Op::OpTypeArray: return "[\"Arr\"," + front() + "," + n(t.getArrayLength()) + "]";
		case spv::Op::OpTypeRuntimeArray: return "[\"RArr\"," + front() + "]";
		case spv::Op::OpTypeStruct: return "[\"Struct\"," + sub() + "]";
		case spv::Op::OpTypeFunction: return "[\"Fun\"," + sub() + "]";
		case spv::Op::OpTypePointer: return "[\"Ptr\"," + n(unsigned(t.getStorageClass())) + "," + front() + "]";
		case spv::Op::OpTypeForwardPointer: return "[\"FwdPtr\"," + n(unsigned(t.getStorageClass())) + "," + front() + "]";
		case spv::Op::OpTypeSampler: return "[\"Sampler\"]";
		case spv::Op::OpTypeSampledImage: return "[\"SImg\"," + front() + "]";
		case spv::Op::OpTypeImage: return "[\"Img\"," + front() + "," + n(unsigned(t.getImageDimension())) + "," + n(t.getImageDepth()) + "," + n(t.getImageArray() ? 1 : 0) + "," + n(t.getImageMultiSampled() ? 1 : 0) + "," + n(unsigned(t.getImageSamplerAccess())) + "," + n(unsigned(t.getImageFormat())) + "," + (t.getAccessQualifier() == spv::AccessQualifier::Max ? std::string("-1") : n(unsigned(t.getAccessQualifier()))) + "]";
		default: return "[\"T\"," + n(unsigned(t.getType())) + "]";
		}
	}
	inline std::string constDesc(const Constant& c)
	{
		std::vector<std::string> comps; for (const Constant& k : c.getComponents()) comps.push_back(constDesc(k));
		std::vector<uint32_t> d; for (unsigned v : c.getData()) d.push_back(v);
		return "[" + n(unsigned(c.getOperation())) + "," + typeDesc(c.getType()) + "," + words(d) + "," + arr(comps) + "]";
	}
}
