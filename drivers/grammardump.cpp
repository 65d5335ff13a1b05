// Dumps the shipped grammar through its public interface, one line per opcode.
#include "vt.h"
#include "spvgentwo/Grammar.h"
#include "spvgentwo/SpvDefines.h"
#include "common/HeapAllocator.h"
using namespace spvgentwo; using namespace vt;
int main(int argc, char** argv)
{
	Sink out(argv[1]); HeapAllocator a; Grammar g(&a);
	for (unsigned ext = 0; ext < 3; ++ext)
	for (unsigned op = 0; op < 8192; ++op)
	{
		auto* i = g.getInfo(op, Grammar::Extension(ext)); if (!i) continue;
		std::vector<std::string> ops, caps, exts;
		for (auto& o : i->operands) ops.push_back("[" + n(unsigned(o.kind)) + "," + n(unsigned(o.category)) + "," + n(unsigned(o.quantifier)) + "," + q(o.name ? o.name : "") + "]");
		for (auto& c : i->capabilities) caps.push_back(n(unsigned(c)));
		for (auto& e : i->extensions) exts.push_back(q(spv::ExtensionNames[unsigned(e)]));
		bool r = false, t = false; if (!ext) spv::HasResultAndType(spv::Op(op), &r, &t);
		out.line(Obj().num("ext", ext).num("op", op).str("name", i->name).raw("ops", arr(ops)).raw("caps", arr(caps)).raw("exts", arr(exts)).num("ver", i->version).flag("res", r).flag("type", t).done());
	}
	// operand parameters and names
	for (unsigned k = 0; k <= 60; ++k) 
	{
		std::vector<std::string> ps, ns;
		std::vector<unsigned> vals; for (unsigned v = 0; v < 8192; ++v) vals.push_back(v);
		for (unsigned b = 13; b < 32; ++b) vals.push_back(1u << b);
		for (unsigned v : vals)
		{
			if (auto* p = g.getOperandParameters(Grammar::OperandKind(k), v); p && p->size()) { std::vector<std::string> o; for (auto& x : *p) o.push_back(n(unsigned(x.kind))); ps.push_back("[" + n(v) + "," + arr(o) + "]"); }
			if (auto* s = g.getOperandName(Grammar::OperandKind(k), v)) ns.push_back("[" + n(v) + "," + q(s) + "]");
		}
		out.line(Obj().num("kind", k).raw("params", arr(ps)).raw("names", arr(ns)).flag("has", Grammar::hasOperandParameters(Grammar::OperandKind(k))).done());
	}
}
