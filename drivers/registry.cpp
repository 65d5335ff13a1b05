// Answers of the tables the library ships: grammar, opcode classes, enumerators, operands found by kind and name.
#include "vt.h"
#include "mod.h"
#include "spvgentwo/Grammar.h"
#include "spvgentwo/SpvDefines.h"
#include "spvgentwo/Glsl.h"
#include "spvgentwo/OpenCl.h"
#include "common/GrammarHelper.h"
#include <set>
using namespace spvgentwo; using namespace vt;
static std::string hl(unsigned v) { return "[" + n(v >> 16) + "," + n(v & 0xffff) + "]"; }
static std::string fl(bool b) { return b ? "true" : "false"; }
int main(int, char** av)
{
	watchdog(850); Sink out(av[1]); auto lines = readLines(av[2]); Rng r(strtoull(av[3], nullptr, 10)); HeapAllocator a; Grammar g(&a);
	for (unsigned ext = 0; ext < 3; ++ext)
	{
		std::vector<unsigned> ask; for (unsigned op = 0; op < (ext ? 400u : 7000u); ++op) ask.push_back(op); for (int k = 0; k < 50; ++k) ask.push_back(7000 + r.below(58000)); for (int k = 0; k < 8; ++k) ask.push_back((1u + r.below(4000)) << 16 | r.below(400));
		for (size_t at = 0; at < ask.size();)
		{
			std::vector<std::string> es; for (unsigned c = 0; c < 64 && at < ask.size(); ++c, ++at)
			{
				unsigned op = ask[at]; auto* i = g.getInfo(op, Grammar::Extension(ext)); if (op >> 16) { if (i) { out.line(Obj().str("ev", "bogus").num("ext", ext).done()); } continue; } if (!i) { es.push_back("[" + n(op) + ",false]"); continue; }
				std::vector<std::string> ops, caps, exts; for (auto& o : i->operands) ops.push_back("[" + n(unsigned(o.kind)) + "," + n(unsigned(o.category)) + "," + n(unsigned(o.quantifier)) + "," + q(o.name ? o.name : "") + "]");
				for (auto& c2 : i->capabilities) caps.push_back(n(unsigned(c2))); for (auto& x : i->extensions) exts.push_back(q(spv::ExtensionNames[unsigned(x)]));
				auto O = spv::Op(op); bool hr = false, ht = false; if (!ext) spv::HasResultAndType(O, &hr, &ht);
				es.push_back("[" + n(op) + ",true," + Obj().str("name", i->name).raw("ops", arr(ops)).raw("caps", arr(caps)).raw("exts", arr(exts)).num("ver", i->version).raw("res", "[" + fl(hr) + "," + fl(ht) + "," + fl(spv::HasResult(O)) + "," + fl(spv::HasResultType(O)) + "," + fl(hasResultAndTypeId(O)) + "]").raw("is", "[" + fl(spv::IsTypeOp(O)) + "," + fl(isSpecOrConstantOp(O)) + "," + fl(isTerminatorOp(O)) + "]").flag("out", isOutsideBlockOp(O)).done() + "]");
			}
			out.line(Obj().str("ev", "ops").num("ext", ext).raw("ops", arr(es)).done());
		}
	}
	for (unsigned k = 0; k <= 60; ++k)
	{
		std::vector<unsigned> vals; for (unsigned v = 0; v < 8192; ++v) vals.push_back(v); for (unsigned b = 13; b < 32; ++b) vals.push_back(1u << b); for (int c = 0; c < 200; ++c) { unsigned v = 8193 + r.u32() % 1000000000u; if (v & (v - 1)) vals.push_back(v); }
		std::vector<std::string> ps, ns, bs; auto K = Grammar::OperandKind(k);
		for (unsigned v : vals)
		{
			if (auto* p = g.getOperandParameters(K, v); p && p->size()) { std::vector<std::string> o; for (auto& x : *p) o.push_back(n(unsigned(x.kind))); ps.push_back("[" + hl(v) + "," + arr(o) + "]"); }
			if (auto* s = g.getOperandName(K, v)) ns.push_back("[" + hl(v) + "," + q(s) + "]");
		}
		if (auto* b = g.getOperandBases(K)) for (auto& x : *b) bs.push_back(n(unsigned(x.kind)));
		out.line(Obj().str("ev", "kind").num("kind", k).raw("params", arr(ps)).raw("names", arr(ns)).raw("bases", arr(bs)).flag("has", Grammar::hasOperandParameters(K)).done());
	}
	{
		std::vector<std::string> es; auto flush = [&](const char* ev, size_t lim) { if (es.size() > lim) { out.line(Obj().str("ev", ev).raw("e", arr(es)).done()); es.clear(); } };
#define E(k, v, name) es.push_back("[" #k "," + q(name) + "," + hl(unsigned(v)) + "]"); flush("enums", 60);
#define O(x, v, name)
#include "enums.h"
#undef E
#undef O
		flush("enums", 0);
#define E(k, v, name)
#define O(x, v, name) es.push_back("[" #x "," + q(name) + "," + n(unsigned(v)) + "]"); flush("opcodes", 60);
#include "enums.h"
#undef E
#undef O
		flush("opcodes", 0);
	}
	// instructions of every shape
	{
		Module m(&a); Function& f = m.addFunction<void>("f"); BasicBlock& b = *f; std::set<std::string> others{ "'x'", "'Bas'", "Result", "ResultType", "'Operand'" };
		for (auto& line : lines)
		{
			J j = parse(line); unsigned op = unsigned(j["op"].i); Instruction* i = b.addInstruction(); i->setOperation(spv::Op(op)); std::vector<std::string> ws;
			for (auto& w : j["w"].a) { if (w.a[0].s == "i") { i->addOperand(f.getFunction()); ws.push_back("[\"i\",0,0]"); } else { i->addOperand(literal_t{ unsigned(w.a[1].i) << 16 | unsigned(w.a[2].i) }); ws.push_back("[\"l\"," + n(w.a[1].i) + "," + n(w.a[2].i) + "]"); } }
			auto pos = [&](Instruction::Iterator it) -> unsigned { if (it == nullptr) return 0; unsigned p = 1; for (auto x = i->begin(); x != i->end(); ++x, ++p) if (x == it) return p; return 9999; };
			std::vector<std::string> ks, ns; for (unsigned k = 0; k <= 60; ++k) ks.push_back("[" + n(k) + "," + n(pos(GrammarHelper::getFirstOperandOfKind(i, g, Grammar::OperandKind(k)))) + "]");
			std::set<std::string> names = others; for (auto& o : g.getInfo(op)->operands) if (o.name && *o.name) { std::string s = o.name; names.insert(s); if (s.size() > 3) { names.insert(s.substr(0, 1 + r.below(s.size() - 1))); names.insert(s + "x"); } }
			for (auto& s : names) ns.push_back("[" + q(s) + "," + n(pos(GrammarHelper::getOperandByName(i, g, s.c_str()))) + "]");
			out.line(Obj().str("ev", "walk").num("op", op).raw("w", arr(ws)).raw("kinds", arr(ks)).raw("names", arr(ns)).done()); b.remove(i);
		}
	}
	for (int k = 0; k < 200; ++k)
	{
		unsigned op = r.below(65536), c = r.below(65536), ma = r.below(256), mi = r.below(256), ge = r.below(65536), gv = r.below(65536); unsigned w = makeOpCode(spv::Op(op), c), v = makeVersion(ma, mi), x = makeGeneratorId(ge, gv);
		out.line(Obj().str("ev", "pack").raw("a", "[" + n(op) + "," + n(c) + "]").raw("op", hl(w)).raw("gotop", "[" + n(unsigned(getOperation(w))) + "," + n(getOperandCount(w)) + "]").raw("v", "[" + n(ma) + "," + n(mi) + "]").raw("ver", hl(v)).raw("gotver", "[" + n(getMajorVersion(v)) + "," + n(getMinorVersion(v)) + "]").raw("g", "[" + n(ge) + "," + n(gv) + "]").raw("gen", hl(x)).raw("gotgen", "[" + n(getGeneratorId(x)) + "," + n(getGeneratorVersion(x)) + "]").done());
	}
	return 0;
}
