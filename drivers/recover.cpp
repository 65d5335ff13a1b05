// Binaries composed of declarations the specification derived, of variables, functions, entry points and names; what the library tells about them after reading.
#include "rawbin.h"
#include <algorithm>
#include <memory>
using namespace vt;
static Sink* out;

static int id(const Instruction* i) { return i == nullptr ? 0 : int(unsigned(i->getResultId())); }
static std::string tdesc(const Type* t) { return t == nullptr ? "[\"none\"]" : typeDesc(*t); }
static std::string asks(Module& m);
static void run(const W& w)
{
	HeapAllocator al; Logger lg; Module m(&al, &lg); VecReader rd(w); Obj e; e.str("ev", "read").raw("w", words(w)); bool ok = m.readAndInit(rd, *gram);
	e.flag("ok", ok).num("err", lg.errors).str("last", lg.last).raw("ver", "[" + n(m.getMajorVersion()) + "," + n(m.getMinorVersion()) + "]");
	std::vector<std::string> ds, ts, cs, vs, ns, fs, es, cl, ag, fnd;
	if (ok)
	{
		std::vector<Instruction*> insts; m.iterateInstructions([&](Instruction& i) { insts.push_back(&i); });
		for (auto* i : insts)
		{
			if (!i->hasResult()) continue; std::string x = n(id(i));
			if (i->getOperation() == spv::Op::OpSpecConstantOp) {}
			else if (i->isType()) ts.push_back("[" + x + "," + tdesc(R->chance(50) ? i->getType() : m.getTypeInfo(i)) + "]");
			else if (i->isSpecOrConstant()) { const Constant* c = R->chance(50) ? i->getConstant() : m.getConstantInfo(i); cs.push_back("[" + x + "," + (c ? constDesc(*c) : std::string("[\"none\"]")) + "]"); }
			if (i->isSpecOrConstant()) if (const Constant* c = i->getConstant())
			{
				std::vector<uint32_t> v; bool any = true; auto get = [&](auto t) { const auto* p = c->getDataAs<decltype(t)>(); if (p) { v.resize((sizeof t + 3) / 4, 0); memcpy(v.data(), p, sizeof t); } else v = { 0xdeadu }; };
				const Type& t = c->getType(); if (i->getOperation() == spv::Op::OpConstantNull) any = false; else if (t.isBool()) get(true); else if (t.isInt(32, Sign::Signed)) get(0); else if (t.isInt(32, Sign::Unsigned)) get(0u); else if (t.isFloat(32)) get(0.f); else if (t.isFloat(64)) get(0.0); else any = false;
				if (i->getOperation() == spv::Op::OpSpecConstantOp) any = false; if (any) ds.push_back("[" + x + "," + words(v) + "]");
			}
			if (i->hasResultType()) vs.push_back("[" + x + "," + tdesc(i->getType()) + "," + n(id(i->getResultTypeInstr())) + "," + (i->getOperation() == spv::Op::OpVariable ? n(unsigned(i->getStorageClass())) : "-1") + "]");
			for (auto& nm : m.getNames(i)) ns.push_back("[" + x + "," + n(nm.memberIndex == ~0u ? -1 : (long long)nm.memberIndex) + "," + codes(nm.name) + "]");
			if (const char* c = i->getName()) fnd.push_back("[" + x + "," + codes(c) + "," + n(c[0] ? id(m.getInstructionByName(c)) : 0) + "]");
			if (m.getInstructionById(spv::Id(unsigned(id(i)))) != i) fnd.push_back("[" + x + ",[],-1]");
			if (i->getOperation() == spv::Op::OpFunctionCall) { auto it = i->getFirstActualOperand(); Instruction* f = it->getInstruction(); cl.push_back("[" + x + "," + n(f && f->getFunction() ? id(f->getFunction()->getFunction()) : 0) + "]"); }
		}
		auto fun = [&](const Function& f) {
			std::vector<std::string> ps, bs; unsigned pk = 0; for (auto& p : f.getParameters()) { ps.push_back("[" + n(id(&p)) + "," + n(id(f.getParameter(pk))) + "]"); ++pk; }
			for (auto& b : f) { std::vector<std::string> is; for (auto& i : b) { if (i.getBasicBlock() != &b || i.getFunction() != &f) is.push_back("-1"); else { std::string tg; if (unsigned(i.getOperation()) >= 249 && unsigned(i.getOperation()) <= 251) for (auto& o : i) if (o.isBranchTarget()) tg += (tg.empty() ? "" : ",") + n(id(o.branchTarget->getLabel())); is.push_back("[" + n(unsigned(i.getOperation())) + "," + n(i.hasResult() ? id(&i) : 0) + ",[" + tg + "]]"); } } bs.push_back("[" + n(id(b.getLabel())) + "," + arr(is) + "]"); }
			fs.push_back(Obj().num("id", id(f.getFunction())).raw("t", typeDesc(f.getFunctionType())).raw("ret", typeDesc(f.getReturnType())).num("ti", id(f.getFunctionTypeInstr())).num("ri", id(f.getReturnTypeInstr())).num("ctl", (long long)unsigned(spv::FunctionControlMask(f.getFunctionControl()))).raw("ps", arr(ps)).raw("bs", arr(bs)).flag("ep", f.isEntryPoint()).flag("fin", f.isFinalized()).done()); };
		for (auto& f : m.getFunctions()) fun(f);
		for (auto& f : m.getEntryPoints())
		{
			fun(f); std::vector<std::string> is; for (auto it = f.getInterfaceVariables().begin(), end = f.getInterfaceVariables().end(); it != end; ++it) is.push_back(n(id(it->getInstruction())));
			es.push_back(Obj().num("id", id(f.getFunction())).num("model", unsigned(f.getExecutionModel())).raw("name", f.getName() ? codes(f.getName()) : "[-1]").raw("io", arr(is)).done());
		}
		// what is there already is not made again
		auto count = [&]() { unsigned k = 0; for (auto& i : m.getTypesAndConstants()) { (void)i; ++k; } return k; };
		std::vector<Instruction*> tc; for (auto& i : m.getTypesAndConstants()) tc.push_back(&i);
		for (auto* i : tc)
		{
			unsigned n0 = count(); Instruction* r = nullptr; std::string how = "type";
			if (i->isType()) { const Type* t = m.getTypeInfo(i); if (!t) continue; if (R->chance(50)) r = m.addType(*t); else { Type c = mkType(m, parse(typeDesc(*t))); r = m.addType(c); } }
			else
			{
				const Constant* c = m.getConstantInfo(i); if (!c || !i->isConstant()) continue; how = "const"; const Type& t = c->getType(); bool v = i->getOperation() == spv::Op::OpConstant; auto& d = c->getData(); auto at = [&](size_t k) { return uint32_t(unsigned(*(d.begin() + k))); };
				if (R->chance(30)) r = m.addConstant(*c);
				else if (i->getOperation() == spv::Op::OpConstantTrue) r = m.constant(true);
				else if (i->getOperation() == spv::Op::OpConstantFalse) r = m.constant(false);
				else if (v && t.isInt(32, Sign::Signed)) r = m.constant(int(at(0)));
				else if (v && t.isInt(32, Sign::Unsigned)) r = m.constant(unsigned(at(0)));
				else if (v && t.isInt(16, Sign::Signed)) r = m.constant(short(at(0)));
				else if (v && t.isInt(16, Sign::Unsigned)) r = m.constant((unsigned short)at(0));
				else if (v && t.isFloat(32)) { float f; uint32_t x = at(0); memcpy(&f, &x, 4); r = m.constant(f); }
				else if (v && t.isFloat(64)) { double f; uint64_t x = at(0) | uint64_t(at(1)) << 32; memcpy(&f, &x, 8); r = m.constant(f); }
				else r = m.addConstant(*c);
			}
			ag.push_back("[" + q(how) + "," + n(id(i)) + "," + n(id(r)) + "," + n((long long)count() - n0) + "]");
		}
	}
	e.raw("data", arr(ds)).raw("types", arr(ts)).raw("consts", arr(cs)).raw("vals", arr(vs)).raw("names", arr(ns)).raw("found", arr(fnd)).raw("funs", arr(fs)).raw("eps", arr(es)).raw("calls", arr(cl)).raw("again", arr(ag)); out->line(e.done());
}
int main(int, char** av)
{
	watchdog(850); Sink o(av[1]); out = &o; for (auto& l : readLines(av[2])) frags.push_back(parse(l)); Rng r(strtoull(av[3], nullptr, 10)); R = &r; unsigned cases = atoi(av[4]), size = atoi(av[5]);
	HeapAllocator ga; Grammar gg(&ga); gram = &gg;
	for (auto& f : frags) { Raw x; x.fragment(f); run(x.words(0)); }
	for (unsigned k = 0; k < cases; ++k) { Raw x; run(x.words(r.range(1, size))); }
	return 0;
}
