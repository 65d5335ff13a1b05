// Reflection: modules with the decorations, names and modes of the scripts or with random ones; every query about them.
#include "prog.h"
#include <algorithm>
#include "common/ReflectionHelper.h"
#include "common/ReflectionHelperTemplate.inl"
#include <memory>
using namespace vt;
namespace RH = spvgentwo::ReflectionHelper;
static Sink* out; static Grammar* gram; static Rng* R;
static const unsigned Kinds[] = { 0, 1, 2, 6, 11, 14, 26, 30, 33, 34, 35, 41, 42, 44, 5635 };
static void ask(Module& m)
{
	Snap s; s.number(m); std::vector<std::string> qs; auto arr2 = [&](auto& l) { std::vector<int> v; for (auto* i : l) v.push_back(s.node(i)); return nums(v); };
	std::vector<const Instruction*> all; for (auto& p : s.ids) all.push_back(p.first); std::sort(all.begin(), all.end(), [&](auto* a, auto* b) { return s.ids[a] < s.ids[b]; });
	auto put = [&](std::vector<std::string> v) { qs.push_back(arr(v)); };
	std::set<const Instruction*> interesting, targets;
	for (auto* l : { &m.getDecorations(), &m.getNames() }) for (auto& i : *l) { interesting.insert(&i); for (auto& o : i) if (o.isInstruction()) targets.insert(o.getInstruction()); }
	for (auto* i : all) { if (R->chance(all.size() < 60 ? 30 : 8)) interesting.insert(i); if (R->chance(all.size() < 60 ? 40 : 10)) targets.insert(i); }
	for (auto* t : all) if (targets.count(t))
	{
		std::string a, b; { List<Instruction*> l(m.getAllocator()); RH::getDecorations(t, l); a = arr2(l); List<Instruction*> l2(m.getAllocator()); RH::getDecorationsFunc(t, [&](Instruction* i) { l2.emplace_back(i); }); b = arr2(l2); }
		put({ "\"decs\"", n(s.node(t)), a }); if (a != b) put({ "\"decs\"", n(s.node(t)), b });
		List<Instruction*> l(m.getAllocator()); RH::getNamesFunc(t, [&](Instruction* i) { l.emplace_back(i); }); put({ "\"names\"", n(s.node(t)), arr2(l) });
		for (unsigned k : Kinds) if (R->chance(70)) { const Instruction* d = nullptr; unsigned v = RH::getDecorationLiteralFromTarget(spv::Decoration(k), t, &d); unsigned v2 = RH::getDecorationLiteralFromTarget(spv::Decoration(k), t); put({ "\"of\"", w(k), n(s.node(t)), w(v), n(s.node(d)) }); if (v2 != v) put({ "\"of\"", w(k), n(s.node(t)), w(v2), "-1" }); }
	}
	for (auto* i : all) if (interesting.count(i))
	{
		auto k = RH::getSpvDecorationKindFromDecoration(i); put({ "\"kind\"", s.instr(*i), w(unsigned(k)) });
		spv::Decoration d = spv::Decoration(9999); unsigned v = 4951u << 16 | 9029u; bool ok = RH::getSpvDecorationAndLiteralFromDecoration(i, d, v); put({ "\"lit\"", s.instr(*i), vt::b(ok), w(unsigned(d)), w(v) });
		for (unsigned kk : Kinds) if (kk == unsigned(k) || R->chance(15)) put({ "\"getlit\"", w(kk), s.instr(*i), w(RH::getLiteralFromDecoration(spv::Decoration(kk), i)) });
	}
	for (unsigned k : Kinds) for (int v : { -1, 0, 7, 1, 98 })
	{
		if (v > 0 && R->chance(40)) continue; unsigned u = unsigned(v); List<const Instruction*> l(m.getAllocator()); RH::getVariablesWithDecoration(m, spv::Decoration(k), l, v < 0 ? nullptr : &u);
		put({ "\"with\"", w(k), v < 0 ? std::string("[]") : w(u), arr2(l) });
	}
	{ unsigned x = 77, y = 78, z = 79; bool ok = RH::getLocalSize(m, x, y, z); put({ "\"size\"", vt::b(ok), "[" + w(x) + "," + w(y) + "," + w(z) + "]" }); }
	for (unsigned sc : { 0u, 1u, 2u, 3u, 4u, 6u, 12u }) { List<const Instruction*> l(m.getAllocator()); RH::getGlobalVariablesByStorageClass(m, spv::StorageClass(sc), l); put({ "\"vars\"", n(sc), arr2(l) }); }
	out->line(Obj().str("ev", "refl").raw("m", s.module(m)).raw("qs", arr(qs)).done());
}
struct Side
{
	HeapAllocator al; Logger lg; std::unique_ptr<Module> m; Side() : m(new Module(&al, &lg)) { m->setSpvVersion(1, 4); }
	bool back() { VecWriter v; m->finalizeAndWrite(v, nullptr); std::unique_ptr<Module> o(new Module(&al, &lg)); VecReader rd(v.v); if (!o->readAndInit(rd, *gram)) return false; m = std::move(o); return true; }
};
struct World { Instruction* t[8] = {}; Instruction* c[6] = {}; };
static void world(Module& m, World& x)
{
	x.t[3] = m.addType([&] { Type t = m.newType(); Type f = m.newType(); f.Float(32); Type i = m.newType(); i.Int(32, true); t.Struct().Member(&f); t.Member(&i); return t; }());
	x.t[4] = m.addType([&] { Type t = m.newType(); Type f = m.newType(); f.Float(32); t.Struct().Member(&f); t.Member(&f); return t; }());
	x.t[1] = m.uniform<float>("u"); x.t[1] = m.variable<float>(spv::StorageClass::Private); { Type t(x.t[3]->getType() ? *x.t[3]->getType() : m.newType()); x.t[2] = m.variable(t, spv::StorageClass::Uniform); }
	x.t[5] = m.addDecorationInstr(); x.t[5]->makeOp(spv::Op::OpDecorationGroup, InvalidId);
	for (int k = 6; k < 8; ++k) { EntryPoint& e = m.addEntryPoint(); e.setReturnType(m.type<void>()); e.finalize(spv::ExecutionModel::GLCompute, Flag<spv::FunctionControlMask>{}, k == 6 ? "main" : "aux"); auto& b = e.addBasicBlock(); b->opReturn(); x.t[k] = e.getFunction(); }
	auto* ty = m.type<unsigned>(); x.c[1] = m.constant(11u); x.c[2] = m.specConstant(12u); { Constant c = m.newConstant(); c.getType() = m.newType().Int(32, false); c.setOperation(spv::Op::OpConstantNull); x.c[3] = m.addConstant(c); }
	x.c[4] = m.addConstantInstr(); x.c[4]->makeOp(spv::Op::OpSpecConstantOp, ty, InvalidId, spv::Op::OpIAdd, x.c[2], x.c[1]); x.c[5] = m.constant(15u);
}
static void item(Module& m, World& x, const J& i)
{
	const std::string& k = i.a[0].s; Instruction* t = x.t[i.a[1].i]; auto num = [&](int p) { return unsigned(i.a[p].i); }; auto add = [&] { return m.addDecorationInstr(); };
	auto lits = [&](Instruction* o, const J& v) { for (auto& e : v.a) o->addOperand(literal_t{ unsigned(e.i) }); };
	if (k == "dec") { auto* o = add(); o->opDecorate(t, spv::Decoration(num(2))); lits(o, i.a[3]); }
	else if (k == "mdec") { auto* o = add(); o->opMemberDecorate(t, num(2), spv::Decoration(num(3))); lits(o, i.a[4]); }
	else if (k == "id") add()->opDecorateId(t, spv::Decoration(num(2)), x.c[num(3)]);
	else if (k == "str") add()->makeOp(spv::Op::OpDecorateString, t, spv::Decoration(num(2)), num(3));
	else if (k == "mstr") add()->makeOp(spv::Op::OpMemberDecorateString, t, num(2), spv::Decoration(num(3)), num(4));
	else if (k == "gdec") add()->makeOp(spv::Op::OpGroupDecorate, x.t[5], t);
	else if (k == "gmdec") add()->makeOp(spv::Op::OpGroupMemberDecorate, x.t[5], t, num(2));
	else if (k == "name") m.addName(t, "a"); else if (k == "mname") m.addMemberName(t, "a", num(2));
	else if (k == "mode") { auto* o = m.addExtensionModeInstr(); auto e = spv::ExecutionMode(num(2)); if (num(2) == 26) o->opExecutionMode(t, e, num(3)); else if (num(2) == 7) o->opExecutionMode(t, e); else o->opExecutionMode(t, e, num(3), num(4), num(5)); }
	else if (k == "modeid") m.addExtensionModeInstr()->opExecutionModeId(t, spv::ExecutionMode(num(2)), x.c[num(3)], x.c[num(4)], x.c[num(5)]);
	else { fprintf(stderr, "VT_ITEM %s\n", k.c_str()); exit(3); }
}
static void script(const J& s)
{
	Side S; World x; world(*S.m, x); for (auto& i : s.a) item(*S.m, x, i); ask(*S.m);
	if (R->chance(25)) { if (S.back()) ask(*S.m); }
}
static void randomCase()
{
	Side S; Module& m = *S.m; Prog p(m, *R); p.random(R->range(5, 40)); World x; bool wl = R->chance(50); if (wl) world(m, x);
	std::vector<Instruction*> ts; for (auto& i : m.getTypesAndConstants()) ts.push_back(&i); for (auto& i : m.getGlobalVariables()) ts.push_back(&i); for (auto& f : m.getFunctions()) ts.push_back(f.getFunction());
	for (unsigned k = R->range(0, 25); k > 0; --k)
	{
		Instruction* t = R->pick(ts); auto kind = spv::Decoration(Kinds[R->below(15)]); bool mem = t->getOperation() == spv::Op::OpTypeStruct && R->chance(60);
		auto* o = m.addDecorationInstr(); if (mem) o->opMemberDecorate(t, R->below(4), kind); else o->opDecorate(t, kind);
		for (unsigned j = R->below(3); j > 0; --j) o->addOperand(literal_t{ R->chance(70) ? R->below(9) : R->u32() });
	}
	for (auto& e : m.getEntryPoints()) for (unsigned again = R->below(3); again > 0; --again) { static const spv::ExecutionMode a[] = { spv::ExecutionMode::LocalSize, spv::ExecutionMode::LocalSizeHint, spv::ExecutionMode::Invocations, spv::ExecutionMode::OriginUpperLeft }; auto md = a[R->below(4)]; auto* o = m.addExtensionModeInstr(); unsigned k = md == spv::ExecutionMode::Invocations ? 1 : md == spv::ExecutionMode::OriginUpperLeft ? 0 : R->chance(45) ? R->below(3) : 3; o->opExecutionMode(e.getFunction(), md); while (k--) o->addOperand(literal_t{ R->u32() }); }
	ask(m); if (R->chance(40) && S.back()) ask(*S.m);
}
int main(int, char** av)
{
	watchdog(850); Sink o(av[1]); out = &o; auto lines = readLines(av[2]); Rng r(strtoull(av[3], nullptr, 10)); R = &r; unsigned cases = atoi(av[4]);
	HeapAllocator ga; Grammar gg(&ga); gram = &gg;
	for (auto& l : lines) script(parse(l));
	for (unsigned k = 0; k < cases; ++k) randomCase();
	return 0;
}
