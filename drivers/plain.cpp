// Requests whose operands the caller spells out.
#include "descs.h"
#include <memory>
using namespace vt;
static Sink* out;
static Rng R(1);
using I = Instruction;
struct Env
{
	HeapAllocator al; Logger lg; std::unique_ptr<Module> m; std::map<std::string, I*> node; std::map<std::string, BasicBlock*> blk; std::map<std::string, Function*> fun;
	std::map<const I*, std::string> name; BasicBlock* work; Function* home;
	explicit Env(unsigned ver) : m(new Module(&al, &lg))
	{
		m->setSpvVersion(makeVersion(1, ver - 10));
		auto T = [&](const char* k, const char* d) { node[k] = addT(*m, parse(d)); };
		T("tv", "[\"Void\"]"); T("tf", "[\"Float\",32]"); T("ti", "[\"Int\",32,1]"); T("tu", "[\"Int\",32,0]"); T("tq", "[\"Int\",64,0]"); T("tb", "[\"Bool\"]"); T("ts", "[\"Struct\",[[\"Float\",32],[\"Int\",32,1]]]"); T("ta", "[\"Arr\",[\"Float\",32],3]");
		T("tr", "[\"Struct\",[[\"Int\",32,1],[\"RArr\",[\"Float\",32]]]]"); T("tpf", "[\"Ptr\",7,[\"Float\",32]]"); T("tpi", "[\"Ptr\",7,[\"Int\",32,1]]"); T("tps", "[\"Ptr\",7,[\"Struct\",[[\"Float\",32],[\"Int\",32,1]]]]"); T("tpv", "[\"Ptr\",7,[\"Void\"]]");
		T("tpr", "[\"Ptr\",12,[\"Struct\",[[\"Int\",32,1],[\"RArr\",[\"Float\",32]]]]]"); T("tg", "[\"Fun\",[[\"Void\"]]]"); T("tgf", "[\"Fun\",[[\"Float\",32],[\"Float\",32]]]");
		node["ku"] = m->constant(4u); node["ku2"] = m->constant(1u); node["k0"] = m->constant(0u); node["ki"] = m->constant(1); node["kz"] = m->constant(0); node["kq"] = m->constant<sgt_uint64_t>(0x100000000ull); node["kq0"] = m->constant<sgt_uint64_t>(0ull); node["kq1"] = m->constant<sgt_uint64_t>(8ull); node["kf"] = m->constant(1.5f); node["su"] = m->specConstant(3u); node["si"] = m->specConstant(3);
		m->addExtensionInstructionImport("OpenCL.std"); node["imp"] = m->addExtensionInstructionImport("GLSL.std.450"); node["str"] = m->addSourceStringInstr()->opString("file"); 
		Function& g = m->addFunction<void>("g"); fun["fn"] = &g; node["fn"] = g.getFunction();
		node["nores"] = g.front().addInstruction(); node["nores"]->opReturn();
		home = &m->addFunction<float, float>("h", spv::FunctionControlMask::MaskNone, false); fun["fnf"] = home; node["fnf"] = home->getFunction(); node["par"] = home->getParameter(0);
		BasicBlock& b1 = home->addBasicBlock("1"); BasicBlock& b2 = home->addBasicBlock("2"); BasicBlock& b3 = home->addBasicBlock("3"); blk["B1"] = &b1; blk["B2"] = &b2; blk["B3"] = &b3;
		auto V = [&](const char* k, BasicBlock& b, const char* t) { node[k] = b->opUndef(node[t]); };
		auto L = [&](const char* k, const char* t) { node[k] = b1->opVariable(node[t], spv::StorageClass::Function); };
		L("pf", "tpf"); L("pf2", "tpf"); L("pi", "tpi"); L("ps", "tps"); L("ps2", "tps");
		V("vf", b1, "tf"); V("vi", b1, "ti"); V("vu", b1, "tu"); V("vb", b1, "tb"); V("pv", b1, "tpv"); V("pv2", b1, "tpv"); V("pr", b1, "tpr"); V("pr2", b1, "tpr"); V("vf2", b2, "tf"); V("vi2", b2, "ti"); V("vf3", b3, "tf");
		work = &home->addBasicBlock("w");
		for (auto& k : node) { if (k.second == nullptr || k.second->isErrorInstr() || !name.emplace(k.second, k.first).second) { fprintf(stderr, "environment: %s\n", k.first.c_str()); exit(3); } }
		if (lg.errors) { fprintf(stderr, "environment: %s\n", lg.lastError.c_str()); exit(3); }
	}
	size_t everything() { size_t k = 0; Snap::eachInstr(*m, [&](const I&) { ++k; }); return k; }
};
// one argument
struct A { char k; unsigned l = 0; I* n = nullptr; BasicBlock* b = nullptr; std::string s; };
using As = std::vector<A>;
// a call with the arguments from position k on, as C++ arguments of the kinds allowed: literal, string, instruction
template <class Fn, class... X> void lits(const As& a, size_t k, Fn fn, X... x)
{
	if (k >= a.size()) fn(x...);
	else if constexpr (sizeof...(X) < 3) { if (R.below(3)) lits(a, k + 1, fn, x..., a[k].l); else lits(a, k + 1, fn, x..., literal_t{ a[k].l }); }
	else { fprintf(stderr, "arguments\n"); exit(3); }
}
template <class Fn, class... X> void ids(const As& a, size_t k, Fn fn, X... x)
{
	if (k >= a.size()) fn(x...);
	else if constexpr (sizeof...(X) < 4) ids(a, k + 1, fn, x..., a[k].n);
	else { fprintf(stderr, "arguments\n"); exit(3); }
}
template <class Fn, class... X> void words(const As& a, size_t k, Fn fn, X... x)
{
	if (k >= a.size()) fn(x...);
	else if constexpr (sizeof...(X) < 3) { if (a[k].k == 's') words(a, k + 1, fn, x..., a[k].s.c_str()); else words(a, k + 1, fn, x..., a[k].l); }
	else { fprintf(stderr, "arguments\n"); exit(3); }
}
template <class Fn, class... X> void mixed(const As& a, size_t k, Fn fn, X... x)
{
	if (k >= a.size()) fn(x...);
	else if constexpr (sizeof...(X) < 4) { if (a[k].k == 'n') mixed(a, k + 1, fn, x..., a[k].n); else mixed(a, k + 1, fn, x..., a[k].l); }
	else { fprintf(stderr, "arguments\n"); exit(3); }
}
struct Request
{
	Env& e; const std::string& h; const As& a; I* r = nullptr; bool has = false;
	void got(I* x) { r = x; has = true; }
	using Mem = Flag<spv::MemoryAccessMask>;
	static Mem mem(unsigned v) { return Mem(spv::MemoryAccessMask(v)); }
	void run(I* i)
	{
		auto s = [&](size_t k) { return a[k].s.c_str(); }; auto n = [&](size_t k) { return a[k].n; }; auto l = [&](size_t k) { return a[k].l; }; auto b = [&](size_t k) { return a[k].b; };
		auto list = [&](size_t k) { List<I*> x(&e.al); for (; k < a.size(); ++k) x.emplace_back(a[k].n); return x; };
		auto function = [&](size_t k) { for (auto& f : e.fun) if (e.node[f.first] == a[k].n) return f.second; return (Function*)nullptr; };
		if (h == "opNop") i->opNop();
		else if (h == "opUndef") got(i->opUndef(n(0)));
		else if (h == "opSizeOf") got(i->opSizeOf(n(0)));
		else if (h == "opSourceContinued") i->opSourceContinued(s(0));
		else if (h == "opSource") { if (a.size() == 2) i->opSource(spv::SourceLanguage(l(0)), l(1)); else if (a.size() == 3) i->opSource(spv::SourceLanguage(l(0)), l(1), n(2)); else i->opSource(spv::SourceLanguage(l(0)), l(1), n(2), s(3)); }
		else if (h == "opSourceExtension") i->opSourceExtension(s(0));
		else if (h == "opName") i->opName(n(0), s(1));
		else if (h == "opMemberName") i->opMemberName(n(0), l(1), s(2));
		else if (h == "opString") got(i->opString(s(0)));
		else if (h == "opLine") { if (a[0].k == 's') i->opLine(s(0), l(1), l(2)); else i->opLine(n(0), l(1), l(2)); }
		else if (h == "opNoLine") i->opNoLine();
		else if (h == "opExtension") i->opExtension(s(0));
		else if (h == "opExtInstImport") got(i->opExtInstImport(s(0)));
		else if (h == "opExtInst") ids(a, 3, [&](auto... x) { if (a[1].k == 's') got(i->opExtInst(n(0), s(1), l(2), x...)); else got(i->opExtInst(n(0), n(1), l(2), x...)); });
		else if (h == "opMemoryModel") i->opMemoryModel(spv::AddressingModel(l(0)), spv::MemoryModel(l(1)));
		else if (h == "opEntryPoint") ids(a, 3, [&](auto... x) { i->opEntryPoint(spv::ExecutionModel(l(0)), n(1), s(2), x...); });
		else if (h == "opExecutionMode") lits(a, 2, [&](auto... x) { i->opExecutionMode(n(0), spv::ExecutionMode(l(1)), x...); });
		else if (h == "opExecutionModeId") ids(a, 2, [&](auto... x) { i->opExecutionModeId(n(0), spv::ExecutionMode(l(1)), x...); });
		else if (h == "opCapability") i->opCapability(spv::Capability(l(0)));
		else if (h == "opSpecConstantOp") ids(a, 2, [&](auto... x) { got(i->opSpecConstantOp(n(0), spv::Op(l(1)), x...)); });
		else if (h == "opFunction") got(i->opFunction(Flag<spv::FunctionControlMask>(spv::FunctionControlMask(l(0))), n(1), n(2)));
		else if (h == "opFunctionParameter") got(i->opFunctionParameter(n(0)));
		else if (h == "opFunctionEnd") i->opFunctionEnd();
		else if (h == "opFunctionCall") ids(a, 2, [&](auto... x) { got(i->opFunctionCall(n(0), n(1), x...)); });
		else if (h == "opFunctionCallDynamic") { auto x = list(2); got(i->opFunctionCallDynamic(n(0), n(1), x)); }
		else if (h == "call") ids(a, 1, [&](auto... x) { got(i->call(function(0), x...)); });
		else if (h == "callDynamic") { auto x = list(1); got(i->callDynamic(function(0), x)); }
		else if (h == "opVariable") { if (a.size() == 2) got(i->opVariable(n(0), spv::StorageClass(l(1)))); else got(i->opVariable(n(0), spv::StorageClass(l(1)), n(2))); }
		else if (h == "opLoad") { if (l(1) == 0 && a.size() == 2 && R.below(2)) got(i->opLoad(n(0))); else mixed(a, 2, [&](auto... x) { got(i->opLoad(n(0), mem(l(1)), x...)); }); }
		else if (h == "opStore") { if (l(2) == 0 && a.size() == 3 && R.below(2)) i->opStore(n(0), n(1)); else mixed(a, 3, [&](auto... x) { i->opStore(n(0), n(1), mem(l(2)), x...); }); }
		else if (h == "opCopyMemory")
		{
			if (l(2) == 0 && l(3) == 0 && a.size() == 4 && R.below(2)) i->opCopyMemory(n(0), n(1));
			else if (l(3) == 0 && a.size() == 4 && R.below(2)) i->opCopyMemory(n(0), n(1), mem(l(2)));
			else mixed(a, 4, [&](auto... x) { i->opCopyMemory(n(0), n(1), mem(l(2)), mem(l(3)), x...); });
		}
		else if (h == "opCopyMemorySized")
		{
			if (l(3) == 0 && l(4) == 0 && a.size() == 5 && R.below(2)) i->opCopyMemorySized(n(0), n(1), n(2));
			else if (l(4) == 0 && a.size() == 5 && R.below(2)) i->opCopyMemorySized(n(0), n(1), n(2), mem(l(3)));
			else mixed(a, 5, [&](auto... x) { i->opCopyMemorySized(n(0), n(1), n(2), mem(l(3)), mem(l(4)), x...); });
		}
		else if (h == "opAccessChain") ids(a, 2, [&](auto... x) { got(i->opAccessChain(n(0), n(1), x...)); });
		else if (h == "opInBoundsAccessChain") ids(a, 3, [&](auto... x) { got(i->opInBoundsAccessChain(n(0), n(1), n(2), x...)); });
		else if (h == "opDecorate")
		{
			if (l(1) == 11 && R.below(2)) i->opDecorate(n(0), spv::Decoration::BuiltIn, spv::BuiltIn(l(2)));
			else words(a, 2, [&](auto... x) { i->opDecorate(n(0), spv::Decoration(l(1)), x...); });
		}
		else if (h == "opMemberDecorate")
		{
			if (l(2) == 11 && R.below(2)) i->opMemberDecorate(n(0), l(1), spv::Decoration::BuiltIn, spv::BuiltIn(l(3)));
			else words(a, 3, [&](auto... x) { i->opMemberDecorate(n(0), l(1), spv::Decoration(l(2)), x...); });
		}
		else if (h == "opDecorateId") ids(a, 3, [&](auto... x) { i->opDecorateId(n(0), spv::Decoration(l(1)), n(2), x...); });
		else if (h == "opCopyObject") got(i->opCopyObject(n(0)));
		else if (h == "opEmitVertex") got(i->opEmitVertex());
		else if (h == "opEndPrimitive") got(i->opEndPrimitive());
		else if (h == "opEmitStreamVertex") got(i->opEmitStreamVertex(n(0)));
		else if (h == "opEndStreamPrimitive") got(i->opEndStreamPrimitive(n(0)));
		else if (h == "opPhi") ids(a, 1, [&](auto... x) { got(i->opPhi(n(0), x...)); });
		else if (h == "opPhiDynamic") { auto x = list(0); got(i->opPhiDynamic(x)); }
		else if (h == "opLoopMerge") lits(a, 3, [&](auto... x) { i->opLoopMerge(b(0), b(1), Flag<spv::LoopControlMask>(spv::LoopControlMask(l(2))), x...); });
		else if (h == "opSelectionMerge") i->opSelectionMerge(b(0), spv::SelectionControlMask(l(1)));
		else if (h == "opBranch") i->opBranch(b(0));
		else if (h == "opBranchConditional") { if (a.size() == 3) i->opBranchConditional(n(0), b(1), b(2)); else i->opBranchConditional(n(0), b(1), b(2), l(3), l(4)); }
		else if (h == "opLabel") got(i->opLabel());
		else if (h == "opKill") got(i->opKill());
		else if (h == "opReturn") i->opReturn();
		else if (h == "opReturnValue") i->opReturnValue(n(0));
		else if (h == "opUnreachable") i->opUnreachable();
		else { fprintf(stderr, "unknown %s\n", h.c_str()); exit(3); }
	}
};
static std::string bytes(const I& i)
{
	std::vector<std::string> c; for (auto& o : i) if (o.isLiteral()) for (int k = 0; k < 4; ++k) { unsigned v = (o.literal.value >> (8 * k)) & 0xffu; if (!v) return arr(c); c.push_back(n(v)); }
	return arr(c);
}
static void request(Env& e, const J& d, unsigned ver, bool where)
{
	const std::string& h = d.a[0].s; As a;
	for (auto& x : d.a[1].a)
	{
		A v; v.k = x.a[0].s[0];
		if (v.k == 'n') { auto it = e.node.find(x.a[1].s); if (it == e.node.end()) { fprintf(stderr, "no %s\n", x.a[1].s.c_str()); exit(3); } v.n = it->second; }
		else if (v.k == 'b') v.b = e.blk.at(x.a[1].s);
		else if (v.k == 'l') v.l = unsigned(x.a[1].i) << 16 | unsigned(x.a[2].i);
		else for (auto& c : x.a[1].a) v.s += char(c.i);
		a.push_back(v);
	}
	bool free = h == "opReturnValue" ? where : R.below(3) == 0;
	std::unique_ptr<I> own; I* i; if (free) { own.reset(new I(e.m.get(), spv::Op::OpNop)); i = own.get(); } else i = e.work->addInstruction();
	// it may have been something before
	unsigned st = R.below(4); if (st == 1) i->opUndef(e.node["tf"]); else if (st == 2) i->opLine(e.node["str"], 3, 4); else if (st == 3) i->opBranch(e.blk["B2"]);
	Snap sn; std::string was = sn.instr(*i); std::vector<const I*> srcs, imps; for (auto& x : e.m->getSourceStrings()) srcs.push_back(&x); for (auto& x : e.m->getExtInstrImports()) imps.push_back(&x.value);
	auto had = [](const std::vector<const I*>& v, const I* x) { for (auto* y : v) if (y == x) return true; return false; };
	size_t before = e.everything(); unsigned errs = e.lg.errors; e.lg.lastError.clear();
	Request q{ e, h, a }; q.run(i);
	// as the operation of a specialization constant
	bool spec = false; if (q.has && q.r == i && i->hasResultType() && i->hasResult() && i->size() > 2 && R.below(3) == 0) { spec = true; q.got(i->toSpecOp()); }
	std::vector<std::string> ns, ni; std::set<const I*> fresh;
	for (auto& x : e.m->getSourceStrings()) if (!had(srcs, &x)) { ns.push_back(bytes(x)); fresh.insert(&x); if (x.getOperation() != spv::Op::OpString) ns.push_back("[0]"); }
	for (auto& x : e.m->getExtInstrImports()) if (!had(imps, &x.value)) { ni.push_back(bytes(x.value)); fresh.insert(&x.value); if (x.value.getOperation() != spv::Op::OpExtInstImport) ni.push_back("[0]"); }
	std::vector<std::string> os;
	for (const Operand& o : *i)
	{
		if (o.isLiteral()) os.push_back("[\"l\"," + n(o.literal.value >> 16) + "," + n(o.literal.value & 0xffffu) + "]");
		else if (o.isId()) os.push_back(o.id == InvalidId ? "[\"id\"]" : "[\"id?\"," + n(int(unsigned(o.id))) + "]");
		else if (o.isBranchTarget()) { std::string k = "?"; for (auto& x : e.blk) if (x.second == o.branchTarget) k = x.first; os.push_back("[\"b\",\"" + k + "\"]"); }
		else if (fresh.count(o.instruction)) os.push_back("[\"new\"]");
		else { auto it = e.name.find(o.instruction); os.push_back("[\"n\",\"" + (it == e.name.end() ? std::string("?") : it->second) + "\"]"); }
	}
	long more = long(e.everything()) - long(before) - long(fresh.size());
	std::string ret = !q.has ? "void" : q.r == i ? "self" : q.r != nullptr && q.r->isErrorInstr() ? "error" : "other";
	out->line(Obj().str("h", h).raw("a", text(d.a[1])).num("ver", ver).flag("free", free).flag("spec", spec).num("op", unsigned(i->getOperation())).raw("os", arr(os)).flag("kept", sn.instr(*i) == was).str("ret", ret).num("errs", e.lg.errors - errs).raw("src", arr(ns)).raw("imp", arr(ni)).num("more", more).str("last", e.lg.lastError.substr(0, 80)).done());
}
int main(int c, char** v)
{
	watchdog(600); Sink sk(v[1]); out = &sk; if (c > 3) R = Rng(strtoull(v[3], nullptr, 10));
	std::unique_ptr<Env> e; unsigned k = 0, have = 0;
	std::vector<J> js; for (auto& l : readLines(v[2])) js.push_back(parse(l));
	for (size_t i = js.size(); i > 1; --i) std::swap(js[i - 1], js[R.below(unsigned(i))]);
	// requests for the same version together
	std::stable_sort(js.begin(), js.end(), [](const J& x, const J& y) { return x.a[2].i < y.a[2].i; });
	for (auto& j : js)
	{
		// a set imported by an earlier request would not be new
		if (!e || k++ % 24 == 0 || have != unsigned(j.a[2].i) || j.a[0].s == "opExtInst") { e.reset(); have = unsigned(j.a[2].i); e.reset(new Env(have)); }
		request(*e, j, have, j.a[3].i != 0);
	}
	return 0;
}
