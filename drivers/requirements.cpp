// Declarations of a module: scripts and random histories of capabilities, extensions, imports, instructions and finalisations.
#include "prog.h"
#include <memory>
using namespace vt;
static Sink* out; static Grammar* gram; static Rng* R;
struct Shape { unsigned op, sec; bool type, res; unsigned ver; };
static std::vector<Shape> shapes; static std::map<unsigned, Shape> byOp; static std::vector<int> capVals;
static const std::vector<std::string> extNames = { "SPV_KHR_ray_tracing", "SPV_KHR_ray", "SPV_KHR_terminate_invocation", "SPV_GOOGLE_hlsl_functionality1", "A", "AB", "SPV_private_extension_with_a_long_name", "abc", "abcd" };
static const std::vector<std::string> impNames = { "GLSL.std.450", "OpenCL.std", "NonSemantic.DebugPrintf", "GLSL", "abc", "abcd" };
static std::string strOf(const Instruction& i, unsigned at)
{
	std::string s; unsigned k = 0; for (const Operand& o : i) { if (k++ < at) continue; unsigned v = o.literal.value; for (int b = 0; b < 4; ++b) { char c = char(v >> (8 * b)); if (c == 0) return s; s += c; } }
	return s + "?";
}
struct S
{
	HeapAllocator al; Logger lg; std::unique_ptr<Module> m; BasicBlock* bb = nullptr; Function* f = nullptr; EntryPoint* ep = nullptr; unsigned ownOps = 0;
	S() : m(new Module(&al, &lg)) {}
	std::string obs(Obj o)
	{
		std::vector<std::string> c, x, i, ops; std::set<unsigned> seen;
		for (auto& e : m->getCapabilities()) { bool ok = e.value.getOperation() == spv::Op::OpCapability && !e.value.empty() && e.value.begin()->isLiteral(); c.push_back("[" + n(unsigned(e.key)) + "," + n(ok ? (long long)e.value.begin()->literal.value : -1) + "]"); }
		for (auto& e : m->getExtensions()) x.push_back("[" + q(e.key.c_str()) + "," + q(e.value.getOperation() == spv::Op::OpExtension ? strOf(e.value, 0) : "?") + "]");
		for (auto& e : m->getExtInstrImports()) i.push_back("[" + q(e.key.c_str()) + "," + q(e.value.getOperation() == spv::Op::OpExtInstImport ? strOf(e.value, 1) : "?") + "]");
		Snap::eachInstr(*m, [&](const Instruction& k) { if (seen.insert(unsigned(k.getOperation())).second) ops.push_back(n(unsigned(k.getOperation()))); });
		return o.raw("caps", arr(c)).raw("exts", arr(x)).raw("imps", arr(i)).raw("ops", arr(ops)).num("ver", m->getSpvVersion()).done();
	}
	void ev(Obj o) { out->line(obs(o)); }
	static Obj E(const char* k) { return Obj().str("ev", k); }
	void begin() { ev(E("begin")); }
	void body() { if (f) return; f = &m->addFunction<void>("f"); bb = &*f->begin(); }
	void place(unsigned op)
	{
		const Shape& s = byOp.at(op); Instruction* i = nullptr;
		switch (s.sec)
		{
		case 6: i = m->addExtensionModeInstr(); break; case 7: i = m->addSourceStringInstr(); break; case 8: i = m->addNameInstr(); break; case 9: i = m->addModuleProccessedInstr(); break; case 10: i = m->addDecorationInstr(); break;
		case 11: i = m->addTypeInstr(); break; case 12: i = m->addGlobalVariableInstr(); break; case 13: i = m->addUndefInstr(); break; case 14: i = m->addLineInstr(); break;
		case 20: body(); i = f->addBasicBlock().addInstruction(); break;
		default: { body(); unsigned w = R->below(4); if (w == 1 && op == 57) w = 0; if (w == 0) { BasicBlock& b = f->addBasicBlock(); i = b.addInstruction(); b->opUnreachable(); } else { if (w == 1 && ep == nullptr) { ep = &m->addEntryPoint<void>(spv::ExecutionModel::GLCompute, "main"); ep->front()->opReturn(); } if (w == 1) { BasicBlock& b = ep->addBasicBlock(); i = b.addInstruction(); b->opKill(); } else i = bb->addInstruction(); } }
		}
		if (s.type && s.res) i->makeOp(spv::Op(op), m->type<float>(), InvalidId); else if (s.res) i->makeOp(spv::Op(op), InvalidId); else if (s.type) i->makeOp(spv::Op(op), m->type<float>()); else i->makeOp(spv::Op(op));
		if (i->getOperation() != spv::Op(op)) { fprintf(stderr, "VT_PLACE %u\n", op); exit(3); }
		ev(E("op").num("o", op));
	}
	void fin(bool g, unsigned how)
	{
		if (bb && bb->getTerminator() == nullptr) (*bb)->opReturn();
		const Grammar* p = g ? gram : nullptr;
		if (how == 0) m->finalize(p); else if (how == 1) m->assignIDs(p); else { VecWriter w; m->finalizeAndWrite(w, p); }
		ev(E(g ? "fin" : "plain")); if (f) { bb = &f->addBasicBlock(); }
	}
	void done() { if (bb && bb->getTerminator() == nullptr) (*bb)->opReturn(); }
	void req(unsigned k)
	{
		done(); if (k == 0) { m->addRequiredCapabilities(*gram); ev(E("reqcaps")); } else if (k == 1) { m->addRequiredExtensions(*gram); ev(E("reqexts")); } else if (k == 2) { auto v = m->getRequiredVersion(*gram); ev(E("getver").num("v", v)); } else { auto v = m->setRequiredVersion(*gram); ev(E("setreq").num("v", v)); }
		if (f) bb = &f->addBasicBlock();
	}
	void cap(unsigned c, bool dep) { m->addCapability(spv::Capability(c), dep); ev(E("cap").num("c", c).flag("dep", dep)); }
	void uncap(unsigned c)
	{
		bool r; if (R->chance(50)) r = m->removeCapability(spv::Capability(c)); else { r = false; for (auto& e : m->getCapabilities()) if (unsigned(e.key) == c) { r = m->remove(&e.value); break; } }
		ev(E("uncap").num("c", c).flag("ret", r));
	}
	// an import somebody still names may not be removed (the caller's duty)
	bool used(const Instruction& i) const { bool u = false; Snap::eachInstr(*m, [&](const Instruction& k) { for (auto& o : k) u |= o.isInstruction() && o.getInstruction() == &i; }); return u; }
	void random()
	{
		switch (R->below(16))
		{
		case 0: case 1: cap(unsigned(R->pick(capVals)), R->chance(60)); break;
		case 2: { unsigned c = unsigned(R->pick(capVals)); if (R->chance(70) && m->getCapabilities().begin() != m->getCapabilities().end()) { std::vector<unsigned> v; for (auto& e : m->getCapabilities()) v.push_back(unsigned(e.key)); c = R->pick(v); } uncap(c); break; }
		case 3: { unsigned c = unsigned(R->pick(capVals)); ev(E("hascap").num("c", c).flag("ret", m->checkCapability(spv::Capability(c)))); break; }
		case 4: { auto s = R->pick(extNames); m->addExtension(s.c_str()); ev(E("ext").str("s", s)); break; }
		case 5: { auto s = R->pick(extNames); bool r = false; for (auto& e : m->getExtensions()) if (s == e.key.c_str()) { r = m->remove(&e.value); break; } ev(E("unext").str("s", s).flag("ret", r)); break; }
		case 6: { auto s = R->pick(impNames); auto* a = m->addExtensionInstructionImport(s.c_str()); auto* b = m->getExtensionInstructionImport(s.c_str()); ev(E("imp").str("s", s).flag("ret", a == b && a && strOf(*a, 1) == s)); break; }
		case 7: { auto s = R->pick(impNames); auto* b = m->getExtensionInstructionImport(s.c_str()); if (b && strOf(*b, 1) != s) { fprintf(stderr, "VT_IMP\n"); exit(4); } ev(E("getimp").str("s", s).flag("ret", b != nullptr)); break; }
		case 8: { auto s = R->pick(impNames); bool r = false; for (auto& e : m->getExtInstrImports()) if (s == e.key.c_str()) { if (used(e.value)) return; r = m->remove(&e.value); break; } ev(E("unimp").str("s", s).flag("ret", r)); break; }
		case 9: { unsigned v = R->below(7); m->setSpvVersion(1, (unsigned char)v); ev(E("ver").num("v", 65536 + 256 * v)); break; }
		case 10: case 11: case 12: place(R->pick(shapes).op); break;
		case 13: fin(R->chance(80), R->below(3)); break;
		case 14: req(R->below(4)); break;
		case 15: if (R->chance(10)) { m->reset(); bb = nullptr; f = nullptr; ep = nullptr; begin(); } break;
		}
	}
	void step(const J& x)
	{
		const std::string& k = x.a[0].s; auto a = [&](size_t i) { return unsigned(x.a[i].i); };
		if (k == "cap") cap(a(1), x.a[2].i != 0); else if (k == "uncap") uncap(a(1)); else if (k == "op") place(a(1)); else if (k == "ver") { m->setSpvVersion(a(1)); ev(E("ver").num("v", a(1))); } else fin(true, R->below(3));
	}
};
int main(int, char** av)
{
	watchdog(850); Sink o(av[1]); out = &o; auto lines = readLines(av[2]); Rng r(strtoull(av[3], nullptr, 10)); R = &r; unsigned cases = atoi(av[4]), len = atoi(av[5]), progs = atoi(av[6]);
	for (auto& l : readLines(av[7])) { J x = parse(l); if (x.a.size() == 1) { capVals.push_back(int(x.a[0].i)); continue; } Shape s{ unsigned(x.a[0].i), unsigned(x.a[1].i), x.a[2].i != 0, x.a[3].i != 0, unsigned(x.a[4].i) }; shapes.push_back(s); byOp[s.op] = s; }
	HeapAllocator ga; Grammar gg(&ga); gram = &gg;
	// every opcode alone, every capability alone
	for (auto& s : shapes) { S x; x.begin(); if (r.chance(30)) { unsigned v = r.below(7); x.m->setSpvVersion(1, (unsigned char)v); x.ev(S::E("ver").num("v", 65536 + 256 * v)); } x.place(s.op); unsigned h = r.below(4); if (h < 3) x.fin(true, h); else for (unsigned k = 0; k < 4; ++k) x.req(k); x.done(); }
	for (int c : capVals) { S x; x.begin(); x.cap(unsigned(c), true); x.cap(unsigned(c), false); }
	for (auto& l : lines) { S x; x.begin(); for (auto& k : parse(l).a) x.step(k); x.done(); }
	// instructions of several versions, in any order
	std::vector<unsigned> later; for (auto& s : shapes) if (s.ver > 65536) later.push_back(s.op);
	for (unsigned k = 0; k < cases / 4; ++k) { S x; x.begin(); unsigned v = r.below(4); x.m->setSpvVersion(1, (unsigned char)v); x.ev(S::E("ver").num("v", 65536 + 256 * v)); unsigned c = r.range(2, 5); for (unsigned j = 0; j < c; ++j) x.place(r.pick(later)); if (r.chance(60)) x.fin(true, r.below(3)); else x.req(r.range(2, 3)); x.done(); }
	for (unsigned k = 0; k < cases; ++k) { S x; x.begin(); unsigned c = r.range(1, len); for (unsigned j = 0; j < c; ++j) x.random(); x.done(); }
	for (unsigned k = 0; k < progs; ++k)
	{
		S x; x.begin(); x.m->setSpvVersion(1, 0); x.ev(S::E("ver").num("v", 65536)); unsigned nc = r.below(12); for (unsigned j = 0; j < nc; ++j) { auto w = r.below(3); if (w == 0) x.cap(unsigned(r.pick(capVals)), r.chance(50)); else if (w == 1) { auto s = r.pick(extNames); x.m->addExtension(s.c_str()); x.ev(S::E("ext").str("s", s)); } }
		HeapAllocator al; Logger lg; Module m(&al, &lg); unsigned v = r.below(7); m.setSpvVersion(1, (unsigned char)v); Prog p(m, r); p.random(r.range(1, 120)); for (unsigned j = 0; j < 5; ++j) { m.addCapability(spv::Capability(r.pick(capVals))); if (r.chance(40)) m.addExtension(r.pick(extNames).c_str()); }
		VecWriter w; m.finalizeAndWrite(w, r.chance(50) ? gram : nullptr);
		std::vector<std::string> c, e, i; for (auto& y : m.getCapabilities()) c.push_back(n(y.value.begin()->literal.value)); for (auto& y : m.getExtensions()) e.push_back(q(strOf(y.value, 0))); for (auto& y : m.getExtInstrImports()) i.push_back(q(strOf(y.value, 1)));
		S z; z.m.reset(new Module(&z.al, &z.lg)); VecReader rd(w.v); if (!z.m->readAndInit(rd, *gram)) { fprintf(stderr, "VT_READ\n"); exit(3); }
		z.ev(S::E("read").raw("wcaps", arr(c)).raw("wexts", arr(e)).raw("wimps", arr(i)).num("wver", m.getSpvVersion()));
		unsigned st = r.range(1, 12); for (unsigned j = 0; j < st; ++j) z.random(); z.fin(true, r.below(3)); z.done();
	}
	return 0;
}
