// Linking: libraries and consumers from the scenarios of the specification and from random programs, built or read
// back; both modules before and the consumer after every import.
#include "prog.h"
#include "common/LinkerHelper.h"
#include "common/ModulePrinter.h"
#include <memory>
using namespace vt;
namespace LH = spvgentwo::LinkerHelper;
using Bits = LH::LinkerOptionBits;
static Sink* out; static Grammar* gram; static Rng* R;
struct Side
{
	HeapAllocator al; Logger lg; std::unique_ptr<Module> m;
	Side() : m(new Module(&al, &lg)) { if (R->chance(85)) m->addCapability(spv::Capability::Linkage); m->setSpvVersion(1, R->below(6)); }
	void assign() { m->finalizeEntryPoints(); m->finalize(nullptr); m->assignIDs(); }
	bool back() { VecWriter v; m->finalizeAndWrite(v, nullptr); std::unique_ptr<Module> o(new Module(&al, &lg)); VecReader rd(v.v); if (!o->readAndInit(rd, *gram)) return false; m = std::move(o); return true; }
	void prepare() { switch (R->below(4)) { case 0: if (!back()) { fprintf(stderr, "VT_READ %s\n", lg.last.c_str()); exit(3); } break; case 1: assign(); break; default: break; } }
	std::vector<Function*> funs() { std::vector<Function*> v; for (auto& f : m->getFunctions()) v.push_back(&f); return v; }
};
struct View { Snap s; std::string mod; std::vector<const Instruction*> order; explicit View(const Module& m) { s.number(m); mod = s.module(m); order.resize(s.ids.size()); for (auto& p : s.ids) order[p.second - 1] = p.first; } };
static std::string was(const View& b, const View& a) { std::vector<int> v; for (auto* i : b.order) { auto it = a.s.ids.find(i); v.push_back(it == a.s.ids.end() ? 0 : it->second); } return nums(v); }
// what the consumer knows about its types and constants: [node, type, node of a request for the type, constant, node of a request for it]; [node, type] of other new values
static std::string known(Module& m, View& a, const View& b, std::string& values)
{
	std::vector<std::string> q, w; std::vector<Instruction*> tcs; for (auto& i : m.getTypesAndConstants()) tcs.push_back(&i);
	for (auto* i : tcs)
	{
		const Type* t = i->getType(); const Constant* c = i->isType() ? nullptr : i->getConstant(); bool spec = i->isSpecConstant();
		std::function<bool(const Constant&)> sp = [&](const Constant& k) { if (k.getOperation() >= spv::Op::OpSpecConstantTrue && k.getOperation() <= spv::Op::OpSpecConstantComposite) return true; for (auto& x : k.getComponents()) if (sp(x)) return true; return false; };
		if (c && sp(*c)) spec = true;
		std::string d = t ? typeDesc(*t) : "[\"none\"]", cd = c ? constDesc(*c) : "[\"none\"]"; auto ask = [&](Instruction* x) { return a.s.ids.count(x) ? a.s.ids[x] : 0; };
		int tn = 0, cn = 0; if (t && i->isType()) tn = ask(m.addType(*t)); if (c && !spec) cn = ask(m.addConstant(*c));
		q.push_back("[" + n(a.s.ids[i]) + "," + d + "," + n(tn) + "," + cd + "," + n(cn) + "]");
	}
	for (auto* i : a.order) if (!b.s.ids.count(i) && !i->isType() && !i->isSpecOrConstant() && i->hasResultType() && R->chance(50)) { const Type* t = i->getType(); w.push_back("[" + n(a.s.ids[i]) + "," + (t ? typeDesc(*t) : "[\"none\"]") + "]"); }
	values = arr(w); return arr(q);
}
struct Options { bool types = true, consts = true, extsets = true, decos = true, names = true, funs = true, vars = true, strs = true, ids = false, rmlink = false, aut = false, upd = false, src = false, lines = false, procs = false; };
static bool import(Side& L, Side& C, const Options& o)
{
	View l(*L.m), b(*C.m); LH::LinkerOptions x; Flag<Bits> f{};
	auto set = [&](bool on, Bits k) { if (on) f |= k; };
	set(o.types, Bits::ImportMissingTypes); set(o.consts, Bits::ImportMissingConstants); set(o.extsets, Bits::ImportMissingExtensionSets); set(o.decos, Bits::ImportReferencedDecorations); set(o.names, Bits::ImportReferencedNames);
	set(o.funs, Bits::ImportReferencedFunctions); set(o.vars, Bits::ImportReferencedVariables); set(o.strs, Bits::ImportReferencedStrings); set(o.ids, Bits::AssignResultIDs); set(o.rmlink, Bits::RemoveLinkageCapability);
	bool g = R->chance(80) || o.aut; set(o.aut, Bits::AutoAddRequiredCapabilitiesAndExtensions); set(o.upd, Bits::UpdateEntryPointGlobalVarInterface); set(o.src, Bits::CopyOpSourceStringInstructions); set(o.lines, Bits::CopyOpLineInstructions); set(o.procs, Bits::CopyOpModuleProcessedInstructions);
	bool noGrammar = !o.aut && R->chance(10); if (noGrammar) { g = false; f |= Bits::AutoAddRequiredCapabilitiesAndExtensions; } // without a grammar everything is copied
	x.flags = f; x.grammar = g ? gram : nullptr; HeapAllocator tmp; x.allocator = R->chance(50) ? &tmp : nullptr;
	String buf(&C.al); ModulePrinter::ModuleStringPrinter pr(buf, false); if (R->chance(20)) x.printer = &pr;
	unsigned e0 = C.lg.errors; bool ok = LH::import(*L.m, *C.m, x);
	View a(*C.m); bool settled = true; std::string opt = Obj().flag("types", o.types).flag("consts", o.consts).flag("extsets", o.extsets).flag("decos", o.decos).flag("names", o.names).flag("funs", o.funs).flag("vars", o.vars).flag("strs", o.strs).flag("ids", o.ids).flag("rmlink", o.rmlink).flag("auto", o.aut).flag("upd", o.upd).flag("src", o.src).flag("lines", o.lines).flag("procs", o.procs).done();
	std::string err = C.lg.lastError;
	if (o.aut && ok) { auto c0 = C.m->getCapabilities().elements(), e0 = C.m->getExtensions().elements(); bool had = C.m->getCapabilities().count(spv::Capability::Linkage) != 0; C.m->addRequiredCapabilities(*gram); C.m->addRequiredExtensions(*gram); settled = c0 == C.m->getCapabilities().elements() && e0 == C.m->getExtensions().elements(); (void)had; }
	std::string values, q = "[]"; size_t tc = 0, tc2 = 0; for (auto& i : C.m->getTypesAndConstants()) { (void)i; ++tc; } q = known(*C.m, a, b, values); for (auto& i : C.m->getTypesAndConstants()) { (void)i; ++tc2; }
	std::vector<int> lk; for (auto& i : L.m->getTypesAndConstants()) if (!i.isType() && i.getConstant()) lk.push_back(l.s.ids[&i]);
	out->line(Obj().str("ev", "import").raw("lk", nums(lk)).raw("q", q).raw("qv", values).num("qnew", tc2 - tc).raw("opt", opt).flag("ok", ok).num("errs", C.lg.errors - e0).flag("settled", settled).str("err", err.substr(0, 200)).raw("was", was(b, a)).raw("L", l.mod).raw("B", b.mod).raw("A", a.mod).done());
	return ok;
}
static Options options() { Options o; auto c = [&](unsigned p) { return R->chance(p); }; o.types = c(96); o.consts = c(96); o.extsets = c(85); o.decos = c(70); o.names = c(70); o.funs = c(80); o.vars = c(80); o.strs = c(80); o.ids = c(50); o.rmlink = c(50); o.aut = c(30); o.upd = c(40); o.src = c(30); o.lines = c(30); o.procs = c(30); return o; }
static Options full() { Options o; o.ids = R->chance(50); o.rmlink = R->chance(50); o.aut = R->chance(30); o.upd = R->chance(50); o.src = R->chance(30); o.lines = R->chance(30); o.procs = R->chance(30); return o; }

// ------------------------------------------------------------------ library code
static void note(Prog& p, Instruction* i) { if (R->chance(30)) p.m.addName(i, p.fresh("in").c_str()); if (R->chance(25)) p.m.addDecorationInstr()->opDecorate(i, R->chance(50) ? spv::Decoration::RelaxedPrecision : spv::Decoration::NoContraction); }
static Type structType(Prog& p)
{
	Type t = p.m.newType(); t.Struct(); unsigned k = R->range(1, 3); for (unsigned i = 0; i < k; ++i) { Type e = p.randomType(1); t.Member(&e); }
	Instruction* i = p.addT(t);
	if (R->chance(50)) p.m.addName(i, p.fresh("S").c_str());
	for (unsigned x = 0; x < k; ++x) { if (R->chance(40)) p.m.addMemberName(i, p.fresh("mb").c_str(), x); if (R->chance(40)) p.m.addDecorationInstr()->opMemberDecorate(i, x, spv::Decoration::Offset, 16u * x); }
	if (R->chance(30)) p.m.addDecorationInstr()->opDecorate(i, spv::Decoration::Block);
	return t;
}
static Type someType(Prog& p) { switch (R->below(5)) { case 0: return p.m.newType().Float(32); case 1: return p.m.newType().Int(32, true); case 2: return structType(p); case 3: { Type e = structType(p); Type t = p.m.newType(); t.Array(R->range(1, 4), &e); return t; } default: return p.randomType(2); } }
static void use(Prog& p, Instruction* v)
{
	BasicBlock& b = *p.bb; switch (R->below(4)) { case 0: p.got(b->opLoad(v)); break; case 1: b->opStore(v, p.constOf(v->getType()->front())); break; case 2: { auto* i = b.addInstruction(); i->makeOp(spv::Op::OpCopyObject, v->getResultTypeInstr(), InvalidId, v); break; } default: p.got(b->opLoad(v)); }
}
// a loop counter and a value carried around: the phis name instructions that come later
static void phiLoop(Prog& p)
{
	Module& m = p.m; Function& f = *p.f; BasicBlock& e = *p.bb; BasicBlock &h = f.addBasicBlock(R->chance(40) ? p.fresh("head").c_str() : nullptr), &c = f.addBasicBlock(), &body = f.addBasicBlock(), &mg = f.addBasicBlock(R->chance(40) ? p.fresh("merge").c_str() : nullptr);
	auto* i32 = m.type<int>(); auto* f32 = m.type<float>(); auto* zero = m.constant(0); auto* x0 = p.fl();
	e->opBranch(&h); Instruction* i = h.addInstruction(); i->makeOp(spv::Op::OpPhi, i32, InvalidId, zero, &e); Instruction* x = h.addInstruction(); x->makeOp(spv::Op::OpPhi, f32, InvalidId, x0, &e); note(p, i); note(p, x);
	h->opLoopMerge(&mg, &c, spv::LoopControlMask::MaskNone); h->opBranch(&body);
	Instruction* cond = body->opSLessThan(i, m.constant(4)); Instruction* y = body->opFAdd(x, x); note(p, y); body->opBranchConditional(cond, &c, &mg);
	Instruction* j = c->opIAdd(i, m.constant(1)); c->opBranch(&h); note(p, j);
	i->addOperand(j); i->addOperand(&c); x->addOperand(y); x->addOperand(&c);
	p.bb = &mg; p.vals.push_back(x);
}
static void extra(Prog& p)
{
	Module& m = p.m;
	switch (R->below(9))
	{
	case 0: phiLoop(p); break;
	case 1: { auto* u = m.addUndefInstr()->opUndef(m.type<float>()); note(p, u); auto* r = (*p.bb)->opFAdd(u, p.fl()); note(p, r); break; }
	case 2: { auto* s = m.specConstant(float(R->below(9))); m.addDecorationInstr()->opDecorate(s, spv::Decoration::SpecId, R->below(50)); note(p, s); p.got((*p.bb)->opFMul(s, p.fl())); if (R->chance(50)) p.got((*p.bb)->opFMul(s, s)); break; }
	case 3: { auto* a = m.specConstant(int(R->below(9))); auto* t = m.type<int>(); auto* c = m.constant(7); auto* i = m.addConstantInstr(); i->makeOp(spv::Op::OpSpecConstantOp, t, InvalidId, spv::Op::OpIAdd, a, c); p.got((*p.bb)->opIAdd(i, p.in())); break; }
	case 4: { auto* a = m.specConstant(float(R->below(9))); auto* t = m.type<vector_t<float, 2>>(); auto* c = m.constant(1.f); auto* i = m.addConstantInstr(); i->makeOp(spv::Op::OpSpecConstantComposite, t, InvalidId, a, c); p.got((*p.bb)->opFAdd(i, i)); break; }
	case 5: p.step(sExt); break;
	case 6: if (p.strings.empty()) p.strings.push_back(m.addSourceStringInstr()->opString(p.fresh("file").c_str())); (*p.bb)->opLine(R->pick(p.strings), R->below(99), R->below(9)); break;
	case 7: { Type t = structType(p); auto* v = p.f->variable(t, R->chance(50) ? p.fresh("loc").c_str() : nullptr); note(p, v); (*p.bb)->opStore(v, p.constOf(t)); break; }
	case 8: { unsigned k = R->below(4); p.straight(k); if (!p.vals.empty() && p.vals.back()->getBasicBlock()) note(p, p.vals.back()); break; }
	}
}
static Function& function(Prog& p, const std::string& name)
{
	Function& f = p.m.addFunction(); bool v = R->chance(30); if (v) f.setReturnType(p.m.type<void>()); else f.setReturnType(p.addT(someType(p)));
	for (unsigned c = R->below(3); c > 0; --c) { Type t = someType(p); if (R->chance(20)) t = t.wrapPointer(spv::StorageClass::Function); f.addParameters(p.addT(t)); }
	f.finalize(Flag<spv::FunctionControlMask>(R->chance(60) ? 0u : 1u << R->below(4)), R->chance(70) ? name.c_str() : nullptr);
	for (auto& x : f.getParameters()) note(p, &x);
	return f;
}
static Instruction* variable(Prog& p, const std::string& name, bool init)
{
	static const spv::StorageClass sc[] = { spv::StorageClass::Private, spv::StorageClass::Private, spv::StorageClass::Input, spv::StorageClass::Output, spv::StorageClass::Uniform, spv::StorageClass::StorageBuffer, spv::StorageClass::Workgroup };
	auto c = sc[R->below(7)]; Type t = someType(p); Instruction* v = p.m.variable(t, c, R->chance(70) ? name.c_str() : nullptr, init && c == spv::StorageClass::Private && R->chance(50) ? p.constOf(t) : nullptr);
	if (R->chance(40)) p.m.addDecorationInstr()->opDecorate(v, spv::Decoration::Binding, R->below(9)); if (R->chance(30)) p.m.addDecorationInstr()->opDecorate(v, spv::Decoration::DescriptorSet, R->below(3));
	return v;
}
// ------------------------------------------------------------------ symbols to link
struct Sym { std::string name; Instruction* lib; bool mism; };
static void link(Module& m, Instruction* i, spv::LinkageType t, const std::string& n) { if (!LH::addLinkageDecoration(i, t, n.c_str())) { fprintf(stderr, "VT_LINK\n"); exit(3); } }
// a declaration in the consumer for a symbol of the library
static void declare(Prog& p, const Sym& s)
{
	Module& m = p.m; const Instruction* l = s.lib; bool fun = l->getOperation() == spv::Op::OpFunction; unsigned how = s.mism ? R->below(3) : 9;
	if (how == 0) fun = !fun; // another kind
	if (fun)
	{
		Function& f = m.addFunction(); bool first = true;
		if (l->getOperation() != spv::Op::OpFunction) f.setReturnType(m.type<float>());
		else for (const Type& t : l->getFunction()->getFunctionType().getSubTypes()) { if (first) { if (how == 1) f.setReturnType(m.addType(t.isVoid() ? m.newType().Float(32) : m.newType().Void())); else f.setReturnType(m.addType(t)); } else f.addParameters(m.addType(t)); first = false; }
		if (how == 2) f.addParameters(m.type<int>());
		f.finalize(Flag<spv::FunctionControlMask>{}, R->chance(50) ? p.fresh("ifn").c_str() : nullptr); for (auto& x : f.getParameters()) if (R->chance(30)) m.addName(&x, p.fresh("ip").c_str());
		link(m, f.getFunction(), spv::LinkageType::Import, s.name); p.callable.push_back(&f); p.funcs.push_back(f.getFunction());
	}
	else
	{
		Type t = m.newType(); spv::StorageClass c = spv::StorageClass::Private; if (l->getOperation() == spv::Op::OpVariable) { Type u(l->getType()->front()); t = u; c = l->getStorageClass(); } else t.Float(32);
		if (how == 1) c = c == spv::StorageClass::Private ? spv::StorageClass::Workgroup : spv::StorageClass::Private;
		if (how == 2) { Type u = m.newType(); u.Int(16, false); t = u; }
		Type pt = m.newType(); pt.Pointer(c, &t);
		Instruction* v = m.variable(m.addType(pt), c, R->chance(50) ? p.fresh("iv").c_str() : nullptr);
		if (R->chance(20)) m.addDecorationInstr()->opDecorate(v, spv::Decoration::Binding, 40u);
		link(m, v, spv::LinkageType::Import, s.name); p.globals.push_back(v);
	}
}
static void helpers(Module& m, Logger&)
{
	if (R->chance(45)) return;
	std::vector<Function*> fs; for (auto& f : m.getFunctions()) fs.push_back(&f); for (auto& f : m.getEntryPoints()) fs.push_back(&f); if (fs.empty()) return; Function* f = R->pick(fs);
	for (auto& d : m.getDecorations()) if (R->chance(40)) { View v(m); Instruction* sym = nullptr; String nm(m.getAllocator()); auto k = LH::getLinkageTypeFromDecoration(&d, &sym, &nm); bool none = k == spv::LinkageType::Max; auto k2 = LH::getLinkageTypeFromDecoration(&d); if (k2 != k) k = spv::LinkageType(77); out->line(Obj().str("ev", "ask").raw("i", v.s.instr(d)).num("kind", none && k2 == k ? -1 : int(k)).num("sym", none ? 0 : v.s.node(sym)).raw("name", codes(none ? "" : nm.c_str())).done()); }
	View b(m); int x = b.s.node(f->getFunction());
	switch (R->below(3))
	{
	case 0: { for (auto& e : m.getEntryPoints()) if (&e == f) return; bool ok = LH::removeFunctionBody(*f); View a(m); out->line(Obj().str("ev", "body").num("x", x).flag("ok", ok).raw("was", was(b, a)).raw("B", b.mod).raw("A", a.mod).done()); break; }
	case 1: { auto k = spv::LinkageType(R->below(2)); bool ok = LH::addLinkageDecorateForUsedGlobalVariables(*f, k); View a(m); out->line(Obj().str("ev", "mark").str("op", "all").num("x", x).num("kind", unsigned(k)).flag("ok", ok).raw("name", "[]").raw("was", was(b, a)).raw("B", b.mod).raw("A", a.mod).done()); break; }
	case 2: { auto k = spv::LinkageType(R->below(2)); std::string nm = "sym" + n(R->below(99)); Instruction* t = f->getFunction(); if (R->chance(50) && !m.getGlobalVariables().empty()) { t = &m.getGlobalVariables().back(); x = b.s.node(t); } bool ok = LH::addLinkageDecoration(t, k, nm.c_str()) != nullptr; View a(m); out->line(Obj().str("ev", "mark").str("op", "one").num("x", x).num("kind", unsigned(k)).flag("ok", ok).raw("name", codes(nm)).raw("was", was(b, a)).raw("B", b.mod).raw("A", a.mod).done()); break; }
	}
}
static void consumer(Side& C, Prog& c, std::vector<Sym>& syms, bool big)
{
	c.linkage = false; if (big || R->chance(50)) c.random(R->range(1, big ? 30 : 10));
	for (auto& s : syms) declare(c, s);
	for (unsigned k = R->below(3); k > 0; --k) { c.newFunction(R->chance(60), false); for (unsigned j = R->below(4); j > 0; --j) { if (!c.callable.empty() && R->chance(60)) c.step(sCall); else c.straight(1); } if (c.bb) c.leave(); }
	if (R->chance(20)) { c.newFunction(false, true); link(*C.m, c.funcs.back(), spv::LinkageType::Import, "nobody"); }
	if (R->chance(20)) { Function& f = function(c, c.fresh("cex")); f.addBasicBlock(); c.open(f, true); c.leave(); link(*C.m, f.getFunction(), spv::LinkageType::Export, "mine"); }
	C.prepare();
}
static void scenario(const J& s)
{
	Side L; Prog p(*L.m, *R); p.linkage = false; std::vector<Sym> syms; auto st = [&](int k) { return s.a[k].s; };
	if (R->chance(30)) p.random(R->below(8));
	p.globals.clear(); p.callable.clear();
	Instruction* v = variable(p, "v", st(2) != "ext"); Instruction* w = variable(p, "w", true);
	Function* F[2]; for (int k = 0; k < 2; ++k) F[k] = &function(p, k ? "g" : "f");
	for (int k = 0; k < 2; ++k)
	{
		if (st(k) == "ext") continue;
		F[k]->addBasicBlock(); p.globals.clear(); p.callable.clear(); p.open(*F[k], true);
		std::vector<Instruction*> vs; if (s.a[4].a[k].i) vs.push_back(v); if (k == 1 && s.a[4].a[2].i) vs.push_back(w);
		if (s.a[3].a[k].i) p.callable.push_back(F[1 - k]);
		bool called = p.callable.empty();
		for (unsigned j = R->below(4); j > 0; --j) { extra(p); if (!called && R->chance(30)) { p.step(sCall); called = true; } }
		for (auto* x : vs) { use(p, x); if (R->chance(30)) extra(p); }
		if (!called) p.step(sCall);
		p.leave();
	}
	std::string nm[3] = { p.fresh("sym"), p.fresh("sym"), p.fresh("sym") }; Instruction* I[3] = { F[0]->getFunction(), F[1]->getFunction(), v };
	for (int k = 0; k < 3; ++k) { const std::string& t = st(k); if (t == "exp" || t == "both" || t == "mism") link(*L.m, I[k], spv::LinkageType::Export, nm[k]); if (t == "ext") link(*L.m, I[k], spv::LinkageType::Import, nm[k]); if (t == "both" || t == "mism" || t == "only") syms.push_back({ nm[k], I[k], t == "mism" }); }
	for (size_t k = syms.size(); k > 1; --k) std::swap(syms[k - 1], syms[R->below(unsigned(k))]);
	Side C; Prog c(*C.m, *R); consumer(C, c, syms, false); L.prepare();
	Options o = R->chance(70) ? full() : options(); o.funs = s.a[5].i; o.vars = s.a[6].i; import(L, C, o);
	if (R->chance(30)) { helpers(*C.m, C.lg); helpers(*L.m, L.lg); }
}
static void randomCase()
{
	Side L; Prog p(*L.m, *R); p.linkage = false; p.random(R->range(5, 60)); std::vector<Sym> syms, left;
	for (unsigned k = R->below(3); k > 0; --k) { Function& f = function(p, p.fresh("rf")); if (R->chance(90)) { f.addBasicBlock(); p.open(f, true); for (unsigned j = R->range(1, 6); j > 0; --j) { if (R->chance(40)) extra(p); else if (R->chance(50)) p.step(sCall); else p.straight(2); } p.leave(); } p.callable.push_back(&f); }
	if (R->chance(40)) // several symbols use the same functions
	{
		std::vector<Function*> own; for (unsigned k = R->range(2, 3); k > 0; --k) { p.callable = own; Function& f = function(p, p.fresh("in")); f.addBasicBlock(); p.open(f, true); for (unsigned j = R->below(3); j > 0; --j) { if (!own.empty() && R->chance(50)) p.step(sCall); else p.straight(1); } p.leave(); own.push_back(&f); }
		std::vector<Function*> tops; for (unsigned k = R->range(2, 3); k > 0; --k) { Function& f = function(p, p.fresh("top")); f.addBasicBlock(); p.open(f, true); for (unsigned j = R->range(1, 4); j > 0; --j) { p.callable = { R->pick(own) }; p.step(sCall); } p.leave(); tops.push_back(&f); std::string nm = p.fresh("tp"); link(*L.m, f.getFunction(), spv::LinkageType::Export, nm); if (R->chance(90)) syms.push_back({ nm, f.getFunction(), R->chance(5) }); }
		p.callable.clear();
	}
	for (auto* f : p.callable) if (R->chance(50)) { std::string nm = p.fresh("fn"); bool imp = R->chance(85); if (!f->empty()) link(*L.m, f->getFunction(), spv::LinkageType::Export, nm); else if (imp && R->chance(70)) { link(*L.m, f->getFunction(), R->chance(50) ? spv::LinkageType::Import : spv::LinkageType::Export, nm); } if (imp) syms.push_back({ nm, f->getFunction(), R->chance(8) }); }
	for (auto* g : p.globals) if (R->chance(40)) { std::string nm = p.fresh("vr"); if (R->chance(90)) link(*L.m, g, spv::LinkageType::Export, nm); if (R->chance(70)) syms.push_back({ nm, g, R->chance(8) }); }
	Side L2; bool two = R->chance(25); Prog p2(*L2.m, *R); p2.linkage = false; p2.nameNo = 5000;
	if (two) { p2.random(R->range(3, 25)); Function& f = function(p2, "second"); f.addBasicBlock(); p2.open(f, true); extra(p2); extra(p2); p2.leave(); link(*L2.m, f.getFunction(), spv::LinkageType::Export, "second"); syms.push_back({ "second", f.getFunction(), R->chance(10) }); if (R->chance(50)) { auto* v = variable(p2, "v2", true); link(*L2.m, v, spv::LinkageType::Export, "v2"); syms.push_back({ "v2", v, false }); } }
	for (size_t k = syms.size(); k > 1; --k) std::swap(syms[k - 1], syms[R->below(unsigned(k))]);
	Side C; Prog c(*C.m, *R); consumer(C, c, syms, R->chance(30)); L.prepare(); if (two) L2.prepare();
	Options o = R->chance(60) ? full() : options(); bool ok = import(L, C, o); if (two) ok = import(L2, C, R->chance(60) ? full() : options()) && ok;
	if (ok && R->chance(50)) { VecWriter w; C.m->finalizeAndWrite(w, nullptr); }
	helpers(*L.m, L.lg);
}
int main(int, char** av)
{
	watchdog(850); Sink o(av[1]); out = &o; auto lines = readLines(av[2]); Rng r(strtoull(av[3], nullptr, 10)); R = &r; unsigned cases = atoi(av[4]);
	HeapAllocator ga; Grammar gg(&ga); gram = &gg;
	for (auto& l : lines) scenario(parse(l));
	for (unsigned k = 0; k < cases; ++k) randomCase();
	return 0;
}
