// Modules that are created, filled, moved, reset and destroyed in places, next to modules that only have the history.
#include "prog.h"
#include <memory>
using namespace vt;
static Sink* out; static Grammar* gram; static uint64_t seed;
static int unwritten = 0;

// ------------------------------------------------------------ chunks of content
// chunk c does the same to every module with the same history: all choices come from c and what is there
enum Kind { kProg, kOpen, kCont, kClose, kEdit, kHead, kWrite, kNames, kRead, kKinds };
static Kind kindOf(int c) { Rng r(seed * 977 + unsigned(c) * 31); static const Kind k[] = { kProg, kProg, kOpen, kCont, kCont, kClose, kEdit, kHead, kWrite, kWrite, kNames, kProg, kRead, kRead }; return k[r.below(14)]; }
static BasicBlock* opened(Module& m, Function** of = nullptr)
{
	BasicBlock* b = nullptr;
	for (auto& f : m.getFunctions()) if (!f.empty() && f.back().getTerminator() == nullptr) { b = &f.back(); if (of) *of = &f; }
	for (auto& f : m.getEntryPoints()) if (!f.empty() && f.back().getTerminator() == nullptr) { b = &f.back(); if (of) *of = &f; }
	return b;
}
static void chunk(Module& m, int c, std::string& written)
{
	Rng r(seed * 131071 + unsigned(c) * 7919); Function* f = nullptr; BasicBlock* b = opened(m, &f);
	switch (kindOf(c))
	{
	case kRead:
		// a program written by another module; on top of other content it is edited like any other
		if (m.getCapabilities().elements() == 0 && m.getTypesAndConstants().empty() && m.getFunctions().empty() && m.getEntryPoints().empty() && m.getNames().empty() && m.getExtensions().elements() == 0 && m.getExtInstrImports().elements() == 0 && m.getDecorations().empty() && m.getSourceStrings().empty() && m.getUndefs().empty() && m.getLines().empty() && m.getModulesProcessed().empty() && m.getExecutionModes().empty())
		{
			Alloc a; Logger lg; VecWriter w; { Module src(&a, &lg); Prog p(src, r); p.random(20 + r.below(20)); src.finalizeAndWrite(w, gram); }
			VecReader rd(w.v); bool ok = m.read(rd, *gram); written += ok ? "r" : "r!"; if (ok && r.chance(85)) { written += n(m.resolveIDs()); if (r.chance(85)) { written += n(m.reconstructTypeAndConstantInfo()); written += n(m.reconstructNames()); } }
			break;
		}
		[[fallthrough]];
	case kProg: { Prog p(m, r); p.random(4 + r.below(14)); break; }
	case kOpen:
	{
		m.addCapability(spv::Capability::Shader);
		if (r.chance(50)) f = &m.addFunction<float, float, int>("open"); else if (r.chance(50)) f = &m.addEntryPoint<void>(spv::ExecutionModel::Fragment, "openMain"); else { f = &m.addFunction(); f->setReturnType(m.type<float>()); f->addParameters(m.type<float>()); f->finalize(spv::FunctionControlMask::Const, "late"); f->addBasicBlock("entry"); }
		BasicBlock& e = f->front(); Instruction* x = e->opFAdd(m.constant(1.5f), m.constant(2.5f)); f->variable<float>("local"); if (r.chance(50)) e->opFMul(x, x); if (r.chance(40)) e->opNop();
		break;
	}
	case kCont:
		if (b == nullptr) { m.addGlobalVariableInstr("g")->opVariable(m.addType(m.newType().Float(32).wrapPointer(spv::StorageClass::Private)), spv::StorageClass::Private); break; }
		{
			Instruction* last = b->empty() ? nullptr : &b->back(); Instruction* v = last && last->getType() && last->getType()->isF32() ? last : m.constant(3.f);
			Instruction* w = f->getParameters().empty() ? v : f->getParameters().empty() ? v : &f->getParameters().front(); if (!w->getType() || !w->getType()->isF32()) w = v;
			(*b)->opFSub(v, w); b->Mul(v, w); b->glsl()->opSin(v); f->variable<int>("more"); Instruction* n = m.constant(make_vector(1.f, 2.f)); (*b)->opVectorTimesScalar(n, v);
			if (r.chance(60)) { BasicBlock& n2 = f->addBasicBlock("next"); (*b)->opBranch(&n2); n2->opFNegate(m.constant(9.f)); }
			if (r.chance(40)) { BasicBlock& o = f->back().If(m.constant(true), [&](BasicBlock& t) { t->opFAdd(m.constant(4.f), m.constant(5.f)); }); o->opNop(); }
		}
		break;
	case kClose: if (b) { if (f->getReturnType().isVoid()) b->returnValue(); else b->returnValue(m.constant(7.f)); } else { m.addExtension("SPV_VT_close"); m.constant(11); } break;
	case kEdit:
	{
		m.addCapability(spv::Capability::Float64); m.addExtensionInstructionImport("GLSL.std.450"); m.addExtensionInstructionImport("other.set");
		Instruction* s = nullptr; for (auto& i : m.getTypesAndConstants()) if (i.isConstant()) s = &i;
		if (s && r.chance(70)) { m.replaceUses(s, m.constant(float(r.below(5)))); }
		m.addUndefInstr()->opUndef(m.type<vector_t<float, 3>>()); m.addSourceStringInstr()->opString("file"); m.addModuleProccessedInstr()->makeOp(spv::Op::OpModuleProcessed, "p");
		if (!m.getNames().empty() && r.chance(40)) { Instruction* last = nullptr; for (auto& i : m.getDecorations()) last = &i; if (last) m.remove(last); }
		break;
	}
	case kHead: m.setSpvVersion(makeVersion(1u, unsigned(r.below(6)))); if (r.chance(50)) m.setSpvGenerator(r.u32()); m.setMemoryModel(spv::AddressingModel::Physical64, spv::MemoryModel::OpenCL); if (r.chance(50)) m.setSpvBound(r.below(5000)); if (r.chance(50)) m.setSpvSchema(r.below(3)); break;
	case kWrite:
	{
		m.finalizeEntryPoints(); m.assignIDs(gram); VecWriter w; bool ok = m.write(w); if (!ok) ++unwritten;
		written += ok ? "w" + words(w.v) : "w!"; break;
	}
	case kNames:
	{
		unsigned k = 0; std::vector<Instruction*> t; for (auto& i : m.getTypesAndConstants()) t.push_back(&i); for (auto& g : m.getFunctions()) t.push_back(g.getFunction());
		for (auto* i : t) if (++k % 5 == 1) { m.addName(i, ("nm" + std::to_string(r.below(99))).c_str()); m.addDecorationInstr()->opDecorate(i, spv::Decoration::Aliased); }
		break;
	}
	default: break;
	}
}
// ------------------------------------------------------------ what a module shows
struct Shown { std::vector<std::string> parts; int things = 0; std::vector<std::string> owner; };
static Shown show(Module& m, bool gone)
{
	Shown s; Snap n0;
	auto cnt = [&](const auto& l) { for (const auto& x : l) { (void)x; ++s.things; } };
	cnt(m.getFunctions()); cnt(m.getEntryPoints()); cnt(m.getCapabilities()); cnt(m.getExtensions()); cnt(m.getExtInstrImports());
	for (auto* l : { &m.getExecutionModes(), &m.getSourceStrings(), &m.getNames(), &m.getModulesProcessed(), &m.getDecorations(), &m.getTypesAndConstants(), &m.getGlobalVariables(), &m.getUndefs(), &m.getLines() }) cnt(*l);
	cnt(m.getNameLookupMap());
	if (gone) return s;
	n0.number(m); s.parts.push_back(n0.module(m));
	std::string lk;
	std::multiset<std::string> nl; for (auto& e : m.getNameLookupMap()) nl.insert(n(n0.node(e.key)) + "." + n(e.value.member) + "=" + e.value.name.c_str() + ";");
	for (auto& x : nl) lk += x;
	s.parts.push_back("names " + lk); lk.clear();
	for (auto& i : m.getTypesAndConstants())
	{
		if (i.isType()) { const Type* t = m.getTypeInfo(&i); if (t) { std::string d = typeDesc(*t); lk += d; if (d.find("\"T\"") == std::string::npos) { Type q(*t); lk += ">" + n(n0.node(m.addType(q))); } } }
		else { const Constant* c = m.getConstantInfo(&i); if (c) { lk += constDesc(*c); if (!i.isSpecConstant()) { Constant q(*c); lk += ">" + n(n0.node(m.addConstant(q))); } } }
		const char* nm = i.getName(); if (nm) lk += nm; lk += ";";
	}
	s.parts.push_back("infos " + lk); lk.clear();
	auto fun = [&](Function& f)
	{
		lk += typeDesc(f.getFunctionType()) + n(f.isEntryPoint()) + (f.getName() ? f.getName() : "?"); 
		if (EntryPoint* e = f.asEntryPoint()) { lk += n(unsigned(e->getExecutionModel())) + (e->getName() ? e->getName() : "?"); }
		for (auto& p : f.getParameters()) { const Type* t = p.getType(); lk += t ? typeDesc(*t) : "-"; }
		for (auto& b : f) { lk += "{"; lk += b.getName() ? b.getName() : "-"; lk += n(b.getTerminator() != nullptr); for (auto& i : b) { const Type* t = i.getType(); lk += t ? typeDesc(*t) : "-"; } lk += "}"; }
	};
	for (auto& f : m.getFunctions()) fun(f); for (auto& f : m.getEntryPoints()) fun(f);
	s.parts.push_back("funs " + lk); lk.clear();
	for (auto& e : m.getCapabilities()) lk += n(unsigned(e.key));
	for (auto& e : m.getExtensions()) { lk += e.key.c_str(); }
	for (auto& e : m.getExtInstrImports()) { lk += e.key.c_str(); lk += n(m.getExtensionInstructionImport(e.key.c_str()) == &e.value); }
	s.parts.push_back("keys " + lk);
	// ownership
	auto own = [&](const char* w, bool ok) { if (!ok && s.owner.size() < 5) s.owner.push_back(w); };
	auto mod = [&](const char* w, const Instruction* i) { own(w, i->getModule() == &m && i->getParentType() == Instruction::ParentType::Module && i->getAllocator() == m.getAllocator() && i->getFunction() == nullptr && i->getBasicBlock() == nullptr); };
	for (auto& e : m.getCapabilities()) mod("capability", &e.value); for (auto& e : m.getExtensions()) mod("extension", &e.value); for (auto& e : m.getExtInstrImports()) mod("import", &e.value);
	for (auto* l : { &m.getExecutionModes(), &m.getSourceStrings(), &m.getNames(), &m.getModulesProcessed(), &m.getDecorations(), &m.getTypesAndConstants(), &m.getGlobalVariables(), &m.getUndefs(), &m.getLines() }) for (auto& i : *l) mod("module instruction", &i);
	mod("memory model", &m.getMemoryModel()); own("error instruction", m.getErrorInstr()->getModule() == &m);
	auto own2 = [&](Function& f)
	{
		own("function", f.getModule() == &m);
		auto fi = [&](const char* w, const Instruction* i) { own(w, i->getModule() == &m && i->getFunction() == &f && i->getParentType() == Instruction::ParentType::Function && i->getAllocator() == m.getAllocator()); };
		fi("OpFunction", f.getFunction()); fi("OpFunctionEnd", f.getFunctionEnd()); for (auto& p : f.getParameters()) fi("parameter", &p);
		if (EntryPoint* e = f.asEntryPoint()) fi("OpEntryPoint", e->getEntryPoint());
		for (auto& b : f) { own("block", b.getFunction() == &f && b.getModule() == &m && b.getAllocator() == m.getAllocator()); auto bi = [&](const char* w, const Instruction* i) { own(w, i->getModule() == &m && i->getBasicBlock() == &b && i->getParentType() == Instruction::ParentType::BasicBlock && i->getAllocator() == m.getAllocator()); }; bi("label", b.getLabel()); for (auto& i : b) bi("block instruction", &i); }
	};
	for (auto& f : m.getFunctions()) own2(f); for (auto& f : m.getEntryPoints()) own2(f);
	return s;
}
struct Ref { Shown s; std::string written; };
static std::map<std::vector<int>, Ref> refs;
static const Ref& reference(const std::vector<int>& h)
{
	auto it = refs.find(h); if (it != refs.end()) return it->second;
	Alloc a; Logger lg; Ref x; { Module m(&a, &lg); for (int c : h) chunk(m, c, x.written); x.s = show(m, false); }
	return refs[h] = x;
}
// ------------------------------------------------------------ scenarios
struct Place { std::set<const Instruction*> mine, was; std::vector<int> h; std::unique_ptr<Module> m; bool gone = false; std::string written; };
static std::string diff(const Shown& a, const Shown& b, const std::string& wa, const std::string& wb)
{
	for (size_t i = 0; i < a.parts.size() && i < b.parts.size(); ++i) if (a.parts[i] != b.parts[i]) { size_t k = 0; while (k < a.parts[i].size() && k < b.parts[i].size() && a.parts[i][k] == b.parts[i][k]) ++k; size_t f = k > 60 ? k - 60 : 0; return "..." + a.parts[i].substr(f, 140) + " instead of ..." + b.parts[i].substr(f, 140); }
	if (wa != wb) return "written words differ";
	return "";
}
static std::string hash(const Shown& s, const std::string& w) { uint64_t h = 1469598103934665603ull; auto add = [&](const std::string& x) { for (unsigned char c : x) { h ^= c; h *= 1099511628211ull; } h ^= 0xff; h *= 1099511628211ull; }; for (auto& p : s.parts) add(p); add(w); char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long)h); return b; }
static void scenario(const J& sc, unsigned places)
{
	Alloc al[3]; Logger lg; al[1].reuse = seed % 2 == 1; al[2].reuse = seed % 4 < 2;
	out->line(Obj().str("ev", "begin").num("n", places).done());
	{
		std::vector<Place> ps(places + 1);
		for (auto& st : sc.a)
		{
			std::string op = st[0].s; int s = int(st[1].i), d = st.size() > 2 ? int(st[2].i) : 0; Place& P = ps[s];
			out->line(Obj().str("ev", "step").str("op", op).num("s", s).num("d", d).done()); out->flush();
			if (op == "new") { P.m.reset(new Module(&al[d], &lg)); P.h.clear(); P.gone = false; P.written.clear(); }
			else if (op == "ext") { chunk(*P.m, d, P.written); P.h.push_back(d); }
			else if (op == "mvn") { Place& D = ps[d]; D.m.reset(new Module(std::move(*P.m))); D.h = P.h; D.written = P.written; D.gone = false; P.h.clear(); P.gone = true; }
			else if (op == "mva") { Place& D = ps[d]; Module* src = P.m.get(); *D.m = std::move(*src); if (s != d) { D.h = P.h; D.written = P.written; D.gone = false; P.h.clear(); P.gone = true; } }
			else if (op == "reset") { P.m->reset(); P.h.clear(); P.written.clear(); }
			else if (op == "del") { P.m.reset(); P.h.clear(); P.gone = false; }
			for (int i = 1; i <= int(places); ++i)
			{
				Place& q = ps[i]; if (!q.m) continue;
				// instructions that were here before are unknown now (asked by address, never looked at)
				int stale = 0; if (op != "ext") { q.was.insert(q.mine.begin(), q.mine.end()); q.mine.clear(); if (!q.gone) Snap::eachInstr(*q.m, [&](const Instruction& in) { q.mine.insert(&in); });
					for (auto* in : q.was) if (!q.mine.count(in) && !q.gone && q.m->getName(in)) ++stale; q.was.clear(); }
				else if (!q.gone) Snap::eachInstr(*q.m, [&](const Instruction& in) { q.mine.insert(&in); });
				Shown x = show(*q.m, q.gone);
				if (q.gone) { out->line(Obj().str("ev", "see").num("s", i).num("stale", stale).num("things", x.things).done()); continue; }
				const Ref& w = reference(q.h); std::vector<std::string> ow; for (auto& o : x.owner) ow.push_back(vt::q(o));
				int a = q.m->getAllocator() == &al[1] ? 1 : q.m->getAllocator() == &al[2] ? 2 : 0;
				out->line(Obj().str("ev", "see").num("s", i).num("stale", stale).num("things", x.things).raw("h", nums(q.h)).str("dig", hash(x, q.written)).str("want", hash(w.s, w.written)).str("diff", diff(x, w.s, q.written, w.written)).raw("owner", arr(ow)).num("alloc", a).done());
			}
		}
		for (auto& q : ps) q.m.reset();
	}
	out->line(Obj().str("ev", "end").num("left", (long long)(al[1].live.size() + al[2].live.size())).num("bad", al[1].bad + al[2].bad).done());
}
static J S(const char* op, int a, int b) { J j; j.k = J::Arr; J x; x.k = J::Str; x.s = op; j.a.push_back(x); J y; y.k = J::Num; y.i = a; j.a.push_back(y); y.i = b; j.a.push_back(y); return j; }
int main(int argc, char** argv)
{
	Sink o(argv[1]); out = &o; HeapAllocator al; Grammar g(&al); gram = &g; seed = strtoull(argv[3], nullptr, 10); uint64_t base = seed; unsigned nr = atoi(argv[4]), len = atoi(argv[5]); watchdog(argc > 6 ? atoi(argv[6]) : 300);
	unsigned k = 0;
	for (auto& l : readLines(argv[2])) { if (k % 25 == 0) { seed = base * 1000 + k / 25; refs.clear(); } ++k; scenario(parse(l), 3); }
	Rng r(base);
	for (unsigned i = 0; i < nr; ++i)
	{
		seed = base * 100000 + i; refs.clear(); J sc; sc.k = J::Arr; std::vector<int> st(5, 0); int c = 0;
		for (unsigned x = 0; x < len; ++x)
		{
			int s = 1 + int(r.below(4)), d = 1 + int(r.below(4));
			if (st[s] == 0) { sc.a.push_back(S("new", s, 1 + int(r.below(2)))); st[s] = 1; }
			else if (st[s] == 2) { if (r.chance(30)) { sc.a.push_back(S("del", s, 0)); st[s] = 0; } }
			else { unsigned q = r.below(100);
				if (q < 50) sc.a.push_back(S("ext", s, c++));
				else if (q < 82) { if (st[d] == 0) { sc.a.push_back(S("mvn", s, d)); st[d] = 1; st[s] = 2; } else { sc.a.push_back(S("mva", s, d)); if (s != d) { st[d] = 1; st[s] = 2; } } }
				else if (q < 92) sc.a.push_back(S("reset", s, 0)); else { sc.a.push_back(S("del", s, 0)); st[s] = 0; } }
		}
		scenario(sc, 4);
	}
	printf("unwritten %d\n", unwritten);
	return 0;
}
