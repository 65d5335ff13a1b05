// Everything the allocators are asked for while modules are built, read, linked, edited, inspected, moved and reset,
// and the fixed-buffer allocators by script.
#include "prog.h"
#include "common/ExternalMemoryAllocator.h"
#include "common/ControlFlowGraph.h"
#include "common/FunctionCallGraph.h"
#include "common/LinkerHelper.h"
#include "common/ModulePrinter.h"
#include "common/ReflectionHelper.h"
#include "common/BinaryVectorWriter.h"
#include <memory>
#include <sanitizer/allocator_interface.h>
#include <dlfcn.h>
#include <execinfo.h>
using namespace vt;
static Sink* out; static Grammar* gram;

// ------------------------------------------------------------ who asks the process heap
static thread_local bool busy = false; static long elsewhere = 0; static std::string from; static std::unordered_map<void*, int>* kinds; static bool watching = false;
static int kindOf(void* a) // 0: goes on upwards, 1: library, 2: driver
{
	auto it = kinds->find(a); if (it != kinds->end()) return it->second;
	Dl_info i; const char* s = dladdr(a, &i) && i.dli_sname ? i.dli_sname : ""; int k = 0;
	if (strncmp(s, "_ZN9spvgentwo13HeapAllocator", 28) == 0) k = 0;   // an allocator of the caller
	else if (strncmp(s, "_ZN9spvgentwo", 13) == 0 || strncmp(s, "_ZNK9spvgentwo", 14) == 0) k = 1;
	else if (strncmp(s, "_ZN2vt", 6) == 0 || strncmp(s, "_ZNK2vt", 7) == 0 || strcmp(s, "main") == 0) k = 2;
	return (*kinds)[a] = k;
}
static void onMalloc(const volatile void*, size_t)
{
	if (!watching || busy) return; busy = true;
	void* st[64]; int k = backtrace(st, 64);
	for (int i = 1; i < k; ++i) { int w = kindOf(st[i]); if (w == 2) break; if (w == 1) { ++elsewhere; Dl_info d; from = dladdr(st[i], &d) && d.dli_sname ? d.dli_sname : "?"; break; } }
	busy = false;
}
static void onFree(const volatile void*) {}
// ------------------------------------------------------------ recording
struct World
{
	Alloc al[4]; std::vector<Alloc::Ev> ev[4]; Logger lg; std::map<int, size_t> sizes[4];
	World(uint64_t s) { for (int i = 1; i < 4; ++i) { al[i].log = &ev[i]; al[i].reuse = (s >> i) & 1; } }
	void op(const std::string& what)
	{
		std::string t = "[", b = "["; 
		for (int i = 1; i < 4; ++i)
		{
			for (auto& e : ev[i]) { std::string x = "[" + n(i) + "," + n(e.id) + "," + n((long long)e.size) + "]"; auto& w = e.alloc ? t : b; if (w.size() > 1) w += ","; w += x; }
			ev[i].clear();
		}
		out->line(Obj().str("ev", "op").str("what", what).raw("taken", t + "]").raw("back", b + "]").num("elsewhere", elsewhere).str("from", from).done()); out->flush(); elsewhere = 0; from.clear();
	}
};
namespace vt {
struct NullPrinter : public ModulePrinter::IModulePrinter { void append(const char*, const char* = nullptr, const char* = nullptr) override {} bool append(const Constant&, const char* = nullptr, const char* = nullptr) override { return false; } };
// every operation of the library happens in a function of this namespace
static void session(Rng& r, World& w, unsigned steps)
{
	struct P { std::unique_ptr<Module> m; bool gone = false; bool ids = false; };
	std::vector<P> ps(3); std::vector<std::vector<uint32_t>> images;
	out->line(Obj().str("ev", "begin").done());
	for (unsigned k = 0; k < steps; ++k)
	{
		P& p = ps[r.below(3)]; P& d = ps[r.below(3)]; std::string what; IAllocator* tmp = &w.al[3];
		if (!p.m || p.gone) { if (r.chance(60) || !p.m) { p.m.reset(new Module(&w.al[1 + r.below(2)], &w.lg)); p.gone = false; what = "construct"; } else { p.m.reset(); what = "destroy moved-from"; } p.ids = false; w.op(what); continue; }
		Module& m = *p.m;
		switch (r.below(24))
		{
		case 0: case 1: case 2: case 3: { what = "build"; Prog q(m, r); q.random(5 + r.below(25)); p.ids = false; break; }
		case 4: case 5: { what = "write"; VecWriter v; if (m.finalizeAndWrite(v, gram)) images.push_back(v.v); p.ids = true; break; }
		case 6: case 7: case 8: case 9: if (!images.empty())
		{
			what = "read"; std::vector<uint32_t> v = r.pick(images); bool bad = r.chance(55);
			if (bad) { unsigned c = 1 + r.below(3); for (unsigned i = 0; i < c; ++i) switch (r.below(3)) { case 0: v.resize(r.below(unsigned(v.size()) + 1)); if (v.empty()) v.push_back(0); break; case 1: v[r.below(unsigned(v.size()))] ^= 1u << r.below(20); break; case 2: v[r.below(unsigned(v.size()))] = r.below(400); break; } }
			p.m.reset(new Module(&w.al[1 + r.below(2)], &w.lg)); Module& x = *p.m; VecReader rd(v); bool ok = r.chance(50) ? x.readAndInit(rd, *gram) : x.read(rd, *gram) && (r.chance(30) || x.resolveIDs(r.chance(50) ? tmp : nullptr)) ; (void)ok;
			if (bad || !ok) { w.op("read damaged"); p.m.reset(); p.m.reset(new Module(&w.al[1 + r.below(2)], &w.lg)); what = "give up"; }
			p.ids = true; if (!bad && ok) { x.resolveIDs(tmp); x.reconstructTypeAndConstantInfo(); x.reconstructNames(); }
			break;
		} break;
		case 10: { what = "remove instruction"; for (auto* l : { &m.getNames(), &m.getDecorations() }) if (!l->empty() && r.chance(60)) { m.remove(&l->back()); } break; }
		case 11: { what = "remove function"; if (!m.getFunctions().empty()) { Function* f = &m.getFunctions().back(); Function* to = m.getFunctions().size() > 1 ? &m.getFunctions().front() : nullptr; auto u = m.remove(f, to, r.chance(50) ? tmp : nullptr); if (to == nullptr) for (Instruction* i : u) m.remove(i); p.ids = false; } break; }
		case 12: { what = "uses"; if (!m.getTypesAndConstants().empty()) { List<Instruction*> u(tmp); m.gatherUses(&m.getTypesAndConstants().back(), u); if (m.getTypesAndConstants().back().isConstant()) m.replaceUses(&m.getTypesAndConstants().back(), &m.getTypesAndConstants().back()); } break; }
		case 13: case 14: case 15: if (&p != &d) { if (!d.m) { what = "move construct"; d.m.reset(new Module(std::move(m))); } else { what = "move assign"; *d.m = std::move(m); } d.gone = false; d.ids = p.ids; p.gone = true; } else { what = "self assign"; Module& o = *d.m; *d.m = std::move(o); } break;
		case 16: what = "reset"; m.reset(); p.ids = false; break;
		case 17: what = "destroy"; p.m.reset(); break;
		case 18:
		{
			what = "types and constants"; Type t = m.newType(); Type e(tmp); e.Float(32); t.Struct(); for (unsigned i = r.below(4); i > 0; --i) t.Member(&e); Type c(tmp, t); Type mv(std::move(c)); t = mv; Constant k1(tmp); k1.make(make_vector(1.f, 2.f, 3.f)); Constant k2(k1); Constant k3 = std::move(k2); k1 = k3; k3.reset();
			m.addType(t); m.addConstant(k1); e.wrapVector(3); mv.reset(); t.wrapArray(4); Type u = t.wrapPointer(spv::StorageClass::Uniform); break;
		}
		case 19: { what = "graphs"; for (auto& f : m.getFunctions()) { ControlFlowGraph<> g(f, r.chance(50) ? tmp : nullptr); ControlFlowGraph<> h(std::move(g)); FunctionCallGraph c(f, tmp); } break; }
		case 20: { what = "print"; if (p.ids) { NullPrinter np; ModulePrinter::printModule(m, *gram, np); } break; }
		case 21: { what = "requirements"; m.addRequiredCapabilities(*gram); m.addRequiredExtensions(*gram); m.setRequiredVersion(*gram); break; }
		case 22:
		{
			what = "strings and lists"; String s(&w.al[1], "abc"); s += "defghijklmnopqrstuvw"; String t(s); String u(std::move(s)); u = t; s = "x"; t.append(u.c_str(), 3); List<String> l(tmp); for (unsigned i = r.below(6); i > 0; --i) l.emplace_back(u); List<String> l2(std::move(l)); if (!l2.empty()) l2.erase(l2.begin()); l = std::move(l2);
			HashMap<String, String> hm(&w.al[2]); for (unsigned i = r.below(9); i > 0; --i) { std::string ks = "k" + std::to_string(r.below(5)); hm.emplaceUnique(String(tmp, ks.c_str()), &w.al[1], "v"); } HashMap<String, String> h2(std::move(hm)); h2.eraseRange(String(tmp, "k1")); hm = std::move(h2); hm.clear();
			Vector<String> v(tmp); for (unsigned i = r.below(6); i > 0; --i) v.emplace_back(&w.al[1], "elementelementelement"); Vector<String> v2(std::move(v)); v = std::move(v2); v.resize(2);
			break;
		}
		case 23:
		{
			what = "link"; Module lib(&w.al[1], &w.lg), con(&w.al[2], &w.lg);
			{ Prog q(lib, r); q.random(6); Prog q2(con, r); q2.random(6); }
			Function& helper = lib.addFunction<float, float>("helper"); { BasicBlock& b = helper.front(); b.returnValue(b->opFAdd(&helper.getParameters().front(), lib.constant(2.f))); }
			Function& lf = lib.addFunction<float, float>("f"); { BasicBlock& b = lf.front(); b.returnValue(b->call(&helper, &lf.getParameters().front())); } lib.addName(lf.getFunction(), "libf"); LinkerHelper::addLinkageDecoration(lf.getFunction(), spv::LinkageType::Export, "f");
			Instruction* gv = lib.variable<float>(spv::StorageClass::Private, "g"); LinkerHelper::addLinkageDecoration(gv, spv::LinkageType::Export, "g"); lib.addDecorationInstr()->opDecorate(gv, spv::Decoration::Aliased);
			Function& cf = con.addFunction<float, float>("f", spv::FunctionControlMask::MaskNone, false); LinkerHelper::addLinkageDecoration(cf.getFunction(), spv::LinkageType::Import, r.chance(80) ? "f" : "other");
			Instruction* cg = con.variable<float>(spv::StorageClass::Private, "g"); if (r.chance(80)) LinkerHelper::addLinkageDecoration(cg, spv::LinkageType::Import, "g");
			lib.assignIDs(gram); con.assignIDs(gram);
			LinkerHelper::LinkerOptions o; o.flags = Flag<LinkerHelper::LinkerOptionBits>(r.chance(50) ? unsigned(LinkerHelper::LinkerOptionBits::All) : r.u32() & unsigned(LinkerHelper::LinkerOptionBits::All)); o.grammar = gram; o.allocator = r.chance(50) ? tmp : nullptr;
			LinkerHelper::import(lib, con, o); LinkerHelper::removeFunctionBody(helper);
			break;
		}
		}
		if (!what.empty()) w.op(what);
	}
	ps.clear(); w.op("destroy all");
	out->line(Obj().str("ev", "end").done());
}
static void scoped(World& w)
{
	out->line(Obj().str("ev", "begin").done());
	{ ScopedAllocation a = w.al[1].allocateScoped(24, 8); ScopedAllocation b(std::move(a)); { ScopedAllocation c = w.al[2].allocateScoped(5, 1); memset(c.ptr, 1, c.size); } memset(b.ptr, 0, b.size); }
	String* s = w.al[1].construct<String>(&w.al[2], "constructed by the allocator"); w.al[1].destruct(s);
	w.op("scoped"); out->line(Obj().str("ev", "end").done());
}
template <class A> static void script(A& a, char* origin, const J& sc, size_t cap)
{
	out->line(Obj().str("ev", "buf").num("cap", (long long)cap).num("base", (long long)(reinterpret_cast<uintptr_t>(origin) % 4096)).done());
	std::map<int, std::pair<void*, size_t>> live; int k = 0;
	for (auto& st : sc.a)
	{
		++k; // the history of the specification numbers its entries from 1, the first one is the buffer
		if (st[0].s == "take")
		{
			long long bytes = st[1].i; size_t nb = bytes == 999 ? ~size_t(0) - size_t(k % 3) * 16 : size_t(bytes); void* p = a.allocate(nb, unsigned(st[2].i));
			long long at = p ? (char*)p - origin : 0; if (at > 1000000 || at < -1000000) at = -1000000;
			out->line(Obj().str("ev", "take").num("k", k - 1).num("bytes", bytes).num("align", st[2].i).flag("got", p != nullptr).num("at", at).done()); out->flush();
			if (p && at >= 0 && bytes >= 0 && size_t(at + bytes) <= cap) { memset(p, 0x5a, nb); } if (p) live[k - 1] = { p, nb };
		}
		else if (st[0].s == "give") { int b = int(st[1].i); out->line(Obj().str("ev", "give").num("k", b).done()); out->flush(); auto it = live.find(b); if (it != live.end()) { a.deallocate(it->second.first, it->second.second); live.erase(it); } }
	}
}
template <size_t C> static void stackScript(const J& sc) { StackAllocator<C> a; char* o = static_cast<char*>(a.allocate(0, 1)); script(a, o, sc, C); }
}
int main(int argc, char** argv)
{
	Sink o(argv[1]); out = &o; HeapAllocator al; Grammar g(&al); gram = &g; uint64_t seed = strtoull(argv[3], nullptr, 10); unsigned ns = atoi(argv[4]), len = atoi(argv[5]); watchdog(argc > 6 ? atoi(argv[6]) : 300);
	kinds = new std::unordered_map<void*, int>(); __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
	alignas(64) static char arena[256];
	for (auto& l : readLines(argv[2]))
	{
		J sc = parse(l); size_t cap = size_t(sc[0][1].i), base = size_t(sc[0][2].i); ExternalMemoryAllocator a(arena + 64 + base, cap); script(a, arena + 64 + base, sc, cap);
		if (base == 0) switch (cap) { case 9: stackScript<9>(sc); break; case 24: stackScript<24>(sc); break; }
	}
	for (unsigned i = 0; i < ns; ++i)
	{
		Rng r(seed * 7919 + i); World w(r.next()); watching = true; session(r, w, len); watching = false;
	}
	World w(1); watching = true; scoped(w); watching = false;
	return 0;
}
