#include <list>
// The command line tools: files to work on, runs in a scratch folder, and what the library makes of the same plan.
#include "prog.h"
#include "common/LinkerHelper.h"
#include "common/ModulePrinter.h"
#include "common/VulkanInterop.h"
#include "common/ReflectionHelper.h"
#include <memory>
#include <fstream>
#include <sstream>
#include <fcntl.h>
#include <dirent.h>
#include <sys/wait.h>
#include <sys/stat.h>
using namespace vt;
namespace LH = spvgentwo::LinkerHelper;
using namespace spvgentwo::ModulePrinter;
static Sink* out; static Grammar* gram; static Rng* R; static std::string dir;
static std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static std::string hash(const std::string& s) { if (s.empty()) return "0"; uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } char b[24]; snprintf(b, sizeof b, "%016llx", (unsigned long long)h); return b; }
static std::string bytes(const std::vector<uint32_t>& v) { return std::string((const char*)v.data(), v.size() * 4); }
static void put(const std::string& name, const std::string& s) { std::ofstream f(dir + "/" + name, std::ios::binary); f.write(s.data(), s.size()); }
static std::map<std::string, std::string> files() { std::map<std::string, std::string> r; DIR* d = opendir(dir.c_str()); while (auto* e = readdir(d)) { std::string nm = e->d_name; if (nm[0] != '.') r[nm] = slurp(dir + "/" + nm); } closedir(d); return r; }
static std::vector<std::string> split(const std::string& s) { std::vector<std::string> r; std::stringstream t(s); std::string l; while (std::getline(t, l)) r.push_back(l); return r; }
static bool logged(const std::string& l) { for (const char* p : { "Info: ", "Debug: ", "Warning: ", "Error: ", "Fatal: " }) if (l.compare(0, strlen(p), p) == 0) return true; return false; }
// blanks are one blank, escapes are visible
static std::string trim(const std::string& s) { std::string r; for (char c : s) { bool sp = c == ' ' || c == '\t' || c == '\n' || c == '\r'; if (sp) { if (!r.empty() && r.back() != ' ') r += ' '; } else r += c == 27 ? '^' : (unsigned char)c > 126 || c < 32 ? '?' : c; } if (!r.empty() && r.back() == ' ') r.pop_back(); return r; }
struct Result { int exit; std::string out; };
static Result runTool(const std::string& exe, const std::vector<std::string>& args)
{
	std::string o = dir + "/.stdout"; pid_t p = fork();
	if (p == 0)
	{
		if (chdir(dir.c_str())) _exit(99); int fd = open(o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); int e = open((dir + "/.stderr").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(e, 2);
		std::vector<char*> av; av.push_back((char*)exe.c_str()); for (auto& a : args) av.push_back((char*)a.c_str()); av.push_back(nullptr); signal(SIGALRM, SIG_DFL); alarm(60); execv(exe.c_str(), av.data()); _exit(99);
	}
	int st = 0; waitpid(p, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 99) { fprintf(stderr, "VT_EXEC %s\n", exe.c_str()); exit(3); }
	std::string err = slurp(dir + "/.stderr"); bool san = err.find("Sanitizer") != std::string::npos || err.find("runtime error") != std::string::npos;
	int code = WIFEXITED(st) ? (san ? 1098 : WEXITSTATUS(st)) : 1000 + WTERMSIG(st); if (code >= 1000) fprintf(stderr, "%s\n", err.substr(0, 1500).c_str());
	return { code, slurp(o) };
}
struct Read
{
	HeapAllocator al; Logger lg; Module m; bool ok; explicit Read(const std::string& name) : m(&al, &lg) { std::string s = slurp(dir + "/" + name); std::vector<uint32_t> w(s.size() / 4); if (!w.empty()) memcpy(w.data(), s.data(), w.size() * 4); VecReader rd(w); ok = m.readAndInit(rd, *gram); }
};
// ------------------------------------------------------------------ files
static Instruction* mark(Module& m, Instruction* v, spv::Decoration d, unsigned x) { m.addDecorationInstr()->opDecorate(v, d, x); return v; }
static void write(Module& m, const std::string& name) { VecWriter w; m.finalizeAndWrite(w, gram); put(name, bytes(w.v)); }
static Instruction* block(Module& m) { Type t = m.newType(); Type f = m.newType(); f.Float(32); Type v = m.newType(); v.Vector(4, &f); t.Struct(); t.Member(&v); t.Member(&f); Instruction* i = m.addType(t); m.addDecorationInstr()->opDecorate(i, spv::Decoration::Block); m.addDecorationInstr()->opMemberDecorate(i, 0u, spv::Decoration::Offset, 0u); m.addDecorationInstr()->opMemberDecorate(i, 1u, spv::Decoration::Offset, 16u); if (R->chance(50)) { m.addName(i, "Block"); m.addMemberName(i, "color", 0); } return i; }
static Function& floatFun(Module& m, const char* name) { return m.addFunction<float, float>(name, spv::FunctionControlMask::Const); }
static void shader(const std::string& name, bool plain)
{
	HeapAllocator al; Module m(&al); m.setSpvVersion(1, R->below(6)); Prog p(m, *R); p.linkage = false; if (!plain) p.random(R->range(3, 30));
	m.addCapability(spv::Capability::Shader); m.addCapability(spv::Capability::Kernel);
	Instruction* bl = block(m); Instruction* glob = m.addGlobalVariableInstr()->opVariable(m.addType(bl->getType()->wrapPointer(spv::StorageClass::Uniform)), spv::StorageClass::Uniform); m.addName(glob, "glob"); mark(m, glob, spv::Decoration::DescriptorSet, R->below(4)); mark(m, glob, spv::Decoration::Binding, R->below(9)); if (R->chance(40)) m.addDecorationInstr()->opDecorate(glob, spv::Decoration::Restrict); if (R->chance(40)) m.addDecorationInstr()->opDecorate(glob, spv::Decoration::Coherent);
	{ Type s = m.newType(); s.Sampler(); Type a = s.wrapPointer(spv::StorageClass::UniformConstant); Instruction* v = m.addGlobalVariableInstr()->opVariable(m.addType(a), spv::StorageClass::UniformConstant); if (R->chance(60)) { mark(m, v, spv::Decoration::DescriptorSet, 0); mark(m, v, spv::Decoration::Binding, R->below(3)); } if (R->chance(50)) m.addName(v, R->chance(30) ? "" : "smp"); }
	static const unsigned kinds[] = { 0, 4, 5, 7, 8, 9, 10, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 28, 42 }, valued[] = { 1, 6, 11, 29, 30, 31, 32, 33, 34, 36, 37, 38, 39, 40, 43, 44, 45 };
	std::vector<Instruction*> vs; for (unsigned k = 0; k < 3; ++k) { Instruction* v = m.variable<float>(R->chance(50) ? spv::StorageClass::Private : spv::StorageClass::Input, R->chance(50) ? ("v" + n(k)).c_str() : nullptr); vs.push_back(v); for (unsigned c = R->below(5); c > 0; --c) { if (R->chance(50)) m.addDecorationInstr()->opDecorate(v, spv::Decoration(kinds[R->below(23)])); else mark(m, v, spv::Decoration(valued[R->below(17)]), R->below(4)); } }
	if (R->chance(30)) m.addDecorationInstr()->opDecorateId(vs[0], spv::Decoration::AlignmentId, m.constant(16u)); if (R->chance(20)) m.addDecorationInstr()->opDecorateId(vs[1], spv::Decoration::UniformId, m.constant(3u));
	for (auto* k : { m.constant(1.5f), m.specConstant(7u) }) if (R->chance(50)) mark(m, k, spv::Decoration::SpecId, R->below(9));
	Function& aux = floatFun(m, "aux"); { BasicBlock& b = *aux; b.returnValue(b.Mul(aux.getParameter(0), b->opLoad(vs[1]))); }
	Function& fun = floatFun(m, "fun"); { BasicBlock& b = *fun; Instruction* x = b->opLoad(b->opAccessChain(glob, 1u)); if (R->chance(50)) { x = b.Add(x, b->call(&aux, fun.getParameter(0))); } if (R->chance(60)) x = b.Add(x, b->opLoad(vs[2])); if (R->chance(50)) m.addName(x, "value"); if (R->chance(50)) mark(m, x, spv::Decoration::RelaxedPrecision, 0)->getModule(); b.returnValue(x); }
	if (R->chance(50)) { Function& q = m.addFunction<void>(nullptr); (*q)->opReturn(); }
	static const unsigned models[] = { 5, 4, 0, 6, 5 }; unsigned md = models[R->below(5)]; EntryPoint& ep = m.addEntryPoint(spv::ExecutionModel(md), "main"); ep->call(&fun, m.constant(2.f)); ep->opReturn(); if (md == 5 || md == 6) { if (R->chance(80)) ep.addExecutionMode(spv::ExecutionMode::LocalSize, R->range(1, 64), R->range(1, 8), R->range(1, 4)); } else if (md == 4) ep.addExecutionMode(spv::ExecutionMode::OriginUpperLeft);
	if (R->chance(30)) { EntryPoint& e2 = m.addEntryPoint(spv::ExecutionModel::Fragment, "second"); e2->opReturn(); e2.addExecutionMode(spv::ExecutionMode::OriginUpperLeft); }
	write(m, name);
}
static void library(const std::string& name, const char* sym, bool ext)
{
	HeapAllocator al; Module m(&al); m.addCapability(spv::Capability::Shader); m.addCapability(spv::Capability::Linkage); if (R->chance(40)) m.addCapability(spv::Capability::Geometry); if (R->chance(30)) m.addExtension("SPV_KHR_storage_buffer_storage_class");
	Instruction* u = m.uniform<float>(ext ? "u_b" : "u_a"); Instruction* f = nullptr; if (R->chance(30)) { f = m.addSourceStringInstr()->opString("file.glsl"); } if (R->chance(30)) m.addModuleProccessedInstr()->makeOp(spv::Op::OpModuleProcessed, "tool");
	Function& aux = floatFun(m, ext ? "auxb" : "auxa"); { BasicBlock& b = *aux; if (f) b->opLine(f, 3, 4); Instruction* x = b.Mul(aux.getParameter(0), aux.getParameter(0)); if (R->chance(50)) m.addDecorationInstr()->opDecorate(x, spv::Decoration::RelaxedPrecision); b.returnValue(x); }
	Function& fn = floatFun(m, ext ? "libb" : "liba"); { BasicBlock& b = *fn; Instruction* x = fn.getParameter(0); m.addName(x, "x"); x = b.Div(b->opLoad(u), m.constant(R->chance(50) ? 10.f : 20.f)); if (ext) x = b.ext<ext::GLSL>()->opPow(x, fn.getParameter(0)); x = b->call(&aux, x); b.returnValue(x); }
	LH::addLinkageDecoration(fn.getFunction(), spv::LinkageType::Export, sym); if (R->chance(40)) LH::addLinkageDecoration(u, spv::LinkageType::Export, ext ? "@u_b" : "@u_a");
	write(m, name);
}
static void consumer(const std::string& name)
{
	HeapAllocator al; Module m(&al); m.addCapability(spv::Capability::Shader); m.addCapability(spv::Capability::Linkage); bool a = R->chance(75), b2 = R->chance(60); Function *fa = nullptr, *fb = nullptr;
	auto decl = [&](const char* nm, const char* sym) -> Function* { Function& f = m.addFunction(); f.setReturnType(m.type<float>()); f.addParameters(m.type<float>()); f.finalize(spv::FunctionControlMask::Const, nm); LH::addLinkageDecoration(f.getFunction(), spv::LinkageType::Import, sym); return &f; };
	if (a) fa = decl("fa", "@liba"); if (b2) fb = decl("fb", "@libb"); if (R->chance(25)) { Instruction* v = m.uniform<float>("cu"); LH::addLinkageDecoration(v, spv::LinkageType::Import, "@u_a"); }
	EntryPoint& ep = m.addEntryPoint(spv::ExecutionModel::Fragment, "main"); Instruction* x = m.constant(16.f); if (fa) x = ep->call(fa, x); if (fb) x = ep->call(fb, x); ep->opReturn(); ep.addExecutionMode(spv::ExecutionMode::OriginUpperLeft);
	VecWriter w; m.finalizeAndWrite(w, nullptr); put(name, bytes(w.v));
}
static void malformed(const std::string& name)
{
	std::string s = slurp(dir + "/shader.spv"); switch (R->below(4)) { case 0: s = s.substr(0, 16); break; case 1: s[0] = 1; break; case 2: { size_t k = 4 * R->range(6, s.size() / 4 - 4); s = s.substr(0, k) + std::string(4, 0); break; } case 3: s.clear(); break; }
	put(name, s);
}
static void fresh() { for (auto& f : files()) unlink((dir + "/" + f.first).c_str()); for (int k = 0; k < 40; ++k) { shader("shader.spv", R->chance(30)); Read r("shader.spv"); if (r.ok) break; } library("liba.spv", "@liba", false); library("libb.spv", "@libb", true); consumer("cons.spv"); malformed("bad.spv"); }
// ------------------------------------------------------------------ runs
static std::string tx(const J& d) { if (d.k == J::Arr) { std::string r = "["; for (auto& z : d.a) { if (r.size() > 1) r += ","; r += tx(z); } return r + "]"; } if (d.k == J::Object) { std::string r = "{"; for (auto& p : d.o) { if (r.size() > 1) r += ","; r += q(p.first) + ":" + tx(p.second); } return r + "}"; } if (d.k == J::Num) return n(d.i); if (d.k == J::Bool) return vt::b(d.i); return q(d.s); }
static std::string idOf(const std::string& t) // #name: the number of something in shader.spv
{
	if (t.empty() || t[0] != '#') return t; Read r("shader.spv"); std::string nm = t.substr(1); unsigned id = 0;
	Snap::eachInstr(r.m, [&](const Instruction& i) { const char* x = i.hasResult() ? i.getName() : nullptr; if ((x && nm == x) || (nm == "float" && i.getOperation() == spv::Op::OpTypeFloat && !id)) id = (unsigned)i.getResultId(); });
	return n(id ? id : 777777);
}
static std::string changed(const std::map<std::string, std::string>& b, const std::map<std::string, std::string>& a)
{
	std::vector<std::string> r; for (auto& f : a) { auto it = b.find(f.first); if (it == b.end() || it->second != f.second) r.push_back("[" + q(f.first) + "," + q(hash(f.second)) + "]"); } for (auto& f : b) if (!a.count(f.first)) r.push_back("[" + q(f.first) + ",\"gone\"]"); return arr(r);
}
static const char* kindOf(const std::string& f, bool ok) { return ok ? "good" : "bad"; }
static std::string listed(const Instruction& i, bool colors, PrintOptions o, const char* ind) { std::string s; auto pr = ModuleSimpleFuncPrinter([&](const char* t) { s += t; }, colors); printInstruction(i, *gram, pr, o, ind); return s; }
static std::string listed(const Instruction& i, bool colors) { std::string s; auto pr = ModuleSimpleFuncPrinter([&](const char* t) { s += t; }, colors); printInstruction(i, *gram, pr); return trim(s); }
static std::string text(const std::string& s) { std::string r; for (auto& l : split(s)) if (!logged(l)) r += l + "\n"; return r; }
static const PrintOptions Brief(PrintOptionsBits::OperationName, PrintOptionsBits::ResultId);
static void dis(const std::string& exe, const J& args, const J& plan)
{
	std::vector<std::string> av; for (auto& a : args.a) av.push_back(a.s); auto before = files(); Result r = runTool(exe, av); auto after = files(); std::string f = plan["file"].s, want, bin = "0"; bool ok = false;
	if (!f.empty() && before.count(f))
	{
		Read m(f); ok = m.ok; if (ok) { if (plan["assign"].i) m.m.assignIDs(); PrintOptions o{ PrintOptionsBits::ConstantData, PrintOptionsBits::TypeName, PrintOptionsBits::OperationName, PrintOptionsBits::ResultId }; if (plan["instr"].i) o |= PrintOptionsBits::InstructionName; if (plan["operands"].i) o |= PrintOptionsBits::OperandName; if (plan["preamble"].i) o |= PrintOptionsBits::Preamble; auto pr = ModuleSimpleFuncPrinter([&](const char* t) { want += t; }, plan["colors"].i != 0); printModule(m.m, *gram, pr, o, plan["tabs"].s == "default" ? "\t\t" : plan["tabs"].s.c_str()); if (plan["serialize"].i) { VecWriter w; m.m.finalizeAndWrite(w); bin = hash(bytes(w.v)); } }
	}
	std::string got = text(r.out); want = text(want); std::string diff; if (got != want) { auto a = split(got), b = split(want); for (size_t k = 0; k < std::max(a.size(), b.size()) && diff.empty(); ++k) if (k >= a.size() || k >= b.size() || a[k] != b[k]) diff = "line " + n(k) + ": " + (k < a.size() ? trim(a[k]) : "(end)") + " // " + (k < b.size() ? trim(b[k]) : "(end)"); }
	out->line(Obj().str("ev", "dis").raw("args", tx(args)).raw("plan", tx(plan)).str("kind", kindOf(f, ok)).num("exit", r.exit).str("out", hash(got)).str("text", hash(want)).str("diff", diff).str("binary", bin).raw("changed", changed(before, after)).done());
	unlink((dir + "/serialized.spv").c_str());
}
static std::string fact(const Instruction& i, bool colors, const char* ind)
{
	const char* nm = i.getName(); std::string type; if (i.hasResultType()) if (auto* t = i.getResultTypeInstr(); t && !t->isErrorInstr()) type = listed(*t, colors);
	return Obj().num("id", (unsigned)i.getResultId()).num("op", unsigned(i.getOperation())).flag("named", nm != nullptr).str("name", nm ? trim(nm) : "").str("text", trim(listed(i, colors, Brief, ind))).num("d", i.getOperation() == spv::Op::OpVariable ? long((unsigned)vk::getDescriptorTypeFromVariable(i)) : 2147483647l).str("type", type).done();
}
static void refl(const std::string& exe, const J& args, const J& plan)
{
	std::vector<std::string> av; for (auto& a : args.a) av.push_back(idOf(a.s)); auto before = files(); Result r = runTool(exe, av); auto after = files(); std::string f = plan["file"].s; bool ok = false; Obj o;
	std::vector<std::string> lines; for (auto& l : split(r.out)) if (!logged(l)) if (auto t = trim(l); !t.empty()) lines.push_back(q(t));
	o.str("ev", "refl").raw("args", tx(args)).raw("plan", tx(plan)).num("exit", r.exit).raw("out", arr(lines)).raw("changed", changed(before, after));
	if (!f.empty() && before.count(f))
	{
		Read m(f); ok = m.ok; bool c = plan["colors"].i != 0;
		if (ok)
		{
			std::vector<std::string> decs, gl, ty, all, eps, fus; for (auto& d : m.m.getDecorations()) { auto it = d.getFirstActualOperand(); long target = it != nullptr && it->isInstruction() ? long((unsigned)it->getInstruction()->getResultId()) : 0; bool mem = d.getOperation() == spv::Op::OpMemberDecorate || d.getOperation() == spv::Op::OpMemberDecorateString; long kind = -1; if (it != nullptr) ++it; if (mem && it != nullptr) ++it; if (it != nullptr && it->isLiteral()) kind = it->getLiteral().value; decs.push_back(Obj().num("op", unsigned(d.getOperation())).num("target", target).num("kind", kind).str("brief", trim(listed(d, c, Brief, "\t\t\t"))).str("text", listed(d, c)).done()); }
			for (auto& g : m.m.getGlobalVariables()) gl.push_back(fact(g, c, "\t")); for (auto& g : m.m.getTypesAndConstants()) ty.push_back(fact(g, c, "\t"));
			Snap::eachInstr(m.m, [&](const Instruction& i) { if (i.hasResult() && (!plan["var"].s.empty() || !plan["id"].s.empty())) all.push_back(fact(i, c, "\t")); });
			auto fn = [&](const Function& fu, Obj& x) { std::vector<std::string> ps; const Instruction* t = fu.getFunctionTypeInstr(); for (auto it = t->getFirstActualOperand(); it != t->end(); ++it) if (it->isInstruction()) { std::string s; auto pr = ModuleSimpleFuncPrinter([&](const char* z) { s += z; }, c); printInstruction(*it->getInstruction(), *gram, pr, PrintOptionsBits::All); ps.push_back(q(trim(s))); } std::string ts; auto pr = ModuleSimpleFuncPrinter([&](const char* z) { ts += z; }, c); printInstruction(*t, *gram, pr, PrintOptionsBits::All); x.str("text", trim(listed(*fu.getFunction(), c, Brief, "\t\t"))).str("type", trim(ts)).raw("params", arr(ps)); };
			for (auto& e : m.m.getEntryPoints()) { Obj x; std::vector<std::string> face; for (auto& v : e.getInterfaceVariables()) if (v.getInstruction()) { const char* nm = v.getInstruction()->getName(); face.push_back(Obj().flag("named", nm != nullptr).str("name", nm ? trim(nm) : "").str("text", trim(listed(*v.getInstruction(), c, Brief, "\t\t"))).done()); } x.str("name", e.getName()).num("model", unsigned(e.getExecutionModel())).str("ep", trim(listed(*e.getEntryPoint(), c, Brief, "\t\t"))).raw("face", arr(face)); fn(e, x); eps.push_back(x.done()); }
			for (auto& e : m.m.getFunctions()) { Obj x; const char* nm = e.getName(); x.flag("named", nm != nullptr).str("name", nm ? trim(nm) : ""); fn(e, x); fus.push_back(x.done()); }
			unsigned x, y, z; std::string size = "[]"; if (ReflectionHelper::getLocalSize(m.m, x, y, z)) size = "[\"" + n(x) + "\",\"" + n(y) + "\",\"" + n(z) + "\"]";
			std::string id = plan["id"].s.empty() ? "0" : idOf(plan["id"].s); o.raw("decs", arr(decs)).raw("globals", arr(gl)).raw("types", arr(ty)).raw("all", arr(all)).raw("eps", arr(eps)).raw("funs", arr(fus)).raw("size", size).raw("asked", id);
		}
	}
	out->line(o.str("kind", kindOf(f, ok)).done());
}
static void link(const std::string& exe, const J& args, const J& plan, const std::string& job)
{
	std::vector<std::string> av; for (auto& a : args.a) av.push_back(idOf(a.s)); auto before = files(); bool ok = false, readable = true; std::string bin = "0"; std::string target = plan["out"].s;
	if (job == "link")
	{
		if (target.empty()) target = plan["cons"].s; std::list<Read> libs; Read c(plan["cons"].s); ok = c.ok; LH::LinkerOptions o; o.grammar = gram; unsigned fl = 0; for (auto& x : plan["flags"].a) fl |= 1u << (x.i - 1); o.flags = Flag<LH::LinkerOptionBits>(fl);
		for (auto& l : plan["libs"].a) { libs.emplace_back(l.s); Read& lib = libs.back(); ok = lib.ok && LH::import(lib.m, c.m, o) && ok; }
		if (ok) { VecWriter w; c.m.finalizeEntryPoints(); ok = c.m.write(w); bin = hash(bytes(w.v)); }
	}
	else if (job == "patch")
	{
		if (target.empty()) target = plan["patch"].s; Read p(plan["patch"].s); ok = p.ok; p.m.addCapability(spv::Capability::Linkage);
		struct T { Instruction* i; bool imp; std::string name; bool vars; }; std::vector<T> ts;
		for (auto& t : plan["targets"].a) { std::string s = idOf(t.a[1].s); Instruction* i = s[0] >= '0' && s[0] <= '9' ? p.m.getInstructionById(spv::Id(strtoul(s.c_str(), nullptr, 10))) : p.m.getInstructionByName(s.c_str()); if (!i) { fprintf(stderr, "VT_TARGET %s\n", s.c_str()); exit(3); } ts.push_back({ i, t.a[0].s == "import", t.a[2].s, t.a[3].i == 1 }); }
		for (auto& t : ts) { if (!ok) break; if (t.i->getOperation() == spv::Op::OpFunction) { Function* f = t.i->getFunction(); if (t.imp) { if (!f->empty()) LH::removeFunctionBody(*f); } else if (t.vars) ok = LH::addLinkageDecorateForUsedGlobalVariables(*f, spv::LinkageType::Export); } if (ok) p.m.addDecorationInstr()->opDecorate(t.i, spv::Decoration::LinkageAttributes, t.name.c_str(), t.imp ? spv::LinkageType::Import : spv::LinkageType::Export); }
		if (ok) { VecWriter w; p.m.finalizeAndWrite(w); bin = hash(bytes(w.v)); }
	}
	Result r = runTool(exe, av); auto after = files(); if (ok && after.count(target)) { Read b(target); readable = b.ok; }
	out->line(Obj().str("ev", "link").raw("args", tx(args)).raw("plan", tx(plan)).num("exit", r.exit).flag("ok", ok).flag("readable", readable).str("binary", bin).str("was", before.count(target) ? hash(before[target]) : "none").raw("changed", changed(before, after)).done());
	for (auto& f : after) if (!before.count(f.first) || before[f.first] != f.second) { if (before.count(f.first)) put(f.first, before[f.first]); else unlink((dir + "/" + f.first).c_str()); }
}
int main(int, char** av)
{
	watchdog(850); Sink o(av[1]); out = &o; auto lines = readLines(av[2]); dir = av[3]; mkdir(dir.c_str(), 0700); Rng r(strtoull(av[4], nullptr, 10)); R = &r; HeapAllocator ga; Grammar g(&ga); gram = &g; unsigned every = atoi(av[5]);
	for (size_t k = 0; k < lines.size(); ++k)
	{
		if (k % every == 0) fresh(); J s = parse(lines[k]); const std::string& t = s.a[0].s;
		if (t == "dis") dis(av[6], s.a[1], s.a[2]); else if (t == "refl") refl(av[7], s.a[1], s.a[2]); else link(av[8], s.a[1], s.a[2], s.a[3].s);
	}
	return 0;
}
