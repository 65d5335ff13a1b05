// Descriptor types of variables, shader stages of execution models.
#include "tbuild.h"
#include "common/VulkanInterop.h"
#include <memory>
static Sink* out; static const Grammar* gram;
static std::string tx(const J& d) { if (d.k == J::Arr) { std::string r = "["; for (auto& z : d.a) { if (r.size() > 1) r += ","; r += tx(z); } return r + "]"; } return d.k == J::Num ? n(d.i) : "\"" + d.s + "\""; }
struct Session
{
	HeapAllocator al; Module m; std::vector<Instruction*> vars; std::vector<Instruction*> structs; Function* f = nullptr;
	Session() : m(&al) { out->line(Obj().str("ev", "begin").done()); m.addCapability(spv::Capability::Shader); if (R->chance(50)) { f = &m.addFunction<void>("f"); (**f)->opReturn(); } }
	static long code(const Instruction& i) { return long((unsigned)vk::getDescriptorTypeFromVariable(i)); }
	void step(const J& x)
	{
		const std::string& op = x.a[0].s;
		if (op == "ask") { ask(); return; }
		if (op == "var")
		{
			auto sc = spv::StorageClass(x.a[1].i); Type t = mk(m, x.a[2]); Instruction* base = m.addType(t);
			if (R->chance(20)) m.addConstant(m.newConstant().make(unsigned(R->below(9))));
			Instruction* v = m.addGlobalVariableInstr()->opVariable(m.addType(t.wrapPointer(sc)), sc); vars.push_back(v);
			if (R->chance(30)) m.addNameInstr()->opName(v, "v"); if (R->chance(20)) m.addDecorationInstr()->opDecorate(v, spv::Decoration::NonWritable);
			if (base->getType() && base->getType()->isStruct()) { structs.push_back(base); if (R->chance(30)) m.addDecorationInstr()->opMemberDecorate(base, 0u, spv::Decoration::Offset, unsigned(R->below(2) ? 0u : 1u)); }
		}
		else if (op == "set") m.addDecorationInstr()->opDecorate(vars[x.a[1].i - 1], spv::Decoration::DescriptorSet, unsigned(x.a[2].i));
		else if (op == "bind") m.addDecorationInstr()->opDecorate(vars[x.a[1].i - 1], spv::Decoration::Binding, unsigned(x.a[2].i));
		else if (op == "buf") { Type t = mk(m, x.a[1]); m.addDecorationInstr()->opDecorate(m.addType(t), spv::Decoration::BufferBlock); }
		out->line(Obj().str("ev", "step").raw("op", tx(x)).done());
	}
	void put(Module& mod, const std::vector<const Instruction*>& vs)
	{
		std::vector<std::string> d, o; for (auto v : vs) d.push_back(n(code(*v)));
		for (auto& t : mod.getTypesAndConstants()) if (R->chance(30)) o.push_back(n(code(t))); for (auto& t : mod.getDecorations()) if (R->chance(10)) o.push_back(n(code(t)));
		out->line(Obj().str("ev", "ask").raw("d", arr(d)).raw("others", arr(o)).done());
	}
	void ask(bool last = false)
	{
		std::vector<const Instruction*> vs(vars.begin(), vars.end()); put(m, vs);
		if (last && R->chance(40))
		{
			HeapAllocator al2; Module c(&al2); VecWriter w; m.finalizeAndWrite(w, nullptr); VecReader rd(w.v); if (!c.readAndInit(rd, *gram)) { out->line(Obj().str("ev", "unreadable").done()); return; }
			std::vector<const Instruction*> ws; for (auto& v : c.getGlobalVariables()) ws.push_back(&v); put(c, ws);
		}
	}
};
int main(int, char** av)
{
	watchdog(850); Sink o(av[1]); out = &o; auto lines = readLines(av[2]); Rng r(strtoull(av[3], nullptr, 10)); R = &r; HeapAllocator ga; Grammar g(&ga); gram = &g; unsigned rounds = atoi(av[4]);
	for (unsigned x : { 0u, 1u, 2u, 3u, 4u, 5u, 6u, 5267u, 5268u, 5313u, 5314u, 5315u, 5316u, 5317u, 5318u }) o.line(Obj().str("ev", "stage").num("model", x).num("stage", long((unsigned)vk::getShaderStageFromExecutionModel(spv::ExecutionModel(x)))).done());
	for (auto& l : lines) { Session s; for (auto& x : parse(l).a) s.step(x); s.ask(true); }
	for (unsigned k = 0; k < rounds; ++k)
	{
		Session s; unsigned c = r.range(3, 24); struct V { bool set = false, bind = false; }; std::vector<V> vs; std::vector<std::string> structs;
		auto img = [&](unsigned dim, unsigned acc) { return "[\"Img\",[\"Float\",32]," + n(dim) + "," + n(r.below(3)) + "," + n(r.below(2)) + "," + n(r.below(2)) + "," + n(acc) + "," + n(r.below(3)) + ",-1]"; };
		for (unsigned j = 0; j < c; ++j)
		{
			if (vs.empty() || r.chance(35))
			{
				std::string t; unsigned sc = 0; switch (r.below(8)) { case 0: case 1: t = "[\"Sampler\"]"; break; case 2: case 3: t = img(r.below(7), r.below(3)); break; case 4: t = "[\"SImg\"," + img(r.below(5), 1) + "]"; break; case 5: t = "[\"T\",5341]"; break; default: t = r.chance(50) ? "[\"Struct\",[[\"Float\",32]]]" : r.chance(50) ? "[\"Struct\",[[\"Vec\",[\"Float\",32],4],[\"Int\",32,1]]]" : "[\"Vec\",[\"Float\",32],2]"; unsigned scs[] = { 2, 12, 2, 12, 9, 1, 3, 6 }; sc = t[2] == 'V' ? scs[4 + r.below(4)] : scs[r.below(8)]; if (t[2] == 'S') structs.push_back(t); }
				while (r.chance(20) && t[2] != 'V') t = r.chance(70) ? "[\"Arr\"," + t + "," + n(r.range(1, 9)) + "]" : "[\"RArr\"," + t + "]";
				s.step(parse("[\"var\"," + n(sc) + "," + t + "]")); vs.emplace_back();
			}
			else if (r.chance(6) && !structs.empty()) s.step(parse("[\"buf\"," + structs[r.below(structs.size())] + "]"));
			else { unsigned i = r.below(vs.size()); bool b = r.chance(50); bool& done = b ? vs[i].bind : vs[i].set; if (!done) { done = true; s.step(parse(std::string(b ? "[\"bind\"," : "[\"set\",") + n(i + 1) + "," + n(r.below(2)) + "]")); } }
			if (r.chance(15)) s.ask();
		}
		s.ask(true);
	}
	return 0;
}
