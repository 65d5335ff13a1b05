// Programs built over the public API, written, extended, re-assigned, read back and extended again.
#include "prog.h"
using namespace vt;
static Sink* out; static Grammar* gram;
static void line(const char* ev, Module& m, Logger& lg, unsigned max) // ids
{
	Snap s; s.number(m);
	out->line(Obj().str("ev", ev).num("errors", lg.errors).str("last", lg.last).num("max", max).raw("m", s.module(m)).done());
}
static std::vector<uint32_t> put(Module& m, Logger& lg, bool all)
{
	VecWriter w; bool ok; 
	if (all) ok = m.finalizeAndWrite(w, nullptr); else ok = m.write(w);
	Snap s; s.number(m);
	out->line(Obj().str("ev", "write").num("errors", lg.errors).str("last", lg.last).flag("ok", ok).raw("m", s.module(m)).raw("w", words(w.v)).done());
	return w.v;
}
int main(int, char** av)
{
	Sink o(av[1]); out = &o; auto scripts = readLines(av[2]); Rng r(strtoull(av[3], nullptr, 10)); unsigned rnd = atoi(av[4]), len = atoi(av[5]);
	watchdog(280); HeapAllocator ga; Grammar gg(&ga); gram = &gg;
	for (size_t s = 0; s < scripts.size() + rnd; ++s)
	{
		HeapAllocator al; Logger lg; Module m(&al, &lg); Prog p(m, r);
		m.setSpvVersion(1, (unsigned char)r.below(7));
		if (s < scripts.size()) { for (auto& c : parse(scripts[s]).a) p.step(stepByName(c.s)); p.finish(); }
		else p.random(r.range(1, len));
		std::vector<uint32_t> v = put(m, lg, true);
		if (const char* d = getenv("VT_DUMP")) { FILE* fp = fopen((std::string(d) + std::to_string(s) + ".spv").c_str(), "wb"); fwrite(v.data(), 4, v.size(), fp); fclose(fp); }
		if (s < scripts.size() && s % 16) continue;
		// more of it, assigned step by step
		if (r.chance(60)) { p.random(r.range(1, 20)); m.finalizeEntryPoints(); unsigned max = (unsigned)m.assignIDs(r.chance(40) ? gram : nullptr); line("ids", m, lg, max); if (r.chance(30)) line("ids", m, lg, (unsigned)m.assignIDs()); v = put(m, lg, false); }
		else { unsigned max = (unsigned)m.finalize(r.chance(50) ? gram : nullptr); line("ids", m, lg, max); v = put(m, lg, false); }
		if (r.chance(50))
		{
			HeapAllocator al2; Logger l2; Module m2(&al2, &l2); VecReader rd(v); if (!m2.readAndInit(rd, *gram)) { out->line(Obj().str("ev", "write").flag("ok", false).num("errors", l2.errors).str("last", "read back: " + l2.last).done()); continue; }
			put(m2, l2, false);
			Prog p2(m2, r); p2.nameNo = 10000; p2.random(r.range(1, 20)); if (r.chance(50)) line("ids", m2, l2, (unsigned)m2.finalize()); put(m2, l2, true);
		}
	}
}
