// Binaries: composed from derivations of the grammar, written by programs, or corrupted; read and written again.
#include "compose.h"
#include "descs.h"
#include <algorithm>
#include "common/BinaryFileReader.h"
#include "common/BinaryFileWriter.h"
#include <memory>
using namespace vt;
static Sink* out; static std::string scratch;
// ids every instruction with a result had before, and has now
static void results(Module& m, std::vector<const Instruction*>& is) { Snap::eachInstr(m, [&](const Instruction& i) { if (i.hasResult()) is.push_back(&i); }); }
// a switch on a selector of more than 32 bits (see known_findings.json)
static bool wideSwitch(const W& w)
{
	std::map<uint32_t, uint32_t> width, type; std::vector<uint32_t> sels;
	for (size_t p = 5, n; p < w.size() && (n = w[p] >> 16) && p + n <= w.size(); p += n)
	{
		unsigned op = w[p] & 0xffff; bool r = false, t = false; const Grammar::Instruction* g = gram->getInfo(op); if (g) spv::HasResultAndType(spv::Op(op), &r, &t);
		if (op == 21 && n > 2) width[w[p + 1]] = w[p + 2]; if (r && t && n > 2) type[w[p + 2]] = w[p + 1]; if (op == 251 && n > 1) sels.push_back(w[p + 1]);
	}
	for (auto s : sels) if (type.count(s) && width.count(type[s]) && width[type[s]] > 32) return true;
	return false;
}
static void run(const W& w, bool mut)
{
	bool wide = wideSwitch(w);
	Obj e; e.str("ev", "case").raw("w", words(w)).flag("mut", mut).flag("wide", wide);
	{
		HeapAllocator al; Logger lg; Module m(&al, &lg); bool ok, file = !mut && R->chance(25);
		if (file)
		{
			std::string p = scratch + "/bin.spv"; unsigned off = R->chance(50) ? 4 * R->below(5) : 0;
			{ BinaryFileWriter fw(al, p.c_str()); for (unsigned k = 0; k < off / 4; ++k) fw.put(R->u32()); for (auto x : w) fw.put(x); }
			BinaryFileReader fr(al, p.c_str(), off, R->chance(50) ? w.size() * 4 : 0); ok = m.read(fr, *gram);
		}
		else { VecReader rd(w); ok = m.read(rd, *gram); }
		e.flag("read", ok).num("err", lg.errors).str("last", lg.last);
		VecWriter v; if (ok) { if (file) { std::string p = scratch + "/out.spv"; { BinaryFileWriter fw(al, p.c_str(), R->below(64)); m.write(fw); } FILE* f = fopen(p.c_str(), "rb"); uint32_t x; while (f && fread(&x, 4, 1, f) == 1) v.v.push_back(x); if (f) fclose(f); } else m.write(v); }
		e.raw("v", words(v.v));
		bool res = false; VecWriter v2; std::vector<std::string> ids;
		if (ok)
		{
			std::vector<const Instruction*> is; results(m, is); std::vector<uint32_t> old; for (auto* i : is) old.push_back(uint32_t(i->getResultId()));
			res = m.resolveIDs();
			if (res) { m.assignIDs(); m.write(v2); std::vector<const Instruction*> now; results(m, now); if (now == is) for (size_t k = 0; k < is.size(); ++k) ids.push_back("[" + vt::w(old[k]) + "," + vt::w(uint32_t(is[k]->getResultId())) + "]"); }
		}
		e.flag("res", res).raw("ids", arr(ids)).raw("v2", words(v2.v));
	}
	bool init = false;
	if (mut) { HeapAllocator al; Logger lg; Module m(&al, &lg); VecReader rd(w); init = m.readAndInit(rd, *gram); }
	e.flag("init", init);
	if (!mut || !wide) out->line(e.done());
}
static W corrupt(const W& w)
{
	W v = w; static const uint32_t vals[] = { 0, 1, 2, 0xffffffffu, 0x80000000u, 0x7fffffffu, 0x10000u, 0xffff0000u, 0x0001ffffu };
	std::vector<size_t> starts; for (size_t p = 5; p < w.size() && (w[p] >> 16); p += w[p] >> 16) starts.push_back(p);
	auto anyStart = [&]() { return starts.empty() ? size_t(0) : R->pick(starts); };
	switch (R->below(12))
	{
	case 0: v.resize(R->below(unsigned(v.size()))); break;
	case 1: v[R->below(unsigned(v.size()))] = R->chance(70) ? vals[R->below(9)] : R->u32(); break;
	case 2: { size_t p = anyStart(); int d = R->chance(50) ? 1 : -1; v[p] += uint32_t(d) << 16; break; } // word count
	case 3: { size_t p = anyStart(); uint32_t k = R->chance(50) ? 1 : w[p] >> 16; if (k == 0) k = 1; if (p + k <= v.size()) { uint32_t at = k > 1 ? 1 + R->below(k - 1) : 0; v.erase(v.begin() + long(p + at)); v[p] -= (at ? 1u : 0u) << 16; } break; } // an operand less
	case 4: { size_t p = anyStart(); uint32_t k = w[p] >> 16; uint32_t at = 1 + R->below(k ? k : 1); if (p + at <= v.size()) { v.insert(v.begin() + long(p + at), R->chance(50) ? R->below(20) : R->u32()); v[p] += 1u << 16; } break; } // an operand more
	case 5: { size_t p = anyStart(); v[p] = (v[p] & 0xffff0000u) | (R->chance(80) ? R->below(400) : R->below(7000)); break; } // another opcode
	case 6: { size_t p = anyStart(), k = w[p] >> 16; if (p + k <= v.size()) v.erase(v.begin() + long(p), v.begin() + long(p + k)); break; } // an instruction less
	case 7: { size_t a = anyStart(), b = anyStart(), k = w[a] >> 16; if (a + k <= v.size()) { W c(v.begin() + long(a), v.begin() + long(a + k)); v.insert(v.begin() + long(b), c.begin(), c.end()); } break; } // an instruction twice, elsewhere
	case 8: { size_t p = 5 + R->below(unsigned(v.size() > 5 ? v.size() - 5 : 1)); if (p < v.size()) v[p] = R->below(30); break; }
	case 9: { size_t p = anyStart(); if (R->chance(50)) v[p] = v[p] & 0xffffu; else v[p] = (v[p] & 0xffffu) | 0xffff0000u; break; }
	case 10: { uint32_t most = 0; for (auto p : starts) if ((w[p] & 0xffff) == 54 && w[p] >> 16 == 5) most = std::max(most, w[p + 2]); if (most) v[3] = R->chance(70) ? most : R->below(most + 1); break; } // the bound is a function's id, or less
	case 11: { std::vector<size_t> vars; for (auto p : starts) { if ((w[p] & 0xffff) == 54) break; if ((w[p] & 0xffff) == 59 && w[p] >> 16 >= 4) vars.push_back(p); } if (!vars.empty()) v[R->pick(vars) + 3] = R->chance(80) ? 7 : R->below(13); break; } // a global variable with another storage class
	}
	return v;
}
int main(int, char** av)
{
	watchdog(850); Sink o(av[1]); out = &o; auto lines = readLines(av[2]); Rng r(strtoull(av[3], nullptr, 10)); R = &r; std::string mode = av[4]; unsigned n1 = atoi(av[5]), n2 = atoi(av[6]); scratch = av[7];
	HeapAllocator ga; Grammar gg(&ga); gram = &gg; std::vector<Deriv> D; for (auto& l : lines) { J j = parse(l); if (mode != "valid" && j.a[2].a.size() > 100) continue; D.push_back({ unsigned(j.a[0].i), int(j.a[1].i), j.a[2] }); }
	auto random = [&](unsigned len) { Compose c; for (unsigned k = 0; k < len; ++k) c.add(r.pick(D)); return c.words(false); };
	auto program = [&](unsigned len) { HeapAllocator al; Logger lg; Module m(&al, &lg); m.setSpvVersion(1, (unsigned char)r.below(7)); Prog p(m, r); p.random(r.range(1, len)); VecWriter w; m.finalizeAndWrite(w, nullptr); return w.v; };
	if (mode == "valid")
	{
		for (auto& d : D) { Compose c; c.add(d); run(c.words(false), false); }
		for (unsigned k = 0; k < n1; ++k) run(random(r.range(2, 40)), false);
		for (unsigned k = 0; k < n2; ++k) run(program(100), false);
		for (unsigned width = 32; width <= 64; width += 32)
		{
			W w{ 0x07230203u, 0x10600u, 0, 12, 0 }; auto i = [&](std::initializer_list<uint32_t> x) { w.push_back(uint32_t(x.size()) << 16 | *x.begin()); w.insert(w.end(), x.begin() + 1, x.end()); };
			i({ 17, 5 }); i({ 17, 11 }); i({ 14, 0, 0 }); i({ 19, 1 }); i({ 33, 2, 1 }); i({ 21, 3, width, 0 }); if (width == 64) i({ 43, 3, 4, 7, 0 }); else i({ 43, 3, 4, 7 });
			i({ 54, 1, 5, 0, 2 }); i({ 248, 6 }); i({ 247, 9, 0 }); if (width == 64) i({ 251, 4, 9, 7, 0, 7, 9, 0, 8 }); else i({ 251, 4, 9, 7, 7, 9, 8 });
			i({ 248, 7 }); i({ 249, 9 }); i({ 248, 8 }); i({ 249, 9 }); i({ 248, 9 }); i({ 253 }); i({ 56 }); run(w, false);
		}
	}
	else
	{
		// every derivation without its last word, and with one word more: small modules with nothing else in them
		for (auto& d : D)
		{
			Compose c; c.add(d); W w = c.words(false); size_t at = 0, k = 0;
			for (size_t p = 5; p < w.size() && (k = w[p] >> 16); p += k) if ((w[p] & 0xffff) == d.op && k == d.tok.a.size() + 1) at = p;
			if (at == 0) continue;
			k = w[at] >> 16; W v = w; if (k > 1) { v.erase(v.begin() + long(at + k - 1)); v[at] -= 0x10000u; run(v, true); }
			v = w; v.insert(v.begin() + long(at + k), R->chance(50) ? 1 : R->below(64)); v[at] += 0x10000u; run(v, true);
		}
		// every truncation and, at every word, several other words, of a few small binaries; random damage of many
		for (unsigned k = 0; k < n1; ++k)
		{
			W w = k % 3 == 2 ? program(4) : random(r.range(1, 6)); if (w.size() > 160) { W t; continue; }
			run(w, true);
			for (size_t i = 0; i < w.size(); ++i) run(W(w.begin(), w.begin() + long(i)), true);
			for (size_t i = 0; i < w.size(); ++i) { static const uint32_t xs[] = { 0, 1, 0xffffffffu }; for (auto x : xs) { W v = w; v[i] = x; run(v, true); } W v = w; v[i] += 0x10000u; run(v, true); v = w; v[i] -= 0x10000u; run(v, true); v = w; v[i] ^= 1u << r.below(32); run(v, true); }
		}
		// global variables that are local ones
		for (unsigned k = 0; k < 120; ++k)
		{
			W w = k % 2 ? program(12) : random(r.range(2, 8)); std::vector<size_t> vars; for (size_t p = 5; p < w.size() && w[p] >> 16 && (w[p] & 0xffff) != 54; p += w[p] >> 16) if ((w[p] & 0xffff) == 59) vars.push_back(p);
			if (!vars.empty()) { size_t p = r.chance(60) ? vars.back() : r.pick(vars); w[p + 3] = 7; run(w, true); }
		}
		for (unsigned k = 0; k < n2; ++k) { W w = r.chance(25) ? program(10) : random(r.range(1, 8)); unsigned c = r.range(1, 3); for (unsigned i = 0; i < c && w.size(); ++i) w = corrupt(w); run(w, true); }
	}
}
