// Listings of modules: built by programs, read from binaries composed of derivations of the grammar and of declarations.
#include "rawbin.h"
#include "common/ModulePrinter.h"
using namespace vt;
static Sink* out;
typedef ModulePrinter::PrintOptions Opts; typedef ModulePrinter::PrintOptionsBits B;
static std::string plain(const std::string& s) { std::string r; for (size_t k = 0; k < s.size();) { if (s[k] == '\x1b') { while (k < s.size() && s[k] != 'm') ++k; ++k; } else r += s[k++]; } return r; }
struct Tokens
{
	std::vector<std::string> lines; std::set<std::string> nums; std::vector<std::string> numLines;
	void number(const std::string& t)
	{
		char* end; double d = strtod(t.c_str(), &end); if (*end || t.empty() || !nums.insert(t).second) return; float f = strtof(t.c_str(), nullptr); uint32_t a; uint64_t b; memcpy(&a, &f, 4); memcpy(&b, &d, 8);
		numLines.push_back("[" + q(t) + "," + vt::w(a) + ",[" + n(b >> 48) + "," + n((b >> 32) & 0xffff) + "," + n((b >> 16) & 0xffff) + "," + n(b & 0xffff) + "]]");
	}
	void line(const std::string& s)
	{
		std::vector<std::string> ts; size_t k = 0; std::string cur; auto flush = [&]() { if (!cur.empty()) { number(cur); ts.push_back(q(cur)); } cur.clear(); };
		while (k < s.size())
		{
			char c = s[k];
			if (c == '"') { cur += c; ++k; while (k < s.size() && s[k] != '"') cur += s[k++]; if (k < s.size()) cur += s[k++]; continue; }
			if (c == ' ' || c == '\t') { flush(); ++k; continue; }
			if (c == '[' || c == ']') { flush(); cur = c; flush(); ++k; continue; }
			cur += c; ++k;
		}
		flush(); lines.push_back(arr(ts));
	}
	explicit Tokens(const std::string& s) { size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); line(s.substr(p, e - p)); p = e + 1; } }
};
static bool clean(const std::string& s) { for (unsigned char c : s) if (c < 32 && c != '\n' && c != '\t' && c != 27) return false; return true; }
static void emit(const Module& m, const W& w, int lev)
{
	unsigned bits = R->chance(35) ? 127 : R->chance(30) ? 127 & ~(1u << R->below(7)) : R->below(128); static const char* ind[] = { "\t\t", " ", "    ", "\t" }; const char* in = ind[R->below(4)];
	Opts o = B(bits); HeapAllocator al; bool color = true, single = true; std::string s; bool ok;
	switch (R->below(4))
	{
	case 0: { auto p = ModulePrinter::ModuleSimpleFuncPrinter([&](const char* t) { s += t; }); ok = ModulePrinter::printModule(m, *gram, p, o, in); break; }
	case 1: { auto p = ModulePrinter::ModuleFuncPrinter([&](const char* t, const char*, const char*) { if (t) s += t; }); bits &= ~64u; ok = ModulePrinter::printModule(m, *gram, p, o, in); break; } // prints no constants
	default: { String str(&al); ModulePrinter::ModuleStringPrinter p(str); ok = ModulePrinter::printModule(m, *gram, p, o, in); if (str.c_str()) s = str.c_str();
		String cs(&al); ModulePrinter::ModuleStringPrinter cp(cs, true); ModulePrinter::printModule(m, *gram, cp, o, in); color = cs.c_str() && plain(cs.c_str()) == s;
		std::string t; size_t at = 0; if (bits & 1) for (int k = 0; k < 5; ++k) at = s.find('\n', at) + 1;
		if (ok) m.iterateInstructions([&](const Instruction& i) { auto sp = ModulePrinter::ModuleSimpleFuncPrinter([&](const char* x) { t += x; }, R->chance(50)); if (!ModulePrinter::printInstruction(i, *gram, sp, o, in)) single = false; t += "\n"; }); if (ok && plain(t) != s.substr(at)) single = false; break; }
	}
	if (!clean(s)) return;
	Tokens t(s); out->line(Obj().str("ev", "print").raw("w", words(w)).num("lev", lev).num("opt", bits).raw("gen", vt::w(m.getSpvGenerator())).flag("ok", ok).raw("lines", arr(t.lines)).raw("nums", arr(t.numLines)).flag("color", color).flag("single", single).done());
}
static void fromWords(const W& w, bool init)
{
	int lev = init ? R->range(0, 2) : R->range(0, 1); HeapAllocator al; Logger lg; Module m(&al, &lg); VecReader rd(w);
	if (!m.read(rd, *gram)) return; if (lev > 0 && !m.resolveIDs()) return; if (lev == 2 && !(m.reconstructNames() && m.reconstructTypeAndConstantInfo())) return;
	VecWriter v; m.write(v); emit(m, v.v, lev);
}
static void built(unsigned len)
{
	HeapAllocator al; Logger lg; Module m(&al, &lg); m.setSpvVersion(1, (unsigned char)R->below(7)); Prog p(m, *R); p.random(R->range(1, len));
	for (unsigned k = R->below(5); k > 0; --k) { static const char* s[] = { "with spaces in it", "(vf4;", "abc", "abcd", "a b", "#x % | y", "x" }; switch (R->below(3)) { case 0: m.addModuleProccessedInstr()->makeOp(spv::Op::OpModuleProcessed, s[R->below(7)]); break; case 1: m.addSourceStringInstr()->opString(s[R->below(7)]); break; case 2: m.addSourceStringInstr()->opSourceExtension(s[R->below(7)]); break; } }
	for (unsigned k = R->below(6); k > 0; --k)
	{
		uint32_t fs[] = { R->u32(), 0x2edbe6ffu, 0x7f7fffffu, 0x00000001u, 0x3dcccccdu, 0x7f800000u, 0x7fc00000u, 0xff800000u }; float f; memcpy(&f, &fs[R->below(8)], 4);
		uint64_t ds[] = { R->next(), 0x7e37e43c8800759cull, 0x0000000000000001ull, 0x3fb999999999999aull, 0x7fefffffffffffffull, 0xffefffffffffffffull, 0x8000000000000000ull }; double d; memcpy(&d, &ds[R->below(7)], 8);
		switch (R->below(10)) { case 0: case 1: m.constant(f); break; case 2: case 3: m.constant(d, R->chance(50)); break; case 4: m.constant((long long)R->next()); break; case 5: m.constant((unsigned long long)R->next()); break; case 6: m.constant(char(R->u32())); break; case 7: m.constant((unsigned short)R->u32(), true); break; case 8: m.constant(short(R->u32())); break; case 9: m.constant(-int(R->below(9)), true); break; }
	}
	VecWriter w; m.finalizeAndWrite(w, nullptr); emit(m, w.v, 2);
}
// instructions of the extended sets
static W extended()
{
	W w{ 0x07230203u, 0x10000u, 0, 0, 0 }; auto i = [&](W x) { w.push_back(uint32_t(x.size()) << 16 | x[0]); w.insert(w.end(), x.begin() + 1, x.end()); };
	auto str = [&](W& x, const char* t) { Raw::str(x, t); }; const char* sets[] = { "GLSL.std.450", "OpenCL.std", "GLSL.std.45", "NonSemantic.DebugPrintf" };
	for (uint32_t k = 0; k < 4; ++k) { W x{ 11, k + 1 }; str(x, sets[k]); i(x); }
	i({ 14, 0, 1 }); W nm{ 5, 5 }; str(nm, "GLSL.std.450"); i(nm); i({ 19, 5 }); i({ 33, 6, 5 }); i({ 22, 7, 32 }); i({ 43, 7, 8, R->u32() }); i({ 54, 5, 9, 0, 6 }); i({ 248, 10 }); uint32_t next = 11;
	for (unsigned k = 0; k < 25; ++k) { uint32_t set = R->range(1, 4), no = R->chance(80) ? R->below(set == 1 ? 84 : 210) : R->u32(); W x{ 12, 7, next, set, no }; for (unsigned a = R->below(4); a > 0; --a) x.push_back(R->chance(60) ? 8 : R->range(8, next)); ++next; i(x); }
	i({ 253 }); i({ 56 }); w[3] = next; return w;
}
int main(int, char** av)
{
	watchdog(850); Sink o(av[1]); out = &o; auto lines = readLines(av[2]); for (auto& l : readLines(av[3])) frags.push_back(parse(l)); Rng r(strtoull(av[4], nullptr, 10)); R = &r; unsigned n1 = atoi(av[5]), n2 = atoi(av[6]), n3 = atoi(av[7]), per = atoi(av[8]);
	HeapAllocator ga; Grammar gg(&ga); gram = &gg; std::vector<Deriv> D; for (auto& l : lines) { J j = parse(l); D.push_back({ unsigned(j.a[0].i), int(j.a[1].i), j.a[2] }); }
	for (size_t k = D.size(); k > 1; --k) std::swap(D[k - 1], D[r.below(unsigned(k))]);
	for (size_t k = 0; k < D.size();) { Compose c; for (unsigned x = 0; x < per && k < D.size(); ++x) c.add(D[k++]); fromWords(c.words(false), false); }
	for (unsigned k = 0; k < n1; ++k) { Compose c; unsigned len = r.range(2, 20); for (unsigned x = 0; x < len; ++x) c.add(r.pick(D)); fromWords(c.words(false), false); }
	for (unsigned k = 0; k < n2; ++k) { Raw b; b.strs = { "main", "mai", "main2", "a", "abcd", "abcdefgh", "x.y", "_9", "a_name_of_many_characters_and_more_of_it_than_any_small_buffer_might_hold" }; fromWords(b.words(r.range(1, 12)), true); }
	for (unsigned k = 0; k < n1 / 3; ++k) fromWords(extended(), true);
	for (unsigned k = 0; k < n3; ++k) built(40);
}
