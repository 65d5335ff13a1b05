// Writers and readers of files: histories from the specification, random ones, modules written through them.
#include "prog.h"
#include "common/BinaryFileReader.h"
#include "common/BinaryFileWriter.h"
#include "common/BinaryVectorWriter.h"
#include "common/ExternalMemoryAllocator.h"
#include <map>
#include <memory>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace vt; using namespace spvgentwo;
static Sink* out; static Rng* R; static std::string dir; static const Grammar* gram;
static const char* const Names[] = { "a", "b", "odd", "none" };
static std::string slurp(const std::string& p, bool& there) { std::string s; FILE* f = fopen(p.c_str(), "rb"); there = f != nullptr; if (!f) return s; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); return s; }
static std::string bytes(const std::string& s) { std::string r = "["; for (unsigned char c : s) { if (r.size() > 1) r += ","; r += std::to_string((unsigned)c); } return r + "]"; }
static std::string word(unsigned w) { std::string s; for (int k = 0; k < 4; ++k) s += char(w >> (8 * k)); return bytes(s); }
static std::string wordHex(const std::vector<uint32_t>& v) { std::string s = "\""; for (auto w : v) { char b[12]; snprintf(b, sizeof b, "%08x", w); s += b; } return s + "\""; }
static std::map<std::string, std::string> last;
static std::string files(bool all)
{
	std::string r = "["; for (auto* nm : Names) { bool there; std::string s = slurp(dir + "/" + nm, there); std::string t = there ? bytes(s) : "[-1]"; if (!all && last[nm] == t) continue; last[nm] = t; if (r.size() > 1) r += ","; r += std::string("[\"") + nm + "\"," + t + "]"; } return r + "]";
}
static void put(const char* nm, const std::string& s) { FILE* f = fopen((dir + "/" + nm).c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
struct Session
{
	HeapAllocator heap; std::unique_ptr<char[]> room; std::unique_ptr<ExternalMemoryAllocator> ext; std::unique_ptr<BinaryFileWriter> w; std::unique_ptr<BinaryFileReader> r; bool bounded = false; std::string paths[1];
	Session() { for (auto* nm : Names) unlink((dir + "/" + nm).c_str()); }
	void begin() { out->line(Obj().str("ev", "begin").raw("files", files(true)).done()); }
	IAllocator* alloc() { bounded = false; if (!R->chance(15)) return &heap; bounded = true; size_t k = R->range(8, 200); room.reset(new char[k]); ext.reset(new ExternalMemoryAllocator(room.get(), k)); return ext.get(); }
	void step(const std::string& op, const std::string& path, unsigned long off, unsigned long len, unsigned x)
	{
		std::string full = dir + "/" + path; const char* p = path.empty() ? nullptr : full.c_str(); Obj o; o.str("ev", op); static const unsigned sizes[] = { 0, 1, 3, 2048 };
		if (op == "wnew") { IAllocator* a = alloc(); if (R->chance(50)) w.reset(new BinaryFileWriter(*a, p)); else w.reset(new BinaryFileWriter(*a, p, sizes[R->below(4)])); o.str("path", path).flag("ret", *w); }
		else if (op == "open") o.str("path", path).flag("ret", w->open(p));
		else if (op == "put") o.raw("word", word(x)).flag("ret", w->put(x)).flag("bounded", bounded);
		else if (op == "close") w->close(); else if (op == "wdrop") { w.reset(); }
		else if (op == "rnew") { if (off || len || R->chance(50)) r.reset(new BinaryFileReader(heap, p, off, len)); else r.reset(new BinaryFileReader(heap, p)); o.str("path", path).num("off", off).num("len", len).flag("ret", *r).flag("truth", *r); }
		else if (op == "read") { bool ok = off || len || R->chance(50) ? r->read(p, off, len) : r->read(p); o.str("path", path).num("off", off).num("len", len).flag("ret", ok).flag("truth", *r); }
		else if (op == "get") { unsigned v = 0; bool ok = r->get(v); o.flag("ret", ok).raw("word", word(v)); }
		o.flag("isopen", w != nullptr && w->isOpen()); out->line(o.raw("files", files(false)).done());
	}
};
static void script(const J& s)
{
	Session z; put("odd", std::string("\1\2\3\4\5\6")); put("a", "\t\t\t\t\b\b\b\b\a\a\a\a"); z.begin();
	for (auto& x : s.a) { const std::string& op = x.a[0].s; z.step(op, x.size() > 1 && op != "put" ? x.a[1].s : "", x.size() > 2 ? x.a[2].i : 0, x.size() > 3 ? x.a[3].i : 0, op == "put" ? unsigned(x.a[1].a[0].i) | 1u << 8 | 2u << 16 | 3u << 24 : 0); }
}
static void random(unsigned steps)
{
	Session z; std::string s; unsigned k = R->below(40); for (unsigned i = 0; i < k; ++i) s += char(R->below(256)); if (R->chance(70)) put("odd", s); if (R->chance(30)) put("b", ""); if (R->chance(50)) put("a", std::string(4 * R->below(20), 'x')); z.begin();
	static const char* const P[] = { "a", "b", "odd", "dir", "nowhere/x", "", "none" }; bool sure = false; std::string open;
	for (unsigned i = 0; i < steps; ++i)
	{
		unsigned c = R->below(100); unsigned word = R->chance(20) ? (R->chance(50) ? 0u : ~0u) : unsigned(R->next());
		if (c < 10) { if (!z.w) { z.step("wnew", P[R->below(2) ? R->below(2) : R->below(6)], 0, 0, 0); } else if (R->chance(50)) z.step("wdrop", "", 0, 0, 0); else z.step("close", "", 0, 0, 0); }
		else if (c < 20) { if (z.w) z.step("open", P[R->below(2) ? R->below(2) : R->below(6)], 0, 0, 0); }
		else if (c < 50) { if (z.w) for (unsigned q = R->chance(10) ? R->below(60) : 1; q--;) z.step("put", "", 0, 0, R->chance(80) ? unsigned(R->next()) : word); }
		else if (c < 65)
		{
			std::string p = P[R->below(7)]; if (z.w && z.w->isOpen() && (p == "a" || p == "b" || p == "odd")) { z.step(R->chance(50) ? "close" : "wdrop", "", 0, 0, 0); if (!z.w) {} }
			unsigned long off = R->chance(50) ? 0 : R->below(R->chance(80) ? 12 : 90), len = R->chance(50) ? 0 : R->chance(80) ? 4 * R->below(6) : R->below(60); if (p == "dir" && off % 4 == 3 && !len) off = 0; z.step(z.r && R->chance(60) ? "read" : "rnew", p, off, len, 0); sure = *z.r;
		}
		else if (z.r && sure) z.step("get", "", 0, 0, 0);
	}
	if (z.w) z.step("wdrop", "", 0, 0, 0);
}
// takes `at` words; refuses the next one, or all further ones
struct Refuser : IWriter { std::vector<uint32_t> v; size_t at; bool once, asked = false; Refuser(size_t a, bool o) : at(a), once(o) {} bool put(unsigned int x) override { if (asked) return once; if (v.size() >= at) { asked = true; return false; } v.push_back(x); return true; } };
static void module(unsigned size)
{
	HeapAllocator al; Module m(&al); Prog p(m, *R); p.random(size); m.finalize(gram);
	VecWriter w; m.write(w); std::string f = dir + "/m.spv"; bool a; { BinaryFileWriter fw(al, f.c_str()); a = m.write(fw); } std::vector<uint32_t> v; v.reserve(w.v.size()); BinaryVectorWriter<std::vector<uint32_t>> vw(v); bool b = m.write(vw);
	bool there; std::string s = slurp(f, there); std::vector<uint32_t> fv(s.size() / 4); if (!fv.empty()) memcpy(fv.data(), s.data(), fv.size() * 4); if (s.size() % 4) fv.push_back(0xbadu);
	std::vector<uint32_t> back; bool c = false; { Module n(&al); BinaryFileReader rd(al, f.c_str()); c = n.read(rd, *gram); BinaryFileWriter fw(al, (f + "2").c_str()); c = c && n.write(fw); } s = slurp(f + "2", there); back.resize(s.size() / 4); if (!back.empty()) memcpy(back.data(), s.data(), back.size() * 4);
	out->line(Obj().str("ev", "module").raw("words", wordHex(w.v)).raw("file", wordHex(fv)).raw("vector", wordHex(v)).raw("back", wordHex(back)).flag("fileret", a).flag("vectorret", b).flag("readret", c).done());
	for (unsigned k = 0; k < 60; ++k)
	{
		size_t at = k < 12 ? k : k == 12 ? w.v.size() : k == 13 ? w.v.size() - 1 : R->below(w.v.size() + 3); Refuser rf(at, R->chance(50)); bool ok = m.write(rf);
		out->line(Obj().str("ev", "refused").num("at", (long)at).num("words", (long)w.v.size()).num("taken", (long)rf.v.size()).flag("same", rf.v.size() <= w.v.size() && std::equal(rf.v.begin(), rf.v.end(), w.v.begin())).flag("ret", ok).done());
	}
	unlink(f.c_str()); unlink((f + "2").c_str());
}
int main(int, char** av)
{
	watchdog(850); Sink o(av[1]); out = &o; auto lines = readLines(av[2]); dir = av[3]; mkdir(dir.c_str(), 0700); mkdir((dir + "/dir").c_str(), 0700); Rng r(strtoull(av[4], nullptr, 10)); R = &r; HeapAllocator ga; Grammar g(&ga); gram = &g;
	for (auto& l : lines) script(parse(l));
	for (int k = 0, e = atoi(av[5]); k < e; ++k) random(unsigned(r.range(5, 80)));
	{ Session z; z.begin(); } for (int k = 0, e = atoi(av[6]); k < e; ++k) module(unsigned(r.range(3, 60)));
	return 0;
}
