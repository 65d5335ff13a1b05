// list.cpp <out> <scripts|-> <seed> <random sessions> <ops per session>
// Replays list scripts (generated by TLC) and random histories on the real List and records every step.
#include "vt.h"
#include "spvgentwo/List.h"
#include "common/HeapList.h"
using namespace vt;
using namespace spvgentwo;

static int g_live = 0, g_bad = 0;
struct Elem
{
	int v; unsigned magic;
	Elem(int x = 0) : v(x), magic(0xC0FFEEu) { ++g_live; }
	Elem(const Elem& o) : v(o.v), magic(0xC0FFEEu) { if (o.magic != 0xC0FFEEu) ++g_bad; ++g_live; }
	Elem(Elem&& o) noexcept : v(o.v), magic(0xC0FFEEu) { if (o.magic != 0xC0FFEEu) ++g_bad; ++g_live; }
	Elem& operator=(const Elem& o) { if (o.magic != 0xC0FFEEu || magic != 0xC0FFEEu) ++g_bad; v = o.v; return *this; }
	Elem& operator=(Elem&& o) noexcept { if (o.magic != 0xC0FFEEu || magic != 0xC0FFEEu) ++g_bad; v = o.v; return *this; }
	~Elem() { if (magic != 0xC0FFEEu) ++g_bad; magic = 0xDEADu; --g_live; }
	bool operator==(const Elem& o) const { return v == o.v; }
	bool operator!=(const Elem& o) const { return v != o.v; }
	bool operator==(int o) const { return v == o; }
};

using L = List<Elem>;
using E = Entry<Elem>;
struct Op { std::string o; int l, i, v; };

struct Session
{
	Sink& out; Alloc al; L a{ &al }, b{ &al }; std::vector<E*> det;
	explicit Session(Sink& s) : out(s) { g_live = 0; g_bad = 0; }
	L& get(int x) { return x == 0 ? a : b; }
	int id(E* e) { auto it = al.live.find(e); return it == al.live.end() ? -1 : it->second.second; }
	std::string node(E* e) { return "[" + n(id(e)) + "," + n((**e).v) + "]"; }
	std::string proj(L& x)
	{
		std::vector<std::string> f, r; size_t cap = 200;
		for (auto it = x.begin(); it != x.end() && f.size() < cap; ++it) f.push_back(node(it.entry()));
		for (auto it = x.last(); it != nullptr && r.size() < cap; --it) r.push_back(node(it.entry()));
		Obj o; o.raw("f", arr(f)).raw("r", arr(r)).num("n", x.size()).flag("e", x.empty());
		if (!x.empty()) o.num("h", x.front().v).num("t", x.back().v);
		return o.done();
	}
	static int index(L& x, E* e) { int i = 0; for (auto it = x.begin(); it != x.end() && i < 200; ++it, ++i) if (it.entry() == e) return i; return -1; }
	void finish(Obj& o)
	{
		o.raw("a", proj(a)).raw("b", proj(b)).num("live", g_live).num("bad", g_bad + int(al.bad)).flag("eq", a == b);
		out.line(o.done());
	}
	void op(const Op& c)
	{
		L& x = get(c.l); L& y = get(1 - c.l);
		Obj o; o.str("ev", "op").str("op", c.o).str("l", c.l == 0 ? "a" : "b").num("i", c.i).num("v", c.v);
		if (c.o == "eb") { Elem& r = x.emplace_back(c.v); o.num("ret", &r == &x.back() ? index(x, x.lastEntry()) : -7); }
		else if (c.o == "ef") { Elem& r = x.emplace_front(c.v); o.num("ret", &r == &x.front() ? 0 : -7); }
		else if (c.o == "ib") { auto* r = x.insert_before(x.begin() + unsigned(c.i), c.v); o.num("ret", index(x, r)); }
		else if (c.o == "ia") { auto* r = x.insert_after(x.begin() + unsigned(c.i), c.v); o.num("ret", index(x, r)); }
		else if (c.o == "er") { auto* r = x.erase(x.begin() + unsigned(c.i)); o.num("ret", r ? index(x, r) : -1); }
		else if (c.o == "ed") { auto p = x.begin() + unsigned(c.i); det.push_back(p.entry()); auto* r = x.erase(p, false); o.num("ret", r ? index(x, r) : -1); }
		else if (c.o == "ap") { E* e = det[c.i - 1]; det.erase(det.begin() + (c.i - 1)); auto* r = x.append_entry(e); o.num("ret", index(x, r)); }
		else if (c.o == "pp") { E* e = det[c.i - 1]; det.erase(det.begin() + (c.i - 1)); auto* r = x.prepend_entry(e); o.num("ret", index(x, r)); }
		else if (c.o == "pb") { Elem r = x.pop_back(); o.num("ret", r.v); }
		else if (c.o == "pf") { Elem r = x.pop_front(); o.num("ret", r.v); }
		else if (c.o == "cl") { x.clear(); }
		else if (c.o == "ca") { x = y; }
		else if (c.o == "sa") { L& z = x; if (c.v % 2) x = z; else x = stdrep::move(z); }
		else if (c.o == "ma") { x = stdrep::move(y); y.setAllocator(&al); }
		else if (c.o == "mt") { L t(stdrep::move(x)); x.setAllocator(&al); if (!x.empty() || x.size() != 0) ++g_bad; x = stdrep::move(t); x.setAllocator(&al); }
		else if (c.o == "cc") { L t(x); std::vector<int> v; for (Elem& e : t) v.push_back(e.v); std::vector<int> rv; for (auto it = t.last(); it != nullptr; --it) rv.insert(rv.begin(), (*it).v); if (rv != v || t.size() != v.size()) ++g_bad; if (!(t == x) || (t != x)) ++g_bad; o.raw("copy", nums(v)); }
		else if (c.o == "fi")
		{
			auto it = x.find(c.v); int r = it == nullptr ? -1 : index(x, it.entry());
			auto jt = x.find_if([&](const Elem& e) { return e.v == c.v; }); int s = jt == nullptr ? -1 : index(x, jt.entry());
			o.num("ret", r).num("pred", s).flag("has", x.contains(c.v));
		}
		else { fprintf(stderr, "unknown op %s\n", c.o.c_str()); exit(3); }
		finish(o);
	}
	~Session() { for (E* e : det) al.destruct(e); }
};

int main(int argc, char** argv)
{
	watchdog(240);
	Sink out(argv[1]);
	if (std::string(argv[2]) != "-")
		for (auto& ln : readLines(argv[2]))
		{
			J j = parse(ln);
			out.line("{\"ev\":\"reset\",\"op\":\"-\"}"); out.flush();
			Session s(out);
			for (auto& st : j.a) s.op({ st[0].s, st[1].s == "a" ? 0 : 1, int(st[2].i), int(st[3].i) });
		}
	Rng r(strtoull(argv[3], nullptr, 10));
	unsigned sessions = atoi(argv[4]), ops = atoi(argv[5]);
	for (unsigned k = 0; k < sessions; ++k)
	{
		out.line("{\"ev\":\"reset\",\"op\":\"-\"}"); out.flush();
		Session s(out);
		for (unsigned i = 0; i < ops; ++i)
		{
			int l = int(r.below(2)); L& x = s.get(l); int len = int(x.size()); int v = int(r.range(1, 9));
			unsigned p = r.below(100); Op c{ "eb", l, 0, v };
			if (len < 12 && p < 14) c.o = "eb";
			else if (len < 12 && p < 24) c.o = "ef";
			else if (len && len < 12 && p < 36) { c.o = "ib"; c.i = int(r.below(len)); }
			else if (len && len < 12 && p < 48) { c.o = "ia"; c.i = int(r.below(len)); }
			else if (len && p < 56) { c.o = "er"; c.i = int(r.below(len)); }
			else if (len && p < 62 && s.det.size() < 3) { c.o = "ed"; c.i = int(r.below(len)); }
			else if (s.det.size() && p < 67) { c.o = "ap"; c.i = int(r.range(1, unsigned(s.det.size()))); }
			else if (s.det.size() && p < 72) { c.o = "pp"; c.i = int(r.range(1, unsigned(s.det.size()))); }
			else if (len && p < 76) c.o = "pb";
			else if (len && p < 80) c.o = "pf";
			else if (p < 81) c.o = "cl";
			else if (p < 86) c.o = "ca";
			else if (p < 88) c.o = "sa";
			else if (p < 90) c.o = "ma";
			else if (p < 92) c.o = "mt";
			else if (p < 95) c.o = "cc";
			else c.o = "fi";
			s.op(c);
		}
	}
	return 0;
}
