// arrays.cpp <out> <vec-scripts> <str-scripts> <seed> <sessions> <ops>
#include "vt.h"
#include "spvgentwo/Vector.h"
#include "spvgentwo/String.h"
using namespace vt;
using namespace spvgentwo;

static int g_live = 0, g_bad = 0;
struct Elem
{
	int v; unsigned magic;
	Elem(int x = 0) : v(x), magic(0xC0FFEEu) { ++g_live; }
	Elem(const Elem& o) : v(o.v), magic(0xC0FFEEu) { if (o.magic != 0xC0FFEEu) ++g_bad; ++g_live; }
	Elem(Elem&& o) noexcept : v(o.v), magic(0xC0FFEEu) { if (o.magic != 0xC0FFEEu) ++g_bad; ++g_live; }
	Elem& operator=(const Elem& o) { if (o.magic != 0xC0FFEEu || magic != 0xC0FFEEu) ++g_bad; v = o.v; return *this; }
	Elem& operator=(Elem&& o) noexcept { if (o.magic != 0xC0FFEEu || magic != 0xC0FFEEu) ++g_bad; v = o.v; return *this; }
	~Elem() { if (magic != 0xC0FFEEu) ++g_bad; magic = 0xDEADu; --g_live; }
};

struct Op { std::string o; int l, i, n; std::vector<int> t; };
static Op decode(const J& st) { Op c{ st[0].s, st[1].s == "a" ? 0 : 1, int(st[2].i), int(st[3].i), {} }; for (auto& k : st[4].a) c.t.push_back(int(k.i)); return c; }

struct VecSession
{
	Sink& out; Alloc al; Vector<Elem> a{ &al }, b{ &al };
	explicit VecSession(Sink& s) : out(s) { g_live = 0; g_bad = 0; }
	static std::string proj(Vector<Elem>& x)
	{
		std::vector<int> f; size_t k = 0; for (auto& e : x) { f.push_back(e.v); if (++k > 300) break; }
		for (size_t i = 0; i < f.size() && i < x.size(); ++i) if (x[i].v != f[i] || x[i].magic != 0xC0FFEEu) ++g_bad;
		Obj o; o.raw("f", nums(f)).num("n", x.size()).flag("e", x.empty()).num("cap", x.capacity());
		if (!x.empty()) o.num("h", x.front().v).num("t", x.back().v);
		return o.done();
	}
	void op(const Op& c)
	{
		auto& x = c.l == 0 ? a : b; auto& y = c.l == 0 ? b : a; std::vector<Elem> tmp; 
		Obj o; o.str("ev", "op").str("kind", "vec").str("op", c.o).str("l", c.l == 0 ? "a" : "b").num("i", c.i).num("n", c.n).raw("t", nums(c.t));
		int extra;
		{
			std::vector<Elem> t(c.t.begin(), c.t.end()); extra = int(t.size());
			if (c.o == "eb") { Elem* r = x.emplace_back(c.t[0]); o.num("ret", r && r == &x.back() ? r->v : -7); }
			else if (c.o == "eo") { Elem* r = x.emplace_back(x[c.i]); o.num("ret", r && r == &x.back() ? r->v : -7); }
			else if (c.o == "no") { int k = c.t[0]; auto* r = c.n == 1 ? x.insert(c.i, x[k]) : x.insert(c.i, x.data() + k, c.n); o.num("own", k).num("ret", r ? int(r - x.begin()) : -1); }
			else if (c.o == "ro") { o.num("ret", x.resize(c.n, &x[c.i])); }
			else if (c.o == "ea") { if (c.t.size() == 3) x.emplace_back_args(t[0], t[1], t[2]); else for (auto& e : t) x.emplace_back(e); }
			else if (c.o == "in") { auto* r = t.size() == 1 ? x.insert(c.i, t[0]) : x.insert(c.i, t.data(), t.size()); o.num("ret", r ? int(r - x.begin()) : -1); }
			else if (c.o == "rs") { bool r = c.t[0] == 0 ? x.resize(c.n) : x.resize(c.n, t.data()); o.num("ret", r); }
			else if (c.o == "rv") { o.num("ret", x.reserve(c.n)); }
			else if (c.o == "fl") { if (c.n < 0) x.assign(t[0], c.i); else x.assign(t[0], c.i, c.n); }
			else if (c.o == "aa") { if (t.size() == 2) { Elem q[2] = { t[0], t[1] }; x = q; } else { Elem q[3] = { t[0], t[1], t[2] }; x = q; } }
			else if (c.o == "st") { x[c.i] = t[0]; }
			else if (c.o == "cl") x.clear();
			else if (c.o == "ca") x = y;
			else if (c.o == "sa") { auto& z = x; x = z; }
			else if (c.o == "ma") { x = stdrep::move(y); if (y.size() != 0) ++g_bad; y = Vector<Elem>(&al); }
			else if (c.o == "cc") { Vector<Elem> k(x); Vector<Elem> m(stdrep::move(k)); if (k.size() != 0) ++g_bad; std::vector<int> v; for (auto& e : m) v.push_back(e.v); o.raw("copy", nums(v)); }
			else { fprintf(stderr, "unknown op %s\n", c.o.c_str()); exit(3); }
		}
		o.raw("a", proj(a)).raw("b", proj(b)).num("live", g_live).num("bad", g_bad + int(al.bad)).flag("eq", false).flag("hasheq", false);
		out.line(o.done());
	}
};

struct StrSession
{
	Sink& out; Alloc al; String a{ &al }, b{ &al }; int bad = 0;
	explicit StrSession(Sink& s) : out(s) {}
	static std::vector<int> text(const String& x) { std::vector<int> f; for (size_t i = 0; i < x.size() && i < 300; ++i) f.push_back((unsigned char)x[i]); return f; }
	std::string proj(String& x)
	{
		std::vector<int> f = text(x), it; size_t k = 0;
		if (x.size()) for (char ch : x) { it.push_back((unsigned char)ch); if (++k > 300) break; }
		if (it != f) ++bad;
		Obj o; o.raw("f", nums(f)).num("n", x.size()).flag("e", x.empty()).num("cap", x.capacity());
		bool z = x.size() > 0 && x.capacity() > x.size() && strnlen(x.c_str(), x.capacity()) == x.size();
		o.flag("z", z);
		if (x.size()) o.num("h", (unsigned char)x.front()).num("t", (unsigned char)x.back());
		return o.done();
	}
	void op(const Op& c)
	{
		auto& x = c.l == 0 ? a : b; auto& y = c.l == 0 ? b : a;
		std::vector<int> codes_; std::string t; for (int v : c.t) { int ch = v < 32 ? 'a' + v : v; codes_.push_back(ch); t += char(ch); }
		Obj o; o.str("ev", "op").str("kind", "str").str("op", c.o).str("l", c.l == 0 ? "a" : "b").num("i", c.i).num("n", c.n).raw("t", nums(codes_));
		auto ret = [&](const String& r) { o.raw("copy", nums(text(r))); if (r.size() && (r.capacity() <= r.size() || strnlen(r.c_str(), r.capacity()) != r.size())) ++bad; };
		if (c.o == "eb") { char* r = x.emplace_back(t[0]); o.num("ret", r ? (unsigned char)*r : -7); }
		else if (c.o == "eo") { char* r = x.emplace_back(x[c.i]); o.num("ret", r ? (unsigned char)*r : -7); }
		else if (c.o == "so") { auto& z = x; x += z; }
		else if (c.o == "ao") { if (c.n % 2) x.append(x.c_str() + c.i); else x += x.c_str() + c.i; }
		else if (c.o == "no") { auto* r = x.insert(c.i, x); o.num("own", 0).num("ret", r ? int(r - x.begin()) : -1); }
		else if (c.o == "ea") { if (t.size() == 3) x.emplace_back_args(t[0], t[1], t[2]); else for (char ch : t) x.emplace_back(ch); }
		else if (c.o == "ap") { if (c.n % 2) x += t.c_str(); else x.append(t.c_str()); }
		else if (c.o == "al") { std::string more = t + "zz"; x.append(more.c_str(), t.size()); }
		else if (c.o == "pe") x += y;
		else if (c.o == "pl") x = y + x;
		else if (c.o == "pc") x = y + t.c_str();
		else if (c.o == "in") { auto* r = c.n % 2 ? x.insert(c.i, (t + "zz").c_str(), t.size()) : x.insert(c.i, t.c_str()); o.num("ret", r ? int(r - x.begin()) : -1); }
		else if (c.o == "io") x.insert(c.i, y);
		else if (c.o == "rv") o.num("ret", x.reserve(c.n));
		else if (c.o == "as") x = t.c_str();
		else if (c.o == "su") ret(x.substr(c.i, c.n));
		else if (c.o == "cl") x.clear();
		else if (c.o == "ca") x = y;
		else if (c.o == "sa") { auto& z = x; x = z; }
		else if (c.o == "ma") { x = stdrep::move(y); if (y.size() != 0) ++bad; y = String(&al); }
		else if (c.o == "cc") { String k(x); String m(stdrep::move(k)); if (k.size() != 0) ++bad; ret(m); }
		else if (c.o == "eq") { bool r = x == t.c_str(); String k(&al, t.c_str()); if ((x == k) != r) ++bad; o.num("ret", r); }
		else if (c.o == "ct") { String k(&al, (t + "zz").c_str(), t.size()); ret(k); }
		else { fprintf(stderr, "unknown op %s\n", c.o.c_str()); exit(3); }
		o.raw("a", proj(a)).raw("b", proj(b)).num("live", 0).num("bad", bad + int(al.bad)).flag("eq", a == b);
		o.flag("hasheq", Hash64(Hasher<String>{}(a)) == Hash64(Hasher<String>{}(b)));
		out.line(o.done());
	}
};

int main(int argc, char** argv)
{
	watchdog(240);
	Sink out(argv[1]);
	const char* rs = "{\"ev\":\"reset\",\"op\":\"-\"}";
	for (auto& ln : readLines(argv[2])) { J j = parse(ln); out.line(rs); out.flush(); VecSession s(out); for (auto& st : j.a) s.op(decode(st)); }
	for (auto& ln : readLines(argv[3])) { J j = parse(ln); out.line(rs); out.flush(); StrSession s(out); for (auto& st : j.a) s.op(decode(st)); }
	Rng r(strtoull(argv[4], nullptr, 10)); unsigned sessions = atoi(argv[5]), ops = atoi(argv[6]);
	auto block = [&](unsigned max) { std::vector<int> t; unsigned k = r.range(1, max); for (unsigned i = 0; i < k; ++i) t.push_back(int(r.range(1, 20))); return t; };
	for (unsigned k = 0; k < sessions; ++k)
	{
		out.line(rs); out.flush();
		if (k % 2 == 0)
		{
			VecSession s(out);
			for (unsigned i = 0; i < ops; ++i)
			{
				int l = int(r.below(2)); auto& x = l == 0 ? s.a : s.b; int len = int(x.size()); unsigned p = r.below(100);
				Op c{ "eb", l, 0, 0, block(1) }; bool room = len < 40;
				if (room && p < 21) {}
				else if (room && len && p < 22) { c.o = "eo"; c.i = int(r.below(len)); }
				else if (room && len && p < 24) { c.o = "no"; c.i = int(r.below(len + 2)); int k = int(r.below(len)); c.n = int(r.range(1, len - k)); c.t = { k }; }
				else if (room && len && p < 25) { c.o = "ro"; c.i = int(r.below(len)); c.n = int(r.below(40)); }
				else if (room && p < 45) { c.o = "in"; c.i = int(r.below(len + 2)); c.t = block(6); }
				else if (p < 52) { c.o = "rs"; c.n = int(r.below(30)); if (r.chance(50)) c.t[0] = 0; }
				else if (p < 58) { c.o = "rv"; c.n = int(r.below(50)); c.t = {}; }
				else if (p < 66) { c.o = "fl"; c.i = int(r.below(len + 2)); c.n = int(r.below(8)) - 1; }
				else if (room && p < 70) { c.o = "ea"; c.t = block(3); }
				else if (p < 74) { c.o = "aa"; c.t = { 3, 4 }; if (r.chance(50)) c.t.push_back(5); }
				else if (len && p < 80) { c.o = "st"; c.i = int(r.below(len)); }
				else if (p < 82) c.o = "cl";
				else if (p < 88) c.o = "ca";
				else if (p < 90) c.o = "sa";
				else if (p < 94) c.o = "ma";
				else c.o = "cc";
				s.op(c);
			}
		}
		else
		{
			StrSession s(out);
			for (unsigned i = 0; i < ops; ++i)
			{
				int l = int(r.below(2)); auto& x = l == 0 ? s.a : s.b; int len = int(x.size()); unsigned p = r.below(100);
				Op c{ "eb", l, 0, int(r.below(2)), block(1) }; bool room = len < 60;
				if (room && p < 11) {}
				else if (room && len && p < 12) { c.o = "eo"; c.i = int(r.below(len)); }
				else if (room && p < 13) c.o = "so";
				else if (room && len && p < 14) { c.o = "ao"; c.i = int(r.below(len)); }
				else if (room && len && p < 15) { c.o = "no"; c.i = int(r.below(len + 1)); c.n = len; c.t = { 0 }; }
				else if (room && p < 25) { c.o = "ap"; c.t = block(7); }
				else if (room && p < 30) { c.o = "al"; c.t = block(5); }
				else if (room && p < 35) { c.o = "pe"; }
				else if (room && p < 40) { c.o = "pl"; }
				else if (room && p < 45) { c.o = "pc"; c.t = block(5); }
				else if (room && p < 57) { c.o = "in"; c.i = int(r.below(len + 1)); c.t = block(6); }
				else if (room && p < 62) { c.o = "io"; c.i = int(r.below(len + 1)); }
				else if (p < 65) { c.o = "rv"; c.n = int(r.below(80)); }
				else if (p < 72) { c.o = "as"; c.t = block(12); }
				else if (p < 80) { c.o = "su"; c.i = int(r.below(len + 3)); c.n = int(r.range(1, 10)); }
				else if (p < 82) c.o = "cl";
				else if (p < 87) c.o = "ca";
				else if (p < 88) c.o = "sa";
				else if (p < 91) c.o = "ma";
				else if (p < 95) c.o = "cc";
				else { c.o = "eq"; if (r.chance(60)) { c.t.clear(); for (size_t q = 0; q < x.size(); ++q) c.t.push_back((unsigned char)x[q]); if (r.chance(30) && !c.t.empty()) c.t.back() ^= 1; if (r.chance(20) && !c.t.empty()) c.t.pop_back(); if (c.t.empty()) c.t = block(2); } }
				s.op(c);
			}
		}
	}
	return 0;
}
