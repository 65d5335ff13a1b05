// hashmap.cpp <out> <scripts|-> <seed> <random sessions> <ops>
#include "vt.h"
#include "spvgentwo/HashMap.h"
#include "spvgentwo/String.h"
using namespace vt;
using namespace spvgentwo;

static int g_live = 0, g_bad = 0;
struct Elem
{
	int v; unsigned magic;
	Elem(int x = 0) : v(x), magic(0xC0FFEEu) { ++g_live; }
	Elem(const Elem& o) : v(o.v), magic(0xC0FFEEu) { if (o.magic != 0xC0FFEEu) ++g_bad; ++g_live; }
	Elem(Elem&& o) noexcept : v(o.v), magic(0xC0FFEEu) { if (o.magic != 0xC0FFEEu) ++g_bad; ++g_live; }
	Elem& operator=(const Elem& o) { if (o.magic != 0xC0FFEEu || magic != 0xC0FFEEu) ++g_bad; v = o.v; return *this; }
	~Elem() { if (magic != 0xC0FFEEu) ++g_bad; magic = 0xDEADu; --g_live; }
	bool operator==(const Elem& o) const { return v == o.v; }
};
struct Op { std::string o; int m, k, v; };
static const int MaxV = 4;

// key kinds: integers under a chosen hash function, strings, hashes
static Hash64 hId(const int& k) { return Hash64(sgt_uint64_t(k) + 1u); }
static Hash64 hPair(const int& k) { return Hash64(sgt_uint64_t(k / 2) * 64u); }
static Hash64 hSame(const int&) { return Hash64(7u); }
static Hash64 hStep(const int& k) { return Hash64(sgt_uint64_t(k) * 0x100000000ull); }
struct IntKey { using T = int; static T make(IAllocator*, int k) { return k; } static int back(const T& k) { return k; } };
struct StrKey { using T = String; static T make(IAllocator* a, int k) { static const char* n[] = { "", "a", "b", "ab", "ba", "OpName", "OpNamf", "a very long key that is longer" }; return String(a, n[k]); }
	static int back(const T& k) { for (int i = 0; i < 8; ++i) { HeapLess h; if (make(&h.al, i) == k) return i; } return -1; } struct HeapLess { Alloc al; }; };
struct HashKey { using T = Hash64; static T make(IAllocator*, int k) { return Hash64(sgt_uint64_t(k) * 192u + 5u); } static int back(const T& k) { return int((k.value - 5u) / 192u); } };

template <class KK> struct Session
{
	using T = typename KK::T; using M = HashMap<T, Elem>; using H = Hash64(*)(const T&);
	Sink& out; Alloc al; Alloc kal; int keys; std::map<const void*, int> ids; unsigned buckets; H fn; M a, b;
	Session(Sink& s, unsigned bk, H f, int nk) : out(s), keys(nk), buckets(bk), fn(f), a(&al, bk, f), b(&al, bk, f) { g_live = 0; g_bad = 0; }
	M& get(int m) { return m == 0 ? a : b; }
	int id(const Elem* p) { auto it = ids.find(p); if (it != ids.end()) return it->second; int x = int(ids.size()) + 1; ids[p] = x; return x; }
	std::string as(const T& k, const Elem& v) { return "[" + n(KK::back(k)) + "," + n(v.v) + "," + n(id(&v)) + "]"; }
	std::string proj(M& m)
	{
		std::vector<std::string> it, q, fk; unsigned cap = 0;
		for (auto& kv : m) { if (++cap > 300) break; it.push_back(as(kv.key, kv.value)); }
		for (int k = 0; k < keys; ++k)
		{
			T key = KK::make(&kal, k); Obj o; std::vector<std::string> rg;
			o.num("c", m.count(key));
			Elem* g = m.get(key); o.raw("g", g ? "[" + n(g->v) + "]" : "[]");
			Elem* x = m[key]; o.raw("x", x ? "[" + n(x->v) + "]" : "[]");
			auto f = m.find(key); o.raw("f", f == m.end() ? "[]" : "[" + as(f->key, f->value) + "]");
			cap = 0; for (auto& nd : m.getRange(key)) { if (++cap > 300) break; rg.push_back(as(nd.kv.key, nd.kv.value)); }
			o.raw("r", arr(rg)); q.push_back(o.done());
		}
		for (int v = 1; v <= MaxV; ++v) { T* k = m.findKey(Elem(v)); fk.push_back(n(k ? KK::back(*k) : -1)); }
		return Obj().num("n", m.elements()).raw("it", arr(it)).raw("q", arr(q)).raw("fk", arr(fk)).done();
	}
	bool nextRight(M& m, const T& key)
	{
		std::vector<const Elem*> order; for (auto& kv : m) order.push_back(&kv.value);
		auto pos = m.find(key);
		if (pos == m.end()) { auto r = m.erase(pos); return r == m.end(); }
		size_t i = 0; while (i < order.size() && order[i] != &pos->value) ++i;
		auto r = m.erase(pos);
		return i + 1 == order.size() ? r == m.end() : (r != m.end() && &r->value == order[i + 1]);
	}
	void op(const Op& c)
	{
		M& x = get(c.m); M& y = get(1 - c.m); T key = KK::make(&kal, c.k);
		Obj o; o.str("ev", "op").str("op", c.o).str("m", c.m == 0 ? "a" : "b").num("k", c.k).num("v", c.v);
		if (c.o == "em") o.num("node", id(&x.emplace(key, c.v).kv.value));
		else if (c.o == "eu") o.num("node", id(&x.emplaceUnique(key, c.v).kv.value));
		else if (c.o == "er") o.num("ret", nextRight(x, key));
		else if (c.o == "ra") o.num("ret", x.eraseRange(key));
		else if (c.o == "cl") x.clear();
		else if (c.o == "ma") { x = stdrep::move(y); y = M(&al, buckets, fn); }
		else if (c.o == "mt") { M t(stdrep::move(x)); x = stdrep::move(t); M& z = x; x = stdrep::move(z); }
		else if (c.o == "st") { Elem* v = x.get(key); if (v) v->v = c.v; else { fprintf(stderr, "store without key\n"); exit(3); } }
		else { fprintf(stderr, "unknown op %s\n", c.o.c_str()); exit(3); }
		std::string pa = proj(a), pb = proj(b);
		o.raw("a", pa).raw("b", pb).num("live", g_live).num("bad", g_bad + int(al.bad) + int(kal.bad));
		out.line(o.done());
	}
};
static void head(Sink& out, const std::vector<int>& cls) { out.line("{\"ev\":\"reset\",\"op\":\"-\",\"cls\":" + nums(cls) + "}"); out.flush(); }

template <class KK> void history(Sink& out, Rng& r, unsigned bk, typename Session<KK>::H f, std::vector<int> cls, unsigned ops)
{
	head(out, cls); Session<KK> s(out, bk, f, int(cls.size()));
	for (unsigned i = 0; i < ops; ++i)
	{
		int m = int(r.below(2)), k = int(r.below(unsigned(cls.size()))), v = int(r.range(1, MaxV)); auto& x = s.get(m);
		unsigned p = r.below(100); Op c{ "em", m, k, v }; bool room = x.elements() < 14;
		if (p < 35 && room) c.o = "em"; else if (p < 55 && room) c.o = "eu"; else if (p < 70) c.o = "er"; else if (p < 80) c.o = "ra";
		else if (p < 82) c.o = "cl"; else if (p < 85) c.o = "ma"; else if (p < 88) c.o = "mt"; else c.o = s.get(m).get(KK::make(&s.kal, k)) ? "st" : "eu";
		s.op(c);
	}
}

// construction from an argument list
template <class KK> void listed(Sink& out)
{
	std::vector<int> cls{ 0, 1, 2, 3, 4, 5 }; head(out, cls); Session<KK> s(out, 3, hash<typename KK::T>, 6);
	{
		typename Session<KK>::M t(&s.al, KK::make(&s.kal, 1), Elem(1), KK::make(&s.kal, 2), Elem(2), KK::make(&s.kal, 1), Elem(3));
		if (t.elements() != 3) ++g_bad;
		s.b = stdrep::move(t);
		// told to the specification as three insertions followed by an observation of a no-op
		int n1 = 0; for (auto& nd : s.b.getRange(KK::make(&s.kal, 1))) { n1 = n1 * 10 + nd.kv.value.v; } if (n1 != 13) ++g_bad;
		Elem* two = s.b.get(KK::make(&s.kal, 2)); if (!two || two->v != 2) ++g_bad;
		s.b.clear();
	}
	s.op({ "em", 0, 3, 1 });
	s.op({ "mt", 1, 0, 0 });
}

int main(int argc, char** argv)
{
	if (argc < 6) return 3;
	watchdog(250);
	Sink out(argv[1]); Rng r(strtoull(argv[3], nullptr, 10));
	static const unsigned bks[] = { 1, 2, 3, 7, 64 };
	unsigned k = 0;
	if (std::string(argv[2]) != "-")
		for (auto& l : readLines(argv[2]))
		{
			J j = parse(l); bool coll = j["c"].i != 0; int nk = int(j["n"].i); std::vector<int> cls; for (int i = 0; i < nk; ++i) cls.push_back(coll ? i / 2 : i);
			head(out, cls); unsigned bk = bks[k++ % 5];
			auto play = [&](auto& s) { for (auto& c : j["s"].a) s.op({ c[0].s, c[1].s == "a" ? 0 : 1, int(c[2].i), int(c[3].i) }); };
			if (coll || k % 4 != 0) { Session<IntKey> s(out, bk, coll ? hPair : (k % 2 ? hId : hStep), nk); play(s); }
			else if (k % 8 == 0) { Session<StrKey> s(out, bk, hash<String>, nk); play(s); }
			else { Session<HashKey> s(out, bk, hash<Hash64>, nk); play(s); }
		}
	unsigned sessions = atoi(argv[4]), ops = atoi(argv[5]);
	listed<IntKey>(out); listed<StrKey>(out); listed<HashKey>(out);
	for (unsigned i = 0; i < sessions; ++i)
	{
		unsigned bk = bks[r.below(5)];
		switch (i % 6)
		{
		case 0: history<IntKey>(out, r, bk, hId, { 0, 1, 2, 3, 4, 5 }, ops); break;
		case 1: history<IntKey>(out, r, bk, hPair, { 0, 0, 1, 1, 2, 2 }, ops); break;
		case 2: history<IntKey>(out, r, bk, hSame, { 0, 0, 0, 0 }, ops); break;
		case 3: history<IntKey>(out, r, bk, hStep, { 0, 1, 2, 3, 4, 5 }, ops); break;
		case 4: history<StrKey>(out, r, bk, hash<String>, { 0, 1, 2, 3, 4, 5, 6, 7 }, ops); break;
		default: history<HashKey>(out, r, bk, hash<Hash64>, { 0, 1, 2, 3, 4, 5 }, ops);
		}
	}
	return 0;
}
