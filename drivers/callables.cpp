// Callables in places, loggers, flags and algorithms on containers.
#include "vt.h"
#include <memory>
#include <array>
#include <algorithm>
#include "common/Callable.h"
#include "common/HeapCallable.h"
#include "common/HeapVector.h"
#include "common/HeapList.h"
#include "common/HeapString.h"
#include "common/HeapHashMap.h"
#include "common/Algorithms.h"
#include "common/ConsoleLogger.h"
#include "spvgentwo/Logger.h"
#include "spvgentwo/Vector.h"
#include "spvgentwo/List.h"
using namespace vt; using namespace spvgentwo;
static Sink* out;

// ------------------------------------------------------------ functors
static std::set<const void*> alive; static int unborn = 0; static int shared[10];
struct Up { std::string s; int operator*() const { return s.empty() ? -1 : atoi(s.c_str() + 30); } };
template <size_t Pad> struct Counting
{
	int tag, count = 0; std::string text; std::array<char, Pad> pad{};
	Counting(int t) : tag(t), text("a functor with memory of its own " + std::to_string(t)) { alive.insert(this); pad[Pad - 1] = char(t); }
	Counting(const Counting& o) : tag(o.tag), count(o.count), text(o.text), pad(o.pad) { if (!alive.count(&o)) ++unborn; alive.insert(this); }
	Counting(Counting&& o) : tag(o.tag), count(o.count), text(std::move(o.text)), pad(o.pad) { if (!alive.count(&o)) ++unborn; alive.insert(this); }
	~Counting() { if (!alive.erase(this)) ++unborn; }
	int give(int x) { if (!alive.count(this) || pad[Pad - 1] != char(tag) || text.size() < 30) ++unborn; ++count; return tag * (Pad > 10 ? 20000 : 10000) + count * 100 + x; }
	int operator()(int x) { return give(x); }
	int operator()(int& r, Up u) { ++r; return give(*u); }
};
using Small = Counting<4>; using Big = Counting<200>;
struct Object { int tag = 0; int call(int x) { ++shared[tag]; return tag * 30000 + shared[tag] * 100 + x; } int callRef(int& r, Up u) { ++r; return call(*u); } };
static Object objects[10];
template <int T> int fn(int x) { return T * 40000 + x; }
template <int T> int fnRef(int& r, Up u) { ++r; return T * 40000 + *u; }
static int (*const fns[])(int) = { nullptr, fn<1>, fn<2>, fn<3>, fn<4>, fn<5>, fn<6>, fn<7>, fn<8>, fn<9> };
static int (*const fnRefs[])(int&, Up) = { nullptr, fnRef<1>, fnRef<2>, fnRef<3>, fnRef<4>, fnRef<5>, fnRef<6>, fnRef<7>, fnRef<8>, fnRef<9> };

struct One { using Sig = int(int); static auto fun(int t) { return fns[t]; } static auto mem() { return &Object::call; } static constexpr int ref = 0; template <class C> static int call(C& c, int x, int&) { return c(x); } };
struct Two { using Sig = int(int&, Up); static auto fun(int t) { return fnRefs[t]; } static auto mem() { return &Object::callRef; } static constexpr int ref = 1; template <class C> static int call(C& c, int x, int& r) { return c(r, Up{ "an argument passed on by value " + std::to_string(x) }); } };

// ------------------------------------------------------------ histories
struct Op { std::string op; int s = 0, d = 0; std::string kind; int tag = 0; };
template <class C, bool Heap, class S> struct Run
{
	Alloc al[3]; std::vector<std::unique_ptr<C>> p; Rng r; int ref = 100;
	Run(unsigned n, uint64_t seed) : p(n + 1), r(seed) {}
	template <class ...A> C* make(int a, A&& ... x) { if constexpr (Heap) { (void)a; return new C(std::forward<A>(x)...); } else return new C(a ? &al[a] : nullptr, std::forward<A>(x)...); }
	C* made(const std::string& k, int t, int a)
	{
		if (k == "obj") { if (r.chance(50)) { const Small f(t); return make(a, f); } return make(a, Small(t)); }
		if (k == "big") { if (r.chance(50)) { const Big f(t); return make(a, f); } return make(a, Big(t)); }
		if (k == "mem") return make(a, &objects[t], S::mem());
		if constexpr (!Heap) { if (r.chance(50)) return new C(make_callable(static_cast<IAllocator*>(&al[a]), S::fun(t))); }
		return make(a, S::fun(t));
	}
	void set(C& c, const std::string& k, int t)
	{
		if (k == "obj") { if (r.chance(50)) { const Small f(t); c = f; } else c = Small(t); }
		else if (k == "big") { if (r.chance(50)) { const Big f(t); c = f; } else c = Big(t); }
		else { auto f = S::fun(t); c = std::move(f); }
	}
	void step(const Op& o)
	{
		Obj ev; ev.str("ev", "st").str("op", o.op).num("s", o.s).num("d", o.d).str("kind", o.kind).num("tag", o.tag).num("a", Heap ? 1 : o.d);
		auto& P = p[o.s];
		if (o.op == "empty") P.reset(o.d == 0 && !Heap ? new C() : make(o.d));
		else if (o.op == "make") P.reset(made(o.kind, o.tag, o.d));
		else if (o.op == "copy") p[o.d].reset(new C(std::as_const(*P)));
		else if (o.op == "move") p[o.d].reset(new C(std::move(*P)));
		else if (o.op == "assign") { C& x = (*p[o.d] = std::as_const(*P)); if (&x != p[o.d].get()) ++unborn; }
		else if (o.op == "massign") { C& x = (*p[o.d] = std::move(*P)); if (&x != p[o.d].get()) ++unborn; }
		else if (o.op == "set") set(*P, o.kind, o.tag);
		else if (o.op == "reset") P->reset();
		else if (o.op == "del") P.reset();
		else { int x = int(r.below(90)); ev.num("x", x).num("x0", ref); int v = S::call(*P, x, ref); ev.num("r", v).num("x1", ref).num("ref", S::ref); }
		std::string can; for (size_t i = 1; i < p.size(); ++i) { if (i > 1) can += ","; can += b(p[i] && bool(*p[i])); }
		out->line(ev.raw("can", "[" + can + "]").num("alive", (long long)alive.size()).flag("counted", !Heap).num("out1", (long long)al[1].live.size()).num("out2", (long long)al[2].live.size()).num("bad", al[1].bad + al[2].bad + unborn).done()); out->flush();
	}
	void begin() { for (auto& x : shared) x = 0; out->line(Obj().str("ev", "begin").num("n", (long long)p.size() - 1).done()); }
	void script(const J& sc) { begin(); for (auto& st : sc.a) { Op o; o.op = st[0].s; o.s = int(st[1].i); if (st.size() > 2) o.d = int(st[2].i); if (st.size() > 3) { o.kind = st[3].s; o.tag = int(st[4].i); } step(o); } end(); }
	void end() { for (int i = 1; i < int(p.size()); ++i) if (p[i]) { Op o; o.op = "del"; o.s = i; step(o); } }
	// st: what is in a place (' ' free, 'v' no allocator, 'n' nothing, 'h' functor)
	void random(unsigned len)
	{
		begin(); int n = int(p.size()) - 1; std::string st(n + 1, ' '); static const char* const K[] = { "obj", "big", "mem", "fn" };
		for (unsigned i = 0; i < len; ++i)
		{
			Op o; o.s = 1 + r.below(n); int d = 1 + r.below(n); bool free = st[o.s] == ' '; char& c = st[o.s];
			if (free) { if (r.chance(25)) { o.op = "empty"; o.d = r.below(3); if (Heap) o.d = 1; c = o.d ? 'n' : 'v'; } else { o.op = "make"; o.d = 1 + (Heap ? 0 : r.below(2)); o.kind = K[r.below(4)]; o.tag = 1 + r.below(9); c = 'h'; } }
			else switch (r.below(12))
			{
			case 0: case 1: o.d = d; if (st[d] == ' ') o.op = "copy"; else o.op = "assign"; st[d] = c; break;
			case 2: o.d = o.s; o.op = "assign"; break;
			case 3: case 4: if (d == o.s) continue; o.d = d; o.op = st[d] == ' ' ? "move" : "massign"; st[d] = c; c = 'v'; break;
			case 5: case 6: if (c == 'v') continue; o.op = "set"; { static const char* const Q[] = { "obj", "big", "fn" }; o.kind = Q[r.below(3)]; } o.tag = 1 + r.below(9); c = 'h'; break;
			case 7: o.op = "reset"; if (c == 'h') c = 'n'; break;
			case 8: o.op = "del"; c = ' '; break;
			default: if (c != 'h') continue; o.op = "call"; break;
			}
			step(o);
		}
		end();
	}
};
// ------------------------------------------------------------ loggers
struct Told { int cb; ILogger* me; LogLevel lv; std::string text; }; static std::vector<Told> told;
template <int N> void hear(ILogger* me, LogLevel lv, const char* f, ...) { char t[500]; va_list a; va_start(a, f); vsnprintf(t, sizeof t, f, a); va_end(a); told.push_back({ N, me, lv, t }); }
static std::string bits(unsigned m) { std::vector<int> v; for (int i = 0; i < 32; ++i) if (m >> i & 1u) v.push_back(i); return nums(v); }
static void loggers(Rng& r)
{
	static const ILogger::Callback cbs[] = { nullptr, hear<1>, hear<2> };
	auto mask = [&] { return r.chance(20) ? 31u : r.chance(15) ? 0u : r.below(32); };
	int cb = r.below(3); unsigned f = mask(); std::unique_ptr<ILogger> lg;
	switch (r.below(3)) { case 0: lg.reset(new ILogger()); cb = 0; f = 31; break; case 1: lg.reset(new ILogger(cbs[cb])); f = 31; break; default: lg.reset(new ILogger(cbs[cb], Flag<LogLevel>(f))); }
	auto state = [&] { out->line(Obj().str("ev", "logger").num("cb", cb).raw("filter", bits(f)).done()); }; state();
	for (unsigned k = 0, e = 4 + r.below(20); k < e; ++k)
	{
		if (r.chance(15)) { cb = r.below(3); lg->setCallback(cbs[cb]); state(); continue; }
		if (r.chance(15)) { f = mask(); lg->setFilter(f); state(); continue; }
		told.clear(); unsigned lv = r.chance(60) ? 1u << r.below(5) : mask(); int x = int(r.u32() >> 4); std::string s(r.below(12), char('a' + r.below(26))); char text[300]; const char* fm = "text %s and %d with %.2f"; double dd = r.below(1000) / 4.0;
		switch (r.below(7))
		{
		case 0: lv = 1; lg->logDebug(fm, s.c_str(), x, dd); break;
		case 1: lv = 2; lg->logInfo(fm, s.c_str(), x, dd); break;
		case 2: lv = 4; lg->logWarning(fm, s.c_str(), x, dd); break;
		case 3: lv = 8; lg->logError(fm, s.c_str(), x, dd); break;
		case 4: lv = 16; lg->logFatal(fm, s.c_str(), x, dd); break;
		default: lg->log(LogLevel(lv), fm, s.c_str(), x, dd);
		}
		snprintf(text, sizeof text, fm, s.c_str(), x, dd);
		std::vector<std::string> g; for (auto& t : told) g.push_back(Obj().num("cb", t.cb).flag("me", t.me == lg.get()).raw("level", bits(unsigned(t.lv))).str("text", t.text).done());
		out->line(Obj().str("ev", "log").raw("level", bits(lv)).str("text", text).raw("got", arr(g)).done());
	}
}
static void console(Rng& r)
{
	unsigned f = r.chance(40) ? 31u : r.below(32); std::unique_ptr<ConsoleLogger> lg; if (r.chance(20)) { lg.reset(new ConsoleLogger()); f = 31; } else lg.reset(new ConsoleLogger(Flag<LogLevel>(f)));
	for (int k = 0; k < 4; ++k)
	{
		unsigned lv = r.chance(80) ? 1u << r.below(5) : r.below(32); int x = int(r.below(1000)); char text[100];
		fflush(stdout); int was = dup(1); FILE* t = tmpfile(); dup2(fileno(t), 1);
		if (r.chance(30)) lg->log(LogLevel(lv), "plain"), snprintf(text, sizeof text, "plain"); else lg->log(LogLevel(lv), "%s is %d", "it", x), snprintf(text, sizeof text, "it is %d", x);
		fflush(stdout); dup2(was, 1); close(was); rewind(t); char got[300]; size_t n = fread(got, 1, sizeof got - 1, t); got[n] = 0; fclose(t);
		std::string g = got, w = std::string(text) + "\n"; bool tail = g.size() >= w.size() && g.substr(g.size() - w.size()) == w;
		out->line(Obj().str("ev", "con").raw("filter", bits(f)).raw("level", bits(lv)).flag("silent", g.empty()).flag("tail", tail).str("pre", tail ? g.substr(0, g.size() - w.size()) : g).done());
	}
}
// ------------------------------------------------------------ flags
enum class Bit : unsigned { None = 0, A = 1, B = 2, C = 4, D = 8, AB = 3, Top = 1u << 31, High = 1u << 30, Mid = 1u << 16 };
static void flags(Rng& r)
{
	auto bit = [&] { static const Bit v[] = { Bit::None, Bit::A, Bit::B, Bit::C, Bit::D, Bit::AB, Bit::Top, Bit::High, Bit::Mid }; return v[r.below(9)]; };
	auto mask = [&] { unsigned m = 0; for (unsigned k = 0, e = r.below(5); k < e; ++k) m |= unsigned(bit()); return m; };
	using F = Flag<Bit>;
	unsigned a = mask(), bm = mask(); std::string op, how; F x(a); const F y(bm); F res(0u); std::string more = "[]";
	switch (r.below(17))
	{
	case 0: op = "or"; how = "|="; (x |= y); res = x; break;
	case 1: op = "and"; how = "&="; (x &= y); res = x; break;
	case 2: op = "xor"; how = "^="; (x ^= y); res = x; break;
	case 3: op = "or"; how = "|= one"; { Bit q = bit(); bm = unsigned(q); (x |= q); res = x; } break;
	case 4: op = "and"; how = "&= one"; { Bit q = bit(); bm = unsigned(q); (x &= q); res = x; } break;
	case 5: op = "xor"; how = "^= one"; { Bit q = bit(); bm = unsigned(q); (x ^= q); res = x; } break;
	case 6: op = "or"; how = "set"; { Bit q = bit(), q2 = bit(), q3 = bit(); bm = unsigned(q) | unsigned(q2) | unsigned(q3); if (r.chance(50)) { bm = unsigned(q); x.set(q); } else x.set(q, q2, q3); res = x; } break;
	case 7: op = "or"; how = "OR"; { Bit q = bit(), q2 = bit(), q3 = bit(); a = unsigned(q); bm = unsigned(q2) | unsigned(q3); res = F::OR(q, q2, q3); } break;
	case 8: op = "and"; how = "AND"; { Bit q = Bit(a), q2 = Bit(bm); res = F::AND(q, q2); } break;
	case 9: op = "par"; how = "XOR"; { Bit q = bit(), q2 = bit(), q3 = bit(); a = unsigned(q); bm = unsigned(bit()); res = F::XOR(q, q2, q3); more = arr({ bits(unsigned(q2)), bits(unsigned(q3)) }); } break;
	case 14: op = "or"; how = "| flags"; res = x | y; break;
	case 15: op = "and"; how = "& flags"; res = x & y; break;
	case 16: op = "xor"; how = "^ flags"; res = x ^ y; break;
	case 10: op = "or"; how = "constructor"; { Bit q = bit(), q2 = bit(), q3 = bit(); a = unsigned(q); bm = unsigned(q2) | unsigned(q3); res = F(q, q2, q3); } break;
	case 11: op = "or"; how = "|"; { Bit q = Bit(bm); res = r.chance(50) ? x | q : q | x; } break;
	case 12: op = "and"; how = "&"; { Bit q = Bit(bm); res = r.chance(50) ? x & q : q & x; } break;
	default: op = "xor"; how = "^"; { Bit q = Bit(bm); res = r.chance(50) ? x ^ q : q ^ x; } break;
	}
	const F& R = res; unsigned m = R.operator unsigned int(); bool any, none, all;
	if (r.chance(50)) { Bit q = Bit(bm); any = R.any(q); none = R.none(q); all = R.all(q); }
	else { Bit q = Bit(bm & 0x0000ffffu), q2 = Bit(bm & 0xffff0000u), z = Bit::None; any = R.any(q, q2); none = R.none(q2, z, q); all = R.all(z, q, q2); }
	if (unsigned(R.operator Bit()) != m) how += " (conversions differ)", m = ~m;
	out->line(Obj().str("ev", "flag").str("op", op).str("how", how).raw("a", bits(a)).raw("b", bits(bm)).raw("more", more).raw("r", bits(m)).flag("any", any).flag("none", none).flag("all", all).flag("empty", R.empty()).flag("yes", R.operator bool()).done());
}
// ------------------------------------------------------------ algorithms
template <template <class> class C> static void algorithms(Rng& r)
{
	Alloc al; 
	{
		C<int> v(&al); std::vector<int> w, o; int m = 1 + int(r.below(4)), k = int(r.below(m)); bool even = r.chance(40);
		for (unsigned i = 0, e = r.below(7); i < e; ++i) { int x = even ? int(r.below(20)) * m + k : int(r.below(60)); if (even && r.chance(20)) x += 1; v.emplace_back(x); w.push_back(x); }
		const C<int>& cv = v; auto p = [m, k](const int& x) { return x % m == k; };
		bool any = algo::any(cv, p), all = algo::all(cv, p), same = false;
		struct Out { int v; Out(int x) : v(x) {} Out(const Out&) = default; Out(Out&&) = default; };
		if (r.chance(50)) { auto t = algo::transform(cv, [m, k](const int& x) -> long { return x * m + k; }); for (auto& x : t) o.push_back(int(x)); same = t.getAllocator() == &al; }
		else { int seen = 0; auto t = algo::transform(v, [&](int& x) { ++seen; return Out(x * m + k); }); for (auto& x : t) o.push_back(x.v); same = t.getAllocator() == &al && seen == int(w.size()); }
		out->line(Obj().str("ev", "alg").raw("v", nums(w)).num("m", m).num("k", k).flag("any", any).flag("all", all).raw("out", nums(o)).flag("same", same).done());
	}
	if (!al.live.empty() || al.bad) { fprintf(stderr, "VT_FAIL algorithms left %zu blocks\n", al.live.size()); abort(); }
}
// ------------------------------------------------------------ variadic functions
static std::vector<int> heard;
template <int T> int vfn(int count, ...) { va_list a; va_start(a, count); int s = T * 1000; heard.clear(); for (int i = 0; i < count; ++i) { int x = va_arg(a, int); heard.push_back(x); s += x; } va_end(a); return s; }
static void variadic(Rng& r)
{
	using V = Callable<int(int, ...)>; int (*const f[])(int, ...) = { nullptr, vfn<1>, vfn<2>, vfn<3> };
	std::vector<std::unique_ptr<V>> p(3); int t[3]; Alloc al;
	for (int i = 0; i < 3; ++i) { t[i] = 1 + r.below(3); if (r.chance(50)) p[i].reset(new V(f[t[i]])); else p[i].reset(new V(&al, f[t[i]])); }
	for (int k = 0; k < 8; ++k)
	{
		int s = r.below(3), d = r.below(3);
		switch (r.below(5))
		{
		case 0: *p[d] = *p[s]; t[d] = t[s]; break;
		case 1: { V tmp(*p[s]); *p[d] = std::move(tmp); t[d] = t[s]; break; }
		case 2: t[d] = 1 + r.below(3); *p[d] = f[t[d]]; break;
		case 3: { V a(*p[s]); V b(std::move(a)); p[d].reset(new V(b)); t[d] = t[s]; break; }
		default:
		{
			int x = r.below(100), y = r.below(100), z = r.below(100), n = r.below(4); std::vector<int> w; if (n > 0) w.push_back(x); if (n > 1) w.push_back(y); if (n > 2) w.push_back(z); heard = { -1 };
			int v = n == 0 ? (*p[s])(0) : n == 1 ? (*p[s])(1, x) : n == 2 ? (*p[s])(2, x, y) : (*p[s])(3, x, y, z);
			out->line(Obj().str("ev", "var").num("tag", t[s]).raw("args", nums(w)).raw("heard", nums(heard)).num("r", v).done());
		}
		}
	}
}
// ------------------------------------------------------------ containers on the heap
template <class C, class T> static std::string seqOf(const C& c) { std::vector<int> v; for (const auto& x : c) v.push_back(int(x)); return nums(v); }
template <class C, class T> static void heaped(Rng& r, const char* what, const std::function<C*(const std::vector<T>&)>& make)
{
	std::vector<std::unique_ptr<C>> p(4);
	out->line(Obj().str("ev", "begin").num("n", 3).done());
	for (int k = 0; k < 14; ++k)
	{
		int s = 1 + r.below(3), d = 1 + r.below(3); std::string op; std::vector<int> v; int same = 1;
		if (!p[s] || r.chance(10)) { op = "new"; std::vector<T> w; for (unsigned i = 0, e = 1 + r.below(4); i < e; ++i) { w.push_back(T('a' + r.below(20))); v.push_back(int(w.back())); } if (r.chance(15)) { w.clear(); v.clear(); } p[s].reset(make(w)); same = p[s]->getAllocator() == HeapAllocator::instance(); }
		else switch (r.below(6))
		{
		case 0: if (p[d]) { op = "assign"; C& x = (*p[d] = std::as_const(*p[s])); same = &x == p[d].get(); } else { op = "copy"; p[d].reset(new C(std::as_const(*p[s]))); } same = same && p[d]->getAllocator() == HeapAllocator::instance(); break;
		case 1: op = "assign"; d = s; *p[s] = std::as_const(*p[s]); break;
		case 2: if (s == d) continue; if (p[d]) { op = "massign"; C& x = (*p[d] = std::move(*p[s])); same = &x == p[d].get(); } else { op = "move"; p[d].reset(new C(std::move(*p[s]))); } p[s].reset(); break;
		case 3: op = "del"; p[s].reset(); break;
		default: op = "push"; v.push_back('a' + int(r.below(20))); p[s]->emplace_back(T(v[0])); break;
		}
		std::string see; for (int i = 1; i < 4; ++i) { if (i > 1) see += ","; see += p[i] ? seqOf<C, T>(*p[i]) : "[]"; }
		out->line(Obj().str("ev", "seq").str("what", what).str("op", op).num("s", s).num("d", d).raw("v", nums(v)).raw("see", "[" + see + "]").flag("same", same).done());
	}
}
// keys are inserted in ascending order, so a map is the sequence of its keys; values are the keys' squares
static void heapedMap(Rng& r)
{
	using C = HeapHashMap<int, int>; std::vector<std::unique_ptr<C>> p(4); int next = 1;
	out->line(Obj().str("ev", "begin").num("n", 3).done());
	for (int k = 0; k < 20; ++k)
	{
		int s = 1 + r.below(3), d = 1 + r.below(3); std::string op; std::vector<int> v; bool same = true;
		if (!p[s] || r.chance(8)) { op = "new"; switch (r.below(3)) { case 0: p[s].reset(new C()); break; case 1: p[s].reset(new C(1 + r.below(5))); break; default: v = { next, next + 1 }; p[s].reset(new C(int(next), next * next, int(next + 1), (next + 1) * (next + 1))); next += 2; } }
		else switch (r.below(6))
		{
		case 0: case 1: if (s == d) continue; if (p[d]) { op = "massign"; C& x = (*p[d] = std::move(*p[s])); same = &x == p[d].get(); } else { op = "move"; p[d].reset(new C(std::move(*p[s]))); } p[s].reset(); break;
		case 2: op = "del"; p[s].reset(); break;
		default: op = "push"; v.push_back(next); p[s]->emplaceUnique(next, next * next); ++next; break;
		}
		std::string see; for (int i = 1; i < 4; ++i) { std::vector<int> keys; if (p[i]) { for (auto& e : *p[i]) { keys.push_back(e.key); same = same && e.value == e.key * e.key; } for (int x : keys) same = same && p[i]->get(x) && *p[i]->get(x) == x * x; same = same && p[i]->elements() == keys.size(); } std::sort(keys.begin(), keys.end()); if (i > 1) see += ","; see += nums(keys); }
		out->line(Obj().str("ev", "seq").str("what", "HeapHashMap").str("op", op).num("s", s).num("d", d).raw("v", nums(v)).raw("see", "[" + see + "]").flag("same", same).done());
	}
}
int main(int argc, char** argv)
{
	Sink o(argv[1]); out = &o; uint64_t seed = strtoull(argv[3], nullptr, 10); unsigned nr = atoi(argv[4]), len = atoi(argv[5]); watchdog(argc > 6 ? atoi(argv[6]) : 300);
	for (int i = 0; i < 10; ++i) objects[i].tag = i;
	unsigned k = 0;
	for (auto& l : readLines(argv[2]))
	{
		J sc = parse(l); ++k;
		switch (k % 4) { case 0: Run<Callable<One::Sig>, false, One>(3, seed + k).script(sc); break; case 1: Run<HeapCallable<One::Sig>, true, One>(3, seed + k).script(sc); break; case 2: Run<Callable<Two::Sig>, false, Two>(3, seed + k).script(sc); break; default: Run<HeapCallable<Two::Sig>, true, Two>(3, seed + k).script(sc); }
	}
	for (unsigned i = 0; i < nr; ++i) switch (i % 4)
	{
	case 0: Run<Callable<One::Sig>, false, One>(5, seed * 1000 + i).random(len); break; case 1: Run<HeapCallable<One::Sig>, true, One>(5, seed * 1000 + i).random(len); break;
	case 2: Run<Callable<Two::Sig>, false, Two>(5, seed * 1000 + i).random(len); break; default: Run<HeapCallable<Two::Sig>, true, Two>(5, seed * 1000 + i).random(len);
	}
	Rng r(seed * 31 + 7); out->line(Obj().str("ev", "begin").num("n", 1).done());
	for (unsigned i = 0; i < nr * 2; ++i) { loggers(r); console(r); for (int x = 0; x < 8; ++x) flags(r); algorithms<Vector>(r); algorithms<List>(r); variadic(r); }
	for (unsigned i = 0; i < nr; ++i)
	{
		heapedMap(r);
		heaped<HeapVector<int>, int>(r, "HeapVector", [&](const std::vector<int>& w) { if (w.size() == 2 && r.chance(50)) return new HeapVector<int>(w[0], w[1]); if (w.empty()) return new HeapVector<int>(); return new HeapVector<int>(w.data(), w.size()); });
		heaped<HeapList<int>, int>(r, "HeapList", [&](const std::vector<int>& w) { if (w.size() == 2 && r.chance(50)) return new HeapList<int>(int(w[0]), int(w[1])); auto* l = new HeapList<int>(); for (int x : w) l->emplace_back(x); return l; });
		heaped<HeapString, char>(r, "HeapString", [&](const std::vector<char>& w) { if (w.empty()) return new HeapString(); std::string t(w.begin(), w.end()); return new HeapString(t.c_str()); });
		heaped<HeapContainer<Vector<int>>, int>(r, "HeapContainer", [&](const std::vector<int>& w) { if (w.empty()) return new HeapContainer<Vector<int>>(); return new HeapContainer<Vector<int>>(w.data(), w.size()); });
	}
	return 0;
}
