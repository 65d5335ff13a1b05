// A module around derivations of the grammar (MC_Binary): every section, functions and blocks as the logical layout wants them.
#pragma once
#include "prog.h"
#include "descs.h"
#include <algorithm>
typedef std::vector<uint32_t> W;
using namespace vt;
static Rng* R; static Grammar* gram;
static uint32_t lit(const J& t) { return uint32_t(t.a[1].i) << 16 | uint32_t(t.a[2].i); }
struct Deriv { unsigned op; int sec; J tok; };

// a module around derivations: every section, functions and blocks as the logical layout wants them
struct Compose
{
	uint32_t next = 1; std::vector<std::pair<W, std::vector<int>>> secs[21]; // words and which of them are ids (1: result, 2: other)
	struct Fun { std::vector<std::pair<W, std::vector<int>>> ws; bool declared = false; }; std::vector<Fun> funs; Fun cur; bool open = false;
	std::set<std::string> seen; std::vector<size_t> todo;
	typedef std::pair<W, std::vector<int>> I;
	static I mk(unsigned op, std::initializer_list<uint32_t> ws, std::initializer_list<int> ids) { I r; r.first.push_back(0); r.second.push_back(0); for (auto x : ws) r.first.push_back(x); for (auto x : ids) r.second.push_back(x); while (r.second.size() < r.first.size()) r.second.push_back(0); r.first[0] = uint32_t(r.first.size()) << 16 | op; return r; }
	uint32_t tVoid, tFun;
	// fixed operands are ids already; 0 as a reference: any
	I inst(const Deriv& d, std::vector<uint32_t> refs = {})
	{
		I r; r.first.push_back(0); r.second.push_back(0); size_t k = 0;
		for (auto& t : d.tok.a)
		{
			if (t.a[0].s == "l") { r.first.push_back(lit(t)); r.second.push_back(0); }
			else if (t.a[0].s == "r") { r.first.push_back(next++); r.second.push_back(1); }
			else if (t.a[0].s == "t") { r.first.push_back(R->chance(60) ? tVoid : 0); r.second.push_back(2); }
			else { r.first.push_back(k < refs.size() ? refs[k] : 0); ++k; r.second.push_back(2); }
		}
		r.first[0] = uint32_t(r.first.size()) << 16 | d.op; return r;
	}
	void head(I h) { close(); cur = Fun(); cur.ws.push_back(h); open = true; }
	bool inBlock = false;
	void label() { if (!inBlock) { cur.ws.push_back(mk(248, { next++ }, { 1 })); inBlock = true; } }
	void term(I t) { label(); cur.ws.push_back(t); inBlock = false; }
	void close() { if (!open) return; if (inBlock) term(mk(253, {}, {})); cur.ws.push_back(mk(56, {}, {})); funs.push_back(cur); open = false; inBlock = false; }
	uint32_t plain() { head(mk(54, { tVoid, next, 0, tFun }, { 2, 1, 0, 2 })); return next++; }
	void add(const Deriv& d)
	{
		int s = d.sec; auto str = [&](size_t from) { std::string r = std::to_string(s) + ":"; for (size_t k = from; k < d.tok.a.size(); ++k) r += text(d.tok.a[k]); return r; };
		bool body = s == 19 || ((s == 12 || s == 13 || s == 14) && R->chance(50)); if (s == 12) body = lit(d.tok.a[2]) == 7;
		if (s == 1 || s == 2 || s == 3) { size_t from = s == 3 ? 1 : 0; if (s != 1 && (lit(d.tok.a[from]) & 0xff) == 0) return; if (!seen.insert(str(from)).second) return; }
		if (s == 0 || s == 17 || s == 18) return;
		if (s == 4) { secs[4].clear(); secs[4].push_back(inst(d)); return; }
		if (s == 5) { if ((lit(d.tok.a[2]) & 0xff) == 0) return; uint32_t f = plain(); label(); secs[5].push_back(inst(d, { f })); return; }
		if (s == 15) { head(inst(d, { tFun })); if (R->chance(70)) label(); close(); return; }
		if (s == 16) { close(); plain(); cur.ws.push_back(inst(d)); if (R->chance(70)) label(); close(); return; }
		if (s == 20) { if (!open || (inBlock == false && R->chance(30))) plain(); term(inst(d)); return; }
		if (body) { if (!open) plain(); label(); cur.ws.push_back(inst(d)); return; }
		secs[s].push_back(inst(d));
	}
	W words(bool empty)
	{
		close();
		// give the open references something to refer to, and the ids other numbers
		if (secs[4].empty()) secs[4].push_back(mk(14, { 0, 1 }, {}));
		uint32_t bound = next + (R->chance(50) ? R->below(5) : R->chance(50) ? R->below(5000) : 0); std::vector<uint32_t> num(next, 0); std::set<uint32_t> used;
		for (uint32_t k = 1; k < next; ++k) { uint32_t x; do x = 1 + R->below(bound - 1); while (!used.insert(x).second); num[k] = x; }
		std::vector<uint32_t> defs; auto each = [&](auto f) { for (int s = 1; s < 15; ++s) for (auto& i : secs[s]) f(i); for (auto& u : funs) for (auto& i : u.ws) f(i); };
		each([&](I& i) { for (size_t k = 1; k < i.first.size(); ++k) if (i.second[k] == 1) defs.push_back(i.first[k]); });
		each([&](I& i) { for (size_t k = 1; k < i.first.size(); ++k) if (i.second[k] != 0) { if (i.first[k] == 0) i.first[k] = R->pick(defs); i.first[k] = num[i.first[k]]; } });
		(void)empty;
		W w{ 0x07230203u, 0x10000u | R->below(7) << 8, R->u32(), bound, R->chance(80) ? 0u : R->u32() };
		auto put = [&](I& i) { w.insert(w.end(), i.first.begin(), i.first.end()); };
		for (int s = 1; s < 11; ++s) for (auto& i : secs[s]) put(i);
		// types, constants, variables, undefs and lines may be mixed
		size_t at[15] = {}; for (;;) { std::vector<int> c; for (int s = 11; s < 15; ++s) if (at[s] < secs[s].size()) c.push_back(s); if (c.empty()) break; int s = R->chance(50) ? c[0] : R->pick(c); put(secs[s][at[s]++]); }
		std::stable_sort(funs.begin(), funs.end(), [](const Fun& a, const Fun& b) { auto decl = [](const Fun& f) { for (auto& i : f.ws) if ((i.first[0] & 0xffff) == 248) return false; return true; }; return decl(a) && !decl(b); });
		for (auto& f : funs) for (auto& i : f.ws) put(i);
		return w;
	}
	Compose() { tVoid = next++; tFun = next++; secs[11].push_back(mk(19, { tVoid }, { 1 })); secs[11].push_back(mk(33, { tFun, tVoid }, { 1, 2 })); }
};

