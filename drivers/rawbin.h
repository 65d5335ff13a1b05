// Binaries composed of declarations MC_Types derived, of variables, functions, entry points and names.
#pragma once
#include "compose.h"
#include "descs.h"
static std::vector<J> frags;

struct Raw
{
	std::vector<W> decl; std::map<std::string, uint32_t> seen; std::vector<uint32_t> types, consts, values, structs, all; std::map<uint32_t, W> def; uint32_t next = 1, tVoid = 0;
	std::vector<std::vector<W>> funs; std::vector<bool> declared; std::vector<W> eps, names, modes, caps; std::vector<uint32_t> gvars; std::vector<std::pair<uint32_t, uint32_t>> sigs; // function, type
	static W mk(unsigned op, W a) { a.insert(a.begin(), uint32_t(a.size() + 1) << 16 | op); return a; }
	static void str(W& w, const std::string& s) { for (size_t k = 0; k <= s.size() / 4; ++k) { uint32_t x = 0; for (size_t b = 0; b < 4; ++b) if (4 * k + b < s.size()) x |= uint32_t((unsigned char)s[4 * k + b]) << (8 * b); w.push_back(x); } }
	uint32_t fragment(const J& f)
	{
		std::map<long long, uint32_t> m; uint32_t last = 0;
		for (auto& i : f.a)
		{
			unsigned op = unsigned(i.a[1].i); W a; size_t self = 0; std::string key = n(op);
			for (auto& o : i.a[2].a) { if (o.a[0].s == "d") { self = a.size() + 1; a.push_back(0); } else if (o.a[0].s == "l") a.push_back(uint32_t(o.a[1].i) << 16 | uint32_t(o.a[2].i)); else a.push_back(m[o.a[1].i]); }
			for (auto x : a) key += "," + n(x);
			bool type = op < 41 || op > 60, aggregate = op >= 28 && op <= 30; auto it = seen.find(key); bool dup = it != seen.end();
			if (dup && ((type && !aggregate) || R->chance(60))) { m[i.a[0].i] = last = it->second; continue; }
			last = next++; a[self - 1] = last; seen[key] = last; m[i.a[0].i] = last; def[last] = mk(op, a); decl.push_back(def[last]); (type ? types : consts).push_back(last); all.push_back(last);
			if (op == 30) structs.push_back(last); if (op == 19) tVoid = last;
			if (op == 32 && a[1] != 7 && R->chance(50)) global(last);
			if (op == 43 && (def[a[0]][0] & 0xffff) == 21 && R->chance(10)) { decl.push_back(mk(52, { a[0], next, 128, last, last })); all.push_back(next++); }
			if (type && op != 19 && op != 33 && R->chance(10)) { decl.push_back(mk(1, { last, next })); values.push_back(next); all.push_back(next++); }
		}
		return last;
	}
	void global(uint32_t ptr) { W w{ ptr, next, def[ptr][2] }; decl.push_back(mk(59, w)); gvars.push_back(next); values.push_back(next); all.push_back(next++); }
	uint32_t voidT() { if (tVoid == 0) { tVoid = next++; def[tVoid] = mk(19, { tVoid }); decl.push_back(def[tVoid]); types.push_back(tVoid); all.push_back(tVoid); seen["19,0"] = tVoid; } return tVoid; }
	uint32_t voidFun() { uint32_t v = voidT(); std::string key = "33,0," + n(v); auto it = seen.find(key); if (it != seen.end()) return it->second; uint32_t f = next++; seen[key] = f; def[f] = mk(33, { f, v }); decl.push_back(def[f]); types.push_back(f); all.push_back(f); return f; }
	uint32_t undefOf(uint32_t t, std::vector<W>& ws) { ws.push_back(mk(1, { t, next })); all.push_back(next); return next++; }
	uint32_t function(uint32_t ft, bool only)
	{
		std::vector<W> ws; uint32_t id = next++; all.push_back(id); W t = def[ft]; ws.push_back(mk(54, { t[2], id, R->below(16), ft })); std::vector<uint32_t> vals;
		for (size_t k = 3; k < t.size(); ++k) { ws.push_back(mk(55, { t[k], next })); vals.push_back(next); all.push_back(next++); }
		if (!only)
		{
			unsigned nb = 1 + R->below(4); std::vector<uint32_t> labs; for (unsigned k = 0; k < nb; ++k) { labs.push_back(next); all.push_back(next++); }
			std::vector<std::pair<uint32_t, uint32_t>> local; // pointer type
			uint32_t boolConst = 0, intConst = 0; for (auto c : consts) { unsigned o = def[c][0] & 0xffff; if (o == 41) boolConst = c; W& t2 = def[def[c][1]]; if (o == 43 && (t2[0] & 0xffff) == 21 && t2[2] <= 32) intConst = c; }
			for (unsigned k = 0; k < nb; ++k)
			{
				ws.push_back(mk(248, { labs[k] }));
				if (k == 0) for (auto ty : types) if ((def[ty][0] & 0xffff) == 32 && def[ty][2] == 7 && R->chance(15)) { ws.push_back(mk(59, { ty, next, 7 })); local.push_back({ ty, next }); all.push_back(next++); }
				for (unsigned c = R->below(4); c > 0; --c)
				{
					uint32_t ty = R->pick(types); unsigned op = def[ty][0] & 0xffff;
					switch (R->below(4))
					{
					case 0: if (op != 19 && op != 33) undefOf(ty, ws); break;
					case 1: if (!local.empty()) { auto p = R->pick(local); ws.push_back(mk(61, { def[p.first][3], next, p.second })); all.push_back(next++); } break;
					case 2: if (!sigs.empty()) { auto s = R->pick(sigs); W st = def[s.second]; W a{ st[2], 0, s.first }; for (size_t k2 = 3; k2 < st.size(); ++k2) a.push_back(undefOf(st[k2], ws)); a[1] = next; all.push_back(next++); ws.push_back(mk(57, a)); } break;
					case 3: if (!values.empty()) { auto v = R->pick(values); uint32_t vt = 0; for (auto& d : decl) if ((d[0] >> 16) > 2 && d[2] == v && ((d[0] & 0xffff) == 59 || (d[0] & 0xffff) == 1)) vt = d[1]; if (vt) { ws.push_back(mk(83, { vt, next, v })); all.push_back(next++); } } break;
					}
				}
				if (k + 1 < nb && R->chance(40) && boolConst) { uint32_t a = labs[k + 1], b = labs[k + 1 + R->below(nb - k - 1)]; ws.push_back(mk(247, { b, 0 })); ws.push_back(mk(250, { boolConst, a, b })); }
				else if (k + 1 < nb && R->chance(20) && intConst) { W a{ intConst, labs[k + 1] }; for (unsigned c = R->below(4); c > 0; --c) { a.push_back(R->u32()); a.push_back(labs[1 + R->below(nb - 1)]); } ws.push_back(mk(247, { labs[k + 1], 0 })); ws.push_back(mk(251, a)); }
				else if (k + 1 < nb) ws.push_back(mk(249, { labs[k + 1] })); else if (t[2] == tVoid && R->chance(70)) ws.push_back(mk(253, {})); else ws.push_back(mk(255, {}));
			}
		}
		ws.push_back(mk(56, {})); funs.push_back(ws); declared.push_back(only); sigs.push_back({ id, ft }); return id;
	}
	std::vector<std::string> strs{ "main", "mai", "main2", "a", "abcd", "abcdefgh", "x.y", "uni\xc3\xa9", "a name with spaces, and more of it than any small buffer might hold" };
	std::string name() { return R->chance(60) ? R->pick(strs) : "n" + n(R->below(50)) + (R->chance(30) ? std::string(R->below(40), 'q') : ""); }
	W words(unsigned nf)
	{
		caps.push_back(mk(17, { 1 })); if (R->chance(50)) caps.push_back(mk(17, { 5 }));
		for (unsigned k = 0; k < nf; ++k) fragment(R->pick(frags));
		voidFun(); std::vector<uint32_t> fts; for (auto t : types) if ((def[t][0] & 0xffff) == 33) fts.push_back(t);
		for (unsigned k = R->below(3); k > 0; --k) function(R->pick(fts), true);
		for (unsigned k = R->below(4); k > 0; --k) function(R->pick(fts), false);
		std::set<uint32_t> epf;
		for (unsigned k = R->below(3); k > 0; --k)
		{
			uint32_t f = function(voidFun(), false); epf.insert(f); W e{ (const uint32_t[]){ 0, 4, 5, 5267 }[R->below(4)], f }; str(e, name()); for (auto v : gvars) if (R->chance(40)) e.push_back(v); eps.push_back(mk(15, e));
			if (R->chance(40)) modes.push_back(mk(16, { f, 17, 1 + R->below(8), 1, 1 }));
		}
		for (unsigned k = R->below(8); k > 0 && !all.empty(); --k) { W w{ R->pick(all) }; str(w, name()); names.push_back(mk(5, w)); }
		for (auto s : structs) for (unsigned k = 2; k < def[s].size(); ++k) if (R->chance(40)) { W w{ s, k - 2 }; str(w, name()); names.push_back(mk(6, w)); }
		for (size_t k = names.size(); k > 1; --k) std::swap(names[k - 1], names[R->below(unsigned(k))]);
		// other numbers
		uint32_t bound = next + R->below(20); std::vector<uint32_t> num(next, 0); std::set<uint32_t> used; for (uint32_t k = 1; k < next; ++k) { uint32_t x; do x = 1 + R->below(bound - 1); while (!used.insert(x).second); num[k] = R->chance(100) ? x : k; }
		W w{ 0x07230203u, 0x10000u | R->below(7) << 8, R->u32(), bound, 0 };
		auto put = [&](const W& i) { VecWriter v; unsigned op = i[0] & 0xffff; W o = i; const Grammar::Instruction* g = gram->getInfo(op); size_t k = 1; 
			for (auto& p : g->operands) { bool id = p.category == Grammar::OperandCategory::Id; if (p.kind == Grammar::OperandKind::LiteralString) { while (k < o.size()) { bool end = hasStringTerminator(o[k]); ++k; if (end) break; } continue; } do { if (k < o.size()) { if (id) o[k] = num[o[k]]; ++k; } } while (p.quantifier == Grammar::Quantifier::ZeroOrAny && k < o.size()); }
			while (op == 15 && k < o.size()) { o[k] = num[o[k]]; ++k; }
			if (op == 52) { o[4] = num[o[4]]; o[5] = num[o[5]]; }
			if (op == 251) for (k = 4; k < o.size(); k += 2) o[k] = num[o[k]];
			w.insert(w.end(), o.begin(), o.end()); };
		for (auto& c : caps) put(c); put(mk(14, { 0, 1 })); for (auto* l : { &eps, &modes, &names, &decl }) for (auto& i : *l) put(i);
		for (int d = 1; d >= 0; --d) for (size_t k = 0; k < funs.size(); ++k) if (declared[k] == (d == 1)) for (auto& i : funs[k]) put(i);
		return w;
	}
};
