// C12: builds the text given by the specification (or a random one) with the structured helpers, records the blocks.
#include "mod.h"
using namespace vt;
struct T { std::string k; int v = 0, mask = 0, mk = 0; std::vector<std::vector<T>> b; };
typedef std::vector<T> Body;
static Body fromJ(const J& j) { Body r; for (auto& i : j.a) { T t; t.k = i[0].s; if (t.k == "op") t.mk = int(i[1].i); else if (i.size() > 1) { t.v = int(i[1].i); t.mask = int(i[2].i); t.mk = int(i[3].i); for (size_t x = 4; x < i.size(); ++x) t.b.push_back(fromJ(i[x])); } r.push_back(t); } return r; }
static std::string toJ(const Body& b) { std::string r = "["; bool f = true; for (auto& t : b) { if (!f) r += ","; f = false; r += "[" + q(t.k); if (t.k == "op") r += "," + n(t.mk); else if (!t.b.empty()) { r += "," + n(t.v) + "," + n(t.mask) + "," + n(t.mk); for (auto& x : t.b) r += "," + toJ(x); } r += "]"; } return r + "]"; }
static const int MaxMark = 120;
static bool exits(const Body& b);
static bool exitItem(const T& t) { return t.k == "ret" || t.k == "kill" || t.k == "unr"; }
static bool exits(const Body& b) { return !b.empty() && exitItem(b.back()); }
// operations are numbered in the order of the text; helpers with bodies as blocks need bodies that are not empty
static void number(Body& b, int& k)
{
	for (auto& t : b)
	{
		if (exitItem(t)) continue;
		if (t.k == "op") { t.mk = k++; continue; }
		if (t.k == "loop") { if (t.v == 2) { if (t.b[1].empty() && exits(t.b[2])) t.v = 0; for (auto& c : t.b[0]) if (c.k != "op") t.v = 0; } number(t.b[0], k); t.mk = k++; number(t.b[2], k); number(t.b[1], k); }
		else { if (t.v == 2) for (auto& x : t.b) if (x.empty()) t.v = 0; t.mk = k++; for (auto& x : t.b) number(x, k); }
	}
}
static bool ordered(const Body& b) { for (auto& t : b) { if (t.v != 0) return false; for (auto& x : t.b) if (!ordered(x)) return false; } return true; }
static int size(const Body& b) { int s = 0; for (auto& t : b) { ++s; for (auto& x : t.b) s += size(x); } return s; }
static Body gen(Rng& r, int depth, bool mayExit)
{
	Body b; int k = r.below(4);
	for (int i = 0; i < k; ++i)
	{
		T t; unsigned c = depth > 0 ? r.below(10) : r.below(4);
		if (c < 4) t.k = "op";
		else if (c < 6) { t.k = "if"; t.b = { gen(r, depth - 1, mayExit) }; }
		else if (c < 8) { t.k = "ife"; t.b = { gen(r, depth - 1, mayExit), gen(r, depth - 1, mayExit) }; }
		else { t.k = "loop"; t.b = { gen(r, r.chance(30) ? depth - 1 : 0, false), gen(r, r.chance(30) ? depth - 1 : 0, false), gen(r, depth - 1, mayExit) }; }
		t.v = r.chance(60) ? 0 : r.below(3); t.mask = r.below(3);
		b.push_back(t);
	}
	if (mayExit && r.chance(25)) { T t; t.k = r.chance(60) ? "ret" : r.chance(50) ? "kill" : "unr"; b.push_back(t); }
	return b;
}
struct B
{
	Function& f; std::vector<Instruction*>& c; bool overload;
	BasicBlock* body(const Body& b, BasicBlock* bb)
	{
		for (auto& t : b)
		{
			if (t.k == "op") (*bb)->opIAdd(c[0], c[t.mk]);
			else if (t.k == "ret") { if (t.mk % 2) bb->returnValue(); else (*bb)->opReturn(); return nullptr; }
			else if (t.k == "kill") { (*bb)->opKill(); return nullptr; }
			else if (t.k == "unr") { (*bb)->opUnreachable(); return nullptr; }
			else if (t.k == "if" || t.k == "ife")
			{
				auto mask = Flag<spv::SelectionControlMask>(unsigned(t.mask));
				Instruction* cond = (*bb)->opSLessThan(c[0], c[t.mk]);
				BasicBlock* mg = t.v == 1 ? &f.addBasicBlock("userMerge") : nullptr;
				if (t.v == 2)
				{
					BasicBlock& tb = f.addBasicBlock(); body(t.b[0], &tb);
					if (t.k == "if") bb = &bb->If(cond, tb, mg, mask);
					else { BasicBlock& fb = f.addBasicBlock(); body(t.b[1], &fb); bb = &bb->If(cond, tb, fb, mg, mask); }
				}
				else if (t.k == "if") bb = &bb->If(cond, [&](BasicBlock& x) { body(t.b[0], &x); }, mg, mask);
				else bb = &bb->If(cond, [&](BasicBlock& x) { body(t.b[0], &x); }, [&](BasicBlock& x) { body(t.b[1], &x); }, mg, mask);
			}
			else
			{
				auto mask = Flag<spv::LoopControlMask>(unsigned(t.mask));
				BasicBlock* mg = t.v == 1 ? &f.addBasicBlock("userMerge") : nullptr;
				if (t.v == 2)
				{
					BasicBlock& cb = f.addBasicBlock(); BasicBlock* ce = body(t.b[0], &cb); Instruction* cond = (*ce)->opSLessThan(c[0], c[t.mk]);
					BasicBlock& bo = f.addBasicBlock(); body(t.b[2], &bo);
					BasicBlock& co = f.addBasicBlock(); body(t.b[1], &co);
					bb = &bb->Loop(cond, co, bo, mg, mask);
				}
				else bb = &bb->Loop([&](BasicBlock& x) -> Instruction* { BasicBlock* e = body(t.b[0], &x); return (*e)->opSLessThan(c[0], c[t.mk]); },
					[&](BasicBlock& x) { body(t.b[1], &x); }, [&](BasicBlock& x) { body(t.b[2], &x); }, mg, mask);
			}
		}
		return bb;
	}
};
int main(int, char** av)
{
	Sink out(av[1]); auto scripts = readLines(av[2]); Rng r(strtoull(av[3], nullptr, 10)); unsigned rnd = atoi(av[4]), depth = atoi(av[5]);
	watchdog(280);
	std::vector<std::vector<uint32_t>> dump;
	for (size_t s = 0; s < scripts.size() + rnd; ++s)
	{
		Body t;
		if (s < scripts.size()) t = fromJ(parse(scripts[s]));
		else do t = gen(r, int(depth), true); while (size(t) > 60);
		int k = 0; number(t, k); if (k >= MaxMark) continue;
		HeapAllocator al; Logger lg; Module m(&al, &lg); m.addCapability(spv::Capability::Shader); m.addCapability(spv::Capability::Linkage);
		std::vector<Instruction*> c; for (int i = 0; i < k + 1; ++i) c.push_back(m.constant(i));
		Function* f; bool ep = r.chance(50);
		if (ep) f = &m.addEntryPoint<void>(spv::ExecutionModel::GLCompute, "main"); else f = &m.addFunction<void>("f");
		B b{ *f, c, false };
		BasicBlock* e = b.body(t, &**f);
		if (e != nullptr) (*e)->opReturn();
		VecWriter w; bool ok = m.finalizeAndWrite(w);
		Snap sn; std::vector<std::string> bbs; std::vector<int> cn; for (auto i : c) cn.push_back(sn.node(i));
		for (auto& x : *f) bbs.push_back("[" + n(sn.node(x.getLabel())) + "," + sn.list(x) + "]");
		out.line(Obj().str("ev", "cf").raw("tree", toJ(t)).raw("cn", nums(cn)).raw("bbs", arr(bbs)).flag("ord", ordered(t)).num("errors", lg.errors).flag("written", ok).done());
		if (getenv("VT_DUMP") && ordered(t)) { FILE* fp = fopen((std::string(getenv("VT_DUMP")) + std::to_string(s) + ".spv").c_str(), "wb"); fwrite(w.v.data(), 4, w.v.size(), fp); fclose(fp); }
	}
}
