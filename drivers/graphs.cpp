// Graphs: histories of a generic graph, evaluation of expression graphs, control flow and call graphs of programs.
#include "prog.h"
#include <algorithm>
#include "common/ControlFlowGraph.h"
#include "common/FunctionCallGraph.h"
#include "common/ExprGraph.h"
#include <memory>
using namespace vt;
static Sink* out; static Grammar* gram; static Rng* R;
// ------------------------------------------------------------------ generic graph
struct Payload { int v = 0; Payload(int x = 0) : v(x) {} Payload(const Payload&) = default; Payload& operator=(const Payload&) = default; Payload(Payload&& o) noexcept : v(o.v) { o.v = -1; } Payload& operator=(Payload&& o) noexcept { int x = o.v; o.v = -1; v = x; return *this; } };
struct NodeData { int id = 0; NodeData(int x = 0) : id(x) {} };
using G = Graph<NodeData, Payload>;
struct GraphSession
{
	HeapAllocator al; std::unique_ptr<G> g{ new G(&al) }; std::map<int, G::NodeType*> at;
	GraphSession() { out->line(Obj().str("ev", "begin").raw("in", "[]").raw("out", "[]").done()); }
	static std::string edges(const List<G::NodeType::EdgeType>& l) { std::vector<std::string> v; for (auto& e : l) v.push_back("[" + n(e.pTarget->data().id) + "," + n(e.data.v) + "]"); return arr(v); }
	void op(const std::string& o, int a, int b, int x)
	{
		Obj r; r.str("ev", "g").str("op", o).num("a", a).num("b", b).num("x", x);
		if (o == "n") { at[a] = g->emplace(a); if (at[a]->data().id != a) r.num("wrong", 1); }
		else if (o == "c") { Payload d(x); if (R->chance(50)) at[a]->connect(at[b], Payload(x)); else if (R->chance(50)) at[a]->connect(at[b], d); else at[a]->connect(at[b], x); }
		else if (o == "d") at[a]->disconnect(at[b]);
		else if (o == "e") { auto it = g->begin(); while (it != g->end() && &*it != at[a]) ++it; auto nx = g->erase(it); at.erase(a); r.num("ret", nx == g->end() ? 0 : nx->data().id); }
		else if (o == "x") { g->clear(); at.clear(); }
		else if (o == "m") { if (a == 1) { std::unique_ptr<G> t(new G(stdrep::move(*g))); g = std::move(t); } else { std::unique_ptr<G> t(new G(&al)); t->emplace(77)->connect(t->emplace(78), 5); G& y = (*t = stdrep::move(*g)); if (&y != t.get()) r.num("wrong", 1); g = std::move(t); } }
		std::vector<std::string> v; for (auto& nd : *g) v.push_back(Obj().num("id", &nd == at[nd.data().id] ? nd.data().id : -nd.data().id).num("d", nd.data().id).raw("o", edges(nd.outputs())).raw("i", edges(nd.inputs())).done());
		r.raw("g", arr(v)).num("n", g->size()).flag("empty", g->empty()); const G& cg = *g;
		if (!g->empty()) r.num("front", &g->front() == &cg.front() ? g->front().data().id : -1).num("back", &g->back() == &cg.back() ? g->back().data().id : -1);
		out->line(r.done());
	}
};
// ------------------------------------------------------------------ expressions
struct Fn; static std::vector<std::string>* ranLog;
struct Fn
{
	int id = 0; int token = 0;
	template <class L> void operator()(L& in, L& outs)
	{
		auto ids = [](auto& l) { std::vector<int> v; for (auto& e : l) { if constexpr (!std::is_pointer_v<std::decay_t<decltype(e)>>) v.push_back(e.pTarget->data()->id); else v.push_back(e->id); } return nums(v); };
		ranLog->push_back("[" + n(id) + "," + ids(in) + "," + ids(outs) + "]"); ++token;
	}
};
static void exprSession(const std::vector<std::vector<int>>& in, const std::vector<std::pair<std::string, std::vector<int>>>& ops)
{
	HeapAllocator al; ExprGraph<Fn> g(&al); using N = ExprGraph<Fn>::NodeType; std::vector<N*> at(1); std::vector<std::vector<int>> outs(in.size());
	for (size_t k = 1; k <= in.size(); ++k) at.push_back(g.emplace(Fn{ int(k) }));
	for (size_t k = 1; k <= in.size(); ++k) for (int j : in[k - 1]) { at[j]->connect(at[k]); outs[j - 1].push_back(int(k)); }
	std::vector<std::string> a, b; for (auto& v : in) a.push_back(nums(v)); for (auto& v : outs) b.push_back(nums(v));
	out->line(Obj().str("ev", "begin").raw("in", arr(a)).raw("out", arr(b)).done());
	for (auto& o : ops)
	{
		std::vector<std::string> ran; ranLog = &ran; Obj r; r.str("ev", "x").str("op", o.first); bool fp = R->chance(50);
		if (o.first == "rec") { int k = o.second[0]; r.num("k", k); if (fp) g.evaluateRecursive<ExprArgs::FunctionPtrLists>(at[k]); else g.evaluateRecursive<ExprArgs::EdgeLists>(at[k]); }
		else if (o.first == "exp") { List<N*> l(&al); for (int k : o.second) l.emplace_back(at[k]); bool ok = fp ? g.evaluateExplicit<ExprArgs::FunctionPtrLists>(l) : g.evaluateExplicit<ExprArgs::EdgeLists>(l); r.raw("o", nums(o.second)).flag("ok", ok); }
		else g.resetEvaluationState();
		std::vector<int> done; for (size_t k = 1; k < at.size(); ++k) if (at[k]->data().evaluated()) done.push_back(int(k));
		out->line(r.raw("ran", arr(ran)).raw("done", nums(done)).done());
	}
}
// ------------------------------------------------------------------ programs
template <class Gr, class F> static void collect(Gr& g, Obj& o, F node)
{
	std::vector<int> ns; std::vector<std::string> os, is; for (auto& nd : g) { ns.push_back(node(nd.data())); }
	for (auto& nd : g) { for (auto& e : nd.outputs()) os.push_back("[" + n(node(nd.data())) + "," + n(node(e.pTarget->data())) ); for (auto& e : nd.inputs()) is.push_back("[" + n(node(e.pTarget->data())) + "," + n(node(nd.data()))); }
	size_t x = 0, y = 0; for (auto& nd : g) { auto d = [&](auto& e) { if constexpr (std::is_pointer_v<std::decay_t<decltype(e.data)>>) return "," + n(node(e.data)) + "]"; else return std::string("]"); }; for (auto& e : nd.outputs()) os[x++] += d(e); for (auto& e : nd.inputs()) is[y++] += d(e); }
	o.raw("ns", nums(ns)).raw("o", arr(os)).raw("i", arr(is));
}
static void ask(Module& m)
{
	Snap s; s.number(m); std::vector<std::string> fl, ca;
	auto each = [&](Function& f)
	{
		Obj o; o.num("f", s.node(f.getFunction())); { ControlFlowGraph<> g(f, R->chance(50) ? m.getAllocator() : nullptr); collect(g, o, [&](BasicBlock* b) { return s.node(b->getLabel()); }); }
		std::vector<std::string> br; for (auto& b : f) { List<BasicBlock*> l(m.getAllocator()); if (b.getBranchTargets(l)) { std::vector<int> v; for (auto* t : l) v.push_back(s.node(t->getLabel())); br.push_back("[" + n(s.node(b.getLabel())) + "," + nums(v) + "]"); } }
		fl.push_back(o.raw("br", arr(br)).done());
		Obj c; c.num("f", s.node(f.getFunction())); { FunctionCallGraph g(f, R->chance(50) ? m.getAllocator() : nullptr); struct V { Snap& s; int operator()(Function* f) { return s.node(f->getFunction()); } int operator()(Instruction* i) { return s.node(i); } }; collect(g, c, V{ s }); } ca.push_back(c.done());
	};
	for (auto& f : m.getFunctions()) each(f); for (auto& f : m.getEntryPoints()) each(f);
	out->line(Obj().str("ev", "prog").raw("m", s.module(m)).raw("fl", arr(fl)).raw("ca", arr(ca)).done());
}
struct Side
{
	HeapAllocator al; Logger lg; std::unique_ptr<Module> m; Side() : m(new Module(&al, &lg)) {}
	bool back() { VecWriter v; m->finalizeAndWrite(v, nullptr); std::unique_ptr<Module> o(new Module(&al, &lg)); VecReader rd(v.v); if (!o->readAndInit(rd, *gram)) return false; m = std::move(o); return true; }
};
static void flow(const J& p)
{
	Side S; Module& m = *S.m; m.addCapability(spv::Capability::Shader); Function& f = m.addFunction<void>("f", Flag<spv::FunctionControlMask>{}, false); BasicBlock* b[4]; for (int k = 1; k <= 3; ++k) b[k] = &f.addBasicBlock();
	bool open = false; Instruction* c = m.constant(true); Instruction* sel = m.constant(3);
	for (int k = 1; k <= 3; ++k)
	{
		auto& t = p.a[k - 1]; const std::string& o = t.a[0].s; BasicBlock& B = *b[k]; auto to = [&](int x) { return b[t.a[x].i]; }; if (R->chance(30)) B->opNop();
		if (o == "none") open = true; else if (o == "ret") B->opReturn(); else if (o == "br") { if (R->chance(70)) B->opBranch(to(1)); else B->makeOp(spv::Op::OpBranch, to(1)->getLabel()); } else if (o == "if") { if (R->chance(50)) B->opBranchConditional(c, to(1), to(2)); else B->opBranchConditional(c, to(1), to(2), 3u, 1u); }
		else { auto* i = B.operator->(); i->makeOp(spv::Op::OpSwitch, sel, to(1)); for (unsigned x = 2; x < t.a.size(); ++x) { i->addOperand(literal_t{ x - 1 }); i->addOperand(to(x)); } }
	}
	ask(m); if (!open && S.back()) ask(*S.m);
}
static void calls(const J& p)
{
	Side S; Module& m = *S.m; m.addCapability(spv::Capability::Shader); Function* f[4]; BasicBlock* cur[4];
	for (int k = 1; k <= 3; ++k) { f[k] = k == 3 && R->chance(50) ? static_cast<Function*>(&m.addEntryPoint<void>(spv::ExecutionModel::Vertex, "main")) : &m.addFunction<void>(R->chance(50) ? "g" : nullptr); cur[k] = &*f[k]->begin(); }
	for (int k = 1; k <= 3; ++k) for (auto& c : p.a[k - 1].a)
	{
		if (R->chance(30)) { BasicBlock& nb = f[k]->addBasicBlock(); (*cur[k])->opBranch(&nb); cur[k] = &nb; }
		(*cur[k])->call(f[c.i]);
	}
	for (int k = 1; k <= 3; ++k) (*cur[k])->opReturn();
	ask(m); if (S.back()) ask(*S.m);
}
static void randomCase()
{
	unsigned kind = R->below(3);
	if (kind == 0) { GraphSession s; int next = 1; for (unsigned k = R->range(5, 40); k > 0; --k) { std::vector<int> a; for (auto& p : s.at) a.push_back(p.first); unsigned x = R->below(100); if (a.empty() || x < 20) s.op("n", next++, 0, 0); else if (x < 65) s.op("c", R->pick(a), R->pick(a), int(R->range(1, 4))); else if (x < 82) s.op("d", R->pick(a), R->pick(a), 0); else if (x < 93) s.op("e", R->pick(a), 0, 0); else if (x < 98) s.op("m", int(R->range(1, 2)), 0, 0); else s.op("x", 0, 0, 0); } }
	else if (kind == 1)
	{
		std::vector<std::vector<int>> in(R->range(2, 9)); for (size_t k = 1; k < in.size(); ++k) for (unsigned j = R->below(4); j > 0; --j) in[k].push_back(int(R->range(1, unsigned(k))));
		std::vector<std::pair<std::string, std::vector<int>>> ops; for (unsigned k = R->range(1, 6); k > 0; --k) { unsigned x = R->below(10); int sz = int(in.size()); if (x < 5) ops.push_back({ "rec", { int(R->range(1, unsigned(sz))) } }); else if (x < 8) { std::vector<int> o; for (unsigned j = R->below(unsigned(sz) + 1); j > 0; --j) o.push_back(int(R->range(1, unsigned(sz)))); if (R->chance(50)) { std::sort(o.begin(), o.end()); o.erase(std::unique(o.begin(), o.end()), o.end()); } ops.push_back({ "exp", o }); } else ops.push_back({ "reset", {} }); }
		exprSession(in, ops);
	}
	else { Side S; Prog p(*S.m, *R); p.random(R->range(20, 90)); ask(*S.m); if (R->chance(60) && S.back()) ask(*S.m); }
}
int main(int, char** av)
{
	watchdog(850); Sink o(av[1]); out = &o; auto lines = readLines(av[2]); Rng r(strtoull(av[3], nullptr, 10)); R = &r; unsigned cases = atoi(av[4]);
	HeapAllocator ga; Grammar gg(&ga); gram = &gg;
	for (auto& l : lines)
	{
		J j = parse(l); const std::string& k = j["k"].s;
		if (k == "g") { GraphSession s; for (auto& x : j["h"].a) s.op(x.a[0].s, int(x.a[1].i), int(x.a[2].i), int(x.a[3].i)); }
		else if (k == "x") { std::vector<std::vector<int>> in; for (auto& v : j["in"].a) { in.emplace_back(); for (auto& e : v.a) in.back().push_back(int(e.i)); } std::vector<std::pair<std::string, std::vector<int>>> ops; for (auto& x : j["h"].a) { ops.push_back({ x.a[0].s, {} }); if (x.a[0].s == "exp") for (auto& e : x.a[1].a) ops.back().second.push_back(int(e.i)); else ops.back().second.push_back(int(x.a[1].i)); } exprSession(in, ops); }
		else if (k == "f") flow(j["p"]); else calls(j["p"]);
	}
	for (unsigned k = 0; k < cases; ++k) randomCase();
	return 0;
}
