// Functions built step by step (steps from the specification, or random ones).
#include "descs.h"
using namespace vt;
static Rng* R;
struct FnS { Function* f; J ret; std::vector<J> ps; bool fin = false; bool ep = false; };
static J jn(long long v) { J j; j.k = J::Num; j.i = v; return j; }
static J js(const std::string& s) { J j; j.k = J::Str; j.s = s; return j; }
static J ja(std::vector<J> a) { J j; j.k = J::Arr; j.a = std::move(a); return j; }
static std::string str(const J& c) { std::string s; for (auto& x : c.a) s += char(x.i); return s; }
struct Session
{
	HeapAllocator al; Logger lg; Module m; Snap sn; std::vector<FnS> F; Sink& out; std::unordered_map<std::string, Instruction*> vals;
	explicit Session(Sink& o) : m(&al, &lg), out(o) {}
	Instruction* value(const J& t) { auto& v = vals[text(t)]; if (v == nullptr || R->chance(30)) { Instruction* i = m.addUndefInstr(); i->opUndef(addT(m, t)); v = i; } return v; }
	BasicBlock& block(size_t f, size_t b) { auto it = F[f].f->begin(); for (size_t k = 0; k < b; ++k) ++it; return *it; }
	bool step(const J& s)
	{
		const std::string& op = s.a[0].s; unsigned err0 = lg.errors; int node = 0, init = 0; bool refused = false; std::vector<int> args;
		auto at = [&](size_t k) { return s.a[k].i; };
		auto nodeOf = [&](Instruction* i) { refused = i == nullptr || i->isErrorInstr(); node = refused ? 0 : sn.node(i); };
		if (op == "fun") { FnS x; x.ep = at(1) == 1; x.f = x.ep ? &m.addEntryPoint() : &m.addFunction(); x.ret = parse("[\"Void\"]"); F.push_back(x); node = sn.node(x.f->getFunction()); }
		else if (op == "full")
		{
			FnS x; x.ret = s.a[1]; x.ps = s.a[2].a; x.fin = true; auto ctl = Flag<spv::FunctionControlMask>(unsigned(at(3))); std::string nm = str(s.a[4]); long long model = at(5); x.ep = model >= 0; bool bl = at(6) == 1;
			const char* c = s.a[4].a.size() == 1 && s.a[4].a[0].i < 0 ? nullptr : nm.c_str(); std::string key = text(x.ret) + text(s.a[2]); 
			auto tmpl = [&](const char* k, auto fun) { if (key != k || R->chance(25)) return false; x.f = fun(); return true; };
			#define T(K, ...) tmpl(K, [&]() -> Function* { if (x.ep) return &m.addEntryPoint<__VA_ARGS__>(spv::ExecutionModel(model), c, ctl, bl); return &m.addFunction<__VA_ARGS__>(c, ctl, bl); })
			if (T("[\"Void\"][]", void) || T("[\"Float\",32][[\"Float\",32]]", float, float) || T("[\"Int\",32,1][[\"Float\",32],[\"Int\",32,1]]", int, float, int) || T("[\"Void\"][[\"Int\",32,1]]", void, int)
				|| T("[\"Float\",32][[\"Vec\",[\"Float\",32],3],[\"Float\",32]]", float, vector_t<float, 3>, float)) {}
			else if (x.ps.size() <= 2)
			{
				Instruction* r = addT(m, x.ret); Instruction* a = x.ps.size() > 0 ? addT(m, x.ps[0]) : nullptr; Instruction* b = x.ps.size() > 1 ? addT(m, x.ps[1]) : nullptr;
				if (x.ep) x.f = b ? &m.getEntryPoints().emplace_back(&m, spv::ExecutionModel(model), c, ctl, r, a, b) : a ? &m.getEntryPoints().emplace_back(&m, spv::ExecutionModel(model), c, ctl, r, a) : &m.getEntryPoints().emplace_back(&m, spv::ExecutionModel(model), c, ctl, r);
				else x.f = b ? &m.getFunctions().emplace_back(&m, c, ctl, r, a, b) : a ? &m.getFunctions().emplace_back(&m, c, ctl, r, a) : &m.getFunctions().emplace_back(&m, c, ctl, r);
				if (bl) x.f->addBasicBlock();
			}
			else { x.f = x.ep ? &m.addEntryPoint() : &m.addFunction(); x.f->setReturnType(addT(m, x.ret)); for (auto& p : x.ps) x.f->addParameters(addT(m, p)); if (x.ep) x.f->asEntryPoint()->finalize(spv::ExecutionModel(model), ctl, c); else x.f->finalize(ctl, c); if (bl) x.f->addBasicBlock(); }
			F.push_back(x); node = sn.node(x.f->getFunction());
		}
		else
		{
			size_t f = size_t(at(1) - 1); if (f >= F.size()) return false; FnS& x = F[f];
			if (op == "ret" || op == "param" || op == "type" || op == "fin") { if (x.fin) return false; }
			if (op == "ret") { if (R->chance(50)) x.f->setReturnType(addT(m, s.a[2])); else x.f->setReturnType(mkType(m, s.a[2])); x.ret = s.a[2]; }
			else if (op == "param") { Instruction* p = x.f->addParameters(addT(m, s.a[2])); nodeOf(p); if (!refused) x.ps.push_back(s.a[2]); }
			else if (op == "type")
			{
				bool b; if (R->chance(50)) b = x.f->setFunctionType(addT(m, s.a[2])); else b = x.f->setFunctionType(mkType(m, s.a[2])); refused = !b;
				if (b) { x.ret = s.a[2].a[1].a[0]; }
			}
			else if (op == "fin")
			{
				std::string nm = str(s.a[3]); const char* c = !x.ep && s.a[3].a.size() == 1 && s.a[3].a[0].i < 0 ? nullptr : nm.c_str(); auto ctl = Flag<spv::FunctionControlMask>(unsigned(at(2)));
				nodeOf(x.ep ? x.f->asEntryPoint()->finalize(spv::ExecutionModel(at(4)), ctl, c) : x.f->finalize(ctl, c)); x.fin = true;
			}
			else if (op == "block") x.f->addBasicBlock(R->chance(30) ? "bb" : nullptr);
			else if (op == "var")
			{
				Instruction* in = nullptr; if (at(3) == 1) { in = value(s.a[2]); init = sn.node(in); }
				std::string t = text(s.a[2]); Instruction* v = nullptr; Type ty = mkType(m, s.a[2]); const char* nm = R->chance(30) ? "v" : nullptr; bool ptr = ty.isPointer(); // a pointer given as Type is taken as it is
				switch (R->below(ptr ? 2 : 4))
				{
				case 0: v = x.f->variable(m.addType(ty.wrapPointer(spv::StorageClass::Function)), nm, in); break;
				case 1: v = x.f->variable(ty.wrapPointer(spv::StorageClass::Function), nm, in); break;
				case 2: v = x.f->variable(ty, nm, in); break;
				case 3: if (t == "[\"Float\",32]") { if (in && R->chance(50)) { v = x.f->variable(3.5f, nm); in = m.constant(3.5f); init = sn.node(in); } else v = x.f->variable<float>(nm, in); } else if (t == "[\"Int\",32,1]") v = x.f->variable<int>(nm, in); else v = x.f->variable(ty, nm, in); break;
				}
				nodeOf(v);
			}
			else if (op == "mode")
			{
				if (!x.fin) return false; auto md = spv::ExecutionMode(at(2)); auto& l = s.a[3].a; if (!x.ep) { Instruction* i = m.addExtensionModeInstr(); if (l.size() == 3) i->opExecutionMode(x.f->getFunction(), md, unsigned(l[0].i), unsigned(l[1].i), unsigned(l[2].i)); else i->opExecutionMode(x.f->getFunction(), md); node = sn.node(i); }
				else { EntryPoint* ep = x.f->asEntryPoint(); Instruction* i = l.size() == 3 ? ep->addExecutionMode(md, unsigned(l[0].i), unsigned(l[1].i), unsigned(l[2].i)) : l.size() == 1 ? ep->addExecutionMode(md, unsigned(l[0].i)) : ep->addExecutionMode(md); node = sn.node(i); }
			}
			else
			{
				size_t b = size_t(at(2) - 1); if (b >= x.f->size()) return false; BasicBlock& bb = block(f, b);
				if (op == "call")
				{
					size_t g = size_t(at(3) - 1); if (g >= F.size() || !F[g].fin) return false; FnS& y = F[g]; std::vector<Instruction*> a; for (auto& p : y.ps) a.push_back(value(p));
					args.push_back(sn.node(y.f->getFunction())); for (auto i : a) args.push_back(sn.node(i));
					List<Instruction*> li(&al); for (auto i : a) li.emplace_back(i);
					switch (R->below(a.size() <= 2 ? 4 : 2))
					{
					case 0: nodeOf(bb->callDynamic(y.f, li)); break; case 1: nodeOf(bb->opFunctionCallDynamic(y.f->getReturnTypeInstr(), y.f->getFunction(), li)); break;
					case 2: nodeOf(a.size() == 0 ? bb->call(y.f) : a.size() == 1 ? bb->call(y.f, a[0]) : bb->call(y.f, a[0], a[1])); break;
					case 3: { Instruction* r = addT(m, y.ret); auto* fn = y.f->getFunction(); nodeOf(a.size() == 0 ? bb->opFunctionCall(r, fn) : a.size() == 1 ? bb->opFunctionCall(r, fn, a[0]) : bb->opFunctionCall(r, fn, a[0], a[1])); break; }
					}
				}
				else if (op == "badcall") { Instruction* t = m.type<float>(); Instruction* v = m.constant(1.f); List<Instruction*> li(&al); bool first = at(3) == 0; if (R->chance(50)) nodeOf(first ? bb->opFunctionCall(t, v) : bb->opFunctionCall(v, x.f->getFunction())); else nodeOf(first ? bb->opFunctionCallDynamic(t, v, li) : bb->opFunctionCallDynamic(v, x.f->getFunction(), li)); if (!first && !x.fin) return false; }
				else if (op == "retv")
				{
					bool vd = s.a[3].a[0].s == "Void"; Instruction* v = vd ? nullptr : value(s.a[3]); if (v) args.push_back(sn.node(v));
					if (R->chance(50) || (vd && text(x.ret) != "[\"Void\"]")) { nodeOf(bb.returnValue(v)); }
					else { Instruction* i = bb.addInstruction(); if (vd) i->opReturn(); else i->opReturnValue(v); nodeOf(i); }
				}
				else return false;
			}
		}
		out.line(Obj().str("ev", "step").raw("s", text(s)).num("node", node).num("init", init).raw("args", nums(args)).flag("refused", refused).num("err", lg.errors - err0).str("last", lg.last).done());
		return true;
	}
	void end()
	{
		std::vector<std::string> acc;
		for (auto& x : F)
		{
			Function& f = *x.f; bool ps = true; unsigned k = 0; for (auto& p : f.getParameters()) { ps = ps && f.getParameter(k) == &p && p.getType() && k < x.ps.size() && typeDesc(*p.getType()) == text(x.ps[k]); ++k; } ps = ps && f.getParameter(k) == nullptr;
			const char* nm = f.Function::getName(); const EntryPoint* ep = f.asEntryPoint();
			acc.push_back(Obj().raw("ret", typeDesc(f.getReturnType())).raw("sig", typeDesc(f.getFunctionType())).num("nparams", k).flag("params", ps).flag("final", f.isFinalized()).num("ctrl", (unsigned)f.getFunctionControl()).flag("ep", ep != nullptr)
				.raw("name", nm ? codes(nm) : "[-1]").raw("epname", ep ? codes(ep->getName() ? ep->getName() : "") : "[-1]").num("model", ep ? int(ep->getExecutionModel()) : -1).done());
		}
		out.line(Obj().str("ev", "end").raw("m", sn.module(m)).raw("acc", arr(acc)).done());
	}
};
int main(int, char** av)
{
	Sink out(av[1]); auto scripts = readLines(av[2]); Rng r(strtoull(av[3], nullptr, 10)); R = &r; unsigned rnd = atoi(av[4]), len = atoi(av[5]); watchdog(280);
	std::vector<J> ts; for (auto t : { "[\"Void\"]", "[\"Float\",32]", "[\"Int\",32,1]", "[\"Vec\",[\"Float\",32],3]", "[\"Struct\",[[\"Float\",32],[\"Int\",32,1]]]", "[\"Ptr\",7,[\"Float\",32]]", "[\"Bool\"]", "[\"Int\",32,0]", "[\"Mat\",[\"Vec\",[\"Float\",32],2],2]" }) ts.push_back(parse(t));
	auto name = [&]() { std::vector<J> c; unsigned k = r.below(9); for (unsigned i = 0; i < k; ++i) c.push_back(jn(r.range(97, 122))); return ja(c); };
	auto ctrl = [&]() { return jn(r.below(16)); };
	for (size_t s = 0; s < scripts.size() + rnd; ++s)
	{
		Session x(out); out.line("{\"ev\":\"reset\"}");
		if (s < scripts.size()) { for (auto& st : parse(scripts[s]).a) x.step(st); x.end(); continue; }
		for (unsigned k = 0; k < len; ++k)
		{
			unsigned nf = (unsigned)x.F.size(); unsigned f = nf ? r.below(nf) : 0;
			switch (nf == 0 ? r.below(2) : r.below(15))
			{
			case 0: if (nf < 8) x.step(ja({ js("fun"), jn(r.below(2)) })); break;
			case 1: if (nf < 8) { std::vector<J> ps; unsigned c = r.below(4); for (unsigned i = 0; i < c; ++i) ps.push_back(ts[r.range(1, 8)]); long long model = r.chance(40) ? (long long)r.below(6) : -1; J nm = name(); if (model < 0 && r.chance(20)) nm = ja({ jn(-1) }); x.step(ja({ js("full"), ts[r.below(9)], ja(ps), ctrl(), nm, jn(model), jn(r.below(2)) })); } break;
			case 2: x.step(ja({ js("ret"), jn(f + 1), ts[r.below(9)] })); break;
			case 3: case 4: x.step(ja({ js("param"), jn(f + 1), ts[r.below(9)] })); break;
			case 5: { J nm = name(); if (!x.F[f].ep && r.chance(30)) nm = ja({ jn(-1) }); x.step(ja({ js("fin"), jn(f + 1), ctrl(), nm, jn(r.below(6)) })); break; }
			case 14: { std::vector<J> c{ ts[r.below(9)] }; if (r.chance(60)) for (auto& p : x.F[f].ps) c.push_back(r.chance(70) ? p : ts[r.range(1, 8)]); else { unsigned z = r.below(4); for (unsigned i = 0; i < z; ++i) c.push_back(ts[r.range(1, 8)]); } x.step(ja({ js("type"), jn(f + 1), r.chance(90) ? ja({ js("Fun"), ja(c) }) : ts[r.below(9)] })); break; }
			case 6: x.step(ja({ js("block"), jn(f + 1) })); break;
			case 7: case 8: x.step(ja({ js("var"), jn(f + 1), ts[r.chance(60) ? r.range(1, 2) : r.range(1, 8)], jn(r.below(2)) })); break;
			case 9: case 10: case 11: if (x.F[f].f->size()) x.step(ja({ js("call"), jn(f + 1), jn(1 + r.below((unsigned)x.F[f].f->size())), jn(1 + r.below(nf)) })); break;
			case 12: if (x.F[f].f->size()) x.step(ja({ js("retv"), jn(f + 1), jn(1 + r.below((unsigned)x.F[f].f->size())), r.chance(60) ? x.F[f].ret : ts[r.below(9)] })); break;
			case 13: if (r.chance(40) && x.F[f].f->size()) x.step(ja({ js("badcall"), jn(f + 1), jn(1 + r.below((unsigned)x.F[f].f->size())), jn(r.below(2)) })); else x.step(ja({ js("mode"), jn(f + 1), r.chance(50) ? jn(17) : jn(7), ja({}) })); break;
			}
		}
		x.end();
	}
}
