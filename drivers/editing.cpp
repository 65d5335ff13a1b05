// Edits of modules: scripts on a fixed program, random edits of random programs, built or read back.
#include "prog.h"
#include "descs.h"
#include <memory>
using namespace vt;
static Sink* out; static Grammar* gram; static Rng* R; static Module* foreignM; static Instruction* foreignI; static Function* foreignF; static BasicBlock* foreignB;
struct S
{
	HeapAllocator al; Logger lg; std::unique_ptr<Module> m; Snap s; std::vector<std::unique_ptr<Type>> ts; std::vector<std::pair<std::unique_ptr<Constant>, std::string>> cs;
	S() : m(new Module(&al, &lg)) {}
	std::string mod() { s.prune(*m); return s.number(*m).module(*m); }
	std::string lookup() { std::vector<std::string> v; for (auto& e : m->getNameLookupMap()) v.push_back("[" + n(s.node(e.key)) + "," + w(e.value.member) + "," + codes(e.value.name.c_str()) + "]"); return arr(v); }
	static bool plain(const std::string& d) { return d.find("\"T\"") == std::string::npos && d.find("\"none\"") == std::string::npos; }
	// descriptions the module reports
	std::string infos()
	{
		std::vector<std::string> v;
		for (auto& i : m->getTypesAndConstants()) { std::string d; if (i.isType()) { if (auto* t = m->getTypeInfo(&i)) d = typeDesc(*t); } else if (auto* c = m->getConstantInfo(&i)) d = constDesc(*c); if (!d.empty() && plain(d)) v.push_back("[" + n(s.node(&i)) + "," + d + "]"); }
		return arr(v);
	}
	void begin()
	{
		for (auto& i : m->getTypesAndConstants()) { if (i.isType()) { if (auto* t = m->getTypeInfo(&i)) if (plain(typeDesc(*t))) { ts.emplace_back(new Type(*t)); } } else if (auto* c = m->getConstantInfo(&i)) if (plain(constDesc(*c)) && !i.isSpecConstant()) cs.emplace_back(std::unique_ptr<Constant>(new Constant(*c)), constDesc(*c)); }
		std::string d = mod(); out->line(Obj().str("ev", "begin").raw("m", d).raw("types", infos()).raw("names", lookup()).done());
	}
	void edit(const char* op, int x, int y, bool ret, const std::vector<int>& uses) { std::string d = mod(); out->line(Obj().str("ev", "edit").str("op", op).num("x", x).num("y", y).flag("ret", ret).raw("uses", nums(uses)).raw("names", lookup()).raw("m", d).done()); }
	void probe()
	{
		std::vector<std::string> a;
		for (auto& t : ts) { std::string d = typeDesc(*t); Instruction* i = m->addType(*t); a.push_back("[" + n(s.node(i)) + "," + d + "]"); }
		for (auto& c : cs) { Instruction* i = m->addConstant(*c.first); a.push_back("[" + n(s.node(i)) + "," + c.second + "]"); }
		std::string d = mod(); out->line(Obj().str("ev", "probe").raw("asked", arr(a)).raw("after", infos()).raw("names", lookup()).raw("m", d).done());
	}
	std::vector<int> nodes(const List<Instruction*>& l) { std::vector<int> v; for (auto* i : l) v.push_back(s.node(i)); return v; }
	// -------------------------------------------------- what refers to what
	std::map<const Instruction*, std::set<const Instruction*>> users() // including result types and block operands
	{
		std::map<const Instruction*, std::set<const Instruction*>> u;
		Snap::eachInstr(*m, [&](const Instruction& i) { for (const Operand& o : i) { if (o.type == Operand::Type::Instruction && o.instruction) u[o.instruction].insert(&i); else if (o.type == Operand::Type::BranchTarget && o.branchTarget) u[o.branchTarget->getLabel()].insert(&i); } });
		return u;
	}
	static bool note(const Instruction* i) { switch (i->getOperation()) { case spv::Op::OpName: case spv::Op::OpMemberName: case spv::Op::OpDecorate: case spv::Op::OpMemberDecorate: case spv::Op::OpDecorateId: case spv::Op::OpDecorateString: case spv::Op::OpMemberDecorateString: return true; default: return false; } }
	static void own(const BasicBlock& b, std::set<const Instruction*>& s) { for (auto& i : b) s.insert(&i); }
	bool isPrivate(const std::set<const Instruction*>& own) { auto u = users(); for (auto* x : own) for (auto* y : u[x]) if (!own.count(y)) { if (!note(y)) return false; auto t = y->getFirstActualOperand(); if (t->getInstruction() != x) return false; } return true; }
	// -------------------------------------------------- edits
	void gather(Instruction* x, Instruction* y) { int nx = s.node(x), ny = s.node(y); List<Instruction*> u(&al); m->gatherUses(x, u, y); edit("gather", nx, y ? ny : 0, true, nodes(u)); }
	void replace(Instruction* x, Instruction* y) { int nx = s.node(x), ny = s.node(y); m->replaceUses(x, y); edit("replace", nx, ny, true, {}); }
	void instr(Instruction* x) { int nx = s.node(x); bool r = x->getBasicBlock() && x->getParentType() == Instruction::ParentType::BasicBlock && R->chance(40) ? x->getOperation() == spv::Op::OpLabel ? m->remove(x) : x->getBasicBlock()->remove(x) : m->remove(x); edit("instr", nx, 0, r, {}); }
	void block(Function* f, BasicBlock* b, BasicBlock* to) { int nx = s.node(b->getLabel()), ny = to ? s.node(to->getLabel()) : 0; auto u = f->remove(b, to); std::vector<Instruction*> us; for (auto* i : u) us.push_back(i); edit("block", nx, ny, true, nodes(u)); if (!to) drop(us); }
	void function(Function* f, Function* to) { int nx = s.node(f->getFunction()), ny = to ? s.node(to->getFunction()) : 0; auto u = m->remove(f, to); std::vector<Instruction*> us; for (auto* i : u) us.push_back(i); edit("function", nx, ny, true, nodes(u)); if (!to) drop(us); }
	void drop(std::vector<Instruction*> us) { std::set<Instruction*> d(us.begin(), us.end()); for (auto* i : us) if (d.erase(i)) instr(i); }
	void foreign()
	{
		bool ret = false; std::vector<int> u; Function* f = nullptr; for (auto& g : m->getFunctions()) if (!g.empty()) f = &g; for (auto& g : m->getEntryPoints()) if (!g.empty()) f = &g;
		switch (R->below(7))
		{
		case 0: ret = m->remove(foreignI); break; case 1: u = nodes(m->remove(foreignF)); break; case 2: if (f) u = nodes(f->remove(foreignB)); break; case 3: if (f) ret = f->front().remove(foreignI); break;
		case 4: ret = m->remove((const Instruction*)nullptr); u = nodes(m->remove((const Function*)nullptr)); break;
		case 5: if (f) { ret = f->front().remove(nullptr); u = nodes(f->remove(nullptr)); } break;
		case 6: if (f && f->size() > 1) { BasicBlock& a = f->front(); BasicBlock& b = f->back(); if (!b.empty()) ret = a.remove(&b.front()); else ret = a.remove(b.getLabel()); } else ret = m->remove(m->getErrorInstr()); break;
		}
		edit("foreign", 0, 0, ret, u);
	}
	void forget(Instruction* x) { int nx = s.node(x); m->removeFromLookupMaps(x); edit("forget", nx, 0, true, {}); }
	// -------------------------------------------------- random edits
	void random()
	{
		std::vector<Instruction*> all, res; Snap::eachInstr(*m, [&](const Instruction& i) { auto* x = const_cast<Instruction*>(&i); all.push_back(x); if (x->hasResult() && x->getOperation() != spv::Op::OpLabel) res.push_back(x); });
		auto u = users(); std::vector<Function*> fs; for (auto& f : m->getFunctions()) fs.push_back(&f); for (auto& f : m->getEntryPoints()) fs.push_back(&f);
		bool open = false; for (auto* f : fs) for (auto& b : *f) if (!b.getTerminator()) open = true;
		// walks end at a block without an end: only removals after one
		switch (unsigned k = R->below(13); open && k != 12 && k != 11 ? 3 + k % 4 : k)
		{
		case 0: if (!res.empty()) { auto* x = R->pick(res); gather(x, R->chance(50) ? nullptr : R->pick(res)); } break;
		case 1: case 2: if (!res.empty()) { Instruction* x = R->pick(res); for (int k = 0; k < 4 && u[x].empty(); ++k) x = R->pick(res); if (x->getOperation() == spv::Op::OpFunction || x->isType()) break; replace(x, R->pick(res)); } break;
		case 3: case 4: case 5: case 6: { for (int k = 0; k < 8; ++k) { Instruction* x = R->pick(all); if (R->chance(5)) for (auto& im : m->getExtInstrImports()) x = const_cast<Instruction*>(&im.value); if (!u[x].empty()) { bool ok = true; for (auto* y : u[x]) if (!note(y)) ok = false; if (!ok || R->chance(50)) continue; std::vector<Instruction*> us; for (auto* y : u[x]) us.push_back(const_cast<Instruction*>(y)); bool first = true; for (auto* y : us) { auto t = y->getFirstActualOperand(); first = first && t->getInstruction() == x; } if (!first) continue; drop(us); }
				if (x->isTerminator() && R->chance(40)) continue; instr(x); break; } break; }
		case 7: case 8: { if (fs.empty()) break; Function* f = R->pick(fs); std::vector<BasicBlock*> bs; for (auto& b : *f) bs.push_back(&b); if (bs.size() < 2) break; BasicBlock* b = bs[1 + R->below(unsigned(bs.size() - 1))]; std::set<const Instruction*> o; own(*b, o); if (!isPrivate(o)) break;
			BasicBlock* to = R->pick(bs); if (to == b) { for (auto* x : u[b->getLabel()]) if (!note(x) && !o.count(x)) return; block(f, b, nullptr); } else block(f, b, to); break; }
		case 9: { if (fs.empty()) break; Function* f = R->pick(fs); std::set<const Instruction*> o; for (auto& p : f->getParameters()) o.insert(&p); for (auto& b : *f) { own(b, o); o.insert(b.getLabel()); } const Instruction* ep = nullptr; for (auto& e : m->getEntryPoints()) if (e.getFunction() == f->getFunction()) ep = e.getEntryPoint(); if (!isPrivate(o)) break;
			Function* to = R->pick(fs); if (to == f) { std::set<const Instruction*> modes; for (auto& i : m->getExecutionModes()) modes.insert(&i); for (auto* x : u[f->getFunction()]) if (!note(x) && !o.count(x) && x != ep && !modes.count(x)) { if (x->getOperation() != spv::Op::OpFunctionCall || !u[x].empty()) return; } function(f, nullptr); } else function(f, to); break; }
		case 10: foreign(); break;
		case 11: { if (all.empty()) break; Instruction* x = R->pick(all); if (x->isTerminator()) break; forget(x); break; }
		case 12: probe(); break;
		}
	}
	// -------------------------------------------------- the program of the scripts
	std::map<int, Instruction*> I; std::map<int, BasicBlock*> B; std::map<int, Function*> F;
	void fixed()
	{
		auto* f32 = m->type<float>(); Function& g = m->addFunction<float, float>(nullptr, {}, false); F[1] = &g; I[1] = g.getFunction(); I[11] = g.getParameter(0); B[12] = &g.addBasicBlock(); I[13] = (*B[12])->opFAdd(I[11], I[11]); (*B[12])->opReturnValue(m->constant(1.f));
		Function& k = m->addFunction(); k.setReturnType(m->type<void>()); k.finalize({}, nullptr); F[2] = &k; B[21] = &k.addBasicBlock(); B[31] = &k.addBasicBlock(); B[41] = &k.addBasicBlock(); B[51] = &k.addBasicBlock();
		Function& h = m->addFunction<float, float>(nullptr, {}, false); F[3] = &h; I[3] = h.getFunction(); BasicBlock& hb = h.addBasicBlock(); hb->opReturnValue(m->constant(2.f));
		auto* var = m->variable(m->newType().Float(), spv::StorageClass::Private, nullptr);
		I[22] = (*B[21])->opLoad(var); I[23] = (*B[21])->opFAdd(I[22], I[22]); (*B[21])->opBranchConditional(m->constant(true), B[31], B[41]);
		I[32] = (*B[31])->call(&g, I[22]); I[33] = (*B[31])->opFMul(I[23], I[22]); (*B[31])->opBranch(B[41]); (*B[41])->opReturn(); I[52] = (*B[51])->opFMul(I[22], I[22]); (*B[51])->opBranch(B[41]);
		auto nm = [&](Instruction* t, const char* s2) { m->addName(t, s2); return &m->getNames().back(); };
		I[71] = nm(I[1], "g"); I[72] = nm(I[11], "p"); I[73] = nm(B[31]->getLabel(), "b31"); I[74] = nm(I[23], "v2");
		auto dec = [&](Instruction* t) { auto* d = m->addDecorationInstr(); d->opDecorate(t, spv::Decoration::RelaxedPrecision); return d; };
		I[81] = dec(I[33]); I[82] = dec(I[13]); auto* gr = m->addDecorationInstr(); gr->makeOp(spv::Op::OpDecorationGroup, InvalidId); I[83] = m->addDecorationInstr(); I[83]->makeOp(spv::Op::OpGroupDecorate, gr, I[1], I[1], I[3]); (void)f32;
	}
	void step(const J& x)
	{
		const std::string& k = x.a[0].s; auto a = [&](size_t i) { return int(x.a[i].i); };
		if (k == "replace") replace(I.at(a(1)), I.at(a(2))); else if (k == "gather") gather(I.at(a(1)), nullptr); else if (k == "instr") instr(I.at(a(1)));
		else if (k == "block") block(F[2], B.at(a(1)), a(2) ? B.at(a(2)) : nullptr); else if (k == "function") function(F.at(a(1)), F.at(a(2)));
	}
	// -------------------------------------------------- read back
	bool back()
	{
		VecWriter v; m->finalizeAndWrite(v, nullptr); std::unique_ptr<Module> o(new Module(&al, &lg)); VecReader rd(v.v); if (!o->readAndInit(rd, *gram)) return false;
		m = std::move(o); s = Snap(); return true;
	}
};
int main(int, char** av)
{
	watchdog(850); Sink o(av[1]); out = &o; auto lines = readLines(av[2]); Rng r(strtoull(av[3], nullptr, 10)); R = &r; unsigned cases = atoi(av[4]), len = atoi(av[5]);
	HeapAllocator ga; Logger lg; Grammar gg(&ga); gram = &gg; Module fm(&ga, &lg); foreignM = &fm; foreignF = &fm.addFunction<void>("f"); foreignB = &foreignF->front(); foreignI = foreignF->variable<float>(); (*foreignB)->opReturn();
	for (auto& l : lines) { S s; s.fixed(); s.begin(); for (auto& x : parse(l).a) s.step(x); if (r.chance(20)) s.probe(); }
	for (unsigned k = 0; k < cases; ++k)
	{
		S s; if (r.chance(30)) s.fixed();
		Prog p(*s.m, r); p.random(r.range(1, 60));
		if (r.chance(40)) { auto* f = s.m->type<float>(); Type t = s.m->newType(); t.Struct(); t.Member().Float(32); t.Member().Float(32); t.Member().Float(32); s.m->addTypeInstr(&t)->makeOp(spv::Op::OpTypeStruct, InvalidId, f, f, f); }
		if (r.chance(30)) { auto* a = s.m->type<float>(); for (unsigned j = r.below(4); j > 0; --j) s.m->addTypeInstr()->makeOp(spv::Op::OpTypeStruct, InvalidId, a, a); }
		if (r.chance(40) && !s.back()) { fprintf(stderr, "VT_READ\n"); return 3; }
		// blocks with names and decorations
		auto label = [&](Function& f) { for (auto& b : f) { if (r.chance(25)) s.m->addName(b.getLabel(), "lab"); if (r.chance(8)) s.m->addDecorationInstr()->opDecorate(b.getLabel(), spv::Decoration::RelaxedPrecision); } };
		for (auto& f : s.m->getFunctions()) label(f); for (auto& f : s.m->getEntryPoints()) label(f);
		// named imports, capabilities and extensions nobody uses
		if (r.chance(50)) { const char* ns[] = { "A", "BC", "NonSemantic.x" }; for (auto* x : ns) if (r.chance(60)) { auto* i = s.m->addExtensionInstructionImport(x); if (r.chance(70)) s.m->addName(i, x); if (r.chance(10)) s.m->addDecorationInstr()->opDecorate(i, spv::Decoration::RelaxedPrecision); } s.m->addExtension("E"); s.m->addCapability(spv::Capability::Float64); }
		s.begin(); unsigned c = r.range(1, len); for (unsigned j = 0; j < c; ++j) s.random(); if (r.chance(30)) s.probe();
		// what is left can be written
		bool closed = true; auto u = s.users(); std::set<const Instruction*> live; Snap::eachInstr(*s.m, [&](const Instruction& i) { live.insert(&i); }); for (auto& x : u) if (!live.count(x.first)) closed = false;
		Snap::eachInstr(*s.m, [&](const Instruction& i) { for (const Operand& q : i) if ((q.type == Operand::Type::Instruction && !q.instruction) || (q.type == Operand::Type::BranchTarget && !q.branchTarget)) closed = false; });
		if (closed) Snap::eachInstr(*s.m, [&](const Instruction& i) { if (i.getOperation() == spv::Op::OpFunctionCall && (i.begin() + 2u)->getInstruction()->getOperation() != spv::Op::OpFunction) closed = false; });
		if (closed) { VecWriter v; s.m->finalizeAndWrite(v, nullptr); }
	}
	return 0;
}
