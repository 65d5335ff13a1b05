// Walks over modules of every kind, lookups by id, and what instructions say about themselves.
#include "prog.h"
using namespace vt;
static Sink* out; static Grammar* gram;
static void look(Module& m, Logger& lg, Rng& r)
{
	Snap s; s.number(m); std::string mod = s.module(m); std::vector<std::string> walks, facts, ids, ends; const Module& c = m;
	std::vector<const Instruction*> all; Snap::eachInstr(m, [&](const Instruction& i) { all.push_back(&i); });
	auto walk = [&](const char* how, int at, int op, auto go) { unsigned e0 = lg.errors; std::vector<int> seen; int k = 0; auto note = [&](const Instruction& i) { seen.push_back(s.node(&i)); return ++k == at || int(i.getOperation()) == op; }; bool ret = go(note); walks.push_back(Obj().str("how", how).num("at", at).num("op", op).raw("seen", nums(seen)).flag("ret", ret).num("err", lg.errors - e0).done()); };
	auto one = [&](int at, int op)
	{
		switch (r.below(4))
		{
		case 0: walk("bool", at, op, [&](auto& f) { return m.iterateInstructions([&](Instruction& i) -> bool { return f(i); }); }); break;
		case 1: walk("const bool", at, op, [&](auto& f) { return c.iterateInstructions([&](const Instruction& i) -> bool { return f(i); }); }); break;
		case 2: walk("auto", at, op, [&](auto& f) { return m.iterateInstructions([&](auto& i) { return f(i); }); }); break;
		case 3: walk("const auto", at, op, [&](auto& f) { return c.iterateInstructions([&](auto& i) { return f(i); }); }); break;
		}
	};
	if (r.chance(50)) walk("void", -1, -1, [&](auto& f) { return m.iterateInstructions([&](Instruction& i) { f(i); }); });
	if (r.chance(50)) walk("const void", -1, -1, [&](auto& f) { return c.iterateInstructions([&](const Instruction& i) { f(i); }); });
	one(-1, -1); for (unsigned k = r.range(2, 5); k > 0; --k) one(r.chance(30) ? 1 + int(r.below(6)) : 1 + int(r.below(unsigned(all.size()) + 2)), -1);
	for (unsigned k = r.range(1, 4); k > 0; --k) one(-1, int(r.pick(all)->getOperation()));
	for (auto* i : all)
	{
		int first = 0; for (auto it = i->getFirstActualOperand(); it != i->end(); ++it) ++first;
		unsigned sc = unsigned(i->getStorageClass()); unsigned oc = i->getOpCode();
		std::string f = "[" + n(int(unsigned(i->getResultId()))) + "," + n(i->hasResultType() ? s.node(i->getResultTypeInstr()) : 0) + "," + n(first) + "," + n(i->getWordCount()) + "," + n(oc & 0xffff) + "," + (sc == unsigned(spv::StorageClass::Max) ? std::string("-1") : n(sc)) + "]";
		if (oc >> 16 != i->getWordCount()) f = "[\"the opcode word has another word count\"]";
		facts.push_back(f);
	}
	unsigned bound = m.getSpvBound(); if (bound) { for (unsigned k = 0; k < 6; ++k) { unsigned id = 1 + r.below(bound + 2); ids.push_back("[" + n(id) + "," + n(s.node(m.getInstructionById(spv::Id(id)))) + "]"); } for (unsigned id : { 1u, bound - 1, bound }) if (id) ids.push_back("[" + n(id) + "," + n(s.node(m.getInstructionById(spv::Id(id)))) + "]"); }
	auto fun = [&](Function& f) { for (auto& b : f) ends.push_back(n(s.node(b.getTerminator()))); }; for (auto& f : m.getFunctions()) fun(f); for (auto& f : m.getEntryPoints()) fun(f);
	out->line(Obj().str("ev", "walks").raw("m", mod).raw("walks", arr(walks)).raw("facts", arr(facts)).raw("ids", arr(ids)).raw("ends", arr(ends)).done());
}
int main(int, char** av)
{
	Sink o(av[1]); out = &o; auto scripts = readLines(av[2]); Rng r(strtoull(av[3], nullptr, 10)); unsigned rnd = atoi(av[4]), len = atoi(av[5]);
	watchdog(280); HeapAllocator ga; Grammar gg(&ga); gram = &gg;
	for (size_t s = 0; s < scripts.size() + rnd; ++s)
	{
		HeapAllocator al; Logger lg; Module m(&al, &lg); Prog p(m, r); m.setSpvVersion(1, (unsigned char)r.below(7)); bool open = false;
		if (s < scripts.size()) for (auto& c : parse(scripts[s]).a) p.step(stepByName(c.s));
		else for (unsigned k = r.range(1, len); k > 0; --k) p.step(int(r.below(sCount)));
		if (r.chance(35)) { look(m, lg, r); open = true; } // maybe unfinished
		p.finish();
		if (!open && r.chance(40)) look(m, lg, r);
		m.finalizeEntryPoints(); if (r.chance(80)) { if (r.chance(50)) m.assignIDs(r.chance(30) ? gram : nullptr); else m.finalize(); }
		if (r.chance(25) && !m.getFunctions().empty()) { Function& f = m.getFunctions().front(); if (!f.empty()) { f.addBasicBlock(); if (r.chance(50)) f.back()->opNop(); } }
		// an instruction behind the end of a block
		if (r.chance(25) && !m.getFunctions().empty()) { unsigned k = r.below(3); for (Function& f : m.getFunctions()) if (!f.empty() && k-- == 0) { BasicBlock& b = r.chance(50) ? f.front() : f.back(); if (r.chance(60)) b->opNop(); else b.returnValue(); break; } }
		look(m, lg, r);
		if (r.chance(20)) { HeapAllocator a2; Logger l2; VecWriter w; if (m.finalizeAndWrite(w, nullptr)) { Module m2(&a2, &l2); VecReader rd(w.v); if (m2.read(rd, *gram)) { if (r.chance(70)) m2.resolveIDs(); look(m2, l2, r); } } }
	}
}
