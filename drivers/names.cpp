// Naming sessions: names are given, looked up, removed, and read back.
#include "descs.h"
#include <memory>
using namespace vt;
static Rng* R;
static std::string str(const J& c) { std::string s; for (auto& x : c.a) s += char(x.i); return s; }
struct Session
{
	HeapAllocator al; Logger lg; Grammar gr; std::vector<std::unique_ptr<Module>> keep; Module* m; Sink& out; std::vector<Instruction*> T; std::vector<std::string> K, N0; bool rnd;
	Session(Sink& o, unsigned structs, bool r) : gr(&al), out(o), rnd(r)
	{
		keep.emplace_back(new Module(&al, &lg)); m = keep.back().get();
		m->addCapability(spv::Capability::Shader); m->addCapability(spv::Capability::Linkage);
		auto pre = [&](Instruction* i, const char* nm) { T.back() == i ? (void)0 : abort(); if (nm) N0.push_back("[" + n((int)T.size()) + ",-1," + codes(nm) + "]"); };
		auto nm = [&](const char* c) { return rnd && R->chance(50) ? c : nullptr; }; const char* c = nullptr;
		auto add = [&](Instruction* i, const char* k) { T.push_back(i); K.push_back(q(k)); };
		for (unsigned k = 0; k < structs; ++k) { Type t = m->newType(); t.Struct(); for (unsigned x = 0; x < 2 + k; ++x) t.Member().Float(); add(m->addType(t), "s"); if (k == 1) { c = nm("con"); add(m->addConstant(m->newConstant().make(1.f), c), "r"); pre(T.back(), c); c = nm("fun"); Function& f = m->addFunction<void, float*>(c, spv::FunctionControlMask::Const, false); const char* fc = c; const char* bc = nm("blk"); BasicBlock& b = f.addBasicBlock(bc); const char* vc = nm("lvar"); Instruction* v = f.variable<float>(vc); b->opStore(v, m->constant(2.f)); add(&b.back(), "x"); add(b->opLoad(v), "r"); add(v, "r"); pre(v, vc); add(f.getFunction(), "r"); pre(T.back(), fc); add(&f.getParameters().front(), "r"); add(b.getLabel(), "r"); pre(T.back(), bc); b.returnValue(); } }
		c = nm("uni"); add(m->uniform<float>(c), "r"); pre(T.back(), c); add(m->type<float>(), "r"); c = nm("gv"); add(m->variable(m->newType().Int(), spv::StorageClass::Private, c), "r"); pre(T.back(), c); add(m->constant(7u), "r");
	}
	int indexOf(const Instruction* i) { for (size_t k = 0; k < T.size(); ++k) if (T[k] == i) return int(k + 1); return -1; }
	bool step(const J& s)
	{
		const std::string& op = s.a[0].s; unsigned e0 = lg.errors; std::string r = "0"; auto at = [&](size_t k) { return s.a[k].i; };
		if (op != "back" && op != "find") if (size_t(at(1)) > T.size()) return false;
		auto one = [&](const char* c) { return c == nullptr ? std::string("[]") : "[" + codes(c) + "]"; };
		// a freed, exactly sized copy: the library has to keep its own
		auto with = [&](const J& c, auto f) { std::string x = str(c); char* p = (char*)malloc(x.size() + 1); memcpy(p, x.c_str(), x.size() + 1); f(p); memset(p, 'Z', x.size()); free(p); };
		Instruction* t = op == "back" || op == "find" ? nullptr : T[size_t(at(1) - 1)];
		if (op == "name") with(s.a[2], [&](const char* p) { m->addName(t, p); });
		else if (op == "mem") with(s.a[3], [&](const char* p) { m->addMemberName(t, p, unsigned(at(2))); });
		else if (op == "get") { unsigned k = at(2) < 0 ? ~0u : unsigned(at(2)); const char* c; const Function* f = t->getFunction(); const BasicBlock* b = t->getBasicBlock();
			if (at(2) < 0 && t->getOperation() == spv::Op::OpFunction && R->chance(50)) c = f->getName(); else if (at(2) < 0 && t->getOperation() == spv::Op::OpLabel && R->chance(50)) c = b->getName();
			else c = R->chance(50) ? m->getName(t, k) : at(2) < 0 && R->chance(50) ? t->getName() : t->getName(k); r = one(c); }
		else if (op == "list") { std::vector<std::string> v; for (auto& x : m->getNames(t)) v.push_back("[" + n(x.memberIndex == ~0u ? -1 : (long long)x.memberIndex) + "," + codes(x.name ? x.name : "") + "]"); r = arr(v); }
		else if (op == "find") with(s.a[1], [&](const char* p) { Instruction* i = m->getInstructionByName(p); r = n(i == nullptr ? 0 : indexOf(i)); });
		else if (op == "drop")
		{
			std::vector<Instruction*> del; m->removeFromLookupMaps(t); for (Instruction& i : m->getNames()) if (auto it = i.getFirstActualOperand(); it != nullptr && it->getInstruction() == t) del.push_back(&i);
			for (auto* i : del) m->remove(i);
		}
		else if (op == "back")
		{
			m->finalizeEntryPoints(); m->assignIDs(); VecWriter w; if (!m->write(w)) { fprintf(stderr, "write\n"); exit(3); } std::vector<unsigned> ids; for (auto* i : T) ids.push_back(unsigned(i->getResultId()));
			keep.emplace_back(new Module(&al, &lg)); Module* o = m; m = keep.back().get(); VecReader rd(w.v); bool ok = m->readAndInit(rd, gr);
			if (!ok) r = "1"; (void)o;
			for (size_t k = 0; k < T.size(); ++k) { if (K[k] != q("x")) T[k] = m->getInstructionById(spv::Id(ids[k])); else { T[k] = nullptr; m->iterateInstructions([&](Instruction& i) { if (i.getOperation() == spv::Op::OpStore) T[k] = &i; }); } if (T[k] == nullptr) { fprintf(stderr, "lost target\n"); out.line(Obj().str("ev", "step").raw("s", text(s)).num("err", 1).raw("r", "0").done()); return true; } }
		}
		out.line(Obj().str("ev", "step").raw("s", text(s)).num("err", lg.errors - e0).raw("r", r).done()); return true;
	}
	// the names again, where the names list would accept them: member lookups, listings, searches
	void sweep(const std::set<std::string>& strs, const std::set<long long>& mem)
	{
		for (size_t k = 1; k <= T.size(); ++k) { step(parse("[\"list\"," + n(k) + "]")); step(parse("[\"get\"," + n(k) + ",-1]")); for (auto x : mem) if (K[k - 1] == q("s") || R->chance(10)) step(parse("[\"get\"," + n(k) + "," + n(x) + "]")); }
		for (auto& c : strs) step(parse("[\"find\"," + c + "]"));
	}
	void end()
	{
		std::vector<std::string> v;
		for (const Instruction& i : m->getNames()) { if (i.getOperation() == spv::Op::OpNop) continue; std::vector<uint32_t> w; int t = 0; bool f = true; for (const Operand& o : i) { if (f) t = indexOf(o.getInstruction()); else w.push_back(o.literal.value); f = false; } v.push_back("[" + n(unsigned(i.getOperation())) + "," + n(t) + "," + words(w) + "]"); }
		out.line(Obj().str("ev", "end").raw("names", arr(v)).done());
	}
	void start() { out.line(Obj().str("ev", "reset").raw("k", arr(K)).raw("n", arr(N0)).done()); }
};
int main(int, char** av)
{
	watchdog(800); Sink out(av[1]); auto lines = readLines(av[2]); Rng rng(strtoull(av[3], nullptr, 10)); R = &rng; unsigned sessions = atoi(av[4]), len = atoi(av[5]);
	Grammar* g = nullptr; (void)g; 
	for (auto& l : lines)
	{
		Session s(out, 2, false); s.start(); std::set<std::string> strs{ "[97,98,99]", "[1]" }; std::set<long long> mem{ 0, 1, 2 }; J h = parse(l);
		// targets of the specification: struct, struct, value, no result
		for (auto& x : h.a) { if (x.a[0].s == "name") strs.insert(text(x.a[2])); if (x.a[0].s == "mem") { strs.insert(text(x.a[3])); mem.insert(x.a[2].i); std::string c = text(x.a[3]); strs.insert(c); } s.step(x); }
		s.sweep(strs, mem); s.end();
	}
	for (unsigned k = 0; k < sessions; ++k)
	{
		Session s(out, 2 + rng.below(12), true); s.start(); std::set<std::string> strs{ "[]" }; std::set<long long> mem{ 0 }; std::vector<std::string> pool;
		for (unsigned i = 0, e = 3 + rng.below(8); i < e; ++i)
		{
			std::string c; bool wild = rng.chance(30); for (unsigned j = 0, f = rng.chance(10) ? rng.below(200) : rng.below(13); j < f; ++j) c += char(wild ? 1 + rng.below(255) : 'a' + rng.below(2));
			pool.push_back(codes(c)); if (c.size()) { pool.push_back(codes(c.substr(0, c.size() - 1))); pool.push_back(codes(c + c[0])); }
		}
		for (unsigned i = 0; i < len; ++i)
		{
			std::string t = n(1 + rng.below(unsigned(s.T.size()))), c = rng.pick(pool), mm = n(rng.chance(70) ? rng.below(6) : rng.chance(50) ? 97 + 256 * rng.below(100) : rng.below(1u << 30));
			unsigned w = rng.below(100);
			if (w < 35) { s.step(parse("[\"name\"," + t + "," + c + "]")); strs.insert(c); }
			else if (w < 60) { s.step(parse("[\"mem\"," + t + "," + mm + "," + c + "]")); strs.insert(c); mem.insert(atoll(mm.c_str())); }
			else if (w < 70) s.step(parse("[\"get\"," + t + "," + (rng.chance(50) ? "-1" : mm) + "]"));
			else if (w < 80) s.step(parse("[\"list\"," + t + "]"));
			else if (w < 90) s.step(parse("[\"find\"," + c + "]"));
			else if (w < 95) s.step(parse("[\"drop\"," + t + "]"));
			else if (w < 97) s.step(parse("[\"back\"]"));
		}
		for (auto& c : pool) if (strs.size() < 20) strs.insert(c);
		s.sweep(strs, mem); s.end();
	}
}
