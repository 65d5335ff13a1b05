// Entry points: scripts of calls and uses, random programs; the module after every finalisation.
#include "prog.h"
#include "descs.h"
#include <memory>
using namespace vt;
static Sink* out; static Grammar* gram; static Rng* R;
static std::string fin(Module& m, Snap& s, const std::string& given, bool fresh, unsigned minor)
{
	std::vector<std::string> acc; s.prune(m); s.number(m); std::string mod = s.module(m);
	for (const EntryPoint& e : m.getEntryPoints()) { std::vector<std::string> v; auto r = e.getInterfaceVariables(); for (auto it = r.begin(), end = r.end(); it != end; ++it) v.push_back(n(s.node(it->getInstruction()))); acc.push_back(arr(v)); }
	return Obj().str("ev", "fin").raw("m", mod).raw("acc", arr(acc)).raw("given", given).flag("new", fresh).num("minor", minor).done();
}
struct Session
{
	HeapAllocator al; Logger lg; std::unique_ptr<Module> m; Snap s; unsigned nf, ne; std::vector<Function*> F; std::vector<BasicBlock*> B; std::vector<Instruction*> V; std::vector<std::string> given; unsigned minor = 3; bool read = false, first = true; std::vector<bool> looped;
	Session(unsigned f, unsigned e, unsigned v) : m(new Module(&al, &lg)), nf(f), ne(e)
	{
		out->line(Obj().str("ev", "begin").done()); m->addCapability(spv::Capability::Shader); m->setSpvVersion(1, 3);
		static const spv::StorageClass sc[] = { spv::StorageClass::Input, spv::StorageClass::Output, spv::StorageClass::Private, spv::StorageClass::Uniform, spv::StorageClass::StorageBuffer };
		Type fp = m->newType(); fp.Pointer(spv::StorageClass::Private).FloatM();
		for (unsigned k = 0; k < v; ++k) { Type t = m->newType(); t.Float(); V.push_back(m->variable(t, sc[k % 5], ("v" + n(k)).c_str())); }
		for (unsigned k = 0; k < nf; ++k)
		{
			if (k + ne >= nf)
			{
				static const spv::ExecutionModel em[] = { spv::ExecutionModel::Vertex, spv::ExecutionModel::Fragment, spv::ExecutionModel::GLCompute }; auto x = em[R->below(3)];
				std::string nm = R->chance(30) ? "main" : "entry" + std::string(R->below(9), 'x'); EntryPoint* e;
				if (R->chance(50)) e = &m->addEntryPoint<void>(x, nm.c_str()); else { e = &m->addEntryPoint(); e->setReturnType(m->type<void>()); e->finalize(x, {}, nm.c_str()); e->addBasicBlock(); }
				F.push_back(e); B.push_back(&*e->begin()); (void)nm; names.push_back(nm); models.push_back(unsigned(x));
			}
			else { Function& g = m->addFunction(); g.setReturnType(m->type<void>()); if (R->chance(30)) g.addParameters(m->addType(m->newType().Float())); g.finalize({}, ("f" + n(k)).c_str()); g.addBasicBlock(); F.push_back(&g); B.push_back(&*g.begin()); }
			local.push_back(nullptr);
		}
	}
	std::vector<std::string> names; std::vector<unsigned> models; std::vector<Instruction*> local;
	// a function with a pointer parameter of this type
	std::map<Instruction*, Function*> takes;
	Function& taker(Instruction* pt) { Function*& f = takes[pt]; if (f == nullptr) { f = &m->addFunction(); f->setReturnType(m->type<void>()); f->addParameters(pt); f->finalize({}, "taker"); f->addBasicBlock()->opReturn(); } return *f; }
	// any instruction that has the variable as one of its operands: x variable, o another pointer, c float, u unsigned, l literal
	void any(unsigned f, Instruction* x, Instruction* other)
	{
		static const struct { unsigned op; bool res; const char* p; } K[] = { { 79, true, "xxl" }, { 79, true, "oxl" }, { 80, true, "cx" }, { 80, true, "x" }, { 81, true, "xl" }, { 82, true, "cxl" }, { 82, true, "xcl" }, { 124, true, "x" }, { 169, true, "cxo" }, { 169, true, "cox" }, { 65, true, "xu" }, { 65, true, "ox" },
			{ 66, true, "xu" }, { 67, true, "xuu" }, { 70, true, "xu" }, { 68, true, "xl" }, { 60, true, "xuu" }, { 60, true, "oux" }, { 227, true, "xuu" }, { 230, true, "xuuuuc" }, { 230, true, "ouuuux" }, { 127, true, "x" }, { 129, true, "cx" }, { 84, true, "x" }, { 86, true, "xc" }, { 86, true, "cx" }, { 87, true, "xc" }, { 88, true, "xcl" },
			{ 109, true, "x" }, { 117, true, "x" }, { 121, true, "x" }, { 123, true, "xl" }, { 170, true, "xu" }, { 401, true, "xo" }, { 403, true, "ox" }, { 64, false, "xou" }, { 64, false, "oxu" }, { 228, false, "xuuc" }, { 228, false, "ouux" }, { 62, false, "ox" }, { 99, false, "xcc" }, { 256, false, "xl" }, { 257, false, "xl" }, { 259, true, "uxouuu" }, { 6103, false, "" } };
		auto& k = K[R->below(sizeof(K) / sizeof(K[0]) - 1)]; BasicBlock& b = *B[f]; Instruction* u = m->constant(0u); Instruction* c = m->constant(1.f); auto i = b.addInstruction();
		i->setOperation(spv::Op(k.op)); if (k.res) { i->addOperand(x->getResultTypeInstr()); i->addOperand(InvalidId); }
		for (const char* p = k.p; *p; ++p) switch (*p) { case 'x': i->addOperand(x); break; case 'o': i->addOperand(other); break; case 'c': i->addOperand(c); break; case 'u': i->addOperand(u); break; case 'l': i->addOperand(literal_t{ 0u }); break; }
	}
	// an instruction that mentions the variable
	void use(unsigned f, unsigned v)
	{
		BasicBlock& b = *B[f]; Instruction* x = V[v]; Instruction* other = local[f] ? local[f] : (local[f] = F[f]->variable<float>()); auto c = m->constant(1.f);
		switch (R->below(16))
		{
		case 10: case 11: b->call(&taker(x->getResultTypeInstr()), x); break;
		case 12: case 13: case 14: case 15: any(f, x, other); break;
		case 0: b->opLoad(x); break;
		case 1: b->opStore(x, c); break;
		case 2: b->opCopyMemory(x, other); break;
		case 3: b->opCopyMemory(other, x); break;
		case 4: b->opCopyObject(x); break;
		case 5: { BasicBlock& mg = F[f]->addBasicBlock(); BasicBlock& in = F[f]->addBasicBlock(); b->opSelectionMerge(&mg, spv::SelectionControlMask::MaskNone); b->opBranchConditional(m->constant(true), &in, &mg); in->opLoad(x); in->opBranch(&mg); B[f] = &mg; break; }
		case 6: b->opStore(other, b->opLoad(x)); break;
		case 7: { Instruction* i = b.addInstruction(); i->makeOp(spv::Op::OpCopyObject, x->getResultTypeInstr(), InvalidId, x); break; }
		case 8: { Instruction* i = b.addInstruction(); i->makeOp(spv::Op::OpPtrAccessChain, x->getResultTypeInstr(), InvalidId, x, m->constant(0u)); break; }
		case 9: b->opLoad(b->opCopyObject(x)); break;
		}
	}
	// one instruction, two variables
	void both(unsigned f, unsigned v, unsigned w) { BasicBlock& b = *B[f]; if (R->chance(50)) b->opCopyMemory(V[v], V[w]); else { Instruction* i = b.addInstruction(); i->makeOp(spv::Op::OpSelect, V[v]->getResultTypeInstr(), InvalidId, m->constant(true), V[v], V[w]); } }
	void call(unsigned f, unsigned g) { Instruction* a = m->constant(2.f); if (F[g]->getParameters().empty()) (*B[f])->call(F[g]) ; else (*B[f])->call(F[g], a); }
	bool final(unsigned how)
	{
		std::vector<BasicBlock*> ended; for (unsigned k = 0; k < nf; ++k) if (F[k] && B[k]->getTerminator() == nullptr) { (*B[k])->opReturn(); ended.push_back(B[k]); }
		if (how == 0) m->finalizeEntryPoints(); else if (how == 1) m->finalize(nullptr); else if (how == 2) { VecWriter w; m->finalizeAndWrite(w, nullptr); } else m->finalize(gram);
		snap(false);
		for (auto* b : ended) b->remove(b->getTerminator()); return true;
	}
	void snap(bool fresh)
	{
		s.prune(*m); s.number(*m); std::vector<std::string> g; size_t k = 0; 
		for (const EntryPoint& e : m->getEntryPoints()) { g.push_back("[[\"l\",0," + n(models[k]) + "],[\"i\"," + n(s.node(e.getFunction())) + "]," + codes(names[k]) + "]"); ++k; }
		out->line(fin(*m, s, arr(g), fresh || first, minor)); first = false;
	}
	void step(const J& x)
	{
		auto a = [&](size_t k) { return unsigned(x.a[k].i); }; const std::string& op = x.a[0].s;
		if (op == "use") use(a(1) - 1, a(2) - 1); else if (op == "both") both(a(1) - 1, a(2) - 1, a(3) - 1); else if (op == "call") call(a(1) - 1, a(2) - 1);
		else if (op == "drop") { Function* f = F[a(1) - 1]; for (auto it = ++f->begin(); it != f->end();) it = f->erase(it); BasicBlock& b = f->front(); for (auto it = b.begin(); it != b.end();) it = b.erase(it); B[a(1) - 1] = &b; local[a(1) - 1] = nullptr; }
		else if (op == "ver") { minor = a(1); m->setSpvVersion(1, (unsigned char)minor); }
		else if (op == "fin") final(R->below(3));
	}
	void end() { final(R->below(4)); }
	// read the module back and finalise that
	void back()
	{
		for (unsigned k = 0; k < nf; ++k) if (B[k]->getTerminator() == nullptr) (*B[k])->opReturn();
		VecWriter w; m->finalizeAndWrite(w, nullptr); std::unique_ptr<Module> o(new Module(&al, &lg)); VecReader rd(w.v); if (!o->readAndInit(rd, *gram)) { fprintf(stderr, "VT_READ %s\n", lg.last.c_str()); exit(3); }
		// the accessor before anything is finalised
		m = std::move(o); s = Snap(); snap(true); if (R->chance(50)) { minor = R->chance(50) ? 3 : 5; m->setSpvVersion(1, (unsigned char)minor); } m->finalizeEntryPoints(); snap(false);
		if (R->chance(60)) { for (EntryPoint& e : m->getEntryPoints()) { BasicBlock& b = e.back(); Instruction* t = b.getTerminator(); for (unsigned c = R->below(5); c > 0; --c) { Instruction* x = nullptr; for (Instruction& i : b) if (&i != t && (i.getOperation() == spv::Op::OpStore || i.getOperation() == spv::Op::OpCopyMemory || i.getOperation() == spv::Op::OpFunctionCall)) x = &i; if (x) b.remove(x); } } m->finalizeEntryPoints(); snap(false); }
	}
};
int main(int, char** av)
{
	watchdog(850); Sink o(av[1]); out = &o; auto lines = readLines(av[2]); Rng r(strtoull(av[3], nullptr, 10)); R = &r; unsigned cases = atoi(av[4]), len = atoi(av[5]), progs = atoi(av[6]);
	unsigned nf = atoi(av[7]), ne = atoi(av[8]), nv = atoi(av[9]); HeapAllocator ga; Grammar gg(&ga); gram = &gg;
	for (auto& l : lines) { Session s(nf, ne, nv); for (auto& x : parse(l).a) s.step(x); s.end(); }
	for (unsigned k = 0; k < cases; ++k)
	{
		unsigned ne2 = r.range(1, 3), f = ne2 + r.below(7), v = r.range(1, 8); Session s(f, ne2, v); unsigned c = r.range(1, len);
		for (unsigned j = 0; j < c; ++j)
		{
			unsigned a = 1 + r.below(f); std::string x;
			switch (r.below(12)) { case 0: case 1: case 2: x = "[\"use\"," + n(a) + "," + n(1 + r.below(v)) + "]"; break; case 3: case 4: x = "[\"both\"," + n(a) + "," + n(1 + r.below(v)) + "," + n(1 + r.below(v)) + "]"; break;
				case 5: case 6: case 7: case 8: if (f > ne2) x = "[\"call\"," + n(a) + "," + n(1 + r.below(f - ne2)) + "]"; break; case 9: if (r.chance(40)) x = "[\"drop\"," + n(a) + "]"; break; case 10: x = "[\"ver\"," + n(r.below(7)) + "]"; break; case 11: x = "[\"fin\"]"; break; }
			if (!x.empty()) s.step(parse(x));
		}
		s.end(); if (r.chance(50)) s.back();
	}
	for (unsigned k = 0; k < progs; ++k)
	{
		HeapAllocator al; Logger lg; Module m(&al, &lg); unsigned minor = r.below(7); m.setSpvVersion(1, (unsigned char)minor); Prog p(m, r); p.random(r.range(1, 120)); o.line(Obj().str("ev", "begin").done());
		bool g = r.chance(40); m.finalize(g ? gram : nullptr); Snap s; s.number(m); std::vector<std::string> gv;
		for (const EntryPoint& e : m.getEntryPoints()) gv.push_back("[[\"l\",0," + n(unsigned(e.getExecutionModel())) + "],[\"i\"," + n(s.node(e.getFunction())) + "]," + codes(e.getName()) + "]");
		o.line(fin(m, s, arr(gv), true, minor));
	}
	return 0;
}
