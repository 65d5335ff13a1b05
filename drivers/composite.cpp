// Access to the elements of composites, by index paths.
#include "ops.h"
#include <memory>
using namespace vt;
static Sink* out;
using I = Instruction;
struct Session
{
	HeapAllocator al; Logger lg; std::unique_ptr<Module> m; Function* f; BasicBlock* defs; static Rng R;
	Session() : m(new Module(&al, &lg)) { m->addCapability(spv::Capability::Shader); f = &m->addFunction<void>("f"); defs = &f->addBasicBlock("d"); }
	I* value(const J& d)
	{
		Instruction* ty = addT(*m, d); bool simple = isD(d, "Int") || isD(d, "Float") || isD(d, "Bool") || isD(d, "Vec") || isD(d, "Mat");
		switch (R.below(5)) { case 0: if (simple) { Constant c(&al); c.setOperation(spv::Op::OpConstantNull); c.getType() = *ty->getType(); I* k = m->addConstant(c); for (I* x : used) if (x == k) return (*defs)->opUndef(ty); return k; } break; case 1: return f->addParameters(ty); case 2: { I* u = (*defs)->opUndef(ty); return (*defs)->opCopyObject(u); } default: break; }
		if (isD(d, "Ptr") && R.below(2) && d.a[1].i == 7) return f->variable(*ty->getType());
		return (*defs)->opUndef(ty);
	}
	I* constant(const J& d, unsigned v) { return d.a[2].i ? m->constant<int>(int(v)) : m->constant<unsigned>(v); }
	Args used;
	void request(const J& s)
	{
		const std::string& h = s.a[0].s; std::vector<unsigned> x; for (auto& v : s.a[2].a) x.push_back(unsigned(int(v.i)));
		const auto& ts = s.a[1].a; Args& a = used; a.clear();
		bool typed = h == "opAccessChainTyped" || h == "opInBoundsAccessChain", construct = h.find("Construct") != std::string::npos;
		for (size_t k = 0; k < ts.size(); ++k)
		{
			if (k == 0 && (typed || (construct && h != "opCompositeConstructOfValue"))) a.push_back(addT(*m, ts[k]));
			else if (typed && k == 2) a.push_back(x[0] ? constant(ts[k], R.below(3)) : (*defs)->opUndef(addT(*m, ts[k])));
			else a.push_back(value(ts[k]));
		}
		BasicBlock& b = f->addBasicBlock("b"); if (R.below(2)) b->opUndef(m->type<float>());
		List<unsigned int> l(&al); for (unsigned v : x) l.emplace_back(v);
		// indices are constants of their own: they are not operands of the request
		Args shown = a; if (h.find("AccessChain") != std::string::npos && !typed) shown.resize(1);
		Watch w(*m, *f, b, lg); I* r = nullptr;
#define PATH(call, first) switch (x.size()) { case 1: r = call(first, x[0]); break; case 2: r = call(first, x[0], x[1]); break; case 3: r = call(first, x[0], x[1], x[2]); break; case 4: r = call(first, x[0], x[1], x[2], x[3]); break; default: exit(4); }
#define COMMA ,
		if (h == "opAccessChain") { if (x.empty()) r = b->opAccessChain(a[0]); else PATH(b->opAccessChain, a[0]) }
		else if (h == "opAccessChainList") r = b->opAccessChain(a[0], l);
		else if (h == "opCompositeExtract") PATH(b->opCompositeExtract, a[0])
		else if (h == "opCompositeExtractDynamic") r = b->opCompositeExtractDynamic(a[0], l);
		else if (h == "opCompositeInsert") PATH(b->opCompositeInsert, a[0] COMMA a[1])
		else if (h == "opVectorShuffle") { if (x.size() == 2) r = b->opVectorShuffle(a[0], a[1], x[0], x[1]); else if (x.size() == 3) r = b->opVectorShuffle(a[0], a[1], x[0], x[1], x[2]); else r = b->opVectorShuffle(a[0], a[1], x[0], x[1], x[2], x[3]); }
		else if (h == "opCompositeConstruct" || h == "opCompositeConstructOfValue")
			switch (a.size()) { case 2: r = b->opCompositeConstruct(a[0], a[1]); break; case 3: r = b->opCompositeConstruct(a[0], a[1], a[2]); break; case 4: r = b->opCompositeConstruct(a[0], a[1], a[2], a[3]); break; case 5: r = b->opCompositeConstruct(a[0], a[1], a[2], a[3], a[4]); break; default: exit(4); }
		else if (h == "opCompositeConstructDynamic") { List<I*> c(&al); for (size_t k = 1; k < a.size(); ++k) c.emplace_back(a[k]); r = b->opCompositeConstructDynamic(a[0], c); }
		else if (h == "opAccessChainTyped" || h == "opAccessChainOfValue") r = a.size() == 3 ? b->opAccessChain(a[0], a[1], a[2]) : a.size() == 4 ? b->opAccessChain(a[0], a[1], a[2], a[3]) : b->opAccessChain(a[0], a[1], a[2], a[3], a[4]);
		else if (h == "opInBoundsAccessChain") r = a.size() == 3 ? b->opInBoundsAccessChain(a[0], a[1], a[2]) : a.size() == 4 ? b->opInBoundsAccessChain(a[0], a[1], a[2], a[3]) : b->opInBoundsAccessChain(a[0], a[1], a[2], a[3], a[4]);
		else { fprintf(stderr, "unknown %s\n", h.c_str()); exit(3); }
		out->line(w.end(Obj().str("ev", "op").str("h", h).raw("ts", text(s.a[1])).raw("x", text(s.a[2])), shown, r).done());
	}
};
Rng Session::R(1);
int main(int c, char** v)
{
	watchdog(600); Sink sk(v[1]); out = &sk; if (c > 3) Session::R = Rng(strtoull(v[3], nullptr, 10));
	std::unique_ptr<Session> s; unsigned k = 0;
	auto lines = readLines(v[2]); for (size_t i = lines.size(); i > 1; --i) std::swap(lines[i - 1], lines[Session::R.below(unsigned(i))]);
	for (auto& l : lines) { if (k++ % 64 == 0) { s.reset(); s.reset(new Session); } s->request(parse(l)); }
	return 0;
}
