// Type directed operations on a block, in every way they can be written.
#include "ops.h"
#include "spvgentwo/Operators.h"
#include <memory>
using namespace vt;
static Sink* out;
using I = Instruction; using BB = BasicBlock;
// how a request is written
static const char* Forms[] = { "instruction", "block", "stack", "reference", "pointer" };
struct Asked { Instruction* r; BasicBlock* b; };
static Asked ask(const std::string& g, unsigned form, BB& b, I* l, I* r, bool scalar)
{
	using namespace spvgentwo::ops;
#define PAIR(G, O) if (g == #G) switch (form) { case 0: return { b->G(l, r), &b }; case 1: return { nullptr, &b.G(l, r) }; case 2: return { nullptr, &b.G(r) }; case 3: return { nullptr, &(b O *r) }; default: return { nullptr, &(b O r) }; }
	if (g == "Div" && !scalar) return { b->Div(l, r, false), &b };
	PAIR(Add, +) PAIR(Sub, -) PAIR(Mul, *) PAIR(Div, /) PAIR(Equal, ==) PAIR(NotEqual, !=) PAIR(Less, <) PAIR(LessEqual, <=) PAIR(Greater, >) PAIR(GreaterEqual, >=)
	if (g == "Not") switch (form) { case 0: return { b->Not(l), &b }; case 1: return { nullptr, &b.Not(l) }; case 2: return { nullptr, &b.Not() }; default: return { nullptr, &(!b) }; }
	fprintf(stderr, "unknown request %s\n", g.c_str()); exit(3);
}
struct Session
{
	HeapAllocator al; Logger lg; std::unique_ptr<Module> m; Function* f; BasicBlock* defs; static Rng R;
	Session() : m(new Module(&al, &lg)) { m->addCapability(spv::Capability::Shader); f = &m->addFunction<void>("f"); defs = &f->addBasicBlock("d"); }
	I* value(const J& d, BB& at)
	{
		Type ty = mkType(*m, d); bool simple = isD(d, "Int") || isD(d, "Float") || isD(d, "Bool") || isD(d, "Vec") || isD(d, "Mat");
		switch (R.below(5)) { case 0: if (simple && &at == defs) { Constant c(&al); c.setOperation(spv::Op::OpConstantNull); c.getType() = ty; return m->addConstant(c); } break; case 1: if (&at == defs) return f->addParameters(m->addType(ty)); break; case 2: { I* u = at->opUndef(m->addType(ty)); return at->opCopyObject(u); } default: break; }
		return at->opUndef(m->addType(ty));
	}
	void chain(const J& s)
	{
		BB& b = f->addBasicBlock("b"); I* cur = value(s.a[0], b);   // last in the block
		out->line(Obj().str("ev", "begin").raw("t", text(s.a[0])).done());
		for (auto& st : s.a[1].a)
		{
			const std::string& g = st.a[0].s; bool left = st.a[2].s == "l", un = g == "Not";
			I* other = un ? nullptr : value(st.a[1], *defs);
			I* l = un || left ? cur : other; I* r = un ? nullptr : left ? other : cur;
			unsigned form = un || left ? R.below(un ? 4 : 5) : R.below(2);
			bool scalar = !(g == "Div" && form == 0 && R.below(3) == 0 && s.a[1].a.size() == 1);
			std::set<const I*> had; for (const I& i : b) had.insert(&i);
			unsigned before = lg.errors; lg.lastError.clear(); size_t blocks = count();
			Asked a = ask(g, form, b, l, r, scalar);
			std::vector<const I*> lst; std::map<const I*, int> pos; bool order = a.b == &b, fresh = false;
			for (const I& i : b) { if (had.count(&i)) { if (fresh) order = false; continue; } fresh = true; if (i.getOperation() != spv::Op::OpNop) { lst.push_back(&i); pos[&i] = int(lst.size()); } }
			std::vector<std::string> added;
			for (auto* i : lst)
			{
				std::string rt = "[]"; std::vector<std::string> ops; size_t k = 0;
				for (const Operand& o : *i) { size_t p = k++; if (p == 0) { rt = o.isInstruction() ? decode(o.instruction) : std::string("[\"none\"]"); continue; } if (p == 1) { if (!o.isId()) ops.push_back("[\"noid\"]"); continue; } ops.push_back(operand(o, l, r, pos)); }
				added.push_back("[" + n(unsigned(i->getOperation())) + "," + rt + "," + arr(ops) + "]");
			}
			// what the block yields is what was added last
			I* res = b; bool err = form == 0 ? a.r == nullptr || a.r->isErrorInstr() : b.back().getOperation() == spv::Op::OpNop || lst.empty();
			bool ret = err || (!lst.empty() && lst.back() == &b.back() && res == &b.back() && (form != 0 || a.r == lst.back()));
			std::string ts = "[" + (un ? text(s.a[0]) : std::string()) + "]";
			auto tt = [&](I* x) { return x == cur ? tops : text(st.a[1]); };
			if (&st == &s.a[1].a[0]) tops = text(s.a[0]);
			ts = un ? "[" + tt(l) + "]" : "[" + tt(l) + "," + tt(r) + "]";
			out->line(Obj().str("ev", "do").str("g", g).str("form", Forms[form]).raw("ts", ts).num("side", un || left ? 1 : 2).flag("scalar", scalar).flag("err", err).num("logs", lg.errors - before).raw("new", arr(added)).flag("ret", ret).flag("order", order && count() == blocks).str("last", lg.lastError.substr(0, 80)).done());
			if (err) return;
			cur = &b.back(); tops = decode(cur->getResultTypeInstr());
		}
	}
	std::string tops;
	size_t count() { size_t k = 0; for (const BB& x : *f) { (void)x; ++k; } return k; }
	std::string operand(const Operand& o, I* l, I* r, const std::map<const I*, int>& pos)
	{
		if (!o.isInstruction() || o.instruction == nullptr) return "[\"?\"]";
		if (o.instruction == l) return "[\"a\",1]";
		if (o.instruction == r) return "[\"a\",2]";
		auto it = pos.find(o.instruction); if (it != pos.end()) return "[\"n\"," + n(it->second) + "]";
		if (o.instruction->getOperation() == spv::Op::OpConstant)
		{
			std::vector<std::string> w; size_t k = 0; for (const Operand& x : *o.instruction) if (k++ >= 2) { w.push_back(n(x.isLiteral() ? x.literal.value >> 16 : 0xfffffu)); w.push_back(n(x.literal.value & 0xffffu)); }
			return "[\"k\"," + decode(o.instruction->getResultTypeInstr()) + "," + arr(w) + "]";
		}
		return "[\"other\"]";
	}
};
Rng Session::R(1);
int main(int c, char** v)
{
	watchdog(600); Sink sk(v[1]); out = &sk; if (c > 3) Session::R = Rng(strtoull(v[3], nullptr, 10));
	std::unique_ptr<Session> s; unsigned k = 0;
	auto lines = readLines(v[2]); for (size_t i = lines.size(); i > 1; --i) std::swap(lines[i - 1], lines[Session::R.below(unsigned(i))]);
	for (auto& l : lines) { if (k++ % 64 == 0) { s.reset(); s.reset(new Session); } s->chain(parse(l)); }
	return 0;
}
