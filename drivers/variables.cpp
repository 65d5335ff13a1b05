// Variables of modules and functions, requested in every way the API offers.
#include "tbuild.h"
#include "descs.h"
#include <memory>
static Sink* out;
static uint64_t bits(const JV& b) { uint64_t v = 0; for (size_t i = 0; i < b.a.size(); ++i) v |= uint64_t(num(b.a[i])) << (16 * i); return v; }
template <class T, class U> static T as(U u) { T t; static_assert(sizeof(T) == sizeof(U)); memcpy(&t, &u, sizeof t); return t; }
template <class F> static bool scalar(const JV& c, F fn)
{
	const JV& t = c.a[2]; uint64_t v = bits(c.a[3]);
	if (is(t, "Bool")) { fn(bool(v)); return true; }
	if (is(t, "Float")) { if (num(t.a[1]) == 32) { fn(as<float>(uint32_t(v))); return true; } fn(as<double>(v)); return true; }
	bool s = num(t.a[2]) == 1;
	switch (num(t.a[1])) { case 8: if (s) fn(char(v)); else fn((unsigned char)v); return true; case 16: if (s) fn(short(v)); else fn((unsigned short)v); return true; case 32: if (s) fn(int(uint32_t(v))); else fn(uint32_t(v)); return true; case 64: if (s) fn((sgt_int64_t)v); else fn((sgt_uint64_t)v); return true; }
	return false;
}
static void makeC(Module& m, Constant& c, const JV& d)
{
	const std::string& k = d.a[1].s;
	if (k == "val" || k == "spec") scalar(d, [&](auto v) { c.make(v, k == "spec"); });
	else if (k == "null") { c.setOperation(spv::Op::OpConstantNull); c.getType() = mk(m, d.a[2]); }
	else { c.setOperation(spv::Op::OpConstantComposite); c.getType() = mk(m, d.a[2]); for (auto& x : d.a[4].a) makeC(m, c.Component(), x); }
}
template <class T> struct Tag { using type = T; };
// the C++ type a description stands for, if there is one
template <class F> static bool templated(const std::string& s, F fn)
{
	auto ask = [&](const char* w, auto tag) { if (s != w) return false; fn(tag); return true; };
	return ask("[\"Float\",32]", Tag<float>()) || ask("[\"Float\",64]", Tag<double>()) || ask("[\"Int\",32,1]", Tag<int>()) || ask("[\"Int\",32,0]", Tag<unsigned>()) || ask("[\"Bool\"]", Tag<bool>()) || ask("[\"Int\",64,1]", Tag<sgt_int64_t>()) || ask("[\"Int\",64,0]", Tag<sgt_uint64_t>())
		|| ask("[\"Int\",8,1]", Tag<char>()) || ask("[\"Int\",8,0]", Tag<unsigned char>()) || ask("[\"Int\",16,1]", Tag<short>()) || ask("[\"Int\",16,0]", Tag<unsigned short>())
		|| ask("[\"Vec\",[\"Float\",32],2]", Tag<vector_t<float, 2>>()) || ask("[\"Vec\",[\"Float\",32],3]", Tag<vector_t<float, 3>>()) || ask("[\"Vec\",[\"Float\",32],4]", Tag<vector_t<float, 4>>()) || ask("[\"Vec\",[\"Int\",32,0],3]", Tag<vector_t<unsigned, 3>>()) || ask("[\"Vec\",[\"Bool\"],2]", Tag<vector_t<bool, 2>>())
		|| ask("[\"Mat\",[\"Vec\",[\"Float\",32],3],2]", Tag<matrix_t<float, 2, 3>>()) || ask("[\"Arr\",[\"Float\",32],2]", Tag<array_t<float, 2>>()) || ask("[\"Arr\",[\"Float\",32],7]", Tag<array_t<float, 7>>()) || ask("[\"Arr\",[\"Vec\",[\"Float\",32],4],2]", Tag<array_t<vector_t<float, 4>, 2>>()) || ask("[\"Sampler\"]", Tag<sampler_t>())
		|| ask("[\"T\",4472]", Tag<ray_query_khr_t>()) || ask("[\"T\",5341]", Tag<acceleration_structure_khr_t>());
}
static bool floats(const JV& d, std::vector<float>& v) { if (d.a[1].s != "comp") return false; for (auto& x : d.a[4].a) { if (x.a[1].s != "val" || text(x.a[2]) != "[\"Float\",32]") return false; v.push_back(as<float>(uint32_t(bits(x.a[3])))); } return true; }
// calls fn with a value that stands for the constant and knows its type
template <class F> static bool valued(const JV& c, F fn)
{
	if (c.a[1].s == "val") return scalar(c, fn);
	std::vector<float> f; if (!floats(c, f)) return false;
	if (is(c.a[2], "Vec")) { if (f.size() == 2) fn(make_vector(f[0], f[1])); else if (f.size() == 3) fn(make_vector(f[0], f[1], f[2])); else fn(make_vector(f[0], f[1], f[2], f[3])); return true; }
	if (is(c.a[2], "Arr") && f.size() == 2) { fn(make_array(f[0], f[1])); return true; }
	return false;
}
// the function of the module that is named like the storage class
#define HELPER(sc, CALL) switch (unsigned(sc)) { case 0: CALL(uniformConstant) break; case 1: CALL(input) break; case 2: CALL(uniform) break; case 3: CALL(output) break; case 9: CALL(pushConstant) break; case 11: CALL(image) break; case 12: CALL(storageBuffer) break; default: break; }
struct S
{
	HeapAllocator al; Logger lg; Module m{ &al, &lg }; Snap sn; std::vector<Function*> fs;
	std::string names() { std::vector<std::string> v; for (auto& i : m.getNames()) { auto it = i.begin(); String s(&al); getLiteralString(s, it.next(), i.end()); v.push_back("[" + n(sn.node(it->getInstruction())) + "," + codes(s.c_str()) + "]"); } return arr(v); }
	std::string vars()
	{
		std::vector<std::string> v; std::vector<int> g; for (auto& i : m.getGlobalVariables()) g.push_back(sn.node(&i)); v.push_back(nums(g));
		for (auto* f : fs) { g.clear(); if (!f->empty()) for (auto& i : f->front()) { if (i.getOperation() != spv::Op::OpVariable) break; g.push_back(sn.node(&i)); } v.push_back(nums(g)); }
		return arr(v);
	}
	void begin()
	{
		fs.push_back(&m.addFunction<void>("f")); fs.push_back(R->chance(50) ? &m.addFunction<float, float>("g", spv::FunctionControlMask::MaskNone) : &m.addEntryPoint<void>(spv::ExecutionModel::GLCompute, "main"));
		for (auto* f : fs) { if (f->empty()) f->addBasicBlock(); if (R->chance(50)) { f->addBasicBlock(); } }
		fs.push_back(&m.addFunction());
		BasicBlock& b = fs[1]->front(); if (R->chance(50)) { b->opFAdd(m.constant(1.f), m.constant(2.f)); } if (fs[1]->getReturnType().isVoid()) b.returnValue(); else b.returnValue(m.constant(1.f)); 
		std::string d; for (auto& i : m.getTypesAndConstants()) d += (d.empty() ? "" : ",") + sn.instr(i);
		out->line(Obj().str("ev", "begin").raw("new", "[" + d + "]").raw("vars", vars()).raw("names", names()).raw("blocks", blocks()).done());
	}
	// the labels of the blocks of every function
	std::string blocks() { std::vector<std::string> v; for (auto* f : fs) { std::vector<int> b; for (auto& x : *f) b.push_back(sn.node(x.getLabel())); v.push_back(nums(b)); } return arr(v); }
	// the variable, or nullptr if this way does not lend itself to the request
	Instruction* way(unsigned how, const JV& q, spv::StorageClass sc, const JV& t, const JV* c, const char* nm, Function* f)
	{
		Instruction* v = nullptr; const std::string s = text(t);
		auto init = [&]() -> Instruction* { if (!c) return nullptr; Constant k = m.newConstant(); makeC(m, k, *c); return m.addConstant(k); };
		auto pointer = [&] { Type p = mk(m, t); return p.wrapPointer(sc); };
		switch (how)
		{
		case 0: { Instruction* p = m.addType(pointer()); Instruction* i = init(); return f ? f->variable(p, nm, i) : m.variable(p, sc, nm, i); }
		case 1: { Type p = pointer(); Instruction* i = init(); return f ? f->variable(p, nm, i) : m.variable(p, sc, nm, i); }
		case 2: { if (is(t, "Ptr")) return nullptr; Type p = mk(m, t); Instruction* i = init(); return f ? f->variable(p, nm, i) : m.variable(p, sc, nm, i); }
		case 3: { if (f) return nullptr; Type p = is(t, "Ptr") || R->chance(50) ? pointer() : mk(m, t); Instruction* i = init();
#define CALL(h) v = m.h(p, nm, i);
			HELPER(sc, CALL)
#undef CALL
			return v; }
		case 4: { if (!templated(s, [](auto) {})) return nullptr; Instruction* i = init(); templated(s, [&](auto tag) { using T = typename decltype(tag)::type; v = f ? f->variable<T>(nm, i) : m.variable<T>(sc, nm, i); }); return v; }
		case 5: { if (f || !templated(s, [](auto) {})) return nullptr; Instruction* i = init(); templated(s, [&](auto tag) { using T = typename decltype(tag)::type;
#define CALL(h) v = m.h<T>(nm, i);
			HELPER(sc, CALL)
#undef CALL
			}); return v; }
		case 6: { if (!c) return nullptr; valued(*c, [&](auto x) { v = f ? f->variable(x, nm) : m.variable(sc, x, nm); }); return v; }
		case 7: { if (f) return nullptr; 
#define CALL(h) v = m.h<T>(nm, x);
			if (c) { if (c->a[1].s != "val") return nullptr; scalar(*c, [&](auto x) { using T = decltype(x); HELPER(sc, CALL) }); return v; }
			if (is(t, "SImg")) { using T = dyn_sampled_image_t; T x{ dimg(t.a[1]) }; if (R->chance(40)) return m.variable<T>(sc, x, nm); HELPER(sc, CALL) }
			else if (is(t, "Img")) { using T = dyn_image_t; T x = dimg(t); if (R->chance(40)) return m.variable<T>(sc, x, nm); HELPER(sc, CALL) }
			else if (is(t, "Vec") && isScalar(t.a[1])) { using T = dyn_vector_t; T x{ dscalar(t.a[1]), num(t.a[2]) }; HELPER(sc, CALL) }
			else if (is(t, "Mat")) { using T = dyn_matrix_t; T x{ { dscalar(t.a[1].a[1]), num(t.a[1].a[2]) }, num(t.a[2]) }; HELPER(sc, CALL) }
			else if (is(t, "Arr")) { using T = dyn_array_t; T x{ mk(m, t.a[1]), num(t.a[2]) }; HELPER(sc, CALL) }
			else if (is(t, "RArr")) { using T = dyn_runtime_array_t; T x{ mk(m, t.a[1]) }; HELPER(sc, CALL) }
			else if (isScalar(t)) { using T = dyn_scalar_t; T x = dscalar(t); HELPER(sc, CALL) }
#undef CALL
			return v; }
		case 8: { if (f) return nullptr; Instruction* p = m.addType(pointer()); Instruction* i = init(); return m.addGlobalVariableInstr(nm)->opVariable(p, sc, i); }
		}
		return nullptr;
	}
	void request(const JV& q)
	{
		auto get = [&](const char* k) -> const JV& { return q[k]; };
		auto sc = spv::StorageClass(num(get("sc"))); const JV& t = get("type"); const JV* c = get("init").a.empty() ? nullptr : &get("init").a[0]; unsigned at = num(get("at")); Function* f = at ? fs[at - 1] : nullptr;
		std::string nm; bool named = !(get("name").a.size() == 1 && get("name").a[0].i < 0); if (named) for (auto& x : get("name").a) nm += char(x.i);
		std::vector<int> before; for (auto& i : m.getTypesAndConstants()) before.push_back(sn.node(&i)); vars();
		Instruction* v = nullptr; unsigned how = 0; while (v == nullptr) v = way(how = R->below(9), q, sc, t, c, named ? nm.c_str() : nullptr, f);
		std::string nw; size_t k = 0; bool kept = true; for (auto& i : m.getTypesAndConstants()) { if (k < before.size()) kept = kept && before[k] == sn.node(&i); else nw += (nw.empty() ? "" : ",") + sn.instr(i); ++k; } kept = kept && k >= before.size();
		const char* got = v->getName(); std::string want = Obj().num("sc", unsigned(sc)).raw("type", text(t)).raw("init", text(get("init"))).raw("name", text(get("name"))).num("at", at).done();
		std::string ins = sn.instr(*v); const Type* ty = v->getType();
		out->line(Obj().str("ev", "var").num("how", how).raw("want", want).raw("new", "[" + nw + "]").flag("kept", kept).raw("instr", ins).raw("vars", vars()).raw("names", names()).raw("blocks", blocks()).raw("name", got ? codes(got) : "[-1]").num("storage", unsigned(v->getStorageClass())).raw("info", ty ? typeDesc(*ty) : "[\"none\"]").str("parent", v->getParentType() == Instruction::ParentType::Module ? "module" : v->getParentType() == Instruction::ParentType::BasicBlock && v->getBasicBlock() == &f->front() ? "block" : "other").num("err", lg.errors).str("last", lg.last).done());
	}
};
int main(int, char** av)
{
	watchdog(280); Sink o(av[1]); out = &o; auto uni = readLines(av[2]); auto scripts = readLines(av[3]); Rng r(strtoull(av[4], nullptr, 10)); R = &r; unsigned rnd = atoi(av[5]), len = atoi(av[6]);
	std::vector<JV> u; for (auto& l : uni) u.push_back(parse(l));
	for (size_t s = 0; s < scripts.size() + rnd; ++s)
	{
		S x; x.begin();
		if (s < scripts.size()) { for (auto& q : parse(scripts[s]).a) x.request(q); continue; }
		for (unsigned i = 0; i < len; ++i) x.request(r.pick(u));
	}
}
