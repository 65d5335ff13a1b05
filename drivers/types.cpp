// Sessions of type and constant requests.  A request is a description; the driver phrases it in one of the ways the API offers.
#include "tbuild.h"
static std::string text(const JV& d) { if (d.k == JV::Arr) { std::string r = "["; for (auto& x : d.a) { if (r.size() > 1) r += ","; r += text(x); } return r + "]"; } return d.k == JV::Num ? n(d.i) : "\"" + d.s + "\""; }
// C++ types the templates know
static bool templated(Module& m, const JV& d, Instruction*& o)
{
	// what T stands for is checked by the specification, here it only selects candidates by name
	const std::string s = text(d);
	auto ask = [&](const char* w, auto* p) { if (s != w) return false; using T = std::remove_pointer_t<decltype(p)>; o = m.type<T>(); return true; };
	return ask("[\"Float\",32]", (float*)0) || ask("[\"Float\",64]", (double*)0) || ask("[\"Int\",32,1]", (int*)0) || ask("[\"Int\",32,0]", (unsigned*)0) || ask("[\"Int\",8,1]", (char*)0) || ask("[\"Int\",8,0]", (unsigned char*)0)
		|| ask("[\"Int\",16,1]", (short*)0) || ask("[\"Int\",16,0]", (unsigned short*)0) || ask("[\"Int\",64,1]", (long long*)0) || ask("[\"Int\",64,0]", (unsigned long long*)0) || ask("[\"Bool\"]", (bool*)0)
		|| ask("[\"Vec\",[\"Float\",32],2]", (vector_t<float, 2>*)0) || ask("[\"Vec\",[\"Float\",32],3]", (vector_t<float, 3>*)0) || ask("[\"Vec\",[\"Float\",32],4]", (vector_t<float, 4>*)0) || ask("[\"Vec\",[\"Int\",32,0],3]", (vector_t<unsigned, 3>*)0) || ask("[\"Vec\",[\"Bool\"],2]", (vector_t<bool, 2>*)0)
		|| ask("[\"Mat\",[\"Vec\",[\"Float\",32],3],2]", (matrix_t<float, 2, 3>*)0) || ask("[\"Mat\",[\"Vec\",[\"Float\",32],2],3]", (matrix_t<float, 3, 2>*)0) || ask("[\"Mat\",[\"Vec\",[\"Float\",64],2],2]", (matrix_t<double, 2, 2>*)0)
		|| ask("[\"Arr\",[\"Float\",32],7]", (array_t<float, 7>*)0) || ask("[\"Arr\",[\"Vec\",[\"Float\",32],4],2]", (array_t<vector_t<float, 4>, 2>*)0) || ask("[\"Sampler\"]", (sampler_t*)0) || ask("[\"T\",34]", (event_t*)0) || ask("[\"T\",4472]", (ray_query_khr_t*)0) || ask("[\"T\",5341]", (acceleration_structure_khr_t*)0)
		|| ask("[\"T\",327]", (named_barrier_t*)0) || ask("[\"T\",36]", (reserve_id_t*)0) || ask("[\"T\",37]", (queue_t*)0) || ask("[\"T\",322]", (pipe_storage_t*)0) || ask("[\"T\",35]", (device_event_t*)0);
}
static Instruction* request(Module& m, const JV& d)
{
	Instruction* o = nullptr;
	if (R->chance(30) && templated(m, d, o)) return o;
	if ((is(d, "Ptr")) && R->chance(30))
	{
		auto sc = spv::StorageClass(num(d.a[1])); const std::string s = text(d.a[2]);
		if (s == "[\"Float\",32]") return m.type<float*>(sc); if (s == "[\"Vec\",[\"Float\",32],3]") return m.type<vector_t<float, 3>*>(sc);
	}
	if (is(d, "SImg") && R->chance(30)) return m.type<dyn_sampled_image_t>(dyn_sampled_image_t{ dimg(d.a[1]) });
	if (is(d, "Img") && R->chance(30)) return m.type<dyn_image_t>(dimg(d));
	if ((is(d, "Struct") || is(d, "Fun")) && R->chance(25) && !d.a[1].a.empty())
	{
		List<Instruction*> subs(m.getAllocator()); std::vector<Instruction*> v;
		for (auto& x : d.a[1].a) { Type t = mk(m, x); v.push_back(m.addType(t)); subs.emplace_back(v.back()); }
		auto op = is(d, "Struct") ? spv::Op::OpTypeStruct : spv::Op::OpTypeFunction;
		if (v.size() == 2 && R->chance(50)) return m.compositeType(op, v[0], v[1]);
		return m.compositeType(op, subs);
	}
	Type t = mk(m, d); 
	if (R->chance(20)) { Type u(t); dirty(t); t = u; } else if (R->chance(20)) { Type u(stdrep::move(t)); t = stdrep::move(u); }
	return m.addType(t, R->chance(10) ? "aName" : nullptr);
}
// ------------------------------------------------------------------ constants
static uint64_t bits(const JV& b) { uint64_t v = 0; for (size_t i = 0; i < b.a.size(); ++i) v |= uint64_t(num(b.a[i])) << (16 * i); return v; }
template <class T, class U> static T as(U u) { T t; static_assert(sizeof(T) == sizeof(U)); memcpy(&t, &u, sizeof t); return t; }
// calls fn with the value of a scalar constant as C++ value
template <class F> static bool scalar(const JV& c, F fn)
{
	const JV& t = c.a[2]; uint64_t v = bits(c.a[3]);
	if (is(t, "Bool")) { fn(bool(v)); return true; }
	if (is(t, "Float")) { if (num(t.a[1]) == 32) { fn(as<float>(uint32_t(v))); return true; } if (num(t.a[1]) == 64) { fn(as<double>(v)); return true; } return false; }
	bool s = num(t.a[2]) == 1;
	switch (num(t.a[1])) { case 8: if (s) fn(char(v)); else fn((unsigned char)v); return true; case 16: if (s) fn(short(v)); else fn((unsigned short)v); return true; case 32: if (s) fn(int(uint32_t(v))); else fn(uint32_t(v)); return true; case 64: if (s) fn((sgt_int64_t)v); else fn((sgt_uint64_t)v); return true; }
	return false;
}
static void makeC(Module& m, Constant& c, const JV& d)
{
	const std::string& k = d.a[1].s;
	if (k == "val" || k == "spec") { if (R->chance(80)) scalar(d, [&](auto v) { c.make(v, k == "spec"); }); else scalar(d, [&](auto v) { if constexpr (std::is_same_v<decltype(v), bool>) c.make(v, k == "spec"); else { c.setType<decltype(v)>(); c.setOperation(k == "spec" ? spv::Op::OpSpecConstant : spv::Op::OpConstant); c.addData(v); } }); }
	else if (k == "null") { c.setOperation(spv::Op::OpConstantNull); c.getType() = mk(m, d.a[2]); }
	else if (k == "sampler") { const_sampler_t s; s.addressMode = spv::SamplerAddressingMode(num(d.a[3].a[0])); s.coordMode = ConstantSamplerCoordMode(num(d.a[3].a[1])); s.filterMode = spv::SamplerFilterMode(num(d.a[3].a[2])); c.make(s); }
	else { c.setOperation(k == "comp" ? spv::Op::OpConstantComposite : spv::Op::OpSpecConstantComposite); c.getType() = mk(m, d.a[2]); for (auto& x : d.a[4].a) makeC(m, c.Component(), x); }
}
static bool floats(const JV& d, std::vector<float>& v) { for (auto& x : d.a[4].a) { if (x.a[1].s != "val") return false; if (text(x.a[2]) != "[\"Float\",32]") return false; v.push_back(as<float>(uint32_t(bits(x.a[3])))); } return true; }
static Instruction* requestC(Module& m, const JV& d)
{
	const std::string& k = d.a[1].s; Instruction* o = nullptr; bool spec = k == "spec" || k == "speccomp";
	if ((k == "val" || k == "spec") && R->chance(50)) { scalar(d, [&](auto v) { if (spec && R->chance(50)) o = m.specConstant(v, R->chance(20) ? "sn" : nullptr); else o = m.constant(v, spec); }); return o; }
	if (k == "null" && R->chance(40)) { const std::string s = text(d.a[2]); if (s == "[\"Float\",32]") return m.constant(const_null_t<float>{}); if (s == "[\"Bool\"]") return m.constant(const_null_t<bool>{}); if (s == "[\"Vec\",[\"Float\",32],3]") return m.constant(const_null_t<vector_t<float, 3>>{}); if (s == "[\"Arr\",[\"Float\",32],2]") return m.constant(const_null_t<array_t<float, 2>>{}); }
	if (k == "sampler" && R->chance(50)) { const_sampler_t s; s.addressMode = spv::SamplerAddressingMode(num(d.a[3].a[0])); s.coordMode = ConstantSamplerCoordMode(num(d.a[3].a[1])); s.filterMode = spv::SamplerFilterMode(num(d.a[3].a[2])); return m.constant(s); }
	std::vector<float> f;
	if ((k == "comp" || k == "speccomp") && R->chance(50) && is(d.a[2], "Vec") && floats(d, f))
	{
		switch (f.size()) { case 2: return m.constant(make_vector(f[0], f[1]), spec); case 3: return m.constant(make_vector(f[0], f[1], f[2]), spec); case 4: return m.constant(make_vector(f[0], f[1], f[2], f[3]), spec); }
	}
	f.clear();
	if (k == "comp" && R->chance(50) && is(d.a[2], "Arr") && floats(d, f) && f.size() == 2) return m.constant(make_array(f[0], f[1]));
	if (k == "comp" && R->chance(50) && is(d.a[2], "Mat")) { std::vector<float> a, b; if (d.a[4].a.size() == 2 && floats(d.a[4].a[0], a) && floats(d.a[4].a[1], b) && a.size() == 2) return m.constant(make_matrix(make_vector(a[0], a[1]), make_vector(b[0], b[1]))); }
	Constant c = m.newConstant(); makeC(m, c, d);
	if (R->chance(20)) { Constant e(c); c.reset(); c = e; } else if (R->chance(20)) { Constant e(stdrep::move(c)); c = stdrep::move(e); }
	// a constituent taken out of its composite is the constant it was
	if (R->chance(15)) { Constant e = m.newConstant(); e.setType<int>(); e.setOperation(spv::Op::OpConstantComposite); if (R->chance(50)) e.Component().make(7); e.Component() = c; if (R->chance(50)) e = e.getComponents().back(); else e = stdrep::move(e.getComponents().back()); c = e; }
	return m.addConstant(c, R->chance(10) ? "cName" : nullptr);
}
int main(int, char** av)
{
	Sink out(av[1]); auto uni = readLines(av[2]); auto scripts = readLines(av[3]); Rng r(strtoull(av[4], nullptr, 10)); R = &r; unsigned rnd = atoi(av[5]), len = atoi(av[6]);
	watchdog(280); std::vector<JV> u; for (auto& l : uni) u.push_back(parse(l));
	for (size_t s = 0; s < scripts.size() + rnd; ++s)
	{
		HeapAllocator al; Logger lg; Module m(&al, &lg); Snap sn;
		out.line("{\"ev\":\"reset\"}");
		std::vector<JV> reqs;
		if (s < scripts.size()) { reqs = parse(scripts[s]).a; for (size_t i = 0; i < 2; ++i) if (!reqs.empty()) reqs.push_back(reqs[r.below((unsigned)reqs.size())]); }
		// the whole universe, twice, in random orders: every pair of requests meets in one module
		else if (s < scripts.size() + 6) { for (int k = 0; k < 2; ++k) { std::vector<JV> p(u); while (!p.empty()) { unsigned i = r.below((unsigned)p.size()); reqs.push_back(p[i]); p[i] = p.back(); p.pop_back(); } } }
		else { std::vector<JV> pool; for (unsigned i = 0; i < 2 + len / 3; ++i) pool.push_back(r.pick(u)); for (unsigned i = 0; i < len; ++i) reqs.push_back(r.pick(pool)); }
		for (auto& q : reqs)
		{
			std::vector<int> before; for (auto& i : m.getTypesAndConstants()) before.push_back(sn.node(&i));
			bool c = q.a[0].s == "C"; int found = c ? 0 : sn.node(m.getTypeInstr(mk(m, q))); Instruction* g = c ? requestC(m, q) : request(m, q);
			std::string nw = "["; size_t k = 0; bool kept = true;
			for (auto& i : m.getTypesAndConstants()) { if (k < before.size()) kept = kept && before[k] == sn.node(&i); else { if (nw.size() > 1) nw += ","; nw += sn.instr(i); } ++k; }
			kept = kept && k >= before.size();
			std::string info = "[\"none\"]"; if (g) { if (c) { if (auto* x = m.getConstantInfo(g)) info = constDesc(*x); } else if (auto* x = m.getTypeInfo(g)) info = typeDesc(*x); }
			out.line(Obj().str("ev", "req").raw("want", text(q)).num("found", found).num("after", c ? 0 : sn.node(m.getTypeInstr(mk(m, q)))).num("got", sn.node(g)).raw("new", nw + "]").flag("kept", kept).raw("info", info).num("err", lg.errors).str("last", lg.last).done());
		}
		std::vector<std::string> infos;
		for (auto& i : m.getTypesAndConstants()) { std::string d = "[\"none\"]"; if (i.isType()) { if (auto* t = m.getTypeInfo(&i)) d = typeDesc(*t); } else if (auto* t = m.getConstantInfo(&i)) d = constDesc(*t); infos.push_back("[" + n(sn.node(&i)) + "," + d + "]"); }
		out.line(Obj().str("ev", "all").raw("infos", arr(infos)).done());
	}
}
