// Literals appended through every function that does so, and strings read back.
#include "mod.h"
using namespace vt;
static Rng* R;
struct Item { std::string kind, s; std::vector<unsigned> p; std::string json() const { if (kind == "s") return "[\"s\"," + codes(s) + "]"; return "[\"" + kind + "\"," + nums(p) + "]"; } };
template <class T, class U> static T as(U u) { T t; static_assert(sizeof(T) == sizeof(U)); memcpy(&t, &u, sizeof t); return t; }
static uint64_t bits(const Item& i) { uint64_t v = 0; for (size_t k = 0; k < i.p.size(); ++k) v |= uint64_t(i.p[k]) << (16 * k); return v; }
// calls fn with the C++ value an item stands for
template <class F> static void with(const Item& i, F fn)
{
	uint64_t v = bits(i);
	if (i.kind == "i8") fn(char(v)); else if (i.kind == "u8") fn((unsigned char)v); else if (i.kind == "i16") fn(short(v)); else if (i.kind == "u16") fn((unsigned short)v); else if (i.kind == "i32") fn(int(uint32_t(v)));
	else if (i.kind == "u32") fn(uint32_t(v)); else if (i.kind == "f32") fn(as<float>(uint32_t(v))); else if (i.kind == "enum") fn(spv::Decoration(uint32_t(v))); else if (i.kind == "flag") fn(spv::MemoryAccessMask(uint32_t(v))); else if (i.kind == "lit") fn(literal_t{ uint32_t(v) });
	else if (i.kind == "bool") fn(bool(v)); else if (i.kind == "i64") fn(sgt_int64_t(v)); else if (i.kind == "u64") fn(sgt_uint64_t(v)); else if (i.kind == "f64") fn(as<double>(v)); else { fprintf(stderr, "kind %s\n", i.kind.c_str()); exit(3); }
}
template <class It> static std::vector<uint32_t> lits(It b, It e) { std::vector<uint32_t> v; for (; b != e; ++b) v.push_back(b->isLiteral() ? b->getLiteral().value : 0xdeadbeefu); return v; }
static Item anyItem()
{
	static const char* const k[] = { "i8","u8","i16","u16","i32","u32","f32","enum","flag","lit","bool","i64","u64","f64" };
	Item i; if (R->chance(50)) { i.kind = "s"; unsigned len = R->chance(10) ? R->below(300) : R->below(14); for (unsigned x = 0; x < len; ++x) i.s += char(R->chance(20) ? R->range(1, 255) : R->range(32, 126)); return i; }
	i.kind = k[R->below(14)]; unsigned c = i.kind == "bool" ? 1 : i.kind.size() == 2 && i.kind[1] == '8' ? 1 : i.kind.find("16") != std::string::npos ? 1 : i.kind.find("64") != std::string::npos ? 4 : 2;
	for (unsigned x = 0; x < c; ++x) i.p.push_back(i.kind == "bool" ? R->below(2) : i.kind.find('8') != std::string::npos ? R->below(256) : R->chance(40) ? 0xffffu * R->below(2) : R->below(65536)); return i;
}
int main(int, char** av)
{
	Sink out(av[1]); auto scripts = readLines(av[2]); Rng r(strtoull(av[3], nullptr, 10)); R = &r; unsigned rnd = atoi(av[4]); watchdog(280);
	for (size_t s = 0; s < scripts.size() + rnd; ++s)
	{
		std::vector<Item> items;
		if (s < scripts.size()) { for (auto& x : parse(scripts[s]).a) { Item i; i.kind = x.a[0].s; if (i.kind == "s") for (auto& c : x.a[1].a) i.s += char(c.i); else for (auto& c : x.a[1].a) i.p.push_back((unsigned)c.i); items.push_back(i); } }
		else { unsigned k = r.range(1, 4); for (unsigned i = 0; i < k; ++i) items.push_back(anyItem()); }
		HeapAllocator al; Logger lg; Module m(&al, &lg); Type st = m.newType(); st.Struct().FloatM().FloatM().FloatM().FloatM(); Instruction* t = m.addType(st);
		std::vector<std::string> js; for (auto& i : items) js.push_back(i.json());
		auto emit = [&](const char* how, unsigned skip, const std::vector<uint32_t>& w, const std::string& its) { out.line(Obj().str("ev", "app").str("how", how).num("skip", skip).raw("items", its).raw("words", words(w)).num("err", lg.errors).str("last", lg.last).done()); };
		// appended to an instruction, a vector and a list
		Instruction* d = m.addDecorationInstr(); d->makeOp(spv::Op::OpDecorate, t, spv::Decoration::Location);
		Vector<literal_t> vec(&al); List<literal_t> li(&al); Vector<unsigned> vu(&al);
		for (auto& i : items)
		{
			if (i.kind == "s") { d->appendLiterals(i.s.c_str()); appendLiteralsToContainer(vec, i.s.c_str()); appendLiteralsToContainer(li, i.s.c_str()); }
			else with(i, [&](auto v) { d->appendLiterals(v); appendLiteralsToContainer(vec, v); appendLiteralsToContainer(li, v); });
		}
		emit("appendLiterals", 1, lits(d->begin().next(), d->end()), arr(js));
		{ std::vector<uint32_t> w; for (auto& x : vec) w.push_back(x.value); emit("appendLiteralsToContainer(Vector)", 0, w, arr(js)); w.clear(); for (auto& x : li) w.push_back(x.value); emit("appendLiteralsToContainer(List)", 0, w, arr(js)); }
		// several at once
		if (items.size() >= 2) { const Item& a = items[0]; const Item& b = items.back(); if (a.kind != "s") with(a, [&](auto x) { if (b.kind != "s") with(b, [&](auto y) { Instruction* k = m.addDecorationInstr(); k->makeOp(spv::Op::OpDecorate, t, 0u); k->appendLiterals(x, y, x); emit("appendLiterals(a, b, a)", 1, lits(k->begin().next(), k->end()), arr({ a.json(), b.json(), a.json() })); Instruction* o = m.addDecorationInstr(); o->makeOp(spv::Op::OpDecorate, t, 0u, x, y); emit("makeOp(a, b)", 1, lits(o->begin().next(), o->end()), arr({ a.json(), b.json() })); }); else { Instruction* o = m.addDecorationInstr(); o->makeOp(spv::Op::OpDecorate, t, 0u, x, b.s.c_str(), x); emit("makeOp(a, s, a)", 1, lits(o->begin().next(), o->end()), arr({ a.json(), b.json(), a.json() })); } }); }
		// the functions of the API that take a name or text
		for (auto& i : items) if (i.kind == "s")
		{
			const char* c = i.s.c_str(); std::string j = arr({ i.json() });
			switch (r.below(10))
			{
			case 0: { m.addName(t, c); auto& x = m.getNames().back(); emit("addName", 0, lits(x.begin().next(), x.end()), j); break; }
			case 1: { m.addMemberName(t, c, 3); auto& x = m.getNames().back(); emit("addMemberName", 1, lits(x.begin().next(), x.end()), j); break; }
			case 2: { Instruction* x = m.addSourceStringInstr(); x->opString(c); emit("opString", 0, lits(x->begin().next(), x->end()), j); break; }
			case 3: { Module x(&al, &lg); x.addExtension(c); for (auto& e : x.getExtensions()) emit("addExtension", 0, lits(e.value.begin(), e.value.end()), j); break; }
			case 4: { Instruction* x = m.addExtensionInstructionImport(c); emit("addExtensionInstructionImport", 0, lits(x->begin().next(), x->end()), j); break; }
			case 5: { EntryPoint& e = m.addEntryPoint(); e.finalize(spv::ExecutionModel::Fragment, spv::FunctionControlMask::MaskNone, c); auto* x = e.getEntryPoint(); auto it = x->begin(); ++it; ++it; emit("EntryPoint::finalize", 0, lits(it, x->end()), j);
				std::string nm(e.getName()); out.line(Obj().str("ev", "app").str("how", "EntryPoint::getName").num("skip", 0).raw("items", j).raw("words", [&] { std::vector<uint32_t> w(nm.size() / 4 + 1, 0); memcpy(w.data(), nm.data(), nm.size()); return words(w); }()).num("err", lg.errors).str("last", lg.last).done()); break; }
			case 6: { Function& f = m.addFunction(); f.setReturnType(m.type<void>()); f.finalize(spv::FunctionControlMask::MaskNone, c); if (!i.s.empty()) { auto& x = m.getNames().back(); emit("Function::finalize", 0, lits(x.begin().next(), x.end()), j); } break; }
			case 7: { Instruction* x = m.addDecorationInstr(); x->opDecorate(t, spv::Decoration::UserSemantic, c); emit("opDecorate", 1, lits(x->begin().next(), x->end()), j); break; }
			case 8: { Instruction* x = m.addSourceStringInstr(); x->makeOp(spv::Op::OpModuleProcessed, c); emit("makeOp", 0, lits(x->begin(), x->end()), j); break; }
			case 9: { Instruction* x = m.addDecorationInstr(); x->opMemberDecorate(t, 2u, spv::Decoration::UserSemantic, c); emit("opMemberDecorate", 2, lits(x->begin().next(), x->end()), j); break; }
			}
		}
		// reading strings back: at the start of every word behind the target
		std::vector<uint32_t> w = lits(d->begin().next(), d->end()); if (w.size() > 40) continue;
		// something that is no literal, or nothing, may follow
		if (r.chance(30)) d->addOperand(t);
		auto idx = [&](Instruction::Iterator it) { unsigned k = 0; for (auto x = d->begin(); x != d->end(); ++x, ++k) if (x == it) return (long long)k; return (long long)k; };
		std::vector<std::string> reads; unsigned at = 1; 
		for (auto it = d->begin().next(); it != d->end() && it->isLiteral(); ++it, ++at)
		{
			String str(&al); auto nx = getLiteralString(str, it, d->end()); auto sk = skipLiteralString(it);
			std::string got(str.c_str(), str.size()); std::vector<std::string> cmps;
			auto cmp = [&](const std::string& c, long long n) { bool x = n < 0 ? compareLiteralString(c.c_str(), it, d->end()) : compareLiteralString(c.c_str(), it, d->end(), (sgt_size_t)n); cmps.push_back(Obj().raw("c", codes(c)).num("n", n).flag("r", x).done()); };
			cmp(got, -1); cmp(got + "x", -1); cmp(got, (long long)got.size()); cmp(got + "yz", (long long)got.size()); cmp("", -1);
			if (!got.empty()) { std::string a = got; a.pop_back(); cmp(a, -1); a = got; a[r.below((unsigned)a.size())] ^= 1; if (a.find('\0') == std::string::npos) cmp(a, -1); a = got; a.back() ^= 2; if (a.back()) { cmp(a, (long long)a.size()); cmp(a, (long long)a.size() - 1); } }
			reads.push_back(Obj().num("at", at).raw("got", codes(got)).num("next", idx(nx)).num("skip", idx(sk)).raw("cmp", arr(cmps)).done());
		}
		out.line(Obj().str("ev", "str").raw("words", words(w)).raw("reads", arr(reads)).done());
	}
}
