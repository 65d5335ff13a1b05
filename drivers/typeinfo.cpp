// Type descriptions: slots that are built, wrapped, copied, moved and asked.
#include "tbuild.h"
#include "common/TypeHelper.h"
#include <memory>
using namespace vt;
static Sink* out;
static std::string q(const char* h, const std::string& args, const std::string& ans) { return "[\"" + std::string(h) + "\"," + args + "," + ans + "]"; }
static std::string L(std::initializer_list<long> v) { std::string r = "["; for (long x : v) { if (r.size() > 1) r += ","; r += n(x); } return r + "]"; }
static std::string tb(bool x) { return x ? "true" : "false"; }
static std::string str(const char* s) { if (!s) return "\"(null)\""; std::string r = "\""; for (; *s; ++s) if (*s != ' ' && *s != '\t' && *s != '\n') r += *s; return r + "\""; }
static std::string el(Type::Iterator it) { return it == nullptr ? "[\"none\"]" : typeDesc(*it); }
static const spv::Op scal[] = { spv::Op::OpTypeBool, spv::Op::OpTypeInt, spv::Op::OpTypeFloat };
struct Session
{
	HeapAllocator al; std::vector<std::unique_ptr<Type>> S;
	Session(unsigned k) { out->line(Obj().str("ev", "begin").num("slots", k).done()); for (unsigned i = 0; i < k; ++i) S.emplace_back(new Type(&al)); }
	void state(const std::string& op, const std::string& made)
	{
		std::vector<std::string> d, e; for (auto& t : S) { d.push_back(typeDesc(*t)); for (auto& u : S) e.push_back(tb((*t == *u) && !(*t != *u))); }
		out->line(Obj().str("ev", "step").raw("op", op).raw("made", made).raw("st", arr(d)).raw("eq", arr(e)).done());
	}
	void ask(unsigned i, unsigned j)
	{
		const Type& t = *S[i]; const Type& u = *S[j]; std::vector<std::string> a; auto add = [&](const char* h, const std::string& args, const std::string& ans) { a.push_back(q(h, args, ans)); };
		auto B = [&](const char* h, std::initializer_list<long> args, bool v) { add(h, L(args), tb(v)); };
		B("isVoid", {}, t.isVoid()); B("isBool", {}, t.isBool()); B("isPointer", {}, t.isPointer()); B("isStruct", {}, t.isStruct()); B("isArray", {}, t.isArray()); B("isRuntimeArray", {}, t.isRuntimeArray()); B("isImage", {}, t.isImage()); B("isSampler", {}, t.isSampler());
		B("isSampledImage", {}, t.isSampledImage()); B("isVector", {}, t.isVector()); B("isMatrix", {}, t.isMatrix()); B("isInt", {}, t.isInt()); B("isUInt", {}, t.isUInt()); B("isSInt", {}, t.isSInt()); B("isFloat", {}, t.isFloat()); B("isFunction", {}, t.isFunction());
		B("isInt", { 8 }, t.isI8()); B("isInt", { 16 }, t.isI16()); B("isInt", { 32 }, t.isI32()); B("isInt", { 64 }, t.isI64()); B("isUInt", { 8 }, t.isU8()); B("isUInt", { 16 }, t.isU16()); B("isUInt", { 32 }, t.isU32()); B("isUInt", { 64 }, t.isU64());
		B("isSInt", { 8 }, t.isS8()); B("isSInt", { 16 }, t.isS16()); B("isSInt", { 32 }, t.isS32()); B("isSInt", { 64 }, t.isS64()); B("isFloat", { 16 }, t.isF16()); B("isFloat", { 32 }, t.isF32()); B("isFloat", { 64 }, t.isF64());
		unsigned w = 8u << R->below(4); B("isInt", { (long)w }, t.isInt(w)); B("isUInt", { (long)w }, t.isUInt(w)); B("isSInt", { (long)w }, t.isSInt(w)); B("isFloat", { (long)w }, t.isFloat(w)); B("isInt", { (long)w, 1 }, t.isInt(w, Sign::Signed)); B("isInt", { (long)w, 0 }, t.isInt(w, Sign::Unsigned)); B("isInt", { 0, 1 }, t.isInt(0, Sign::Signed)); B("isInt", { 0, 0 }, t.isInt(0, Sign::Unsigned));
		B("isNumerical", {}, t.isNumerial()); B("isScalar", {}, t.isScalar()); B("isAggregate", {}, t.isAggregate()); B("isComposite", {}, t.isComposite()); B("isSigned", {}, t.isSigned()); B("isUnsigned", {}, t.isUnsigned()); B("isSigned", {}, t.hasSign(Sign::Signed)); B("any", {}, t.hasSign(Sign::Any));
		B("isOp", { 31 }, t.isOpaque()); B("isOp", { 34 }, t.isEvent()); B("isOp", { 35 }, t.isDeviceEvent()); B("isOp", { 36 }, t.isReservedId()); B("isOp", { 37 }, t.isQueue()); B("isOp", { 38 }, t.isPipe()); B("isOp", { 322 }, t.isPipeStorage()); B("isOp", { 4472 }, t.isRayQueryKHR()); B("isOp", { 5341 }, t.isAccelerationStructure()); B("isOp", { 39 }, t.isForwardPointer());
		long sc = R->chance(60) && t.isPointer() ? long(t.getStorageClass()) : R->below(13); B("isPointer", { sc }, t.isPointer(spv::StorageClass(sc)));
		for (int k = 0; k < 4; ++k)
		{
			unsigned len = k == 0 ? 0 : R->below(5); if (len == 1) len = 3; unsigned wd = k < 2 ? 0 : R->chance(30) ? 0 : 8u << R->below(4); auto op = scal[R->below(3)]; long s = op == spv::Op::OpTypeInt ? long(R->below(3)) - 1 : -1; Sign sg = s < 0 ? Sign::Any : s ? Sign::Signed : Sign::Unsigned; long o = long(op), ln = len, wi = wd;
			B("isVectorOf", { o, ln, wi, s }, t.isVectorOf(op, len, wd, sg)); B("isScalarOrVectorOf", { o, ln, wi, s }, t.isScalarOrVectorOf(op, len, wd, sg)); B("isVectorOfLength", { ln, wi }, t.isVectorOfLength(len, wd));
			long si = long(R->below(3)) - 1; Sign sn = si < 0 ? Sign::Any : si ? Sign::Signed : Sign::Unsigned; B("isVectorOf", { 21, ln, wi, si }, t.isVectorOfInt(len, wd, sn));
			B("isVectorOf", { 21, ln, wi, 1 }, t.isVectorOfSInt(len, wd)); B("isVectorOf", { 21, ln, wi, 0 }, t.isVectorOfUInt(len, wd)); B("isVectorOf", { 22, ln, wi, -1 }, t.isVectorOfFloat(len, wd)); B("isVectorOf", { 20, ln, 0, -1 }, t.isVectorOfBool(len)); B("isNumericalScalarOrVector", { ln, wi }, t.isNumericalScalarOrVector(len, wd));
			unsigned c = R->chance(40) ? 0 : 2 + R->below(3), r = R->chance(40) ? 0 : 2 + R->below(3); B("isMatrixOf", { o, long(c), long(r), wi }, t.isMatrixOf(op, c, r, wd)); B("isMatrixOf", { 22, long(c), long(r), wi }, t.isMatrixOfFloat(c, r, wd)); B("isMatrixOf", { 21, long(c), long(r), wi }, t.isMatrixOfInt(c, r, wd)); B("isSquareOf", { o }, t.isSqareMatrixOf(op)); B("isBaseTypeOf", { o }, t.isBaseTypeOf(op)); B("contains", { o }, t.containsType(op));
		}
		B("isVectorOf", { 20, 0, 0, -1 }, t.isVectorOf(spv::Op::OpTypeBool)); B("isVectorOf", { 21, 0, 0, -1 }, t.isVectorOf(spv::Op::OpTypeInt)); B("isVectorOf", { 22, 0, 0, -1 }, t.isVectorOf(spv::Op::OpTypeFloat)); B("isVectorOf", { 21, 0, 0, -1 }, t.isVectorOfInt()); B("isVectorOf", { 21, 0, 0, 1 }, t.isVectorOfSInt()); B("isVectorOf", { 21, 0, 0, 0 }, t.isVectorOfUInt());
		B("isVectorOf", { 22, 0, 0, -1 }, t.isVectorOfFloat()); B("isVectorOf", { 20, 0, 0, -1 }, t.isVectorOfBool()); B("isScalarOrVectorOf", { 20, 0, 0, -1 }, t.isScalarOrVectorOf(spv::Op::OpTypeBool)); B("isScalarOrVectorOf", { 21, 0, 0, -1 }, t.isScalarOrVectorOf(spv::Op::OpTypeInt)); B("isScalarOrVectorOf", { 22, 0, 0, -1 }, t.isScalarOrVectorOf(spv::Op::OpTypeFloat));
		B("isNumericalScalarOrVector", { 0, 0 }, t.isNumericalScalarOrVector()); B("isSquare", {}, t.isSqareMatrix()); B("isMatrixOf", { 22, 0, 0, 0 }, t.isMatrixOfFloat()); B("isMatrixOf", { 21, 0, 0, 0 }, t.isMatrixOfInt());
		add("length", "[]", n(t.getScalarOrVectorLength())); add("rows", "[]", n(t.getMatrixRowCount())); add("baseop", "[]", n(long(t.getBaseTypeOp()))); add("op", "[]", n(long(t.getType()))); add("base", "[]", typeDesc(t.getBaseType())); add("string", "[]", str(t.getString()));
		String nm(&al); TypeHelper::getTypeName(t, nm); add("name", "[]", str(nm.c_str()));
		for (int k = 0; k < 3; ++k)
		{
			unsigned x = R->below(5), y = R->below(4), z = R->below(4); add("element", L({ long(x) }), el(t.getElement(x))); add("element", L({ long(x) }), el(t.getSubType(x))); add("element", L({ long(x), long(y) }), el(t.getSubType(x, y))); add("element", L({ long(x), long(y), long(z) }), el(t.getSubType(x, y, z)));
			List<unsigned> path(&al); std::string p = "["; unsigned c = 1 + R->below(4); for (unsigned m = 0; m < c; ++m) { unsigned v = R->below(3); path.emplace_back(v); p += (m ? "," : "") + n(v); } add("element", p + "]", el(t.getSubType(path)));
		}
		auto P = [&](const char* h, std::initializer_list<long> args, bool v) { add(h, L(args), tb(v)); };
		P("sameBase", {}, t.hasSameBase(u)); P("sameBaseOp", {}, t.hasSameBase(u, true)); P("containsType", {}, t.containsType(u)); P("sameLength", {}, t.hasSameVectorLength(u)); auto op = scal[R->below(3)]; P("sameLengthOf", { long(op) }, t.hasSameVectorLength(u, op)); P("sov", { 1 }, t.isScalarOrVectorOfSameLength(u)); P("sov", { 0 }, t.isScalarOrVectorOfSameLength(u, false));
		P("sovOf", { long(op), 1 }, t.isScalarOrVectorOfSameLength(op, u)); P("sovOf", { long(op), 0 }, t.isScalarOrVectorOfSameLength(op, u, false)); P("sameWidth", {}, t.hasSameComponentWidth(u)); P("equal", {}, t == u); P("differ", {}, t != u); P("isOp", { long(u.getType()) }, t == u.getType()); P("isNotOp", { long(u.getType()) }, t != u.getType()); P("contains", { long(u.getType()) }, t.containsType(u.getType()));
		out->line(Obj().str("ev", "ask").num("i", i + 1).num("j", j + 1).raw("q", arr(a)).done());
	}
	void step(const J& x)
	{
		auto a = [&](size_t k) { return unsigned(x.a[k].i); }; const std::string& op = x.a[0].s; std::string ops = "["; { for (auto& y : x.a) { if (ops.size() > 1) ops += ","; std::function<std::string(const J&)> tx = [&](const J& d) -> std::string { if (d.k == J::Arr) { std::string r = "["; for (auto& z : d.a) { if (r.size() > 1) r += ","; r += tx(z); } return r + "]"; } return d.k == J::Num ? n(d.i) : "\"" + d.s + "\""; }; ops += tx(y); } ops += "]"; }
		Type& t = *S[a(1) - 1]; auto at = [&](size_t k) -> Type& { return *S[a(k) - 1]; }; std::string made = "[\"none\"]";
		if (op == "ask") { ask(a(1) - 1, a(2) - 1); return; }
		if (op == "set") { if (R->chance(50)) build(t, x.a[2]); else { Type n = t.New(); build(n, x.a[2]); if (R->chance(50)) t = n; else t = stdrep::move(n); } }
		else if (op == "copy") { if (R->chance(50) && a(1) != a(2)) S[a(1) - 1].reset(new Type(at(2))); else t = at(2); }
		else if (op == "move") { Type& o = at(2); if (&o != &t) { if (R->chance(50)) { std::unique_ptr<Type> n(new Type(stdrep::move(o))); S[a(1) - 1] = std::move(n); } else t = stdrep::move(o); S[a(2) - 1].reset(new Type(&al)); } else t = stdrep::move(o); }
		else if (op == "wrap")
		{
			Type& o = at(2); unsigned k = a(4); const std::string& w = x.a[3].s; Type r(&al); unsigned how = R->below(3);
			if (w == "Ptr") { if (how == 0) r = o.wrapPointer(spv::StorageClass(k)); else if (how == 1) r.Pointer(spv::StorageClass(k), &o); else { r.Pointer(spv::StorageClass(k)); r.Member(&o); } }
			else if (w == "Arr") { if (how == 0) r = o.wrapArray(k); else if (how == 1) r.Array(k, &o); else r.ArrayElement(k) = o; }
			else if (w == "Vec") { if (how == 0) r = o.wrapVector(k); else if (how == 1) r.Vector(k, &o); else r.VectorElement(k) = o; }
			else if (w == "Mat") { if (how == 0) r = o.wrapMatrix(k); else r.Matrix(k, &o); }
			else if (w == "RArr") { if (how == 0) r = o.wrap(spv::Op::OpTypeRuntimeArray); else if (how == 1) r.RuntimeArray(&o); else r.RuntimeArrayElement() = o; }
			else if (w == "Struct") { if (how == 0) r = o.wrapStruct(); else if (how == 1) r.Struct(&o); else { Type c(o); r = c.moveWrap(spv::Op::OpTypeStruct); } }
			else if (w == "Fun") { if (how == 0) { r.Function(); r.Member(&o); } else r = o.wrap(spv::Op::OpTypeFunction); }
			if (R->chance(50)) t = stdrep::move(r); else t = r;
		}
		else if (op == "member") { if (a(1) == a(2)) { Type c(at(2)); t.Member(&c); } else if (R->chance(50)) t.Member(&at(2)); else if (R->chance(50)) t.MemberM(&at(2)); else t.Member() = at(2); }
		else if (op == "front") { unsigned how = R->below(4); if (how == 0) t = t.front(); else if (how == 1) t = stdrep::move(t.front()); else { Type c(t.front()); if (how == 2) t = c; else t = stdrep::move(c); } }
		else if (op == "back") { unsigned how = R->below(3); if (how == 0) t = t.back(); else if (how == 1) t = stdrep::move(t.back()); else { Type c(t.back()); t = c; } }
		else if (op == "reset") { if (R->chance(50)) t.reset(); else t.Void(); }
		else if (op == "fmt") { t.fromImageFormat(spv::ImageFormat(a(2)), a(3) == 1); made = typeDesc(t); }
		else if (op == "prop")
		{
			const std::string& p = x.a[2].s; unsigned v = a(3);
			if (p == "width") { if (t.isInt()) t.setIntWidth(v); else t.setFloatWidth(v); } else if (p == "sign") { if (t.isInt() && R->chance(50)) t.setIntSign(v == 1); else t.setSign(v == 1); } else if (p == "count") t.setVectorComponentCount(v); else if (p == "columns") t.setMatrixColumnCount(v); else if (p == "rows") t.getMatrixRowCount(v); else if (p == "len") t.setArrayLength(v); else if (p == "storage") t.setStorageClass(spv::StorageClass(v));
			else if (p == "dim") t.setImageDimension(spv::Dim(v)); else if (p == "depth") t.setImageDepth(v); else if (p == "array") t.setImageArray(v == 1); else if (p == "ms") t.setImageMultiSampled(v == 1); else if (p == "sampled") t.setImageSamplerAccess(SamplerImageAccess(v)); else if (p == "format") t.setImageFormat(spv::ImageFormat(v)); else if (p == "access") t.setAccessQualifier(spv::AccessQualifier(v));
		}
		state(ops, made);
	}
};
// random operations that make sense for what the slots hold
static std::string randomOp(Session& s, const std::vector<std::string>& types)
{
	unsigned k = s.S.size(), i = R->below(k), j = R->below(k); const Type& t = *s.S[i]; const Type& o = *s.S[j]; auto I = n(i + 1), J2 = n(j + 1); std::function<unsigned(const Type&)> size = [&](const Type& x) { unsigned c = 1; for (auto& y : x.getSubTypes()) c += size(y); return c; };
	switch (R->below(14))
	{
	case 0: case 1: case 2: return "[\"set\"," + I + "," + types[R->below(types.size())] + "]";
	case 3: return "[\"copy\"," + I + "," + J2 + "]";
	case 4: return "[\"move\"," + I + "," + J2 + "]";
	case 5: case 6: case 7:
	{
		if (size(o) > 30) return "[\"reset\"," + I + "]"; const char* w[] = { "Ptr", "Arr", "RArr", "Struct", "Fun", "Struct" }; std::string kind = o.isScalar() && R->chance(50) ? "Vec" : o.isVectorOfFloat() && R->chance(60) ? "Mat" : w[R->below(6)];
		unsigned arg = kind == "Ptr" ? R->below(13) : kind == "Arr" ? (R->chance(50) ? R->range(1, 6) : R->below(100000)) : R->range(2, 4); return "[\"wrap\"," + I + "," + J2 + ",\"" + kind + "\"," + n(arg) + "]";
	}
	case 8: case 9: if ((t.isStruct() || t.isFunction()) && size(t) + size(o) < 60) return "[\"member\"," + I + "," + J2 + "]"; return "[\"copy\"," + I + "," + J2 + "]";
	case 10: if (!t.getSubTypes().empty()) return (R->chance(50) ? "[\"front\"," : "[\"back\",") + I + "]"; return "[\"set\"," + I + "," + types[R->below(types.size())] + "]";
	case 11: return R->chance(30) ? "[\"reset\"," + I + "]" : "[\"fmt\"," + I + "," + n(R->below(42)) + "," + n(R->below(2)) + "]";
	default:
	{
		auto p = [&](const char* nm, unsigned v) { return "[\"prop\"," + I + ",\"" + nm + "\"," + n(v) + "]"; };
		if (t.isInt()) return R->chance(50) ? p("width", 8u << R->below(4)) : p("sign", R->below(2)); if (t.isFloat()) return p("width", 16u << R->below(3)); if (t.isVector()) return R->chance(70) || !t.front().isInt() ? p("count", R->range(2, 4)) : p("sign", R->below(2)); if (t.isMatrix()) return R->chance(50) ? p("columns", R->range(2, 4)) : p("rows", R->range(2, 4));
		if (t.isArray()) return p("len", R->range(1, 9)); if (t.isPointer()) return p("storage", R->below(13)); if (t.isImage()) switch (R->below(7)) { case 0: return p("dim", R->below(7)); case 1: return p("depth", R->below(3)); case 2: return p("array", R->below(2)); case 3: return p("ms", R->below(2)); case 4: return p("sampled", R->below(3)); case 5: return p("format", R->below(42)); case 6: return p("access", R->below(3)); }
		return "[\"reset\"," + I + "]";
	}
	}
}
int main(int, char** av)
{
	watchdog(850); Sink o(av[1]); out = &o; auto lines = readLines(av[2]); auto types = readLines(av[3]); Rng r(strtoull(av[4], nullptr, 10)); R = &r; unsigned rounds = atoi(av[5]), len = atoi(av[6]);
	{ std::vector<std::string> c, d; for (unsigned f = 0; f < 60; ++f) c.push_back(n(getImageChannelCount(spv::ImageFormat(f)))); for (unsigned k = 0; k < 12; ++k) d.push_back(n(getImageDimension(spv::Dim(k)))); o.line(Obj().str("ev", "begin").num("slots", 0).done()); o.line(Obj().str("ev", "image").raw("channels", arr(c)).raw("coordinates", arr(d)).done()); }
	for (auto& l : lines) { Session s(2); for (auto& x : parse(l).a) s.step(x); s.ask(0, 1); s.ask(1, 0); }
	for (auto& l : types) { Session s(2); s.step(parse("[\"set\",1," + l + "]")); s.step(parse("[\"set\",2," + (r.chance(20) ? l : types[r.below(types.size())]) + "]")); s.ask(0, 1); }
	for (unsigned k = 0; k < rounds; ++k) { Session s(r.range(2, 4)); unsigned c = r.range(1, len); for (unsigned j = 0; j < c; ++j) { s.step(parse(randomOp(s, types))); if (r.chance(30)) s.ask(r.below(s.S.size()), r.below(s.S.size())); } }
	return 0;
}
