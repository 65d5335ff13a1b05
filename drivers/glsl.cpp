// Functions of the extended instruction set GLSL.std.450.
#include "ops.h"
#include "spvgentwo/GLSL450Instruction.h"
#include <memory>
using namespace vt;
static Sink* out;
using I = Instruction; using G = ext::GLSL;
struct Ext : Watch
{
	using Watch::Watch;
	// the import of the set: the only one of this name the module has
	std::string other(const Operand& o) override
	{
		if (!o.isInstruction() || !o.instruction) return "[\"other\"]";
		unsigned known = 0, named = 0;
		for (auto& x : m.getExtInstrImports()) { const Instruction& i = x.value; if (i.getOperation() == spv::Op::OpExtInstImport && name(i) == "GLSL.std.450") { ++named; if (&i == o.instruction) ++known; } }
		return known == 1 && named == 1 ? "[\"import\"]" : "[\"other\"," + n(known) + "," + n(named) + "]";
	}
	static std::string name(const Instruction& i)
	{
		std::string s; for (auto& o : i) if (o.isLiteral()) for (int k = 0; k < 4; ++k) { char c = char(o.literal.value >> (8 * k)); if (!c) return s; s += c; }
		return s;
	}
};
static I* call1(const std::string& h, G* g, I* a)
{
#define C(N) if (h == #N) return g->N(a);
	C(opRound) C(opRoundEven) C(opTrunc) C(opFAbs) C(opSAbs) C(opFSign) C(opSSign) C(opFloor) C(opCeil) C(opFract) C(opRadians) C(opDegrees) C(opSin) C(opCos) C(opTan) C(opASin) C(opACos) C(opATan)
	C(opSinh) C(opCosh) C(opTanh) C(opAsinh) C(opAcosh) C(opAtanh) C(opExp) C(opLog) C(opExp2) C(opLog2) C(opSqrt) C(opInverseSqrt) C(opDeterminant) C(opMatrixInverse) C(opModfStruct) C(opFrexpStruct)
	C(opPackSnorm4x8) C(opPackUnorm4x8) C(opPackSnorm2x16) C(opPackUnorm2x16) C(opPackHalf2x16) C(opPackDouble2x32) C(opUnpackSnorm4x8) C(opUnpackUnorm4x8) C(opUnpackSnorm2x16) C(opUnpackUnorm2x16) C(opUnpackHalf2x16) C(opUnpackDouble2x32)
	C(opLength) C(opNormalize) C(opFindILsb) C(opFindSMsb) C(opFindUMsb) C(opInterpolateAtCentroid)
	fprintf(stderr, "unknown %s\n", h.c_str()); exit(3);
}
static I* call2(const std::string& h, G* g, I* a, I* b)
{
#undef C
#define C(N) if (h == #N) return g->N(a, b);
	C(opAtan2) C(opPow) C(opFMin) C(opUMin) C(opSMin) C(opFMax) C(opUMax) C(opSMax) C(opStep) C(opLdexp) C(opDistance) C(opCross) C(opReflect) C(opInterpolateAtSample) C(opInterpolateAtOffset) C(opNMin) C(opNMax)
	fprintf(stderr, "unknown %s\n", h.c_str()); exit(3);
}
static I* call3(const std::string& h, G* g, I* a, I* b, I* c)
{
#undef C
#define C(N) if (h == #N) return g->N(a, b, c);
	C(opFClamp) C(opUClamp) C(opSClamp) C(opFMix) C(opSmoothStep) C(opFma) C(opFaceForward) C(opRefract) C(opNClamp)
	fprintf(stderr, "unknown %s\n", h.c_str()); exit(3);
}
struct Session
{
	HeapAllocator al; Logger lg; std::unique_ptr<Module> m; Function* f; BasicBlock* defs; static Rng R;
	Session() : m(new Module(&al, &lg))
	{
		m->addCapability(spv::Capability::Shader);
		// other sets may have been imported before, and this one too
		if (R.below(2)) m->addExtensionInstructionImport("OpenCL.std");
		if (R.below(3) == 0) m->addExtensionInstructionImport("GLSL.std.450");
		if (R.below(2)) m->addExtensionInstructionImport("GLSL.std.4500");
		f = &m->addFunction<void>("f"); defs = &f->addBasicBlock("d");
	}
	I* value(const J& d, const Args& used)
	{
		Instruction* ty = addT(*m, d); bool simple = isD(d, "Int") || isD(d, "Float") || isD(d, "Bool") || isD(d, "Vec") || isD(d, "Mat");
		switch (R.below(5))
		{
		case 0: if (simple) { Constant c(&al); c.setOperation(spv::Op::OpConstantNull); c.getType() = *ty->getType(); I* k = m->addConstant(c); for (I* x : used) if (x == k) return (*defs)->opUndef(ty); return k; } break;
		case 1: return f->addParameters(ty);
		case 2: { I* u = (*defs)->opUndef(ty); return (*defs)->opCopyObject(u); }
		default: break;
		}
		if (isD(d, "Ptr") && d.a[1].i == 1 && R.below(2)) return m->variable(*ty->getType(), spv::StorageClass::Input);
		return (*defs)->opUndef(ty);
	}
	void request(const J& s)
	{
		const std::string& h = s.a[0].s; Args a; for (auto& t : s.a[1].a) a.push_back(value(t, a));
		BasicBlock& b = f->addBasicBlock("b"); if (R.below(2)) b->opUndef(m->type<float>());
		Ext w(*m, *f, b, lg); G* g = R.below(2) ? b.glsl() : b.ext<GLSL450Intruction>();
		I* r = a.size() == 1 ? call1(h, g, a[0]) : a.size() == 2 ? call2(h, g, a[0], a[1]) : call3(h, g, a[0], a[1], a[2]);
		out->line(w.end(Obj().str("ev", "op").str("h", h).raw("ts", text(s.a[1])), a, r).done());
	}
};
Rng Session::R(1);
int main(int c, char** v)
{
	watchdog(600); Sink sk(v[1]); out = &sk; if (c > 3) Session::R = Rng(strtoull(v[3], nullptr, 10));
	std::unique_ptr<Session> s; unsigned k = 0;
	auto lines = readLines(v[2]); for (size_t i = lines.size(); i > 1; --i) std::swap(lines[i - 1], lines[Session::R.below(unsigned(i))]);
	for (auto& l : lines) { if (k++ % 64 == 0) { s.reset(); s.reset(new Session); } s->request(parse(l)); }
	return 0;
}
