// Types and values from descriptions.
#pragma once
#include "mod.h"
namespace vt
{
	inline bool isD(const J& d, const char* t) { return d.a.size() && d.a[0].s == t; }
	inline std::string text(const J& d) { if (d.k == J::Arr) { std::string r = "["; for (auto& x : d.a) { if (r.size() > 1) r += ","; r += text(x); } return r + "]"; } if (d.k == J::Num) return n(d.i); if (d.k == J::Bool) return b(d.i != 0); return "\"" + d.s + "\""; }
	inline Type mkType(Module& m, const J& d)
	{
		Type t = m.newType(); auto num = [&](size_t k) { return unsigned(d.a[k].i); };
		if (isD(d, "Void")) t.Void();
		else if (isD(d, "Bool")) t.Bool();
		else if (isD(d, "Int")) t.Int(num(1), d.a[2].i == 1);
		else if (isD(d, "Float")) t.Float(num(1));
		else if (isD(d, "Vec")) { Type e = mkType(m, d.a[1]); t.Vector(num(2), &e); }
		else if (isD(d, "Mat")) { Type e = mkType(m, d.a[1]); t.Matrix(num(2), &e); }
		else if (isD(d, "Arr")) { Type e = mkType(m, d.a[1]); t.Array(num(2), &e); }
		else if (isD(d, "RArr")) { Type e = mkType(m, d.a[1]); t.RuntimeArray(&e); }
		else if (isD(d, "Struct")) { t.Struct(); for (auto& x : d.a[1].a) { Type e = mkType(m, x); t.Member(&e); } }
		else if (isD(d, "Fun")) { t.Function(); for (auto& x : d.a[1].a) { Type e = mkType(m, x); t.Member(&e); } }
		else if (isD(d, "Ptr")) { Type e = mkType(m, d.a[2]); t.Pointer(spv::StorageClass(num(1)), &e); }
		else if (isD(d, "Sampler")) t.Sampler();
		else if (isD(d, "SImg")) { Type e = mkType(m, d.a[1]); t.SampledImage(&e); }
		else if (isD(d, "Img"))
		{
			dyn_image_t i; const J& s = d.a[1];
			i.sampledType = isD(s, "Int") ? dyn_scalar_t{ spv::Op::OpTypeInt, unsigned(s.a[1].i), s.a[2].i == 1 } : isD(s, "Float") ? dyn_scalar_t{ spv::Op::OpTypeFloat, unsigned(s.a[1].i), false } : dyn_scalar_t{ spv::Op::OpTypeVoid, 0, false };
			i.dimension = spv::Dim(num(2)); i.depth = num(3); i.array = d.a[4].i == 1; i.multiSampled = d.a[5].i == 1; i.samplerAccess = SamplerImageAccess(num(6)); i.format = spv::ImageFormat(num(7)); i.accessQualifier = d.a[8].i < 0 ? spv::AccessQualifier::Max : spv::AccessQualifier(num(8)); t.Image(i);
		}
		else switch (num(1)) { case 34: t.Event(); break; case 35: t.DeviceEvent(); break; case 36: t.ReserveId(); break; case 37: t.Queue(); break; case 322: t.PipeStorage(); break; case 327: t.NamedBarrier(); break; case 4472: t.RayQueryKHR(); break; case 5341: t.AccelerationStructureKHR(); break; default: fprintf(stderr, "type %s\n", text(d).c_str()); exit(3); }
		return t;
	}
	inline Instruction* addT(Module& m, const J& d) { return m.addType(mkType(m, d)); }
	// some value of a type at module scope
	inline Instruction* undef(Module& m, const J& d) { Instruction* i = m.addUndefInstr(); return i->opUndef(addT(m, d)); }
}
