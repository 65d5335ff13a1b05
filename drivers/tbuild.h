// Types built from descriptions in every way the API offers.
#pragma once
#include "mod.h"
using namespace vt;
static Rng* R;
using JV = J;
static unsigned num(const JV& j) { return (unsigned)j.i; }
static bool is(const JV& d, const char* t) { return d.a[0].s == t; }
static dyn_scalar_t dscalar(const JV& d) { return is(d, "Int") ? dyn_scalar_t{ spv::Op::OpTypeInt, num(d.a[1]), num(d.a[2]) == 1 } : is(d, "Float") ? dyn_scalar_t{ spv::Op::OpTypeFloat, num(d.a[1]), false } : dyn_scalar_t{ spv::Op::OpTypeBool, 0, false }; }
static dyn_image_t dimg(const JV& d) { dyn_image_t i; i.sampledType = dscalar(d.a[1]); i.dimension = spv::Dim(num(d.a[2])); i.depth = num(d.a[3]); i.array = d.a[4].i == 1; i.multiSampled = d.a[5].i == 1; i.samplerAccess = SamplerImageAccess(num(d.a[6])); i.format = spv::ImageFormat(num(d.a[7])); i.accessQualifier = d.a[8].i < 0 ? spv::AccessQualifier::Max : spv::AccessQualifier(num(d.a[8])); return i; }
static bool isScalar(const JV& d) { return is(d, "Int") || is(d, "Float"); }
// something else first: builder functions have to replace what was there
static void dirty(Type& t)
{
	switch (R->below(8)) { case 0: t.Int(64, true); break; case 1: t.Pointer(spv::StorageClass::Uniform).FloatM(); break; case 2: t.Image(dyn_image_t{ { spv::Op::OpTypeInt, 32, true }, spv::Dim::Cube, 2, true, true, SamplerImageAccess::Storage, spv::ImageFormat::R32f, spv::AccessQualifier::ReadWrite }); break;
		case 3: t.Struct().FloatM().IntM(); break; case 4: t.Matrix(3, 3, nullptr); break; case 5: t.ArrayElement(9).Float(); break; case 6: t.Function(); break; case 7: t.setSign(true); t.setStorageClass(spv::StorageClass::Input); t.reset(); break; }
}
static void build(Type& t, const JV& d, int depth = 0);
static Type mk(Module& m, const JV& d) { Type t = m.newType(); build(t, d); return t; }
static void build(Type& t, const JV& d, int)
{
	unsigned how = R->below(4);
	if (R->chance(20)) dirty(t);
	auto sub = [&](const JV& x) { Type s = t.New(); build(s, x); return s; };
	if (is(d, "Void")) t.Void();
	else if (is(d, "Bool")) t.Bool();
	else if (isScalar(d))
	{
		if (how == 0) t.Scalar(dscalar(d)); else if (how == 1) { auto s = dscalar(d); t.Scalar(s.baseType, s.bits, s.sign); }
		else if (is(d, "Int")) { if (d.a[2].i == 0 && how == 2) t.UInt(num(d.a[1])); else t.Int(num(d.a[1]), d.a[2].i == 1); } else { if (d.a[1].i == 64 && how == 2) t.Double(); else t.Float(num(d.a[1])); }
	}
	else if (is(d, "Vec"))
	{
		Type e = sub(d.a[1]); unsigned k = num(d.a[2]);
		if (how == 0) t.Vector(k, &e); else if (how == 1) t = e.wrapVector(k); else if (how == 2) build(t.VectorElement(k), d.a[1]); else if (isScalar(d.a[1])) t.Vector(dyn_vector_t{ dscalar(d.a[1]), k }); else t.Vector(k, &e);
	}
	else if (is(d, "Mat"))
	{
		Type c = sub(d.a[1]); unsigned k = num(d.a[2]); Type e = sub(d.a[1].a[1]); unsigned rows = num(d.a[1].a[2]);
		if (how == 0) t.Matrix(k, &c); else if (how == 1) t = c.wrapMatrix(k); else if (how == 2) t.Matrix(k, rows, &e); else t.Matrix(dyn_matrix_t{ { dscalar(d.a[1].a[1]), rows }, k });
	}
	else if (is(d, "Arr"))
	{
		Type e = sub(d.a[1]); unsigned k = num(d.a[2]);
		if (how == 0) t.Array(k, &e); else if (how == 1) t = e.wrapArray(k); else if (how == 2) build(t.ArrayElement(k), d.a[1]); else t.make<dyn_array_t>(dyn_array_t{ e, k });
	}
	else if (is(d, "RArr")) { Type e = sub(d.a[1]); if (how == 0) t.RuntimeArray(&e); else if (how == 1) build(t.RuntimeArrayElement(), d.a[1]); else if (how == 2) t = e.wrap(spv::Op::OpTypeRuntimeArray); else t.make<dyn_runtime_array_t>(dyn_runtime_array_t{ e }); }
	else if (is(d, "Struct") || is(d, "Fun"))
	{
		auto& s = d.a[1].a; bool st = is(d, "Struct");
		if (st && s.size() == 1 && how == 1) { t = sub(s[0]).wrapStruct(); return; }
		if (st && s.size() == 2 && how == 1) { Type a = sub(s[0]), b = sub(s[1]); t.Struct(a, b); return; }
		if (st && s.size() == 3 && how == 1) { Type a = sub(s[0]), b = sub(s[1]), c = sub(s[2]); t.Struct(a, b, c); return; }
		size_t from = 0;
		if (st) { if (!s.empty() && how == 2) { Type a = sub(s[0]); t.Struct(&a); from = 1; } else t.Struct(); } else t.Function();
		for (size_t i = from; i < s.size(); ++i)
		{
			auto& x = s[i];
			switch (R->below(3))
			{
			case 0: { Type e = sub(x); t.Member(&e); break; }
			case 1: build(t.Member(), x); break;
			case 2: if (is(x, "Float")) t.FloatM(num(x.a[1])); else if (is(x, "Int")) t.IntM(num(x.a[1]), x.a[2].i == 1); else if (is(x, "Bool")) t.BoolM(); else if (is(x, "Vec")) { Type e = sub(x.a[1]); t.VectorM(num(x.a[2]), &e); } else if (is(x, "Arr")) { Type e = sub(x.a[1]); t.ArrayM(num(x.a[2]), &e); } else { Type e = sub(x); t.MemberM(&e); } break;
			}
		}
	}
	else if (is(d, "Ptr")) { Type e = sub(d.a[2]); auto sc = spv::StorageClass(num(d.a[1])); if (how == 0) t.Pointer(sc, &e); else if (how == 1) t = e.wrapPointer(sc); else if (how == 2) { t.Pointer(sc); t.Member(&e); } else { t = e.wrap(spv::Op::OpTypePointer); t.setStorageClass(sc); } }
	else if (is(d, "Sampler")) t.Sampler();
	else if (is(d, "Img")) { if (how < 2) t.Image(dimg(d)); else { auto i = dimg(d); t.Image(i.sampledType, i.dimension, i.depth, i.array, i.multiSampled, i.samplerAccess, i.format, i.accessQualifier); } }
	else if (is(d, "SImg")) { if (how == 0) t.SampledImage(dimg(d.a[1])); else if (how == 1) t.SampledImage(dyn_sampled_image_t{ dimg(d.a[1]) }); else { Type i = sub(d.a[1]); t.SampledImage(&i); } }
	else switch (num(d.a[1])) { case 34: t.Event(); break; case 35: t.DeviceEvent(); break; case 36: t.ReserveId(); break; case 37: t.Queue(); break; case 322: t.PipeStorage(); break; case 327: t.NamedBarrier(); break; case 4472: t.RayQueryKHR(); break; case 5341: t.AccelerationStructureKHR(); break; }
}
