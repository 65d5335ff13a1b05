// A step by step program builder over the public API: every step is a code, sequences of codes come from the
// specification or from a random source.  What each step does exactly (which operands) is drawn from the generator.
#pragma once
#include "mod.h"
#include <unordered_set>

namespace vt
{
	enum Step { sType, sConst, sSpec, sGlobal, sName, sMemberName, sDecorate, sMemberDecorate, sSource, sExtension, sCapability, sImport, sUndef, sLine,
		sFunction, sEntry, sDeclare, sArith, sLoad, sStore, sLocal, sAccess, sComposite, sIf, sIfElse, sLoop, sCall, sExt, sSwitch, sPhi, sReturn, sLeave, sImage, sMode, sAtomic, sNop, sBranch, sLogic, sConvert, sCount };
	static const char* const StepNames[] = { "type","const","spec","global","name","memberName","decorate","memberDecorate","source","extension","capability","import","undef","line",
		"function","entry","declare","arith","load","store","local","access","composite","if","ifElse","loop","call","ext","switch","phi","return","leave","image","mode","atomic","nop","branch","logic","convert" };
	inline int stepByName(const std::string& s) { for (int i = 0; i < sCount; ++i) if (s == StepNames[i]) return i; return -1; }

	struct Prog
	{
		Module& m; Rng& r;
		Function* f = nullptr; BasicBlock* bb = nullptr;      // open function and block
		std::vector<Instruction*> types, consts, globals, funcs, vals, ptrs, imports, strings, labels; std::vector<Function*> callable;
		std::vector<Instruction*> structs; unsigned nameNo = 0, errors0 = 0;
		bool inOut = false, linkage = true; // linkage: random linkage decorations
		Prog(Module& _m, Rng& _r) : m(_m), r(_r) { m.addCapability(spv::Capability::Shader); }

		// ------------------------------------------------------------------ names
		std::string fresh(const char* base = "n") { std::string s = base + std::to_string(nameNo++); unsigned pad = r.below(9); for (unsigned i = 0; i < pad; ++i) s += char('a' + r.below(26)); return s; }
		// ------------------------------------------------------------------ types
		Type randomType(int depth)
		{
			Type t = m.newType();
			switch (r.below(depth > 0 ? 12 : 6))
			{
			case 0: t.Bool(); break;
			case 1: t.Int(32, r.chance(50)); break;
			case 2: t.Float(32); break;
			case 3: { static const unsigned w[] = { 8,16,32,64 }; t.Int(w[r.below(4)], r.chance(50)); break; }
			case 4: t.Float(r.chance(50) ? 16 : 64); break;
			case 5: t.Float(32); break;
			case 6: case 7: { Type e = m.newType(); if (r.chance(60)) e.Float(32); else if (r.chance(50)) e.Int(32, r.chance(50)); else e.Bool(); t.Vector(r.range(2, 4), &e); break; }
			case 8: { Type c = m.newType(); Type e = m.newType(); e.Float(32); c.Vector(r.range(2, 4), &e); t.Matrix(r.range(2, 4), &c); break; }
			case 9: { Type e = randomType(depth - 1); t.Array(r.range(1, 5), &e); break; }
			case 10: case 11: { t.Struct(); unsigned k = r.range(1, 4); for (unsigned i = 0; i < k; ++i) { Type e = randomType(depth - 1); t.Member(&e); } break; }
			}
			return t;
		}
		Instruction* addT(const Type& t) { Instruction* i = m.addType(t); note(types, i); if (t.isStruct()) note(structs, i); return i; }
		static void note(std::vector<Instruction*>& v, Instruction* i) { for (auto x : v) if (x == i) return; v.push_back(i); }
		// ------------------------------------------------------------------ constants
		Instruction* constOf(const Type& t)
		{
			if (t.isBool()) return m.constant(r.chance(50));
			if (t.isF32()) return m.constant(float(r.below(100)) * 0.37f);
			if (t.isF64()) return m.constant(double(r.below(100)) * 0.37);
			if (t.isInt(32)) return t.isSigned() ? m.constant(int(r.u32())) : m.constant(r.u32());
			if (t.isInt(64)) return t.isSigned() ? m.constant((long long)r.next()) : m.constant((unsigned long long)r.next());
			if (t.isInt(16)) return t.isSigned() ? m.constant(short(r.u32())) : m.constant((unsigned short)r.u32());
			if (t.isInt(8)) return t.isSigned() ? m.constant(char(r.u32())) : m.constant((unsigned char)r.u32());
			// anything else: composite or null
			Constant c = m.newConstant();
			if (!makeConst(c, t) || r.chance(10)) { c.reset(); c.getType() = t; c.setOperation(spv::Op::OpConstantNull); }
			return m.addConstant(c);
		}
		bool makeConst(Constant& c, const Type& t)
		{
			if (t.isBool()) { c.make(r.chance(50)); return true; }
			if (t.isF32()) { c.make(float(r.below(9))); return true; }
			if (t.isInt(32)) { if (t.isSigned()) c.make(int(r.below(7))); else c.make(unsigned(r.below(7))); return true; }
			if (t.isF64()) { c.make(double(r.below(9))); return true; }
			unsigned k = 0;
			if (t.isVector()) k = t.getVectorComponentCount(); else if (t.isMatrix()) k = t.getMatrixColumnCount(); else if (t.isArray()) k = t.getArrayLength(); else if (t.isStruct()) k = unsigned(t.getSubTypes().size());
			else return false;
			c.setOperation(spv::Op::OpConstantComposite); c.getType() = t;
			for (unsigned i = 0; i < k; ++i) { auto it = t.getSubTypes().begin(); if (t.isStruct()) for (unsigned x = 0; x < i; ++x) ++it; if (!makeConst(c.Component(), *it)) return false; }
			return true;
		}
		Instruction* f32() { return m.constant(float(r.below(50)) * 0.5f); }
		Instruction* i32() { return m.constant(int(r.below(50))); }
		// ------------------------------------------------------------------ values of the open function by type
		template <class P> Instruction* val(P pred)
		{
			std::vector<Instruction*> c; for (auto v : vals) { const Type* t = v->getType(); if (t && pred(*t)) c.push_back(v); }
			return c.empty() ? nullptr : r.pick(c);
		}
		Instruction* valOf(const Type& t) { Instruction* v = r.chance(70) ? val([&](const Type& x) { return x == t; }) : nullptr; return v ? v : constOf(t); }
		Instruction* fl() { Instruction* v = r.chance(80) ? val([](const Type& t) { return t.isF32(); }) : nullptr; return v ? v : f32(); }
		Instruction* in() { Instruction* v = r.chance(80) ? val([](const Type& t) { return t.isInt(32) && t.isSigned(); }) : nullptr; return v ? v : i32(); }
		Instruction* bo() { Instruction* v = val([](const Type& t) { return t.isBool(); }); return v && r.chance(80) ? v : m.constant(r.chance(50)); }
		Instruction* vec() { Instruction* v = r.chance(80) ? val([](const Type& t) { return t.isVectorOfFloat() && t.front().isF32(); }) : nullptr; return v ? v : m.constant(make_vector(1.f, float(r.below(4)), 3.f)); }
		void got(Instruction* i) { if (i && !i->isErrorInstr() && i->hasResultType()) vals.push_back(i); }
		// ------------------------------------------------------------------ functions
		void close() { f = nullptr; bb = nullptr; vals.clear(); ptrs.clear(); labels.clear(); }
		void open(Function& fn, bool block)
		{
			f = &fn; vals.clear(); ptrs.clear(); labels.clear(); funcs.push_back(fn.getFunction());
			for (auto& p : fn.getParameters()) vals.push_back(&p);
			(void)block; bb = fn.empty() ? nullptr : &*fn.begin(); if (bb == nullptr) bb = &fn.addBasicBlock(r.chance(50) ? fresh("bb").c_str() : nullptr);
			labels.push_back(bb->getLabel());
		}
		void newFunction(bool entry, bool declare)
		{
			auto ctl = Flag<spv::FunctionControlMask>(r.chance(70) ? 0u : 1u << r.below(4));
			std::string nm = fresh(entry ? "main" : "fn"); 
			if (entry)
			{
				static const spv::ExecutionModel em[] = { spv::ExecutionModel::Vertex, spv::ExecutionModel::Fragment, spv::ExecutionModel::GLCompute, spv::ExecutionModel::Geometry };
				if (r.chance(70)) open(m.addEntryPoint<void>(em[r.below(4)], nm.c_str(), ctl, r.chance(80)), true);
				else { EntryPoint& e = m.addEntryPoint(); e.finalize(em[r.below(4)], ctl, nm.c_str()); e.addBasicBlock(); open(e, true); }
				return;
			}
			unsigned k = r.below(5);
			if (k == 0) { Function& fn = m.addFunction<void>(r.chance(80) ? nm.c_str() : nullptr, ctl, !declare); reg(fn, declare); }
			else if (k == 1) { Function& fn = m.addFunction<float, float, int>(r.chance(80) ? nm.c_str() : nullptr, ctl, !declare); reg(fn, declare); }
			else if (k == 2) { Function& fn = m.addFunction<int, int>(nm.c_str(), ctl, !declare); reg(fn, declare); }
			else
			{
				Function& fn = m.addFunction(); Type rt = randomType(1);
				if (r.chance(40)) fn.setReturnType(addT(rt)); else if (r.chance(60)) fn.setReturnType(rt);
				unsigned c = r.below(4); for (unsigned i = 0; i < c; ++i) { Type p = r.chance(50) ? m.newType().Float(32) : randomType(1); fn.addParameters(addT(p)); }
				fn.finalize(ctl, r.chance(50) ? nm.c_str() : nullptr);
				if (!declare) fn.addBasicBlock();
				reg(fn, declare);
			}
		}
		void reg(Function& fn, bool declare) { callable.push_back(&fn); if (!declare) open(fn, true); else funcs.push_back(fn.getFunction()); }
		void leave() // end the open block and the function
		{
			if (bb == nullptr) { close(); return; }
			const Type& rt = f->getReturnType();
			if (r.chance(12) ) { (*bb)->opUnreachable(); }
			else if (r.chance(8)) { (*bb)->opKill(); }
			else if (rt.isVoid()) { if (r.chance(50)) bb->returnValue(); else (*bb)->opReturn(); }
			else { Instruction* v = valOf(rt); if (r.chance(50)) bb->returnValue(v); else (*bb)->opReturnValue(v); }
			close();
		}
		// ------------------------------------------------------------------ guards
		static bool needsBlock(int s) { return (s >= sArith && s <= sLeave && s != sCount) || s == sImage || s == sAtomic || s == sNop || s == sBranch || s == sLogic || s == sConvert; }
		static bool needsNoFunction(int s) { return s == sFunction || s == sEntry || s == sDeclare; }
		bool can(int s) const { return needsBlock(s) ? bb != nullptr : needsNoFunction(s) ? f == nullptr : true; }

		template <class F> void nested(BasicBlock& b, F fn) { BasicBlock* o = bb; auto keep = vals.size(), kp = ptrs.size(); bb = &b; labels.push_back(b.getLabel()); fn(); bb = o; vals.resize(keep); ptrs.resize(kp); }
		void straight(unsigned k) { static const int c[] = { sArith, sLoad, sStore, sComposite, sLogic, sConvert, sAccess, sExt, sNop }; for (unsigned i = 0; i < k; ++i) step(c[r.below(9)]); }

		void step(int s)
		{
			if (!can(s)) return;
			switch (s)
			{
			case sType:
				if (r.chance(15)) { Type t = m.newType(); Type e = m.newType(); e.Float(32);
					switch (r.below(5)) { case 0: t.Sampler(); break; case 1: t.Image(dyn_image_t{ { spv::Op::OpTypeFloat, 32, false }, spv::Dim(r.below(4)), r.below(3), r.chance(50), r.chance(50), SamplerImageAccess(r.below(3)), spv::ImageFormat(r.below(20)), r.chance(30) ? spv::AccessQualifier(r.below(3)) : spv::AccessQualifier::Max }); break;
						case 2: t.SampledImage(dyn_image_t{}); break; case 3: t.RuntimeArray(&e); break; case 4: t.Pointer(spv::StorageClass::Uniform, &e); break; } addT(t); }
				else { Type t = randomType(2); Instruction* i = addT(t); if (r.chance(20)) m.addName(i, fresh("T").c_str()); }
				break;
			case sConst: { Instruction* c = constOf(randomType(2)); note(consts, c); break; }
			case sSpec: { Instruction* c = r.chance(50) ? m.specConstant(int(r.u32())) : r.chance(50) ? m.specConstant(r.chance(50)) : m.specConstant(float(r.below(10)), r.chance(40) ? fresh("sc").c_str() : nullptr); consts.push_back(c);
				if (r.chance(50)) m.addDecorationInstr()->opDecorate(c, spv::Decoration::SpecId, r.below(100)); break; }
			case sGlobal:
			{
				static const spv::StorageClass sc[] = { spv::StorageClass::Input, spv::StorageClass::Output, spv::StorageClass::Uniform, spv::StorageClass::Private, spv::StorageClass::StorageBuffer, spv::StorageClass::PushConstant, spv::StorageClass::Workgroup, spv::StorageClass::UniformConstant };
				auto c = sc[r.below(8)]; std::string nm = fresh("g"); Instruction* v;
				if (c == spv::StorageClass::UniformConstant && r.chance(60)) { Type t = m.newType(); t.SampledImage(dyn_image_t{}); v = m.uniformConstant(t, nm.c_str()); }
				else { Type t = r.chance(60) ? (r.chance(50) ? m.newType().Float(32) : m.newType<vector_t<float, 4>>()) : randomType(2); Instruction* init = (c == spv::StorageClass::Private && r.chance(40)) ? constOf(t) : nullptr;
					if (r.chance(50)) v = m.variable(t, c, r.chance(70) ? nm.c_str() : nullptr, init); else v = m.variable(m.addType(t.wrapPointer(c)), c, r.chance(70) ? nm.c_str() : nullptr, init); }
				globals.push_back(v); break;
			}
			case sName: { Instruction* t = any(); if (t) m.addName(t, fresh("nm").c_str()); break; }
			case sMemberName: { if (structs.empty()) break; Instruction* t = r.pick(structs); unsigned k = unsigned(t->getType()->getSubTypes().size()); m.addMemberName(t, fresh("mb").c_str(), r.below(k ? k : 1)); break; }
			case sDecorate:
			{
				Instruction* t = any(); if (!t) break; Instruction* d = m.addDecorationInstr();
				switch (r.below(8)) { case 0: d->opDecorate(t, spv::Decoration::Location, r.below(16)); break; case 1: d->opDecorate(t, spv::Decoration::BuiltIn, spv::BuiltIn::Position); break; case 2: d->opDecorate(t, spv::Decoration::DescriptorSet, r.below(4)); break;
					case 3: d->opDecorate(t, spv::Decoration::Binding, r.below(4)); break; case 4: d->opDecorate(t, spv::Decoration::Block); break; case 5: d->opDecorate(t, spv::Decoration::Flat); break;
					case 6: d->opDecorate(t, spv::Decoration::ArrayStride, 4u << r.below(4)); break; case 7: if (linkage) d->opDecorate(t, spv::Decoration::LinkageAttributes, fresh("link").c_str(), spv::LinkageType(r.below(2))); else d->opDecorate(t, spv::Decoration::RelaxedPrecision); break; }
				break;
			}
			case sMemberDecorate: { if (structs.empty()) break; Instruction* t = r.pick(structs); unsigned k = unsigned(t->getType()->getSubTypes().size()); if (!k) break; Instruction* d = m.addDecorationInstr(); unsigned x = r.below(k);
				switch (r.below(4)) { case 0: d->opMemberDecorate(t, x, spv::Decoration::Offset, 4u * r.below(64)); break; case 1: d->opMemberDecorate(t, x, spv::Decoration::ColMajor); break; case 2: d->opMemberDecorate(t, x, spv::Decoration::MatrixStride, 16u); break; case 3: d->opMemberDecorate(t, x, spv::Decoration::BuiltIn, spv::BuiltIn::PointSize); break; } break; }
			case sSource:
				switch (r.below(5)) { case 0: { Instruction* i = m.addSourceStringInstr()->opString(fresh("file").c_str()); strings.push_back(i); break; }
					case 1: m.addSourceStringInstr()->opSource(spv::SourceLanguage::GLSL, 450, (!strings.empty() && r.chance(50)) ? r.pick(strings) : nullptr); break;
					case 2: if (strings.empty()) strings.push_back(m.addSourceStringInstr()->opString(fresh("f").c_str())); m.addSourceStringInstr()->opSource(spv::SourceLanguage::HLSL, r.below(600), r.pick(strings), fresh("void main").c_str()); m.addSourceStringInstr()->opSourceContinued(fresh("more").c_str()); break;
					case 3: m.addSourceStringInstr()->opSourceExtension(fresh("GL_").c_str()); break;
					case 4: { Instruction* i = m.addModuleProccessedInstr(); i->makeOp(spv::Op::OpModuleProcessed, fresh("proc").c_str()); break; } }
				break;
			case sExtension: if (r.chance(50)) m.addExtension(fresh("SPV_VT_").c_str()); else m.addExtension(spv::Extension(r.below(unsigned(spv::Extension::Max) < 20 ? unsigned(spv::Extension::Max) : 20))); break;
			case sCapability: { static const unsigned c[] = { 0,1,2,3,4,5,6,9,10,11,22,23,24,25,35,39,44,50,57,61 }; m.addCapability(spv::Capability(c[r.below(20)]), r.chance(30)); break; }
			case sImport: { Instruction* i = r.chance(50) ? m.addExtensionInstructionImport("GLSL.std.450") : m.addExtensionInstructionImport(fresh("ext.").c_str()); note(imports, i); break; }
			case sUndef: { Instruction* i = m.addUndefInstr()->opUndef(addT(randomType(1))); consts.push_back(i); break; }
			case sLine: if (strings.empty() || r.chance(20)) { if (r.chance(50)) m.addLineInstr()->opNoLine(); else { m.addLineInstr()->opLine(fresh("l").c_str(), r.below(99), r.below(99)); } } else m.addLineInstr()->opLine(r.pick(strings), r.below(2000), r.below(200)); break;
			case sFunction: newFunction(false, false); break;
			case sEntry: { newFunction(true, false); break; }
			case sDeclare: newFunction(false, true); break;
			case sArith:
			{
				BasicBlock& b = *bb;
				switch (r.below(12))
				{
				case 0: got(b->opFAdd(fl(), fl())); break; case 1: got(b->opIAdd(in(), in())); break; case 2: { Instruction* v = vec(); got(b->opFMul(v, v)); break; }
				case 3: { Instruction* v = vec(); got(b->opVectorTimesScalar(v, fl())); break; } case 4: got(b->opSDiv(in(), in())); break; case 5: got(b->opFNegate(fl())); break;
				case 6: { Instruction* v = vec(); got(b->opDot(v, v)); break; } case 7: b.Add(fl(), fl()); got(&b.back()); break; case 8: b.Sub(in(), in()); got(&b.back()); break;
				case 9: got(b->opBitwiseAnd(in(), in())); break; case 10: got(b->opShiftLeftLogical(in(), in())); break; case 11: got(b->opSMod(in(), in())); break;
				}
				break;
			}
			case sLoad: { Instruction* p = pointer(); if (p) got((*bb)->opLoad(p)); break; }
			case sStore: { Instruction* p = pointer(); if (p) { const Type& t = p->getType()->front(); Instruction* v = valOf(t); if (r.chance(15)) (*bb)->opStore(p, v, spv::MemoryAccessMask::Aligned, 16u); else (*bb)->opStore(p, v); } break; }
			case sLocal: { Type t = randomType(1); Instruction* v; std::string nm = fresh("v"); switch (r.below(4)) { case 0: v = f->variable(t, nm.c_str()); break; case 1: v = f->variable<float>(); break; case 2: v = f->variable(m.addType(t.wrapPointer(spv::StorageClass::Function)), r.chance(50) ? nm.c_str() : nullptr, constOf(t)); break; default: v = f->variable(int(r.below(9)), nm.c_str()); } ptrs.push_back(v); break; }
			case sAccess:
			{
				Instruction* p = nullptr; for (int i = 0; i < 6 && !p; ++i) { Instruction* x = pointer(); if (x && x->getType()->front().isComposite()) p = x; }
				if (!p) break; const Type& t = p->getType()->front(); unsigned k = t.isStruct() ? unsigned(t.getSubTypes().size()) : t.isArray() ? t.getArrayLength() : t.getVectorComponentCount(); if (!k) break;
				Instruction* a = (*bb)->opAccessChain(p, r.below(k)); if (a && !a->isErrorInstr()) { ptrs.push_back(a); got((*bb)->opLoad(a)); }
				break;
			}
			case sComposite:
			{
				BasicBlock& b = *bb;
				switch (r.below(6))
				{
				case 0: { Instruction* x = fl(); Instruction* y = fl(); Instruction* t = m.type<vector_t<float, 2>>(); got(b->opCompositeConstruct(t, x, y)); break; }
				case 1: got(b->opCompositeExtract(vec(), 0u)); break;
				case 2: { Instruction* v = vec(); Instruction* x = fl(); got(b->opCompositeInsert(v, x, 1u)); break; }
				case 3: { Instruction* v = vec(); got(b->opVectorShuffle(v, v, 0u, 1u, 1u)); break; }
				case 4: { Instruction* v = vec(); Instruction* x = in(); got(b->opVectorExtractDynamic(v, x)); break; }
				case 5: { Instruction* v = vals.empty() ? fl() : r.pick(vals); got(b->opCopyObject(v)); break; }
				}
				break;
			}
			case sIf: { Instruction* c = bo(); bb = &bb->If(c, [&](BasicBlock& x) { nested(x, [&] { straight(r.below(4)); if (r.chance(15)) exitOnly(); }); }); labels.push_back(bb->getLabel()); break; }
			case sIfElse: { Instruction* c = bo(); bb = &bb->If(c, [&](BasicBlock& x) { nested(x, [&] { straight(r.below(3)); if (r.chance(10)) exitOnly(); }); }, [&](BasicBlock& x) { nested(x, [&] { straight(r.below(3)); if (r.chance(15)) step(sIf); }); }); labels.push_back(bb->getLabel()); break; }
			case sLoop: { bb = &bb->Loop([&](BasicBlock& x) -> Instruction* { Instruction* c = nullptr; nested(x, [&] { straight(r.below(2)); c = x->opSLessThan(in(), in()); }); return c; }, [&](BasicBlock& x) { nested(x, [&] { straight(r.below(2)); }); }, [&](BasicBlock& x) { nested(x, [&] { straight(r.below(3)); if (r.chance(20)) step(sIf); }); }); labels.push_back(bb->getLabel()); break; }
			case sCall:
			{
				if (callable.empty()) break; Function* c = r.pick(callable);
				List<Instruction*> args(m.getAllocator()); bool first = true; for (const Type& t : c->getFunctionType().getSubTypes()) { if (first) { first = false; continue; } args.emplace_back(valOf(t)); }
				if (args.empty() && r.chance(50)) got((*bb)->call(c)); else got((*bb)->callDynamic(c, args));
				break;
			}
			case sExt: { GLSL450Intruction* g = bb->glsl(); switch (r.below(6)) { case 0: got(g->opFAbs(fl())); break; case 1: got(g->opSin(fl())); break; case 2: got(g->opFMax(fl(), fl())); break; case 3: got(g->opNormalize(vec())); break; case 4: got(g->opSAbs(in())); break; case 5: got(g->opFClamp(fl(), fl(), fl())); break; } note(imports, m.getExtensionInstructionImport("GLSL.std.450")); break; }
			case sSwitch:
			{
				Instruction* sel = in(); BasicBlock& mg = f->addBasicBlock(); BasicBlock& d = f->addBasicBlock(); BasicBlock& c1 = f->addBasicBlock();
				(*bb)->opSelectionMerge(&mg, spv::SelectionControlMask::MaskNone);
				(*bb)->makeOp(spv::Op::OpSwitch, sel, &d, r.below(9), &c1, 1000u + r.below(9), &d);
				nested(d, [&] { straight(1); (*bb)->opBranch(&mg); }); nested(c1, [&] { straight(1); (*bb)->opBranch(&mg); });
				bb = &mg; labels.push_back(bb->getLabel()); break;
			}
			case sPhi: { Instruction* a = fl(); Instruction* b2 = fl(); if (a->getBasicBlock() && b2->getBasicBlock() && a->getParentType() == Instruction::ParentType::BasicBlock && b2->getParentType() == Instruction::ParentType::BasicBlock) got((*bb)->opPhi(a, b2)); break; }
			case sReturn: case sLeave: leave(); break;
			case sImage:
			{
				Instruction* v = nullptr; for (auto g : globals) { const Type* t = g->getType(); if (t && t->front().isSampledImage()) v = g; }
				if (!v) { Type t = m.newType(); t.SampledImage(dyn_image_t{}); v = m.uniformConstant(t, fresh("tex").c_str()); globals.push_back(v); }
				Instruction* si = (*bb)->opLoad(v); Instruction* co = m.constant(make_vector(0.5f, float(r.below(3))));
				switch (r.below(3)) { case 0: got((*bb)->opImageSampleImplictLod(si, co)); break; case 1: got((*bb)->opImageSampleExplicitLodLevel(si, co, fl())); break; case 2: got((*bb)->opImageSampleImplictLod(si, co, spv::ImageOperandsMask::Bias, fl())); break; }
				break;
			}
			case sMode: { for (EntryPoint& e : m.getEntryPoints()) { if (r.chance(60)) continue; switch (r.below(4)) { case 0: e.addExecutionMode(spv::ExecutionMode::OriginUpperLeft); break; case 1: e.addExecutionMode(spv::ExecutionMode::LocalSize, 1u + r.below(8), 1u, 2u); break; case 2: e.addExecutionMode(spv::ExecutionMode::OutputVertices, 3u); break; case 3: { Instruction* a = m.constant(1u); Instruction* b = m.constant(1u + r.below(8)); e.addExecutionMode(spv::ExecutionMode::LocalSizeId, b, a, a); break; } } } break; }
			case sAtomic: { Instruction* sc = m.constant(1u); Instruction* se = m.constant(0u); switch (r.below(3)) { case 0: (*bb)->makeOp(spv::Op::OpMemoryBarrier, sc, se); break; case 1: (*bb)->makeOp(spv::Op::OpControlBarrier, sc, sc, se); break;
				case 2: { Instruction* p = nullptr; for (auto x : ptrs) if (x->getType() && x->getType()->front().isInt(32)) p = x; if (p) { Instruction* ty = m.addType(p->getType()->front()); got((*bb)->makeOp(spv::Op::OpAtomicIAdd, ty, InvalidId, p, sc, se, i32())); } break; } } break; }
			case sNop: if (r.chance(50) || strings.empty()) (*bb)->opNop(); else if (r.chance(70)) (*bb)->opLine(r.pick(strings), r.below(500), r.below(80)); else (*bb)->opNoLine(); break;
			case sBranch: { BasicBlock& x = f->addBasicBlock(r.chance(50) ? fresh("lbl").c_str() : nullptr); (*bb)->opBranch(&x); bb = &x; labels.push_back(x.getLabel()); break; }
			case sLogic: { BasicBlock& b = *bb; switch (r.below(7)) { case 0: got(b->opSLessThan(in(), in())); break; case 1: got(b->opFOrdEqual(fl(), fl())); break; case 2: got(b->opLogicalAnd(bo(), bo())); break; case 3: got(b->opLogicalNot(bo())); break; case 4: got(b->opSelect(bo(), fl(), fl())); break; case 5: { Instruction* v = vec(); got(b->opIsNan(v)); break; } case 6: b.Equal(in(), in()); got(&b.back()); break; } break; }
			case sConvert: { BasicBlock& b = *bb; switch (r.below(3)) { case 0: got(b->opConvertFToS(fl())); break; case 1: got(b->opConvertSToF(in())); break; case 2: got(b->opBitcast(m.type<unsigned>(), fl())); break; } break; }
			}
		}
		void exitOnly() { if (f->getReturnType().isVoid()) (*bb)->opReturn(); else (*bb)->opReturnValue(valOf(f->getReturnType())); }
		Instruction* any()
		{
			std::vector<Instruction*>* v[] = { &types, &consts, &globals, &funcs, &vals, &ptrs, &labels, &structs };
			for (int i = 0; i < 6; ++i) { auto* p = v[r.below(8)]; if (!p->empty()) return r.pick(*p); }
			return globals.empty() ? nullptr : globals.back();
		}
		Instruction* pointer()
		{
			if (!ptrs.empty() && r.chance(55)) return r.pick(ptrs);
			if (globals.empty()) return ptrs.empty() ? nullptr : r.pick(ptrs);
			return r.pick(globals);
		}
		void finish() { if (bb != nullptr) leave(); }
		void random(unsigned k)
		{
			for (unsigned i = 0; i < k; ++i)
			{
				unsigned c = r.below(100); int s;
				if (f == nullptr) s = c < 60 ? int(r.below(sLine + 1)) : c < 80 ? sFunction : c < 95 ? sEntry : sDeclare;
				else s = c < 20 ? int(r.below(sLine + 1)) : c < 24 ? sMode : c < 32 ? sReturn : int(sArith + r.below(sCount - sArith));
				step(s);
			}
			finish();
		}
	};
}
