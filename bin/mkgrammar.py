#!/usr/bin/env python3
"""Authoring tool (not run by checks): writes data/grammar.json, an oracle for the shipped grammar that is derived
from the Khronos registry file, restricted to the opcodes and enumerants the library knows.
usage: mkgrammar.py <dump written by drivers/grammardump>"""
import json, os, sys
K = json.load(open('/usr/include/spirv/unified1/spirv.core.grammar.json'))
GL = json.load(open('/usr/include/spirv/unified1/extinst.glsl.std.450.grammar.json'))
L = [json.loads(l) for l in open(sys.argv[1])]
KINDS = "ImageOperands FPFastMathMode SelectionControl LoopControl FunctionControl MemorySemantics MemoryAccess KernelProfilingInfo RayFlags FragmentShadingRate SourceLanguage ExecutionModel AddressingModel MemoryModel ExecutionMode StorageClass Dim SamplerAddressingMode SamplerFilterMode ImageFormat ImageChannelOrder ImageChannelDataType FPRoundingMode FPDenormMode QuantizationModes FPOperationMode OverflowModes LinkageType AccessQualifier HostAccessQualifier FunctionParameterAttribute Decoration BuiltIn Scope GroupOperation KernelEnqueueFlags Capability RayQueryIntersection RayQueryCommittedIntersectionType RayQueryCandidateIntersectionType PackedVectorFormat CooperativeMatrixOperands CooperativeMatrixLayout CooperativeMatrixUse InitializationModeQualifier LoadCacheControl StoreCacheControl IdResultType IdResult IdMemorySemantics IdScope IdRef LiteralInteger LiteralString LiteralFloat LiteralContextDependentNumber LiteralExtInstInteger LiteralSpecConstantOpInteger PairLiteralIntegerIdRef PairIdRefLiteralInteger PairIdRefIdRef".split()
CAT = {k['kind']: k['category'] for k in K['operand_kinds']}
Q = {None: 2, '?': 0, '*': 1}
core = {}
for i in K['instructions']: core.setdefault(i['opcode'], i)
capv = {e['enumerant']: e['value'] for k in K['operand_kinds'] if k['kind'] == 'Capability' for e in k['enumerants']}
def ver(v):
    if v is None or v == 'None': return 0
    a, b = map(int, v.split('.')); return a << 16 | b << 8
lib = {l['op']: l for l in L if l.get('ext') == 0}
# the registry file here is a little newer than the one the library ships: these follow the library
DRIFT_CAPS = {5614, 5615, 6035}; DRIFT_EXT = set(range(4450, 4456))
# where an instruction belongs: 1-10 sections of the module, 11 types and constants, 12 variables, 13 undefs, 14 lines,
# 15 function, 16 parameter, 17 label, 18 function end, 19 inside blocks, 20 end of a block, 0 elsewhere in a module
SEC = {17: 1, 10: 2, 11: 3, 14: 4, 15: 5, 16: 6, 331: 6, 7: 7, 4: 7, 3: 7, 2: 7, 5: 8, 6: 8, 330: 9, 71: 10, 72: 10, 73: 10, 74: 10, 75: 10, 332: 10, 5632: 10, 5633: 10, 59: 12, 1: 13, 8: 14, 317: 14,
  54: 15, 55: 16, 248: 17, 56: 18, 5300: 0, 5911: 0, 5912: 0, 5913: 0, 5609: 0, 5610: 0, 4418: 0,
  249: 20, 250: 20, 251: 20, 252: 20, 253: 20, 254: 20, 255: 20, 4416: 20, 4448: 20, 4449: 20, 5294: 20}
def sec(o, n): return SEC[o] if o in SEC else 11 if n.startswith(('OpType', 'OpConstant', 'OpSpecConstant')) else 0 if n == 'OpSamplerImageAddressingModeNV' else 19
drift = []
def onames(c, l):
    """names of the operands: as in the registry but for line breaks; where its wording changed since, the library's"""
    a = ["ResultType" if x['kind'] == 'IdResultType' else "Result" if x['kind'] == 'IdResult' else x.get('name', '').replace('\n', '') for x in c.get('operands', [])]
    b = [x[3] for x in l['ops']]
    if a != b: drift.append((l['name'], a, b))
    return b if len(a) == len(b) else a
top = max(lib) + 1
idx, ops = [0] * top, []
for o in sorted(lib):
    c = core[o]
    rec = {"n": lib[o]['name'], "op": o,
           "o": [[KINDS.index(x['kind']), Q[x.get('quantifier')]] for x in c.get('operands', [])],
           "on": onames(c, lib[o]),
           "caps": sorted(lib[o]['caps'] if o in DRIFT_CAPS else {capv[x] for x in c.get('capabilities', [])}),
           "exts": sorted(lib[o]['exts'] if o in DRIFT_EXT else c.get('extensions', [])),
           "ver": ver(c.get('version')),
           "res": any(x['kind'] == 'IdResult' for x in c.get('operands', [])),
           "type": any(x['kind'] == 'IdResultType' for x in c.get('operands', [])),
           "class": c.get('class', ''), "sec": sec(o, lib[o]['name'])}
    names = {i['opname'] for i in K['instructions'] if i['opcode'] == o}
    assert lib[o]['name'] in names
    ops.append(rec); idx[o] = len(ops)
kinds = []
ren = {"1D": "Dim1D", "2D": "Dim2D", "3D": "Dim3D"}
for ki, kn in enumerate(KINDS):
    k = next((x for x in K['operand_kinds'] if x['kind'] == kn), {"enumerants": [], "category": ""})
    ld = next(l for l in L if l.get('kind') == ki)
    ln = {v: s for v, s in ld['names']}; lp = {v: p for v, p in ld['params']}
    vals = {}
    for e in k.get('enumerants', []):
        v = int(e['value'], 16) if isinstance(e['value'], str) else e['value']
        x = vals.setdefault(v, {"names": [], "params": [], "caps": None, "exts": None, "ver": 0})
        nm = ren.get(e['enumerant'], e['enumerant']) if kn == 'Dim' else e['enumerant']
        x["names"].append(nm)
        if len(x["names"]) == 1:
            x["params"] = [KINDS.index(p['kind']) if p['kind'] in KINDS else -1 for p in e.get('parameters', [])]
            x["caps"] = sorted(capv[c] for c in e.get('capabilities', [])); x["exts"] = sorted(e.get('extensions', [])); x["ver"] = ver(e.get('version'))
    out = []
    for v in sorted(ln):
        x = vals.get(v)
        if x is None or ln[v] not in x["names"] or (v in lp and lp[v] != x["params"]):
            # an enumerant renamed or renumbered since
            x = {"names": [ln[v]], "params": lp.get(v, []), "caps": [], "exts": [], "ver": 0}
        out.append({"v": [v >> 16, v & 0xffff], "n": ln[v], "p": x["params"], "caps": x["caps"], "exts": x["exts"], "ver": x["ver"]})
    cat = {"BitEnum": 0, "ValueEnum": 1, "Id": 2, "Literal": 3, "Composite": 4}.get(CAT.get(kn, ''), -1)
    bases = [KINDS.index(b) for b in next((x.get('bases', []) for x in K['operand_kinds'] if x['kind'] == kn), [])]
    kinds.append({"n": kn, "cat": cat, "bases": bases, "vals": out})
CL = json.load(open('/usr/include/spirv/unified1/extinst.opencl.std.100.grammar.json'))
def ext(G, e):
    l = {x['op']: x for x in L if x.get('ext') == e}
    return [{"op": i['opcode'], "n": i['opname'], "k": len(i['operands']), "o": [[KINDS.index(x['kind']), Q[x.get('quantifier')]] for x in i['operands']], "on": onames(i, l[i['opcode']]), "caps": sorted(capv[x] for x in i.get('capabilities', []))} for i in G['instructions']]
opencl, glsl = ext(CL, 2), ext(GL, 1)
for x in drift: print(*x, sep='\n   ')
json.dump({"idx": idx, "ops": ops, "kinds": kinds, "glsl": glsl, "opencl": opencl}, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'grammar.json'), 'w'), separators=(',', ':'))
print(len(ops), "opcodes")
