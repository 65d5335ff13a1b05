#!/usr/bin/env python3
"""Development aid (no check uses it): confirms planted bugs in a scratch clone and runs the checks against them.
   seedtool.py confirm ID...   - patch applies, builds, stable tests pass, demo fails with it and passes without
   seedtool.py catch ID...     - runs the property's quick check on the patched scratch clone"""
import json, os, subprocess, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/wt/repo"; B = W + "/_build"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def sync():
    if not os.path.isdir(W): sh("mkdir -p /tmp/wt && git clone -q /repo " + W)
    r = sh("cd %s && git checkout -q -- . && git fetch -q && git reset -q --hard origin/HEAD && git clean -fdq -e _build" % W)
    assert r.returncode == 0, r.stdout
def build():
    r = sh("""export CC=/usr/bin/gcc CXX=/usr/bin/g++; cmake -S %s -B %s -G Ninja -DCMAKE_BUILD_TYPE=Debug -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS \
  -DCatch2_DIR=/usr/lib/cmake/Catch2 -Dspirv-headers_DIR=/opt/vp/cmake -Dspirv-tools_DIR=/opt/vp/cmake -DSPVGENTWO_BUILD_TESTS=TRUE -DSPVGENTWO_BUILD_DISASSEMBLER=TRUE \
  -DSPVGENTWO_BUILD_REFLECT=TRUE -DSPVGENTWO_BUILD_LINKER=TRUE && ninja -C %s -j8""" % (W, B, B))
    return r.returncode == 0, r.stdout[-3000:]
def tests():
    R = B + "/reports"; os.makedirs(R, exist_ok=True)
    sh("ctest --test-dir %s -j8 --timeout 120 --output-junit %s/ctest.xml" % (B, R))
    lines = []
    for f in sorted(glob.glob(W + "/dis/test/*.spv")):
        ok = sh("timeout 60 %s/SpvGenTwoDisassembler %s --assignids" % (B, f)).returncode == 0
        lines.append("%s dis/test/%s" % ("PASS" if ok else "FAIL", os.path.basename(f)))
    open(R + "/dis.txt", "w").write("\n".join(lines) + "\n")
    sh("cd %s && python3 /opt/vp/results.py /tmp/wt/out.json junit:%s/ctest.xml lines:%s/dis.txt" % (R, R, R))
    a = set(json.load(open("/tmp/wt/out.json"))["passed"]); b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(b - a)
def main():
    mode, ids = sys.argv[1], sys.argv[2:] or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(V + "/seeded/*/patch.diff"))
    sync()
    if mode == "confirm":
        ok, o = build(); assert ok, o
        for i in ids:
            d = V + "/seeded/" + i
            base = sh("timeout 300 bash %s/demo.sh" % d, cwd=W)
            p = sh("git apply %s/patch.diff" % d, cwd=W)
            if p.returncode: print(i, "DOES NOT APPLY", p.stdout); continue
            ok, o = build(); lost = tests() if ok else ["build: " + o]
            bad = sh("timeout 300 bash %s/demo.sh" % d, cwd=W)
            sh("git checkout -q -- .", cwd=W); build()
            good = base.returncode == 0 and ok and not lost and bad.returncode != 0
            print(i, "CONFIRMED" if good else "NOT CONFIRMED base=%d ok=%s lost=%s patched=%d %s" % (base.returncode, ok, lost, bad.returncode, base.stdout[-400:] if base.returncode else bad.stdout[-300:]), flush=True)
    else:
        for i in ids:
            d = V + "/seeded/" + i; prop = json.load(open(d + "/meta.json"))["property"]
            p = sh("git apply %s/patch.diff" % d, cwd=W)
            if p.returncode: print(i, "DOES NOT APPLY"); continue
            r = sh("VT_REPO=%s VERIF_SEED=1 python3 bin/check.py %s quick" % (W, prop), cwd=V)
            sh("git checkout -q -- .", cwd=W)
            ok = "caught" if r.returncode == 1 and ("VIOLATION property=" + prop) in r.stdout else "MISSED exit=%d %s" % (r.returncode, r.stdout[-600:])
            c = json.load(open(V + "/doc/caught.json")); c[i] = prop if ok == "caught" else "missed"; json.dump(c, open(V + "/doc/caught.json", "w"), indent=1, sort_keys=True)
            print(i, prop, ok, flush=True)
main()
