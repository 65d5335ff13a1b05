"""Shared machinery of the checks: builds, drivers, TLC runs, evidence and verdicts."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(VERIF, "drivers")
BUILD = os.path.join(VERIF, "build")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 8)
CXX = "clang++"
DEFS = ["-DSPVGENTWO_LOGGING=1", "-DSPVGENTWO_REPLACE_PLACEMENTNEW=1", "-DSPVGENTWO_REPLACE_TRAITS=1",
        "-DSPVGENTWO_ENABLE_OPERANDVALIDATION=1"]
BASE = ["-std=c++17", "-w", "-g1"] + DEFS
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr,null,alignment", "-fno-omit-frame-pointer"]
INC = ["-I" + REPO + "/lib/include", "-I" + REPO + "/common/include", "-I" + DRV]
SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1:max_allocation_size_mb=4096",
           "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98"}


class CheckError(Exception):
    """the machinery itself failed: exit 2, never a verdict"""


def sh(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return -999, (x.stdout or b"").decode("utf-8", "replace")


def tree_hash():
    h = hashlib.sha256()
    for d in ("lib", "common", "dis", "refl", "link"):
        for p in sorted(glob.glob(os.path.join(REPO, d, "**", "*"), recursive=True)):
            if os.path.isfile(p):
                h.update(os.path.relpath(p, REPO).encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


class Ctx:
    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        os.makedirs(BUILD, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix="work-%s-" % pid, dir=BUILD)
        self.bdir = os.path.join(BUILD, "obj-" + tree_hash())
        os.makedirs(self.bdir, exist_ok=True)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.violations, self.known = [], [], []
        self.assumptions, self.extra = [], {}
        self.known_list = [k for k in load_known() if k["property"] == pid]

    thorough = property(lambda s: s.tier == "thorough")

    def log(self, *a):
        print("[%s %5.1fs]" % (self.id, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------ building
    def lib(self, san=True, opt="-O0", validation=True):
        """object files of the library and the common helpers, from /repo's working tree"""
        tag = ("san" if san else "plain") + opt + ("" if validation else "-noval")
        d = os.path.join(self.bdir, tag); os.makedirs(d, exist_ok=True)
        srcs = sorted(glob.glob(REPO + "/lib/source/*.cpp") + glob.glob(REPO + "/common/source/*.cpp"))
        base = [x for x in BASE if validation or "OPERANDVALIDATION" not in x]

        def one(s):
            o = os.path.join(d, os.path.basename(s) + ".o")
            if os.path.exists(o): return o
            fl = list(base)
            # the generated tables take a minute to compile with instrumentation and hold no pointers of ours
            if san and not s.endswith("Grammar.cpp"): fl += SAN + [opt]
            else: fl += ["-O0" if s.endswith("Grammar.cpp") else opt]
            tmp = o + ".%d.tmp" % os.getpid()
            rc, out = sh([CXX] + fl + INC + ["-c", s, "-o", tmp], timeout=600)
            if rc != 0: raise CheckError("cannot compile %s:\n%s" % (s, out[-3000:]))
            os.rename(tmp, o); return o
        # the slowest file first
        srcs.sort(key=lambda p: -os.path.getsize(p))
        with ThreadPoolExecutor(NCPU) as ex: return list(ex.map(one, srcs))

    def build(self, driver, san=True, opt="-O0", link_lib=True, extra=(), validation=True):
        src = os.path.join(DRV, driver + ".cpp")
        h = hashlib.sha256(open(src, "rb").read())
        for hh in sorted(glob.glob(DRV + "/*.h")): h.update(open(hh, "rb").read())
        tag = h.hexdigest()[:10]
        exe = os.path.join(self.bdir, "%s-%s%s%s-%s" % (driver, "san" if san else "plain", opt, "" if validation else "-noval", tag))
        if os.path.exists(exe): return exe
        base = [x for x in BASE if validation or "OPERANDVALIDATION" not in x]
        with ThreadPoolExecutor(2) as ex:
            fl = ex.submit(lambda: self.lib(san, opt, validation) if link_lib else [])
            o = exe + ".%d.o" % os.getpid()
            rc, out = sh([CXX] + base + (SAN if san else []) + [opt] + INC + list(extra) + ["-c", src, "-o", o], timeout=600)
            objs = fl.result()
        if rc != 0: raise CheckError("cannot compile driver %s:\n%s" % (driver, out[-4000:]))
        tmp = exe + ".%d.tmp" % os.getpid()
        rc, out = sh([CXX] + (SAN if san else []) + [o] + objs + ["-rdynamic", "-o", tmp], timeout=300)
        if rc != 0: raise CheckError("cannot link driver %s:\n%s" % (driver, out[-3000:]))
        os.unlink(o); os.rename(tmp, exe)
        return exe

    def tool(self, name):
        """one of the command line tools, from its sources"""
        exe = os.path.join(self.bdir, "tool-" + name)
        if os.path.exists(exe): return exe
        objs = self.lib(); srcs = sorted(glob.glob("%s/%s/source/*.cpp" % (REPO, name)))
        def one(s):
            o = "%s-%s.%d.o" % (exe, os.path.basename(s), os.getpid())
            rc, out = sh([CXX] + BASE + SAN + ["-O0"] + INC + ["-I%s/%s/include" % (REPO, name), "-c", s, "-o", o], timeout=600)
            if rc != 0: raise CheckError("cannot compile %s:\n%s" % (s, out[-3000:]))
            return o
        mine = [one(s) for s in srcs]; tmp = exe + ".%d.tmp" % os.getpid()
        rc, out = sh([CXX] + SAN + mine + objs + ["-rdynamic", "-o", tmp], timeout=300)
        if rc != 0: raise CheckError("cannot link %s:\n%s" % (name, out[-3000:]))
        for o in mine: os.unlink(o)
        os.rename(tmp, exe); return exe

    # ------------------------------------------------------------ drivers
    def run(self, exe, args, timeout=300, what=""):
        """runs a driver; a crash, sanitizer report or hang of the code under test is an observation"""
        rc, out = sh([exe] + [str(a) for a in args], timeout=timeout, env=SAN_ENV)
        if rc == 0: return True
        if rc == 3: raise CheckError("driver %s: %s" % (what or exe, out[-2000:]))
        rc2, out2 = sh([exe] + [str(a) for a in args], timeout=timeout, env=SAN_ENV)
        if rc2 == 0: raise CheckError("driver %s failed once with %s, then succeeded:\n%s" % (what or exe, rc, out[-2000:]))
        p = self.save("crash", json.dumps({"cmd": [os.path.basename(exe)] + [str(a) for a in args], "exit": rc, "output": out2[-6000:]}, indent=1))
        self.violation(p, "the code under test crashed, hung or tripped a sanitizer (exit %s): %s" % (rc2, first_report(out2)))
        return False

    def save(self, kind, text):
        d = os.path.join(BUILD, "replay"); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s-%d.json" % (self.id, kind, len(self.violations)))
        with open(p, "w") as f: f.write(text)
        return p

    def violation(self, replay, why):
        self.violations.append({"replay": replay, "why": why})
        self.log("VIOLATION FOUND:", why[:1500])

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=1, timeout=600, mem="3g", args=(), spec=SPEC):
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        cfgp = cfg
        if "\n" in cfg:
            cfgp = os.path.join(meta, "m.cfg"); open(cfgp, "w").write(cfg)
        elif not os.path.isabs(cfg): cfgp = os.path.join(spec, cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % (2 if workers == 1 else 8), "-Xss16m", "-Xmx" + mem, "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE",
               "-metadir", meta, "-workers", str(workers), "-config", cfgp] + list(args) + [os.path.join(spec, module + ".tla")]
        rc, out = sh(cmd, timeout=timeout, env=dict({"GRAMMAR": os.path.join(VERIF, "data", "grammar.json")}, **(env or {})), cwd=spec)
        shutil.rmtree(meta, ignore_errors=True)
        return rc, out

    def mc(self, module, cfg, env=None, timeout=600, mem="8g", args=(), expect_actions=()):
        """exhaustive model checking of the specification itself: a failure is an error of the model"""
        rc, out = self.tlc(module, cfg, env, workers=NCPU, timeout=timeout, mem=mem, args=list(args) + (["-coverage", "1"] if expect_actions else []))
        if rc != 0: raise CheckError("model %s/%s does not check (exit %s):\n%s" % (module, cfg if "\n" not in cfg else "", rc, out.split("The coverage statistics")[0][-4000:]))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.transitions += int(m[-1][0]); self.states += int(m[-1][1])
        for a in expect_actions:
            mm = re.findall(r"<%s line[^>]*>: (\d+):(\d+)" % re.escape(a), out)
            if not mm or max(int(x[1]) for x in mm) == 0:
                raise CheckError("action %s of %s is never taken: the model is vacuous" % (a, module))
        self.log("model", module, "states", m[-1] if m else "?")
        return out

    def validate(self, module, trace, cfg=None, shards=None, timeout=800, mem="3g", env=None, reset="reset", stateless=False, confirm=None):
        """Trace validation.  `trace` is an ndjson file; sessions begin at lines whose ev is `reset`
        (every line is its own session when stateless).  Returns the rejected sessions."""
        lines = [l for l in open(trace) if l.strip()]
        if not lines: raise CheckError("empty trace " + trace)
        sess = []
        for l in lines:
            if stateless or not sess or ('"ev":"%s"' % reset) in l[:60]: sess.append([l])
            else: sess[-1].append(l)
        n = min(shards or NCPU, len(sess))
        # balance by size
        bins = [[0, []] for _ in range(n)]
        for i, s in sorted(enumerate(sess), key=lambda p: -sum(map(len, p[1]))):
            b = min(bins, key=lambda x: x[0]); b[0] += sum(map(len, s)); b[1].append(i)
        base = os.path.basename(trace)
        cfg = cfg or "SPECIFICATION TraceSpec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"

        def runset(idx, tag):
            f = os.path.join(self.work, "%s.%s.ndjson" % (base, tag))
            with open(f, "w") as o:
                for i in idx: o.writelines(sess[i])
            e = {"TRACE": f}; e.update(env or {})
            rc, out = self.tlc(module, cfg, e, 1, timeout, mem)
            m = re.findall(r'<<\s*"DIAMETER",\s*(\d+),\s*(\d+)\s*>>', out)
            g = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
            if not m or not g: raise CheckError("TLC gave no verdict on %s with %s (exit %s):\n%s" % (f, module, rc, out[-4000:]))
            done, total = int(m[-1][0]), int(m[-1][1])
            return rc, out, done, total, int(g[-1][0]), int(g[-1][1])

        def shard(k):
            idx = sorted(bins[k][1]); bad = []; st = tr = 0
            rounds = 0
            while idx:
                rc, out, done, total, gen, dist = runset(idx, "s%d" % k)
                st += dist; tr += gen
                if done == total: break
                # `done` lines were accepted: line index done (0-based) was rejected
                acc = 0; pos = None
                for j, i in enumerate(idx):
                    if acc + len(sess[i]) > done: pos = j; break
                    acc += len(sess[i])
                i = idx[pos]
                bad.append((i, done - acc, rejects(out)))
                idx = idx[pos + 1:]
                rounds += 1
                if rounds >= 2: break
            return st, tr, bad
        with ThreadPoolExecutor(n) as ex: res = list(ex.map(shard, range(n)))
        rejected = []
        for st, tr, bad in res:
            self.states += st; self.transitions += tr; rejected += bad
        rejected.sort()
        self.traces += len(sess); self.events += len(lines)
        if len(self.samples) < 3: self.samples.append(sess[0][min(len(sess[0]) - 1, 3)].strip()[:600])
        final = []
        for i, off, why in rejected[:4]:
            # a verdict has to repeat: the session alone, from the start
            rc, out, done, total, _, _ = runset([i], "c%d" % i)
            if done == total: raise CheckError("session %d of %s was rejected once and then accepted" % (i, trace))
            final.append({"session": i, "line": done, "event": json.loads(sess[i][done]), "lines": sess[i], "why": rejects(out) or why})
        self.log("validated %s: %d sessions, %d events, %d rejected" % (module, len(sess), len(lines), len(rejected)))
        return final

    def judge(self, module, rejected, describe=None, known=None):
        """turns rejections into violations, except the listed known findings"""
        for r in rejected:
            desc = (describe(r) if describe else json.dumps(r["event"])[:300])
            k = None
            for kf in self.known_list:
                if known and known(kf, r): k = kf; break
            if k:
                if k not in self.known: self.known.append(k)
                continue
            p = self.save("trace", json.dumps({"spec": module, "session": r["session"], "rejected_line": r["line"], "event": r["event"],
                          "tlc": r["why"], "session_lines": [l.strip() for l in r["lines"][max(0, r["line"] - 60):r["line"] + 1]]}, indent=1))
            self.violation(p, "%s rejects: %s   %s" % (module, desc, " | ".join(r["why"])[:1200]))

    def check_trace(self, module, trace, describe=None, known=None, **kw):
        rej = self.validate(module, trace, **kw)
        self.judge(module, rej, describe, known)
        return rej

    # ------------------------------------------------------------ end
    def finish(self, level="model_checking"):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "samples": self.samples[:3]}
        cov.update(self.extra)
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.id + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for k in self.known_list:
            if k.get("fixed"): continue
            if k in self.known or k.get("always"): print("KNOWN-FINDING: property=%s %s" % (self.id, k["what"]))
        shutil.rmtree(self.work, ignore_errors=True)
        for v in self.violations: print("VIOLATION property=%s replay=%s" % (self.id, v["replay"]))
        self.log("done: %d states, %d transitions, %d traces, %d violations" % (self.states, self.transitions, self.traces, len(self.violations)))
        return 1 if self.violations else 0


def rejects(out):
    """what the specification printed about the line it did not accept"""
    r = []; lines = out.splitlines()
    for k, x in enumerate(lines):
        if '"REJECT"' in x:
            t = x
            while t.count("<<") > t.count(">>") and k + 1 < len(lines) and len(t) < 2000: k += 1; t += " " + lines[k].strip()
            r.append(t)
        elif "TLC threw" in x or x.startswith("The error") or "Attempted to" in x: r.append(x)
    return r[-4:]


def first_report(out):
    for l in out.splitlines():
        if "ERROR: AddressSanitizer" in l or "runtime error" in l or "VT_TIMEOUT" in l or "VT_" in l: return l.strip()[:300]
    return out.strip().splitlines()[-1][:300] if out.strip() else ""


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []
