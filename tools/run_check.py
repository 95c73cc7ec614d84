#!/usr/bin/env python3
"""run_check.py <PROPERTY> [quick|thorough]

Builds the property's harness together with the library sources of /repo's current working
tree in several instrumented configurations, runs every configuration (sharded) by case count,
turns what the monitors observed into a verdict, and rewrites evidence/<PROPERTY>.json.

exit 0: held on everything explored.  exit 1 + VIOLATION line: broken.  exit 2: no answer.
"""
import sys, os, re, json, time, subprocess, shutil, glob, struct
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS, CONFIGS, COMMON_ASSUMPTIONS

NCPU = os.cpu_count() or 4

def die(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)

def sh(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode("utf-8", "replace")

def load_known():
    finds = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            m = re.match(r"finding: property=(\S+) key=(\S+) match=/(.*)/ :: (.*)$", line)
            if not m:
                die("bad known-findings line: " + line)
            finds.append(dict(property=m.group(1), key=m.group(2), match=m.group(3), text=m.group(4)))
    return finds

def classify(out, rc):
    """name what ended the process"""
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer|MemorySanitizer): ([\w-]+)", out)
    if m:
        kind = m.group(2)
        if m.group(1) == "LeakSanitizer" or kind == "detected":
            return "memory-leak"
        return kind
    m = re.search(r"WARNING: (ThreadSanitizer|MemorySanitizer): ([\w -]+?)(?: \(|\n)", out)
    if m:
        return m.group(2).strip().replace(" ", "-")
    m = re.search(r"runtime error: ([^\n]{0,120})", out)
    if m:
        s = re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1))
        return "undefined-behaviour:" + re.sub(r"[^\w]+", "-", s)[:80]
    m = re.search(r"==\d+== (Invalid (?:read|write) of size|Conditional jump or move depends on uninit|Use of uninit|Syscall param|Invalid free|Mismatched free|Source and destination overlap)", out)
    if m:
        return "valgrind:" + re.sub(r"[^\w]+", "-", m.group(1))
    if "C4ERROR" in out:
        return "assertion"
    if isinstance(rc, int) and rc < 0:
        return "signal-%d" % -rc
    return "exit-%s" % rc

class Runner:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.chk = CHECKS[prop]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.bdir = os.path.join(VERIF, ".build", prop)
        shutil.rmtree(self.bdir, ignore_errors=True)
        os.makedirs(self.bdir)
        self.known = [k for k in load_known() if k["property"] == prop]
        self.violations = {}   # key -> dict
        self.known_hit = {}
        self.total = dict(evaluations=0, counters={}, per_scenario={}, per_config={}, samples=[])
        self.sigs = set()
        self.rule = ""
        self.inconclusive = []

    # ---------------------------------------------------------------- build
    def build(self):
        jobs = []
        cfgs = self.chk["configs"]
        srcs = [os.path.join(VERIF, "harness", s) for s in self.chk["sources"]]
        libs = sorted(glob.glob(os.path.join(SRC, "c4", "*.cpp")))
        if not libs:
            die("no library sources under " + SRC)
        for c in cfgs:
            cfg = CONFIGS[c]
            d = os.path.join(self.bdir, c)
            os.makedirs(d)
            for s in srcs + libs:
                o = os.path.join(d, os.path.basename(s) + ".o")
                cmd = [cfg["cxx"]] + cfg["flags"] + self.chk.get("flags", []) + ["-I" + SRC, "-I" + os.path.join(VERIF, "harness"), "-DC4_NO_DEBUG_BREAK", "-w", "-c", s, "-o", o]
                jobs.append((0 if s in srcs else 1, c, cmd))
        jobs.sort(key=lambda j: j[0])
        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(lambda j: ((j[1], j[2]), sh(j[2], timeout=600)), jobs))
        # a tree that the project's own build accepts may still not compile in one of the other
        # configurations (language level, compiler): that breaks no property, so the others decide
        failed = {}
        for (c, cmd), (rc, out) in res:
            if rc != 0:
                failed.setdefault(c, (cmd, out))
        if "dbg" in failed or len(failed) == len(cfgs):
            cmd, out = failed.get("dbg") or list(failed.values())[0]
            print(out[-4000:])
            die("does not compile: " + " ".join(cmd))
        for c, (cmd, out) in sorted(failed.items()):
            print("configuration %s does not compile and is left out: %s" % (c, next((l for l in out.splitlines() if "error" in l), "")[:300]))
        self.skipped = sorted(failed)
        cfgs = self.cfgs = [c for c in cfgs if c not in failed]
        links = []
        for c in cfgs:
            cfg = CONFIGS[c]
            d = os.path.join(self.bdir, c)
            exe = os.path.join(d, "h")
            links.append([cfg["cxx"]] + cfg["flags"] + ["-o", exe] + sorted(glob.glob(d + "/*.o")) + ["-lpthread"])
        with ThreadPoolExecutor(NCPU) as ex:
            for cmd, (rc, out) in zip(links, ex.map(lambda c: sh(c, timeout=600), links)):
                if rc != 0:
                    print(out[-4000:])
                    die("does not link: " + " ".join(cmd))

    # ---------------------------------------------------------------- run
    def env(self, leaks=True):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=%d:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:strict_memcmp=1:max_allocation_size_mb=4096" % (1 if leaks else 0)
        e["LSAN_OPTIONS"] = "exitcode=97"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
        e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=96:second_deadlock_stack=1"
        e["MSAN_OPTIONS"] = "exitcode=95"
        e["GLIBCXX_TUNABLES"] = ""
        return e

    def cmd(self, cfgname, args):
        cfg = CONFIGS[cfgname]
        exe = os.path.join(self.bdir, cfgname, "h")
        return list(cfg.get("wrap", [])) + [exe] + args

    def shard(self, cfgname, k, n):
        """run one shard to its end, restarting after a known crash; returns list of (key, detail, case, out)"""
        cfg = CONFIGS[cfgname]
        prf = os.path.join(self.bdir, "%s.%d.prog" % (cfgname, k))
        sig = os.path.join(self.bdir, "%s.%d.sig" % (cfgname, k))
        scale = cfg.get("scale", 1.0) * self.chk.get("scale", 1.0) * self.chk.get("cfg_scale", {}).get(cfgname, 1.0)
        if self.tier == "quick" and "wrap" not in cfg:
            scale *= self.chk.get("quick_scale", 1.0)
        base = ["--seed", str(self.seed), "--scale", str(scale), "--shard", "%d/%d" % (k, n), "--progress", prf, "--sigs", sig]
        if self.tier == "thorough":
            base.append("--thorough")
        start = None
        res = dict(fails=[], summaries=[], cfg=cfgname, err=None, sig=sig)
        leaks = True
        tmo = 780 if self.tier == "quick" else 4 * 3600
        for attempt in range(30):
            args = base + (["--start", start] if start else [])
            if os.path.exists(prf):
                os.unlink(prf)
            rc, out = sh(self.cmd(cfgname, args), timeout=tmo, env=self.env(leaks))
            if "LeakSanitizer has encountered a fatal error" in out:
                leaks = False
                continue
            for m in re.finditer(r"^HXFAIL key=(\S+) case=(\S+) detail=(.*)$", out, re.M):
                res["fails"].append(dict(key=m.group(1), case=m.group(2), detail=m.group(3), out=m.group(0), cfg=cfgname))
            sm = re.search(r"^HXSUMMARY (\{.*\})$", out, re.M)
            if sm:
                res["summaries"].append(json.loads(sm.group(1)))
            if rc in (0, 3) and sm:
                return res
            # the process was ended
            scen, it, note = "?", 0, ""
            if os.path.exists(prf):
                raw = open(prf, "rb").read()
                if len(raw) >= 80:
                    scen = raw[:64].split(b"\0")[0].decode()
                    it = struct.unpack("<Q", raw[64:72])[0]
                    note = raw[80:].split(b"\0")[0].decode("utf-8", "replace")
            case = "%s:%d" % (scen, it)
            if sm and rc not in (0, 3):
                # ended after all the work: leak checker
                res["fails"].append(dict(key="%s" % classify(out, rc), case="(whole run)", detail=out[-1500:], out=out[-6000:], cfg=cfgname))
                return res
            if rc == "timeout" or rc == 4:
                # confirm alone before reporting
                rc2, out2 = sh(self.cmd(cfgname, ["--seed", str(self.seed), "--only", case, "--progress", prf] + (["--thorough"] if self.tier == "thorough" else [])), timeout=150, env=self.env(leaks))
                if rc2 == "timeout" or rc2 == 4:
                    f = dict(key=scen + "/hang", case=case, detail="does not terminate: " + note, out=out2[-3000:], cfg=cfgname)
                elif rc == "timeout":
                    res["err"] = "%s shard %d: time limit reached at %s (case alone ends with %s)" % (cfgname, k, case, rc2)
                    return res
                else:
                    res["err"] = "%s: hang at %s not reproduced" % (cfgname, case)
                    return res
            else:
                if rc in (-9, 137):
                    res["err"] = "%s shard %d killed (memory?) at %s" % (cfgname, k, case)
                    return res
                f = dict(key=scen + "/" + classify(out, rc), case=case, detail="%s; %s" % (note, first_report_line(out)), out=out[-6000:], cfg=cfgname)
            res["fails"].append(f)
            if not self.match_known(f):
                return res
            start = "%s:%d" % (scen, it + 1)
        res["err"] = "too many restarts"
        return res

    def match_known(self, f):
        for k in self.known:
            if re.fullmatch(k["key"], f["key"]) and re.search(k["match"], f["detail"]):
                return k
        return None

    def run(self):
        cfgs = self.cfgs
        work = []
        for c in cfgs:
            n = self.chk.get("shards", 2) if self.tier == "quick" else self.chk.get("shards_thorough", 8)
            if CONFIGS[c].get("noshard"):
                n = 1
            work += [(c, k, n) for k in range(n)]
        with ThreadPoolExecutor(NCPU) as ex:
            results = list(ex.map(lambda w: self.shard(*w), work))
        for r in results:
            for s in r["summaries"]:
                self.total["evaluations"] += s["evaluations"]
                self.rule = s["rule"] or self.rule
                for k, v in s["counters"].items():
                    self.total["counters"][k] = self.total["counters"].get(k, 0) + v
                for k, v in s["per_scenario"].items():
                    self.total["per_scenario"][k] = self.total["per_scenario"].get(k, 0) + v
                pc = self.total["per_config"]
                pc[r["cfg"]] = pc.get(r["cfg"], 0) + s["evaluations"]
                for x in s["samples"]:
                    if x not in self.total["samples"] and len(self.total["samples"]) < 60:
                        self.total["samples"].append(x)
            if os.path.exists(r["sig"]):
                b = open(r["sig"], "rb").read()
                self.sigs.update(struct.unpack("<%dQ" % (len(b) // 8), b[: len(b) // 8 * 8]))
            if r["err"]:
                self.inconclusive.append(r["err"])
            for f in r["fails"]:
                k = self.match_known(f)
                if k:
                    self.known_hit.setdefault(k["text"], f)
                else:
                    self.violations.setdefault(f["key"], f)

    def finish(self, t0):
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        for old in glob.glob(os.path.join(rdir, self.prop + "-*")):
            os.unlink(old)
        lines = []
        for i, (key, f) in enumerate(sorted(self.violations.items())):
            path = os.path.join(rdir, "%s-%d.txt" % (self.prop, i))
            with open(path, "w") as o:
                o.write("property: %s\nkey: %s\nconfig: %s\ncase: %s\nseed: %d\ndetail: %s\n" % (self.prop, key, f["cfg"], f["case"], self.seed, f["detail"]))
                o.write("replay: python3 %s/tools/run_check.py %s %s --replay %s %s\n\n" % (VERIF, self.prop, self.tier, f["cfg"], f["case"]))
                o.write(f["out"] + "\n")
            lines.append("VIOLATION property=%s replay=%s key=%s case=%s cfg=%s %s" % (self.prop, path, key, f["case"], f["cfg"], f["detail"][:300].replace("\n", " ")))
        cov = dict(evaluations=self.total["evaluations"], distinct_nontrivial=len(self.sigs), rule=self.rule,
                   samples=self.total["samples"], counters=self.total["counters"], per_scenario=self.total["per_scenario"],
                   per_config=self.total["per_config"], violation_keys=sorted(self.violations),
                   known_findings=sorted(self.known_hit), inconclusive=self.inconclusive, configurations_left_out=self.skipped)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.chk.get("level", "exploration"), coverage=cov,
                  assumptions=COMMON_ASSUMPTIONS + self.chk.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(self.violations))
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as o:
            json.dump(ev, o, indent=1)
        for t in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, t))
        print("%s %s: evaluations=%d distinct=%d wall=%.1fs configs=%s" % (self.prop, self.tier, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"], ",".join(self.cfgs)))
        if lines:
            for l in lines:
                print(l)
            sys.exit(1)
        if self.inconclusive:
            die("; ".join(self.inconclusive))
        # a run whose monitors saw nothing proves nothing
        low = [s for s in self.chk.get("expect", []) if self.total["counters"].get(s, 0) == 0]
        if cov["evaluations"] < self.chk.get("min_evals", 1000) or cov["distinct_nontrivial"] < self.chk.get("min_distinct", 2) or low:
            die("the monitors observed too little: evaluations=%d distinct=%d silent=%s" % (cov["evaluations"], cov["distinct_nontrivial"], low))
        sys.exit(0)

def first_report_line(out):
    for l in out.splitlines():
        if "ERROR:" in l or "runtime error" in l or "WARNING: ThreadSanitizer" in l or "C4ERROR" in l:
            return l[:300]
    frames = [l.strip() for l in out.splitlines() if re.match(r"\s+#\d+ ", l)]
    return (frames[0] if frames else out[-200:]).replace("\n", " ")

def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        die("usage: run_check.py <%s> [quick|thorough]" % "|".join(sorted(CHECKS)))
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
    t0 = time.time()
    r = Runner(sys.argv[1], tier)
    r.build()
    if "--replay" in sys.argv:
        i = sys.argv.index("--replay")
        rc, out = sh(r.cmd(sys.argv[i + 1], ["--seed", str(r.seed), "--only", sys.argv[i + 2]] + (["--thorough"] if tier == "thorough" else [])), env=r.env())
        print(out)
        sys.exit(0 if rc == 0 else 1)
    r.run()
    if os.environ.get("VERIF_KEEP") != "1":
        shutil.rmtree(r.bdir, ignore_errors=True)
    r.finish(t0)

main()
