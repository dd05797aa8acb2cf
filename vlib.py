"""Build + run + report machinery shared by every check.  Builds everything it
needs from /repo's current working tree into /verif/build (git-ignored)."""
import hashlib, json, os, re, subprocess, sys, time, concurrent.futures as cf, shutil, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

COMMON = ["-DNDEBUG", "-DJSMN_PARENT_LINKS=1", "-mavx2", "-g", "-fno-omit-frame-pointer", "-w"]
VARIANTS = {
    # what decides memory safety / undefined behaviour; uninitialised stack memory is patterned
    "san": {"cc": "clang", "cxx": "clang++",
            "flags": ["-O1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
                      "-fno-sanitize=vptr,function", "-ftrivial-auto-var-init=pattern", "-fsanitize-address-use-after-scope"],
            "link": ["-fsanitize=address,undefined,float-cast-overflow", "-rdynamic"]},
    # the flags the project ships with
    "opt": {"cc": "gcc", "cxx": "g++", "flags": ["-O3"], "link": ["-rdynamic"]},
    "vg": {"cc": "gcc", "cxx": "g++", "flags": ["-O1", "-mno-avx512f"], "link": ["-rdynamic"]},
}
_pk = None
def pkg():
    global _pk
    if _pk is None:
        c = subprocess.run(["pkg-config", "--cflags", "cairo"], capture_output=True, text=True).stdout.split()
        l = subprocess.run(["pkg-config", "--libs", "cairo"], capture_output=True, text=True).stdout.split()
        _pk = (c, l)
    return _pk

def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, errors="replace", **kw)

def lib_sources():
    out = []
    for pat in ("src/*.c", "src/*.cc", "src/fast/*.c", "src/GL/*.c", "src/SFMT/SFMT.c"):
        out += sorted(glob.glob(os.path.join(REPO, pat)))
    # nx_vector_gen.c is a template included by others
    return [s for s in out if os.path.basename(s) not in ("nx_vector_gen.c",)]

def ensure_config(incdir):
    """A private copy of the generated configuration header (the in-tree one is a build product)."""
    d = os.path.join(incdir, "virg", "nexus"); os.makedirs(d, exist_ok=True)
    src = open(os.path.join(REPO, "include/virg/nexus/nx_config.h.in")).read()
    vals = {"NX_HAVE_SIMD": "1", "NX_SIMD_AVX2": "1", "NX_SIMD_ALIGNMENT": "64"}
    cm = open(os.path.join(REPO, "CMakeLists.txt"), errors="replace").read()
    def cmake01(m): 
        n = m.group(1); return "#define %s %s" % (n, vals.get(n, "0"))
    src = re.sub(r"#cmakedefine01\s+(\w+)", cmake01, src)
    def at(m):
        n = m.group(1)
        if n in vals: return vals[n]
        mm = re.search(r"set\s*\(\s*%s\s+\"?([^\s\")]+)" % re.escape(n), cm, re.I)
        return mm.group(1) if mm else "0"
    src = re.sub(r"@(\w+)@", at, src)
    src = re.sub(r"\$\{(\w+)\}", at, src)
    p = os.path.join(d, "nx_config.h")
    if not os.path.exists(p) or open(p).read() != src:
        open(p, "w").write(src)
    return incdir

_tree_hash = None
def headers_hash():
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha256()
        for root in ("include", "src", "ext", "tools"):
            for dp, dn, fn in sorted(os.walk(os.path.join(REPO, root))):
                dn.sort()
                for f in sorted(fn):
                    if f.endswith((".h", ".hpp", ".hh", ".in", "nx_vector_gen.c")) and f != "nx_config.h":
                        h.update(f.encode()); h.update(open(os.path.join(dp, f), "rb").read())
        h.update(open(os.path.join(REPO, "CMakeLists.txt"), "rb").read())
        _tree_hash = h.hexdigest()
    return _tree_hash

class BuildError(Exception): pass

def compile_obj(src, variant, extra=(), incs=(), cache_extra=b""):
    v = VARIANTS[variant]
    cxx = src.endswith((".cc", ".cpp", ".cxx"))
    comp = v["cxx"] if cxx else v["cc"]
    std = "-std=c++17" if src.startswith(VERIF) else ("-std=c++11" if cxx else "-std=gnu11")
    inc = os.path.join(BUILD, "inc")
    vflags = list(v["flags"])
    if os.path.getsize(src) > 120000:   # the generated decision tree: optimising it takes minutes under sanitizers
        vflags = ["-O0" if variant == "san" and f == "-O1" else "-O1" if f == "-O3" else f for f in vflags]
    flags = [std] + vflags + COMMON + list(extra) + ["-I" + inc] + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")] + ["-I" + i for i in incs] + pkg()[0]
    h = hashlib.sha256(); h.update(headers_hash().encode()); h.update(" ".join([comp] + flags).encode()); h.update(open(src, "rb").read()); h.update(cache_extra)
    if src.startswith(VERIF):
        for f in sorted(glob.glob(os.path.join(VERIF, "harness", "*.hpp"))): h.update(open(f, "rb").read())
    odir = os.path.join(BUILD, "obj", variant); os.makedirs(odir, exist_ok=True)
    o = os.path.join(odir, os.path.basename(src) + "." + h.hexdigest()[:20] + ".o")
    if not os.path.exists(o):
        tmp = o + ".%d.tmp" % os.getpid()
        r = sh([comp] + flags + ["-c", src, "-o", tmp])
        if r.returncode != 0:
            raise BuildError("compile failed: %s\n%s" % (src, r.stderr[-4000:]))
        os.rename(tmp, o)
    return o

LIBS = ["-llapack", "-lcblas", "-lpng", "-ljpeg", "-lz", "-lm", "-lpthread", "-ldl"]

def build(name, harness_srcs, variant, extra_flags=(), extra_libs=(), with_lib=True, extra_srcs=()):
    os.makedirs(BUILD, exist_ok=True)
    ensure_config(os.path.join(BUILD, "inc"))
    srcs = [(s, ()) for s in (lib_sources() if with_lib else [])]
    hs = [(os.path.join(VERIF, "harness", s), tuple(extra_flags)) for s in harness_srcs]
    xs = [(s, tuple(f)) for s, f in extra_srcs]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda a: compile_obj(a[0], variant, a[1], incs=[os.path.join(VERIF, "harness")]), hs + xs + srcs))
    v = VARIANTS[variant]
    h = hashlib.sha256("\n".join(objs + list(extra_libs) + v["link"]).encode()).hexdigest()[:16]
    bdir = os.path.join(BUILD, "bin"); os.makedirs(bdir, exist_ok=True)
    exe = os.path.join(bdir, "%s.%s.%s" % (name, variant, h))
    if not os.path.exists(exe):
        for old in glob.glob(os.path.join(bdir, "%s.%s.*" % (name, variant))): os.remove(old)
        tmp = exe + ".%d.tmp" % os.getpid()
        r = sh([v["cxx"]] + v["link"] + ["-o", tmp] + objs + list(extra_libs) + pkg()[1] + LIBS + gl_libs())
        if r.returncode != 0:
            raise BuildError("link failed: %s\n%s" % (name, r.stderr[-4000:]))
        os.rename(tmp, exe)
    return exe

TOOLS = {"harris": ["nx_harris_detector_main.c"], "sift": ["nx_sift_detector_main.c"], "bench": ["nx_sift_benchmark_main.c"],
         "stitch": ["nx_stitch_main.c", "nx_panorama_builder.c"], "fit": ["nx_fit_homography_main.c"], "stereo": ["vg_stereo_matcher_main.cc"]}
def build_tools(variant):
    """Directory holding the project's command-line tools, built from the working tree."""
    exes = {t: build("tool_" + t, ["tool_shim.cpp"], variant, extra_srcs=[(os.path.join(REPO, "tools", s), ("-I" + os.path.join(REPO, "tools"),)) for s in ss], extra_libs=["-Wl,--wrap=fopen"]) for t, ss in TOOLS.items()}
    h = hashlib.sha256(repr(sorted(exes.items())).encode()).hexdigest()[:12]
    d = os.path.join(BUILD, "bin", "tools.%s" % variant); os.makedirs(d, exist_ok=True)
    for t, e in exes.items():
        l = os.path.join(d, t)
        if os.path.lexists(l): os.remove(l)
        os.symlink(e, l)
    return d

def gl_libs():
    return ["-lGL"]

def prune_cache(limit_mb=1500):
    fs = [(os.path.getmtime(f), os.path.getsize(f), f) for f in glob.glob(os.path.join(BUILD, "obj", "*", "*.o"))]
    tot = sum(s for _, s, _ in fs)
    for m, s, f in sorted(fs):
        if tot <= limit_mb * 1e6: break
        try: os.remove(f); tot -= s
        except OSError: pass

# ---------------------------------------------------------------- known findings
def known_findings(prop):
    """Lines 'known: property=<id> match=<regex> :: <what fails>' of KNOWN_FINDINGS.txt."""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=(.+?) :: (.*)$", l.strip())
            if m and m.group(1) == prop: out.append((re.compile(m.group(2)), m.group(3)))
    return out

# how much of each group's base case count a quick run takes (sized to some 20-30 s of running on 8 cores)
SCALE = {"C01": 20, "C02": 20, "C03": 4, "C04": 8, "C05": 2.5, "C06": 6, "C07": 8, "C09": 15, "C10": 16, "C11": 16, "C12": 12, "C13": 8, "C14": 4, "C15": 2, "C16": 4, "C17": 5, "C18": 4, "C19": 10, "C20": 15, "C21": 20, "C22": 30, "C23": 12, "C24": 2, "C25": 5, "C26": 2, "C27": 4, "C29": 8}
class Report:
    def __init__(self, prop, level="exploration"):
        self.prop = prop; self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        try: self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError: self.seed = 1
        self.t0 = time.time()
        self.evals = 0; self.distinct = 0; self.samples = []; self.events = {}; self.fails = []; self.parts = []; self.known = []
        self.assumptions = []; self.rule = ""
    def add_failure(self, group, case, msg, text="", err="", repro=""):
        sigtext = "%s|%s|%s|%s" % (group, msg, text, err)
        for rx, what in known_findings(self.prop):
            if rx.search(sigtext):
                self.known.append(what); return
        self.fails.append(dict(group=group, case=case, msg=msg, text=text, err=err, repro=repro))
    def run_harness(self, exe, variant, args=(), timeout=800, env=None, prefix=()):
        rd = os.path.join(BUILD, "run"); os.makedirs(rd, exist_ok=True)
        out = os.path.join(rd, "%s.%s.%d.json" % (self.prop, variant, os.getpid()))
        cmd = list(prefix) + [exe, "--seed", str(self.seed), "--tier", self.tier, "--jobs", str(JOBS), "--out", out, "--scale", str(SCALE.get(self.prop, 1)), "--budget", "360"] + (["--keep-going"] if known_findings(self.prop) else []) + list(args)
        e = dict(os.environ); e.update(env or {})
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            print("ERROR: harness exceeded its time budget", file=sys.stderr); sys.exit(3)
        if not os.path.exists(out):
            print("ERROR: harness gave no result (rc=%s)\n%s" % (r.returncode, r.stderr.decode(errors="replace")[-3000:]), file=sys.stderr); sys.exit(3)
        d = json.load(open(out)); os.remove(out)
        self.absorb(d, variant)
        base = "VERIF_SEED=%d %s%s --seed %d --tier %s %s --replay " % (self.seed, "".join("%s=%s " % kv for kv in (env or {}).items()), exe, self.seed, self.tier, " ".join(args))
        for f in d["failures"]:
            self.add_failure(f["group"], f["case"], f["msg"], f["text"], f["err"], base + "%s:%d" % (f["group"], f["case"]))
    def run_py(self, script, args=(), timeout=800):
        rd = os.path.join(BUILD, "run"); os.makedirs(rd, exist_ok=True)
        out = os.path.join(rd, "%s.py.%d.json" % (self.prop, os.getpid()))
        cmd = [sys.executable, os.path.join(VERIF, "py", script), REPO, str(self.seed), self.tier, out] + list(args)
        try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            print("ERROR: monitor exceeded its time budget", file=sys.stderr); sys.exit(3)
        if not os.path.exists(out):
            # the module under test could not even be imported or crashed the interpreter
            self.add_failure("python", 0, "the monitored module failed: " + r.stderr.decode(errors="replace")[-300:], "", r.stderr.decode(errors="replace")[-3000:], " ".join(cmd)); return
        d = json.load(open(out)); os.remove(out); self.absorb(d, "python")
        for f in d["failures"]: self.add_failure(f["group"], f["case"], f["msg"], f["text"], f["err"], " ".join(cmd + [str(f["case"])]))
    def absorb(self, d, variant):
        self.evals += d["evaluations"]; self.distinct = max(self.distinct, d["distinct_nontrivial"])
        for k, n in d["events"].items(): self.events[k] = self.events.get(k, 0) + n
        if len(self.samples) < 12: self.samples += d["samples"][:12 - len(self.samples)]
        self.parts.append({"variant": variant, "evaluations": d["evaluations"], "distinct_nontrivial": d["distinct_nontrivial"], "wall_s": d["wall_s"], "events": d["events"]})
    def finish(self):
        cov = {"evaluations": self.evals, "distinct_nontrivial": self.distinct, "rule": self.rule,
               "samples": self.samples[:12], "monitor_events": self.events, "parts": self.parts}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.fails)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for what in sorted(set(self.known)): print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        prune_cache()
        if self.fails:
            rd = os.path.join(BUILD, "replay"); os.makedirs(rd, exist_ok=True)
            seen = set()
            for i, f in enumerate(self.fails[:4]):
                p = os.path.join(rd, "%s-%d.txt" % (self.prop, i))
                with open(p, "w") as o:
                    o.write("property %s violated in workload group %s case %s\n%s\n\ncase: %s\n\nreplay: %s\n\n%s\n" % (self.prop, f["group"], f["case"], f["msg"], f["text"], f["repro"], f["err"]))
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
                print("  group=%s case=%s: %s" % (f["group"], f["case"], f["msg"][:500]))
                if f["text"]: print("  input: %s" % f["text"][:300])
            sys.stdout.flush(); return 1
        print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" % (self.prop, self.evals, self.distinct, time.time() - self.t0))
        return 0
