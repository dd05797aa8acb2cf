#!/usr/bin/env python3
"""Development aid (not a check): mutation campaign over scratch copies of the repository.
mutate.py OUT.jsonl SEED PER_FILE [file-regex]
Each mutant that compiles to different code is judged by the quick checks of the properties anchored at its file."""
import json, os, re, random, subprocess, sys, glob, threading, queue, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = int(os.environ.get("MUT_WORKERS", "6")); ROOT = os.environ.get("MUT_ROOT", "/tmp/mut")
EXTRA = {"src/vg_image_annotator.cc": ["C25"], "tools/nx_sift_benchmark_main.c": ["C28"], "src/vg_image.cc": ["C10", "C11", "C12", "C13"]}
ORIG = {}; HDR = {"nx_mat234": ["C21"], "nx_vec": ["C21"], "nx_vec234": ["C21"], "vg_color": ["C11", "C25"], "vg_color_map": ["C11"], "vg_fundamental_matrix": ["C24"], "nx_assert": ["C27"], "nx_point_match_2d": ["C23"], "nx_timing": ["C19"], "nx_types": ["C12"]}
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
def mapping():
    m = {}
    for l in open(V + "/properties.jsonl"):
        p = json.loads(l); s = json.dumps(p["anchors"])
        for f in glob.glob("/repo/src/**/*.c*", recursive=True) + glob.glob("/repo/tools/*.c*"):
            r = os.path.relpath(f, "/repo")
            if r in s: m.setdefault(r, []).append(p["id"])
    m.update(EXTRA)
    for f in glob.glob("/repo/include/virg/nexus/**/*.h*", recursive=True):
        r = os.path.relpath(f, "/repo"); b = os.path.splitext(os.path.basename(f))[0]
        q = [v for k, v in m.items() if os.path.splitext(os.path.basename(k))[0] == b]
        q = q[0] if q else HDR.get(b)
        if q and not r.endswith(".in"): m[r] = q
    return m
def sites(text):
    out = []; incom = False; off = 0
    for ln in text.split("\n"):
        s = ln.strip(); o = off; off += len(ln) + 1
        if incom:
            if "*/" in s: incom = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: incom = True
            continue
        if not s or s.startswith(("#", "//", "*", "NX_ASSERT", "NX_INFO", "NX_LOG", "NX_WARNING", "static const char", "}")) and not s.startswith("} else if"): continue
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + " " * (len(m.group(0)) - 2) + '"', ln)
        code = re.sub(r"'(\\.|[^'\\])+'", lambda m: "'" + "\0" * (len(m.group(0)) - 2) + "'", code)
        code = code.split("//")[0]
        def add(a, b, new): out.append((o + a, o + b, new))
        for m in re.finditer(r"<=|>=|==|!=|(?<![<\-])(?<!#include )[<>](?![<>=])", code):
            t = m.group(0)
            if t in "<>" and (not code[m.start()-1:m.start()].isspace()): continue
            for n in {"<": ["<=", ">"], "<=": ["<"], ">": [">=", "<"], ">=": [">"], "==": ["!="], "!=": ["=="]}[t]: add(m.start(), m.end(), n)
        for m in re.finditer(r"(?<=[\w\)\]] )[+\-*/](?= [\w\(])|(?<=[\w\)\]])[+\-*/](?=[\w\(])", code):
            t = m.group(0)
            if code[m.start()-1:m.start()+2] in ("->",) or code[m.end():m.end()+1] == ">": continue
            add(m.start(), m.end(), {"+": "-", "-": "+", "*": "/", "/": "*"}[t])
        for m in re.finditer(r"\+=|-=|\*=", code): add(m.start(), m.end(), {"+=": "-=", "-=": "+=", "*=": "="}[m.group(0)])
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code): add(m.start(1), m.end(1), str(int(m.group(1)) + 1))
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
            if int(m.group(1)) > 0: add(m.start(1), m.end(1), str(int(m.group(1)) - 1))
        for m in re.finditer(r"(?<![\w.])(\d+\.\d+)(f?)(?![\w.])", code): add(m.start(1), m.end(1), repr(float(m.group(1)) * 1.25 + (0.25 if float(m.group(1)) == 0 else 0)))
        for m in re.finditer(r"&&|\|\|", code): add(m.start(), m.end(), "||" if m.group(0) == "&&" else "&&")
        for m in re.finditer(r"NX_TRUE|NX_FALSE|NX_MIN|NX_MAX|\bfloorf?\b|\bceilf?\b|\bcontinue\b|\bbreak\b", code):
            t = m.group(0); n = {"NX_TRUE": "NX_FALSE", "NX_FALSE": "NX_TRUE", "NX_MIN": "NX_MAX", "NX_MAX": "NX_MIN", "floor": "ceil", "floorf": "ceilf", "ceil": "floor", "ceilf": "floorf", "continue": "break", "break": "continue"}[t]; add(m.start(), m.end(), n)
        m = re.match(r"^(\s*(?:\} else )?if \()(.*)(\)\s*\{?\s*)$", code)
        if m and m.group(2).count("(") == m.group(2).count(")"):
            g = ln[m.end(1):m.start(3)]; add(m.end(1), m.start(3), "!(%s)" % g); add(m.end(1), m.start(3), "0"); add(m.end(1), m.start(3), "1")
        if re.match(r"^\s+[\w\.\->\[\]\*\+\(\) ]+(\+|-|\*)?=[^=].*;$", code) and not re.match(r"^\s+(const |static |struct |enum |unsigned |int |float |double |char |uchar |size_t |NX\w+ |VG\w+ |auto |for|uint\w+ |long |FILE )", code): add(len(ln) - len(ln.lstrip()), len(ln), ";")
        if re.match(r"^\s+[a-zA-Z_]\w*\(.*\);$", code): add(len(ln) - len(ln.lstrip()), len(ln), ";")
        if re.match(r"^\s+(\+\+|--)\w[^;]*;$|^\s+\w[^;=]*(\+\+|--);$", code): add(len(ln) - len(ln.lstrip()), len(ln), ";")
    return out
def main():
    out, seed, per = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); rx = re.compile(sys.argv[4] if len(sys.argv) > 4 else "."); only = sys.argv[5].split(",") if len(sys.argv) > 5 else None
    mp = mapping(); jobs = []
    for f in sorted(mp):
        if not rx.search(f) or f.endswith("fast_9.c"): continue
        t = ORIG[f] = sh("git -C /repo show HEAD:" + f).stdout; s = sites(t); r = random.Random("%d%s" % (seed, f)); r.shuffle(s); k = per if per > 0 else max(5, t.count("\n") // -per)
        jobs += [(f, x) for x in s[:k]]
    done = {(r["file"], tuple(r["site"])) for r in map(json.loads, open(out))} if os.path.exists(out) else set(); jobs = [j for j in jobs if (j[0], tuple(j[1])) not in done]
    random.Random(seed).shuffle(jobs); q = queue.Queue(); [q.put(j) for j in jobs]; lock = threading.Lock(); print(len(jobs), "candidates", flush=True); st = {}
    def worker(i):
        d = "%s/w%d" % (ROOT, i); R = d + "/repo"; Vw = d + "/verif"
        sh("rm -rf %s/repo; mkdir -p %s; cp -a /repo %s/repo; git -C %s/repo checkout -q -- .; mkdir -p %s; cd %s && git ls-files | grep -v ^seeded | tar cf - -T - | tar xf - -C %s" % (d, d, d, d, Vw, V, Vw))
        env = dict(os.environ, VERIF_REPO=R, VERIF_JOBS=os.environ.get("MUT_JOBS", "2"), VERIF_TIER="quick", VERIF_SEED="1")
        while True:
            try: f, (a, b, new) = q.get_nowait()
            except queue.Empty: return
            p = R + "/" + f; o = ORIG[f]; t = o[:a] + new + o[b:]; ln = o.count("\n", 0, a) + 1
            comp = ("g++ -std=c++11" if f.endswith(".cc") else "gcc -std=gnu11") + " -O2 -DNDEBUG -DJSMN_PARENT_LINKS=1 -mavx2 -w -I%s/include -I%s/src -I%s/tools $(pkg-config --cflags cairo) -S -o - " % (R, R, R)
            cf = R + "/src/nx_keypoint_vector.c" if f.endswith("nx_vector_gen.c") else p
            try:
                if f.startswith("include/"): cf = "-fkeep-inline-functions -fkeep-static-functions -x %s " % ("c++" if f.endswith("hpp") else "c") + p
                if (f not in st): st[f] = sh(comp + cf).stdout
                open(p, "w").write(t); z = sh(comp + cf)
                if z.returncode or z.stdout == st[f] and not "#define" in o[max(0, o.rfind("\n\n", 0, a)):b]: continue
                res = {}; t0 = time.time(); killed = False; first = ""
                for c in (only or mp[f]):
                    try: r = sh("timeout 500 python3 check.py %s" % c, cwd=Vw, env=env); rc = r.returncode; tx = r.stdout + r.stderr
                    except Exception as e: rc = -99; tx = repr(e)
                    res[c] = rc
                    if rc == 1: killed = True; first = [l for l in tx.split("\n") if "group=" in l][:1]; break
                    if rc != 0: first = tx[-300:]
                rec = dict(file=f, line=ln, old=o.split("\n")[ln-1].strip(), new=t.split("\n")[ln-1].strip(), res=res, killed=killed, first=first, t=round(time.time() - t0, 1), site=[a, b, new])
                with lock: open(out, "a").write(json.dumps(rec) + "\n")
            finally: open(p, "w").write(o)
    ts = [threading.Thread(target=worker, args=(i,)) for i in range(W)]; [x.start() for x in ts]; [x.join() for x in ts]
    R = [json.loads(l) for l in open(out)]; print("mutants", len(R), "killed", sum(r["killed"] for r in R))
main()
