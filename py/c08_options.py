"""C08: the Python option classes under generated declarations, command lines and YAML files.
usage: c08_options.py REPO SEED TIER OUT.json [case]"""
import sys, os, json, random, time, math, hashlib, io, contextlib, tempfile, traceback, subprocess
repo, seed, tier, out = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4]
only = int(sys.argv[5]) if len(sys.argv) > 5 else None
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(repo, "pyvirg"))
from virg.nexus.options import OptionItem, OptionGroup, Options
events = {}
def ev(k, n=1): events[k] = events.get(k, 0) + n
class Bad(Exception): pass
def req(c, m):
    if not c: raise Bad(m)
def same(a, b):
    if type(a) is not type(b): return False
    if isinstance(a, float): return (math.isnan(a) and math.isnan(b)) or (a == b and math.copysign(1, a) == math.copysign(1, b))
    return a == b
WORDS = ["", "a", "yes", "no", "true", "null", "~", "1", "1.5", "1e5", "0x10", "010", "1_000", "a: b", "a #b", "#x", "- x", "[1", "{a", "'q'", '"q"', "x\ny", " lead", "trail ", "\t", "é", "日本", "12:30:45", "2020-01-01", "!!int 5", "&a", "*a", "%x", "@x", "`x", "?", "|", ">", "a\\b", "C:\\n", ".inf", "=", "<<", "\n", "x\n\ny\n", "0o7", "-", "--x", "\u2028", "\x85", "\x07", "\U0001f600"]
def rstr(r):
    if r.random() < .6: return r.choice(WORDS)
    return "".join(r.choice("abc XYZ019:#-'\"\n\\{}[],&*!|>%@`~.é\t") for _ in range(r.randint(0, 90 if r.random() < .1 else 14)))
def rflt(r):
    k = r.randint(0, 7)
    return [0.0, -0.0, 1e-7, 1e300, 3.0, r.gauss(0, 1), r.gauss(0, 1) * 10.0 ** r.randint(-300, 300), float(r.randint(-10**6, 10**6))][k] if r.random() > .05 else r.choice([math.inf, -math.inf, math.nan])
def rint(r): return r.choice([0, 1, -1, 42, r.randint(-10**9, 10**9), r.randint(-10**20, 10**20)])
def rval(r, t): return {str: rstr, int: rint, float: rflt, bool: lambda r: r.random() < .5}[t](r)
def names(r, n):
    used_s, used_l, res = {"h"}, {"help", "from-yaml"}, []
    while len(res) < n:
        s = r.choice("abcdefgijklmnopqrstuvwxyzABCDXYN") if r.random() < .7 else None
        l = "".join(r.choice("abcdefghij-_xyn") for _ in range(r.randint(2, 10))).strip("-") if r.random() < .7 or s is None else None
        if r.random() < .1: l = r.choice(["yes", "no", "on", "off", "null", "true", "y", "n"])
        if not s and not l: continue
        k = (l or s).replace("-", "_")
        if (s and s in used_s) or (l is not None and (l in used_l or len(l) < 1)) or any(k == q[2] for q in res): continue
        if s: used_s.add(s)
        if l: used_l.add(l)
        res.append((s, l, k))
    return res
def build(decl, r):
    gs, i = [], 0; items = []
    for s, l, k, t, d in decl:
        kw = {}
        items.append(OptionItem(s, l, t, d, "help"))
    cuts = sorted(r.randint(0, len(items)) for _ in range(r.randint(0, 2))); parts = []
    prev = 0
    for c in cuts + [len(items)]: parts.append(items[prev:c]); prev = c
    return items, Options([OptionGroup("group %d" % j, p) for j, p in enumerate(parts)])
def default(t, d): return bool(d) if t is bool else d
def args(r, decl):
    av, exp = [], {}
    for s, l, k, t, d in decl: exp[k] = default(t, d)
    given = set()
    for _ in range(r.randint(0, 2 * len(decl)) if decl else 0):
        s, l, k, t, d = r.choice(decl); given.add(k)
        if t is bool: av.append("-" + s if s and (not l or r.random() < .5) else "--" + l); exp[k] = True; continue
        v = rval(r, t)
        if t is float and math.isnan(v): v = 1.25
        txt = repr(v) if t is not str else v
        exp[k] = v
        if l and (r.random() < .5 or not s): av.append("--%s=%s" % (l, txt))
        elif txt.startswith("-") or txt == "": av.append("-%s%s" % (s, txt)) if txt else av.extend(["-" + s, ""])
        else: av += ["-" + s, txt]
    return av, exp
def check(opt, items, exp, what):
    dd = opt.to_dict()
    req(set(dd) == set(exp), "%s: keys %s" % (what, sorted(dd)))
    for it in items:
        req(it.key_name in exp, "key name %r" % it.key_name)
        req(same(it.value, exp[it.key_name]), "%s: %s is %r, expected %r" % (what, it.key_name, it.value, exp[it.key_name]))
        req(same(dd[it.key_name], exp[it.key_name]), "%s: to_dict %s" % (what, it.key_name)); ev("value_checked")
tmp = tempfile.mkdtemp(prefix="c08")
def case(cid):
    r = random.Random(seed * 1000003 + cid)
    decl = [(s, l, k, t, None if r.random() < .2 else rval(r, t)) for (s, l, k) in names(r, r.choice([0, 1, 2, 3, 5, 8])) for t in [r.choice([str, int, float, bool])]]
    items, opt = build(decl, r); items2, other = build(decl, r)
    for it, (s, l, k, t, d) in zip(items, decl): req(it.key_name == k, "key name %r" % it.key_name); req(same(it.value, d), "declared default")
    if r.random() < .1 and decl:
        bad = r.choice([["--definitely-unknown"], ["stray"]] + [["--%s=x1y" % l] for s, l, k, t, d in decl if t in (int, float) and l])
        try:
            with contextlib.redirect_stderr(io.StringIO()): opt.parse_args(bad)
        except SystemExit as e: req(e.code not in (0, None), "error exit status %r" % e.code); ev("rejected_command_line"); return repr(bad)
        raise Bad("invalid command line %r accepted" % bad)
    av, exp = args(r, decl)
    txt = repr([(s, l, t.__name__, d) for s, l, k, t, d in decl]) + " " + repr(av)
    case.text = txt
    res = opt.parse_args(list(av)); ev("command_line")
    for k in exp: req(k in res and same(res[k], exp[k]), "parse result %s is %r, expected %r" % (k, res.get(k), exp[k]))
    check(opt, items, exp, "parse")
    check(other, items2, {k: d for s, l, k, t, d in decl}, "unrelated option set")
    fn = os.path.join(tmp, "o.yaml"); opt.save_yaml(fn)
    check(opt, items, exp, "after save")
    # values currently in the other set must not survive the load
    av2, exp2 = args(r, decl); other.parse_args(list(av2)); check(other, items2, exp2, "second set"); check(opt, items, exp, "first set after second parse")
    other.load_yaml(fn); check(other, items2, exp, "yaml reload"); ev("yaml_reload")
    items3, third = build(decl, r); third.parse_args(av2 + ["--from-yaml", fn]); check(third, items3, exp, "--from-yaml"); ev("from_yaml_option")
    fn2 = os.path.join(tmp, "p.yaml"); third.save_yaml(fn2)
    part = {k: v for k, v in exp.items() if r.random() < .5}; items4, fourth = build(decl, r); fourth.from_dict(dict(part)); check(fourth, items4, {k: part.get(k, d) for s, l, k, t, d in decl}, "partial dictionary"); ev("partial_dict")
    # a later load starts from the defaults again, whatever the set held
    for _ in range(r.randint(0, 3)):
        part = {k: v for k, v in exp2.items() if r.random() < .5}; extra = {"no_such_option": 1} if r.random() < .3 else {}
        if r.random() < .5: fourth.from_dict(dict(part, **extra))
        else:
            fp = os.path.join(tmp, "q.yaml")
            with open(fp, "w") as f: f.write(__import__("yaml").dump(dict(part, **extra)) if part or extra else r.choice(["", "# nothing\n", "{}\n"]))
            if r.random() < .5: fourth.load_yaml(fp)
            else: fourth.parse_args(av + ["--from-yaml=" + fp])
        want = {k: part.get(k, d) for s, l, k, t, d in decl}; check(fourth, items4, want, "partial values over old ones"); ev("partial_reload")
    again, expa = args(r, decl); fourth.parse_args(list(again)); check(fourth, items4, expa, "parse again")
    from argparse import ArgumentParser
    if r.random() < .3:
        ps = ArgumentParser(); ps.add_argument("--zz-host-argument", type=int, default=3); res = third.parse_args(again + ["--zz-host-argument", "7"], ps); req(res["zz_host_argument"] == 7, "argument of the caller's parser"); check(third, items3, expa, "caller's parser")
    req(sum(len(g) for g in opt.options) == len(items) and [g[j] for g in opt.options for j in range(len(g))] == items, "groups list their items")
    a, b = Options(), Options(); ga, gb = OptionGroup("t"), OptionGroup("t")
    req(len(ga) == 0 and len(gb) == 0 and len(a.options) == 0, "a new option set is not empty")
    ga.items.append(OptionItem("q")); a.options.append(ga); req(len(gb) == 0 and len(b.options) == 0 and len(OptionGroup("u")) == 0 and len(Options().options) == 0, "option sets share state"); ga.items.clear(); a.options.clear(); ev("independence")
    return txt
n = 8000 if tier == "quick" else 80000
t0 = time.time(); fails = []; sigs = set(); samples = []; evals = 0
for cid in ([only] if only is not None else range(n)):
    case.text = ""
    try:
        s = case(cid); evals += 1; sigs.add(hashlib.sha256(s.encode("utf8", "surrogatepass")).hexdigest()[:16])
        if len(samples) < 12 and cid % 97 == 0: samples.append(s[:300])
    except Bad as e: fails.append(dict(group="python", case=cid, msg=str(e), text=case.text[:1000], err=""))
    except (Exception, SystemExit) as e: fails.append(dict(group="python", case=cid, msg="exception %r" % e, text=case.text[:1000], err=traceback.format_exc()[-2000:]))
    if len(fails) >= 5: break
import shutil; shutil.rmtree(tmp, ignore_errors=True)
json.dump(dict(evaluations=evals, distinct_nontrivial=len(sigs), events=events, samples=samples, failures=fails, wall_s=time.time() - t0), open(out, "w"))
if only is not None: print(fails)
