#!/usr/bin/env python3
"""Driver: builds /repo's current sources with one harness and explores its bounded space exhaustively.

usage: check.py PROPERTY [--thorough] [--replay FILE] | check.py --build-all | check.py --list
Exit 0: the property held on everything explored.  Exit 1 + VIOLATION line: it is broken.
"""
import concurrent.futures, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
CACHE = os.path.join(HERE, "build")
HARN = os.path.join(HERE, "harness")
WORK = int(os.environ.get("VERIF_WORKERS", "0")) or len(os.sched_getaffinity(0))

COMMON = ["-std=gnu++17", "-fpermissive", "-w", "-ffp-contract=off", "-g1", "-fno-omit-frame-pointer",
          "-I" + os.path.join(SRC, "include"), "-I" + os.path.join(SRC, "parser"), "-I" + os.path.join(SRC, "robust_semantics"), "-I" + HARN]
VARIANTS = { # the sanitizer variants keep assertions, as debug builds do; plain fills fresh stack memory with a pattern (and see ENV)
    "plain": (["-O1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"], []),
    "asan": (["-O1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"], ["-fsanitize=address,undefined"]),
    "asan0": (["-O0", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address"], ["-fsanitize=address"]),
    # instrumented memory accesses of the library call into harness/sched.cc instead of the TSan runtime
    "sched": (["-O1", "-DNDEBUG", "-include", os.path.join(HARN, "instantiate.hpp")], ["-ldl", "-rdynamic"] + ["-Wl,--wrap=" + f for f in (
        "memcpy memmove memset memcmp _ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base "
        "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_ "
        "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_").split()]),
}
SCHED_LIB = ["-fsanitize=thread"]  # compile-time only: the library and the thread bodies

# property -> list of (harness, variant, needs parser)
P = {}
for p in ("C01 C02 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C19 C20 C26 C31").split():
    P[p] = [(p.lower(), "plain", False)]
P["C03"] = [("c03", "plain", False), ("c03", "asan", False)]
P["C02"].append(("c02", "asan", False))
P["C06"].append(("c06", "asan", False))
P["C16"] = [("c16", "plain", False), ("c16", "asan", False)]
P["C17"] = [("c17", "plain", True), ("c17", "asan", False)]
P["C18"] = [("c18", "sched", True)]
for p in ("C21", "C23", "C24", "C25", "C28"):
    P[p] = [(p.lower(), "plain", True)]
P["C29"] = [("c29", "plain", True), ("c29", "asan0", True)]
P["C30"] = [("c30", "plain", True), ("c30", "asan0", True)]
P["C22"] = [("c22", "plain", True), ("c22", "asan0", True)]
P["C27"] = [("c27", "plain", False), ("c27", "asan0", False)]
# the Python module's sources, compiled against the stand-in for pybind11 and loaded into CPython
BIND = os.path.join(REPO, "python_bindings")
PYFLAGS = ["-I" + os.path.join(HARN, "pystub"), "-I/usr/include/python3.12", "-I" + BIND]


def read(f):
    with open(f, "rb") as h:
        return h.read()


def headers_hash():
    h = hashlib.sha256()
    for pat in (SRC + "/**/*.hpp", SRC + "/**/*.h", SRC + "/**/*.inl", SRC + "/**/*.ipp", HARN + "/*.hpp", HARN + "/pystub/**/*.h", BIND + "/*.hpp", BIND + "/*.h"):
        for f in sorted(glob.glob(pat, recursive=True)):
            h.update(f.encode() + b"\0" + read(f))
    return h.hexdigest()


def compile_one(job):
    src, flags, out = job
    if os.path.exists(out):
        return None
    tmp = out + ".%d.tmp.o" % os.getpid()
    r = subprocess.run(["g++", *COMMON, *flags, "-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return "%s:\n%s" % (src, r.stdout[-6000:])
    os.replace(tmp, out)
    return None


class ModuleBroken(Exception):
    """the sources of the Python module do not compile, while everything else does"""


def build(units):
    """units: list of (harness, variant, parser).  Returns {(harness, variant): executable}."""
    os.makedirs(CACHE, exist_ok=True)
    hh = headers_hash()
    jobs, links = {}, {}
    for harness, variant, parser in units:
        cf, lf = VARIANTS[variant]
        if parser:
            cf = cf + ["-DWITH_PARSER"]
        lib = [s for s in sorted(glob.glob(SRC + "/**/*.cc", recursive=True)) if parser or "/parser/" not in s]
        har = [os.path.join(HARN, harness + ".cc"), os.path.join(HARN, "explore.cc")]
        if variant == "sched":
            har.append(os.path.join(HARN, "sched.cc"))
        if harness == "c27":
            lib = lib + sorted(glob.glob(BIND + "/*.cc"))
        objs = []
        for s in lib + har:
            fl = [f for f in cf if f != "-DWITH_PARSER" or s in har]
            if variant == "sched" and (s in lib or s == har[0]):
                fl = fl + SCHED_LIB
            if s.startswith(BIND + "/") or s.endswith("/c27.cc"):
                fl = fl + PYFLAGS
            k = hashlib.sha256("\0".join([hh, s, *COMMON, *fl]).encode() + read(s)).hexdigest()[:24]
            o = os.path.join(CACHE, k + ".o")
            jobs[o] = (s, fl, o)
            objs.append(o)
        if harness == "c30":  # a program's own objects come before those of the library it is linked with
            objs = objs[len(lib):] + objs[:len(lib)]
        exe = os.path.join(CACHE, harness + "-" + variant + "-" + hashlib.sha256("".join(objs).encode()).hexdigest()[:16])
        links[(harness, variant)] = (exe, objs, lf)
    # longest first
    order = sorted(jobs.values(), key=lambda j: (0 if "parser" in j[0] else 1, 0 if HARN in j[0] else 1))
    with concurrent.futures.ThreadPoolExecutor(max(WORK, 2)) as ex:
        errs = [e for e in ex.map(compile_one, order) if e]
    if errs:
        if all(e.startswith(BIND + "/") for e in errs):
            raise ModuleBroken("\n".join(errs))
        print("BUILD FAILED\n" + "\n".join(errs))
        sys.exit(2)
    out = {}
    for key, (exe, objs, lf) in links.items():
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            r = subprocess.run(["g++", *objs, *lf, "-o", tmp, *(["-lpython3.12"] if key[0] == "c27" else []), "-lfmt", "-lpthread", "-lstdc++fs"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                print("LINK FAILED\n" + r.stdout[-6000:])
                sys.exit(2)
            os.replace(tmp, exe)
        out[key] = exe
    return out


def prune():
    """keep the cache bounded"""
    fs = sorted((f for f in glob.glob(CACHE + "/*") if os.path.isfile(f)), key=os.path.getmtime)
    total = sum(os.path.getsize(f) for f in fs)
    while fs and total > 1500 << 20:
        f = fs.pop(0)
        total -= os.path.getsize(f)
        try:
            os.remove(f)
        except OSError:
            pass


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:hard_rss_limit_mb=3000:exitcode=77:symbolize=1:detect_stack_use_after_return=0:allocator_may_return_null=0:malloc_fill_byte=64:max_malloc_fill_size=4096",
           # fresh heap memory reads as 32.5 (or a bool that is neither true nor false), freed memory as -0.124
           MALLOC_PERTURB_="191",
           UBSAN_OPTIONS="print_stacktrace=1", LC_ALL="C.UTF-8", VERIF_TREE=REPO, LOCPATH=os.path.join(CACHE, "locale"))
LOCALES = "de_DE.UTF-8 fr_FR.UTF-8 ps_AF.UTF-8 tr_TR.UTF-8 fa_IR.UTF-8 de_CH.UTF-8 en_US.UTF-8 de_DE.ISO-8859-1 hi_IN.UTF-8".split()


def locales():
    """compiles the locales C28 runs under from the installed sources, once"""
    def one(name):
        out = os.path.join(CACHE, "locale", name)
        if not os.path.exists(out):
            tmp = tempfile.mkdtemp(dir=os.path.join(CACHE, "locale"))
            lang, charset = name.split(".")
            subprocess.run(["localedef", "-c", "-i", lang, "-f", charset, os.path.join(tmp, name)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            try:
                os.rename(os.path.join(tmp, name), out)
            except OSError:
                pass
            shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(os.path.join(CACHE, "locale"), exist_ok=True)
    with concurrent.futures.ThreadPoolExecutor(max(WORK, 2)) as ex:
        list(ex.map(one, LOCALES))


def known(prop):
    f = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("known: property=" + prop + " match="):
                out.append(l.split(" match=", 1)[1])
    return out


def explore(exe, thorough, scratch, cap, workers):
    res = os.path.join(scratch, "result.json")
    if os.path.exists(res):
        os.remove(res)
    cmd = [exe, "--out", res, "--workers", str(workers), "--scratch", scratch, "--cap", str(cap)] + (["--thorough"] if thorough else [])
    r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=cap + 900)
    if not os.path.exists(res):
        if r.returncode == 4 or r.returncode in (-4, -6, -7, -8, -11, -14) or (r.returncode in (1, 77) and "Sanitizer" in r.stdout):
            # the library failed while the cases were being set up: valid operations, made with its own API
            return {"evaluations": 0, "states": 0, "transitions": 0, "traces": 0, "outcomes": 0, "families": [], "info": {}, "samples": [], "capped": False, "lost": True, "slow": False,
                    "unconfirmed": 0, "unconfirmed_text": "", "explore_s": 0,
                    "violations": [{"family": "setup", "index": 0, "how": "setting up the cases", "spec": "", "text": r.stdout[-3000:] + "\nexit status %s" % r.returncode}]}, r.stdout[-4000:]
        return None, r.stdout[-4000:] + "\nexit status %s" % r.returncode
    with open(res) as f:
        return json.load(f), r.stdout[-4000:]


def main():
    args = sys.argv[1:]
    if not args or args[0] == "--list":
        print(" ".join(sorted(P)))
        return 0
    if args[0] == "--build-all":
        try:
            build(sorted({u for us in P.values() for u in us}))
        except ModuleBroken as e:
            print("the Python module does not compile (see C27)\n%s" % e)
            build(sorted({u for p, us in P.items() for u in us if p != "C27"}))
        locales()
        return 0
    prop = args[0]
    thorough = "--thorough" in args or (os.environ.get("VERIF_TIER") == "thorough")
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="stlmc-")
    try:
        try:
            exes, broken = build(P[prop]), None
        except ModuleBroken as e:
            exes, broken = {}, str(e)
        if prop == "C28":
            locales()
        if "--replay" in args:
            rp = json.load(open(args[args.index("--replay") + 1]))
            if broken or rp["family"] == "build":
                print(broken or "the module compiles")
                return 1 if broken else 0
            exe = exes[(rp["harness"], rp["variant"])]
            return subprocess.run([exe, "--scratch", scratch, "--replay", rp["spec"]] + (["--thorough"] if rp["thorough"] else []), env=ENV).returncode
        build_s = time.time() - t0
        prune()
        tot = {"evaluations": 0, "states": 0, "transitions": 0, "traces": 0, "outcomes": 0}
        fams, samples, vios, infos, notes, exhaustive, runs = [], [], [], {}, [], True, []
        if broken:
            fams, exhaustive = [], False
            vios.append({"family": "build", "index": 0, "how": "by compiling", "spec": "", "text": "the Python module does not compile:\n" + broken, "harness": "c27", "variant": "plain"})
        for harness, variant, parser in P[prop] if not broken else []:
            cap = (10800 if thorough else 240) / len(P[prop])
            d, log = explore(exes[(harness, variant)], thorough, scratch, cap, WORK)
            if d is not None and not d["violations"] and d["unconfirmed"]:
                first = d["unconfirmed_text"]
                d2, log = explore(exes[(harness, variant)], thorough, scratch, cap, WORK)
                if d2 is not None:
                    if not d2["violations"] and d2["unconfirmed"]:
                        d2["violations"] = [{"family": "?", "index": 0, "how": "seen in two whole explorations, not reproduced in isolation", "spec": "", "text": first + "\n" + d2["unconfirmed_text"]}]
                    d = d2
            if d is None:
                print("explorer failed: " + log)
                return 2
            for k in tot:
                tot[k] += d[k]
            for f in d["families"]:
                f["variant"] = variant
                fams.append(f)
            for k, v in d["info"].items():
                infos[k] = infos.get(k, 0) + v
            samples += ["[%s] %s" % (variant, s.strip()) for s in d["samples"]]
            if d["capped"]:
                notes.append(variant + ": stopped at the time cap")
            if d["capped"] or d["lost"] or d["slow"]:
                exhaustive = False
            runs.append({"harness": harness, "variant": variant, "explore_s": d["explore_s"], "evaluations": d["evaluations"]})
            for v in d["violations"]:
                v["harness"], v["variant"] = harness, variant
                vios.append(v)
            if vios:
                break
        kn = known(prop)
        new, seen = [], set()
        for v in vios:
            hit = [k for k in kn if k in v["text"]]
            if hit:
                seen.add(hit[0])
            else:
                new.append(v)
        for k in sorted(seen):
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        level = {"C18": "model_checking"}.get(prop, "model_checking")
        ev = {"property": prop, "tier": "thorough" if thorough else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
              "coverage": {"evaluations": tot["evaluations"], "states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": tot["traces"],
                           "distinct_outcomes": tot["outcomes"], "exhaustive": exhaustive and not new, "families": fams, "counters": infos, "samples": samples[:16], "runs": runs, "notes": notes},
              "assumptions": ["bounds of the families listed", "compiled by the installed gcc, -O1 -DNDEBUG (plain, sched) or with assertions and sanitizers (asan, asan0)", "reference model in harness/*.hpp"],
              "wall_s": round(time.time() - t0, 3), "violations": len(new)}
        ev["coverage"]["build_s"] = round(build_s, 3)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if new:
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            for n, v in enumerate(new[:3]):
                rp = os.path.join("replays", "%s-%d.json" % (prop, n))
                with open(os.path.join(HERE, rp), "w") as f:
                    json.dump({"property": prop, "harness": v["harness"], "variant": v["variant"], "thorough": thorough, "spec": v["spec"], "family": v["family"], "index": v["index"], "how": v["how"], "text": v["text"]}, f, indent=1)
                print("%s#%s (%s, confirmed %s):\n%s" % (v["family"], v["index"], v["variant"], v["how"], v["text"][:2500]))
                print("VIOLATION property=%s replay=%s" % (prop, rp))
            return 1
        print("%s ok: %d cases, %d states, %d transitions, %d traces, %d outcomes in %.1f s (build %.1f s)%s" % (
            prop, tot["evaluations"], tot["states"], tot["transitions"], tot["traces"], tot["outcomes"], time.time() - t0, build_s, "" if exhaustive else " NOT EXHAUSTIVE " + str(notes)))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.stdout.reconfigure(errors="backslashreplace")
    sys.exit(main())
