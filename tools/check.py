#!/usr/bin/env python3
"""check.py PROPERTY: builds the simulator from /repo's working tree, searches, confirms, minimises, reports.  Exit 0 held, 1 violated."""
import glob, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE); SIM = os.path.join(ROOT, "sim")
REPO = os.environ.get("GENCPP_REPO", "/repo")
sys.path.insert(0, HERE)
from props import PROPS
BUILD = os.path.join(ROOT, "build"); CORES = max(2, min(8, os.cpu_count() or 8))

BASE = "-O1 -g1 -fsanitize=address -std=c++17 -fno-exceptions -w -fno-omit-frame-pointer".split()
VARIANTS = {  # name -> (compile flags of library and scenarios, os layer, symbol renames)
    "win-debug": ("-D_WIN32 -D_WIN64 -D__int64=long -DGEN_BUILD_DEBUG=1", "os_win", "redefine.txt"),
    "posix-debug": ("-DGEN_BUILD_DEBUG=1", "os_posix", "redefine_posix.txt"),
    "win-release": ("-D_WIN32 -D_WIN64 -D__int64=long -DGEN_BUILD_DEBUG=0", "os_win", "redefine.txt"),
    "win-nofatal": ("-D_WIN32 -D_WIN64 -D__int64=long -DGEN_BUILD_DEBUG=1 -DGEN_DONT_USE_FATAL", "os_win", "redefine.txt"),
}
WINF, POSIXF = VARIANTS["win-debug"], VARIANTS["posix-debug"]
PROGRAMS = {"base": "base", "segmented": "gen_segmented", "singleheader": "gen_singleheader", "clibrary": "gen_c_library", "unreal": "gen_unreal_engine"}
for _p, _d in PROGRAMS.items():       # whole programs: variant -> (flags, os layer, renames, main source)
    for _n, _v in (("win", WINF), ("posix", POSIXF)): VARIANTS["%s-program-%s" % (_n, _p)] = (_v[0] + ' -DSIM_PROGRAM_DIR="%s" -DSIM_REPO="%s"' % (_d, REPO), _v[1], _v[2], "prog_" + _p)

def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0"); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]

def sources():
    r = []
    for d in [os.path.join(REPO, x) for x in ("base", "gen_segmented", "gen_singleheader", "gen_c_library", "gen_unreal_engine")] + [SIM]:
        for b, ds, fs in os.walk(d):
            ds[:] = [x for x in ds if x not in ("build", ".git")]
            r += [os.path.join(b, f) for f in fs if f.endswith((".cpp", ".hpp", ".h", ".txt", ".csv", ".refactor"))]
    return r

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode: raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd)[:400], p.stdout[-4000:]))
    return p.stdout

def build(variants, srcs):
    """one executable per variant, compiled from the working tree; objects are reused only when every input byte is the same"""
    os.makedirs(BUILD, exist_ok=True)
    all_src = sources(); key_all = digest(all_src, "v4")
    key_sim = digest([f for f in all_src if f.startswith(SIM)], "v4")
    odir = os.path.join(BUILD, "obj"); os.makedirs(odir, exist_ok=True)
    jobs, objs = [], {}
    def add(out, fn):
        if out not in [j[0] for j in jobs]: jobs.append((out, fn))
    for v in variants:
        fl, osl, red, main = (*VARIANTS[v], "lib")[:4]; o = []
        for f in [main] + srcs:
            out = os.path.join(odir, "%s-%s-%s.o" % (v, f, key_all)); o.append(out)
            def comp(out=out, f=f, fl=fl, red=red):
                tmp = out + ".raw.%d" % os.getpid()
                win = ["-I" + os.path.join(SIM, "win32")] if "_WIN32" in fl else []
                run(["clang++", *BASE, "-include", os.path.join(SIM, "pre.h"), *win, *fl.split(), "-fms-extensions", "-fdelayed-template-parsing", "-DGEN_TIME",
                     "-I" + os.path.join(REPO, "base"), "-I" + os.path.join(REPO, "base", "helpers"), *(["-I" + REPO] if main != "lib" else []), "-c", os.path.join(SIM, f + ".cpp"), "-o", tmp])
                run(["objcopy", "--redefine-syms=" + os.path.join(SIM, red), tmp, out + ".t%d" % os.getpid()]); os.rename(out + ".t%d" % os.getpid(), out); os.remove(tmp)
            add(out, comp)
        for f in ["core", "machine", "os_common", osl]:
            out = os.path.join(odir, "%s-%s.o" % (f, key_sim)); o.append(out)
            def comp2(out=out, f=f):
                t = out + ".t%d" % os.getpid()
                run(["clang++", *BASE, *(["-I" + os.path.join(SIM, "win32")] if f == "os_win" else []), "-c", os.path.join(SIM, f + ".cpp"), "-o", t]); os.rename(t, out)
            add(out, comp2)
        objs[v] = o
    todo = [(o, f) for o, f in jobs if not os.path.exists(o)]
    with ThreadPoolExecutor(CORES) as ex: list(ex.map(lambda j: j[1](), todo))
    exes = {}
    def link(v):
        exe = os.path.join(BUILD, "sim-%s-%s-%d" % (v, "_".join(srcs), os.getpid())); run(["clang++", "-fsanitize=address", "-rdynamic", "-o", exe, *objs[v]]); exes[v] = exe
    with ThreadPoolExecutor(CORES) as ex: list(ex.map(link, variants))
    live = set(x for v in objs.values() for x in v)
    for f in glob.glob(os.path.join(odir, "*.o")):        # keep the cache small
        if f not in live and time.time() - os.path.getmtime(f) > 3600: os.remove(f)
    return exes

def known(prop):
    r = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) match=/(.*)/ (.*)", l.strip())
            if m and m.group(1) == prop: r.append((m.group(2), re.compile(m.group(3), re.S), m.group(4)))
    return r

def batch(exe, prop, seed, first, count, secs, out):
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    p = subprocess.run([exe, "batch", prop, str(seed), str(first), str(count), str(CORES), str(secs), out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=secs + 200)
    if p.returncode: raise RuntimeError("simulator failed: rc %d %s %s" % (p.returncode, p.stdout[-500:], p.stderr[-1000:]))
    t = dict(runs=0, nontrivial=0, distinct=0, ops=0, steps=0, syscalls=0, sim_ns=0, rechecked=0, diverged=0, violating=0, timed_out=0)
    cnt, scn, samples, found, div, hashes = {}, {}, [], {}, [], set()
    for f in sorted(glob.glob(out + "/w*")):
        for l in open(f, errors="replace"):
            k, _, v = l.rstrip("\n").partition(" ")
            if k in t: t[k] += int(v)
            elif k == "counter": n, _, x = v.rpartition(" "); cnt[n] = cnt.get(n, 0) + int(x)
            elif k == "scenario": n, _, x = v.rpartition(" "); scn[n] = scn.get(n, 0) + int(x)
            elif k == "sample": samples.append(json.loads(v))
            elif k == "divergence": div.append(json.loads(v))
            elif k == "found":
                d = json.loads(v); c = d["class"]
                if c in found: d["hits"] += found[c]["hits"]
                if c not in found or len(found[c]["tape"]) > len(d["tape"]): found[c] = d
                else: found[c]["hits"] = d["hits"]
    for f in glob.glob(out + "/h*"):
        b = open(f, "rb").read(); hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    shutil.rmtree(out, ignore_errors=True)
    return t, cnt, scn, samples, found, div, hashes

def replay(exe, prop, scn, tape):
    fd, path = tempfile.mkstemp(dir=BUILD, suffix=".tape"); os.write(fd, " ".join(map(str, tape)).encode()); os.close(fd)
    try:
        p = subprocess.run([exe, "replay", prop, scn, path], stdout=subprocess.PIPE, text=True, errors="replace", timeout=120)
        return json.loads(p.stdout)
    finally: os.remove(path)

def shrink(exe, prop, scn, tape, cls, budget, secs):
    fd, path = tempfile.mkstemp(dir=BUILD, suffix=".tape"); os.write(fd, " ".join(map(str, tape)).encode()); os.close(fd)
    try:
        p = subprocess.run([exe, "shrink", prop, scn, path, cls, str(budget), str(secs)], stdout=subprocess.PIPE, text=True, errors="replace", timeout=secs + 60)
        return json.loads(p.stdout)
    except (subprocess.TimeoutExpired, ValueError): return None
    finally: os.remove(path)

def main():
    prop = sys.argv[1]; cfg = PROPS[prop]; t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick"); tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ti = 0 if tier == "quick" else 1
    scale = float(os.environ.get("SIM_SCALE", "1"))
    variants = [v for v in cfg["runs"] if cfg["runs"][v][ti]]
    exes = build(variants, cfg["src"]); built = time.time() - t0
    total, counters, scns, samples, hashes, per_variant, divs = {}, {}, {}, [], 0, {}, []
    violations, knowns, unconfirmed = [], [], 0
    cap_all = 60 if tier == "quick" else 3000
    shrink_left = 120 if tier == "quick" else 1200
    for v in variants:
        if tier == "quick" and len(violations) >= 4: break     # enough is known
        n = max(64, int(cfg["runs"][v][ti] * scale)); secs = max(8, cap_all * cfg["runs"][v][ti] / sum(cfg["runs"][x][ti] for x in variants))
        b0 = time.time()
        t, c, s, sm, found, div, hs = batch(exes[v], prop, seed, 0, n, secs, os.path.join(BUILD, "out-%s-%d" % (v, os.getpid())))
        dt = time.time() - b0
        per_variant[v] = dict(t, wall_s=round(dt, 2), runs_per_hour=int(t["runs"] / max(dt, 1e-3) * 3600), scenarios=s)
        for k, x in t.items(): total[k] = total.get(k, 0) + x
        for k, x in c.items(): counters[k] = counters.get(k, 0) + x
        for k, x in s.items(): scns[k] = scns.get(k, 0) + x
        samples += ["[%s]\n%s" % (v, x) for x in sm[:2]]; hashes += len(hs); divs += ["%s: %s" % (v, d) for d in div]
        for cls, d in sorted(found.items(), key=lambda kv: len(kv[1]["tape"])):
            if len([x for x in violations if x["variant"] == v]) >= 2: break
            a, b = replay(exes[v], prop, d["scenario"], d["tape"]), replay(exes[v], prop, d["scenario"], d["tape"])
            same = a["violated"] and b["violated"] and a["class"] == b["class"] == cls and (a["hash"] == b["hash"] or "hang" in cls)
            if not same:
                print("note: class %s of %s did not replay identically (%s/%s); not reported" % (cls, v, a.get("class"), b.get("class"))); divs.append("%s: unconfirmed %s" % (v, cls)); unconfirmed += 1; continue
            kf = next((k for k in known(prop) if k[0] == cls and k[1].search(d["message"])), None)
            if kf: knowns.append(kf[2]); continue
            s0 = time.time(); m = shrink(exes[v], prop, d["scenario"], d["tape"], cls, 1500 if tier == "quick" else 8000, min(60, shrink_left) if tier == "quick" else min(300, shrink_left)) if shrink_left > 2 else None; shrink_left -= time.time() - s0
            if not m or not m.get("violated") or m["class"] != cls: m = a
            violations.append(dict(property=prop, variant=v, scenario=d["scenario"], seed=seed, index=d["index"], **{"class": cls}, hits=d["hits"], message=m["message"], tape=m["tape"], hash=m["hash"], steps=m["steps"], log=m["log"], asan=m.get("asan", ""), original_tape_length=len(d["tape"])))
    rc = 2 if unconfirmed and not violations else 0
    for k in sorted(set(knowns)): print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if violations:
        rd = os.path.join(ROOT, "replays"); os.makedirs(rd, exist_ok=True)
        for i, x in enumerate(violations):
            path = os.path.join(rd, "%s-%s-%s.json" % (prop, x["variant"], re.sub(r"[^A-Za-z0-9]+", "_", x["class"])))
            json.dump(x, open(path, "w"), indent=1)
            print("%s [%s/%s] %s (found at seed %d index %d, %d hits; minimised from %d to %d choices)" % (x["class"], x["variant"], x["scenario"], x["message"][:1500], seed, x["index"], x["hits"], x["original_tape_length"], len(x["tape"])))
            if i == 0: first = path
        print("VIOLATION property=%s replay=%s" % (prop, first)); rc = 1
    for e in exes.values(): os.remove(e)
    wall = time.time() - t0
    faults = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("fault:")}
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(wall, 2), violations=len(violations),
        coverage=dict(evaluations=total["runs"], distinct_nontrivial=hashes, rule=cfg["rule"] + " Two runs are distinct when their complete event logs (schedule, choices, faults, system calls, results) hash differently.",
            samples=samples[:4] or ["(no non-trivial sample)"],
            simulated_runs_per_hour=int(total["runs"] / max(1e-3, sum(x["wall_s"] for x in per_variant.values())) * 3600), seeds_per_hour=int(total["runs"] / max(1e-3, sum(x["wall_s"] for x in per_variant.values())) * 3600),
            simulated_time_s=round(total["sim_ns"] / 1e9, 3), simulated_system_calls=total["syscalls"], workload_operations=total["ops"], logged_events=total["steps"],
            faults_injected=faults, faults_injected_total=sum(faults.values()),
            process_endings={k[8:]: v for k, v in sorted(counters.items()) if k.startswith("process:")}, probes={k[6:]: v for k, v in sorted(counters.items()) if k.startswith("probe:")},
            discarded_runs=counters.get("run:discarded", 0), determinism_rechecks=total["rechecked"], determinism_divergences=total["diverged"], divergence_notes=divs[:5],
            scenarios=scns, variants=per_variant, build_s=round(built, 2), stopped_by_time_cap=bool(total["timed_out"]),
            real_components=["the repository's generator programs (base, segmented, single header, C library, Unreal) with the whole C++ library, compiled from the working tree with AddressSanitizer, over the repository's own sources"] if prop == "C24" else ["the whole C++ library from /repo/base (components, dependencies, auxiliary: builder and scanner), compiled from the working tree with AddressSanitizer"],
            stubbed_components=["operating system below the library: file, console, clock, heap and virtual memory calls", *(["the formatting tools the programs start"] if prop == "C24" else ["the user's allocators", "the user's program (generated jobs)"])]),
        assumptions=["The simulated operating system behaves as the documented calls do; only the faults listed are injected.", "Search is seeded sampling, not exhaustive."])
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", prop + ".json.tmp"); json.dump(ev, open(tmp, "w"), indent=1); os.rename(tmp, os.path.join(ROOT, "evidence", prop + ".json"))
    print("%s %s: %d runs (%d distinct non-trivial), %d faults, %d divergences, build %.1f s, total %.1f s -> %s" % (prop, tier, total["runs"], hashes, sum(faults.values()), total["diverged"], built, wall, ["held", "VIOLATED", "UNCONFIRMED"][rc]))
    return rc

if __name__ == "__main__":
    try: sys.exit(main())
    except Exception as e:      # no answer: neither held nor violated
        print("check.py: error: %s" % e); sys.exit(2)
