#!/usr/bin/env python3
"""Build the harness against /repo's working tree and run the checks.

  check.py run C01            quick or thorough by VERIF_TIER, seed VERIF_SEED
  check.py replay FILE        re-run a saved failing case
  check.py setup              build everything once
"""
import sys, os, subprocess, hashlib, json, glob, time, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CYAML_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
H = os.path.join(HERE, "harness")
SAN = "-fsanitize=address,undefined -fno-sanitize=alignment,enum,function,pointer-overflow,nonnull-attribute -fno-sanitize-recover=all".split()
DEFS = "-DVERSION_MAJOR=2 -DVERSION_MINOR=0 -DVERSION_PATCH=0 -DVERSION_DEVEL=1".split()
COMMON = ["core", "schema", "yaml", "model", "api", "gen", "driver"]


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def files_hash(fs):
    h = hashlib.sha256()
    for f in sorted(fs):
        h.update(os.path.basename(f).encode() + b"\0")
        h.update(open(f, "rb").read())
    return h.hexdigest()


def compile_obj(cmd, src, deps, tag):
    """Compile src into the object cache; the key is everything that goes in."""
    key = hashlib.sha256((" ".join(cmd) + files_hash(deps + [src])).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, "obj", "%s-%s.o" % (tag, key))
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        sh(cmd + ["-c", src, "-o", tmp])
        os.rename(tmp, out)
    return out


def wrapped_yaml():
    """libyaml with its allocations going through the harness (vp_malloc)."""
    src = next((p for p in glob.glob("/usr/lib/*/libyaml.a") + ["/usr/lib/libyaml.a"] if os.path.exists(p)), None)
    if not src:
        return ["-lyaml"]
    out = os.path.join(BUILD, "libyaml-%s.a" % files_hash([src])[:16])
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        sh(["objcopy"] + ["--redefine-sym=%s=vp_%s" % (f, f) for f in ("malloc", "realloc", "strdup")] + [src, tmp])
        os.rename(tmp, out)
    return [out]


def build(prop, variant="asan"):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    inc = glob.glob(REPO + "/include/cyaml/*.h")
    lib_h = glob.glob(REPO + "/src/*.h")
    har_h = glob.glob(H + "/*.h") + glob.glob(H + "/*.inc")
    san = {"asan": SAN, "tsan": ["-fsanitize=thread"], "fuzz": SAN + ["-fsanitize=fuzzer-no-link"]}[variant]
    ccflags = ["clang", "-std=c11", "-g1", "-O1", "-fno-omit-frame-pointer"] + san + DEFS + ["-D_GNU_SOURCE", "-I", REPO + "/include"]
    cxxflags = ["clang++", "-std=c++17", "-g1", "-O1", "-Wno-everything"] + san + ["-I", REPO + "/include"]
    jobs = []
    for s in sorted(glob.glob(REPO + "/src/*.c")):
        jobs.append((ccflags, s, inc + lib_h, "lib"))
    for s in COMMON:
        if variant == "fuzz" and s == "driver":
            continue
        jobs.append((cxxflags, H + "/" + s + ".cpp", inc + har_h, "h-" + s))
    jobs.append((cxxflags, H + "/props/" + prop + ".cpp", inc + har_h, prop))
    with ThreadPoolExecutor(max_workers=10) as ex:
        objs = list(ex.map(lambda j: compile_obj(*j), jobs))
    yaml = wrapped_yaml() if json.load(open(os.path.join(H, "specs.json"))).get(prop, {}).get("wrap_yaml") else ["-lyaml"]
    key = hashlib.sha256(("\n".join(objs + yaml) + variant).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "%s-%s-%s" % (prop, variant, key))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        link = [f for f in san if f != "-fsanitize=fuzzer-no-link"] + (["-fsanitize=fuzzer"] if variant == "fuzz" else [])
        sh(["clang++"] + link + objs + yaml + ["-lpthread", "-o", tmp])
        os.rename(tmp, exe)
    return exe


def known_findings():
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                out.append(json.loads(l[8:]))  # {"property":..,"match":..,"what":..}
    return out


def run_driver(prop, tier, seed, variant="asan", extra=()):
    exe = build(prop, variant)
    out = os.path.join(BUILD, "out-%s-%d.json" % (prop, os.getpid()))
    cmd = [exe, "--prop", prop, "--tier", tier, "--seed", str(seed), "--out", out, "--replays", os.path.join(HERE, "replays")] + (["--racy", "1"] if variant == "tsan" else []) + list(extra)
    p = subprocess.run(cmd)
    if not os.path.exists(out):
        raise RuntimeError("driver for %s ended with %d and no report" % (prop, p.returncode))
    j = json.load(open(out))
    os.unlink(out)
    return j


def write_evidence(prop, tier, seed, spec, j, wall):
    cov = {"evaluations": j["evaluations"], "distinct_nontrivial": j["distinct_nontrivial"], "rule": spec["rule"],
           "samples": j["samples"], "cases": j.get("cases", {}), "classes": j.get("labels", {}),
           "time_budget_hit": j.get("budget_hit", False), "failures_not_reproduced": bool(j.get("unreproduced"))}
    cov.update(j.get("extra", {}))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"), "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": [{"replay": v["replay"], "what": v["what"][:2000]} for v in j["violations"]]}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(p + ".tmp", p)


def manifest():
    """Write MANIFEST.json from specs.json; unwritten checks go to not_applicable."""
    spec = json.load(open(os.path.join(H, "specs.json")))
    m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [], "not_applicable": [],
         "notes": "No hooks in /repo: the checks use the public API only and compile /repo's sources themselves with sanitizers."}
    for p, s in sorted(spec.items()):
        if os.path.exists(os.path.join(H, "props", p + ".cpp")) or os.path.exists(os.path.join(H, s.get("module", "-") + ".py")):
            m["checks"].append({"property": p, "quick_cmd": "python3 check.py run " + p, "thorough_cmd": "python3 check.py run " + p,
                                "technique": s["technique"], "level": s["level"], "level_note": s["level_note"]})
        else:
            m["not_applicable"].append({"property": p, "reason": "the check for this property is not written yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


def run(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    spec = json.load(open(os.path.join(H, "specs.json")))[prop]
    t0 = time.time()
    extra = os.environ.get("VERIF_EXTRA", "").split()
    if "--budget" not in extra:
        extra += ["--budget", "300" if tier == "quick" else "7200"]
    mod = spec.get("module")
    if mod:
        sys.path.insert(0, H)
        m = __import__(mod)
        j = m.run(sys.modules[__name__], prop, tier, seed, extra)
    else:
        j = run_driver(prop, tier, seed, spec.get("variant", "asan"), extra)
        for part in spec.get("also", []):
            sys.path.insert(0, H)
            m = __import__(part)
            m.extend(sys.modules[__name__], prop, tier, seed, j)
    known = [k for k in known_findings() if k["property"] == prop]
    left = []
    for v in j["violations"]:
        hit = next((k for k in known if k["match"] in v["what"] or k["match"] in v.get("case", "")), None)
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit["what"]))
        else:
            left.append(v)
    j["violations"] = left
    write_evidence(prop, tier, seed, spec, j, time.time() - t0)
    print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %.1f s" % (prop, tier, seed, j["evaluations"], j["distinct_nontrivial"], time.time() - t0))
    if left:
        for v in left:
            print(v["what"][:1500])
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(v["replay"], HERE) if v["replay"].startswith(HERE) else v["replay"]))
        return 1
    return 0


def replay(path):
    prop = None
    for l in open(path, errors="replace"):
        if l.startswith("property: "):
            prop = l.split()[1]
            break
    spec = json.load(open(os.path.join(H, "specs.json")))[prop]
    if spec.get("module"):
        sys.path.insert(0, H)
        return __import__(spec["module"]).replay(sys.modules[__name__], path)
    if "choices:" not in open(path, errors="replace").read():
        sys.path.insert(0, H)
        for part in spec.get("also", []):
            return __import__(part).replay(sys.modules[__name__], path)
    return subprocess.run([build(prop, spec.get("variant", "asan")), "--replay", path] + (["--racy", "1"] if spec.get("variant") == "tsan" else [])).returncode


def setup():
    specs = json.load(open(os.path.join(H, "specs.json")))
    for p, s in sorted(specs.items()):
        if os.path.exists(os.path.join(H, "props", p + ".cpp")):
            build(p, s.get("variant", "asan"))
        for part in s.get("also", []) + ([s["module"]] if "module" in s else []):
            sys.path.insert(0, H)
            if os.path.exists(os.path.join(H, part + ".py")):
                __import__(part).prepare(sys.modules[__name__])
    print("built the checks")
    return 0


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["run"]:
        sys.exit(run(a[1]))
    if a[:1] == ["replay"]:
        sys.exit(replay(a[1]))
    if a[:1] == ["manifest"]:
        sys.exit(manifest())
    if a[:1] == ["setup"]:
        sys.exit(setup())
    print(__doc__)
    sys.exit(2)
