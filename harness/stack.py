"""C24: very deep data on a stack of ordinary size (built without sanitizers)."""
import os, glob, random, subprocess, hashlib

MSG = "cyaml_free of data nested %d levels deep overflows a stack of %d bytes"


def prepare(ck):
    src = sorted(glob.glob(ck.REPO + "/src/*.c"))
    prog = os.path.join(ck.H, "progs", "stack.c")
    key = ck.files_hash(src + glob.glob(ck.REPO + "/src/*.h") + glob.glob(ck.REPO + "/include/cyaml/*.h") + [prog])[:24]
    exe = os.path.join(ck.BUILD, "stack-" + key)
    if not os.path.exists(exe):
        os.makedirs(ck.BUILD, exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        ck.sh(["clang", "-O1", "-D_GNU_SOURCE"] + ck.DEFS + ["-I", ck.REPO + "/include"] + src + [prog, "-lyaml", "-lpthread", "-o", tmp])
        os.rename(tmp, exe)
    return exe


def one(exe, depth, stack):
    p = subprocess.run([exe, str(depth), str(stack)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120)
    got = p.stdout.decode()
    if got == "LSCF" and p.returncode == 0:
        return None
    if got == "LSC" and p.returncode < 0:
        return MSG % (depth, stack)
    return "data nested %d levels deep on a stack of %d bytes: of load, save, copy and free only \"%s\" came back; status %d" % (depth, stack, got, p.returncode)


def extend(ck, prop, tier, seed, j):
    exe = prepare(ck)
    rng = random.Random(seed)
    cases = [(150000, 8 << 20)]
    for i in range(6 if tier == "quick" else 200):
        cases.append((rng.choice([rng.randrange(1, 300), rng.randrange(300, 12000)]), 8 << 20))
    for depth, stack in cases:
        j["evaluations"] += 4
        j["distinct_nontrivial"] += depth >= 8
        w = one(exe, depth, stack)
        if w:
            path = os.path.join(ck.HERE, "replays", "%s-stack-%d-%d.txt" % (prop, depth, stack))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                f.write("property: %s\nmodule: stack\ndepth: %d\nstack: %d\n%s\n" % (prop, depth, stack, w))
            j["violations"].append({"replay": path, "what": w})
    j.setdefault("cases", {})["stack"] = len(cases)
    j["samples"].append("a chain of %d fixed sequences on a stack of %d bytes" % cases[-1])


def replay(ck, path):
    v = dict(l.strip().split(": ", 1) for l in open(path) if ": " in l)
    w = one(prepare(ck), int(v["depth"]), int(v["stack"]))
    print(w or "load, save, copy and free all came back")
    if w:
        print("VIOLATION property=%s replay=%s" % (v["property"], path))
    return 1 if w else 0
