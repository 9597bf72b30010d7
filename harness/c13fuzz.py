"""Coverage-guided part of C13: libFuzzer over schema choice and document bytes."""
import os, re, subprocess, tempfile, shutil, glob, time

TOK = ["[", "]", "{", "}", ", ", ": ", "- ", "? ", "&a ", "*a", "|\\x0a", ">\\x0a", "'", "\\\"", "# ", "%YAML 1.1\\x0a", "---\\x0a", "...\\x0a", "\\x0a", "~", "null", "!!str ",
       "\\xef\\xbb\\xbf", "\\xff\\xfe", "\\xfe\\xff", "0x", "1e5", "true", "<<", "\\xc2\\x85", "\\xe2\\x80\\xa8", "\\\\x00"]


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=24:malloc_context_size=6:handle_abort=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    return e


def one(exe, path):
    """Run a single input; returns (failed, message)."""
    p = subprocess.run([exe, "-timeout=60", "-rss_limit_mb=4000", path], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    t = p.stdout.decode("latin-1")
    if p.returncode == 0:
        return False, ""
    m = re.search(r"PROPERTY-FAILS: .*|ERROR: AddressSanitizer.*|.*runtime error:.*|ERROR: libFuzzer.*", t)
    d = re.search(r"^schema: .*?\nconfig: .*?\ndocument: .*?$", t, re.S | re.M)
    return True, (m.group(0) if m else "exit status %d" % p.returncode) + ("\n" + d.group(0) if d else "")


def extend(ck, prop, tier, seed, j):
    if j["violations"]:
        return
    exe = ck.build("C13fuzz", "fuzz")
    secs = int(os.environ.get("C13_FUZZ_S", "12" if tier == "quick" else "3600"))
    tmp = tempfile.mkdtemp(prefix="cyfuzz.")
    try:
        corpus, arts, cw = tmp + "/corpus", tmp + "/art", tmp + "/cwd"
        for d in (corpus, arts, cw):
            os.mkdir(d)
        e = env()
        e.update(C13_SEEDS=corpus, C13_SEED=str(seed))
        subprocess.run([exe], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        seeds = len(os.listdir(corpus))
        with open(tmp + "/dict", "w") as f:
            for i, t in enumerate(TOK):
                f.write('t%d="%s"\n' % (i, t))
        ps = []
        for w in range(8):
            log = open(tmp + "/log%d" % w, "wb")
            ps.append(subprocess.Popen([exe, "-seed=%d" % (seed * 100 + w + 1), "-max_total_time=%d" % secs, "-max_len=2000", "-timeout=30", "-rss_limit_mb=3000", "-dict=" + tmp + "/dict", "-reload=2",
                                        "-print_final_stats=1", "-artifact_prefix=%s/w%d-" % (arts, w), "-len_control=20", corpus], env=env(), stdout=log, stderr=subprocess.STDOUT, cwd=cw))
        deadline = time.time() + secs + 120
        for p in ps:
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
        execs = cov = 0
        for w in range(8):
            t = open(tmp + "/log%d" % w, errors="replace").read()
            m = re.search(r"number_of_executed_units: (\d+)", t)
            execs += int(m.group(1)) if m else 0
            for m in re.finditer(r"cov: (\d+)", t):
                cov = max(cov, int(m.group(1)))
        n = len(os.listdir(corpus))
        j["evaluations"] += execs
        j["distinct_nontrivial"] += n
        j.setdefault("extra", {})["fuzzer"] = {"seconds": secs, "executions": execs, "seed_inputs": seeds, "corpus_inputs": n, "coverage_edges": cov}
        for a in sorted(glob.glob(arts + "/*crash-*") + glob.glob(arts + "/*timeout-*") + glob.glob(arts + "/*oom-*"), key=os.path.getsize):
            bad, msg = one(exe, a)
            if not bad:
                continue
            best = a
            subprocess.run([exe, "-minimize_crash=1", "-max_total_time=30", "-timeout=30", "-rss_limit_mb=3000", "-exact_artifact_path=" + tmp + "/min", a], env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=cw)
            if os.path.exists(tmp + "/min") and one(exe, tmp + "/min")[0]:
                best = tmp + "/min"
                msg = one(exe, best)[1]
            data = open(best, "rb").read()
            os.makedirs(ck.HERE + "/replays", exist_ok=True)
            path = ck.HERE + "/replays/C13-fuzz-%s.txt" % os.path.basename(a).split("-")[-1][:16]
            with open(path, "w") as f:
                f.write("property: C13\ncheck: fuzz\nwhat failed: %s\n\nreproduce: python3 check.py replay %s\nbytes: %s\n" % (msg, path, data.hex()))
            j["violations"].append({"replay": path, "what": msg, "case": msg})
            break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(ck, path):
    data = bytes.fromhex([l for l in open(path, errors="replace") if l.startswith("bytes: ")][0][7:].strip())
    with tempfile.NamedTemporaryFile() as f:
        f.write(data)
        f.flush()
        bad, msg = one(ck.build("C13fuzz", "fuzz"), f.name)
    print("FAILS: " + msg if bad else "PASSES")
    return 1 if bad else 0


def prepare(ck):
    ck.build("C13fuzz", "fuzz")
