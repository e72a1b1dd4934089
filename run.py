#!/usr/bin/env python3
"""Driver of the checks: build the harnesses of one property from /repo's working tree,
run them over generated cases, shrink and replay failures, write the evidence file.

  run.py C01 [--tier quick|thorough]      run a check (tier and seed default to VERIF_TIER / VERIF_SEED)
  run.py --replay FILE                    rebuild and rerun one replay file
  run.py --shrink FILE | --build C01 ...
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import checks  # noqa: E402

NCPU = min(8, os.cpu_count() or 8)
BUILD = os.path.join(HERE, "build")
REPLAY = os.path.join(HERE, "replay")
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:hard_rss_limit_mb=3500:allocator_may_return_null=0:symbolize=1:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=0:exitcode=76:halt_on_error=1",
           TSAN_OPTIONS="halt_on_error=1:exitcode=75:report_signal_unsafe=0:history_size=4")
BAD = {-27: "hang", -14: "deadlock", 75: "sanitizer (data race)", 76: "sanitizer (undefined behaviour)", 77: "sanitizer (memory error)", 78: "oracle", 79: "hang"}


def log(*a):
    print(*a, flush=True)


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "include"), os.path.join(HERE, "h"), os.path.join(HERE, "src")):
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p[len(base):].encode() + b"\0")
                h.update(open(p, "rb").read())
    return h.hexdigest()


def cmd_of(t, out, cxx=None):
    cxx = cxx or t.get("cxx", "clang++")
    c = [cxx, "-std=" + t.get("std", "c++17")]
    c += t.get("opt", ["-O1", "-g0"])
    if t.get("san", True):
        c += ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
        if cxx.startswith("clang"):
            c += ["-fno-sanitize=function"]
    c += ["-w", "-I" + os.path.join(HERE, "h"), "-I" + os.path.join(REPO, "include")]
    c += t.get("flags", [])
    c += [os.path.join(HERE, "src", t["src"]), "-o", out]
    c += t.get("libs", [])
    return c


def build_part(t, p, d):
    """one build variant of a target, as a shared object in directory d; returns an error text or None"""
    out = os.path.join(d, p["name"] + ".so")
    skip = os.path.join(d, p["name"] + ".skipped")
    if os.path.exists(out) or os.path.exists(skip):
        return None
    cxx = p.get("cxx", "clang++")
    tmp = out + ".tmp%d" % os.getpid()
    c = [cxx, "-std=" + p["std"], "-w", "-shared", "-fPIC", "-fvisibility=hidden"] + (["-fno-gnu-unique"] if cxx == "g++" else [])
    c += ["-I" + os.path.join(HERE, "h"), "-I" + os.path.join(REPO, "include")] + p.get("flags", []) + [os.path.join(HERE, "src", t["parts_src"]), "-o", tmp] + p.get("libs", [])
    r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode == 0:
        os.rename(tmp, out)
        return None
    if p.get("optional"):  # a language standard the library no longer claims to support is not an error
        log("variant %s does not compile; it is left out" % p["name"])
        open(skip, "w").write(r.stdout[:20000])
        return None
    return " ".join(c) + "\n" + r.stdout


def build(t, th):
    """returns (binary, None) or (None, error text)"""
    os.makedirs(BUILD, exist_ok=True)
    if "parts" in t:
        key = hashlib.sha256((th + json.dumps([t["parts"], t["parts_src"]])).encode()).hexdigest()[:24]
        d = os.path.join(BUILD, "parts-" + t["name"] + "-" + key)
        os.makedirs(d, exist_ok=True)
        with ThreadPoolExecutor(NCPU) as ex:
            errs = [e for e in ex.map(lambda p: build_part(t, p, d), t["parts"]) if e]
        if errs:
            return None, errs[0]
        t = dict(t, flags=t["flags"] + ["-DVF_PARTS=\"%s\"" % d])
    key = hashlib.sha256((th + json.dumps(cmd_of(t, "OUT"))).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, t["name"] + "-" + key)
    if os.path.exists(out):
        return out, None
    err = ""
    tries = [None, None] if t.get("cxx_only") else [None, "g++" if t.get("cxx", "clang++") == "clang++" else "clang++"]
    for alt in tries:
        tmp = out + ".tmp%d" % os.getpid()
        p = subprocess.run(cmd_of(t, tmp, alt), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode == 0:
            os.rename(tmp, out)
            return out, None
        err = err or p.stdout
    return None, err


def replay_once(binary, casefile, cpu=30, env=None):
    try:
        p = subprocess.run([binary, "--replay", casefile, "--casecpu", str(cpu)], env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=cpu * 20 + 60)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 79, "timeout"


def failed(rc):
    return rc != 0


def write_case(path, P, ops):
    with open(path, "w") as f:
        f.write("P " + " ".join(map(str, P)) + "\n")
        for o in ops:
            f.write("O " + " ".join(map(str, o)) + "\n")


def parse_case(text):
    P, ops = [], []
    for l in text.splitlines():
        w = l.split()
        if not w:
            continue
        if w[0] == "P":
            P = [int(x) for x in w[1:]]
        elif w[0] == "O":
            ops.append([int(x) for x in w[1:]])
    return P, ops


def shrink(binary, P, ops, t, budget):
    """greedy minimisation: delete chunks of operations, then reduce arguments and parameters"""
    t0 = time.time()
    d = tempfile.mkdtemp(dir=BUILD)
    cpu = 6
    cache = {}
    quiet = dict(ENV, TSAN_OPTIONS=ENV["TSAN_OPTIONS"] + ":symbolize=0")

    def bad(P, ops):
        k = repr((P, ops))
        if k in cache:
            return cache[k]
        f = os.path.join(d, "c%d" % threading.get_ident())
        write_case(f, P, ops)
        rc, _ = replay_once(binary, f, cpu, quiet)
        cache[k] = failed(rc)
        return cache[k]

    def first(cands):
        """the first (in order) of the candidates that still fails, evaluated in parallel"""
        i = 0
        while i < len(cands) and time.time() - t0 < budget:
            part = cands[i:i + NCPU]
            with ThreadPoolExecutor(NCPU) as ex:
                r = list(ex.map(lambda c: bad(*c), part))
            for c, b in zip(part, r):
                if b:
                    return c
            i += NCPU
        return None

    tgt = t.get("fault_target")  # parameter holding the index of the operation under fault injection

    def without(P, ops, a, b):
        o2 = ops[:a] + ops[b:]
        P2 = list(P)
        if tgt is not None and len(ops):
            k = P[tgt] % len(ops)
            if a <= k < b:
                return None
            P2[tgt] = k - (b - a) if k >= b else k
        return P2, o2

    if tgt is not None and P[tgt + 1] == 0:
        got = first([(P[:tgt + 1] + [k + 1] + P[tgt + 2:], ops) for k in range(0, 64)])
        if got:
            P = got[0]
    # cut the tail first: the failure happens at some operation
    size = max(1, len(ops) // 2)
    while size >= 1 and time.time() - t0 < budget:
        changed = False
        cands = []
        for a in range(len(ops) - size, -1, -max(1, size)):
            c = without(P, ops, a, a + size)
            if c:
                cands.append(c)
        got = first(cands)
        while got and time.time() - t0 < budget:
            P, ops = got
            changed = True
            cands = [c for c in (without(P, ops, a, a + size) for a in range(len(ops) - size, -1, -max(1, size))) if c]
            got = first(cands)
        if size == 1 and not changed:
            break
        size = size // 2 if size > 1 else (1 if changed else 0)
    for _ in range(2):
        for i in range(len(P)):
            if tgt is not None and i in (tgt, tgt + 1):
                continue
            for v in (0, 1, 2, 3, 5, P[i] // 2):
                if v < P[i] and time.time() - t0 < budget:
                    c = (P[:i] + [v] + P[i + 1:], ops)
                    if bad(*c):
                        P = c[0]
                        break
        for i in range(len(ops)):
            for j in range(1, len(ops[i])):
                x = ops[i][j]
                if time.time() - t0 > budget:
                    break
                cands = []
                for v in (0, 1, 2, 3, 4, 5, 6, 7, 8, x % 60, x % 840, x // 2):
                    if v < x:
                        o2 = [list(o) for o in ops]
                        o2[i][j] = v
                        cands.append((P, o2))
                got = first(cands)
                if got:
                    P, ops = got
    shutil.rmtree(d, ignore_errors=True)
    return P, ops


def describe(binary, casefile):
    try:
        return subprocess.run([binary, "--replay", casefile, "--show", "1"], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=60).stdout.strip()
    except Exception:
        return ""


def brief(out):
    m = re.search(r"VF-FAIL: (.*)", out)
    if m:
        return m.group(1)[:600]
    m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|runtime error: [^\n]*|VF-HANG[^\n]*|terminate called[^\n]*)", out)
    if m:
        return m.group(1)[:600]
    return out.strip()[-300:]


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid and k.get("status") == "known"]


def run_check(pid, tier, seed):
    t_start = time.time()
    chk = checks.CHECKS[pid]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(REPLAY, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    th = tree_hash()
    targets = checks.targets(pid, tier)
    with ThreadPoolExecutor(NCPU) as ex:
        built = list(ex.map(lambda t: build(t, th), targets))
    t_built = time.time()
    violations = []  # (target, message, replay)
    for t, (b, err) in zip(targets, built):
        if b is None:
            r = os.path.join(REPLAY, "%s-%s-build.txt" % (pid, t["name"]))
            open(r, "w").write("# vf-replay build\n# check: %s\n# target: %s\n# %s\n%s" % (pid, t["name"], " ".join(cmd_of(t, "/dev/null")), err[:20000]))
            log("harness %s does not compile against the current tree:" % t["name"])
            log("\n".join([l for l in err.splitlines() if "error" in l][:6]))
            violations.append((t, "valid use of the documented interface no longer compiles", r))
    work = tempfile.mkdtemp(dir=BUILD)
    jobs = []
    for t, (b, err) in zip(targets, built):
        if b is None:
            continue
        n = t[tier]
        shards = t.get("shards", NCPU if tier == "thorough" or n >= 64 else 1)
        shards = min(shards, max(1, n))
        for s in range(shards):
            c = n // shards + (1 if s < n % shards else 0)
            if c:
                jobs.append((t, b, c, s))
    jobs.sort(key=lambda j: -j[2] * j[0].get("cost", 1.0) / max(1, j[0][tier]))
    maxcpu = 150 if tier == "quick" else 700
    stop = threading.Event()
    results = []
    procs = set()
    lock = threading.Lock()

    def work_one(j):
        t, b, c, s = j
        if stop.is_set():
            return None
        name = "%s.%d" % (t["name"], s)
        cur, out = os.path.join(work, name + ".cur"), os.path.join(work, name + ".json")
        sd = (seed * 1000003 + s * 7919 + int(hashlib.sha256(t["name"].encode()).hexdigest()[:6], 16)) & 0xffffffffffff
        argv = [b, "--seed", str(sd), "--cases", str(c), "--current", cur, "--out", out, "--maxcpu", str(t.get("maxcpu", maxcpu))]
        errf = open(os.path.join(work, name + ".err"), "w+")
        p = subprocess.Popen(argv, env=ENV, stdout=errf, stderr=subprocess.STDOUT)
        with lock:
            procs.add(p)
        rc = p.wait()
        with lock:
            procs.discard(p)
        errf.seek(0)
        msg = errf.read()
        errf.close()
        if stop.is_set() and rc < 0:
            return None
        if rc == 0:
            st = json.load(open(out))
            os.unlink(cur)
            return ("ok", t, st)
        raw = open(cur, "rb").read().split(b"\0")[0].decode()
        stop.set()
        with lock:
            for q in list(procs):
                try:
                    q.kill()
                except Exception:
                    pass
        return ("fail", t, b, rc, msg, raw, argv)

    if not violations:
        with ThreadPoolExecutor(NCPU) as ex:
            results = [r for r in ex.map(work_one, jobs) if r]
    fails = [r for r in results if r[0] == "fail"]
    notes = []
    for r in fails[:3]:
        _, t, b, rc, msg, raw, argv = r
        log("target %s failed (%s): %s" % (t["name"], BAD.get(rc, "rc %d" % rc), brief(msg)))
        cf = os.path.join(work, "case")
        open(cf, "w").write(raw)
        rcs = [replay_once(b, cf)[0] for _ in range(2)]
        if all(failed(x) for x in rcs):
            P, ops = parse_case(raw)
            P, ops = shrink(b, P, ops, t, 60 if tier == "quick" else 180)
            write_case(cf, P, ops)
            rr = [replay_once(b, cf) for _ in range(3)]
            if not all(failed(x[0]) for x in rr):
                open(cf, "w").write(raw)
                rr = [replay_once(b, cf) for _ in range(3)]
            if all(failed(x[0]) for x in rr):
                text = open(cf).read()
                h = hashlib.sha256(text.encode()).hexdigest()[:10]
                rp = os.path.join(REPLAY, "%s-%s-%s.case" % (pid, t["name"], h))
                m = brief(rr[0][1])
                with open(rp, "w") as f:
                    f.write("# vf-replay case\n# check: %s\n# target: %s\n# failure: %s\n# history: %s\n" % (pid, t["name"], m.replace("\n", " "), describe(b, cf).replace("\n", " | ")))
                    f.write(text)
                    f.write("# output of the run:\n" + "".join("#   " + l + "\n" for l in rr[0][1].splitlines()[:40]))
                violations.append((t, m, rp))
                break
        # not reproducible alone: rerun the whole shard
        p = subprocess.run(argv, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0:
            rp = os.path.join(REPLAY, "%s-%s-shard.txt" % (pid, t["name"]))
            open(rp, "w").write("# vf-replay shard\n# check: %s\n# target: %s\n# failure: %s\nARGS %s\n" % (pid, t["name"], brief(msg).replace("\n", " "), " ".join(argv[1:])))
            violations.append((t, brief(msg), rp))
            break
        notes.append("a failure of %s did not reproduce (rc %s): %s" % (t["name"], rc, brief(msg)))
        log(notes[-1])
    # evidence
    oks = [r for r in results if r[0] == "ok"]
    feat, samples = {}, []
    ev = cases = nt = 0
    trunc = 0
    per = {}
    for _, t, st in oks:
        ev += st["evals"]
        cases += st["cases"]
        nt += st["nontrivial"]
        trunc += 1 if st["truncated"] else 0
        for k, v in st["feat"].items():
            feat[k] = feat.get(k, 0) + v
        per.setdefault(t["name"], [0, 0])
        per[t["name"]][0] += st["cases"]
        per[t["name"]][1] += st["nontrivial"]
        for s in st["samples"]:
            if len(samples) < 12 and sum(1 for x in samples if x.startswith(t["name"] + ": ")) < 2:
                samples.append(t["name"] + ": " + s)
    kf = known_findings(pid)
    evidence = checks.evidence(pid, tier, seed, dict(evaluations=ev, cases=cases, nontrivial=nt, truncated=trunc, features=feat, samples=samples, per_target=per,
                                                      wall=time.time() - t_start, build=t_built - t_start, violations=[dict(target=v[0]["name"], message=v[1], replay=v[2]) for v in violations], notes=notes, known=[k["what"] for k in kf]))
    json.dump(evidence, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    for k in kf:
        log("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    log("%s %s seed=%d: %d cases, %d evaluations, %d distinct non-trivial, build %.0fs, total %.0fs%s" % (pid, tier, seed, cases, ev, nt, t_built - t_start, time.time() - t_start, (" (%d shards cut short by their CPU budget)" % trunc) if trunc else ""))
    if violations:
        for t, m, rp in violations:
            log("failure in %s: %s" % (t["name"], m))
            log("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


def find_target(pid, name):
    for tier in ("thorough", "quick"):
        for t in checks.targets(pid, tier):
            if t["name"] == name:
                return t
    sys.exit("no such target")


def do_replay(path):
    text = open(path).read()
    pid = re.search(r"# check: (\S+)", text).group(1)
    t = find_target(pid, re.search(r"# target: (\S+)", text).group(1))
    b, err = build(t, tree_hash())
    if b is None:
        print(err)
        log("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if text.startswith("# vf-replay shard"):
        argv = re.search(r"^ARGS (.*)$", text, re.M).group(1).split()
        for i, a in enumerate(argv):
            if a in ("--current", "--out"):
                argv[i + 1] = os.path.join(BUILD, "replay" + a)
        p = subprocess.run([b] + argv, env=ENV)
        rc = p.returncode
        out = ""
    else:
        cf = os.path.join(BUILD, "replay.case")
        open(cf, "w").write("\n".join(l for l in text.splitlines() if not l.startswith("#")) + "\n")
        print(describe(b, cf))
        rc, out = replay_once(b, cf)
    print(out)
    if failed(rc):
        log("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("the case passes")
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return do_replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a and a[0] == "--build":
        th = tree_hash()
        for pid in a[1:]:
            ts = checks.targets(pid, tier)
            with ThreadPoolExecutor(NCPU) as ex:
                for t, (b, e) in zip(ts, ex.map(lambda t: build(t, th), ts)):
                    print(t["name"], b or "\n".join([l for l in e.splitlines() if "error" in l or "instantiation of" in l][:12]))
        return 0
    return run_check(a[0], tier, seed)


if __name__ == "__main__":
    sys.exit(main())
