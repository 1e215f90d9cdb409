#!/usr/bin/env python3
"""Runs the check of one property: check.py C01 [--replay FILE] [--secs N] [--only CFG,..]

Builds the configurations of the property from the sources in /repo's working
tree (in a scratch directory), generates cases on all cores, shrinks and
replays the first failure, and writes evidence/<property>.json."""
import atexit, concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
sys.path.insert(0, HERE)
import props

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
NCPU = max(2, min(8, os.cpu_count() or 8))
T0 = time.time()
WRAPS = "-Wl,--wrap=posix_memalign,--wrap=aligned_alloc,--wrap=malloc,--wrap=free,--wrap=realloc,--wrap=mmap,--wrap=sbrk"

scratch = tempfile.mkdtemp(prefix="vf-")
live = set()
lock = threading.Lock()
stopping = False


def cleanup():
    with lock:
        ps = list(live)
    for p in ps:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    shutil.rmtree(scratch, ignore_errors=True)


atexit.register(cleanup)
for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
    signal.signal(s, lambda *_: sys.exit(3))


def sh(cmd, timeout=300, cwd=None, env=None):
    p = subprocess.Popen(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True, cwd=cwd, env=env)
    with lock:
        live.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return -999, out.decode("utf-8", "replace")
    finally:
        with lock:
            live.discard(p)


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


# ------------------------------------------------------------------ building
_src = None
_srclock = threading.Lock()


def source_snapshot():
    """one copy of the working tree's sources; every configuration builds from it"""
    global _src
    with _srclock:
        if _src is None:
            d = os.path.join(scratch, "src")
            os.mkdir(d)
            rc, out = sh("tar -C %s --exclude=./.git --exclude=./_build --exclude=./tests --exclude='*.o' --exclude='*.a' -cf - . | tar -C %s -xf -" % (REPO, d))
            if rc:
                raise SystemExit("cannot copy sources: " + out)
            _src = d
    return _src


def runtime_obj():
    o = os.path.join(scratch, "pbt.o")
    with _srclock:
        if not os.path.exists(o):
            rc, out = sh("gcc -std=gnu11 -O2 -c %s/pbt.c -o %s" % (H, o))
            if rc:
                raise SystemExit("runtime does not compile: " + out)
    return o


class Built:
    def __init__(self, cfg, exe=None, stage=None, out=""):
        self.cfg, self.exe, self.stage, self.out = cfg, exe, stage, out


def build(cfg):
    src, pbt = source_snapshot(), runtime_obj()
    d = os.path.join(scratch, "b-" + cfg.name)
    shutil.copytree(src, d)
    flags = cfg.flags.replace("@H@", H)
    san = " -fsanitize=address -fno-omit-frame-pointer" if cfg.asan else ""
    if cfg.pre:
        rc, out = sh("make -s -C %s %s CC=gcc ECFLAGS=-w" % (d, cfg.pre))
        if rc:
            return Built(cfg, None, "library", out)
    rc, out = sh("make -s -C %s libggggc.a CC='%s' ECFLAGS='-O1 -g -w %s%s%s'" % (d, cfg.cc, flags, san, cfg.lflags))
    if rc or not os.path.exists(d + "/libggggc.a"):
        return Built(cfg, None, "library", out)
    env = dict(d=d, H=H, cc=cfg.cc, flags=flags, san=san, pbt=pbt, hf=cfg.hflags)
    import engines
    return engines.link(cfg, env, sh, Built)


def build_all(names, must=False):
    names = list(dict.fromkeys(names))
    res = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for n, b in zip(names, ex.map(lambda n: build(props.C[n]), names)):
            res[n] = b
    for n, b in res.items():
        if not b.exe:
            # once more, on its own: a build must not fail for want of memory
            shutil.rmtree(os.path.join(scratch, "b-" + n), ignore_errors=True)
            res[n] = b = build(props.C[n])
        if not b.exe:
            log("configuration %s did not build (%s): %s" % (n, b.stage, b.out[-600:]))
    return res


# ------------------------------------------------------------------- running
def runenv():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=0"
    return e


def job_seed(name, profile):
    """every configuration explores cases of its own"""
    return SEED * 1048576 + int(hashlib.sha1((name + "/" + profile).encode()).hexdigest()[:4], 16)


def run_chunk(b, profile, start, count, secs, shrink=25):
    out = os.path.join(scratch, "o-%s-%s-%d.json" % (b.cfg.name, profile, start))
    rc, text = sh([b.exe, "run", "--profile", profile, "--seed", str(job_seed(b.cfg.name, profile)), "--start", str(start), "--count", str(count),
                   "--secs", str(secs), "--shrink", str(shrink), "--out", out], timeout=secs + shrink + 400, env=runenv())
    try:
        with open(out) as f:
            r = json.load(f)
        os.unlink(out)
    except (OSError, ValueError) as e:
        return {"error": "%s (exit %s): %s" % (e, rc, text[-300:])}
    return r


def header(pid, b, profile, why):
    return ("# property %s\n# config %s: cc=%s flags=%s\n# profile %s\n# %s\n# replay: python3 vf/check.py %s --replay <this file>\n"
            % (pid, b.cfg.name, b.cfg.cc, b.cfg.flags, profile, why.replace("\n", " ")[:900], pid))


def write_replay(pid, b, profile, why, ops):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1((b.cfg.name + profile + ops).encode()).hexdigest()[:10]
    f = os.path.join(d, "%s-%s-%s-%s.ops" % (pid, b.cfg.name, profile, h))
    with open(f, "w") as o:
        o.write(header(pid, b, profile, why) + ops.replace(";", "\n").strip() + "\n")
    return f


def replay_file(b, profile, path, times=3):
    bad, text = 0, ""
    for _ in range(times):
        rc, text = sh([b.exe, "replay", path, "--profile", profile, "--wall", "60"], timeout=300, env=runenv())
        if rc == 1:
            bad += 1
    return bad, text


def startup(b):
    """the library starts (static constructors, ggggc_prereqs) and main is reached: None, or what went wrong"""
    why = None
    for k in range(3):
        rc, text = sh([b.exe, "hello"], timeout=20, env=runenv())
        if rc == 0 and "hello" in text:
            return None
        if why is None or rc != -999:
            why = "the program does not finish starting within 20 s, three times" if rc == -999 else "the program dies before main: status %s %s" % (rc, text[-200:])
    return why


def startup_violation(pid, built):
    """a program that only links the library and starts must start"""
    bs = [b for b in built.values() if b.exe]
    bad = []

    def one(b):
        why = None if bad else startup(b)
        if why:
            bad.append((b, why))

    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, bs))
    if bad:
        b, why = bad[0]
        return b, "startup", why, write_replay(pid, b, "startup", why, "START"), {}
    return None


# ------------------------------------------------------------ known findings
def known_findings():
    """lines 'known: property=<id> config=<cfg> profile=<p> replay=<file> what'"""
    res = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) config=(\S+) profile=(\S+) match=/(.*)/ replay=(\S+) (.*)", l.strip())
            if m:
                res.append(dict(zip(("property", "config", "profile", "match", "replay", "what"), m.groups())))
    return res


# ------------------------------------------------------------------ main loop
class Agg:
    def __init__(self):
        self.ran = self.noans = self.ops = 0
        self.hashes = set()
        self.ctr, self.nz = {}, {}
        self.samples = []
        self.jobs = {}
        self.errors = []

    def add(self, job, r):
        self.ran += r["ran"]
        self.noans += r["noanswer"]
        self.ops += r["ops"]
        for h in r["hashes"]:
            self.hashes.add(h)
        for k, (a, n) in r["ctr"].items():
            self.ctr[k] = max(self.ctr.get(k, 0), a) if k.startswith("max_") else self.ctr.get(k, 0) + a
            self.nz[k] = self.nz.get(k, 0) + n
        j = self.jobs.setdefault("%s/%s" % job, {"cases": 0, "nontrivial": 0})
        j["cases"] += r["ran"]
        j["nontrivial"] += r["nontrivial"]
        if r["samples"] and len(self.samples) < 8:
            self.samples.append({"config": job[0], "profile": job[1], "operations": r["samples"][0]})


def evidence(pid, agg, violations, extra=None, explanation=None):
    p = props.P[pid]
    cov = {
        "evaluations": agg.ran,
        "distinct_nontrivial": len(agg.hashes),
        "rule": p["rule"],
        "samples": agg.samples,
        "operations_executed": agg.ops,
        "cases_without_answer": agg.noans,
        "configurations": agg.jobs,
        "classification": {k: {"total": v, "cases_with": agg.nz[k]} for k, v in agg.ctr.items() if v},
    }
    if agg.errors:
        cov["errors"] = agg.errors[:10]
    if extra:
        cov.update(extra)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": TIER, "seed": SEED, "level": "exploration", "coverage": cov,
                   "assumptions": p.get("assumptions", props.ASSUME), "wall_s": round(time.time() - T0, 2),
                   "violations": violations}, f, indent=1)


def explore(pid, built, agg, cases, secs_limit):
    """the queue of chunks; returns the first confirmed violation (b, profile, why, replay path)"""
    p = props.P[pid]
    jobs = [(n, prof, w) for n, prof, w in p["jobs"] if built[n].exe]
    if not jobs:
        return None
    tot = sum(w for _, _, w in jobs)
    CH = p.get("chunk", 125)
    queue, starts = [], {}
    per = [(n, prof, max(1, int(cases * w / tot / CH + .5))) for n, prof, w in jobs]
    rounds = max(k for _, _, k in per)
    for r in range(rounds):
        for n, prof, k in per:
            # spread a job's chunks over the rounds
            if (r * k) // rounds != ((r + 1) * k) // rounds or (r == 0 and k == 1):
                s = starts.get((n, prof), 0)
                starts[(n, prof)] = s + CH
                queue.append((n, prof, s))
    found, suspicious = [], []
    end = time.time() + secs_limit
    known = [k for k in known_findings() if k["property"] == pid]

    def work(item):
        n, prof, s = item
        if found or time.time() > end:
            return
        r = run_chunk(built[n], prof, s, CH, max(5, end - time.time()))
        with lock:
            if "error" in r:
                agg.errors.append("%s/%s: %s" % (n, prof, r["error"]))
                return
            agg.add((n, prof), r)
        if not r["violated"]:
            return
        for k in known:
            if k["config"] in (n, "*") and k["profile"] in (prof, "*") and re.search(k["match"], r["why"]):
                return
        f = write_replay(pid, built[n], prof, r["why"], r["replay"])
        bad, text = replay_file(built[n], prof, f)
        with lock:
            if bad == 3:
                found.append((built[n], prof, r["why"], f, r))
            else:
                suspicious.append((n, prof, r["why"], bad))
                agg.errors.append("not reproduced (%d of 3): %s/%s case %s: %s" % (bad, n, prof, r.get("case"), r["why"]))
                try:
                    os.unlink(f)
                except OSError:
                    pass

    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(work, queue))
    return found[0] if found else None


def main():
    args = sys.argv[1:]
    if not args or args[0] == "--setup":
        for t in ("gcc", "g++", "clang", "make", "ar", "tar"):
            if not shutil.which(t):
                print("missing tool:", t)
                return 2
        return 0
    pid = args[0]
    p = props.P[pid]
    opt = dict(zip(args[1::2], args[2::2]))
    if "--replay" in opt:
        path = opt["--replay"]
        head = open(path).read()
        name = re.search(r"# config (\S+?):", head).group(1)
        prof = re.search(r"# profile (\S+)", head).group(1)
        if "special" in p:
            import special
            if hasattr(special, p["special"] + "_replay"):
                return getattr(special, p["special"] + "_replay")(sys.modules[__name__], pid, path, name)
        b = build_all([name])[name]
        if not b.exe:
            return 2
        if prof == "startup":
            text = startup(b)
            bad = text is not None
        else:
            bad, text = replay_file(b, prof, path, 1)
        print(text)
        if bad:
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1 if bad else 0
    if "--only" in opt:
        only = opt["--only"].split(",")
        p["jobs"] = [j for j in p["jobs"] if j[0] in only]
    agg = Agg()
    for k in known_findings():
        if k["property"] == pid:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    cases = p["cases"] * (1 if TIER == "quick" else p.get("thorough_x", 40))
    secs = float(opt.get("--secs", p.get("secs", 100) if TIER == "quick" else 720))
    if "special" in p:
        import special
        return getattr(special, p["special"])(sys.modules[__name__], pid, p, agg, cases, secs)
    built = build_all([n for n, _, _ in p["jobs"]])
    nb = sum(1 for b in built.values() if b.exe)
    log("built %d of %d configurations" % (nb, len(built)))
    if not nb:
        evidence(pid, agg, 0)
        print("no configuration could be built")
        return 2
    for n, b in built.items():
        if not b.exe:
            agg.errors.append("configuration %s not built (%s)" % (n, b.stage))
    v = startup_violation(pid, built) or explore(pid, built, agg, cases, secs)
    return finish(pid, agg, v)


def finish(pid, agg, v, extra=None):
    evidence(pid, agg, 1 if v else 0, extra)
    for e in agg.errors[:5]:
        log("note:", e)
    log("%s: %d cases, %d distinct non-trivial, %d operations, %d without answer" % (pid, agg.ran, len(agg.hashes), agg.ops, agg.noans))
    if v:
        b, prof, why, f, r = v
        log("config %s, profile %s: %s" % (b.cfg.name, prof, why))
        print("VIOLATION property=%s replay=%s" % (pid, f))
        return 1
    if not agg.ran or not agg.hashes:
        print("nothing was explored")
        return 2
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
