"""Checks whose driver differs from the plain 'explore every configuration' loop."""
import concurrent.futures as cf, json, os, re, shutil, time
import props


def _build_violation(ck, pid, b):
    d = os.path.join(ck.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%s-%s-build.txt" % (pid, b.cfg.name))
    with open(f, "w") as o:
        o.write("# property %s\n# config %s: cc=%s flags=%s\n# profile build\n# stage %s\n" % (pid, b.cfg.name, b.cfg.cc, b.cfg.flags, b.stage))
        o.write(b.out[-6000:])
    return f


def _only_build(ck, name):
    b = ck.build(props.C[name])
    shutil.rmtree(os.path.join(ck.scratch, "b-" + name), ignore_errors=True)
    return b


def digests(ck, b, start, count, seed, secs):
    rc, out = ck.sh([b.exe, "digest", "--profile", "digest", "--seed", str(seed), "--start", str(start), "--count", str(count), "--secs", str(secs)],
                    timeout=secs + 200, env=ck.runenv())
    res = {}
    for l in out.splitlines():
        m = re.match(r"(\d+) (\d) ([0-9a-f]{16}) ([0-9a-f]{16}) (\d) ?(.*)$", l)
        if m:
            res[int(m.group(1))] = (int(m.group(2)), m.group(3), m.group(4), int(m.group(5)), m.group(6))
    return res


def digest_file(ck, b, path):
    rc, out = ck.sh([b.exe, "digestfile", path, "--profile", "digest"], timeout=300, env=ck.runenv())
    m = re.match(r"(\d) ([0-9a-f]{16}) ?(.*)", out)
    return (int(m.group(1)), m.group(2), m.group(3)) if m else (2, "", out)


def tiny(why):
    """the debugging aid that ends a program which outgrows it is not comparable beyond that point"""
    return "tiny heap" in why


def differs(ck, base, other, path):
    a = digest_file(ck, base, path)
    b = digest_file(ck, other, path)
    if a[0] == 2 or b[0] == 2 or tiny(a[2]) or tiny(b[2]):
        return None
    if a[0] == 0 and b[0] == 0 and a[1] != b[1]:
        return "digest %s under %s, %s under %s" % (a[1], base.cfg.name, b[1], other.cfg.name)
    if (a[0] == 1) != (b[0] == 1):
        return "%s: %s" % (base.cfg.name if a[0] else other.cfg.name, a[2] if a[0] else b[2])
    return None


def shrink(ck, base, other, ops, path, budget):
    end = time.time() + budget

    def bad(l):
        with open(path, "w") as f:
            f.write("\n".join(l) + "\n")
        return differs(ck, base, other, path)
    n = 2
    while len(ops) > 1 and time.time() < end:
        size = max(1, len(ops) // n)
        hit = False
        i = 0
        while i < len(ops) and time.time() < end:
            t = ops[:i] + ops[i + size:]
            if t and bad(t):
                ops, hit = t, True
            else:
                i += size
        if not hit:
            if size == 1:
                break
            n = min(len(ops), n * 2)
    return ops


def c03(ck, pid, p, agg, cases, secs):
    names = [n for n, _, _ in p["jobs"]] + props.random_configs(ck.SEED, p["random"] if ck.TIER == "quick" else 8 * p["random"])
    built = ck.build_all(names)
    ck.log("built %d of %d configurations" % (sum(1 for b in built.values() if b.exe), len(built)))
    for n in names:
        if not built[n].exe:
            f = _build_violation(ck, pid, built[n])
            ck.evidence(pid, agg, 1, {"configurations_built": len(built)})
            ck.log("configuration %s does not build (%s)" % (n, built[n].stage))
            print("VIOLATION property=%s replay=%s" % (pid, f))
            return 1
    matrix = props.compile_matrix(ck.SEED, 1 if ck.TIER == "quick" else 5)
    with cf.ThreadPoolExecutor(ck.NCPU) as ex:
        for n, b in zip(matrix, ex.map(lambda n: _only_build(ck, n), matrix)):
            if not b.exe:
                b = _only_build(ck, n)
            if not b.exe:
                f = _build_violation(ck, pid, b)
                ck.evidence(pid, agg, 1, {"configurations_built": len(built)})
                ck.log("configuration %s does not build (%s): %s %s" % (n, b.stage, b.cfg.cc, b.cfg.flags))
                print("VIOLATION property=%s replay=%s" % (pid, f))
                return 1
    ck.log("built %d more, not to be run" % len(matrix))
    v = ck.startup_violation(pid, built)
    if v:
        return ck.finish(pid, agg, v, {"configurations_built": len(built)})
    base = built[names[0]]
    seed = ck.job_seed("all", "digest")
    end = time.time() + secs
    CH = 40
    per = max(CH, cases // len(names))
    skipped = compared = 0
    viol = None
    with cf.ThreadPoolExecutor(ck.NCPU) as ex:
        for s in range(0, per, CH):
            left = end - time.time()
            if left < 1:
                break
            res = dict(zip(names, ex.map(lambda n: digests(ck, built[n], s, CH, seed, left), names)))
            for i in range(s, s + CH):
                ref = res[names[0]].get(i)
                for n in names:
                    r = res[n].get(i)
                    if r is None:
                        agg.errors.append("case %d under %s: no answer" % (i, n))
                        continue
                    agg.ran += 1
                    j = agg.jobs.setdefault(n, {"cases": 0, "nontrivial": 0})
                    j["cases"] += 1
                    if r[0] == 2:
                        agg.noans += 1
                        continue
                    if tiny(r[4]):
                        skipped += 1
                        continue
                    if r[3]:
                        agg.hashes.add(n + r[2])
                        j["nontrivial"] += 1
                    bad = None
                    if r[0] == 1:
                        bad = r[4]
                    elif ref and ref[0] == 0:
                        compared += 1
                        if r[1] != ref[1]:
                            bad = "digest %s, under %s %s" % (r[1], names[0], ref[1])
                    if bad and not viol:
                        viol = (n, i, bad, r[0] == 1)
            if len(agg.samples) < 3:
                rc, out = ck.sh([base.exe, "gen", "--profile", "digest", "--seed", str(seed), "--start", str(s), "--count", "1"])
                agg.samples.append({"case": s, "digest": res[names[0]].get(s, ("", ""))[1], "operations": out[:1500]})
            if viol:
                break
    extra = {"configurations_built": len(built), "configurations_built_only": len(matrix), "digest_comparisons": compared, "stopped_by_tiny_heap": skipped}
    if viol:
        n, i, why, single = viol
        b = built[n]
        rc, out = ck.sh([base.exe, "gen", "--profile", "digest", "--seed", str(seed), "--start", str(i), "--count", "1"])
        ops = [l for l in out.splitlines() if l and l[0] != "#"]
        path = os.path.join(ck.scratch, "c03.ops")
        with open(path, "w") as f:
            f.write("\n".join(ops) + "\n")
        if single:
            bad3 = sum(ck.replay_file(b, "digest", path, 1)[0] for _ in range(3)) == 3
        else:
            bad3 = all(differs(ck, base, b, path) for _ in range(3))
        if bad3:
            if single:
                t0 = time.time() + 40
                k = max(1, len(ops) // 2)
                while time.time() < t0:
                    hit, q = False, 0
                    while q < len(ops) and time.time() < t0:
                        t = ops[:q] + ops[q + k:]
                        with open(path, "w") as f:
                            f.write("\n".join(t) + "\n")
                        if t and ck.replay_file(b, "digest", path, 1)[0]:
                            ops, hit = t, True
                        else:
                            q += k
                    if not hit and k == 1:
                        break
                    if not hit:
                        k = max(1, k // 2)
            else:
                ops = shrink(ck, base, b, ops, path, 40)
            f = ck.write_replay(pid, b, "digest", why + (" (compare with %s)" % base.cfg.name if not single else ""), ";".join(ops))
            ck.evidence(pid, agg, 1, extra)
            ck.log("config %s, case %d: %s" % (n, i, why))
            print("VIOLATION property=%s replay=%s" % (pid, f))
            return 1
        agg.errors.append("not reproduced: %s case %d: %s" % (n, i, why))
    return ck.finish(pid, agg, None, extra)


def c03_replay(ck, pid, path, name):
    """a replay is compared between its configuration and the first one"""
    head = open(path).read()
    names = [n for n, _, _ in props.P[pid]["jobs"]]
    m = re.search(r"# config (\S+): cc=(\S+) flags=(.*)", head)
    if name not in props.C:
        props.add(name, m.group(3), cc=m.group(2))
    built = ck.build_all([names[0], name])
    if not built[name].exe:
        print(built[name].out[-2000:])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if "# profile build" in head:
        print("builds now")
        return 0
    if "# profile startup" in head:
        why = ck.startup(built[name])
        print(why or "starts now")
        if why:
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1 if why else 0
    r = digest_file(ck, built[name], path)
    d = r[2] if r[0] == 1 else differs(ck, built[names[0]], built[name], path)
    print(d or "held")
    if d:
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1 if d else 0
