#!/usr/bin/env python3
"""Runner of the GTMesh model-checking harnesses.

  run.py <ID> [--tier quick|thorough]   decide one property against /repo's working tree
  run.py --replay FILE                  replay one recorded counterexample
  run.py --setup                        check that the tools are there

Exit codes: 0 held on everything explored, 1 violation (a VIOLATION line on stdout), 2 no answer.
"""
import array, hashlib, json, os, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GTMESH_REPO", "/repo")          # overridden only by hand, for experiments on scratch copies
SRC = os.path.join(REPO, "src")
HARN = os.path.join(VERIF, "harness")
BUILD = os.environ.get("GTMESH_BUILD", os.path.join(VERIF, "build"))
NCPU = max(1, min(8, os.cpu_count() or 1))

sys.path.insert(0, VERIF)
from registry import PROPS  # noqa: E402

BASE_FLAGS = ["-std=c++14", "-O1", "-g1", "-w", "-include", "array",
              "-fsanitize=address,undefined", "-fno-sanitize=alignment,null,nonnull-attribute,pointer-overflow,vptr",
              "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
              "-I", SRC, "-I", os.path.join(SRC, "GTMesh"), "-I", HARN]


# units with "race": instrumented for the runtime of harness/race_rt.cpp instead of the sanitizers (see race.h)
RACE_FLAGS = ["-std=c++14", "-O1", "-g1", "-w", "-include", "array", "-DUNDEBUG", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
              "-I", SRC, "-I", os.path.join(SRC, "GTMesh"), "-I", HARN]
RACE_LINK = ["-Wl,--wrap=" + f for f in ("pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_once rand srand strtok snprintf "
             "vsnprintf sprintf strlen memcmp memcpy memmove memset").split()] + ["-rdynamic", "-lpthread", "-ldl"]


def tree_hash():
    h = hashlib.sha256()
    for root in (SRC,):
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\1")
    return h.hexdigest()[:20]


def unit_name(u):
    return u["src"].replace(".cpp", "") + ("-" + u["tag"] if u.get("tag") else "")


def build(unit, outdir):
    exe = os.path.join(outdir, unit_name(unit))
    flags = list(RACE_FLAGS if unit.get("race") else BASE_FLAGS)
    if unit.get("std"):
        flags[0] = "-std=" + unit["std"]
    flags += unit.get("flags", [])
    h = hashlib.sha256(json.dumps(flags).encode())
    for f in sorted(os.listdir(HARN)):
        if f.endswith(".h") or f == unit["src"] or (unit.get("race") and f == "race_rt.cpp"):
            with open(os.path.join(HARN, f), "rb") as fh:
                h.update(f.encode() + b"\0" + fh.read())
    key = h.hexdigest()[:10]
    exe += "-" + key
    if os.path.exists(exe):
        return exe, ""
    src = os.path.join(HARN, unit["src"])
    if unit.get("race"):
        cmds = [["g++", "-fsanitize=thread"] + flags + ["-c", src, "-o", exe + ".o"],
                ["g++"] + flags + ["-c", os.path.join(HARN, "race_rt.cpp"), "-o", exe + ".rt.o"],
                ["g++", exe + ".o", exe + ".rt.o", "-o", exe + ".tmp"] + RACE_LINK]
    else:
        cmds = [["g++"] + flags + [src, "-o", exe + ".tmp"]]
    for cmd in cmds:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            return None, " ".join(cmd) + "\n" + p.stdout[-6000:]
    os.rename(exe + ".tmp", exe)
    return exe, ""


def die_with_parent():
    try:
        import ctypes
        ctypes.CDLL("libc.so.6").prctl(1, signal.SIGKILL)   # PR_SET_PDEATHSIG
    except Exception:
        pass


def env_for(scratch):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:malloc_context_size=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:hard_rss_limit_mb=3000:detect_stack_use_after_return=0:log_path=%s/asan" % scratch
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=78:log_path=%s/asan" % scratch
    e["MC_SCRATCH"] = scratch
    return e


def read_progress(path):
    try:
        with open(path, "rb") as f:
            b = f.read(32 + 4 * 4096)
        magic, counter, group, ln = struct.unpack_from("<QQQQ", b, 0)
        ch = struct.unpack_from("<%di" % min(ln, 4096), b, 32)
        return counter, group, list(ch)
    except Exception:
        return 0, 0, []


def asan_log(scratch):
    t = ""
    for f in sorted(os.listdir(scratch)):
        if f.startswith("asan"):
            with open(os.path.join(scratch, f), errors="replace") as fh:
                t += fh.read()[:3000]
    return t


def crash_reason(rc, log):
    for line in log.splitlines():
        if "ERROR: AddressSanitizer" in line or "runtime error" in line or "hard rss limit" in line:
            return line.strip()[:300]
    if rc < 0:
        try:
            return "killed by " + signal.Signals(-rc).name
        except ValueError:
            return "killed by signal %d" % -rc
    return "the process ended with exit code %d inside the case" % rc


class Job:
    def __init__(self, exe, unit, shard, shards, thorough, work, skips=()):
        self.exe, self.unit, self.shard, self.shards = exe, unit, shard, shards
        self.scratch = tempfile.mkdtemp(prefix="s", dir=work)
        self.out = os.path.join(self.scratch, "out.json")
        self.prog = os.path.join(self.scratch, "progress")
        self.args = [exe, "--shard", str(shard), str(shards), "--out", self.out, "--progress", self.prog]
        if thorough:
            self.args.append("--thorough")
        for s in skips:
            self.args += ["--skip", s]
        self.p = None

    def start(self):
        cwd = os.path.join(self.scratch, "cwd")
        os.mkdir(cwd)
        self.stdout = open(os.path.join(self.scratch, "stdout"), "wb")
        self.p = subprocess.Popen(self.args, cwd=cwd, stdin=subprocess.DEVNULL, stdout=self.stdout,
                                  stderr=subprocess.DEVNULL, env=env_for(self.scratch), start_new_session=True, preexec_fn=die_with_parent)
        self.last, self.t_last = -1, time.time()

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()


def replay_case(exe, group, choices, thorough, work, limit):
    """-> (status, text): status pass | fail:<key> | crash | hang | internal"""
    scratch = tempfile.mkdtemp(prefix="r", dir=work)
    cwd = os.path.join(scratch, "cwd")
    os.mkdir(cwd)
    args = [exe] + (["--thorough"] if thorough else []) + ["--replay", group, ",".join(map(str, choices))]
    err = open(os.path.join(scratch, "stderr"), "wb")
    p = subprocess.Popen(args, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=err,
                         env=env_for(scratch), start_new_session=True, preexec_fn=die_with_parent)
    err.close()
    try:
        so, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        shutil.rmtree(scratch, ignore_errors=True)
        return "hang", "no progress within %d s" % limit
    so = so.decode(errors="replace")
    log = asan_log(scratch)
    with open(os.path.join(scratch, "stderr"), "rb") as fh:        # UBSan writes there whatever log_path says
        fh.seek(max(0, os.path.getsize(os.path.join(scratch, "stderr")) - 6000))
        tail = fh.read().decode(errors="replace")
    if "runtime error" in tail:
        log += tail[max(0, tail.rfind("\n", 0, tail.find("runtime error"))):]
    shutil.rmtree(scratch, ignore_errors=True)
    for line in so.splitlines():
        if line.startswith("FAIL ") and p.returncode == 1:
            parts = line.split(" ", 2)
            return "fail:" + parts[1], (parts[2] if len(parts) > 2 else "")
        if line.startswith("INTERNAL"):
            return "internal", line
    if p.returncode == 0:
        return "pass", so.strip()[-2000:]
    return "crash", crash_reason(p.returncode, log) + "\n" + log[:2500]


def list_groups(exe, work):
    scratch = tempfile.mkdtemp(prefix="l", dir=work)
    r = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env_for(scratch), cwd=scratch)
    return [l for l in r.stdout.splitlines() if l]


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid and k.get("status") == "open"]


def check(pid, tier):
    t0 = time.time()
    prop = PROPS[pid]
    thorough = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    outdir = os.path.join(BUILD, tree_hash())
    os.makedirs(outdir, exist_ok=True)
    # keep the build directory small: drop builds of other trees
    for d in os.listdir(BUILD):
        full = os.path.join(BUILD, d)
        if d != os.path.basename(outdir) and os.path.isdir(full) and not d.startswith("work") and time.time() - os.path.getmtime(full) > 7200:
            shutil.rmtree(full, ignore_errors=True)
    units = [u for u in prop["units"] if thorough or not u.get("thorough_only")]
    with ThreadPoolExecutor(NCPU) as ex:
        built = list(ex.map(lambda u: build(u, outdir), units))
    broken = []
    for u, (exe, err) in zip(units, built):
        if exe is None:
            print("%s: harness %s does not build against %s:\n%s" % (pid, unit_name(u), SRC, err))
            lines = [l for l in err.splitlines() if " error: " in l]
            if not lines or "internal compiler error" in err or "Killed" in err:
                print("ERROR: the compiler failed")
                return 2
            # the harnesses use the public interface only: an interface that no longer compiles is a violation of its own
            broken.append(dict(unit=unit_name(u), exe=None, group="build", choices=[], key="build/does-not-compile",
                               msg="the public interface the property is about no longer compiles: " + lines[0], thorough=thorough))
    t_build = time.time() - t0
    work = tempfile.mkdtemp(prefix="work", dir=BUILD)
    try:
        ok = [(u, b[0]) for u, b in zip(units, built) if b[0]]
        return explore(pid, prop, tier, seed, [u for u, _ in ok], [e for _, e in ok], work, t0, t_build, broken)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def explore(pid, prop, tier, seed, units, exes, work, t0, t_build, broken):
    thorough = tier == "thorough"
    hang_s = prop.get("hang_s", 45)
    pending = []
    for u, exe in zip(units, exes):
        n = u.get("shards", NCPU)
        pending += [Job(exe, u, i, n, thorough, work) for i in range(n)]
    # longest units first is not known; interleave shards of different units
    running, done, problems = [], [], list(broken)     # problems: dict(exe, unit, group, choices, key, msg)
    internal = []
    groups_of = {}
    while pending or running:
        while pending and len(running) < NCPU:
            j = pending.pop(0)
            j.start()
            running.append(j)
        time.sleep(0.05)
        for j in list(running):
            rc = j.p.poll()
            hung = False
            if rc is None:
                cnt = read_progress(j.prog)
                if cnt != j.last:
                    j.last, j.t_last = cnt, time.time()
                    continue
                elif time.time() - j.t_last > hang_s:
                    j.kill()
                    hung = True
                else:
                    continue
            running.remove(j)
            j.stdout.close()
            if rc == 0 and os.path.exists(j.out):
                done.append(j)
                continue
            so = open(os.path.join(j.scratch, "stdout"), errors="replace").read()
            if "INTERNAL" in so and rc == 3:
                internal.append("%s shard %d: %s" % (unit_name(j.unit), j.shard, so[-500:]))
                continue
            cnt, gi, ch = read_progress(j.prog)
            if j.exe not in groups_of:
                groups_of[j.exe] = list_groups(j.exe, work)
            gname = groups_of[j.exe][gi] if gi < len(groups_of[j.exe]) else "?"
            if hung and any(p["key"] == gname + "/hang" and p["exe"] == j.exe for p in problems):
                continue                        # the same group already hangs, confirmed
            else:
                st, txt = replay_case(j.exe, gname, ch, thorough, work, 3 * hang_s)
            if st in ("crash", "hang") or st.startswith("fail:"):
                key = st[5:] if st.startswith("fail:") else gname + "/" + st
                problems.append(dict(unit=unit_name(j.unit), exe=j.exe, group=gname, choices=ch, key=key, msg=txt, thorough=thorough))
            elif hung:
                internal.append("%s shard %d made no progress for %d s in %s [%s], but the case alone ends in time" % (unit_name(j.unit), j.shard, hang_s, gname, ch))
            else:
                # not reproduced alone: the whole shard again
                log = asan_log(j.scratch)
                k = Job(j.exe, j.unit, j.shard, j.shards, thorough, work)
                k.start()
                try:
                    rc2 = k.p.wait(timeout=600)
                except subprocess.TimeoutExpired:
                    k.kill()
                    rc2 = -9
                k.stdout.close()
                cnt2, gi2, ch2 = read_progress(k.prog)
                if rc2 == 0 and os.path.exists(k.out):
                    internal.append("%s shard %d crashed once (%s) at %s %s and did not crash again" % (unit_name(j.unit), j.shard, crash_reason(rc, log), gname, ch))
                elif (gi2, ch2) == (gi, ch):
                    problems.append(dict(unit=unit_name(j.unit), exe=j.exe, group=gname, choices=ch, key=gname + "/crash",
                                         msg="crash that depends on the earlier cases of the shard: " + crash_reason(rc, log), thorough=thorough,
                                         shard=[j.shard, j.shards]))
                else:
                    internal.append("%s shard %d crashes at different cases" % (unit_name(j.unit), j.shard))
    # merge
    tot = dict(traces=0, transitions=0, choice_points=0, fail_count=0)
    states, outcomes, samples, counters, maxdepth = set(), set(), [], {}, 0
    for j in done:
        with open(j.out) as f:
            r = json.load(f)
        for k in tot:
            tot[k] += r[k]
        maxdepth = max(maxdepth, r["max_depth"])
        for k, v in r["counters"].items():
            kk = unit_name(j.unit) + ":" + k.split(":", 1)[1]
            counters[kk] = counters.get(kk, 0) + v
        for ext, s in ((".states", states), (".outcomes", outcomes)):
            a = array.array("Q")
            with open(j.out + ext, "rb") as f:
                a.frombytes(f.read())
            s.update(a)
        samples += r["samples"]
        for fl in r["failures"]:
            if any(p["key"] == fl["key"] and p["unit"] == unit_name(j.unit) for p in problems):
                continue
            ch = [int(x) for x in fl["choices"].split(",") if x]
            g = fl["key"].split("/")[0]
            st, txt = replay_case(j.exe, g, ch, thorough, work, 3 * hang_s)
            pr = dict(unit=unit_name(j.unit), exe=j.exe, group=g, choices=ch, key=fl["key"], msg=fl["msg"], thorough=thorough)
            if st.startswith("fail:") or st in ("crash", "hang"):
                problems.append(pr)
            else:
                # depends on earlier cases of the shard: run the shard again
                k = Job(j.exe, j.unit, j.shard, j.shards, thorough, work)
                k.start()
                try:
                    k.p.wait(timeout=600)
                except subprocess.TimeoutExpired:
                    k.kill()
                k.stdout.close()
                again = False
                if os.path.exists(k.out):
                    with open(k.out) as f:
                        again = any(x["key"] == fl["key"] and x["choices"] == fl["choices"] for x in json.load(f)["failures"])
                if again:
                    pr["shard"] = [j.shard, j.shards]
                    problems.append(pr)
                else:
                    internal.append("%s: failure %s is not reproducible: %s" % (unit_name(j.unit), fl["key"], fl["msg"]))
    known = load_known(pid)
    viol, found = [], []
    seen = set()
    for p in problems:
        if (p["unit"], p["key"]) in seen:
            continue
        seen.add((p["unit"], p["key"]))
        k = next((k for k in known if k["key"] == p["key"]), None)
        if k:
            if k not in found:
                found.append(k)
        else:
            viol.append(p)
    # counterexample files
    rdir = os.path.join(VERIF, "replay")
    os.makedirs(rdir, exist_ok=True)
    for i, p in enumerate(viol):
        path = os.path.join(rdir, "%s-%d.json" % (pid, i))
        with open(path, "w") as f:
            json.dump({"property": pid, "unit": p["unit"], "group": p["group"], "choices": p["choices"], "key": p["key"],
                       "message": p["msg"], "tier": tier, "shard": p.get("shard"),
                       "replay_cmd": "python3 run.py --replay " + os.path.relpath(path, VERIF)}, f, indent=1)
        p["path"] = path
    # evidence
    kinds = samples[:: max(1, len(samples) // 12)][:14]
    cov = {"states": len(states), "transitions": tot["transitions"], "traces_validated_against_impl": tot["traces"],
           "samples": kinds, "exhaustive": not internal and not viol, "distinct_outcomes": len(outcomes),
           "choice_points": tot["choice_points"], "max_choices_per_trace": maxdepth, "traces_per_group": counters,
           "bounds": prop["bounds"][tier] if isinstance(prop["bounds"], dict) else prop["bounds"],
           "validation": "every explored trace is an execution of the real headers in /repo/src, compared step by step with the reference model",
           "build_s": round(t_build, 1)}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "wall_s": round(time.time() - t0, 2)}
    if found:
        ev["coverage"]["known_findings_seen"] = [k["key"] for k in found]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d traces, %d transitions, %d states, %d distinct outcomes, build %.1fs, total %.1fs" %
          (pid, tier, tot["traces"], tot["transitions"], len(states), len(outcomes), t_build, time.time() - t0))
    for k in found:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for m in internal:
        print("ERROR: " + m)
    for p in viol:
        print("VIOLATION property=%s replay=%s" % (pid, p["path"]))
        print("  %s :: %s" % (p["key"], p["msg"][:1500].replace("\n", "\n  ")))
    if viol:
        return 1
    if internal:
        return 2
    if tot["traces"] == 0:
        print("ERROR: nothing was explored")
        return 2
    return 0


def do_replay(path):
    with open(path) as f:
        r = json.load(f)
    prop = PROPS[r["property"]]
    outdir = os.path.join(BUILD, tree_hash())
    os.makedirs(outdir, exist_ok=True)
    u = next(u for u in prop["units"] if unit_name(u) == r["unit"])
    exe, err = build(u, outdir)
    if exe is None:
        print(err)
        return 1 if r["group"] == "build" else 2
    if r["group"] == "build":
        print("pass: the harness compiles")
        return 0
    work = tempfile.mkdtemp(prefix="work", dir=BUILD)
    try:
        st, txt = replay_case(exe, r["group"], r["choices"], r["tier"] == "thorough", work, 300)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print(st)
    print(txt)
    return 0 if st == "pass" else 1


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        for t in ("g++", "python3"):
            if not shutil.which(t):
                print("missing tool " + t)
                return 2
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        print("setup ok")
        return 0
    if a and a[0] == "--replay":
        return do_replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if not a or a[0] not in PROPS:
        print("unknown property; known: " + " ".join(sorted(PROPS)))
        return 2
    return check(a[0], tier)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception as e:  # never a traceback exit code that could be read as a verdict
        import traceback
        traceback.print_exc()
        print("ERROR: %s" % e)
        rc = 2
    sys.exit(rc)
