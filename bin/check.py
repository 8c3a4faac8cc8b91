#!/usr/bin/env python3
"""Checks one property of /repo: bin/check.py Cxx [--replay FILE] [--keep]

1. TLC checks the design: the implementation-shaped specification against the
   abstract one (and, where there is a generator, emits test behaviours).
2. The driver is built against /repo's current working tree and executes
   generated and random behaviours on the real code, recording traces.
3. TLC validates every recorded trace against the abstract specification.

Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Exit 2: error.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
from plan import PLAN, ASSUMPTIONS

REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
NCPU = os.cpu_count() or 4
T0 = time.time()


class CheckError(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def goenv():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOENV="off", GOWORK="off")
    return e


def run(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise CheckError("timeout: " + " ".join(map(str, cmd))[:300])
    return p.returncode, out


# ---- TLC ----------------------------------------------------------------------

def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    return str(v)


def tlc(work, module, consts, lines, workers=8, timeout=800, heap="8g", name=None):
    name = name or module
    cfg = os.path.join(work, name + ".cfg")
    with open(cfg, "w") as f:
        if consts:
            f.write("CONSTANTS\n")
            for k, v in consts.items():
                f.write("  %s = %s\n" % (k, tla(v)))
        f.write("\n".join(lines) + "\n")
    meta = os.path.join(work, "meta-" + name)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % (1 if workers == 1 else 4), "-Xss16m", "-Xmx" + heap,
           "-Djava.io.tmpdir=" + work, "-cp",
           "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
           "tlc2.TLC", "-noTE", "-config", cfg, "-workers", str(workers), "-metadir", meta, module + ".tla"]
    rc, out = run(cmd, timeout, cwd=os.path.join(ROOT, "spec"))
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    st = [int(x.replace(",", "")) for x in m[-1]] if m else [0, 0]
    return rc, out, st


def design(work, d, stats):
    mod, consts, invs = d["module"], d[TIER] if TIER in d else d["quick"], d["inv"]
    lines = ["SPECIFICATION Spec"] + ["INVARIANT " + i for i in invs] + ["PROPERTY " + p for p in d.get("prop", [])]
    lines.append("CHECK_DEADLOCK " + ("TRUE" if d.get("deadlock") else "FALSE"))
    name = mod + "-" + hashlib.md5(repr(sorted(map(str, consts.items()))).encode()).hexdigest()[:6]
    rc, out, st = tlc(work, mod, consts, lines, timeout=850, name=name, workers=4 if TIER == "quick" else 8)
    if rc != 0:
        raise CheckError("design check of %s failed:\n%s" % (mod, out[-3000:]))
    log("design", mod, "states", st)
    stats["design"].append({"module": mod, "constants": {k: str(v) for k, v in consts.items()},
                            "invariants": invs, "states": st[1], "transitions": st[0]})
    # the model must be able to fail
    if TIER == "thorough":
        for k, v in d.get("defects", []):
            c2 = dict(d.get("defect_each", {}).get(v) or d.get("defect_consts", d["quick"]))
            c2[k] = v
            rc, out, _ = tlc(work, mod, c2, lines, timeout=850, name=name + "-" + str(v), workers=4)
            if rc == 0 or not re.search(r"is violated|Deadlock reached|violated", out):
                raise CheckError("defect %s=%s of %s is not detected\n%s" % (k, v, mod, out[-2000:]))
            stats["defects"].append("%s:%s=%s" % (mod, k, v))


# ---- the driver -----------------------------------------------------------------

INSTRUMENTED = set()  # kinds of builds that could be instrumented


def build(work, kinds):
    env = goenv()
    h = os.path.join(ROOT, "harness")
    modfile = os.path.join(work, "go.mod")
    with open(os.path.join(h, "go.mod")) as f:
        m = f.read()
    with open(modfile, "w") as f:
        f.write(m.replace("=> /repo", "=> " + REPO))
    bins = {}
    rc, out = run(["go", "build", "-modfile", modfile, "-o", os.path.join(work, "instr"), "./cmd/instr"], 600, cwd=h, env=env)
    if rc != 0:
        raise CheckError("build of instr failed\n" + out)
    for kind in kinds:
        b = os.path.join(work, "drv-" + kind)
        cmd = ["go", "build", "-modfile", modfile, "-o", b]
        overlay = []
        if kind in ("inst", "instrace"):
            od = os.path.join(work, "inst")
            rc = 0
            if not os.path.exists(od):
                os.mkdir(od)
                rc, out = run([os.path.join(work, "instr"), REPO, od], 120, env=env)
                if rc != 0:
                    log("instrumentation failed", out[-2000:])
            if os.path.exists(os.path.join(od, "overlay.json")):
                overlay = ["-overlay", os.path.join(od, "overlay.json")]
        if kind in ("race", "instrace"):
            cmd += ["-race"]
        rc, out = run(cmd + overlay + ["./cmd/drv"], 800, cwd=h, env=env)
        if rc != 0 and overlay:  # code that cannot be instrumented
            log("build of the instrumented driver failed", out[-2000:])
            overlay = []
            rc, out = run(cmd + ["./cmd/drv"], 800, cwd=h, env=env)
        if overlay:
            INSTRUMENTED.add(kind)
        if rc != 0:
            raise CheckError("build of driver (%s) failed\n%s" % (kind, out[-4000:]))
        bins[kind] = b
    return bins


CRASH = re.compile(r"^(panic: |fatal error: |runtime: goroutine stack exceeds|WARNING: DATA RACE)", re.M)


def read_cur(path):
    try:
        with open(path) as f:
            return json.loads(f.readline())
    except Exception:
        return None


def shard_file(work, job, shard):
    return os.path.join(work, "tr-%s-%s-%d.ndjson" % (job["suite"], job.get("build", "inst"), shard))


def run_shard(work, job, bins, cases, shard, nshards, res, seed, only=None):
    """Runs one shard to its end, restarting the driver when it asks for it or crashes."""
    kind = job.get("build", "inst")
    out = shard_file(work, job, shard)
    frm, to = (0, 1 << 30) if only is None else (only, only)
    budget = job.get("budget", {}).get(TIER, 60 if TIER == "quick" else 420)
    end = time.time() + budget
    crashes = 0
    nobig = []
    env = goenv()
    env["GORACE"] = "halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path=" + out + ".race"
    env["GOTRACEBACK"] = "all"

    def cmd(f, t, o, extra=()):
        c = [bins[kind], "-suite", job["suite"], "-seed", str(seed), "-shard", str(shard), "-nshards", str(nshards),
             "-from", str(f), "-to", str(t), "-out", o, "-tier", TIER, "-budget", str(max(1.0, end - time.time())),
             "-procs", str(job.get("procs", 1)), "-prop", res["prop"], "-inst=" + ("true" if kind in INSTRUMENTED else "false")]
        if cases:
            c += ["-cases", cases]
        return c + list(job.get("args", [])) + nobig + list(extra)

    while True:
        rc, o = run(cmd(frm, to, out), budget + 200, env=env)
        m = re.findall(r"^STATS (.*)$", o, re.M)
        if m:
            st = json.loads(m[-1])
            with res["lock"]:
                res["executed"] += st["executed"]
                res["snapshots"] += st["snapshots"]
                res["units"] = max(res["units"], st["total_units"])
                for k, v in st["stats"].items():
                    if k not in ("restart_from", "nobig"):
                        res["stats"][k] = res["stats"].get(k, 0) + v
        if rc == 0 and m:
            break
        if rc == 9 and m:
            frm = st["stats"]["restart_from"]
            if st["stats"].get("nobig"):
                nobig[:] = ["-nobig"]
            res["restarts"] += 1
            continue
        if rc == 5:
            raise CheckError("driver: executions do not become quiet\n" + o[-6000:])
        cur = read_cur(out + ".cur")
        if rc not in (4,) and CRASH.search(o) and ("exascience/pargo" in o or REPO + "/" in o) and cur:
            crashes += 1
            log("shard", shard, "crashed in unit", cur["unit"])
            # again, with a journal, to learn what happened before
            j = out + ".journal"
            rc2, o2 = run(cmd(cur["unit"], cur["unit"], os.path.join(work, "scratch-%d" % shard), ["-journal", j]), budget + 200, env=env)
            ev = []
            cur2 = read_cur(os.path.join(work, "scratch-%d.cur" % shard))
            if rc2 not in (0, 9) and cur2:
                cur = cur2
                with open(j) as f:
                    for line in f:
                        try:
                            ev.append(json.loads(line))
                        except ValueError:
                            break
            with open(out, "a") as f:
                f.write(json.dumps({"id": "%d.%d" % (cur["unit"], cur["run"]), "desc": cur["desc"], "cfg": cur["cfg"],
                                    "ev": ev[:400] + [{"e": "Crash"}], "crash": o[-3000:]}) + "\n")
            if crashes >= 5 or only is not None:
                break
            frm = cur["unit"] + 1
            continue
        raise CheckError("driver failed (%d)\n%s" % (rc, o[-6000:]))
    res["files"].append(out)


def drive(work, job, bins, cases, prop, seed=SEED, only=None):
    res = {"executed": 0, "snapshots": 0, "units": 0, "stats": {}, "restarts": 0, "files": [],
           "lock": threading.Lock(), "prop": prop}
    errs = []

    def one(i, n):
        try:
            run_shard(work, job, bins, cases, i, n, res, seed, only)
        except Exception as e:
            errs.append(e)
            f = shard_file(work, job, i)
            if f not in res["files"] and os.path.exists(f):
                res["files"].append(f)
    n = job.get("shards", NCPU)
    idx = [only % n] if only is not None else range(n)
    ths = [threading.Thread(target=one, args=(i, n)) for i in idx]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    seen, traces = set(), []
    nev = 0
    for fn in sorted(res["files"]):
        if not os.path.exists(fn):
            continue
        with open(fn) as f:
            for line in f:
                try:
                    d = json.loads(line)
                except ValueError:
                    if not errs:
                        raise
                    break
                key = hashlib.sha256(json.dumps([d["cfg"], d["ev"]], sort_keys=True).encode()).digest()
                if key in seen:
                    continue
                seen.add(key)
                d.pop("crash", None)
                traces.append(d)
                nev += len(d["ev"])
        os.unlink(fn)
    res["traces"], res["events"], res["errs"] = traces, nev, errs
    return res


def validate(work, job, prop, traces, stats):
    """Returns the first rejected trace or None. TLC runs on several parts of the traces at once."""
    size = job.get("chunk", 6000)
    weight = sum(len(d["cfg"].get("key", [])) // 20 + len(d["ev"]) for d in traces)
    n = max(1, min(NCPU, len(traces), weight // 3000), (len(traces) + size - 1) // size)
    order = sorted(traces, key=lambda d: -len(d["ev"]) - len(d["cfg"].get("key", [])))
    parts = [order[k::n] for k in range(n)]
    bad, errs = [], []
    lock = threading.Lock()
    todo = list(range(n))

    def one():
        while True:
            with lock:
                if not todo or bad or errs:
                    return
                k = todo.pop(0)
            try:
                d = validate_part(work, job, prop, parts[k], stats, lock, k)
                if d:
                    bad.append(d)
            except Exception as e:
                errs.append(e)
    ths = [threading.Thread(target=one) for _ in range(min(n, NCPU))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if errs and not bad:
        raise errs[0]
    return bad[0] if bad else None


def validate_part(work, job, prop, part, stats, lock, k):
    tf = os.path.join(work, "traces-%s-%d.ndjson" % (job["suite"], k))
    with open(tf, "w") as f:
        for d in part:
            f.write(json.dumps({"id": d["id"], "cfg": d["cfg"], "ev": d["ev"]}) + "\n")
    props = job.get("props", {prop})
    rc, out, st = tlc(work, job["trace"], dict(TraceFile=tf, Props=props, **job.get("consts", {})),
                      ["SPECIFICATION TSpec", "INVARIANT Accepted", "ALIAS Alias", "CHECK_DEADLOCK FALSE"], timeout=850,
                      workers=1, heap="3g", name="%s-%d" % (job["trace"], k))
    os.unlink(tf)
    with lock:
        stats["trace_states"] += st[1]
        stats["trace_transitions"] += st[0]
    if rc == 0:
        return None
    if "Invariant Accepted is violated" not in out:
        raise CheckError("trace validation failed\n" + out[-4000:])
    ids = re.findall(r'id \|-> "([^"]*)"', out) or re.findall(r'id = "([^"]*)"', out)
    ls = re.findall(r"\bl \|-> (\d+)", out) or re.findall(r"/\\ l = (\d+)", out)
    if not ids:
        raise CheckError("cannot find the rejected trace\n" + out[-4000:])
    d = [x for x in part if x["id"] == ids[-1]][0]
    d["rejected_at"] = int(ls[-1]) if ls else None
    return d


def main():
    prop = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    plan = PLAN[prop]
    work = tempfile.mkdtemp(prefix="pargoverif-")
    stats = {"design": [], "defects": [], "trace_states": 0, "trace_transitions": 0}
    violation = None
    samples, jobs_out = [], []
    nvalid = 0
    try:
        if replay:
            rp = json.load(open(replay))
            global SEED, TIER
            SEED, TIER = rp["seed"], rp["tier"]
        errs = []

        def designs():
            try:
                for d in plan.get("design", []):
                    design(work, d, stats)
            except Exception as e:
                errs.append(e)
        dt = threading.Thread(target=designs)
        if not replay and not os.environ.get("VERIF_SKIP_DESIGN"):
            dt.start()
        kinds = sorted({j.get("build", "inst") for j in plan["jobs"]})
        cases = {}

        def gens():
            try:
                for j in plan["jobs"]:
                    if "gen" in j:
                        mod, consts = j["gen"]["module"], j["gen"][TIER]
                        cf = os.path.join(work, mod + ".json")
                        if cf in cases.values():
                            cases[j["suite"]] = cf
                            continue
                        rc, out, _ = tlc(work, mod, dict(OutFile=cf, **consts), [], timeout=600, workers=1)
                        if rc != 0 or not os.path.exists(cf):
                            raise CheckError("case generation failed\n" + out[-3000:])
                        cases[j["suite"]] = cf
            except Exception as e:
                errs.append(e)
        gt = threading.Thread(target=gens)
        gt.start()
        bins = build(work, kinds)
        log("built", kinds)
        gt.join()
        if errs:
            raise errs[0]
        for ji, job in enumerate(plan["jobs"]):
            if replay and rp["job"] != ji:
                continue
            res = drive(work, job, bins, cases.get(job["suite"]), prop, SEED, rp["unit"] if replay else None)
            log(job["suite"], "executed", res["executed"], "distinct", len(res["traces"]), "events", res["events"],
                "units", res["units"], res["stats"])
            if not res["traces"] and res["errs"]:
                raise res["errs"][0]
            if not res["traces"]:
                raise CheckError("nothing was executed")
            # what a driver that was stopped recorded until then counts if it shows a violation
            bad = validate(work, job, prop, res["traces"], stats)
            if res["errs"] and not bad:
                raise res["errs"][0]
            log("validated", stats["trace_states"])
            jobs_out.append({"suite": job["suite"], "build": job.get("build", "inst"), "executions": res["executed"],
                             "distinct_traces": len(res["traces"]), "events": res["events"], "quiescence_snapshots": res["snapshots"],
                             "driver_restarts": res["restarts"], "stats": res["stats"]})
            tr = sorted(({"id": d["id"], "desc": d.get("desc"), "cfg": d["cfg"], "ev": d["ev"][:60]} for d in res["traces"]),
                        key=lambda d: -len(d["ev"]))
            for k in (len(tr) // 2, len(tr) // 5):  # the evidence file stays small
                samples += [d for d in tr[k:k + 50] if len(json.dumps(d)) < 20000][:1]
            nvalid += len(res["traces"])
            if bad:
                os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
                violation = os.path.join(ROOT, "evidence", "replay-%s.json" % prop)
                json.dump({"property": prop, "job": ji, "suite": job["suite"], "seed": SEED, "tier": TIER,
                           "unit": int(bad["id"].split(".")[0]), "rejected_at_event": bad.get("rejected_at"), "trace": bad,
                           "replay_cmd": "python3 bin/check.py %s --replay %s" % (prop, violation)},
                          open(violation, "w"), indent=1)
                break
        if not replay and not violation:
            if dt.is_alive():
                dt.join()
            if errs:
                raise errs[0]
        elif dt.is_alive():
            dt.join()
    except CheckError as e:
        print("CHECK-ERROR property=%s\n%s" % (prop, e), file=sys.stderr)
        sys.exit(2)
    finally:
        if "--keep" in sys.argv:
            log("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": "model_checking",
          "coverage": {"states": stats["trace_states"] + sum(d["states"] for d in stats["design"]),
                       "transitions": stats["trace_transitions"] + sum(d["transitions"] for d in stats["design"]),
                       "traces_validated_against_impl": nvalid, "samples": samples, "design_models": stats["design"],
                       "defective_models_rejected": stats["defects"], "jobs": jobs_out},
          "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - T0, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not replay:
        json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    if violation:
        print("VIOLATION property=%s replay=%s" % (prop, violation), flush=True)
        sys.exit(1)
    print("OK property=%s traces=%d states=%d wall=%.1fs" % (prop, nvalid, ev["coverage"]["states"], time.time() - T0))


main()
