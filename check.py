#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE] [--only SCENARIO] [--keep-going]

Builds the harness of property ID from /repo's current working tree, explores the bounded
space of every scenario on the real code, and writes evidence/ID.json.

Exit 0: the property held on everything explored. Exit 1 (with a VIOLATION line): it is
broken. Anything else: the check itself failed."""

import array
import json
import mmap
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
sys.path.insert(0, VERIF)
from registry import PROPS  # noqa: E402

JOBS = int(os.environ.get("MC_JOBS", "8"))
BASE_FLAGS = ["-std=c++20", "-g1", "-pthread", "-fconstexpr-ops-limit=100000000", "-w",
              "-I" + VERIF + "/mc/config", "-I" + REPO + "/src", "-I" + VERIF + "/mc"]
STALL_S = 40       # no progress for this long: suspected hang
HANG_REPLAY_S = 90  # the suspected execution, alone


def log(*a):
    print(*a, flush=True)


class BuildError(Exception):
    pass


def build(pid, spec, tier):
    bdir = f"{VERIF}/build/{pid}"
    os.makedirs(bdir, exist_ok=True)
    env = dict(os.environ)
    cc = [spec.get("cxx", "g++")]
    if shutil.which("ccache") and not os.environ.get("MC_NO_CCACHE"):
        env["CCACHE_DIR"] = VERIF + "/build/ccache"
        env["CCACHE_MAXSIZE"] = "3G"
        cc = ["ccache"] + cc
    san = {"": [], "address": ["-fsanitize=address", "-fno-omit-frame-pointer", "-DARCHON_ASAN=1"],
           "undefined": ["-fsanitize=undefined", "-fno-sanitize-recover=all"],
           "thread": ["-fsanitize=thread"],
           # Instrumented, but linked against scheduler and race detector of mc/sched.cpp
           "sched": ["-fsanitize=thread"]}
    bins = []
    tasks = []
    links = []
    for b in spec["bins"]:
        flags = BASE_FLAGS + [b.get("opt", "-O1")] + san[b.get("san", "")] + b.get("flags", [])
        objs = []
        sched = b.get("san", "") == "sched"
        srcs = [VERIF + "/mc/mc.cpp"] + ([VERIF + "/mc/sched.cpp"] if sched else []) + [VERIF + "/harness/" + s for s in b["harness"]]
        srcs += [REPO + "/src/archon/" + s for s in b.get("sources", [])]
        for s in srcs:
            o = f"{bdir}/{b['name']}--" + re.sub(r"[^A-Za-z0-9_.]", "_", s) + ".o"
            objs.append(o)
            plain = sched and "/mc/" in s
            tasks.append(cc + [f for f in flags if not (plain and f == "-fsanitize=thread")] + (["-fno-threadsafe-statics"] if plain else []) + ["-c", s, "-o", o])
        exe = f"{bdir}/{b['name']}"
        links.append([spec.get("cxx", "g++")] + [f for f in flags if not (sched and f == "-fsanitize=thread")] + objs +
                     ["-o", exe] + b.get("libs", []) + (["-ldl"] if sched else []))
        bins.append(exe)

    def run(cmd):
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=bdir)
        if p.returncode != 0:
            raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode(errors="replace")[-6000:])

    # Slow ones (harness files) first
    tasks.sort(key=lambda t: 0 if "/harness/" in " ".join(t) else 1)
    with ThreadPoolExecutor(JOBS) as pool:
        list(pool.map(run, tasks))
        list(pool.map(run, links))
    return bins


def child_setup(san):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if not san:
            lim = 6 << 30
            resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        resource.setrlimit(resource.RLIMIT_FSIZE, (2 << 30, 2 << 30))
    return f


def child_env(tmp):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:hard_rss_limit_mb=4000:allocator_may_return_null=0:detect_stack_use_after_return=0:handle_abort=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0"
    env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1"
    env["MC_TMP"] = tmp
    env["TMPDIR"] = tmp
    env["LC_ALL"] = "C.UTF-8"
    env["TZ"] = "UTC"
    env.pop("DISPLAY", None)
    return env


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


class Worker:
    def __init__(self, exe, san, scenario, shard, nshards, tier, tmpdir, known, budget, dev):
        self.exe, self.san, self.scenario, self.shard, self.nshards = exe, san, scenario, shard, nshards
        self.tier, self.known, self.budget, self.dev = tier, known, budget, dev
        self.dir = tempfile.mkdtemp(prefix=f"{scenario}-{shard}-", dir=tmpdir)
        self.out = self.dir + "/out"
        self.shm = self.dir + "/shm"

    def cmd(self, extra):
        c = [self.exe, "--scenario", self.scenario, "--tier", self.tier, "--out", self.out, "--shm", self.shm]
        if self.dev is not None:
            c += ["--dev", str(self.dev)]
        if self.known:
            c += ["--known", "\n".join(self.known)]
        return c + extra

    def spawn(self, extra):
        scratch = self.dir + "/scratch"
        os.makedirs(scratch, exist_ok=True)
        for f in (self.out, self.shm):
            if os.path.exists(f):
                os.unlink(f)
        self.errf = open(self.dir + "/err", "wb")
        return subprocess.Popen(self.cmd(extra), stdin=subprocess.DEVNULL, stdout=self.errf, stderr=self.errf,
                                cwd=scratch, env=child_env(scratch), preexec_fn=child_setup(self.san))

    def beat(self):
        try:
            with open(self.shm, "rb") as f:
                b = f.read(8)
                return struct.unpack("<Q", b)[0] if len(b) == 8 else -1
        except FileNotFoundError:
            return -1

    def choices_from_shm(self):
        try:
            with open(self.shm, "rb") as f:
                f.seek(8)
                n = struct.unpack("<I", f.read(4))[0]
                f.seek(12)
                return list(struct.unpack(f"<{n}i", f.read(4 * n)))
        except (FileNotFoundError, struct.error):
            return []

    def errtail(self):
        with open(self.dir + "/err", "rb") as f:
            return f.read()[-4000:].decode(errors="replace")

    def result(self):
        try:
            with open(self.out) as f:
                return json.load(f)
        except (FileNotFoundError, json.JSONDecodeError):
            return None

    def wait(self, p, stall, limit):
        """Returns exit code, or 'hang'."""
        t0 = time.time()
        last, last_t, last_cpu = -2, t0, 0.0
        while True:
            try:
                return p.wait(timeout=1.0 if time.time() - t0 > 2 else 0.05)
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            b = self.beat()
            if b != last:
                last, last_t = b, now
            if now - last_t > stall or now - t0 > limit:
                kill(p)
                return "hang"

    def run(self):
        extra = ["--shard", f"{self.shard}/{self.nshards}", "--budget", str(self.budget)]
        p = self.spawn(extra)
        rc = self.wait(p, STALL_S, 3 * self.budget + 120)
        return self.judge(rc)

    def judge(self, rc):
        res = self.result()
        if rc == 0 and res and res["status"] in ("ok", "capped"):
            return {"kind": "ok", "res": res}
        if rc == 10 and res and res["status"] == "violation":
            return {"kind": "violation", "msg": res["msg"], "key": res.get("key", ""), "choices": res["choices"], "res": res}
        if rc == "hang":
            return {"kind": "hang", "msg": "no progress (hang or livelock)", "choices": self.choices_from_shm()}
        if rc == 4:
            return {"kind": "divergence", "msg": (res or {}).get("msg", "divergence"), "choices": (res or {}).get("choices", [])}
        if rc in (3, 126, 127):
            return {"kind": "error", "msg": f"harness error {rc}: " + self.errtail(), "choices": []}
        # crash: signal, sanitizer, terminate
        return {"kind": "crash", "msg": f"crash (exit {rc}): " + self.errtail()[-2500:], "choices": self.choices_from_shm()}

    def replay(self, choices, limit):
        p = self.spawn(["--choices", ",".join(map(str, choices)) or ","])
        rc = self.wait(p, limit, limit)
        return self.judge(rc)

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def load_known(pid):
    keys = {}
    path = VERIF + "/known_findings.jsonl"
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and line.startswith("{"):
                d = json.loads(line)
                if d["property"] == pid and d.get("status", "known") == "known":
                    keys[d["key"]] = d["what"]
    return keys


def short(s, n=400):
    s = " ".join(s.split())
    return s if len(s) <= n else s[:n] + "..."


def report_violation(pid, w, binname, r, confirmed):
    rdir = VERIF + "/replays"
    os.makedirs(rdir, exist_ok=True)
    path = f"{rdir}/{pid}-{w.scenario}.json"
    with open(path, "w") as f:
        json.dump({"property": pid, "bin": binname, "scenario": w.scenario, "tier": w.tier, "dev": w.dev,
                   "shard": [w.shard, w.nshards], "choices": r["choices"], "kind": r["kind"], "msg": r["msg"],
                   "trace": confirmed.get("res", {}).get("trace", "") if confirmed.get("res") else "",
                   "replay_cmd": f"python3 {VERIF}/check.py {pid} --replay {path}"}, f, indent=1)
    log(f"  scenario={w.scenario} kind={r['kind']}: {short(r['msg'], 1500)}")
    if confirmed.get("res"):
        log("  trace: " + short(confirmed["res"].get("trace", ""), 1500))
    log(f"VIOLATION property={pid} replay={path}")


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    replay_file = only = None
    write_evidence = True
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--replay":
            replay_file = args.pop(0)
        elif a == "--only":
            only = args.pop(0)
            write_evidence = False
        else:
            sys.exit("bad argument " + a)
    spec = PROPS[pid]
    t0 = time.time()
    try:
        exes = build(pid, spec, tier)
    except BuildError as e:
        log(f"{pid}: BUILD FAILED\n{e}")
        sys.exit(2)
    t_build = time.time() - t0
    known = load_known(pid)
    base = os.environ.get("MC_TMPBASE", "/tmp")
    tmpdir = tempfile.mkdtemp(prefix=f"mc-{pid}-", dir=base)
    os.chmod(tmpdir, 0o755)
    try:
        code = explore(pid, spec, tier, exes, known, tmpdir, t0, t_build, replay_file, only, write_evidence)
    finally:
        shutil.rmtree(tmpdir, ignore_errors=True)
    sys.exit(code)


def explore(pid, spec, tier, exes, known, tmpdir, t0, t_build, replay_file, only, write_evidence):
    budget = spec.get("budget", {}).get(tier, 400 if tier == "quick" else 6000)
    dev = spec.get("dev", {}).get(tier)
    if replay_file:
        d = json.load(open(replay_file))
        for b, exe in zip(spec["bins"], exes):
            if b["name"] == d["bin"]:
                w = Worker(exe, b.get("san", ""), d["scenario"], 0, 1, d["tier"], tmpdir, list(known), budget, d.get("dev"))
                r = w.replay(d["choices"], HANG_REPLAY_S)
                log(w.errtail())
                log("replay result:", r["kind"], r.get("msg", ""))
                return 0 if r["kind"] == "ok" else 1
        return 2
    workers = []
    jobs = []
    for b, exe in zip(spec["bins"], exes):
        p = subprocess.run([exe, "--list", "--tier", tier], stdout=subprocess.PIPE, env=child_env(tmpdir), timeout=120)
        if p.returncode != 0:
            log(f"{pid}: cannot list scenarios of {exe}: {p.returncode}")
            return 2
        for line in p.stdout.decode().split("\n"):
            if not line:
                continue
            name, ms = line.split()
            if only and not re.fullmatch(only, name):
                continue
            n = max(1, min(int(ms), b.get("shards", 16)))
            for s in range(n):
                jobs.append((b, exe, name, s, n))
    if not jobs:
        log(f"{pid}: nothing to explore")
        return 2
    # interleave so that long scenarios start early (as listed)
    stop = [False]

    def go(j):
        if stop[0]:
            return None
        b, exe, name, s, n = j
        w = Worker(exe, b.get("san", ""), name, s, n, tier, tmpdir, list(known), budget, dev)
        t1 = time.time()
        r = w.run()
        r["wall"] = time.time() - t1
        if r["kind"] != "ok":
            stop[0] = True
        elif r["kind"] == "ok":
            st, oc = read_hashes(w.out + ".states"), read_hashes(w.out + ".outcomes")
            r["states"], r["outcomes"] = st, oc
            w.cleanup()
        return (b, w, r)

    with ThreadPoolExecutor(JOBS) as pool:
        results = [r for r in pool.map(go, jobs) if r]
    bad = [x for x in results if x[2]["kind"] != "ok"]
    if only or os.environ.get("MC_VERBOSE"):
        per = {}
        for b, w, r in results:
            e = per.setdefault(b["name"] + "/" + w.scenario, [0, 0.0])
            e[0] += r.get("res", {}).get("execs", 0)
            e[1] += r["wall"]
        for k, e in per.items():
            log(f"   {k}: executions={e[0]} worker-seconds={e[1]:.1f}")
    for b, w, r in bad:
        if r["kind"] == "error":
            continue
        if r["kind"] == "divergence":
            # An execution that is not a function of its choices. On code that behaves
            # deterministically this is an error of the harness; confirm on a fresh process.
            r2 = w.run()
            if r2["kind"] in ("violation", "crash", "hang"):
                r = r2
            else:
                log(f"{pid}: {r['msg']}")
                return 2
        # Replay before report
        confirmed = None
        for _ in range(3):
            c = w.replay(r["choices"], HANG_REPLAY_S)
            if c["kind"] not in ("ok", "error", "divergence"):
                confirmed = c
                break
        if not confirmed and r["kind"] != "hang":
            # Depends on earlier executions in the same process: re-run the whole shard
            c = w.run()
            if c["kind"] not in ("ok", "error", "divergence"):
                confirmed = c
        if confirmed:
            report_violation(pid, w, b["name"], r, confirmed)
            if write_evidence:
                evidence(pid, spec, tier, results, t0, t_build, known, 1)
            return 1
        log(f"{pid}: {w.scenario}: {r['kind']} not reproduced: {short(r['msg'])}")
    if bad:
        for b, w, r in bad:
            log(f"{pid}: {w.scenario} shard {w.shard}/{w.nshards}: {r['kind']}: {r['msg']}")
        return 2
    hits = {}
    for b, w, r in results:
        hits.update(r["res"]["known"])
    for k in known:
        if k in hits:
            log(f"KNOWN-FINDING: property={pid} {known[k]} [{k}]")
    if write_evidence:
        evidence(pid, spec, tier, results, t0, t_build, known, 0)
    return 0


def read_hashes(path):
    a = array.array("Q")
    try:
        with open(path, "rb") as f:
            a.frombytes(f.read())
    except FileNotFoundError:
        pass
    return a


def evidence(pid, spec, tier, results, t0, t_build, known, violations):
    scen = {}
    for b, w, r in results:
        res = r.get("res")
        if not res:
            continue
        key = b["name"] + "/" + w.scenario
        e = scen.setdefault(key, {"executions": 0, "pruned": 0, "choice_tree_nodes": 0, "max_depth": 0, "operations": 0,
                                  "evaluations": 0, "deviation_bound": res.get("dev_bound", 0), "capped": False,
                                  "notes": {}, "_s": set(), "_o": set(), "saturated": False, "samples": []})
        e["executions"] += res["execs"]
        e["pruned"] += res["pruned"]
        e["choice_tree_nodes"] += res["nodes"]
        e["max_depth"] = max(e["max_depth"], res["max_depth"])
        e["operations"] += res.get("steps", 0)
        e["evaluations"] += res.get("evals", 0)
        e["capped"] |= res["status"] == "capped"
        e["saturated"] |= res["saturated"]
        for k, v in res["notes"].items():
            e["notes"][k] = e["notes"].get(k, 0) + v
        e["_s"].update(r.get("states", []))
        e["_o"].update(r.get("outcomes", []))
        if len(e["samples"]) < 2:
            e["samples"] += res["samples"][:1]
    samples = []
    tot = {"executions": 0, "operations": 0, "states": 0, "outcomes": 0, "evals": 0, "nodes": 0}
    capped = []
    for k, e in scen.items():
        s, o = e.pop("_s"), e.pop("_o")
        e["distinct_states"], e["distinct_outcomes"] = len(s), len(o)
        tot["executions"] += e["executions"]
        tot["operations"] += e["operations"]
        tot["evals"] += e["evaluations"]
        tot["states"] += len(s)
        tot["outcomes"] += len(o)
        tot["nodes"] += e["choice_tree_nodes"]
        if e["capped"]:
            capped.append(k)
        samples += [f"{k}: {x}" for x in e.pop("samples")]
    level = spec["level"]
    cov = {"exhaustive": not capped and not violations, "samples": samples[:12], "scenarios": scen,
           "build_s": round(t_build, 1), "bounds": spec.get("bounds", "")}
    if capped:
        cov["capped_scenarios"] = capped
    if level == "model_checking":
        cov["states"] = tot["states"] + tot["outcomes"]
        cov["transitions"] = tot["operations"] + tot["evals"]
        cov["traces_validated_against_impl"] = tot["executions"]
        cov["explanation"] = ("states: distinct canonical states and outcomes observed, all of them compared with the "
                              "reference model; transitions: operations and cases evaluated on implementation and model; traces: "
                              "complete executions of the real code, one per choice sequence of the bounded space.")
    else:
        cov["evaluations"] = tot["executions"] + tot["evals"]
        cov["distinct_nontrivial"] = tot["outcomes"]
        cov["rule"] = spec.get("rule", "every choice sequence of the bounded space is one case; distinct: by hash of the "
                               "observed result")
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level,
          "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": violations}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    log(f"{pid}: {tier}: scenarios={len(scen)} executions={tot['executions']} operations={tot['operations']} evals={tot['evals']} "
        f"states={tot['states']} outcomes={tot['outcomes']} capped={len(capped)} build={t_build:.0f}s wall={ev['wall_s']:.0f}s")


if __name__ == "__main__":
    main()
