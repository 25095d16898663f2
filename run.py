#!/usr/bin/env python3
"""Driver: builds the harnesses from /repo's working tree, explores, writes evidence, judges.

  run.py setup                      build everything
  run.py check <property> [tier]    decide one property   (exit 0 / 1 + VIOLATION line; 2: engine error)
  run.py replay <file>              run one recorded counterexample again
  run.py all [tier]                 every property, one after another
"""
import fcntl, json, os, re, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(VERIF, "target")
NCPU = 8
HANG_S = 60          # no execution completed for this long
os.chdir(VERIF)
sys.path.insert(0, os.path.join(VERIF, "tools"))
from plan import PLAN, BUILDS, ASSUME  # noqa: E402

ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2025-03-06", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
ENV.pop("RUSTFLAGS", None)


class EngineError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, env=kw.pop("env", ENV), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(name):
    """Builds one configuration and returns the path of its binary."""
    b = BUILDS[name]
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(TARGET, b.get("dir", "main")))
    if b.get("rustflags"):
        env["RUSTFLAGS"] = b["rustflags"]
    os.makedirs(os.path.join(TARGET, "bin"), exist_ok=True)
    with open(os.path.join(TARGET, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cmd = ["cargo", "build", "--offline", "--locked", "--profile", b["profile"]]
        if b.get("features"):
            cmd += ["--features", b["features"]]
        r = sh(cmd, cwd=os.path.join(VERIF, b["crate"]), env=env)
        if r.returncode != 0:
            raise EngineError(f"build of {name} failed:\n{r.stdout[-6000:]}")
        src = os.path.join(env["CARGO_TARGET_DIR"], b["profile"], b["crate"])
        dst = os.path.join(TARGET, "bin", name)
        tmp = dst + f".{os.getpid()}"
        shutil.copy2(src, tmp)
        os.replace(tmp, dst)
    return dst


def suites_of(binary, prop):
    r = subprocess.run([binary, "list"], env=ENV, stdout=subprocess.PIPE, text=True)
    if r.returncode:
        raise EngineError(f"{binary} list failed")
    return [l.split()[1] for l in r.stdout.splitlines() if l.split()[0] == prop]


class Job:
    def __init__(self, bname, binary, prop, suite, tier, shard, n, cap, out):
        self.bname, self.binary, self.prop, self.suite, self.tier = bname, binary, prop, suite, tier
        self.shard, self.n, self.cap, self.out = shard, n, cap, out
        self.p = None

    def start(self):
        for e in (".json", ".states", ".prog", ".log"):
            try:
                os.unlink(self.out + e)
            except FileNotFoundError:
                pass
        self.log = open(self.out + ".log", "w")
        self.p = subprocess.Popen(["prlimit", "--as=6000000000", "--core=0", self.binary, "run", self.prop, self.suite, self.tier, str(self.shard), str(self.n), str(self.cap), self.out],
                                  env=ENV, stdout=self.log, stderr=self.log, cwd=TARGET)
        self.t0 = self.beat_t = time.time()
        self.beat = None

    def progress(self):
        try:
            with open(self.out + ".prog", "rb") as f:
                d = f.read()
        except FileNotFoundError:
            return None, []
        if len(d) < 16:
            return None, []
        beat, n = struct.unpack_from("<QQ", d)
        return beat, list(struct.unpack_from(f"<{n}H", d, 16)) if n <= 8000 else []

    def hung(self):
        b, _ = self.progress()
        now = time.time()
        if b != self.beat:
            self.beat, self.beat_t = b, now
        return now - self.beat_t > HANG_S

    def kill(self):
        try:
            self.p.kill()
        except Exception:
            pass
        self.p.wait()


def replay_run(binary, prop, suite, tier, choices, timeout=90):
    """Runs one choice vector on its own; returns (kind, output)."""
    try:
        r = subprocess.run(["prlimit", "--as=6000000000", "--core=0", binary, "replay", prop, suite, tier, ",".join(map(str, choices))],
                           env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=TARGET, errors="replace", text=True)
    except subprocess.TimeoutExpired as e:
        out = e.stdout or ""
        return "hang", out if isinstance(out, str) else out.decode(errors="replace")
    if r.returncode < 0:
        return f"signal {signal.Signals(-r.returncode).name}", r.stdout
    return {0: "ok", 1: "fail"}.get(r.returncode, f"exit {r.returncode}"), r.stdout


def check(prop, tier):
    t0 = time.time()
    plan = PLAN[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    budget = 3600 * 6 if tier == "thorough" else 420
    parts = [p for p in plan["parts"] if tier == "thorough" or not p.get("thorough_only")]
    bins = {}
    for p in parts:
        if p["build"] not in bins:
            bins[p["build"]] = build(p["build"])
    built = time.time()
    work = os.path.join(TARGET, "work", f"{prop}.{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    jobs = []
    for p in parts:
        names = suites_of(bins[p["build"]], p.get("as", prop))
        want = p.get("suites") or names
        for s in want:
            if s not in names:
                raise EngineError(f"no suite {s} in {p['build']} for {prop}")
            n = plan.get("shards", {}).get(s, NCPU)
            for i in range(n):
                cap = p.get("cap", budget)
                jobs.append(Job(p["build"], bins[p["build"]], p.get("as", prop), s, tier, i, n, cap, os.path.join(work, f"{p['build']}.{s}.{i}")))
    if not jobs:
        raise EngineError(f"nothing to explore for {prop}")
    pending, running, done, viol = list(jobs), [], [], []
    known = [k for k in load_known() if k["property"] == prop]

    def is_known(v):
        for k in known:
            if k["suite"] == v["suite"] and re.search(k["match"], v["key"] + " | " + v["msg"] + " | " + " ; ".join(v["trace"])):
                return k
        return None
    stop_at = None
    capped = []
    while pending or running:
        while pending and len(running) < NCPU and stop_at is None:
            j = pending.pop(0)
            if time.time() - built > budget:
                capped.append(j)
                continue
            j.start()
            running.append(j)
        if stop_at is not None:
            pending = []
            if time.time() > stop_at:
                for j in running:
                    j.kill()
                running = []
                break
        time.sleep(0.02)
        for j in list(running):
            rc = j.p.poll()
            if rc is None:
                if j.hung():
                    _, ch = j.progress()
                    j.kill()
                    running.remove(j)
                    viol.append(dict(build=j.bname, suite=j.suite, cls=j.prop, key="hang", msg=f"an execution did not finish within {HANG_S} s", choices=ch, trace=[], confirm="hang"))
                continue
            running.remove(j)
            if rc == 0 and os.path.exists(j.out + ".json"):
                with open(j.out + ".json") as f:
                    j.res = json.load(f)
                if j.res["engine_error"]:
                    raise EngineError(f"{j.bname} {j.suite}: {j.res['engine_error']}")
                done.append(j)
                for v in j.res["violations"]:
                    viol.append(dict(build=j.bname, suite=j.suite, cls=j.prop, key=v["key"], msg=v["msg"], choices=v["choices"], trace=v["trace"], confirm="fail"))
            elif rc < 0:
                _, ch = j.progress()
                kind = f"signal {signal.Signals(-rc).name}"
                viol.append(dict(build=j.bname, suite=j.suite, cls=j.prop, key="crash " + kind, msg=f"the process died ({kind})", choices=ch, trace=[], confirm="signal"))
            else:
                log = open(j.out + ".log", errors="replace").read()[-2000:]
                raise EngineError(f"{j.bname} {j.suite} shard {j.shard}: exit {rc}\n{log}")
        if stop_at is None and any(is_known(v) is None for v in viol):
            stop_at = time.time() + 5
    # unexplained process deaths must happen again on their own
    # (one that does is enough: the others are not judged, a hang takes its time to show)
    sure = any(v["confirm"] == "fail" and is_known(v) is None for v in viol)
    for v in viol:
        if v["confirm"] in ("signal", "hang") and is_known(v) is None:
            if sure:
                v["confirm"] = "unjudged"
                continue
            kind, out = replay_run(bins[v["build"]], v["cls"], v["suite"], tier, v["choices"], HANG_S + 10)
            v["trace"] = [l.strip() for l in out.splitlines()][-40:]
            if kind == "ok":
                v["confirm"] = "no"
            else:
                sure = True
    lost = [v for v in viol if v["confirm"] == "no"]
    viol = [v for v in viol if v["confirm"] not in ("no", "unjudged")]
    unknown = [v for v in viol if is_known(v) is None]
    if lost and not unknown:
        raise EngineError(f"a run of {lost[0]['suite']} ended ({lost[0]['msg']}) but its execution passes on its own: {lost[0]['choices']}")
    # ---- evidence
    per = {}
    for j in done:
        d = per.setdefault((j.bname, j.suite), dict(build=j.bname, suite=j.suite, executions=0, transitions=0, exhaustive=True, max_choices=0, shards=0, files=[], samples=[]))
        r = j.res
        d["executions"] += r["execs"]
        d["transitions"] += r["transitions"]
        d["exhaustive"] &= r["exhaustive"]
        d["max_choices"] = max(d["max_choices"], r["max_depth"])
        d["shards"] += 1
        d["files"].append(j.out + ".states")
        d["samples"] += r["samples"][:1]
    for d in per.values():
        need = len([j for j in jobs if (j.bname, j.suite) == (d["build"], d["suite"])])
        d["exhaustive"] &= d["shards"] == need
        r = sh([bins[d["build"]], "union"] + d.pop("files"))
        d["states"] = int(r.stdout.split()[-1])
        d["samples"] = d["samples"][:3]
    states = {}
    for d in per.values():
        states[d["suite"]] = max(states.get(d["suite"], 0), d["states"])
    samples = [f"{v['suite']}: {v['key']}: {v['msg']}" for v in unknown[:3]]
    for d in per.values():
        for s in d["samples"][:1]:
            m = re.match(r"(\w+)\[(.*)\]$", s)
            ch = [int(x) for x in m.group(2).split(",") if x.strip()]
            try:
                _, out = replay_run(bins[d["build"]], prop if d["suite"] in suites_of(bins[d["build"]], prop) else [j.prop for j in jobs if j.suite == d["suite"]][0], d["suite"], tier, ch, 30)
                samples.append(f"{d['suite']} {ch}: " + " ; ".join(l.strip() for l in out.splitlines())[:400])
            except Exception:
                samples.append(s)
    complete = bool(per) and not capped and not unknown and all(d["exhaustive"] for d in per.values())
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=dict(
        states=sum(states.values()), transitions=sum(d["transitions"] for d in per.values()),
        traces_validated_against_impl=sum(d["executions"] for d in per.values()),
        exhaustive=complete, samples=samples[:12] or ["(nothing completed)"],
        states_rule="distinct hashes of (suite tag, observed state) after an operation on the implementation, united over shards; per suite the larger of its builds; at most 4M kept per shard",
        transitions_rule="operations performed on the implementation whose outcome was compared with the reference model",
        traces_rule="complete executions: the real code and the reference model driven by the same choices",
        bounds=plan["bounds"], suites=sorted(per.values(), key=lambda d: (d["build"], d["suite"])),
        not_completed=[f"{j.bname}:{j.suite}" for j in capped], seed_use="none: every enumeration is exhaustive within its bounds and ordered the same way on every run"),
        assumptions=ASSUME + plan.get("assume", []), wall_s=round(time.time() - t0, 2), violations=len(unknown))
    ev["coverage"]["build_s"] = round(built - t0, 2)
    os.makedirs("evidence", exist_ok=True)
    with open(f"evidence/{prop}.json.tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(f"evidence/{prop}.json.tmp", f"evidence/{prop}.json")
    shutil.rmtree(work, ignore_errors=True)
    for k in known:
        if k.get("always") or any(is_known(v) is k for v in viol):
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for d in sorted(per.values(), key=lambda d: (d["build"], d["suite"])):
        print(f"  {d['build']:8} {d['suite']:20} executions={d['executions']} transitions={d['transitions']} states={d['states']} exhaustive={d['exhaustive']}")
    if unknown:
        unknown.sort(key=lambda v: (len(v["choices"]), v["choices"]))
        seen, shown = set(), 0
        for v in unknown:
            if v["key"] in seen or shown >= 5:
                continue
            seen.add(v["key"])
            shown += 1
            path = os.path.join("replays", f"{prop}-{v['suite']}-{shown}.json")
            os.makedirs("replays", exist_ok=True)
            with open(path, "w") as f:
                json.dump(dict(property=prop, cls=v["cls"], build=v["build"], suite=v["suite"], tier=tier, key=v["key"], msg=v["msg"], choices=v["choices"], trace=v["trace"]), f, indent=1)
            print(f"  {v['suite']} ({v['build']}): {v['key']}: {v['msg']}")
            for l in v["trace"][:25]:
                print(f"      {l}")
            print(f"VIOLATION property={prop} replay={os.path.join(VERIF, path)}")
        return 1
    print(f"{prop}: held on {ev['coverage']['traces_validated_against_impl']} executions, {ev['coverage']['transitions']} transitions, {ev['coverage']['states']} states"
          + ("" if complete else " (bounds not completed: time cap)") + f", {ev['wall_s']} s")
    return 0


def load_known():
    out = []
    for l in open(os.path.join(VERIF, "known_findings.jsonl")):
        l = l.strip()
        if l.startswith("{"):
            out.append(json.loads(l))
    return out


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        for b in BUILDS:
            build(b)
            print("built", b)
        return 0
    if a[:1] == ["check"]:
        tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
        return check(a[1], tier)
    if a[:1] == ["replay"]:
        r = json.load(open(a[1]))
        kind, out = replay_run(build(r["build"]), r["cls"], r["suite"], r["tier"], r["choices"])
        print(out)
        print("outcome:", kind)
        return 0 if kind == "ok" else 1
    if a[:1] == ["all"]:
        worst = 0
        for p in PLAN:
            t = time.time()
            try:
                rc = check(p, a[1] if len(a) > 1 else "quick")
            except EngineError as e:
                print(p, "ENGINE ERROR", e)
                rc = 2
            print(f"== {p} exit {rc} {time.time()-t:.1f}s", flush=True)
            worst = max(worst, rc)
        return worst
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except EngineError as e:
        print("ENGINE ERROR:", e)
        sys.exit(2)
