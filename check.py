#!/usr/bin/env python3
"""Builds the simulator against /repo, runs one property over many seeds, and writes what that covered.

    check.py C01          decide a property (VERIF_SEED, VERIF_TIER=quick|thorough)
    check.py replay FILE  run a replay file again
    check.py build        build everything that the checks need
"""
import concurrent.futures as cf
import json
import os
import resource
import shutil
import struct
import subprocess
import sys
import tempfile
import threading
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(HERE, ".build")
EVIDENCE = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(EVIDENCE, "replay")
VARIANTS = ["spec", "subiot", "wizzilab"]
WORKERS = max(2, min(8, os.cpu_count() or 2))
STALL = 90

from props_info import INFO  # noqa: E402


class HarnessError(Exception):
    pass


def env_of(**extra):
    env = dict(os.environ)
    env.pop("RUSTFLAGS", None)
    env.pop("CARGO_TARGET_DIR", None)
    env.update(extra)
    return env


def run_quiet(cmd, cwd, env):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build_sim(variant):
    """The simulator, with the real library compiled in. (binary, whether the hook is there)"""
    target = os.path.join(BUILD, variant)
    cmd = ["cargo", "build", "--offline", "--quiet", "--features", variant, "--target-dir", target]
    out = run_quiet(cmd, os.path.join(HERE, "sim"), env_of(RUSTFLAGS="--cfg dash7_verif"))
    hook = True
    if out.returncode != 0:
        # the hook may be what does not build
        out2 = run_quiet(cmd, os.path.join(HERE, "sim"), env_of())
        if out2.returncode != 0:
            raise HarnessError(f"the simulator does not build ({variant}):\n{out.stdout[-6000:]}")
        hook = False
    return os.path.join(target, "debug", "dash7-sim"), hook


def build_cli(variant):
    target = os.path.join(BUILD, "cli-" + variant)
    cmd = ["cargo", "build", "--offline", "--locked", "--quiet", "-p", "dash7-cli", "--no-default-features",
           "--features", variant, "--target-dir", target]
    out = run_quiet(cmd, REPO, env_of())
    if out.returncode != 0:
        raise HarnessError(f"the command line tool does not build ({variant}):\n{out.stdout[-6000:]}")
    return os.path.join(target, "debug", "dash7")


def build_shim():
    path = os.path.join(BUILD, "iofault.so")
    os.makedirs(BUILD, exist_ok=True)
    out = run_quiet(["gcc", "-O1", "-fPIC", "-shared", "-o", path, os.path.join(HERE, "sim", "iofault.c"), "-ldl"],
                    HERE, env_of())
    if out.returncode != 0:
        raise HarnessError(f"the shim does not build:\n{out.stdout[-3000:]}")
    return path


def build(cli):
    with cf.ThreadPoolExecutor(7) as pool:
        sims = {v: pool.submit(build_sim, v) for v in VARIANTS}
        clis = {v: pool.submit(build_cli, v) for v in VARIANTS} if cli else {}
        shim = pool.submit(build_shim) if cli else None
        return ({v: f.result() for v, f in sims.items()}, {v: f.result() for v, f in clis.items()},
                shim.result() if shim else None)


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


class Runner:
    def __init__(self, prop, bins, clis, shim, scratch):
        self.prop, self.bins, self.clis, self.shim, self.scratch = prop, bins, clis, shim, scratch
        self.stop = threading.Event()
        self.n = 0
        self.lock = threading.Lock()

    def env(self, variant):
        e = env_of(RUST_BACKTRACE="0")
        if self.clis:
            e["DASH7_CLI"] = self.clis[variant]
            e["DASH7_SHIM"] = self.shim
            e["DASH7_SCRATCH"] = self.scratch
        return e

    def path(self, ext):
        with self.lock:
            self.n += 1
            return os.path.join(self.scratch, f"{self.n:05d}.{ext}")

    def spawn(self, variant, args):
        # nothing may be written on the side: that would be a panic
        full = open("/dev/full", "wb") if os.path.exists("/dev/full") else open(os.devnull, "wb")
        with full:
            return subprocess.Popen([self.bins[variant][0]] + args, stdout=full, stderr=full,
                                    stdin=subprocess.DEVNULL, env=self.env(variant), preexec_fn=limits)

    def chunk(self, variant, base, start, count):
        """Simulate a range of seeds. The result has 'dead' if the process did not survive one of them."""
        if self.stop.is_set():
            return None
        out = self.path("json")
        p = self.spawn(variant, ["run", self.prop, str(base), str(start), str(count), out])
        progress, seen, since = out + ".progress", None, time.monotonic()
        hung = False
        while True:
            try:
                p.wait(timeout=0.5)
                break
            except subprocess.TimeoutExpired:
                pass
            now = self.read(progress)
            if now != seen:
                seen, since = now, time.monotonic()
            elif time.monotonic() - since > STALL:
                hung = True
                p.kill()
                p.wait()
                break
        if hung or p.returncode != 0 or not os.path.exists(out):
            at = self.read(progress).split()
            if len(at) != 2:
                raise HarnessError(f"a worker did not start (exit {p.returncode})")
            return {"dead": "hang" if hung else "abort", "variant": variant, "seed": at[1], "index": int(at[0]),
                    "code": p.returncode, "start": start}
        with open(out) as f:
            r = json.load(f)
        with open(out + ".hashes", "rb") as f:
            raw = f.read()
        r["hashes"] = struct.unpack(f"<{len(raw) // 8}Q", raw)
        r["start"] = start
        for ext in ("", ".hashes", ".progress"):
            os.unlink(out + ext)
        if r["violations"]:
            self.stop.set()
        return r

    @staticmethod
    def read(path):
        try:
            with open(path) as f:
                return f.read()
        except OSError:
            return ""

    def replay(self, variant, text, timeout=STALL, tee=None):
        """Run one list of choices (or one seed) in a process of its own"""
        src, out = self.path("choices"), self.path("json")
        with open(src, "w") as f:
            f.write(text)
        if tee:
            os.environ["DASH7_SIM_TEE"] = tee
        try:
            p = self.spawn(variant, ["replay", self.prop, src, out])
        finally:
            os.environ.pop("DASH7_SIM_TEE", None)
        try:
            p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            return {"violation": {"class": "hang", "message": f"no end after {timeout} s"}, "trace_hash": None}
        if p.returncode != 0:
            return {"violation": {"class": "abort", "message": f"the process ended with {p.returncode}"},
                    "trace_hash": None}
        with open(out) as f:
            return json.load(f)

    def history(self, variant, base, start, index, kind):
        """Whether the runs from start on, in one process, end with this kind of violation at index"""
        self.stop.clear()
        r = self.chunk(variant, base, start, index - start + 1)
        if "dead" in r:
            return r["dead"] == kind and r["index"] == index
        return any(v["index"] == index and v["class"] == kind for v in r["violations"])

    def shorten(self, variant, base, start, index, kind):
        """A late start of a history that still ends in the same violation. None if it never does."""
        until = time.monotonic() + 120
        if not self.history(variant, base, start, index, kind):
            return None
        lo, hi = start, index  # lo is known to do
        while lo < hi and time.monotonic() < until:
            mid = (lo + hi + 1) // 2
            if self.history(variant, base, mid, index, kind):
                lo = mid
            else:
                hi = mid - 1
        return lo

    def minimise_abort(self, variant, seed):
        """Fewer choices that still end the process"""
        tee = self.path("tee")
        if self.replay(variant, f"seed {seed}", tee=tee)["violation"] is None:
            return None
        best = [int(x) for x in self.read(tee).split()]
        until = time.monotonic() + 40

        def dies(c):
            r = self.replay(variant, " ".join(map(str, c)) or "0", timeout=20)
            return bool(r["violation"]) and r["violation"]["class"] == "abort"

        if not dies(best):
            return None
        size = max(1, len(best) // 2)
        while size and time.monotonic() < until:
            at = 0
            while at < len(best) and time.monotonic() < until:
                for cand in (best[:at] + best[at + size:], best[:at] + [0] * len(best[at:at + size]) + best[at + size:]):
                    if cand != best and dies(cand):
                        best = cand
                        break
                else:
                    at += size
            size //= 2
        return best


def known(prop):
    out = {}
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            if line.startswith("known: "):
                words = line[7:].strip().split(" ", 2)
                if words[0] == f"property={prop}":
                    out[words[1].removeprefix("key=")] = words[2]
    return out


def save_replay(prop, variant, v, extra):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{prop}-{variant}-{v.get('seed', '0')}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "variant": variant, **v, **extra}, f, indent=1)
    return path


def decide(prop):
    info = INFO[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    began = time.monotonic()
    bins, clis, shim = build(info.get("cli", False))
    built = time.monotonic() - began
    scratch = tempfile.mkdtemp(prefix="dash7-sim-")
    try:
        return explore(prop, info, tier, seed, bins, clis, shim, scratch, built, began)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def explore(prop, info, tier, seed, bins, clis, shim, scratch, built, began):
    runner = Runner(prop, bins, clis, shim, scratch)
    per_variant = info["quick"] if tier == "quick" else info["quick"] * info.get("deep", 40)
    pieces = max(3, min(4000, -(-per_variant // info.get("piece", 4000))))
    step = -(-per_variant // pieces)
    check = max(1, min(step, info.get("again", 400)))
    jobs = [(v, i * step, step) for i in range(pieces) for v in VARIANTS]
    t0 = time.monotonic()
    # the first seeds twice, in processes of their own: one seed is one execution
    first = {v: [] for v in VARIANTS}
    results = []
    with cf.ThreadPoolExecutor(WORKERS) as pool:
        twice = [(v, pool.submit(runner.chunk, v, seed, 0, check)) for v in VARIANTS for _ in range(2)]
        for v, f in twice:
            first[v].append(f.result())
        runner.stop.clear()
        futures = [pool.submit(runner.chunk, v, seed, s, n) for v, s, n in jobs]
        for f in futures:
            r = f.result()
            if r is None:
                continue
            if "dead" in r:
                again = runner.replay(r["variant"], "seed " + r["seed"])
                if again["violation"] and again["violation"]["class"] in ("hang", "abort"):
                    runner.stop.set()
                    r["again"] = again
                else:
                    # not of the simulation's making: once more
                    v, s, n = next(j for j in jobs if j[0] == r["variant"] and j[1] <= r["index"] < j[1] + j[2])
                    dead, r = r, runner.chunk(v, seed, s, n)
                    if r is None:
                        continue
                    if "dead" in r:
                        if (r["dead"], r["index"]) != (dead["dead"], dead["index"]):
                            raise HarnessError(f"worker ended without a cause that its seed shows: {dead} {r}")
                        # it is, but what came before is part of it
                        r["again"] = {"violation": {"class": r["dead"], "message": "the process " + (
                            "did not get any further" if r["dead"] == "hang" else f"ended with {r['code']}")}}
                        r["with_history"] = True
                        runner.stop.set()
            results.append(r)
    wall = time.monotonic() - t0

    violations = []
    for v in VARIANTS:
        a, b = first[v]
        if a and b and "dead" not in a and "dead" not in b and a["digest"] != b["digest"]:
            if info.get("determinism"):
                violations.append((v, {"class": "nondeterministic", "seed": f"{seed:016x}", "choices": [],
                                       "message": f"the first {check} seeds gave different executions in two processes",
                                       "trace_hash": None}, {"base_seed": seed, "runs": check}))
            elif not any("dead" in r or r["violations"] for r in results):
                raise HarnessError(f"{v}: one seed, two executions ({a['digest']} and {b['digest']})")
    for r in results:
        if "dead" in r:
            alone = r["dead"] == "abort" and not r.get("with_history")
            choices = runner.minimise_abort(r["variant"], r["seed"]) if alone else None
            v = {"class": r["dead"], "seed": r["seed"], "index": r["index"], "choices": choices,
                 "message": r["again"]["violation"]["message"], "trace_hash": None}
            violations.append((r["variant"], v, {"base_seed": seed, "start": r["start"]}))
        else:
            for v in r["violations"]:
                violations.append((r["variant"], v, {"base_seed": seed, "start": r["start"]}))
    ok = [r for r in results if "dead" not in r]
    listed = known(prop)
    found = {}
    for r in ok:
        for key, x in r["findings"].items():
            e = found.setdefault(key, {"count": 0, "seed": x["seed"], "variant": r["variant"], "example": x["example"]})
            e["count"] += x["count"]
    for key, x in sorted(found.items()):
        if key in listed:
            print(f"KNOWN-FINDING: property={prop} {listed[key]}")
        else:
            violations.append((x["variant"], {"class": "finding " + key, "message": x["example"], "seed": x["seed"],
                                              "choices": None, "trace_hash": None}, {"base_seed": seed}))

    reported = []
    violations.sort(key=lambda t: (t[1]["class"].startswith("finding"), len(t[1].get("choices") or []) or 10**6))
    for variant, v, extra in violations[:3]:
        if v["class"] != "nondeterministic":
            text = " ".join(map(str, v["choices"])) if v.get("choices") is not None else "seed " + v["seed"]
            again = runner.replay(variant, text or "0")
            extra["reproduced"] = same(v, again)
            if not extra["reproduced"] and "start" in extra:
                # it takes the runs before it in the same process as well
                first_run = runner.shorten(variant, seed, extra["start"], v["index"], v["class"])
                if first_run is not None:
                    extra.update(reproduced=True, history=[first_run, v["index"]])
        path = save_replay(prop, variant, v, extra)
        reported.append(path)
        print(f"{prop} [{variant}] {v['class']}: {v['message'][:1500]}")
        print(f"VIOLATION property={prop} replay={path}", flush=True)

    hashes = set()
    for r in ok:
        hashes.update((r["variant"], h) for h in r["hashes"])
    stats = {}
    for r in ok:
        for k, n in r["stats"].items():
            stats[k] = stats.get(k, 0) + n
    runs = sum(r["runs"] for r in ok)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": info.get("level", "exploration"),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(hashes),
            "rule": info["rule"] + " One evaluation is one simulated run from one seed. Two runs are distinct if the "
                    "hashes of their event traces (scheduling decisions, messages, bytes and injected faults, in order)"
                    " or the protocol variants differ; a run without events is trivial and not counted.",
            "samples": [s for r in ok for s in r["samples"]][:4],
            "runs_by_variant": {v: sum(r["runs"] for r in ok if r["variant"] == v) for v in VARIANTS},
            "seeds": f"derived from VERIF_SEED={seed}, the property and the indices 0..{pieces * step - 1}, per variant",
            "runs_per_hour": int(runs / wall * 3600) if wall > 0 else 0,
            "simulated_time_s": round(sum(r["sim_us"] for r in ok) / 1e6, 3),
            "events": sum(r["events"] for r in ok),
            "choices": sum(r["choices"] for r in ok),
            "faults_injected": {k[6:]: n for k, n in sorted(stats.items()) if k.startswith("fault.")},
            "observations": {k: n for k, n in sorted(stats.items()) if not k.startswith("fault.")},
            "real_components": info["real"],
            "stub_components": info["stub"],
            "determinism": f"the first {check} seeds of each variant were run in two processes and gave equal traces",
            "hook_built": all(b[1] for b in bins.values()),
            "known_findings_seen": {k: x["count"] for k, x in found.items() if k in listed},
            "workers": WORKERS,
            "build_s": round(built, 1),
            "search_s": round(wall, 1),
            "replays": reported,
        },
        "assumptions": info.get("assumptions", []),
        "wall_s": round(time.monotonic() - began, 2),
        "violations": len(violations),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print(f"{prop}: {runs} runs, {len(hashes)} distinct, {len(violations)} violations, "
          f"{wall:.1f} s after {built:.1f} s of building")
    return 1 if violations else 0


def same(v, again):
    x = again["violation"]
    if v["class"].startswith("finding "):
        return v["class"][8:] in again.get("findings", {})
    if not x or x["class"] != v["class"]:
        return False
    return v["trace_hash"] is None or (x["trace_hash"] == v["trace_hash"] and x["message"] == v["message"])


def replay(path):
    with open(path) as f:
        v = json.load(f)
    prop, variant = v["property"], v["variant"]
    bins, clis, shim = build(INFO[prop].get("cli", False))
    scratch = tempfile.mkdtemp(prefix="dash7-sim-")
    try:
        runner = Runner(prop, bins, clis, shim, scratch)
        if v["class"] == "nondeterministic":
            a, b = (runner.chunk(variant, v["base_seed"], 0, v["runs"]) for _ in range(2))
            hit = a.get("digest") != b.get("digest")
            again = {"violation": None}
        elif v.get("history"):
            hit = runner.history(variant, v["base_seed"], *v["history"], v["class"])
            again = {"violation": None}
        else:
            text = " ".join(map(str, v["choices"])) if v.get("choices") is not None else "seed " + v["seed"]
            again = runner.replay(variant, text or "0")
            hit = same(v, again)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(json.dumps(again, indent=1))
    if hit:
        print(f"reproduced exactly: {v['class']}: {v['message'][:1500]}")
        print(f"VIOLATION property={prop} replay={os.path.abspath(path)}")
        return 1
    if again["violation"]:
        print(f"a different violation: {again['violation']['class']}: {again['violation']['message'][:1500]}")
        print(f"VIOLATION property={prop} replay={os.path.abspath(path)}")
        return 1
    print("not reproduced: the code holds for this execution")
    return 0


def main():
    try:
        if len(sys.argv) == 3 and sys.argv[1] == "replay":
            return replay(sys.argv[2])
        if len(sys.argv) == 2 and sys.argv[1] == "build":
            build(os.path.exists(os.path.join(HERE, "sim", "iofault.c")))
            return 0
        if len(sys.argv) == 2 and sys.argv[1] in INFO:
            return decide(sys.argv[1])
        print(__doc__, file=sys.stderr)
        return 2
    except HarnessError as e:
        print(f"harness error: {e}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
