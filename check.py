#!/usr/bin/env python3
"""check.py <PROPERTY>: decides one property of /repo's current working tree.

 1. Every proof unit registered for the property (contracts/units.json) is regenerated from /repo's current source and
    given to the deductive verifier (Verus) or, for loop-free code, to Kani on the crate itself.
 2. The executable contracts (replay/) run against the real crate: they are the bounded stand-in for what is outside
    the verifiers' reach and turn a failed obligation into a concrete failing input.
 Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken.  Environment: VERIF_SEED, VERIF_TIER.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BUMAGA_REPO", "/repo")
T0 = time.time()
BUDGET = 840.0


def left():
    return BUDGET - (time.time() - T0)


def run(cmd, timeout, cwd=None, env=None):
    """returns (code, out); code None on timeout"""
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True, text=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=max(1, timeout))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out


class Replay:
    """Engine B: executable contracts over the real crate."""

    def __init__(self, work):
        self.work = work
        self.exe = None
        self.hooks = ""
        self.log = ""
        self.build_s = 0.0

    def build(self):
        t = time.time()
        crate = self.crate()
        target = os.path.join(self.work, "replay-target")
        # what the hooks name may be gone from a changed tree: then without them
        for hooks in ("readers", "hooks", ""):
            env = {"CARGO_TARGET_DIR": target, "CARGO_NET_OFFLINE": "true"}
            args = ["cargo", "build", "--offline", "-q"]
            if hooks:
                env["RUSTFLAGS"] = "--cfg bumaga_verif" + (" --cfg bumaga_verif_readers" if hooks == "readers" else "")
                env["BUMAGA_VERIF_DIR"] = os.path.join(HERE, "hooks/replay")
                args += ["--features", hooks]
            else:
                env["RUSTFLAGS"] = ""
            code, out = run(args, 400, cwd=crate, env=env)
            if code == 0:
                self.exe = os.path.join(target, "debug/vreplay")
                self.hooks = hooks
                break
            self.log += out[-4000:]
        self.build_s = time.time() - t

    def crate(self):
        # a copy keeps cargo's lock file and any build products out of /verif
        dst = os.path.join(self.work, "replay")
        if not os.path.isdir(dst):
            shutil.copytree(os.path.join(HERE, "replay"), dst, ignore=shutil.ignore_patterns("target"))
            if REPO != "/repo":
                p = os.path.join(dst, "Cargo.toml")
                s = open(p).read().replace('path = "/repo"', f'path = "{REPO}"')
                open(p, "w").write(s)
        return dst

    def search(self, pid, seed, seconds, workers):
        """returns (stats, failure or None)"""
        results = [None] * workers

        def one(k):
            out = os.path.join(self.work, f"b-{seconds}-{k}")
            os.makedirs(out, exist_ok=True)
            s = seed + 7919 * k
            code, text = run([self.exe, "run", pid, "--seed", str(s), "--seconds", str(seconds), "--cases", "100000000",
                              "--out", out], seconds + 150, cwd=out)
            results[k] = (code, text, os.path.join(out, f"fail-{pid}.json"))
        ts = [threading.Thread(target=one, args=(k,)) for k in range(workers)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        stats = dict(evaluations=0, distinct_nontrivial=0, observations=0, samples=[], incomplete=0)
        failure = None
        for code, text, path in results:
            if code == 1 and os.path.exists(path):
                f = json.load(open(path))
                if failure is None or len(f["case"]) < len(failure["case"]):
                    failure = f
            elif code == 0:
                s = json.loads([l for l in text.splitlines() if l.startswith("{")][-1])
                for k in ("evaluations", "distinct_nontrivial", "observations"):
                    stats[k] += s[k]
                if s.get("sample") and len(stats["samples"]) < 2:
                    stats["samples"].append(s["sample"])
            else:
                stats["incomplete"] += 1
        return stats, failure


def verus_units(pid, units, work, tier):
    """Engine V: units regenerated from the current source, decided by Verus."""
    import verus_engine
    return verus_engine.decide(pid, units, work, REPO, HERE, run, left, tier)


def kani_units(pid, units, work, tier):
    """Engine K: harnesses compiled with the crate itself, decided by Kani."""
    import kani_engine
    return kani_engine.decide(pid, units, work, REPO, HERE, run, left, tier)


def main():
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    pid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    registry = json.load(open(os.path.join(HERE, "contracts/units.json")))
    mine = registry["properties"].get(pid, {})
    work = tempfile.mkdtemp(prefix=f"bumaga-{pid}-")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    violation_path = os.path.join(HERE, "evidence", f"{pid}.violation.json")
    if os.path.exists(violation_path):
        os.remove(violation_path)
    try:
        return decide(pid, seed, tier, registry, mine, work, violation_path)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, seed, tier, registry, mine, work, violation_path):
    quick_s = float(mine.get("seconds", 15 if tier == "quick" else 200))
    if tier == "thorough":
        quick_s = 200.0
    replay = Replay(work)
    proofs = {"verus": [], "kani": []}

    def engine(name, fn, units):
        try:
            proofs[name] = fn(pid, units, work, tier)
        except Exception as e:  # an error of the machinery is never an alarm
            proofs[name] = [dict(unit=u, status="undecided", reason=f"machinery: {e!r}", obligations=[], seconds=0.0,
                                 backend=name, functions=[], trusted=[]) for u in units]
    threads = []
    if mine.get("verus"):
        threads.append(threading.Thread(target=engine, args=("verus", verus_units, mine["verus"])))
    if mine.get("kani"):
        threads.append(threading.Thread(target=engine, args=("kani", kani_units, mine["kani"])))
    [t.start() for t in threads]
    replay.build()
    stats = dict(evaluations=0, distinct_nontrivial=0, observations=0, samples=[])
    failure = None
    workers = max(1, min(6, os.cpu_count() or 4))
    if replay.exe:
        stats, failure = replay.search(pid, seed, quick_s, workers)
    if failure is None:
        [t.join() for t in threads]
    else:
        # the failing input decides; proofs only add detail if they are nearly done
        [t.join(timeout=60) for t in threads]
    units = proofs["verus"] + proofs["kani"]
    failed = [u for u in units if u["status"] == "failed"]
    undecided = [u for u in units if u["status"] == "undecided"]
    if (failed or undecided) and failure is None and replay.exe:
        # a failed or lost obligation: look harder for a concrete failing input
        more, failure = replay.search(pid, seed + 104729, min(90.0 if tier == "quick" else 300.0, max(10.0, left() - 120)), workers)
        for k in ("evaluations", "distinct_nontrivial", "observations"):
            stats[k] += more[k]
    known = []
    for line in open(os.path.join(HERE, "known_findings.txt")):
        line = line.strip()
        if line.startswith("{"):
            k = json.loads(line)
            if k.get("property") == pid and k.get("status") == "known":
                known.append(k)
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    violations = 0
    code = 0
    if failure is not None and not any(k.get("error_contains") and k["error_contains"] in failure["error"] for k in known):
        violations = 1
        doc = dict(property=pid, kind="failing input replayed against the real code", error=failure["error"], case=failure["case"],
                   seed=failure["seed"], index=failure["index"],
                   rerun=f"cd /verif/replay && RUSTFLAGS='--cfg bumaga_verif --cfg bumaga_verif_readers' BUMAGA_VERIF_DIR=/verif/hooks/replay CARGO_TARGET_DIR=/tmp/rt "
                         f"cargo run --offline --features readers -- case {pid} --seed {failure['seed']} --index {failure['index']}",
                   failed_obligations=[dict(unit=u["unit"], reason=u["reason"]) for u in failed],
                   verifier_output="\n".join(u.get("output", "") for u in failed)[-6000:])
        json.dump(doc, open(violation_path, "w"), indent=1)
        print(f"failing input: {failure['error'][:600]}")
        print(f"VIOLATION property={pid} replay={violation_path}")
        code = 1
    elif failed:
        violations = 1
        doc = dict(property=pid, kind="failed proof obligation, no failing input found",
                   failed_obligations=[dict(unit=u["unit"], reason=u["reason"]) for u in failed],
                   verifier_output="\n".join(u.get("output", "") for u in failed)[-12000:],
                   searched=stats["evaluations"])
        json.dump(doc, open(violation_path, "w"), indent=1)
        for u in failed:
            print(f"failed obligation in {u['unit']}: {u['reason']}")
        print(f"VIOLATION property={pid} replay={violation_path} no-failing-input-found")
        code = 1
    evidence(pid, seed, tier, mine, registry, units, stats, replay, violations)
    for u in units:
        print(f"{pid} {u['backend']} {u['unit']}: {u['status']} ({len(u['obligations'])} obligations, {u['seconds']:.1f} s)"
              + (f" [{u['reason']}]" if u["status"] != "proved" else ""))
    print(f"{pid} executable contracts: {stats['evaluations']} cases, {stats['observations']} observations"
          + ("" if replay.exe else " (NOT BUILT)"))
    if not replay.exe and code == 0 and (undecided or not units):
        print(replay.log[-3000:])
        print("undecided: the executable contracts do not build against this tree")
        return 2
    return code


def evidence(pid, seed, tier, mine, registry, units, stats, replay, violations):
    decided = [u for u in units if u["status"] in ("proved", "failed")]
    obligations = sum(len(u["obligations"]) for u in decided)
    discharged = sum(len([o for o in u["obligations"] if o["ok"]]) for u in decided)
    level = mine.get("level", "exploration")
    bounded = dict(what=mine.get("bounded", "whole property, end to end on the real crate"),
                   bound="random cases of bounded size within the time limit; never counted as proved",
                   evaluations=stats["evaluations"], distinct_nontrivial=stats["distinct_nontrivial"],
                   observations=stats["observations"], hooks=replay.hooks or "none")
    coverage = dict(evaluations=stats["evaluations"], distinct_nontrivial=stats["distinct_nontrivial"],
                    rule=mine.get("rule", "random documents, style sheets, data and input histories drawn by index from the seed "
                                  "(replay/src); non-trivial: more than one value observed and compared with the oracle"),
                    samples=stats["samples"], bounded_stand_in=bounded)
    assumptions = list(mine.get("assumptions", [])) + list(registry.get("assumptions", []))
    if units:
        coverage.update(
            obligations=obligations, discharged=discharged,
            checker_cmd="; ".join(sorted({u["cmd"] for u in units if u.get("cmd")})),
            trusted_base=sorted({t for u in units for t in u.get("trusted", [])} | set(registry.get("trusted_base", []))),
            functions_under_contract=sorted({f for u in units for f in u.get("functions", [])}),
            units=[dict(unit=u["unit"], backend=u["backend"], status=u["status"], reason=u["reason"],
                        obligations=[o["name"] for o in u["obligations"]], solver_s=round(u["seconds"], 2),
                        vacuity=u.get("vacuity", ""), dropped=u.get("dropped", [])) for u in units])
    if level == "proof" and not decided:
        level = "exploration"
    doc = dict(property=pid, tier=tier, seed=seed, level=level, coverage=coverage, assumptions=assumptions,
               wall_s=round(time.time() - T0, 2), violations=violations)
    json.dump(doc, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
