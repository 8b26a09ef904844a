"""Engine V: proof units regenerated from /repo's current source by extract/ and decided by Verus.

A unit is proved when every obligation of every function in it is discharged and the deliberately false variant of it
(`assert(false)` at the start of each extracted function) is refused for each of them.
failed     an obligation of the current source is refused (and the source still has the structure the proof was written for)
undecided  extraction lost something, Verus does not read the new text, a resource limit, or restructured code
"""
import fnmatch, json, os, re, shutil, threading, time

REFUSED = re.compile(r"^error: (postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|"
                     r"loop invariant not|possible arithmetic|possible division|decreases not satisfied|unable to prove|recommendation not met|"
                     r"assertion might|could not prove|failed (?:this )?(?:post|pre)condition|possible bit shift|at the end of|index out|bounds|.*not satisfied)", re.M)


def build(work, here, run):
    crate = os.path.join(work, "extract")
    if not os.path.isdir(crate):
        shutil.copytree(os.path.join(here, "extract"), crate, ignore=shutil.ignore_patterns("target"))
    target = os.path.join(work, "extract-target")
    code, out = run(["cargo", "build", "--offline", "-q"], 300, cwd=crate, env={"CARGO_TARGET_DIR": target, "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": ""})
    if code != 0:
        raise RuntimeError("extractor: " + out[-800:])
    return os.path.join(target, "debug/vextract")


def parse_shape(text):
    m = re.match(r"loops=(\d+) calls=(.*)", text)
    return int(m.group(1)), set(filter(None, m.group(2).split(",")))


def restructured(now, recorded):
    """the source no longer has the structure the annotations were written for: other loops, or calls that were not there"""
    why = []
    for name, shape in now.items():
        if name not in recorded:
            continue
        (l0, c0), (l1, c1) = parse_shape(recorded[name]), parse_shape(shape)
        if l0 != l1:
            why.append(f"{name}: {l1} loops instead of {l0}")
        c1 -= {"Ok", "Some", "Err", "iter", "clone"}
        if c1 - c0:
            why.append(f"{name}: new calls {', '.join(sorted(c1 - c0))}")
    return why


def functions_of(text):
    """JSON summary of a Verus run: {function: ok}, verified, errors"""
    # the summary is an object of its own lines; messages before it may quote braces of the source
    d = None
    for m in re.finditer(r"^\{$", text, re.M):
        try:
            d = json.JSONDecoder().raw_decode(text[m.start():])[0]
        except ValueError:
            continue
        if "verification-results" in d:
            break
        d = None
    if d is None:
        return None
    fns = {}
    seconds = d.get("times-ms", {}).get("total", 0) / 1000.0
    smt = d.get("times-ms", {}).get("smt", {})
    for m in smt.get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            name = f["function"].split("::", 1)[-1]
            fns[name] = fns.get(name, True) and f["success"]
    return dict(fns=fns, seconds=seconds, result=d.get("verification-results", {}), smt=smt.get("smt-run", 0) / 1000.0)


def one(unit, exe, work, repo, here, run, left, tier, conf, foreign=()):
    """foreign: patterns of functions of a shared unit whose contracts belong to other properties"""
    def is_foreign(n):
        return any(fnmatch.fnmatchcase(n, p) for p in foreign)
    t0 = time.time()
    res = dict(unit=unit, status="undecided", reason="", obligations=[], seconds=0.0, backend="verus/z3", functions=[], trusted=[], dropped=[], vacuity="",
               cmd=f"vextract /repo contracts/{unit}.rs OUT && verus OUT")
    src = os.path.join(here, "contracts", unit + ".rs")
    outs = {}
    for kind in ("", "-vacuity"):
        dst = os.path.join(work, f"{unit}{kind}.rs".replace("-", "_"))
        code, out = run([exe, repo, src, dst] + (["--vacuity"] if kind else []), 60)
        if code != 0:
            lost = [l for l in out.splitlines() if l.startswith("LOST")]
            res["reason"] = (lost or [out[-300:]])[0]
            return res
        outs[kind] = dst
    shapes = {}
    for l in out.splitlines():
        if l.startswith("FUNCTION "):
            res["functions"].append(l[9:])
        elif l.startswith("DROPPED "):
            res["dropped"].append(l[8:])
        elif l.startswith("SHAPE "):
            name, shape = re.match(r"SHAPE (.*?) (loops=.*)", l).groups()
            shapes[name] = shape
    text = open(outs[""]).read()
    res["trusted"] = sorted({f"{unit}: " + re.sub(r"\s+", " ", m.group(1)) for m in re.finditer(r"#\[verifier::external_body\]\s*(?:pub )?((?:proof )?(?:fn|struct) \w+)", text)})
    rlimit = str(conf.get("rlimit", 60))
    got = {}

    def verus(kind, seed=None):
        # the working directory matters: verus leaves files of the solver there
        cwd = os.path.join(work, "v" + unit + kind + (seed or ""))
        os.makedirs(cwd, exist_ok=True)
        got[seed or kind] = run(["verus", outs[kind], "--rlimit", rlimit, "--output-json", "--time-expanded", "--multiple-errors", "20"]
                                + (["--smt-option", "smt.random_seed=" + seed] if seed else []), max(20, min(conf.get("timeout", 400), left() - 20)), cwd=cwd)
    ts = [threading.Thread(target=verus, args=(k,)) for k in outs]
    [t.start() for t in ts]
    [t.join() for t in ts]
    res["seconds"] = time.time() - t0
    code, out = got[""]
    if code is None:
        res["reason"] = "time limit of the verifier"
        return res
    s = functions_of(out)
    errors = [m.group(0) for m in re.finditer(r"^error.*(?:\n(?!error|\{).*){0,12}", out, re.M)]
    res["output"] = "\n".join(errors)[-6000:]
    if s is None or not s["result"] or s["result"].get("encountered-vir-error") or re.search(r"^error\[E\d+\]", out, re.M) or (code != 0 and not s["fns"]):
        res["reason"] = "the verifier does not read the current text: " + (errors[0][:400] if errors else out[-300:])
        return res
    res["seconds"] = s["smt"]
    extracted = {re.sub(r".*? for ", "", f.split("::", 1)[1]) for f in res["functions"]}
    res["obligations"] = [dict(name=f"{unit}::{n}", ok=ok) for n, ok in sorted(s["fns"].items()) if not is_foreign(n)]
    extracted = {f for f in extracted if not is_foreign(f)}
    if s["result"].get("success") and code == 0:
        vcode, vout = got["-vacuity"]
        v = functions_of(vout) if vcode is not None else None
        if v is None or not v["fns"]:
            res["vacuity"] = "no answer"
        else:
            accepted = [f for f in extracted if v["fns"].get(f, v["fns"].get(conf.get("renamed", {}).get(f, ""), False))]
            res["vacuity"] = f"assert(false) refused in all {len(extracted)} functions" if not accepted else "ACCEPTED FALSE in " + ", ".join(accepted)
            if accepted:
                res["reason"] = "vacuous: " + res["vacuity"]
                return res
        res["status"] = "proved"
        return res
    if all(s["fns"].values()):
        res["reason"] = "verifier error: " + (errors[0][:300] if errors else out[-300:])
        return res
    # a refusal of the solver may be an accident of its search: an obligation stays refused when two other searches refuse it as well
    seeds = ["7", "42"]
    ts = [threading.Thread(target=verus, args=("", k)) for k in seeds]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for k in seeds:
        again = functions_of(got[k][1]) if got[k][0] is not None else None
        for n, ok in (again["fns"] if again else {}).items():
            s["fns"][n] = s["fns"].get(n, False) or ok
    res["obligations"] = [dict(name=f"{unit}::{n}", ok=ok) for n, ok in sorted(s["fns"].items()) if not is_foreign(n)]
    if all(s["fns"].values()):
        res["status"], res["vacuity"] = "proved", "not run: accepted by another search of the solver"
        return res
    recorded = json.load(open(os.path.join(here, "contracts", "shapes.json"))).get(unit, {})
    bad = [n for n, ok in s["fns"].items() if not ok and not is_foreign(n)]
    if not bad and any(not ok for ok in s["fns"].values()):
        # only contracts that belong to other properties are refused
        res["status"], res["vacuity"] = "proved", "not run: contracts of other properties are refused in this unit"
        return res
    refused = REFUSED.search(out)
    limited = re.search(r"Resource limit|rlimit|timed out", out)
    first = (errors[0] if errors else "").replace("\n", " ")[:300]
    why = restructured(shapes, recorded)
    if not refused or (limited and len(REFUSED.findall(out)) == 0):
        res["reason"] = "resource limit" if limited else "verifier error: " + first
    elif why:
        res["reason"] = "restructured code, the annotations do not fit: " + "; ".join(why) + " | " + first
    else:
        res["status"] = "failed"
        res["reason"] = f"{', '.join(bad)}: {first}"
    return res


def decide(pid, units, work, repo, here, run, left, tier):
    registry = json.load(open(os.path.join(here, "contracts/units.json")))
    exe = build(work, here, run)
    res = [None] * len(units)

    def go(k):
        try:
            res[k] = one(units[k], exe, work, repo, here, run, left, tier, registry.get("verus", {}).get(units[k], {}),
                         registry["properties"].get(pid, {}).get("foreign", {}).get(units[k], []))
        except Exception as e:
            res[k] = dict(unit=units[k], status="undecided", reason=f"machinery: {e!r}", obligations=[], seconds=0.0, backend="verus/z3", functions=[], trusted=[])
    ts = [threading.Thread(target=go, args=(k,)) for k in range(len(units))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return res


def record():
    """python3 verus_engine.py: records the structure of the functions the proofs were written for"""
    import subprocess, tempfile
    here = os.path.dirname(os.path.abspath(__file__))

    def run(cmd, timeout, cwd=None, env=None):
        p = subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True)
        return p.returncode, p.stdout + p.stderr
    work = tempfile.mkdtemp()
    exe = build(work, here, run)
    shapes = {}
    for f in sorted(os.listdir(os.path.join(here, "contracts"))):
        if f.endswith(".rs"):
            code, out = run([exe, "/repo", os.path.join(here, "contracts", f), os.path.join(work, "o.rs")], 60)
            if code != 0:
                print(f, out)
                continue
            shapes[f[:-3]] = dict(re.match(r"SHAPE (.*?) (loops=.*)", l).groups() for l in out.splitlines() if l.startswith("SHAPE "))
    json.dump(shapes, open(os.path.join(here, "contracts/shapes.json"), "w"), indent=1, sort_keys=True)
    shutil.rmtree(work)


if __name__ == "__main__":
    record()
