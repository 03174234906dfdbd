#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property for /repo's current working tree:
 1. vx extracts every function of the crate from the source and attaches the contracts in spec/;
    Verus discharges (or fails) the obligations of every function;
 2. the property's replay engine runs the real crate on generated inputs and compares it with what the
    property says: the bounded stand-in for functions outside the verifier's reach, and the search for a
    failing input once an obligation fails.
Exit 0: held. Exit 1 with a VIOLATION line: broken. 2: the tree does not build.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import propmap

PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
TIER = TIER if TIER in ("quick", "thorough") else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = TIER == "thorough"
T0 = time.time()
EVID = os.path.join(VERIF, "evidence")
TARGET = os.path.join(VERIF, "target")
BIND = "/root/.cargo/registry/src/index.crates.io-1949cf8c6b5b557f/perf-event-open-sys2-5.0.6/src/bindings_x86_64.rs"
BASE = json.load(open(os.path.join(VERIF, "spec", "baseline.json")))
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
os.makedirs(EVID, exist_ok=True)
os.makedirs(TARGET, exist_ok=True)
WORK = tempfile.mkdtemp(prefix=f"run-{PROP}-", dir=TARGET)


def sh(cmd, timeout=600, cwd=None, env=None, out=None):
    """Runs a command with the toolchain's environment; returns (status, stdout, stderr)."""
    p = subprocess.Popen(["bash", "-c", ". /opt/vp/env.sh 2>/dev/null; exec \"$@\"", "x"] + cmd, cwd=cwd, env=env or ENV,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o, e


def say(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- the deductive part
SAFETY = re.compile(r"precondition not satisfied|arithmetic (under|over)flow|overflow|underflow|division by zero|bit shift|out of bounds|"
                    r"decreases not satisfied|could not prove termination|termination|loop must have a decreases", re.I)
RESOURCE = re.compile(r"resource limit|rlimit|timed out", re.I)
FAILED = re.compile(r"postcondition not satisfied|precondition not satisfied|assertion (failed|not satisfied)|invariant not satisfied|"
                    r"possible (arithmetic|division|bit shift)|decreases not satisfied|unable to prove|requires not satisfied|"
                    r"could not prove|recommendation not met|bit.?vector|not all errors may have been reported|assert", re.I)


class Proof:
    def __init__(self):
        self.fns = {}          # key -> report entry
        self.failed = {}       # key -> [ {kind, message, lines, text} ]
        self.inconclusive = {} # key -> reason
        self.lost = []
        self.broken = None     # the verifier could not process the crate at all
        self.external = []
        self.stats = {}
        self.canary = None
        self.notes = []
        self.cmd = ""


def extract(external, name):
    # always the same crate name: it has a part in the solver's behaviour
    os.makedirs(os.path.join(WORK, name), exist_ok=True)
    out = os.path.join(WORK, name, "out.rs")
    rep = os.path.join(WORK, name, "out.json")
    cmd = [os.path.join(VERIF, "vx/target/debug/vx"), "--src", REPO + "/src", "--expanded", WORK + "/expanded.rs", "--bindings", BIND,
           "--spec", VERIF + "/spec", "--out", out, "--report", rep]
    for k in external:
        cmd += ["--external", k]
    rc, o, e = sh(cmd, 120)
    if rc != 0:
        return None, e[-2000:]
    return out, json.load(open(rep))


def locate(rep, line):
    best = None
    for f in rep["functions"]:
        if f["from"] <= line <= f["to"] and (best is None or f["to"] - f["from"] < best[0]):
            best = (f["to"] - f["from"], f["key"])
    return best and best[1]


def verus(out, rep, args, timeout):
    """Runs Verus; returns (results or None, errors, resource) where an error is (key, kind, message, text)."""
    cmd = ["verus", os.path.basename(out), "--triggers-mode", "silent", "--output-json", "--time-expanded", "--error-format=json"] + args
    rc, o, e = sh(cmd, timeout, cwd=os.path.dirname(out))
    res = None
    if rc is not None:
        try:
            res = json.loads(o[o.index("{"):])
        except ValueError:
            res = None
    errs = []
    for line in e.splitlines():
        if not line.startswith('{"$message_type"'):
            continue
        m = json.loads(line)
        if m["level"] != "error" or "aborting due to" in m["message"]:
            continue
        spans = [s for s in m["spans"] if s["file_name"].endswith(".rs") and "out" in os.path.basename(s["file_name"]) or s["file_name"] == os.path.basename(out)]
        keys = [(locate(rep, s["line_start"]), s) for s in spans]
        msg = m["message"]
        # the function whose obligation it is: for a postcondition or precondition Verus gives the contract clause
        # and the exit or call; the clause may sit in another item
        body = [k for k, s in keys if k]
        where = None
        if body:
            prim = [k for k, s in keys if k and s["is_primary"]]
            lab = [k for k, s in keys if k and re.search(r"at the end of the function body|at this exit|at this call|at this", s.get("label") or "")]
            where = (lab or prim or body)[0]
            if "precondition" in msg:
                where = (prim or body)[0]
        text = [(s["line_start"], (s.get("label") or ""), " ".join(t["text"].strip() for t in s["text"])[:300]) for s in spans]
        errs.append({"key": where, "all": sorted(set(body)), "message": msg, "spans": text, "rendered": (m.get("rendered") or "")[:3000]})
    return rc, res, errs, e


def run_proof():
    P = Proof()
    rc, o, e = sh([HERE + "/expand.sh", REPO, WORK], 300, env=dict(ENV, VERIF_EXPAND_TARGET=TARGET + "/expand"))
    if rc != 0:
        P.broken = "rustc could not expand the crate: " + e[-1500:]
        return P
    external = set()
    for attempt in range(7):
        out, rep = extract(sorted(external), "out%d" % attempt)
        if out is None:
            P.broken = "the extractor could not read the crate: " + str(rep)
            return P
        args = ["--num-threads", "7", "--rlimit", "60" if THOROUGH else "20"]
        rc, res, errs, raw = verus(out, rep, args, 400)
        P.cmd = "verus out.rs --triggers-mode silent " + " ".join(args)
        if rc is None:
            P.broken = "Verus exceeded 400 s"
            return P
        if res and not res["verification-results"]["encountered-vir-error"] and (res["verification-results"]["verified"] or 0) > 0:
            break
        # the verifier does not support something: leave out the functions concerned and try again
        new = {x["key"] for x in errs if x["key"]} - external
        if not new:
            new = {k for x in errs for k in x["all"]} - external
        new = {k.split(" (part ")[0] for k in new if not k.endswith("(provided body)")} - external
        if not new:
            P.broken = "outside the verifier's reach: " + "; ".join(x["message"] for x in errs[:3]) + ("" if errs else raw[-500:])
            P.rep = rep
            P.fns = {f["key"]: f for f in rep["functions"]}
            return P
        for k in new:
            P.inconclusive[k] = "not accepted by the verifier's dialect: " + "; ".join(x["message"] for x in errs if any(a.split(" (part ")[0] == k for a in x["all"]))[:300]
        external |= new
    else:
        P.broken = "outside the verifier's reach after leaving out " + ", ".join(sorted(P.inconclusive))
        return P
    P.fns = {f["key"]: f for f in rep["functions"]}
    P.lost = rep["lost"] + ["impl " + x for x in rep["lost_impls"]]
    P.external = [(f["key"], f["reason"] or P.inconclusive.get(f["key"], ""))
                  for f in rep["functions"] if f["mode"] == "external"]
    P.stats = {"verified": res["verification-results"]["verified"], "errors": res["verification-results"]["errors"],
               "smt_s": round(res["times-ms"]["smt"]["total"] / 1000, 1), "verify_s": round(res["times-ms"]["total"] / 1000, 1)}
    text = open(out).read()
    lines = text.split("\n")
    P.assumed = len(re.findall(r"assume_specification", text)), len(re.findall(r"external_body", text)), len(re.findall(r"\badmit\(\)|\bassume\(", text))
    helpers = {f["key"] for f in rep["functions"] if f["key"] not in BASE["keys"] and f["mode"] == "verify" and " as " not in f["key"]}
    P.helpers = sorted(helpers)
    short = {h.split("::")[-1] for h in helpers}
    P.canary = 0
    fails = {}
    for x in errs:
        if any("vp_canary" in t for _, _, t in x["spans"]):
            P.canary += 1
            continue
        k = x["key"]
        if k is None:
            # a lemma or a specification item
            ks = x["all"]
            if not ks:
                P.notes.append("supporting lemma not proved: " + x["message"] + " " + str(x["spans"])[:300])
                continue
            k = ks[0]
        fails.setdefault(k, []).append(x)
    P.errs_total = len(errs)
    # a function that was not accepted gets a query of its own: the solver's luck depends on what else is in the module
    names = [f["function"] for m in res["times-ms"]["smt"].get("smt-run-module-times", []) for f in m.get("function-breakdown", [])
             if not f.get("success", True)]
    mods = sorted((m["module"] for m in res["times-ms"]["smt"].get("smt-run-module-times", [])), key=len, reverse=True)

    def alone(k):
        f = P.fns.get(k) or {"from": 0}
        m = re.search(r"\bfn (?:r#)?(\w+)", "\n".join(lines[f["from"] - 1:f["from"] + 4]).split("*/", 1)[-1]) if f["from"] else None
        c = [n for n in names if m and n.split("::")[-1] == m.group(1)]
        ty = re.match(r"\w+", k)
        c = [n for n in c if ty and ty.group(0) in n.split("::")] or c
        if not c or len(c) > 2:
            return k, False
        for n in c:
            n = n.split("::", 1)[1]
            mod = next((x for x in mods if n.startswith(x + "::")), None)
            if mod is None:
                return k, False
            rc, r, e, raw = verus(out, rep, ["--verify-only-module", mod, "--verify-function", n[len(mod) + 2:], "--rlimit", "60"], 150)
            v = r["verification-results"] if r else {}
            if rc != 0 or v.get("encountered-vir-error") or v.get("errors") != 0 or not v.get("verified"):
                return k, False
        return k, True
    with ThreadPoolExecutor(4) as ex:
        for k, ok in ex.map(alone, sorted(fails)[:8]):
            if ok:
                P.stats["verified"] += 1
                P.stats["errors"] -= len(fails.pop(k))
                P.notes.append(k + ": discharged in a query of its own")
    for k, xs in fails.items():
        f = P.fns.get(k, {})
        body = "\n".join(lines[f["from"] - 1:f["to"]]) if f else ""
        if not any(not RESOURCE.search(x["message"]) for x in xs):
            P.inconclusive[k] = "the solver ran out of resources"
        elif f.get("missing_closures") or f.get("extra_closures") or f.get("loops", 0) != f.get("loops_spec", 0):
            P.inconclusive[k] = "its loops or closures are not the ones the contract was written for"
        elif any("crate::vp::same(" in t for x in xs for _, _, t in x["spans"]):
            P.inconclusive[k] = "a closure without a contract"
        elif k in helpers:
            P.inconclusive[k] = "a function without a contract"
        elif any(re.search(r"\b%s\b" % re.escape(h), body) for h in short):
            P.inconclusive[k] = "calls a function without a contract: " + ", ".join(h for h in sorted(short) if re.search(r"\b%s\b" % re.escape(h), body))
        elif f.get("hints") and BASE["shape"].get(k, "") != f.get("shape", ""):
            P.inconclusive[k] = "its proof hints belong to a body of another shape"
        else:
            P.failed[k] = xs
    return P


# ---------------------------------------------------------------- the bounded part
BIN = TARGET + "/replay/debug/replay"


def build_replay():
    """The crate under test is always compiled again: time stamps of a copied tree prove nothing."""
    fp = TARGET + "/replay/debug/.fingerprint"
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith(("perf-event-data-", "replay-")):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    rc, o, e = sh(["cargo", "build", "--offline", "--quiet"], 600, cwd=VERIF + "/replay", env=dict(ENV, CARGO_TARGET_DIR=TARGET + "/replay"))
    return rc == 0, e


def engine(i, seed, ms):
    out = os.path.join(WORK, f"engine{i}-{seed}.json")
    rc, o, e = sh([BIN, PROP, "--seed", str(seed), "--ms", str(ms), "--out", out], ms / 1000 + 120, cwd=WORK)
    r = {"cases": 0, "compared": 0, "skipped": 0, "distinct": 0, "samples": [], "fails": []}
    if rc in (0, 1) and os.path.exists(out):
        r.update(json.load(open(out)))
        return r
    # crashed, aborted or hung: the case it was at
    try:
        case = open(out + ".cur").read().split()[0]
    except (OSError, IndexError):
        r["error"] = f"the engine ended with {rc}: {e[-400:]}"
        return r
    hang = rc == 9 or rc is None
    rc2, o2, e2 = sh([BIN, PROP, "--case", case], 40, cwd=WORK)
    if rc2 == 0:
        r["error"] = f"the engine ended with {rc} at case {case}, which passes alone: {e[-400:]}"
    elif rc2 is None or hang:
        r["fails"] = [{"case": int(case), "what": "does not terminate\n" + (o2 or "")[-1500:]}]
    else:
        r["fails"] = [{"case": int(case), "what": f"the process died (status {rc2})\n" + (o2 + e2)[-1500:]}]
    return r


def search(n, ms, salt):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(lambda i: engine(i, SEED * 1000003 + salt * 1009 + i, ms), range(n)))


def main():
    rc, o, e = sh(["cargo", "build", "--offline", "--quiet"], 600, cwd=VERIF + "/vx")
    if rc != 0:
        say("the extractor does not build:", e[-2000:])
        return 2
    state = {}

    def bounded():
        ok, err = build_replay()
        state["replay_ok"], state["replay_err"] = ok, err
        if not ok:
            state["runs"] = []
            return
        state["runs"] = search(8 if THOROUGH else 4, (300000 if THOROUGH else 18000), 1)
        rc, o, e = sh([BIN, "--known"], 60, cwd=WORK)
        state["known"] = [l for l in o.splitlines() if l.strip()]

    th = threading.Thread(target=bounded)
    th.start()
    P = run_proof()
    th.join()
    if not state["replay_ok"]:
        rc, o, e = sh(["cargo", "build", "--offline", "--quiet", "--lib"], 600, cwd=REPO, env=dict(ENV, CARGO_TARGET_DIR=WORK + "/t"))
        if rc != 0:
            say("the crate does not build:", e[-2000:])
            return 2
    runs = state["runs"]
    mine = {k: f for k, f in P.fns.items() if f["mode"] != "required" and (PROP == "C01" or PROP in propmap.direct(k))}

    def hits(k, xs):
        """Is one of these failed obligations an obligation of this property?"""
        safety = [x for x in xs if SAFETY.search(x["message"])]
        other = [x for x in xs if not SAFETY.search(x["message"])]
        d = propmap.direct(k)
        if PROP == "C01":
            return bool(safety) or not d
        if PROP == "C15" and any("alloc" in str(x["spans"]) or "with_capacity" in str(x["spans"]) for x in safety):
            return True
        return bool(other) and PROP in d

    bad = {k: xs for k, xs in P.failed.items() if hits(k, xs)}
    fails = [f for r in runs for f in r["fails"]]
    if bad and not fails and state["replay_ok"]:
        say(f"{len(bad)} obligation(s) failed; looking for a failing input")
        more = search(8, 90000, 2)
        runs += more
        fails = [f for r in runs for f in r["fails"]]
    undis = {k: P.inconclusive[k] for k in mine if k in P.inconclusive}
    ext = {k: r for k, r in P.external if k in mine and k not in undis}
    known = [k for k in BASE_KNOWN if k["property"] == PROP]
    for k in known:
        if any(l.startswith(k["id"]) for l in state.get("known", [])):
            say(f"KNOWN-FINDING: property={PROP} {k['what']}")
    vac = P.canary == BASE["canaries"] if P.canary is not None else False
    obligations = len(mine)
    failed_mine = [k for k in mine if k in P.failed]
    if P.broken or not vac:
        discharged = 0
    else:
        discharged = obligations - len(undis) - len(ext) - len(failed_mine)
    violations = len(fails) + len(bad)
    cov = {
        "obligations": obligations - len(ext), "discharged": discharged,
        "checker_cmd": f"tools/check.py {PROP} -> {P.cmd}",
        "back_end": "Verus 0.2026.09.13 with its Z3",
        "functions": sorted(k for k in mine if k not in undis and k not in ext and k not in P.failed) if not P.broken else [],
        "functions_failed": {k: [x["message"] for x in P.failed[k]] for k in failed_mine},
        "functions_undischarged": undis if not P.broken else {"*": P.broken},
        "functions_assumed": ext,
        "crate": dict(P.stats, functions_verified=sum(1 for k, f in P.fns.items() if f["mode"] == "verify" and k not in P.inconclusive and k not in P.failed),
                      new_functions_without_contract=getattr(P, "helpers", []), contracts_without_function=P.lost, notes=P.notes),
        "vacuity_guard": {"false statements that must fail": BASE["canaries"], "failed as they must": P.canary},
        "trusted_base": TRUSTED + [f"assumed specifications in the generated crate: {getattr(P, 'assumed', ('?',) * 3)[0]} assume_specification, {getattr(P, 'assumed', ('?',) * 3)[1]} external bodies"]
                        + [f"assumed contract: {k}: {r}" for k, r in P.external],
        "evaluations": sum(r["cases"] for r in runs), "distinct_nontrivial": sum(r["distinct"] for r in runs),
        "compared": sum(r["compared"] for r in runs), "skipped": sum(r["skipped"] for r in runs),
        "rule": "bounded validation of the real crate: random cases from VERIF_SEED; a case counts when a result was compared with the reference, distinct by input and entry point",
        "samples": [s for r in runs for s in r["samples"][:1]][:4],
        "engine_errors": [r["error"] for r in runs if r.get("error")] + ([] if state["replay_ok"] else ["the replay crate does not build against this tree: " + state["replay_err"][-800:]]),
    }
    level = BASE["levels"].get(PROP, "proof")
    if level == "proof" and (P.broken or discharged < obligations - len(ext)):
        level = "exploration"
    ev = {"property": PROP, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "violations": violations,
          "assumptions": ASSUME, "wall_s": round(time.time() - T0, 1)}
    with open(os.path.join(EVID, PROP + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    say(f"{PROP}: {discharged}/{obligations - len(ext)} functions discharged, {len(ext)} assumed, {len(undis)} bounded only; "
        f"{cov['evaluations']} cases run, {cov['compared']} compared; {ev['wall_s']} s" + (f"; verifier: {P.broken[:300]}" if P.broken else ""))
    for k, r in undis.items():
        say(f"  bounded only: {k}: {r}")
    for x in cov["engine_errors"]:
        say("  note:", x)
    if not fails and not bad:
        return 0
    path = os.path.join(EVID, f"replay-{PROP}.json")
    rep = {"property": PROP, "failed_obligations": {k: [{"message": x["message"], "where": x["spans"], "output": x["rendered"]} for x in xs] for k, xs in bad.items()},
           "failing_inputs": [{"case": f["case"], "what": f["what"], "rerun": f"{BIN} {PROP} --case {f['case']}"} for f in fails[:5]]}
    with open(path, "w") as f:
        json.dump(rep, f, indent=1)
    for k, xs in bad.items():
        say(f"failed obligation in {k}: " + "; ".join(sorted({x['message'] for x in xs})))
    if fails:
        say(fails[0]["what"][:2000])
        say(f"VIOLATION property={PROP} replay={path}")
    else:
        say(f"VIOLATION property={PROP} replay={path} no-failing-input-found")
    return 1


ASSUME = [
    "the target is little-endian x86_64; bindgen bit-field accessors mean what their names say there",
    "data sources conform to the ParseBuf contract (its safety comment)",
    "allocation succeeds; Vec::with_capacity allocates what it is asked for",
    "machine integers are exact (overflow is an obligation, not assumed away)",
    "the extraction rules of DESIGN.md preserve meaning",
]
TRUSTED = [
    "Verus 0.2026.09.13.671956e, its Z3 and vstd", "rustc's macro expansion", "vx, the extractor (rules in DESIGN.md)",
    "spec/prelude.rs: stand-ins and assumed specifications for std (Vec, Cow, slices, SmallVec/ArrayVec, integer conversions) and for pointer casts",
]
BASE_KNOWN = [json.loads(l) for l in open(os.path.join(VERIF, "known-findings.jsonl")) if l.startswith("{")]

if __name__ == "__main__":
    try:
        rc = main()
    finally:
        shutil.rmtree(WORK, ignore_errors=True)
    sys.exit(rc)
