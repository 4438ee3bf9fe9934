#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current tree (see DESIGN.md).

 1. vx extracts the functions under contract from /repo, Verus decides every obligation.
 2. harness/ evaluates the contracts on the real compiled code: it looks for a failing input and
    stands in (bounded) for functions the extraction could not bring to the verifier.
"""
import json
import os
import re
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
VX = os.path.join(BUILD, "vx", "release", "vx")
HARNESS_TARGET = os.path.join(BUILD, "harness")


def environment():
    """The variables of /opt/vp/env.sh."""
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh 2>/dev/null; env -0"], capture_output=True).stdout
    env = dict(kv.split("=", 1) for kv in out.decode(errors="replace").split("\0") if "=" in kv)
    env["CARGO_INCREMENTAL"] = "0"
    return env


ENV = environment()


def run(cmd, timeout, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, capture_output=True, timeout=timeout, cwd=cwd, env=env or ENV)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return -1, (e.stdout or b"").decode(errors="replace"), "timed out"


def build_vx():
    rc, out, err = run(["cargo", "build", "--release", "--offline", "--locked", "--target-dir", os.path.join(BUILD, "vx")],
                       600, cwd=os.path.join(VERIF, "vx"))
    return None if rc == 0 else err[-3000:]


def build_harness(binary):
    # Some drivers start the real program.
    program = ["--bin", "ethersync"] if binary in ("client", "peer") else []
    rc, out, err = run(["cargo", "build", "--offline", "--locked", "--bin", binary, *program, "--target-dir", HARNESS_TARGET],
                       800, cwd=os.path.join(VERIF, "harness"))
    return None if rc == 0 else err[-3000:]


NO_ANSWER = ("resource limit", "rlimit", "timed out", "timeout")


class Unit:
    """One Verus run: a generated file, its functions, and the verdict for each of them."""

    def __init__(self, name, workdir):
        self.name = name
        self.dir = workdir
        self.drop = {}       # function -> why it is not verified
        self.forget = set()  # (function, variable its hints name but its code does not have)
        self.failed = {}     # function -> [diagnostics]
        self.unsure = {}     # function -> why the verifier gives no answer
        self.lost = None     # the whole unit is out of reach
        self.meta = {"functions": [], "types": [], "includes": []}
        self.queries = []
        self.smt_ms = 0
        self.total_ms = 0
        self.vacuous = []
        self.trusted = []

    def gen(self, vacuity=False):
        out = os.path.join(self.dir, self.name + ("_v" if vacuity else "") + ".rs")
        meta = out[:-3] + ".json"
        cmd = [VX, "gen", os.path.join(VERIF, "units", self.name + ".unit"), "--repo", REPO, "--verif", VERIF,
               "--out", out, "--meta", meta]
        if self.drop:
            cmd += ["--drop", ";".join(self.drop)]
        if self.forget:
            cmd += ["--forget", ";".join(f"{p}={v}" for p, v in sorted(self.forget))]
        if vacuity:
            cmd += ["--vacuity"]
        rc, so, se = run(cmd, 60)
        if rc != 0:
            return None, None, (so + se).strip()[-1500:]
        return out, json.load(open(meta)), None

    def verus(self, path, extra=()):
        rc, so, se = run(["verus", os.path.basename(path), "--output-json", "--time-expanded", "--error-format=json",
                          "--multiple-errors", "5", *extra], 500, cwd=self.dir)
        diags = []
        for line in se.splitlines():
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("level") == "error" and not d["message"].startswith("aborting"):
                diags.append(d)
        try:
            res = json.loads(so)
        except ValueError:
            res = {}
        return rc, res, diags, se

    @staticmethod
    def owner(diag, meta):
        """The extracted function a diagnostic belongs to."""
        def at(span):
            for f in meta["functions"]:
                a, b = f["gen_lines"]
                if a <= span["line_start"] <= b and not f.get("missing"):
                    return f["path"]
            return None
        spans = sorted(diag["spans"], key=lambda s: not s["is_primary"])
        for s in spans:
            p = at(s)
            if p:
                return p
        return None

    def decide(self):
        for attempt in range(24):
            path, meta, err = self.gen()
            if err:
                self.lost = err
                return
            self.meta = meta
            rc, res, diags, se = self.verus(path)
            vr = res.get("verification-results")
            if vr is None:
                self.lost = "the verifier gave no result: " + se[-800:]
                return
            if vr.get("encountered-vir-error") or (not vr["success"] and vr["errors"] == 0):
                # The text does not get through the verifier's front end: take out the functions named.
                new, gone = {}, set()
                for d in diags:
                    p = self.owner(d, meta)
                    if p and p not in self.drop:
                        m = re.match(r"cannot find value `(\w+)` in this scope", d["message"])
                        if m and (p, m.group(1)) not in self.forget and len(self.forget) < 40:
                            gone.add((p, m.group(1)))
                        else:
                            new[p] = d["rendered"][:600]
                if gone:
                    self.forget |= gone
                    continue
                if not new:
                    self.lost = "".join(d["rendered"] for d in diags)[:1500] or se[-800:]
                    return
                self.drop.update(new)
                continue
            break
        else:
            self.lost = "extraction does not settle"
            return
        if not vr["success"]:
            # Second opinion with a higher resource limit, to rule out an unlucky solver run.
            rc, res2, diags2, se2 = self.verus(path, ["--rlimit", "40"])
            if res2.get("verification-results"):
                res, diags, vr = res2, diags2, res2["verification-results"]
        for d in diags:
            p = self.owner(d, meta) or "lemma"
            low = d["message"].lower()
            if any(w in low for w in NO_ANSWER):
                self.unsure[p] = d["message"]
            else:
                self.failed.setdefault(p, []).append(d["rendered"])
        t = res.get("times-ms", {})
        self.total_ms = t.get("total", 0)
        self.smt_ms = t.get("smt", {}).get("total", 0)
        for m in t.get("smt", {}).get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                self.queries.append((f["function"], bool(f.get("success")), f.get("time-micros", 0)))
        self.scan_trusted(path)
        # A function whose shape no longer fits its proof hints gives no verdict.
        for f in meta["functions"]:
            if f.get("reshaped") and f["path"] in self.failed:
                self.unsure[f["path"]] = "; ".join(f["reshaped"])
                del self.failed[f["path"]]

    def vacuity(self):
        """Every `assert(false)` at a function's entry must fail, or its preconditions are contradictory."""
        path, meta, err = self.gen(vacuity=True)
        if err:
            return
        rc, res, diags, se = self.verus(path)
        if not res.get("verification-results"):
            return
        hit = {self.owner(d, meta) for d in diags if "assertion failed" in d["message"]}
        if not diags:
            self.vacuous = [f["path"] for f in meta["functions"] if f["verified"]]
            return
        self.vacuous = [f["path"] for f in meta["functions"] if f["verified"] and not f.get("missing")
                        and f["path"] not in hit and f["path"] not in self.failed and f["path"] not in self.unsure]

    def scan_trusted(self, path):
        text = open(path).read()
        here = None
        lines = text.splitlines()
        for i, l in enumerate(lines):
            m = re.match(r"// ---- (\S+)", l)
            if m:
                here = m.group(1)
            m = re.match(r"// (fn|type) (\S+)", l)
            if m:
                here = None
            if here is None:
                continue
            kind = None
            if "external_body" in l:
                kind = "assumed contract"
            elif "assume_specification" in l:
                kind = "assumed specification"
            elif re.search(r"\badmit\(\)|\bassume\(", l):
                kind = "assumption"
            elif "axiom fn" in l or "broadcast axiom" in l:
                kind = "axiom"
            if kind:
                name = None
                for k in range(i, min(i + 6, len(lines))):
                    m = re.search(r"(?:fn|struct|enum)\s+(\w+)|assume_specification[^\[]*\[\s*([^\]]+)\]", lines[k])
                    if m:
                        name = m.group(1) or m.group(2).strip()
                        break
                e = f"{here}: {name} ({kind})"
                if e not in self.trusted:
                    self.trusted.append(e)
        for f in self.meta["functions"]:
            if not f["verified"] and not f.get("missing") and not f["dropped"]:
                pass


# Makes the drivers of the whole daemon report whatever goes wrong, not only what concerns the property.
ANYTHING = dict(ENV, HARNESS_ALL="1")


def harness_run(binary, prop, seed, seconds, env):
    exe = os.path.join(HARNESS_TARGET, "debug", binary)
    rc, so, se = run([exe, "run", "--property", prop, "--seed", str(seed), "--seconds", str(seconds)], int(seconds) * 6 + 180, env=env)
    for line in so.splitlines():
        if line.startswith("{"):
            try:
                return json.loads(line), None
            except ValueError:
                pass
    return None, f"exit {rc}: {(so + se)[-1500:]}"


def harness_runs(binary, prop, seed, seconds, env=ENV, jobs=4):
    """Several processes side by side, each with a seed of its own."""
    out = [None] * jobs

    def one(i):
        out[i] = harness_run(binary, prop, seed + 104729 * i, seconds, env)

    ts = [threading.Thread(target=one, args=(i,)) for i in range(jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    good = [r for r, _ in out if r is not None]
    if not good:
        return None, out[0][1]
    tests = {}
    for r in good:
        for t in r["tests"]:
            k = tests.setdefault(t["test"], {"test": t["test"], "cases": 0, "seconds": 0.0})
            k["cases"] += t["cases"]
            k["seconds"] = max(k["seconds"], t["seconds"])
    failures = sorted((f for r in good for f in r["failures"]), key=lambda f: f["size"])
    return {"tests": list(tests.values()), "failures": failures, "known": good[0]["known"]}, None


def main():
    prop = sys.argv[1]
    start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    cfg = json.load(open(os.path.join(VERIF, "tools", "checks.json")))[prop]
    known = [l.strip() for l in open(os.path.join(VERIF, "known-findings.txt"))
             if l.startswith("known: property=" + prop + " ")]
    work = os.path.join(BUILD, "work", prop)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)

    units = [Unit(u, work) for u in cfg["units"]]
    harness_errors = {}
    seconds = cfg.get("seconds", 8) * (8 if tier == "thorough" else 1)

    def prove():
        err = build_vx()
        if err:
            for u in units:
                u.lost = "extractor does not build: " + err
            return
        ts = [threading.Thread(target=u.decide) for u in units]
        [t.start() for t in ts]
        [t.join() for t in ts]
        ts = [threading.Thread(target=u.vacuity) for u in units if not u.lost]
        [t.start() for t in ts]
        [t.join() for t in ts]

    def compile_harness():
        for b in cfg["harness"]:
            err = build_harness(b)
            if err:
                harness_errors[b] = err

    ts = [threading.Thread(target=prove), threading.Thread(target=compile_harness)]
    [t.start() for t in ts]
    [t.join() for t in ts]

    # ---- verdict of the verifier, for the functions this property rests on
    def mine(path, u):
        if path == "lemma":
            return True
        return any(f["path"] == path and (prop in f.get("props", [])) for f in u.meta["functions"])

    failed, bounded, functions = {}, {}, []
    obligations = discharged = 0
    smt_ms = 0
    trusted, assumed, rewrites = [], [], {}
    for u in units:
        if u.lost:
            bounded["unit " + u.name] = u.lost
            continue
        smt_ms += u.smt_ms
        for t in u.trusted:
            if t not in trusted:
                trusted.append(t)
        for p, msgs in u.failed.items():
            if mine(p, u):
                failed[f"{u.name}: {p}"] = msgs
        for p, why in list(u.unsure.items()) + list(u.drop.items()):
            if mine(p, u):
                bounded[f"{u.name}: {p}"] = why
        for f in u.meta["functions"]:
            if prop not in f.get("props", []):
                continue
            if f.get("missing"):
                bounded[f"{u.name}: {f['path']}"] = f["missing"]
            elif f["verified"]:
                ok = f["path"] not in u.failed and f["path"] not in u.unsure
                functions.append({"function": f["path"], "source": f"{f['source']}:{f['lines'][0]}-{f['lines'][1]}",
                                  "discharged": ok, "rewrites": f.get("rewrites", {}), "partial": f.get("partial", False)})
                for k, n in f.get("rewrites", {}).items():
                    rewrites[k] = rewrites.get(k, 0) + n
                obligations += 1
                discharged += ok
            elif not f["dropped"]:
                assumed.append(f"{f['path']} used through its contract in unit {u.name}")
        for name, ok, _ in u.queries:
            if re.match(rf"{u.name}::p_\w+::", name):
                obligations += 1
                discharged += ok
    assumed = sorted(set(assumed))
    names = {f["function"] for f in functions}
    unproved_stubs = [a for a in assumed if a.split(" used through")[0] not in names]
    vacuous = [f"{u.name}: {p}" for u in units for p in u.vacuous]

    # ---- run-time evaluation
    reports, failures, findings = [], [], []
    for b in cfg["harness"]:
        if b in harness_errors:
            continue
        r, err = harness_runs(b, prop, seed, seconds)
        if r is None:
            harness_errors[b] = err
            continue
        reports += [dict(t, binary=b) for t in r["tests"]]
        failures += [dict(f, binary=b) for f in r["failures"]]
        findings += [dict(k, binary=b) for k in r["known"]]
    if (failed or bounded) and not failures:
        # Something is unproved: search harder for a failing input. If an obligation of this property
        # fails, any input on which the real code goes wrong will do.
        for k in range(1, 4):
            anything = bool(failed) and k > 1
            for b in cfg["harness"]:
                if b in harness_errors:
                    continue
                r, err = harness_runs(b, prop, seed + 7919 * k, seconds * 1.5, ANYTHING if anything else ENV)
                if r is not None:
                    reports += [dict(t, binary=b) for t in r["tests"]]
                    failures += [dict(f, binary=b, anything=anything) for f in r["failures"]]
            if failures:
                break
    # An input counts as failing only if it fails again: twice out of five times, since the order in
    # which a HashMap is walked differs from run to run.
    confirmed = []
    until = time.time() + 200
    for f in failures[:8]:
        if len(confirmed) == 2 or time.time() > until:
            break
        exe = os.path.join(HARNESS_TARGET, "debug", f["binary"])
        again = 0
        for _ in range(5):
            again += run([exe, "replay", f["test"], str(f["seed"]), str(f["size"])], 180,
                         env=ANYTHING if f.get("anything") else ENV)[0] == 1
            if again == 2:
                confirmed.append(f)
                break
    cases = sum(t["cases"] for t in reports)

    status, lines = 0, []
    for k in findings:
        entry = next((l for l in known if f"id={k['id']} " in l), None)
        if k["fails"] is None:
            continue
        if entry:
            lines.append(f"KNOWN-FINDING: property={prop} {entry.split(' ', 3)[3] if entry.count(' ') > 2 else k['id']}")
        else:
            confirmed.append({"binary": k["binary"], "test": k["id"], "seed": 0, "size": 0, "what": k["fails"]})
    replay = os.path.join(BUILD, "replay", prop + ".json")
    violation = None
    if confirmed:
        f = confirmed[0]
        violation = {"property": prop, "failing_input": f["what"], "test": f["test"],
                     "replay": f"{'HARNESS_ALL=1 ' if f.get('anything') else ''}{os.path.join(HARNESS_TARGET, 'debug', f['binary'])} replay {f['test']} {f['seed']} {f['size']}",
                     "failed_obligations": failed, "all_failing": confirmed}
        lines.append(f"VIOLATION property={prop} replay={replay}")
        status = 1
    elif failed:
        violation = {"property": prop, "failed_obligations": failed,
                     "note": "no failing input found by run-time evaluation", "cases_tried": cases}
        lines.append(f"VIOLATION property={prop} replay={replay} no-failing-input-found")
        status = 1
    elif vacuous:
        lines.append("error: contradictory preconditions in " + ", ".join(vacuous))
        status = 2
    elif bounded and not reports:
        lines.append("error: neither the verifier nor the run-time evaluation gives an answer")
        lines += [f"  {k}: {v}" for k, v in bounded.items()] + [f"  {k}: {v}" for k, v in harness_errors.items()]
        status = 2
    if violation:
        json.dump(violation, open(replay, "w"), indent=1)

    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "proof"),
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": "verus UNIT.rs --output-json --time-expanded --error-format=json (text generated by vx from /repo)",
            "trusted_base": trusted + ["Verus 0.2026.09.13 with Z3, rustc front end", "vx rewrites (vx/src/rewrite.rs)"],
            "backend": "Verus/Z3", "solver_time_ms": smt_ms,
            "functions_under_contract": functions,
            "rewrites_applied": rewrites,
            "contracts_assumed_here_but_proved_in_other_units": [a for a in assumed if a not in unproved_stubs],
            "contracts_of_repo_functions_assumed": unproved_stubs,
            "bounded": bounded,
            "failed": {k: v[:2] for k, v in failed.items()},
            "runtime_evaluation": {"cases": cases, "tests": reports, "unavailable": harness_errors},
        },
        "assumptions": cfg.get("assumptions", []),
        "violations": len(confirmed) + (1 if failed and not confirmed else 0),
        "wall_s": round(time.time() - start, 1),
    }
    json.dump(evidence, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop}: {discharged}/{obligations} obligations discharged, {len(functions)} functions under contract, "
          f"{cases} run-time evaluations, {len(bounded)} bounded, {evidence['wall_s']} s")
    for k, v in bounded.items():
        print(f"bounded: {k}: {str(v).splitlines()[0] if v else ''}")
    for k in failed:
        print(f"failed obligation: {k}: {failed[k][0].splitlines()[0]}")
    for f in confirmed:
        print(f"failing input ({f['test']} {f['seed']} {f['size']}):")
        print("  " + f["what"][:1500].replace("\n", "\n  "))
    for b, e in harness_errors.items():
        print(f"run-time evaluation {b} unavailable: {e.splitlines()[-1] if e.strip() else ''}")
    for l in lines:
        print(l)
    sys.exit(status)


if __name__ == "__main__":
    main()
