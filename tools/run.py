#!/usr/bin/env python3
"""Decides one property: `run.py C01`.

Discharges the contracts of the property against /repo's working tree: with Kani
(every obligation of every harness) and natively (the same contracts, on all
inputs within a bound and on seeded random ones). See DESIGN.md.
"""
import json
import os
import re
import signal
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from plan import PLAN, TRUSTED  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
# Threads for the two layers. They overlap: the verifier's last harnesses are few.
KANI_JOBS = int(os.environ.get("VERIF_KANI_JOBS", "7"))
NATIVE_JOBS = int(os.environ.get("VERIF_NATIVE_JOBS", "4"))
REPLAYS = os.path.join(VERIF, "evidence", "replay")

ENV = dict(os.environ)
ENV["CARGO_NET_OFFLINE"] = "true"
ENV["CARGO_TERM_COLOR"] = "never"
for name in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
    ENV.pop(name, None)


def crate_dir(crate):
    return os.path.join(VERIF, "contracts", crate)


def build_native(crate):
    command = ["cargo", "build", "--offline", "--quiet", "--target-dir", os.path.join(VERIF, "target", "native")]
    r = subprocess.run(command, cwd=crate_dir(crate), env=ENV, capture_output=True, text=True)
    if r.returncode != 0:
        return None, r.stderr
    return os.path.join(VERIF, "target", "native", "debug", crate), ""


# ---------------------------------------------------------------- native layer


def run_native(binary, spec):
    scale = 1 if TIER == "quick" else spec.get("thorough_scale", 20)
    seconds = spec.get("seconds", 10) * scale
    command = [
        binary,
        "check",
        spec["contract"],
        str(spec.get("limit", 10**12)),
        str(spec.get("random", 0) * scale),
        str(SEED),
        str(seconds),
    ]
    result = {"contract": spec["contract"], "status": "error", "why": ""}
    try:
        r = subprocess.run(command, cwd=VERIF, env=ENV, capture_output=True, text=True, timeout=seconds + 120)
    except subprocess.TimeoutExpired:
        result["why"] = "the driver did not stop"
        return result
    for line in r.stdout.splitlines():
        if line.startswith("{"):
            try:
                result = json.loads(line)
            except json.JSONDecodeError:
                pass
    if result["status"] == "error":
        if r.returncode < 0:
            return crashed(binary, command, spec, -r.returncode)
        result["why"] = f"exit {r.returncode}: {r.stderr[-600:]}"
    return result


def crashed(binary, command, spec, number):
    """A run ended the process (stack overflow, invalid memory access): finds which."""
    env = dict(ENV)
    trace = os.path.join(REPLAYS, f"trace-{os.getpid()}-{spec['contract']}")
    os.makedirs(REPLAYS, exist_ok=True)
    env["VC_TRACE"] = trace
    try:
        r = subprocess.run(command, cwd=VERIF, env=env, capture_output=True, text=True, timeout=700)
        with open(trace) as f:
            mode, choices = f.read().strip().split(" ") if os.path.getsize(trace) else ("replay", "")
    except (subprocess.TimeoutExpired, OSError, ValueError):
        return {"contract": spec["contract"], "status": "error", "why": f"ended by signal {number}, not reproduced"}
    finally:
        if os.path.exists(trace):
            os.remove(trace)
    if r.returncode >= 0:
        return {"contract": spec["contract"], "status": "error", "why": f"ended by signal {number}, not reproduced"}
    return {
        "contract": spec["contract"],
        "status": "failed",
        "mode": mode,
        "choices": [int(c) for c in choices.split(",") if c],
        "message": f"the process is ended by signal {-r.returncode}",
        "input": "",
    }


def replay_native(binary, contract, mode, choices):
    command = [binary, "replay", contract, mode, ",".join(map(str, choices))]
    try:
        r = subprocess.run(command, cwd=VERIF, env=ENV, capture_output=True, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return "failed", "the call does not return", command
    if r.returncode == 0:
        return "held", r.stdout.strip(), command
    if r.returncode == 2:
        return "unknown", "the contract runs only in the verifier", command
    return "failed", r.stdout.strip() or f"the process ended with status {r.returncode}", command


# ------------------------------------------------------------------ Kani layer


def kani_command(crate, harnesses, extra=()):
    command = ["cargo", "kani", "--target-dir", os.path.join(VERIF, "target", "kani"), "-Z", "unstable-options", "-Z", "stubbing"]
    command += ["--output-format", "terse", "--exact", "--lib", "--no-assertion-reach-checks"]
    for h in harnesses:
        command += ["--harness", "proofs::" + h]
    return command + list(extra)


class Kani:
    """A running verifier that can be stopped once a failing input is known."""

    def __init__(self):
        self.process = None
        self.stopped = False

    def run(self, command, cwd, budget):
        if self.stopped:
            return ""
        self.process = subprocess.Popen(command, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
        try:
            return self.process.communicate(timeout=budget)[0]
        except subprocess.TimeoutExpired:
            self.kill()
            return self.process.communicate()[0]

    def kill(self):
        self.stopped = True
        if self.process and self.process.poll() is None:
            try:
                os.killpg(self.process.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass


def run_kani(kani, crate, specs, cbmc=()):
    """{harness: {status, checks, failed, failures, seconds, log}}"""
    if not specs:
        return {}, []
    jobs = min(KANI_JOBS, len(specs))
    timeout = max(s.get("timeout", 300) for s in specs)
    command = kani_command(
        crate,
        [s["harness"] for s in specs],
        ["--harness-timeout", f"{timeout}s"] + (["-j", str(jobs)] if jobs > 1 else []) + (["--cbmc-args", *cbmc] if cbmc else []),
    )
    budget = 820 if TIER == "quick" else 4 * 3600
    log = kani.run(command, crate_dir(crate), budget)
    results = {}
    current, thread = None, {}
    block = {}
    for line in log.splitlines():
        m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.", line)
        if m:
            name = m.group(2).split("::")[-1]
            thread[m.group(1) or ""] = name
            current = name
            continue
        m = re.match(r"Thread (\d+): ?$", line)
        if m:
            current = thread.get(m.group(1))
            continue
        if current:
            block.setdefault(current, []).append(line)
    for s in specs:
        name = s["harness"]
        lines = block.get(name, [])
        text = "\n".join(lines)
        result = {"status": "undecided", "why": "", "checks": 0, "failures": [], "seconds": 0.0, "log": text[-6000:]}
        results[name] = result
        m = re.search(r"\*\* (\d+) of (\d+) failed(?: \((.*?)\))?", text)
        if m:
            result["checks"] = int(m.group(2))
            result["failed"] = int(m.group(1))
        m = re.search(r"Verification Time: ([\d.]+)s", text)
        if m:
            result["seconds"] = float(m.group(1))
        m = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", text)
        covers = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        for i, line in enumerate(lines):
            if line.startswith("Failed Checks: "):
                place = lines[i + 1].strip() if i + 1 < len(lines) else ""
                result["failures"].append((line[len("Failed Checks: "):], place))
        if "VERIFICATION:- SUCCESSFUL" in text:
            if covers[1] and covers[0] == covers[1]:
                result["status"] = "discharged"
            else:
                result["why"] = "the end of the contract was not shown reachable"
        elif "VERIFICATION:- FAILED" in text:
            real = [f for f in result["failures"] if not limitation(f)]
            if real and len(real) == len(result["failures"]):
                result["status"] = "failed"
                result["failures"] = real
            elif result["failures"]:
                result["why"] = "loop bound or unsupported construct: " + result["failures"][0][0][:200]
                if real:
                    # Failures found beside a limitation still have to be looked at.
                    result["status"] = "suspect"
                    result["failures"] = real
            else:
                result["why"] = "timeout or memory: " + text[-300:].replace("\n", " ")
        elif kani.stopped:
            result["why"] = "stopped: a failing input was found, or the time was up"
        elif not lines:
            errors = re.findall(r"^error.*(?:\n.*){0,6}", log, re.M)
            result["why"] = "not compiled by the verifier: " + ("; ".join(errors)[:600] or log[-300:])
        else:
            result["why"] = "no verdict: " + text[-300:].replace("\n", " ")
    return results, command


def limitation(failure):
    what, _ = failure
    return bool(
        re.search(r"unwinding assertion|is not currently supported|unsupported|recursion unwinding|reachability assertion|no body for|missing function", what)
    )


def counterexample(crate, spec):
    """The nondeterministic values of a failing trace, in order."""
    command = kani_command(crate, [spec["harness"]], ["-Z", "concrete-playback", "--concrete-playback=print"])
    try:
        r = subprocess.run(command, cwd=crate_dir(crate), env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=max(240, 2 * spec.get("timeout", 300)))
    except subprocess.TimeoutExpired:
        return []
    found = []
    for test in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\];\s*\n\s*kani::concrete_playback_run", r.stdout, re.S):
        values = []
        for v in re.findall(r"vec!\[([\d, ]*)\]", test):
            data = bytes(int(b) for b in v.replace(" ", "").split(",") if b)
            values.append(int.from_bytes(data, "little"))
        if values not in found:
            found.append(values)
    return found


def inside(place):
    """Whether a failed check lies in the code under contract or in the contract itself."""
    return "/repo/" in place or 'File: "src/' in place or "/contracts/" in place


# ----------------------------------------------------------------------- verdict


def write_replay(prop, name, data):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{prop}-{name}.json")
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")
    return path


def main():
    prop = sys.argv[1]
    plan = PLAN[prop]
    start = time.time()
    evidence_path = os.path.join(VERIF, "evidence", f"{prop}.json")
    os.makedirs(os.path.dirname(evidence_path), exist_ok=True)
    violations = []
    native_results, kani_results = [], {}
    functions, commands = {}, []
    undecided = []
    notes = []
    for part in plan["parts"]:
        crate = part["crate"]
        kani_specs = [s for s in part.get("kani", []) if TIER == "thorough" or s.get("tier", "quick") == "quick"]
        native_specs = part.get("native", [])
        binary, error = build_native(crate)
        if binary is None:
            print(f"{prop}: the contracts do not compile against /repo:\n{error[-3000:]}")
            return 2
        with ThreadPoolExecutor(NATIVE_JOBS + 1) as pool:
            kani = Kani()
            kani_future = pool.submit(run_kani, kani, crate, kani_specs, part.get("cbmc", ()))
            native_part = []
            for r in pool.map(lambda s: run_native(binary, s), native_specs):
                native_part.append(r)
                if r["status"] == "failed":
                    kani.kill()
            results, command = kani_future.result()
        native_results += native_part
        if command:
            commands.append(f"cd {crate_dir(crate)} && " + " ".join(command))
        for spec in kani_specs:
            for f in spec.get("functions", []):
                functions.setdefault(f, []).append(spec["harness"])
        for spec, r in zip(native_specs, native_part):
            for f in spec.get("functions", []):
                functions.setdefault(f, []).append("native:" + spec["contract"])
            if r["status"] == "failed":
                path = write_replay(prop, r["contract"], {
                    "property": prop, "contract": r["contract"], "choices": r["choices"], "mode": r["mode"],
                    "failed": r["message"], "input": r["input"],
                    "replay_cmd": f"{binary} replay {r['contract']} {r['mode']} {','.join(map(str, r['choices']))}",
                })
                violations.append((path, f"{r['contract']}: {r['message']} [{r['input']}]", ""))
            elif r["status"] != "held":
                print(f"{prop}: contract {r['contract']} could not be run: {r.get('why')}")
                return 2
            elif r["reached"] == 0:
                print(f"{prop}: contract {r['contract']} never reached its end")
                return 2
        concrete = {v[0] for v in violations}
        for spec in kani_specs:
            name = spec["harness"]
            r = results[name]
            kani_results[name] = r
            if r["status"] in ("failed", "suspect"):
                if concrete:
                    # The failing input is known already; the verifier agrees.
                    notes.append(f"{name}: {len(r['failures'])} failed obligations: " + "; ".join(f[0] for f in r["failures"][:4]))
                    continue
                reproduced = False
                traces = counterexample(crate, spec)
                for values in traces:
                    got, text, replay = replay_native(binary, spec.get("contract", name), "replay", values)
                    if got == "failed":
                        path = write_replay(prop, name, {
                            "property": prop, "harness": name, "contract": spec.get("contract", name), "mode": "replay", "choices": values,
                            "failed": text, "failed_obligations": r["failures"], "replay_cmd": " ".join(replay), "verifier_output": r["log"],
                        })
                        violations.append((path, f"{name}: {text}", ""))
                        reproduced = True
                        break
                if reproduced:
                    continue
                if r["status"] == "failed" and any(inside(place) for _, place in r["failures"]):
                    path = write_replay(prop, name, {
                        "property": prop, "harness": name, "failed_obligations": r["failures"], "counterexamples_tried": traces,
                        "command": " ".join(kani_command(crate, [name])), "verifier_output": r["log"],
                    })
                    violations.append((path, f"{name}: " + "; ".join(f[0] for f in r["failures"][:3]), " no-failing-input-found"))
                else:
                    r["status"] = "undecided"
                    r["why"] = "failed only in library code, not reproduced: " + str(r["failures"][:2])
            if r["status"] == "undecided":
                undecided.append({"harness": name, "why": r["why"]})

    kinds = {s["harness"]: s for part in plan["parts"] for s in part.get("kani", [])}
    proved = [h for h, r in kani_results.items() if kinds[h]["kind"] == "proof"]
    obligations = sum(max(kani_results[h]["checks"], 1) for h in proved)
    discharged = sum(kani_results[h]["checks"] for h in proved if kani_results[h]["status"] == "discharged")
    coverage = {
        "functions_under_contract": functions,
        "obligations": obligations,
        "discharged": discharged,
        "back_end": plan.get("back_end", "Kani 0.68, CBMC 6.11, CaDiCaL"),
        "checker_cmd": " ; ".join(commands),
        "solver_seconds": round(sum(r["seconds"] for r in kani_results.values()), 1),
        "proof_harnesses": [
            {"harness": h, "status": kani_results[h]["status"], "obligations": kani_results[h]["checks"], "seconds": kani_results[h]["seconds"], "scope": kinds[h].get("bound", "")}
            for h in proved
        ],
        "bounded_harnesses": [
            {"harness": h, "status": r["status"], "obligations": r["checks"], "seconds": r["seconds"], "bound": kinds[h].get("bound", "")}
            for h, r in kani_results.items()
            if kinds[h]["kind"] != "proof"
        ],
        "bounded_native": [
            {k: r.get(k) for k in ("contract", "status", "exhaustive", "bound", "enumerated", "random", "rejected", "reached", "seconds")} for r in native_results
        ],
        "undecided_by_verifier": undecided,
        "trusted_base": TRUSTED + plan.get("trusted", []),
        "evaluations": sum((r.get("enumerated") or 0) + (r.get("random") or 0) for r in native_results),
        "distinct_nontrivial": sum(r.get("reached") or 0 for r in native_results),
        "rule": "native runs that reached the end of their contract",
        "samples": [s["contract"] + ": " + s.get("what", kinds.get(s["contract"], {}).get("bound", "")) for part in plan["parts"] for s in part.get("native", [])][:10],
        "explanation": plan.get("explanation", ""),
    }
    if notes:
        coverage["notes"] = notes
    evidence = {
        "property": prop,
        "tier": TIER,
        "seed": SEED,
        "level": plan["level"],
        "coverage": coverage,
        "assumptions": TRUSTED + plan.get("trusted", []),
        "violations": len(violations),
        "wall_s": round(time.time() - start, 2),
    }
    with open(evidence_path, "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    for finding in plan.get("known_findings", []):
        print(f"KNOWN-FINDING: property={prop} {finding}")
    for u in undecided:
        print(f"undecided by the verifier: {u['harness']}: {u['why'][:300]}")
    print(
        f"{prop}: {len(proved)} proof harnesses ({discharged}/{obligations} obligations), "
        f"{len(kani_results) - len(proved)} bounded harnesses, {len(native_results)} native contracts, {evidence['wall_s']} s"
    )
    for path, what, suffix in violations:
        print(what)
    # concrete failures first
    for path, what, suffix in sorted(violations, key=lambda v: v[2]):
        print(f"VIOLATION property={prop} replay={path}{suffix}")
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
