#!/usr/bin/env python3
"""Decides one property of /repo's current tree.

check.py PROPERTY [--tier quick|thorough]

1. Builds the executable contracts of /verif/contracts natively against /repo and runs them on
   generated inputs (a bounded search, never counted as proof).
2. Has Kani discharge the `proved` and `bounded_proof` contracts of the property on the same code.
3. Has Verus discharge the contracts on functions extracted from /repo, if the property has any.

Exit 0: held on everything explored.  Exit 1: a VIOLATION line tells what failed.
"""

import argparse
import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
CRATE = os.path.join(HERE, "contracts")
BUILD = os.path.join(HERE, ".build")
EVIDENCE = os.path.join(HERE, "evidence")

# Failed checks that tell about the limits of the verifier and not about the code.
LIMITS = ("unwind", "unsupported_construct", "reachability_check", "recursion")

START = time.time()


def log(msg):
    print("[%6.1fs] %s" % (time.time() - START, msg), flush=True)


def environment():
    env = dict(os.environ)
    env.update({
        "HOME": "/root",
        "LANG": "C.UTF-8",
        "PATH": "/root/.cargo/bin:" + os.environ.get("PATH", "/usr/local/bin:/usr/bin:/bin"),
        "CARGO_NET_OFFLINE": "true",
        "CARGO_TERM_COLOR": "never",
        "CARGO_INCREMENTAL": "0",
    })
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_PROFILE_DEV_DEBUG", "RUST_BACKTRACE"):
        env.pop(k, None)
    return env


def limit_memory(gigabytes):
    def apply():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (gigabytes << 30, gigabytes << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return apply


def run(cmd, timeout, cwd=CRATE, env=None, memory=None):
    """Runs a command with its children, and returns (exit status or None on timeout, output)."""
    pre = limit_memory(memory) if memory else os.setsid
    p = subprocess.Popen(cmd, cwd=cwd, env=env or environment(), stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, preexec_fn=pre, text=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out


class Checker:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.thorough = tier == "thorough"
        self.hooks = True
        self.replay_bin = None
        self.contracts = []  # (name, kind)
        self.coverage = {
            "obligations": 0,
            "discharged": 0,
            "checker_cmd": "",
            "trusted_base": [],
        }
        self.undecided = []
        self.violation = None

    # ---------------------------------------------------------------- native

    def build_native(self):
        env = environment()
        env["RUSTUP_TOOLCHAIN"] = "1.96"
        env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "native")
        cmd = ["cargo", "build", "--offline", "--locked", "--quiet", "--bin", "replay"]
        status, out = run(cmd, 600, env=env)
        if status != 0:
            log("the hooks do not build against this tree; falling back to the public interface")
            log(out[-3000:])
            self.hooks = False
            status, out = run(cmd + ["--no-default-features"], 600, env=env)
            if status != 0:
                print(out[-6000:])
                log("error: /repo does not build")
                sys.exit(2)
        self.replay_bin = os.path.join(BUILD, "native", "debug", "replay")
        _, out = run([self.replay_bin, "list"], 60)
        for line in out.splitlines():
            prop, name, kind = line.split()
            if prop == self.prop:
                self.contracts.append((name, kind))

    def native(self, args, timeout):
        return run([self.replay_bin] + args, timeout, memory=16)

    def search(self):
        names = [n for n, k in self.contracts if k != "Finding"]
        if not names:
            self.coverage["bounded_executions"] = {}
            return
        secs = 1200 if self.thorough else 90
        out_path = os.path.join(BUILD, "search-%s.json" % self.prop)
        slots = os.path.join(BUILD, "slots-%s" % self.prop)
        for p in (out_path, slots):
            if os.path.exists(p):
                os.remove(p)
        status, out = self.native(
            ["search", self.prop, str(self.seed), str(secs), out_path, slots], secs * 2 + 120)
        if status == 0 and os.path.exists(out_path):
            with open(out_path) as f:
                result = json.load(f)
            self.coverage["bounded_executions"] = result["executions"]
            for fail in result["failures"]:
                self.report_values(fail["contract"], fail["values"], "search")
                if self.violation:
                    return
                # Depends on something other than the inputs: report what was seen.
                self.report(fail["contract"], {"values": fail["values"], "message": fail["message"],
                                               "at": fail["at"], "source": "search"})
                return
            return
        # The process died or hung: find out which execution was responsible.
        log("search ended abnormally (status %s): %s" % (status, out[-500:]))
        self.coverage["bounded_executions"] = {}
        try:
            with open(slots, "rb") as f:
                raw = f.read()
        except FileNotFoundError:
            raw = b""
        for i in range(0, len(raw) - 15, 16):
            index, seed = struct.unpack_from("<QQ", raw, i)
            if index == 0 or index > len(self.contracts):
                continue
            name = self.contracts[index - 1][0]
            st, o = self.native(["seed", name, str(seed)], 60)
            if st != 0:
                why = "did not terminate" if st is None else "terminated the process (status %s)" % st
                self.report(name, {"seed": seed, "message": "execution " + why, "output": o[-2000:],
                                   "command": "%s seed %s %s" % (self.replay_bin, name, seed),
                                   "source": "search"})
                return
        self.undecided.append("native search ended abnormally and no execution reproduces it")

    def report_values(self, name, values, source, extra=None):
        """Runs a contract on the given inputs and reports a violation if it fails."""
        st, o = self.native(["values", name, values], 120)
        if st == 0:
            return False
        d = {"values": values, "message": o.strip()[-2000:], "source": source,
             "command": "%s values %s %s" % (self.replay_bin, name, values)}
        if st is None:
            d["message"] = "execution did not terminate"
        d.update(extra or {})
        self.report(name, d)
        return True

    def report(self, name, details, suffix=""):
        if self.violation:
            return
        path = os.path.join(EVIDENCE, "%s.replay.json" % self.prop)
        details = dict(details)
        details["contract"] = name
        details["property"] = self.prop
        with open(path, "w") as f:
            json.dump(details, f, indent=1)
        log("contract %s: %s" % (name, str(details.get("message"))[:1500]))
        self.violation = "VIOLATION property=%s replay=%s%s" % (self.prop, path, suffix)

    def findings(self):
        """Runs the inputs listed as known findings."""
        with open(os.path.join(HERE, "known-findings.json")) as f:
            known = {e["contract"]: e for e in json.load(f)["findings"] if e["property"] == self.prop}
        for name, kind in self.contracts:
            if kind != "Finding":
                continue
            st, o = self.native(["values", name, ""], 120)
            if st == 0:
                continue
            if name in known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, known[name]["what"]))
                self.coverage.setdefault("known_findings", []).append(name)
            else:
                self.report_values(name, "", "regression")

    def command(self, cmd):
        self.coverage["checker_cmd"] += (" ; " if self.coverage["checker_cmd"] and cmd else "") + cmd

    # ------------------------------------------------------------------ kani

    def kani_env(self):
        env = environment()
        env.pop("RUSTUP_TOOLCHAIN", None)
        env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "kani")
        return env

    def kani_cmd(self):
        return ["cargo", "kani", "--lib", "--no-default-features", "--features",
                "hooks," + self.prop + (",thorough" if self.thorough else ""),
                "-Z", "stubbing", "-Z", "unstable-options"]

    def kani(self):
        wanted = [(n, k) for n, k in self.contracts
                  if k in ("Proved", "BoundedProof") or (k == "Deep" and self.thorough)]
        if not wanted:
            return
        if not self.hooks:
            self.undecided.append("Kani: the hooks do not build against this tree")
            return
        out_path = os.path.join(BUILD, "kani-%s.json" % self.prop)
        if os.path.exists(out_path):
            os.remove(out_path)
        per_harness = 1800 if self.thorough else 300
        left = 6 * 3600 if self.thorough else max(60, 760 - (time.time() - START))
        cmd = self.kani_cmd() + ["-j", "8", "--output-format", "terse", "--harness-timeout",
                                 "%ds" % min(per_harness, int(left * 0.6)), "--export-json", out_path]
        self.command(" ".join(cmd))
        status, out = run(cmd, left, env=self.kani_env())
        if not os.path.exists(out_path):
            log("Kani gave no result (status %s)\n%s" % (status, out[-3000:]))
            self.undecided.append("Kani gave no result")
            self.coverage["obligations"] += len(wanted)
            return
        with open(out_path) as f:
            data = json.load(f)
        details = {d["harness_id"]: d for d in data.get("property_details", [])}
        stats = {d["harness_id"]: d.get("cbmc_stats") or {} for d in data.get("cbmc", [])}
        results = {r["harness_id"]: r for r in data["verification_results"]["results"]}
        functions = {}
        solver = 0.0
        failed = []
        proved, bounded = [], []
        for name, kind in wanted:
            mod, fn = name.split("::")[-2:]
            hid = "%s::proofs::%s" % (mod, fn)
            r = results.get(hid)
            d = (details.get(hid) or {}).get("property_details") or {}
            solver += (stats.get(hid) or {}).get("runtime_decision_procedure_s") or 0
            if r is None or not r.get("checks"):
                self.coverage["obligations"] += 1
                self.undecided.append("%s: no result (timeout or out of memory)" % hid)
                continue
            bad = [c for c in r["checks"] if c["status"].lower() in ("failure", "failed")]
            n = d.get("total_properties", len(r["checks"]))
            self.coverage["obligations"] += n
            if r["status"] == "Success":
                if d.get("unsatisfiable", 0) or not d.get("satisfied", 0):
                    self.undecided.append("%s: vacuous" % hid)
                    continue
                self.coverage["discharged"] += n
                (proved if kind == "Proved" else bounded).append(hid)
                functions[hid] = {
                    "obligations": n,
                    "unreachable": d.get("unreachable"),
                    "vccs": (stats.get(hid) or {}).get("vccs_generated"),
                    "solver_s": (stats.get(hid) or {}).get("runtime_decision_procedure_s"),
                    "wall_s": round(r["duration_ms"] / 1000.0, 1),
                }
                continue
            self.coverage["discharged"] += max(0, n - len(bad)) if bad else 0
            hard = [c for c in bad if not any(l in (c.get("category") or "") or
                                              l in (c.get("description") or "") for l in LIMITS)]
            limits = [c for c in bad if c not in hard]
            if not hard:
                self.undecided.append("%s: %s" % (hid, limits[0]["description"] if limits else "timeout"))
                continue
            failed.append((hid, name, hard, limits))
        self.coverage["kani"] = functions
        self.coverage["proved_contracts"] = proved
        self.coverage["bounded_contracts"] = bounded
        self.coverage["solver_s"] = round(solver, 2)
        for hid, name, hard, limits in failed:
            self.counterexample(hid, name, hard, limits)
            if self.violation:
                return

    def counterexample(self, hid, name, hard, limits):
        what = "; ".join("%s (%s:%s in %s)" % (c["description"], c["location"].get("file"),
                                               c["location"].get("line"), c.get("function"))
                         for c in hard[:5])
        log("Kani refutes %s: %s" % (hid, what))
        left = 3600 if self.thorough else max(30, 850 - (time.time() - START))
        cmd = self.kani_cmd() + ["-Z", "concrete-playback", "--concrete-playback=print",
                                 "--harness", hid, "--exact"]
        _, out = run(cmd, left, env=self.kani_env())
        for block in re.findall(r"let concrete_vals.*?= vec!\[(.*?)\n\s*\];", out, re.S):
            vals = [bytes(int(x) for x in v.split(",") if x.strip())
                    for v in re.findall(r"vec!\[([\d,\s]*)\]", block)]
            hexed = ",".join(v.hex() for v in vals)
            if self.report_values(name, hexed, "kani", {"obligation": what}):
                return
        if limits:
            self.undecided.append("%s: refuted only beyond the verifier's limits: %s" % (hid, what))
            return
        self.report(name, {"message": "failed obligation: " + what, "source": "kani",
                           "output": out[-4000:]}, " no-failing-input-found")

    # ----------------------------------------------------------------- verus

    def verus(self):
        script = os.path.join(HERE, "verus", "%s.py" % self.prop.lower())
        if not os.path.exists(script):
            return
        sys.path.insert(0, os.path.join(HERE, "verus"))
        import verus_run
        result = verus_run.verify(self.prop, BUILD, 600 if self.thorough else 240)
        self.coverage["verus"] = result["report"]
        self.coverage["obligations"] += result["obligations"]
        self.coverage["discharged"] += result["discharged"]
        self.command(result["cmd"])
        self.undecided += result["undecided"]
        for f in result["failed"]:
            self.report(f["function"], {"message": "failed obligation: " + f["message"],
                                        "output": f["output"], "source": "verus"},
                        " no-failing-input-found")

    # -------------------------------------------------------------- evidence

    def evidence(self):
        with open(os.path.join(HERE, "trusted.json")) as f:
            trusted = json.load(f)
        entry = trusted["properties"].get(self.prop, {})
        self.coverage["trusted_base"] = trusted["common"] + entry.get("trusted", [])
        if entry.get("note"):
            self.coverage["explanation"] = entry["note"]
        if entry.get("functions"):
            self.coverage["functions_under_contract"] = entry["functions"]
        if self.undecided:
            self.coverage["undecided"] = self.undecided
        self.coverage["evaluations"] = sum((self.coverage.get("bounded_executions") or {}).values())
        doc = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": entry.get("level", "proof"),
            "coverage": self.coverage,
            "assumptions": entry.get("assumptions", []) + trusted["assumptions"],
            "wall_s": round(time.time() - START, 1),
            "violations": 1 if self.violation else 0,
        }
        with open(os.path.join(EVIDENCE, "%s.json" % self.prop), "w") as f:
            json.dump(doc, f, indent=1)
            f.write("\n")

    def main(self):
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(EVIDENCE, exist_ok=True)
        self.build_native()
        log("built natively")
        self.search()
        if not self.violation:
            self.findings()
        log("searched: %s" % json.dumps(self.coverage.get("bounded_executions")))
        if not self.violation:
            self.verus()
        if not self.violation:
            self.kani()
        self.evidence()
        for u in self.undecided:
            log("undecided: " + u)
        log("obligations: %(obligations)d, discharged: %(discharged)d" % self.coverage)
        if self.violation:
            print(self.violation)
            return 1
        return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    args = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    sys.exit(Checker(args.property, tier, seed).main())


if __name__ == "__main__":
    main()
