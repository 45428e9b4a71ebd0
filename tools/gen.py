#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and trusted.json from the definitions in catalog.py."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import catalog  # noqa: E402


def hooks():
    out = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True,
                         text=True).stdout
    return [l.split()[0] for l in out.splitlines() if "verification hooks" in l.lower()]


def complete(p):
    """Adds what is common to the properties that Verus decides in part."""
    if "verus" in p:
        p.setdefault("technique", catalog.VERUS_TECHNIQUE)
        p["note"] = p["verus"] + " " + p["note"]
        p["trusted"] = (catalog.VERUS_TRUSTED + (catalog.PROCESSOR_TRUSTED if p["id"] <= "P12" else []) + p.get("trusted", []))


def main():
    for p in catalog.PROPERTIES:
        complete(p)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in catalog.PROPERTIES:
            d = {
                "id": p["id"],
                "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quantifier"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p.get("state", [])],
                    "observe_at": p["observe"],
                    "hook_needed": p.get("hook"),
                },
            }
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for p in catalog.PROPERTIES:
        if "not_applicable" in p:
            na.append({"property": p["id"], "reason": p["not_applicable"]})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p.get("technique", catalog.TECHNIQUE),
            "level": p.get("level", "proof"),
            "level_note": p["note"],
        })
    manifest = {
        "version": 1,
        "setup_cmd": "python3 setup.py",
        "hooks": {
            "guard": "cargo feature `verif` of endbasic-core and endbasic-std",
            "enable": "/verif/contracts depends on /repo/core and /repo/std by path with features = "
                      "[\"verif\"], through its own default feature `hooks`",
            "source_commits": hooks(),
        },
        "checks": checks,
        "not_applicable": na,
        "notes": catalog.NOTES,
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    trusted = {"common": catalog.TRUSTED, "assumptions": catalog.ASSUMPTIONS, "properties": {}}
    for p in catalog.PROPERTIES:
        if "not_applicable" not in p:
            trusted["properties"][p["id"]] = {
                "level": p.get("level", "proof"),
                "trusted": p.get("trusted", []),
                "assumptions": p.get("assumptions", []),
                "functions": p.get("functions", []),
                "note": p["note"],
            }
    with open(os.path.join(HERE, "trusted.json"), "w") as f:
        json.dump(trusted, f, indent=1)
        f.write("\n")
    design()


def seeded():
    """Describes the planted bugs."""
    out = ["| bug | property | what it breaks | needs |", "|---|---|---|---|"]
    base = os.path.join(HERE, "seeded")
    for name in sorted(os.listdir(base)):
        with open(os.path.join(base, name, "meta.json")) as f:
            meta = json.load(f)
        clean = lambda t: " ".join(str(t).split()).replace("|", "\\|")
        out.append("| %s | %s%s | %s | %s |" % (name, meta["property"], "" if name not in catalog.MISSED else " (missed)",
                                          clean(meta["what_it_breaks"]), clean(meta["needs"])))
    return "\n".join(["Each is caught by the check of its property%s." %
                      (" except where noted" if catalog.MISSED else ""), ""] + out)


def findings():
    with open(os.path.join(HERE, "known-findings.json")) as f:
        known = json.load(f)
    out = ["- open, %s: %s" % (k["property"], k["what"]) for k in known["findings"]]
    return "\n".join(out + ["- " + t for t in known["fixed"]])


def design():
    """Writes DESIGN.md."""
    out = []
    for p in catalog.PROPERTIES:
        out.append("### %s %s" % (p["id"], p["title"]))
        if "not_applicable" in p:
            out.append("Not applicable: " + p["not_applicable"])
            continue
        out.append("*Why tests cannot:* %s" % p["why"])
        out.append("*Decided by:* " + p["note"])
        if p.get("functions"):
            out.append("*Functions under contract:* " + ", ".join("`%s`" % f for f in p["functions"]) + ".")
        if p.get("trusted") or p.get("assumptions"):
            own = [t for t in p.get("trusted", []) if t not in catalog.VERUS_TRUSTED + catalog.PROCESSOR_TRUSTED]
            if own + p.get("assumptions", []):
                out.append("*Assumed:* " + "; ".join(own + p.get("assumptions", [])) + ".")
        out.append("*Bounds and cost:* %s" % p.get("cost", "the quick check takes about a minute; native programs are random and "
                   "bounded by the sizes in `contracts/src/b%s.rs`." % p["id"][1:]))
    with open(os.path.join(HERE, "tools", "design.md")) as f:
        text = f.read()
    for key, value in [("PROPERTIES", "\n\n".join(out)), ("SEEDED", seeded()), ("FINDINGS", findings())]:
        text = text.replace("{{%s}}" % key, value)
    common = ["", "## Assumed throughout", ""] + ["- " + t for t in
              catalog.TRUSTED + catalog.VERUS_TRUSTED + catalog.PROCESSOR_TRUSTED + catalog.ASSUMPTIONS]
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write(text + "\n".join(common) + "\n")


main()
