#!/usr/bin/env python3
"""Registry of the checks; run as a script it writes properties.jsonl and MANIFEST.json."""
import importlib, json, os, re, sys

MODULES = {f[:3].upper(): f[:3] for f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))) if re.fullmatch(r"[cs]\d\d\.py", f)}

# properties stated but not claimed: id -> (property dict, reason)
NOT_CLAIMED = []


def write():
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    top = os.path.dirname(here)
    props, checks = [], []
    F = ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")

    def pub(p):
        d = {k: p[k] for k in F}
        a = dict(d["anchors"])
        if isinstance(a["mechanism"], str):
            a["mechanism"] = [{"name": a["mechanism"], "where": ", ".join(a["files"])}]
        d["anchors"] = a
        return d
    for pid, m in sorted(MODULES.items()):
        p = importlib.import_module(m).PROP
        assert p["id"] == pid and len(p["title"]) <= 80, p["title"]
        props.append(pub(p))
        checks.append({"property": pid, "quick_cmd": "python3 mc/run.py %s quick" % pid, "thorough_cmd": "python3 mc/run.py %s thorough" % pid,
                       "technique": p["technique"], "level": p["level"], "level_note": p["level_note"]})
    na = []
    for p, reason in NOT_CLAIMED:
        props.append(pub(p))
        na.append({"property": p["id"], "reason": reason})
    with open(os.path.join(top, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps(p) + "\n")
    with open(os.path.join(top, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q mc", "checks": checks, "not_applicable": na}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    write()
