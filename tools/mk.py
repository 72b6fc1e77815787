"""python3 tools/mk.py: write properties.jsonl and MANIFEST.json from the table below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VG = "value-flow abstract interpretation of the source into tensor normal forms, compared with a reference by value numbering and random interpretation"
P = []
NA = []


def prop(id, title, statement, over, quant, why, files, mech, technique=VG, note="", claim=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  technique=technique, note=note, claim=claim))


def na(id, title, statement, over, quant, why, files, mech, reason):
    prop(id, title, statement, over, quant, why, files, mech, claim=False)
    NA.append({"property": id, "reason": reason})


I, C, H = ["inputs", "configurations"], ["configurations"], ["histories", "inputs"]
exec(open(os.path.join(ROOT, "tools", "table.py")).read())


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
            }) + "\n")
    checks = []
    for p in P:
        if not p["claim"]:
            continue
        cmd = "python3 /verif/vf/run.py %s" % p["id"]
        checks.append({
            "property": p["id"], "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
            "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "other",
            "level_note": p["note"] or LEVEL})
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": NA,
               "notes": "Static analysis only: the checks parse /repo's current source with Python's ast module and never import or run it; standard library only."},
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


LEVEL = ("static analysis: the source is interpreted over symbolic tensors of arbitrary size, so the verdict covers all inputs of the "
         "stated shape; equality of two normal forms that do not coincide syntactically is decided by evaluating the forms at random "
         "points (one-sided error, two independent witnesses needed for an alarm)")
if __name__ == "__main__":
    main()
