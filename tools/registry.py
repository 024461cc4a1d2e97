"""Source of truth for properties.jsonl and MANIFEST.json (python3 tools/registry.py rewrites both)."""
import json, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, quant, why, files, mech, technique=None, level="exploration",
         note=None, built=False, observe=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, quant=quant,
                  why=" ".join(why.split()), files=files, mech=mech, technique=technique,
                  level=level, note=note, built=built, observe=observe))


exec(open(os.path.join(VERIF, "tools", "properties_src.py")).read())


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            n = p["statement"].count(". ") + 1
            assert n <= 3, (p["id"], n)
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"],
                                  mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
            if p["observe"]:
                d["anchors"]["observe_at"] = p["observe"]
            f.write(json.dumps(d) + "\n")
    checks = []
    for p in P:
        if not p["built"]:
            continue
        checks.append(dict(property=p["id"],
                           quick_cmd=f"bash tools/check.sh {p['id']} quick",
                           thorough_cmd=f"bash tools/check.sh {p['id']} thorough",
                           technique=p["technique"], level=p["level"], level_note=p["note"]))
    claimed = {c["property"] for c in checks}
    na = list(NA)
    named = {n["property"] for n in na}
    for p in P:
        if p["id"] not in claimed and p["id"] not in named:
            na.append(dict(property=p["id"], reason="Runtime monitoring applies; no sound check is built yet, so the property is not claimed."))
    m = dict(version=1, setup_cmd="bash tools/setup.sh",
             hooks=dict(guard="none", enable="No hooks: the checks build /repo's crates as they are and observe them through their interfaces.",
                        source_commits=[]),
             checks=checks, not_applicable=na,
             notes="Every check rebuilds the harness against /repo's working tree; see DESIGN.md.")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    d = os.path.join(VERIF, "DESIGN.md")
    text = open(d).read()
    begin, end = "properties_src.py: begin -->\n", "<!-- end -->"
    i, j = text.index(begin) + len(begin), text.index(end)
    rows = "".join(f"| {p['id']} | {p['title']} | {p['technique']} | {p['note']} |\n" for p in P if p["built"])
    table = "| | Property | Decided by | Bounds |\n|---|---|---|---|\n" + rows
    with open(d, "w") as f:
        f.write(text[:i] + table + text[j:])
    print(len(P), "properties,", len(checks), "checks")


main()
