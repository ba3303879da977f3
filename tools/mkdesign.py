"""Writes DESIGN.md: design_text.py gives the prose; properties.jsonl, notes.py,
known_findings.txt, the last quick evidence and seeded/ give the rest."""
import glob, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import notes, design_text as D
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    seeds = {}
    for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        m = json.load(open(f))
        seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m["what_it_breaks"]))
    out = [D.INTRO.strip(), "", "## Properties, one by one", ""]
    for group, text, ids in D.GROUPS:
        out += ["### " + group, "", text.strip(), ""]
        for p in props:
            if p["id"] not in ids:
                continue
            out += ["#### %s — %s" % (p["id"], p["title"]), ""]
            if p["id"] in notes.NOT_APPLICABLE:
                out += ["*Not applicable.* " + notes.NOT_APPLICABLE[p["id"]], ""]
                continue
            d = D.PROPS[p["id"]]
            out += ["- **Specified and decided:** " + d["how"], "- **Oracle:** " + d["oracle"],
                    "- **Bounds:** " + notes.NOTES[p["id"]]["note"]]
            e = os.path.join(ROOT, "evidence", p["id"] + ".json")
            cost = d.get("cost", "")
            if os.path.exists(e):
                v = json.load(open(e))
                if v["tier"] == "quick" and not cost:
                    cost = "quick %d s" % round(v["wall_s"])
            out += ["- **Cost:** " + (cost or "quick 10-40 s") + " (with the harness built); thorough below 900 s.",
                    "- **Beyond the tests:** " + d["tests"]]
            if p["id"] in seeds:
                out += ["- **Planted bugs it reports:** " + ", ".join("`%s`" % s for s, _ in seeds[p["id"]])]
            out += [""]
    missing = [p["id"] for p in props if not any(p["id"] in g[2] for g in D.GROUPS)]
    assert not missing, missing
    out += ["## Planted bugs", "", D.SEEDS.strip(), "", "| bug | property | what it breaks |", "|---|---|---|"]
    for i in sorted(seeds):
        for s, w in seeds[i]:
            out += ["| %s | %s | %s |" % (s, i, w.replace("|", "\\|"))]
    out += ["", "## Defects found in the unchanged tree", "", D.DEFECTS.strip(), ""]
    for l in open(os.path.join(ROOT, "known_findings.txt")):
        if l.startswith(("fixed:", "known:")):
            out += ["- " + l.strip()]
    out += ["", D.TAIL.strip(), ""]
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))


main()
