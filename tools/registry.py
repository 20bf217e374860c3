"""single source of truth for properties.jsonl and MANIFEST.json
(python3 tools/registry.py rewrites both)."""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mechanism, observe,
      technique, level, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                  why=why, files=files, mechanism=mechanism, observe=observe,
                  technique=technique, level=level, note=note, state=state or []))


IO = "raytools/io.py"
UT = "raytools/utility.py"
TR = "raytools/translate.py"
IT = "raytools/imagetools.py"
CLI = "raytools/cli.py"
INI = "raytools/__init__.py"
MP = "raytools/mapper/mapper.py"
AM = "raytools/mapper/angularmixin.py"
VM = "raytools/mapper/viewmapper.py"
SV = "raytools/mapper/solidviewmapper.py"
BM = "raytools/evaluate/basemetricset.py"
MS = "raytools/evaluate/metricset.py"
CM = "raytools/evaluate/colormetricset.py"
PI = "raytools/evaluate/positionindex.py"
RT = "raytools/evaluate/retina.py"
HV = "raytools/evaluate/hvsgsm.py"

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                       "properties_src.py")).read())


def seedtable(here):
    store = os.path.join(here, "docs", "seeded.json")
    got = json.load(open(store)) if os.path.exists(store) else {}
    rows = ["| Planted change | what it breaks | needs | caught by |", "|---|---|---|---|"]
    base = os.path.join(here, "seeded")
    for s in sorted(os.listdir(base)) if os.path.isdir(base) else []:
        m = json.load(open(os.path.join(base, s, "meta.json")))
        by = [c for c, r in sorted(got.get(s, {}).items()) if r == "caught"] if isinstance(got.get(s), dict) else []
        rows.append(f"| {s} | {m['what_it_breaks']} | {m['needs']} | {', '.join(by) or 'not run' if not got.get(s) else ', '.join(by) or 'none'} |")
    return "\n".join(rows)


def write_design(here):
    import ast
    out = [open(os.path.join(here, "docs", "DESIGN_head.md")).read()]
    for q in P:
        out.append(f"### {q['id']} {q['title']}\n\n{q['statement']}\n")
        out.append(f"*Explored*: {q['text']}.\n\n*Technique*: {q['technique']} "
                   f"(level {q['level']}).\n\n*Why tests cannot settle it*: {q['why']}.\n")
        mod = os.path.join(here, "checks", q["id"].lower() + ".py")
        if os.path.exists(mod):
            doc = ast.get_docstring(ast.parse(open(mod).read()))
            out.append((doc or "").strip() + "\n")
    tail = open(os.path.join(here, "docs", "DESIGN_tail.md")).read()
    out.append(tail.replace("SEEDTABLE", seedtable(here)))
    with open(os.path.join(here, "DESIGN.md"), "w") as f:
        f.write("\n".join(out))


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps(dict(
                id=q["id"], title=q["title"], statement=q["statement"],
                quantifier=dict(over=q["over"], text=q["text"]),
                why_tests_cant=q["why"],
                anchors=dict(files=q["files"],
                             state=q["state"],
                             mechanism=[dict(name=n, where=w) for n, w in q["mechanism"]],
                             observe_at=q["observe"], hook_needed=None))) + "\n")
            assert len(q["title"]) <= 80, q["id"]
    write_design(here)
    checks, na = [], []
    for q in P:
        mod = os.path.join(here, "checks", q["id"].lower() + ".py")
        if os.path.exists(mod):
            checks.append(dict(
                property=q["id"],
                quick_cmd=f"python3 run.py {q['id']} --tier quick",
                thorough_cmd=f"python3 run.py {q['id']} --tier thorough",
                technique=q["technique"], level=q["level"],
                level_note=q["note"]))
        else:
            na.append(dict(property=q["id"], reason="check not built yet"))
    man = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
               not_applicable=na,
               notes="No hooks are needed in /repo: every check drives the "
                     "public API of the working tree through run.py.")
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "checks,", len(na), "not claimed")


if __name__ == "__main__":
    main()
