"""Writes properties.jsonl and MANIFEST.json from one table (properties in PROPS, in
tools/props/*.py).  Run after adding a property: /opt/venv/bin/python tools/meta.py"""
import importlib.util, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []


def P(id, title, statement, over, text, why, files, mechanism, technique, note, level="model_checking",
      state=(), observe=("latex2json.tex_reader.TexReader / latex2json.parser.tex_parser.LatexParser + TokenBuilder output",)):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, technique=technique, note=note, level=level, state=state, observe=list(observe)))


def main():
    d = os.path.join(V, "tools", "props")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            exec(compile(open(os.path.join(d, f)).read(), f, "exec"), dict(P=P, NA=NA))
    PROPS.sort(key=lambda p: p["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            fh.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"],
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                             mechanism=[dict(name=a, where=b) for a, b in p["mechanism"]],
                             observe_at=p["observe"], hook_needed=None))) + "\n")
    na = {n["property"] for n in NA}
    checks = [dict(property=p["id"],
                   quick_cmd="/opt/venv/bin/python harness/check.py %s --tier quick" % p["id"],
                   thorough_cmd="/opt/venv/bin/python harness/check.py %s --tier thorough" % p["id"],
                   evidence_file="evidence/%s.json" % p["id"],
                   technique=p["technique"], level=p["level"], level_note=p["note"])
              for p in PROPS if p["id"] not in na]
    man = dict(version=1, setup_cmd="/opt/venv/bin/python harness/setup_check.py", checks=checks, not_applicable=NA,
               notes="TLA+/TLC. The specifications are in spec/, harness/s_*.py says which model with which bounds decides "
                     "a property, harness/d_*.py binds a model to the code of /repo (render / abstract). No hooks in /repo: "
                     "the code is observed through its public entry points.")
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks")


main()
