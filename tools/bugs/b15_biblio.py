BT = "latex2json/parser/bib/bibtex_parser.py"
BP = "latex2json/parser/bib/bib_parser.py"
LP = "latex2json/parser/tex_parser.py"
PRE5 = r'''
import tempfile, shutil, json, atexit
from latex2json.tex_reader import TexReader
from latex2json.parser.bib.bib_parser import BibParser
top = tempfile.mkdtemp(prefix="demo_")
atexit.register(shutil.rmtree, top, True)
def read(main, **files):
    files["main_dot_tex"] = "\\documentclass{article}\\begin{document}" + main + "\\end{document}"
    for n, s in files.items():
        with open(top + "/" + n.replace("_dot_", "."), "w") as f:
            f.write(s)
    r = TexReader()
    out = []
    def go(t):
        if isinstance(t, list):
            for x in t: go(x)
        elif isinstance(t, dict):
            if t.get("type") == "bibitem": out.append(t)
            else: go(t.get("content"))
    go(json.loads(r.to_json(r.process(top + "/main.tex")))["tokens"])
    return out
'''
B("b15a_empty_values", "C15", [(BT, 'content = ",\\n\\t".join(f"{k}={{{v}}}" for k, v in fields.items())',
                                    'content = ",\\n\\t".join(f"{k}={{{v}}}" for k, v in fields.items() if v)')], PRE5 + r'''
e = BibParser().parse("@misc{a, title = {T}, note = {}, year = 1999}")[0]
assert "note={}" in e.content, e.content
''', "a field whose value is empty", "the entry as spelt has not all its fields")
B("b15b_keys_by_letters", "C15", [(LP, '            if token["cite_key"] in cite_keys:\n                continue\n            cite_keys.add(token["cite_key"])',
                                      '            if token["cite_key"].lower() in cite_keys:\n                continue\n            cite_keys.add(token["cite_key"].lower())')], PRE5 + r'''
t = read(r"x \bibliography{a,b}", a_dot_bib="@misc{Lee99, title={One}}", b_dot_bib="@misc{lee99, title={Two}}")
assert [i["cite_key"] for i in t] == ["Lee99", "lee99"], t
''', "two entries whose keys differ in case only", "the second entry is left out")
B("b15c_suffix_replaced", "C15", [(BP, "                full_path = file_path + ext\n",
                                      "                full_path = os.path.splitext(file_path)[0] + ext\n")], PRE5 + r'''
t = read(r"x \bibliography{a.b}", **{"a_dot_b_dot_bib": "@misc{k1, title={One}}"})
assert [i["cite_key"] for i in t] == ["k1"], t
''', "a bibliography named without suffix whose name has a dot", "the file is not found")
B("b15d_commented_items", "C15", [(BP, "    content = strip_latex_comments(content)\n    content = normalize_whitespace_and_lines(content)\n",
                                      "    content = normalize_whitespace_and_lines(content)\n")], PRE5 + r'''
t = read(r"x \bibliography{a}", a_dot_bbl="\\begin{thebibliography}{9}\n\\bibitem{k1} One\n% \\bibitem{k2} Two\n\\bibitem{k3} Three\n\\end{thebibliography}\n")
assert [i["cite_key"] for i in t] == ["k1", "k3"], t
''', "a .bbl file with a \\bibitem in a comment", "the comment is an item")
