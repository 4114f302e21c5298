BX = "latex2json/parser/packages/boxes.py"
CC = "latex2json/parser/handlers/content_command.py"
TK = "latex2json/parser/packages/tikz_pgf.py"
EN = "latex2json/parser/handlers/environment.py"
PRE7 = r'''
import json
from latex2json.parser.tex_parser import LatexParser
from latex2json.structure.builder import TokenBuilder
def read(s):
    return [t.model_dump(mode='json', exclude_none=True) for t in TokenBuilder().build(LatexParser().parse(s))]
def find(t, kind):
    if isinstance(t, list): return [y for x in t for y in find(x, kind)]
    if isinstance(t, dict): return ([t] if t.get("type") == kind else []) + find(t.get("content"), kind)
    return []
def text(t):
    if isinstance(t, list): return "".join(text(x) for x in t)
    if isinstance(t, dict): return text(t.get("content"))
    return t if isinstance(t, str) else ""
'''
B("b17b_subtable_numbers", "C17", [(EN, '''elif env_type in ["table", "figure", "algorithm"] and not env_name.startswith(
            "sub"
        ):''', '''elif (
            env_type in ["table", "figure", "algorithm"]
            and env_name != "subfigure"
        ):''')], PRE7 + r'''
t = read(r"\begin{table}\begin{subtable}{2cm}x\end{subtable}\caption{A}\end{table}\begin{table}y\caption{B}\end{table}")
assert [x.get("numbering") for x in find(t, "table")] == ["1", None, "2"], t
''', "a subtable before another table", "the part has a number of its own, and later tables the wrong one")
B("b17c_page_after_other_options", "C17", [(CC, 'page_match = re.search(r"page=(\\d+)", options)', 'page_match = re.match(r"\\s*page=(\\d+)", options)')], PRE7 + r'''
t = read(r"a \includegraphics[width=2cm, page=3, clip]{x.pdf} b")
assert find(t, "includegraphics")[0].get("page") == 3, t
''', "a page chosen after other options of a picture", "the page is lost")
B("b17d_starred_floats", "C17", [(EN, '"sub"\n        ):', '"sub"\n        ) and not (contains_asterisk and env_type != "table"):')], PRE7 + r"""
t = read(r"\begin{figure*}x\caption{A}\end{figure*}\begin{figure}y\caption{B}\end{figure}")
assert [x.get("numbering") for x in find(t, "figure")] == ["1", "2"], t
""", "a figure over both columns", "it has no number, and later figures have the wrong one")
