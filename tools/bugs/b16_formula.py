EQ = "latex2json/parser/handlers/equation.py"
TU = "latex2json/utils/tex_utils.py"
PRE6 = r'''
import json
from latex2json.tex_reader import TexReader
from latex2json.parser.tex_parser import LatexParser
from latex2json.structure.builder import TokenBuilder
def read(s):
    toks = [t.model_dump(mode='json', exclude_none=True) for t in TokenBuilder().build(LatexParser().parse(s))]
    out = []
    def go(t):
        if isinstance(t, list):
            for x in t: go(x)
        elif isinstance(t, dict):
            if t.get("type") == "equation": out.append(t)
            else: go(t.get("content"))
    go(toks)
    return out
'''
B("b16a_star_in_formula", "C16", [(EQ, 'numbered = not match.group(0).strip().endswith("*}")', 'numbered = "*}" not in match.group(0)')], PRE6 + r'''
e = read(r"a \begin{equation} x^{*} + y \end{equation} b \begin{equation} z \end{equation}")
assert [t.get("numbering") for t in e] == ["1", "2"], e
''', "a numbered formula with *} in it", "the formula has no number, and all that follow have the wrong one")
B("b16c_escaped_braces", "C16", [(TU, '        if content[i] == "{" and not is_escaped(i, content):\n            stack.append("{")', '        if content[i] == "{":\n            stack.append("{")')], PRE6 + r'''
e = read(r"a $x \text{ for \{ $y$ or} $ b $z$ c")
assert len(e) == 2 and e[1]["content"] == "z", e
''', "an escaped brace in the text of a formula in which there is another formula", "the formula ends elsewhere")
B("b16d_few_placeholders", "C16", [(EQ, 'placeholder = f"___PLACEHOLDER_{len(blocks)}___"', 'placeholder = f"___PLACEHOLDER_{len(blocks) % 3}___"')], PRE6 + r'''
e = read(r"$x \eqref{a} \eqref{b} \eqref{c} \eqref{d}$")
assert len(e[0]["placeholders"]) == 4, e
''', "a formula with more than three references", "a later reference replaces an earlier one")
B("b16e_alignat_braces", "C16", [(EQ, 'if pattern_name == "alignat":', 'if pattern_name.startswith("align"):')], PRE6 + r'''
e = read(r"a \begin{align}{x} + y \\ z \end{align} b")
assert "x" in e[0]["content"], e
''', "an align which begins with a group", "the group is taken for an argument")
