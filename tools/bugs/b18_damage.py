TU = "latex2json/utils/tex_utils.py"
EN = "latex2json/parser/handlers/environment.py"
PRE8 = r'''
import json
from latex2json.parser.tex_parser import LatexParser
from latex2json.structure.builder import TokenBuilder
def read(s):
    return [t.model_dump(mode='json', exclude_none=True) for t in TokenBuilder().build(LatexParser().parse(s))]
def shape(t):
    if isinstance(t, list): return "".join(shape(x) for x in t)
    if isinstance(t, str): return t
    inner = shape(t.get("title") or "") + shape(t.get("content") or "")
    return inner if t["type"] in ("text", "group") else "<" + inner + ">"
'''
B("b18a_ends_at_last_closer", "C18", [(TU, '''        if not end_match:
            return -1, -1, ""
''', '''        if not end_match:
            # more are opened than closed
            ends = list(end_pattern.finditer(text, content_start))
            if nesting_level > 1 and ends:
                content = text[content_start : ends[-1].start()]
                return start_pos, ends[-1].end(), content
            return -1, -1, ""
''')], PRE8 + r'''
t = shape(read(r"a \begin{quote} b \begin{quote} c \begin{quote} d \end{quote} e"))
assert "".join(t.split()) == "a<>b<>c<d>e", t
''', "three environments of one kind, of which two are never ended", "the first is ended by what ends the last")
B("b18b_end_on_next_line", "C18", [(TU, '    end_pattern = r"\\\\end\\s*\\{" + escaped_name + "}"', '    end_pattern = r"\\\\end[ \\t]*\\{" + escaped_name + "}"')], PRE8 + r"""
t = shape(read("a \\begin{quote} b \\end\n{quote} c"))
assert "".join(t.split()) == "a<b>c", t
""", "an end written with its name on the next line", "the environment is taken for one that never ends")
B("b18c_unended_takes_the_rest", "C18", [(EN, '''                end_pos = match.end()
                token["end_pos"] = end_pos
                token["incomplete"] = True
''', '''                end_pos = match.end()
                if env_name in ("abstract", "proof"):
                    # it reaches to the end
                    token["content"] = content[end_pos:]
                    end_pos = len(content)
                token["end_pos"] = end_pos
                token["incomplete"] = True
''')], PRE8 + r'''
t = shape(read(r"a \begin{proof} b \begin{center} c \end{center} d"))
assert "".join(t.split()) == "a<>bcd", t
''', "a proof that is never ended", "what follows becomes part of it")
