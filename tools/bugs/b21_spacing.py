FO = "latex2json/parser/handlers/formatting.py"
CC = "latex2json/parser/handlers/content_command.py"
TU = "latex2json/utils/tex_utils.py"
TX = "latex2json/parser/handlers/text_formatting.py"
PA = "latex2json/parser/patterns.py"
PRE21 = r'''
import json
from latex2json.parser.tex_parser import LatexParser
from latex2json.structure.builder import TokenBuilder
def read(s):
    return [t.model_dump(mode='json', exclude_none=True) for t in TokenBuilder().build(LatexParser().parse(s, preprocess=True))]
'''
B("b21a_color_model_apart", "C21", [(TX, r'''r"\\textcolor\s*(\[\w+\])?\s*{"''', r'''r"\\textcolor\s*(\[\w+\])?{"''')], PRE21 + r'''
assert read("a \\textcolor[rgb] {1,0,0}{w}") == read("a \\textcolor[rgb]{1,0,0}{w}")
''', "a blank between the color model and the color", "the command is taken for an unknown one")
B("b21b_contents_line_apart", "C21", [(FO, r'''("addcontentsline", r"\\addcontentsline\s*\{[^}]*\}\s*\{[^}]*\}\s*\{[^}]*\}"),''', r'''("addcontentsline", r"\\addcontentsline\s*\{[^}]*\}\s*\{[^}]*\}\{[^}]*\}"),''')], PRE21 + r'''
assert read("a \\addcontentsline{toc}{section} {w} b") == read("a \\addcontentsline{toc}{section}{w} b")
''', "a blank before the last argument of \\addcontentsline", "the command is taken for an unknown one and its arguments for text")
B("b21c_pdfbookmark_apart", "C21", [("latex2json/parser/handlers/content_command.py", r"""            r"\\(?:below|current)?pdfbookmark\s*%s\s*{([^}]*)}\s*{"
""", r"""            r"\\(?:below|current)?pdfbookmark%s\s*{([^}]*)}\s*{"
""")], PRE21 + r"""
assert read("a \\pdfbookmark [1]{y}{z} b") == read("a \\pdfbookmark[1]{y}{z} b")
""", "a blank before the level of a bookmark", "the level and the names are shown in the text")
