CP23 = "latex2json/parser/handlers/command_processor.py"
PRE23 = r'''
from latex2json.parser.tex_parser import LatexParser
import json
def read(s):
    return json.dumps(LatexParser().parse(s))
'''
B("b23a_star_after_blank", "C23", [(CP23, '''                    return true_block if match.group(0).endswith("*") else false_block
''', '''                    starred = re.fullmatch(r"\\\\[a-zA-Z@]+\\*", match.group(0))
                    return true_block if starred else false_block
''')], PRE23 + r'''
out = read("\\makeatletter\\newcommand{\\m}{\\@ifstar{yes}{no}}\na \\m * b \\m c")
assert "a yes b no" in out.replace("{", "").replace("}", ""), out
''', "a blank between a macro and its star", "the star goes, the plain text comes")
B("b23d_register_to_first_brace", "C23", [(CP23, '''            # ignore the trailing {...} anyway
            return "", start_pos + end_pos
''', '''            # ignore the trailing {...} anyway
            return "", text.index("}", start_pos) + 1
''')], PRE23 + r'''
out = read("\\newtoks\\tk \\tk={{a} secret} b")
assert "secret" not in out and "b" in out, out
''', "braces in the value of a token list", "what follows the first closing one is left as text")
