AU = "latex2json/parser/handlers/author.py"
FO = "latex2json/parser/handlers/formatting.py"
TF = "latex2json/structure/token_factory.py"
PB = "latex2json/parser/tex_preamble.py"
PRE9 = r'''
import json
from latex2json.parser.tex_parser import LatexParser
from latex2json.structure.builder import TokenBuilder
from latex2json.parser.tex_preamble import LatexPreamble
def read(s):
    return [t.model_dump(mode='json', exclude_none=True) for t in TokenBuilder().build(LatexParser().parse(s, preprocess=True))]
'''
B("b19a_author_of_one_piece", "C19", [(TF, '''                    processed_item = self._process_content(item)
                    output.append(processed_item)
''', '''                    processed_item = self._process_content(item)
                    if len(item) == 1 and isinstance(item[0], dict) and item[0].get("styles"):
                        processed_item = processed_item[0]
                    output.append(processed_item)
''')], PRE9 + r'''
t = read(r"\author{Ann $^1$ \and \textbf{Bob}}")
assert len(t) == 1 and all(isinstance(p, list) for p in t[0]["content"]), t
''', "an author whose whole name is bold", "it is no list of tokens as the others are")
B("b19b_date_to_first_brace", "C19", [(FO, '''                elif pattern_name == "date":
                    start_pos = match.end() - 1
                    extracted_content, end_pos = extract_nested_content(
                        content[start_pos:]
                    )
                    return None, start_pos + end_pos
''', '''                elif pattern_name == "date":
                    start_pos = match.end() - 1
                    end_pos = content.find("}", start_pos) + 1
                    return None, max(end_pos, start_pos)
''')], PRE9 + r'''
t = read(r"\title{T} \date{\emph{May} 2020} \author{Ann}")
assert [x["type"] for x in t] == ["title", "author"], t
''', "a date with braces in it", "the rest of the date is left as text")
B("b19c_blank_before_number", "C19", [(AU, r'r"\\(?:affil|affiliation)(?:\s*\[(.*?)\])?\s*{"', r'r"\\(?:affil|affiliation)(?:\[(.*?)\])?\s*{"')], PRE9 + r'''
t = read("\\author{Ann}\n\\affiliation [1] {Univ}")
assert [x["type"] for x in t] == ["author", "affiliation"], t
''', "a blank before the number of an affiliation", "it is an unknown command, and the number text")
B("b20a_before_documentclass", "C20", [(PB, '''        if doc_class_match:
            # output''', '''        if doc_class_match and doc_class_match.group(0).endswith("{article}"):
            # output''')], PRE9 + r'''
p = LatexPreamble().get_preamble("\\RequirePackage{a}\n\\documentclass{book}\n\\def\\x{y}\n\\begin{document}\nx\n\\end{document}")
assert p.split() == ["\\def\\x{y}"], p
''', "a package required before the class book", "what stands before \\documentclass is taken into the preamble")
B("b20b_rest_of_line_skipped", "C20", [(PB, '''            current_pos += 1

        return output_preamble''', '''            # nothing of interest: on to the next command
            next_delimiter = DELIM_PATTERN.search(content, current_pos + 1)
            if next_delimiter and content[next_delimiter.start() - 1] == "{":
                # (an argument)
                current_pos = next_delimiter.end()
            else:
                current_pos += 1

        return output_preamble''')], PRE9 + r'''
p = LatexPreamble().get_preamble("\\documentclass{book}\n\\AtBeginDocument{\\def\\x{y} \\def\\z{y}}\n\\begin{document}\nx\n\\end{document}")
assert p.split("\n") == ["\\def\\x{y}", "\\def\\z{y}", ""], p
''', "a definition as the first thing in an argument", "it is left out")
B("b20c_block_to_last", "C20", [(PB, '''                makeatother_match = MAKEATOTHER_PATTERN.search(content[current_pos:])
                if makeatother_match:
''', '''                makeatother_match = None
                for makeatother_match in MAKEATOTHER_PATTERN.finditer(
                    content[current_pos:]
                ):
                    pass
                if makeatother_match:
''')], PRE9 + r'''
p = LatexPreamble().get_preamble("\\documentclass{book}\\makeatletter\\def\\x{y}\\makeatother\n\\title{T}\n\\makeatletter\\def\\z{y}\\makeatother\n\\begin{document}\nx\n\\end{document}")
assert p.split("\n") == ["\\makeatletter\\def\\x{y}\\makeatother", "\\makeatletter\\def\\z{y}\\makeatother", ""], p
''', "two blocks with @ as a letter", "all between them is taken into the preamble")
