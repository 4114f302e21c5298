BD = "latex2json/parser/bib/bibdiv_parser.py"
CB = "latex2json/parser/bib/compiled_bibtex.py"
PRE22 = r'''
from latex2json.parser.bib.bib_parser import BibParser
def read(s):
    return [e.fields for e in BibParser().parse(s)]
'''
B("b22a_bare_value_to_line_end", "C22", [(BD, '''                    comma_pos = entry_content.find(",", field_start)
''', '''                    comma_pos = entry_content.find(",\\n", field_start)
''')], PRE22 + r'''
assert read("\\begin{bibdiv}\\bib{A}{book}{title={T}, date=2003, volume=7}\\end{bibdiv}") == [{"title": "T", "date": "2003", "volume": "7"}]
''', "values without braces, several on a line", "the first takes in the fields after it")
B("b22b_last_brace_stripped", "C22", [(CB, '''        field_value = blocks[1].strip()
''', '''        field_value = blocks[1].strip().strip("{}")
''')], PRE22 + r'''
assert read("\\entry{A}{book}{}\n\\field{title}{On \\emph{Emma}}\n\\field{year}{2003}\n\\endentry") == [{"title": "On \\emph{Emma}", "year": "2003"}]
''', "a field of a .bbl file that ends with an argument", "its last brace is lost, and with it the entry's end")
B("b22c_bare_repeat_replaces", "C22", [(BD, '''                    if field_name in fields:
                        fields[field_name] = f"{fields[field_name]} and {value}"
                    else:
                        fields[field_name] = value
                    pos = comma_pos + 1
''', '''                    fields[field_name] = value
                    pos = comma_pos + 1
''')], PRE22 + r'''
assert read("\\begin{bibdiv}\\bib{A}{book}{isbn=1, title={T}, isbn=2}\\end{bibdiv}") == [{"isbn": "1 and 2", "title": "T"}]
''', "a repeated field without braces", "only the last of its values is kept")
