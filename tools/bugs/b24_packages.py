STY24 = "latex2json/parser/sty_parser.py"
PRE24 = r'''
from latex2json.parser.tex_parser import LatexParser
import json, os, tempfile
def read(main, **files):
    with tempfile.TemporaryDirectory() as d:
        for name, text in dict(files, **{"main.tex": main}).items():
            p = os.path.join(d, name.replace("__", "/"))
            if "." not in os.path.basename(p):
                p += ".sty"
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(text)
        from latex2json.tex_reader import TexReader
        res = TexReader().process_file(os.path.join(d, "main.tex"))
        read.colours = {k: v.get("value") for k, v in (res.color_map or {}).items()}
        return json.dumps([t.model_dump(mode="json", exclude_none=True) for t in res.tokens])
'''
B("b24a_recorded_when_read", "C24", [(STY24, '''            self.parsed_files.add(file_path)

            tokens = self.parse(content, file_path=file_path)
''', '''
            tokens = self.parse(content, file_path=file_path)
            self.parsed_files.add(file_path)
''')], PRE24 + r'''
a = "\\definecolor{tint}{gray}{0.2}\n\\RequirePackage{b}\n"
b = "\\definecolor{tint}{gray}{0.8}\n\\RequirePackage{a}\n"
for first in ("a", "c"):
    out = read("\\documentclass{article}\\usepackage{%s}\\begin{document}{\\color{tint} x}\\end{document}" % first, a=a, b=b, c="\\RequirePackage{a}\n")
    assert read.colours["tint"] == "0.8", (first, read.colours)
''', "two style files that name each other", "they are read over and over, and their declarations lost")
B("b24b_folder_not_restored", "C24", [(STY24, '''            self.current_file_dir = current_file_dir
            self.logger.info(f"Finished parsing file: {file_path}")
''', '''            if current_file_dir is None:
                self.current_file_dir = None
            self.logger.info(f"Finished parsing file: {file_path}")
''')], PRE24 + r'''
out = read("\\documentclass{article}\\usepackage{s/a}\\begin{document}\\begin{claim}x\\end{claim}\\end{document}",
  s__a="\\RequirePackage{t/b}\n\\RequirePackage{c}\n", s__t__b="% nothing\n", s__c="\\newtheorem{claim}{Claim}\n")
assert '"math_env"' in out and '"Claim"' in out, out[:300]
''', "a style file in a folder names one in another folder, then one in its own", "the second is not found")
B("b24c_macros_of_classes", "C24", [(STY24, '''            for token in tokens:
                token["is_sty"] = True
''', '''            for token in tokens:
                token["is_sty"] = file_path.endswith(".sty")
''')], PRE24 + r'''
out = read("\\documentclass{my}\\begin{document}before \\venue{W} after\\end{document}",
  **{"my.cls": "\\newcommand{\\venue}[1]{Proceedings of #1}\n"})
assert "Proceedings" not in out and "before" in out and "after" in out, out[:300]
''', "a class file that defines a macro the document uses", "text of the class file is in the document")
