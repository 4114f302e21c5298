TR = "latex2json/tex_reader.py"
EX = "latex2json/tex_file_extractor.py"
LP = "latex2json/parser/tex_parser.py"
PP = "latex2json/parser/tex_preprocessor.py"
PRE2 = r'''
import tempfile, zipfile, tarfile, io, shutil
from latex2json.tex_reader import TexReader
from latex2json.tex_file_extractor import TexFileExtractor
top = tempfile.mkdtemp(prefix="demo_")
tempfile.tempdir = top + "/tmp"
os.makedirs(tempfile.tempdir)
import atexit
atexit.register(shutil.rmtree, top, True)
def write(p, s):
    p = top + "/" + p
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w").write(s)
    return p
'''
B("b12a_packages_read_once", "C12", [(PP, "        self.sty_parser.clear()\n", "")], PRE2 + r'''
write("a/p.sty", r"\newtheorem{fact}{Fact}")
m = write("a/main.tex", r"\documentclass{article}\usepackage{p}\begin{document}\begin{fact}x\end{fact}\end{document}")
r = TexReader()
a, b = r.to_json(r.process(m)), r.to_json(r.process(m))
assert a == b, (a, b)
''', "the same reader processing two documents with the same package", "the package's definitions are missing from the second")
B("b12b_color_map_shared", "C12", [(LP, "        self.colors = {}\n        self.current_str", "        self.colors.clear()\n        self.current_str"),
                                    (LP, "return self.colors.copy()", "return self.colors")], PRE2 + r'''
m = write("a/main.tex", r"\definecolor{foo}{rgb}{1,0,0} x")
r = TexReader()
x = r.process(m)
assert "foo" in x.color_map, x.color_map
''', "a document with colours, and the state cleared after it", "the colours of a result handed out vanish")
B("b12c_only_cleared_after_success", "C12", [(TR, "            self.clear()\n            self._verify_file_exists(file_path)\n", "            self._verify_file_exists(file_path)\n")], PRE2 + r'''
m = write("a/main.tex", r"\newcommand{\foo}{LEAK} \definecolor{foo}{rgb}{1,0,0}")
n = write("b/main.tex", r"a \foo{} b")
r = TexReader()
def fail(*a): raise ValueError("no")
r.token_builder.build = fail
try: r.process(m)
except Exception: pass
del r.token_builder.build
x = r.process(n)
assert "LEAK" not in r.to_json(x) and not x.color_map, r.to_json(x)
''', "a document after one whose processing failed after parsing", "definitions and colours of the failed document leak into the next")
B("b13a_climbing_members_stripped", "C13", [(EX, "                        safe_members.append(member)\n                    # Extract only safe members\n                    for member in safe_members:\n", "                        safe_members.append(member)\n                    # Extract only safe members\n                    for member in zip_ref.namelist():\n")], PRE2 + r'''
z = top + "/a.zip"
with zipfile.ZipFile(z, "w") as f:
    f.writestr("main.tex", r"\documentclass{article}\begin{document}good\end{document}")
    f.writestr("../main.tex", r"\documentclass{article}\begin{document}evil\end{document}")
r = TexReader()
x = r.process(z)
s = r.to_json(x)
x.cleanup()
assert "good" in s and "evil" not in s, s
''', "a zip archive with a climbing member of the same name", "it replaces the real file")
B("b13b_main_in_comment", "C13", [(EX, "        clean_content = strip_latex_comments(content)\n", "        clean_content = content.lstrip(\"% \\n\")\n")], PRE2 + r'''
write("p/a.tex", "Some chapter.\n% \\documentclass{article} for testing\n")
write("p/b.tex", "\\documentclass{article}\\begin{document}good\\end{document}")
r = TexReader()
s = r.to_json(r.process(top + "/p"))
assert "good" in s, s
''', "another file with a \\documentclass in a comment", "that file is taken for the main file")
B("b13c_main_of_subfolder", "C13", [(EX, "return os.path.relpath(full_path, folder_path), root", "return os.path.join(os.path.basename(root), file) if root != folder_path else file, root")], PRE2 + r'''
z = top + "/a.zip"
with zipfile.ZipFile(z, "w") as f:
    f.writestr("paper/src/main.tex", r"\documentclass{article}\begin{document}good\end{document}")
r = TexReader()
x = r.process(z, cleanup=True)
assert "good" in r.to_json(x), r.to_json(x)
''', "the main file two folders deep", "it is not found again")
