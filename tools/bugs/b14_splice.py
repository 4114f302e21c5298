LP = "latex2json/parser/tex_parser.py"
PP = "latex2json/parser/tex_preprocessor.py"
TU = "latex2json/utils/tex_utils.py"
PRE4 = r'''
import tempfile, shutil, json, atexit
from latex2json.tex_reader import TexReader
top = tempfile.mkdtemp(prefix="demo_")
atexit.register(shutil.rmtree, top, True)
def read(**files):
    for n, s in files.items():
        p = top + "/" + n.replace("__", "/").replace("_dot_", ".") + ".tex"
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(s)
    r = TexReader()
    return json.loads(r.to_json(r.process(top + "/main.tex")))["tokens"]
def text(t):
    return t if isinstance(t, str) else "".join(map(text, t)) if isinstance(t, list) else text(t.get("title", "")) + " " + text(t.get("content", ""))
'''
B("b14a_folder_of_the_input", "C14", [(LP, "            if not self.current_file_dir:\n                self.current_file_dir = os.path.dirname(file_abspath)",
                                           "            self.current_file_dir = os.path.dirname(file_abspath)")], PRE4 + r'''
t = text(read(main=r"\newcommand{\sec}[1]{\input{#1}} \sec{sub/a} \sec{b} end", sub__a="AAA", b="BBB"))
assert "AAA" in t and "BBB" in t, t
''', "a file in a subfolder named by a macro's argument, and another one after it", "files are looked for in the folder of the last one")
B("b14b_extension_guessed", "C14", [(TU, "    if not file_path.endswith(extension):\n        paths_to_try.append(file_path + extension)",
                                         "    if not os.path.splitext(file_path)[1]:\n        paths_to_try.append(file_path + extension)")], PRE4 + r'''
t = text(read(main=r"a \input{sec.intro} b", sec_dot_intro="AAA"))
assert "AAA" in t, t
''', "an \\input without extension of a file whose name has a dot", "the file is not found and left out")
B("b14c_unprocessed_by_folder", "C14", [(LP, "return not any(str(file_path).endswith(ext) for ext in NO_PREPROCESS_EXTENSIONS)",
                                             "return not any(ext in str(file_path) for ext in NO_PREPROCESS_EXTENSIONS)")], PRE4 + r'''
t = text(read(main=r"\newcommand{\x}{AAA} \x{} \input{my.cfg/f} \x{}", my_dot_cfg__f=r"\renewcommand{\x}{BBB}"))
assert "AAA" in t and "BBB" in t, t
''', "a file in a folder named like a style file, that redefines a macro", "the redefinition has no effect on what follows it")
