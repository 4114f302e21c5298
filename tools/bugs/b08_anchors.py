EH = "latex2json/parser/handlers/environment.py"
IH = "latex2json/parser/handlers/item.py"
TP = "latex2json/parser/tex_parser.py"
CC = "latex2json/parser/handlers/content_command.py"
CB = "latex2json/parser/handlers/code_block.py"
B("b08b_star_theorem_declared", "C08", [(EH, '''        if title and (env_type == "math_env" or is_theorem):''' if False else '''        if env_type == "math_env" and not contains_asterisk:
            if env_name.lower() in NUMBERED_MATH_ENVIRONMENTS:''', '''        if env_type == "math_env" and not (contains_asterisk and inner_content.startswith("[") is False):
            if env_name.lower() in NUMBERED_MATH_ENVIRONMENTS:''')], r'''
o = conv(r"\section{S}\begin{theorem*}[Title] a \end{theorem*}\begin{lemma} b \end{lemma}")
t = find(o, type="math_env", name="theorem")[0]
assert not t.get("numbering"), t
assert find(o, type="math_env", name="lemma")[0]["numbering"] == "1.1", o
''', "a starred theorem with a title", "it draws a number")
B("b09a_label_after_nested_env_in_item", "C09", [(TP, '''                    token["content"] = self.parse(token["content"])
                    self.current_env = prev_env

                if "title" in token and isinstance(token["title"], str):''', '''                    token["content"] = self.parse(token["content"])
                    if token["type"] != "list" or prev_env is None or prev_env["type"] == "item":
                        self.current_env = prev_env

                if "title" in token and isinstance(token["title"], str):''')], r'''
o = conv(r"\begin{document}\section{A}\begin{theorem} t \begin{itemize}\item a\label{i}\end{itemize} u \label{t}\end{theorem}\end{document}")
assert find(o, type="math_env")[0].get("labels") == ["t"], o
assert find(o, type="item")[0].get("labels") == ["i"], o
''', "a label that follows a list inside a theorem or other environment", "the label is attached to the list that has ended")
B("b09b_cite_notes", "C09", [(CC, '''                combined_note = ", ".join(filter(None, [prenote, postnote]))''', '''                combined_note = ", ".join(dict.fromkeys(filter(None, [postnote and prenote, postnote or prenote])))''')], r'''
o = conv(r"\citep[see][see]{a,b}")
c = find(o, type="citation")[0]
assert flat(c["title"]) == "see, see" and c["content"] == ["a", "b"], c
''', "a citation whose two notes are the same", "one of the notes is lost")
B("b10a_verb_delimiters", "C10", [(CB, r'''        r"\\verb\*?([^a-zA-Z])(.*?)\1"''', r'''        r"\\verb\*?([^a-zA-Z;?])(.*?)\1"''')], r'''
o = conv(r"a \verb;x {; b")
c = find(o, type="code")
assert c and c[0]["content"] == "x {", o
''', "\\verb with an unusual delimiter", "the code is read as LaTeX")

B("b08a_two_lists_in_item", "C08", [(EH, """        if start_env > next_match.start():
            return start_pos + next_match.start()""", """        if end_pos >= 0 or start_env > next_match.start():
            return start_pos + next_match.start()""")], r"""
o = conv(r"\begin{itemize}\item A \begin{enumerate}\item B\end{enumerate} m \begin{enumerate}\item C\end{enumerate} n \item D\end{itemize}")
l = find(o, type="list", name="itemize")
assert len(l) == 1 and [c["type"] for c in l[0]["content"]] == ["item", "item"], l
assert len(find(l[0]["content"][0], type="list")) == 2, l
""", "two lists in one item", "an inner item ends the outer one")
B("b09c_cite_same_key", "C09", [(CC, '''                "content": [c.strip() for c in content.split(",")],
            }
            # Combine''', '''                "content": list(dict.fromkeys(c.strip() for c in content.split(","))),
            }
            # Combine''')], r"""
o = conv(r"\cite{a, b, a}")
assert find(o, type="citation")[0]["content"] == ["a", "b", "a"], o
""", "a citation that names a key twice", "a key is lost")
B("b10b_options_on_two_lines", "C10", [(CB, r"""{lstlisting\}(?:\[([^\]]*)\])?(.*?)""", r"""{lstlisting\}(?:\[([^\]\n]*)\])?(.*?)""")], r"""
o = conv("\\begin{lstlisting}[language=C,\n caption=x]\nint x;\n\\end{lstlisting}")
c = find(o, type="code")[0]
assert c["content"] == "int x;", c
""", "a listing whose options take two lines", "the options become part of the code")
