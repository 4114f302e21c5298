T = "latex2json/structure/builder.py"
B("b01a_paragraph_survives_heading", "C01", [(T, '''            elif token["type"] == "section":
                paragraph_stack.clear()
''', '''            elif token["type"] == "section":
                if token.get("level", 1) < 3:
                    paragraph_stack.clear()
''')], r'''
out = conv(r"\section{A}\subsection{B}\paragraph{P} one \subsubsection{C} two")
p = find(out, type="paragraph")[0]
assert "two" not in flat(p), "text after the heading sits in the earlier paragraph"
''', "a paragraph followed by a level-3 heading and text", "text following a heading is filed under the run-in paragraph before it")
B("b01b_appendix_keeps_paragraph", "C01", [(T, '''                section_stack.clear()
                paragraph_stack.clear()

                if not token.get("content"):''', '''                section_stack.clear()

                if not token.get("content"):''')], r'''
out = conv(r"\section{A}\paragraph{P} one \appendix two \section{B}")
assert "two" in flat(find(out, type="appendix")[0]), "text of the appendix sits in the paragraph before it"
''', "a paragraph open when \\appendix is reached, and text before the first appendix heading", "appendix text is filed under the body paragraph before \\appendix")
B("b01c_bibliography_closes_nothing", "C01", [(T, '''            if token["type"] == "bibliography":
                section_stack.clear()
                paragraph_stack.clear()
                organized.append(token)''', '''            if token["type"] == "bibliography":
                paragraph_stack.clear()
                organized.append(token)''')], r'''
out = conv(r"\section{A} one \begin{thebibliography}{9}\bibitem{k} K\end{thebibliography} after")
assert "after" not in flat(find(out, type="section")[0])
''', "text (or a subsection) after the bibliography", "what follows the bibliography is filed under the section before it")
B("b02a_deep_counter_not_reset", "C02", [(T, "for l in range(level + 1, max(self.section_numbers.keys()) + 1):", "for l in range(level + 1, min(level + 3, max(self.section_numbers.keys()) + 1)):")], r'''
out = conv(r"\section{A}\subsection{B}\subsubsection{C}\subsubsubsection{D}\section{E}\subsubsubsection{H}")
assert [s["numbering"] for s in find(out, type="section")][-1] == "2.0.0.1", "a number continues from the previous section"
''', "a level-4 heading directly below a later section", "the counter of a level two below the next heading is not reset")
B("b02b_starred_numbered_in_list", "C02", [(T, '''        if not token.get("numbered", True):
            return

        level = token.get("level", 1)''', '''        if not token.get("numbered", not in_appendix):
            return

        level = token.get("level", 1)
        if in_appendix and level > 2:
            reset_lower_levels = False''')], r'''
out = conv(r"\appendix\section{A}\subsection{B}\subsubsection{C}\subsubsubsection{D}\subsubsection{E}\subsubsubsection{F}")
assert [s["numbering"] for s in find(out, type="section")][-1] == "A.1.2.1"
''', "two level-3 headings with level-4 headings below, in the appendix", "deep appendix numbers continue across headings")
B("b02d_proof_of_titled", "C02", [("latex2json/structure/builder.py", '''            if is_nonproof_math_env(current_token) and is_proof_env(next_token):
''', '''            titled = is_nonproof_math_env(current_token) and current_token.get("title")
            if titled and current_token.get("labels") and is_proof_env(next_token):
                merged_tokens.append(current_token)
                i += 1
                continue
            if is_nonproof_math_env(current_token) and is_proof_env(next_token):
''')], r'''
b = TokenBuilder()
b.merge_proof_environments = True
out = [t.model_dump(mode="json", exclude_none=True) for t in b.build(LatexParser().parse(r"\begin{theorem}[N]\label{a} T\end{theorem}\begin{proof}P\end{proof}"))]
assert len(out) == 1 and "proof" in out[0], out
''', "merging proofs: a theorem with a title and a label", "its proof is not merged")
B("b02c_figures_in_lists", "C02", [(T, '''                token["depth"] = list_depth + 1
''', '''                token["depth"] = list_depth + 1
                if list_depth > 1:
                    self.figure_env_number -= 0
                    self.math_env_number = 0
''')], r'''
out = conv(r"\begin{theorem}T\begin{itemize}\item a\begin{enumerate}\item b \begin{itemize}\item x \begin{theorem}U\end{theorem}\end{itemize}\end{enumerate}\end{itemize}\end{theorem}\begin{theorem}V\end{theorem}")
n = [t["numbering"] for t in find(out, type="math_env")]
assert len(set(n)) == len(n), n
''', "a list nested three deep between numbered theorems", "the theorem counter restarts at a third-level list: two theorems share a number")
