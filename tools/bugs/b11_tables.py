TB = "latex2json/parser/handlers/tabular.py"
TT = "latex2json/structure/tokens/tabular.py"
FL = "latex2json/parser/flatten.py"
B("b11a_last_column_header", "C11", [(TB, "first_row_empty = not any(parsed_rows[0])", "first_row_empty = not any(parsed_rows[0][: max(1, len(parsed_rows[0]) - 1)])")], r'''
o = conv(r"\begin{tabular}{cc} & & Value \\ a & b & c \end{tabular}")
t = find(o, type="tabular")[0]["content"]
assert len(t) == 2, t
''', "a first row that is empty but for its last cell", "the row is lost")
B("b11b_span_of_span", "C11", [(TB, "                mrow_match = MULTIROW_PATTERN.search(content)\n", "                mrow_match = MULTIROW_PATTERN.match(content)\n")], r'''
o = conv(r"\begin{tabular}{cc} \textbf{\multirow{2}{*}{a}} & b \\ & c \end{tabular}")
c = find(o, type="tabular")[0]["content"][0][0]
assert isinstance(c, dict) and c.get("rowspan") == 2, c
''', "a \\multirow that is not the first thing in its cell", "the span is lost")
