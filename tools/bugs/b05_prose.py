X = "latex2json/parser/packages/boxes.py"
L = "latex2json/parser/handlers/legacy_formatting.py"
F = "latex2json/parser/handlers/formatting.py"
D = "latex2json/parser/handlers/diacritics.py"
T = "latex2json/utils/tex_utils.py"
TP = "latex2json/parser/tex_parser.py"
PP = "latex2json/parser/tex_preprocessor.py"
U = "latex2json/latex_maps/latex_unicode_converter.py"
B("b05a_hbox_to_width", "C05", [(X, r'    r"hbox\s+to\s*[^{]+": "{",', r'    r"hbox\s+to\s*[^{\s]+": "{",')], """
out = flat(conv("before \\\\hbox to \\\\hsize {in side} after"))
assert "in side" in out and "hsize" not in out and "to" not in out, out
""", "\\hbox to a width that a space follows", "the width shows up in the text")
B("b05b_quote_after_style", "C05", [("latex2json/structure/builder.py", 'CLOSING_PUNCTUATION = (".", ",", "!", "?", ":", ";", ")", "]", "}")', 'CLOSING_PUNCTUATION = (".", ",", "!", "?", ":", ";", ")", "]", "}", \'"\')')], """
out = flat(conv("\\\\textbf{a} \\\\textbf{``b'' c}"))
assert 'a "b"' in out, out
""", "a quotation after styled text or a citation", "the quotation is joined to the word before it")
B("b06a_group_styles_replaced", "C06", [(T, '                content["styles"] = token["styles"] + content_styles', '                content["styles"] = (\n                    token["styles"] + content_styles\n                    if content.get("type") == "text"\n                    else content_styles or token["styles"]\n                )')], r'''
o = conv(r"\textbf{a \textit{b $m$} \emph{\cite{k} x} c}")
eq = find(o, type="equation")
assert eq and set(eq[0].get("styles") or []) == {"bold", "italic"}, eq
''', "a formula or citation inside two nested font commands of several tokens each", "the outer style is lost on inline elements")
B("b06b_switch_in_nested_braces", "C06", [(L, '                                pos = out_pos + (skip_len or 1)', '                                pos = out_pos + min(skip_len or 1, 120)')], r'''
long = "word " * 30
o = conv(r"{\bf one {%s \it inner} two} three" % long)
t = [x for x in find(o, type="text") if "two" in x["content"]]
assert t and t[0].get("styles") == ["bold"], t
''', "a switch far inside a nested group after an open switch", "the inner switch ends the outer one beyond its group")
B("b07a_dagger", "C07", [("latex2json/latex_maps/_latex2unicode_map.py", '    "\\\\textdaggerdbl": 8225,', '    "\\\\textdaggerdbl": 8224,')], """
out = flat(conv("a\\\\textdagger{} b\\\\textdaggerdbl{} c"))
assert "\\u2020" in out and "\\u2021" in out, out
""", "the symbol command \\textdaggerdbl", "a double dagger becomes a dagger")
B("b07b_units", "C07", [("latex2json/parser/patterns.py", '(?:pt|mm|cm|in|em|ex|sp|bp|dd|cc|nd|nc)?', '(?:pt|mm|cm|in|em|ex|sp|nd|nc)?')], """
out = flat(conv("a\\\\kern 2bp b \\\\hskip 3dd c"))
assert "bp" not in out and "dd" not in out and "2" not in out, out
""", "a kern or skip in one of the less common units", "the length shows up in the text")
