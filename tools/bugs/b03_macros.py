P = "latex2json/parser/handlers/command_processor.py"
U = "latex2json/utils/tex_utils.py"
I = "latex2json/parser/handlers/if_else_statements.py"
B("b03a_optional_argument_sticks", "C03", [(P, "                args = defaults.copy()\n", "                args = defaults if len(defaults) == num_args else defaults.copy()\n")], r'''
out = flat(conv(r"\newcommand{\g}[1][dd]{<#1>}\newcommand{\z}[1]{#1} A\g[xx]B\g C"))
assert "<xx>" in out and "<dd>" in out, out
''', "a macro whose only argument is optional, used with the argument and later without", "an optional argument given once becomes the default of all later uses")
B("b03c_missing_optional", "C03", [(P, '''                    for i, block in enumerate(blocks):
                        args[i] = block''', '''                    for i, block in enumerate(blocks):
                        args[i] = block or args[i]''')], r'''
out = flat(conv(r"\newcommand{\g}[2][dd]{<#1|#2>} A\g[]{y}B"))
assert "<|y>" in out, out
''', "an empty optional argument", "an empty optional argument is replaced by the default")
B("b04b_else_of_nested", "C04", [(I, '''        if start_match:
            valid_matches.append((start_match.start(), start_match, "start"))''', '''        if start_match and nesting_level < 4:
            valid_matches.append((start_match.start(), start_match, "start"))''')], r'''
s = "deep"
for i in range(6):
    s = r"\iftrue " + s + r" \else no \fi "
out = str(conv(r"\iffalse " + s + r" \else show \fi end"))
assert "no" not in out and "deep" not in out and "show" in out, out
''', "conditionals nested five deep", "an inner conditional's \\fi closes an outer one")
