From a57f72714f5645ae52bb7a3a10bc1169ddee4013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 001/102] fix: nest subparagraphs under their paragraph inside
 sections too

---
 latex2json/structure/builder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index 14439a9..0ba6bcd 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -310,9 +310,9 @@ class TokenBuilder:
 
         # Determine where to add the token
         target = (
-            parent_stack[-1]["content"]
-            if parent_stack
-            else (stack[-1]["content"] if stack else organized)
+            stack[-1]["content"]
+            if stack
+            else (parent_stack[-1]["content"] if parent_stack else organized)
         )
         target.append(token)
 
-- 
2.43.0


From 2037fe6786b2cb96ea3fb75dc0f7d1fdd1b13208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 002/102] fix: number parts and deep subsections instead of
 raising KeyError

---
 latex2json/structure/builder.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index 0ba6bcd..2aa0cd5 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -121,6 +121,7 @@ class TokenBuilder:
 
     def reset_numbering(self):
         """Reset section numbering state"""
+        self.part_number = 0
         self.section_numbers = {1: 0, 2: 0, 3: 0}
         self.math_env_number = 0  # resets when section changes
         # equation, table, figure are simple sequential counters
@@ -141,13 +142,19 @@ class TokenBuilder:
 
         level = token.get("level", 1)
 
+        # Parts have their own counter and do not affect section numbers
+        if level < 1:
+            self.part_number += 1
+            token["numbering"] = str(self.part_number)
+            return
+
         # Reset lower level counters if needed
         if reset_lower_levels:
             for l in range(level + 1, max(self.section_numbers.keys()) + 1):
                 self.section_numbers[l] = 0
 
         # Increment current level counter
-        self.section_numbers[level] += 1
+        self.section_numbers[level] = self.section_numbers.get(level, 0) + 1
 
         # Build section number string
         # First number is a letter if in appendix i.e. 1->A, 2->B, etc.
-- 
2.43.0


From 2062899eb86935e63abdedc5ea7f2be35acbf27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 003/102] fix: accept the optional short title of sectioning
 commands

---
 latex2json/parser/handlers/content_command.py | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index ef0cc6d..079234f 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -23,10 +23,13 @@ RAW_PATTERNS = OrderedDict(
     [
         # 1. Commands that need nested brace handling (simplified patterns)
         ("abstract", r"\\abstract\s*{"),
-        ("section", r"\\(?:(?:sub)*section\*?)\s*{"),
-        ("part", r"\\part\*?\s*{"),
-        ("chapter", r"\\chapter\*?\s*{"),
-        ("paragraph", r"\\(?:(?:sub)*paragraph\*?)\s*{"),
+        ("section", r"\\(?:(?:sub)*section\*?)\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
+        ("part", r"\\part\*?\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
+        ("chapter", r"\\chapter\*?\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
+        (
+            "paragraph",
+            r"\\(?:(?:sub)*paragraph\*?)\s*%s\s*{" % OPTIONAL_BRACE_PATTERN,
+        ),
         ("footnote", r"\\footnote\*?%s\s*{" % OPTIONAL_BRACE_PATTERN),
         ("caption", r"\\(caption|subcaption)\*?\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         ("captionof", r"\\captionof\*?\s*{([^}]*?)}\s*{"),
@@ -139,16 +142,19 @@ class ContentCommandHandler(TokenHandler):
 
         content = content.strip()
 
+        # command name without its arguments (e.g. optional short title)
+        command = match.group(0).split("[", 1)[0]
+
         if matched_type == "paragraph":
-            level = match.group(0).count("sub") + PARAGRAPH_LEVELS["paragraph"]
+            level = command.count("sub") + PARAGRAPH_LEVELS["paragraph"]
             return {
                 "type": "paragraph",
                 "title": content,
                 "level": level,
             }
         elif matched_type in ["section", "chapter", "part"]:
-            level = match.group(0).count("sub") + SECTION_LEVELS[matched_type]
-            numbered = (matched_type + "*") not in match.group(0)
+            level = command.count("sub") + SECTION_LEVELS[matched_type]
+            numbered = (matched_type + "*") not in command
             return {
                 "type": "section",
                 "title": content,
-- 
2.43.0


From 929f97aa83b2acffb7a0ba4b83aa7b504a9c74c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 004/102] fix: keep theorem numbers unique across unnumbered
 sections

---
 latex2json/structure/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index 2aa0cd5..c936555 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -405,7 +405,7 @@ class TokenBuilder:
                     token, reset_lower_levels=True, in_appendix=in_appendix
                 )
                 # Reset math environment counter when section changes
-                if token.get("level") == 1:
+                if token.get("level") == 1 and token.get("numbered", True):
                     self.math_env_number = 0
 
                 self._manage_stack(token, section_stack, root)
-- 
2.43.0


From 8114cd76854f22ec1a22e14885f424fea7533de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 005/102] fix: number appendix theorems with the appendix
 letter

---
 latex2json/structure/builder.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index c936555..33334a5 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -157,17 +157,16 @@ class TokenBuilder:
         self.section_numbers[level] = self.section_numbers.get(level, 0) + 1
 
         # Build section number string
-        # First number is a letter if in appendix i.e. 1->A, 2->B, etc.
-        first_num = (
-            chr(64 + self.section_numbers[1])
-            if in_appendix
-            else str(self.section_numbers[1])
-        )
-        number_parts = [first_num] + [
+        number_parts = [self._first_section_number(in_appendix)] + [
             str(self.section_numbers[l]) for l in range(2, level + 1)
         ]
         token["numbering"] = ".".join(number_parts)
 
+    def _first_section_number(self, in_appendix=False) -> str:
+        # First number is a letter if in appendix i.e. 1->A, 2->B, etc.
+        number = self.section_numbers[1]
+        return chr(64 + number) if in_appendix else str(number)
+
     def _update_equation_numbering(self, token):
         self.equation_number += 1
         token["numbering"] = str(self.equation_number)
@@ -184,10 +183,10 @@ class TokenBuilder:
         self.figure_env_number += 1
         token["numbering"] = str(self.figure_env_number)
 
-    def _update_math_env_numbering(self, token):
+    def _update_math_env_numbering(self, token, in_appendix=False):
         self.math_env_number += 1
         # Use current section number + sequential counter
-        section_prefix = str(self.section_numbers[1])
+        section_prefix = self._first_section_number(in_appendix)
         token["numbering"] = f"{section_prefix}.{self.math_env_number}"
 
     def _convert_inline_equations_to_text(self, tokens):
@@ -326,14 +325,14 @@ class TokenBuilder:
         token["content"] = []
         stack.append(token)
 
-    def _check_update_numbering(self, token: Dict[str, any]):
+    def _check_update_numbering(self, token: Dict[str, any], in_appendix=False):
         if token.get("numbered"):
             if token["type"] == "equation":
                 self._update_equation_numbering(token)
             elif token["type"] == "algorithm":
                 self._update_algorithm_numbering(token)
             elif token["type"] == "math_env":
-                self._update_math_env_numbering(token)
+                self._update_math_env_numbering(token, in_appendix)
             elif token["type"] == "table":
                 self._update_table_env_numbering(token)
             elif token["type"] == "figure":
@@ -376,7 +375,7 @@ class TokenBuilder:
                 continue
 
             # Handle token numbering
-            self._check_update_numbering(token)
+            self._check_update_numbering(token, in_appendix)
 
             # Handle list depth
             if token["type"] == "list":
-- 
2.43.0


From c9a75c4e18075e6dc81e64cbb222fc14581dbbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 006/102] fix: \let takes a single control sequence instead of
 swallowing what follows

---
 latex2json/parser/handlers/new_definition.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 7166b80..d12fafe 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -24,8 +24,12 @@ LET_COMMAND_PREFIX = r"\\(?:future)?let\s*\\"
 DEF_COMMAND_PATTERN = re.compile(
     r"%s([^\s{#]+)(((?:#\d+|[^{])*)\s*{)" % (DEF_COMMAND_PREFIX), re.DOTALL
 )
+# a single control sequence: a word (maybe csname-built, e.g. \foo#1) or one character
+LET_TARGET_PATTERN = r"\\(?:[a-zA-Z@]+[\d#:]*|[\d#]+|.)"
 LET_COMMAND_PATTERN = re.compile(
-    r"%s([^\s{\\]+)\s*(=.*|\\[^\s{]+)" % (LET_COMMAND_PREFIX), re.DOTALL
+    r"%s([^\s{\\]+)\s*(=\s*(?:%s|[^\s{}\\]+)|%s)"
+    % (LET_COMMAND_PREFIX, LET_TARGET_PATTERN, LET_TARGET_PATTERN),
+    re.DOTALL,
 )
 
 EXPAND_PATTERN = re.compile(r"\\(?:expandafter|noexpand)(?:\w+)?(?![a-zA-Z])")
@@ -329,7 +333,7 @@ class NewDefinitionHandler(TokenHandler):
         content = match.group(2).strip()
         # Remove optional equals sign if present
         if content.startswith("="):
-            content = content[1:]
+            content = content[1:].strip()
         elif name.endswith("="):
             name = name[:-1]
 
-- 
2.43.0


From 2eab082982131f33dc07f3065c88125c21f48d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 007/102] fix: \let copies macros with arguments, and later
 redefinitions of a \let name take effect

---
 .../parser/handlers/command_processor.py      | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index 0fe83da..7c2f372 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -15,6 +15,7 @@ from latex2json.utils.tex_utils import (
 from latex2json.parser.handlers.new_definition import (
     END_CSNAME_PATTERN,
     START_CSNAME_PATTERN,
+    USAGE_SUFFIX,
     extract_and_concat_nested_csname,
     command_pattern,
 )
@@ -132,7 +133,27 @@ class CommandProcessor:
                 if not cmd.get("math_mode_only", False):
                     yield cmd
 
+    def _copy_command(self, command_name: str, target: str) -> bool:
+        r"""\let to a user macro: copy the macro itself, arguments included"""
+        entry = self._all_commands.get(target)
+        prefix = r"\\" + re.escape(target)
+        if not entry or not entry["pattern"].pattern.startswith(prefix):
+            return False
+        suffix = entry["pattern"].pattern[len(prefix) :]
+        if "csname" in suffix:
+            return False
+        if command_name[-1].isalnum() and not suffix.startswith(USAGE_SUFFIX):
+            suffix = USAGE_SUFFIX + suffix
+        pattern = re.compile(r"\\" + re.escape(command_name) + suffix, re.DOTALL)
+        self.let_commands.pop(command_name, None)
+        self.commands[command_name] = {**entry, "pattern": pattern}
+        return True
+
     def process_let(self, command_name: str, definition: str, usage_pattern: str):
+        if definition.startswith("\\") and "csname" not in usage_pattern:
+            if self._copy_command(command_name, definition[1:]):
+                return
+
         # for let, we evaluate the definition right way
         definition = self.expand_commands(definition, True)[0]
 
@@ -147,6 +168,7 @@ class CommandProcessor:
                 "handler": handler,
                 "definition": definition,
             }
+            self.commands.pop(command_name, None)
             self.let_commands[command_name] = command
         except Exception as e:
             print(f"Error processing newcommand {command_name}: {e}")
@@ -245,6 +267,7 @@ class CommandProcessor:
                 "definition": definition,
                 "math_mode_only": math_mode_only,
             }
+            self.let_commands.pop(command_name, None)
             self.commands[command_name] = command
         except Exception as e:
             print(f"Error processing newcommand {command_name}: {e}")
@@ -321,6 +344,7 @@ class CommandProcessor:
                 "handler": handler,
                 "definition": definition,
             }
+            self.let_commands.pop(command_name, None)
             self.commands[command_name] = command
         except Exception as e:
             print(f"Error processing newdef {command_name}: {e}")
-- 
2.43.0


From d6dea3c5d0484b3c87bf8c5cf281260d22d33082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 008/102] fix: mutually recursive macros no longer hang, and
 \let names keep their original meaning when the target is redefined

---
 latex2json/parser/handlers/command_manager.py | 40 ++++++++++++++++++-
 .../parser/handlers/command_processor.py      | 40 ++++++++++++++++++-
 latex2json/parser/handlers/new_definition.py  |  2 +
 latex2json/parser/tex_parser.py               | 12 +++++-
 4 files changed, 89 insertions(+), 5 deletions(-)

diff --git a/latex2json/parser/handlers/command_manager.py b/latex2json/parser/handlers/command_manager.py
index 9c9636d..856b9d4 100644
--- a/latex2json/parser/handlers/command_manager.py
+++ b/latex2json/parser/handlers/command_manager.py
@@ -63,6 +63,25 @@ class CommandManager(TokenHandler):
     def _should_handle_command_type(self, cmd_type: str) -> bool:
         return not self.command_types or cmd_type in self.command_types
 
+    def _is_recursive(self, usage_pattern: str, content: str) -> bool:
+        """Whether expanding content would lead back to the command being defined,
+        directly or through the definitions of other commands"""
+        pattern = re.compile(usage_pattern, re.DOTALL)
+        seen = set()
+        pending = [content]
+        while pending:
+            text = pending.pop()
+            if pattern.search(text):
+                return True
+            for name, command in self.processor.commands.items():
+                definition = command.get("definition")
+                if name in seen or not definition:
+                    continue
+                if command["pattern"].search(text):
+                    seen.add(name)
+                    pending.append(definition)
+        return False
+
     def register_command(self, token: Dict) -> None:
         """Register commands based on their type"""
         if not token or "name" not in token:
@@ -75,13 +94,16 @@ class CommandManager(TokenHandler):
         if not self._should_handle_command_type(token["type"]):
             return
 
+        if token.get("provide") and self.processor.has_command(cmd_name):
+            return
+
         # Consolidate command registration logic from sty_parser/tex_parser/tex_preprocessor
         ignore_sty = token.get("is_sty", False) and self.ignore_sty_commands
         math_mode_only = token.get("math_mode_only", False)
         if token["type"] == "newcommand":
             # Check for recursion like tex_parser does
             content = token["content"] if not ignore_sty else ""
-            if content and re.search(token["usage_pattern"], content):
+            if content and self._is_recursive(token["usage_pattern"], content):
                 self.logger.warning(
                     f"Potential recursion detected for newcommand: \\{cmd_name}, skipping..."
                 )
@@ -103,6 +125,13 @@ class CommandManager(TokenHandler):
             )
         elif token["type"] == "def":
             content = token["content"] if not ignore_sty else ""
+            if not token["is_edef"] and self._is_recursive(
+                token["usage_pattern"], content
+            ):
+                self.logger.warning(
+                    f"Potential recursion detected for def: \\{cmd_name}, skipping..."
+                )
+                return
             self.processor.process_newdef(
                 cmd_name,
                 content,
@@ -137,6 +166,15 @@ class CommandManager(TokenHandler):
         """Expand commands in content"""
         return self.processor.expand_commands(content, ignore_unicode, math_mode)
 
+    def has_command(self, command_name: str) -> bool:
+        return self.processor.has_command(command_name)
+
+    def remove_command(self, command_name: str) -> None:
+        self.processor.remove_command(command_name)
+
+    def shadowed_primitive(self, content: str, names=()) -> Optional[str]:
+        return self.processor.shadowed_primitive(content, names)
+
     def handle(self, content: str) -> Tuple[str, int]:
         """Handle commands with appropriate handlers"""
         # First try the keyval handler
diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index 7c2f372..ccf922f 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -33,6 +33,7 @@ class CommandEntry(TypedDict):
     handler: Callable[[re.Match[str], str, Optional[bool]], Tuple[str, int]]
     definition: Optional[str]
     math_mode_only: Optional[bool] = False
+    primitive: Optional[str] = None  # control sequence a let name stands for
 
 
 def default_ignore_handler(
@@ -115,6 +116,10 @@ class CommandProcessor:
     def has_command(self, command_name: str) -> bool:
         return command_name in self._all_commands
 
+    def remove_command(self, command_name: str):
+        self.commands.pop(command_name, None)
+        self.let_commands.pop(command_name, None)
+
     def get_command_iter(self, math_mode=False):
         """
         Returns an iterator over commands, filtered by math_mode if specified.
@@ -135,7 +140,7 @@ class CommandProcessor:
 
     def _copy_command(self, command_name: str, target: str) -> bool:
         r"""\let to a user macro: copy the macro itself, arguments included"""
-        entry = self._all_commands.get(target)
+        entry = self.commands.get(target)
         prefix = r"\\" + re.escape(target)
         if not entry or not entry["pattern"].pattern.startswith(prefix):
             return False
@@ -156,6 +161,9 @@ class CommandProcessor:
 
         # for let, we evaluate the definition right way
         definition = self.expand_commands(definition, True)[0]
+        primitive = None
+        if re.fullmatch(r"\\(?:[a-zA-Z@]+|[^a-zA-Z@])", definition):
+            primitive = definition[1:]
 
         def handler(
             match: re.Match[str], text: str, math_mode: bool = False
@@ -167,6 +175,7 @@ class CommandProcessor:
                 "pattern": re.compile(usage_pattern, re.DOTALL),
                 "handler": handler,
                 "definition": definition,
+                "primitive": primitive,
             }
             self.commands.pop(command_name, None)
             self.let_commands[command_name] = command
@@ -407,7 +416,7 @@ class CommandProcessor:
         # first process commands
         text, match_count = self._expand(text, command_entries, math_mode=math_mode)
         # then process let commands
-        text, match_count = self._expand(text, self.let_commands, math_mode=math_mode)
+        text = self._expand_let(text)
 
         # Handle unicode conversions using the converter
         if not ignore_unicode:
@@ -415,6 +424,23 @@ class CommandProcessor:
 
         return text, match_count
 
+    def _expand_let(self, text: str) -> str:
+        """Replace let names by what they stand for. The replacement means what it
+        meant at the time of the let, so it is not expanded any further"""
+        out = ""
+        while True:
+            matches = [
+                (match, cmd)
+                for cmd in self.let_commands.values()
+                for match in [cmd["pattern"].search(text)]
+                if match
+            ]
+            if not matches:
+                return out + text
+            match, cmd = min(matches, key=lambda m: (m[0].start(), -m[0].end()))
+            out += text[: match.start()] + cmd["handler"](match, text)[0]
+            text = text[max(match.end(), match.start() + 1) :]
+
     def _expand(
         self,
         text: str,
@@ -460,6 +486,16 @@ class CommandProcessor:
 
         return text, match_count
 
+    def shadowed_primitive(self, text: str, names=()) -> Optional[str]:
+        """If text starts with a let name standing for a control sequence that has been
+        redefined since (here or among names), return that control sequence"""
+        for cmd in self.let_commands.values():
+            primitive = cmd.get("primitive")
+            if primitive and (primitive in self._all_commands or primitive in names):
+                if cmd["pattern"].match(text):
+                    return primitive
+        return None
+
     def can_handle(self, text: str) -> bool:
         for cmd in self.get_command_iter(False):
             if cmd["pattern"].match(text):
diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index d12fafe..e5807bd 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -396,6 +396,8 @@ class NewDefinitionHandler(TokenHandler):
             "defaults": defaults,
             "usage_pattern": pattern,
         }
+        if match.group(0).startswith("\\provide"):
+            token["provide"] = True  # keeps an existing definition
 
         return token, start_pos + end_pos - 1
 
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 38e2e41..9cb77e1 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -282,7 +282,9 @@ class LatexParser:
 
     def _check_for_new_definitions(self, content: str) -> None:
         """Check for new definitions in the content and process them"""
-        token, end_pos = self.command_manager.process_definition(content)
+        token, end_pos = self.command_manager.process_definition(
+            content, register=False
+        )
         if token:
             self._process_new_definition_token(token)
         return end_pos
@@ -496,6 +498,8 @@ class LatexParser:
 
         tokens = []
         current_pos = 0
+        # where a let name was replaced by a (since redefined) primitive
+        primitive_pos = -1
 
         while current_pos < len(content):
             # Skip whitespace
@@ -548,7 +552,11 @@ class LatexParser:
                 continue
 
             # check for user defined commands (important to check before new definitions in case of floating \csname)
-            if self.command_manager.can_handle(content[current_pos:]):
+            if current_pos != primitive_pos and self.command_manager.can_handle(
+                content[current_pos:]
+            ):
+                if self.command_manager.shadowed_primitive(content[current_pos:]):
+                    primitive_pos = current_pos
                 text, end_pos = self.command_manager.handle(content[current_pos:])
                 if end_pos > 0:
                     # replace the matched user command with the expanded text
-- 
2.43.0


From cc6f7e4b1b4b8ffe676704ae4148bb9135e062d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 009/102] fix: macros are expanded with the definition in force
 at the point of use, \providecommand keeps existing definitions

---
 latex2json/parser/tex_preprocessor.py | 48 +++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 5fbc3f3..10e3b25 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -192,6 +192,12 @@ class LatexPreprocessor:
 
         math_blocks = {}
 
+        # names of the macros left in place for the parser to expand
+        skipped_names = set()
+        # whether definitions have to stay in place, because what comes before them
+        # is yet to be expanded by the parser under an earlier meaning
+        in_order = False
+
         while current_pos < len(content):
             # find the next delimiter (this block allows us to quickly identify and process chunks of text between special LaTeX delimiters
             # without it, we would have to parse the entire content string character by character. which would be slower.)
@@ -256,11 +262,35 @@ class LatexPreprocessor:
                 if token.get("type", "").startswith("keyval"):
                     current_pos += end_pos
                     continue
+                name = token.get("name", "")
+                is_macro = token.get("type") in ["newcommand", "def", "let"]
+                if token.get("provide") and (
+                    name in skipped_names or self.command_manager.has_command(name)
+                ):
+                    content = content[:current_pos] + content[current_pos + end_pos :]
+                    continue
                 # Skip macro definitions that have parameters (#1, #2) or take arguments,
                 # as these need to be expanded later when actual values are provided
-                if token.get("num_args", 0) > 0 or check_string_has_hash_number(
-                    token.get("content", "")
+                if (
+                    token.get("num_args", 0) > 0
+                    or check_string_has_hash_number(token.get("content", ""))
+                    or (
+                        token.get("type") == "let"
+                        and token.get("content", "")[1:] in skipped_names
+                    )
                 ):
+                    if is_macro and name not in WHITELISTED_COMMANDS:
+                        self.command_manager.remove_command(name)
+                        skipped_names.add(name)
+                    current_pos += end_pos
+                    continue
+                if is_macro and not in_order:
+                    in_order = self._is_used_before(
+                        name, content[:current_pos], math_blocks
+                    )
+                if is_macro and in_order:
+                    self._process_new_definition_token(token)
+                    skipped_names.discard(name)
                     current_pos += end_pos
                     continue
                 self._process_new_definition_token(token)
@@ -291,7 +321,11 @@ class LatexPreprocessor:
                     continue
 
             # Expand commands using command_manager instead of command_processor
-            if self.command_manager.can_handle(content[current_pos:]):
+            if self.command_manager.can_handle(
+                content[current_pos:]
+            ) and not self.command_manager.shadowed_primitive(
+                content[current_pos:], skipped_names
+            ):
                 expanded_text, end_pos = self.command_manager.handle(
                     content[current_pos:]
                 )
@@ -325,6 +359,14 @@ class LatexPreprocessor:
 
         return content, tokens
 
+    @staticmethod
+    def _is_used_before(name: str, content: str, math_blocks: Dict[str, str]) -> bool:
+        """Whether a command is used in the content preceding its definition"""
+        usage = re.compile(
+            r"\\" + re.escape(name) + (r"(?![a-zA-Z])" if name[-1:].isalpha() else "")
+        )
+        return any(usage.search(text) for text in [content, *math_blocks.values()])
+
     def _extract_verbatim_blocks(self, content: str) -> tuple[str, dict]:
         """
         Extracts verbatim environments from the content and replaces them with placeholders.
-- 
2.43.0


From bc89d32a684781c85d600360d0a1c3d3f3700440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 010/102] fix: \def arguments with nested braces,
 control-sequence arguments and delimiters; \xdef expands like \edef

---
 latex2json/parser/handlers/new_definition.py | 30 ++++++++++++++++++--
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index e5807bd..00ae57a 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -32,6 +32,11 @@ LET_COMMAND_PATTERN = re.compile(
     re.DOTALL,
 )
 
+# content of a braced argument, for a few levels of nested braces
+DEF_ARG_CONTENT_PATTERN = r"(?:\\.|[^{}\\])*"
+for _ in range(6):
+    DEF_ARG_CONTENT_PATTERN = r"(?:\\.|[^{}\\]|\{%s\})*" % DEF_ARG_CONTENT_PATTERN
+
 EXPAND_PATTERN = re.compile(r"\\(?:expandafter|noexpand)(?:\w+)?(?![a-zA-Z])")
 START_CSNAME_PATTERN = re.compile(r"\\csname(?![a-zA-Z])")
 END_CSNAME_PATTERN = re.compile(r"\\endcsname(?![a-zA-Z])")
@@ -526,7 +531,8 @@ class NewDefinitionHandler(TokenHandler):
         if definition is None:
             return None, start_pos
 
-        is_edef = r"\edef" in content[: match.start(1) or match.start(2)]
+        prefix = content[: match.start(1) or match.start(2)]
+        is_edef = r"\edef" in prefix or r"\xdef" in prefix
 
         # Get command name (will be clean now, without parameters)
         cmd_name = match.group(1) or match.group(2)
@@ -539,6 +545,12 @@ class NewDefinitionHandler(TokenHandler):
         parts, param_count = self._extract_def_pattern_parts(
             rf"{cmd_name}{param_pattern}"
         )
+        if param_count > 0:
+            # the delimiter before the first argument is not part of the name,
+            # e.g. \def\foo(#1){...} defines \foo
+            delimited = re.match(r"([a-zA-Z@]+)[^a-zA-Z@\d:]", cmd_name)
+            if delimited:
+                cmd_name = delimited.group(1)
         usage_pattern = r"\\" + "".join(parts)
 
         token = {
@@ -575,7 +587,15 @@ class NewDefinitionHandler(TokenHandler):
             # Add the args pattern to capture delimiters and args e.g. {xxx} or x
             # e.g. \def\foo#1{bar #1} \foo{xxx} will match 'xxx' arg, \foo xaaa will match 'x' arg
             # Update regex to handle escaped braces and normal braces
-            args_part_pattern = r"\s*(?:\{((?:[^{}]|\\\{|\\\}|{[^{}]*})*)\}|([^\}]+?))"
+            args_part_pattern = (
+                r"\s*(?:\{(%s)\}|(\\[a-zA-Z@]+|\\[^a-zA-Z]|[^\}]+?))"
+                % DEF_ARG_CONTENT_PATTERN
+            )
+            # an argument followed by a delimiter extends up to that delimiter
+            delimited_arg_pattern = r"\s*(?:\{(%s)\}|((?:\\.|[^{}\\]|\{%s\})*?))" % (
+                DEF_ARG_CONTENT_PATTERN,
+                DEF_ARG_CONTENT_PATTERN,
+            )
 
             current_pos = 0
             for param in re.finditer(r"#(\d+)", args):
@@ -584,7 +604,11 @@ class NewDefinitionHandler(TokenHandler):
                 if before_param:
                     parts.append(re.escape(before_param))
 
-                parts.append(args_part_pattern)
+                next_char = args[param.end() : param.end() + 1]
+                if next_char and not next_char.isspace() and next_char != "#":
+                    parts.append(delimited_arg_pattern)
+                else:
+                    parts.append(args_part_pattern)
 
                 current_pos = param.end()
                 param_count += 1
-- 
2.43.0


From c54eb0780875da98ca2fbc1594c2ef0e41129a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 011/102] fix: detect definition cycles that pass arguments

---
 latex2json/parser/handlers/command_manager.py | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/latex2json/parser/handlers/command_manager.py b/latex2json/parser/handlers/command_manager.py
index 856b9d4..11d83fc 100644
--- a/latex2json/parser/handlers/command_manager.py
+++ b/latex2json/parser/handlers/command_manager.py
@@ -63,21 +63,28 @@ class CommandManager(TokenHandler):
     def _should_handle_command_type(self, cmd_type: str) -> bool:
         return not self.command_types or cmd_type in self.command_types
 
-    def _is_recursive(self, usage_pattern: str, content: str) -> bool:
+    @staticmethod
+    def _mentions(text: str, name: str, usage_pattern) -> bool:
+        suffix = r"(?![a-zA-Z])" if name[-1].isalpha() else ""
+        return bool(
+            re.search(r"\\" + re.escape(name) + suffix, text)
+            or re.search(usage_pattern, text)
+        )
+
+    def _is_recursive(self, cmd_name: str, usage_pattern: str, content: str) -> bool:
         """Whether expanding content would lead back to the command being defined,
         directly or through the definitions of other commands"""
-        pattern = re.compile(usage_pattern, re.DOTALL)
         seen = set()
         pending = [content]
         while pending:
             text = pending.pop()
-            if pattern.search(text):
+            if self._mentions(text, cmd_name, usage_pattern):
                 return True
             for name, command in self.processor.commands.items():
                 definition = command.get("definition")
                 if name in seen or not definition:
                     continue
-                if command["pattern"].search(text):
+                if self._mentions(text, name, command["pattern"]):
                     seen.add(name)
                     pending.append(definition)
         return False
@@ -103,7 +110,9 @@ class CommandManager(TokenHandler):
         if token["type"] == "newcommand":
             # Check for recursion like tex_parser does
             content = token["content"] if not ignore_sty else ""
-            if content and self._is_recursive(token["usage_pattern"], content):
+            if content and self._is_recursive(
+                cmd_name, token["usage_pattern"], content
+            ):
                 self.logger.warning(
                     f"Potential recursion detected for newcommand: \\{cmd_name}, skipping..."
                 )
@@ -126,7 +135,7 @@ class CommandManager(TokenHandler):
         elif token["type"] == "def":
             content = token["content"] if not ignore_sty else ""
             if not token["is_edef"] and self._is_recursive(
-                token["usage_pattern"], content
+                cmd_name, token["usage_pattern"], content
             ):
                 self.logger.warning(
                     f"Potential recursion detected for def: \\{cmd_name}, skipping..."
-- 
2.43.0


From 7e2cbfce249eaf234396b7f21905ef34d79e0081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 012/102] fix: \edef and \let of macros with arguments take
 their meaning at the point of definition

---
 latex2json/parser/tex_preprocessor.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 10e3b25..3450f1c 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -275,8 +275,12 @@ class LatexPreprocessor:
                     token.get("num_args", 0) > 0
                     or check_string_has_hash_number(token.get("content", ""))
                     or (
-                        token.get("type") == "let"
-                        and token.get("content", "")[1:] in skipped_names
+                        # the meaning to copy is only known to the parser
+                        (token.get("type") == "let" or token.get("is_edef"))
+                        and any(
+                            self._uses_command(skipped, token["content"])
+                            for skipped in skipped_names
+                        )
                     )
                 ):
                     if is_macro and name not in WHITELISTED_COMMANDS:
@@ -285,8 +289,11 @@ class LatexPreprocessor:
                     current_pos += end_pos
                     continue
                 if is_macro and not in_order:
-                    in_order = self._is_used_before(
-                        name, content[:current_pos], math_blocks
+                    in_order = self._uses_command(
+                        name,
+                        content[:current_pos],
+                        *math_blocks.values(),
+                        *(t["content"] for t in tokens if t.get("content")),
                     )
                 if is_macro and in_order:
                     self._process_new_definition_token(token)
@@ -360,12 +367,11 @@ class LatexPreprocessor:
         return content, tokens
 
     @staticmethod
-    def _is_used_before(name: str, content: str, math_blocks: Dict[str, str]) -> bool:
-        """Whether a command is used in the content preceding its definition"""
+    def _uses_command(name: str, *contents: str) -> bool:
         usage = re.compile(
             r"\\" + re.escape(name) + (r"(?![a-zA-Z])" if name[-1:].isalpha() else "")
         )
-        return any(usage.search(text) for text in [content, *math_blocks.values()])
+        return any(usage.search(text) for text in contents)
 
     def _extract_verbatim_blocks(self, content: str) -> tuple[str, dict]:
         """
-- 
2.43.0


From cd9138dc66d283a0bb224aac017362e3440ac3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:24 +0000
Subject: [PATCH 013/102] fix: \iff is not a conditional, switch names that
 prefix one another stay apart, \IfFileExists picks one branch

---
 latex2json/parser/handlers/if_else_statements.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index 3d8aa73..f44dc8b 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -36,7 +36,8 @@ ifx_pattern = re.compile(
 )
 
 
-IF_PATTERN = re.compile(r"\\(?:@)?if%s" % (default_if_pattern))
+# (\iff is the math relation, not a conditional)
+IF_PATTERN = re.compile(r"\\(?:@)?if(?!f(?![a-zA-Z@]))%s" % (default_if_pattern))
 ELSE_PATTERN = re.compile(r"\\else\b")
 ELSIF_PATTERN = re.compile(
     r"\\els(?:e)?if%s|\\or%s\b" % (default_if_pattern, default_if_pattern)
@@ -200,7 +201,9 @@ class IfElseBlockHandler(TokenHandler):
         self._recompile_all_ifs()
 
     def process_newif(self, var_name: str):
-        pattern = re.compile(r"\\if" + var_name + r"(?:true|false)?")
+        pattern = re.compile(
+            r"\\if" + re.escape(var_name) + r"(?:true|false)?(?![a-zA-Z@])"
+        )
         # push to top of stack i.e. priority
         self.all_ifs.insert(0, (var_name, pattern))
         self._recompile_all_ifs()
@@ -290,6 +293,8 @@ class IfElseBlockHandler(TokenHandler):
                     "@ifundefined",
                 ]:
                     return self._handle_atif(content, match, name)
+                elif name == "iffileexists":
+                    return self._handle_iffileexists(content, match)
                 elif name == "@ifstar":
                     return self._handle_ifstar(content, match)
                 # elif name == "equal":
-- 
2.43.0


From a5793582e455fd912ed0a9a7222868f9c32eaf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:24 +0000
Subject: [PATCH 014/102] fix: a control word at the end of an expansion does
 not merge with the following letters

---
 latex2json/parser/tex_parser.py       |  9 +++++----
 latex2json/parser/tex_preprocessor.py | 13 +++++++------
 latex2json/utils/tex_utils.py         | 16 ++++++++++++++++
 3 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 9cb77e1..28d57f5 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -29,6 +29,7 @@ from latex2json.parser.handlers import (
 from latex2json.parser.handlers.environment import BaseEnvironmentHandler
 from latex2json.parser.handlers.command_manager import CommandManager
 from latex2json.utils.tex_utils import (
+    join_tex,
     extract_nested_content,
     read_tex_file_content,
     strip_latex_comments,
@@ -560,8 +561,8 @@ class LatexParser:
                 text, end_pos = self.command_manager.handle(content[current_pos:])
                 if end_pos > 0:
                     # replace the matched user command with the expanded text
-                    content = (
-                        content[:current_pos] + text + content[current_pos + end_pos :]
+                    content = join_tex(
+                        content[:current_pos], text, content[current_pos + end_pos :]
                     )
                     continue
 
@@ -580,8 +581,8 @@ class LatexParser:
                     block = ""
                     if token:
                         block = token.get("if_content", "")
-                    content = (
-                        content[:current_pos] + block + content[current_pos + end_pos :]
+                    content = join_tex(
+                        content[:current_pos], block, content[current_pos + end_pos :]
                     )
                     continue
 
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 3450f1c..4d1debd 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -21,6 +21,7 @@ from latex2json.parser.handlers import (
 )
 from latex2json.utils.tex_utils import (
     check_string_has_hash_number,
+    join_tex,
     strip_latex_comments,
     normalize_whitespace_and_lines,
 )
@@ -337,10 +338,10 @@ class LatexPreprocessor:
                     content[current_pos:]
                 )
                 if end_pos > 0:
-                    content = (
-                        content[:current_pos]
-                        + expanded_text
-                        + content[current_pos + end_pos :]
+                    content = join_tex(
+                        content[:current_pos],
+                        expanded_text,
+                        content[current_pos + end_pos :],
                     )
                     continue
 
@@ -354,8 +355,8 @@ class LatexPreprocessor:
                     if token:
                         if "@" not in token.get("type", ""):
                             block = token.get("if_content", "")
-                    content = (
-                        content[:current_pos] + block + content[current_pos + end_pos :]
+                    content = join_tex(
+                        content[:current_pos], block, content[current_pos + end_pos :]
                     )
                     continue
 
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 5a57707..07e4525 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -480,6 +480,22 @@ def check_string_has_hash_number(text: str) -> bool:
     return bool(NO_ESC_HASH_NUMBER_PATTERN.search(text))
 
 
+_ENDS_WITH_CONTROL_WORD = re.compile(r"(?<!\\)(?:\\\\)*\\[a-zA-Z@]+$")
+
+
+def join_tex(*parts: str) -> str:
+    """
+    Concatenate pieces of LaTeX. A control word at the end of a piece stays separate
+    from a letter the next one starts with, e.g. "\\fi" + "abc" -> "\\fi abc"
+    """
+    out = ""
+    for part in parts:
+        if part and part[0].isalpha() and _ENDS_WITH_CONTROL_WORD.search(out[-100:]):
+            out += " "
+        out += part
+    return out
+
+
 def substitute_args(definition: str, args: List[str], math_mode=False) -> str:
     r"""
     Substitute argument patterns in LaTeX command definitions.
-- 
2.43.0


From 8d434f2c0a47bfd175e15d30c5db2015f77605ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 015/102] fix: conditionals with braced branches do not count
 as openers of \fi blocks, \ifodd takes its number

---
 .../parser/handlers/if_else_statements.py     | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index f44dc8b..cfb45b2 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -36,8 +36,12 @@ ifx_pattern = re.compile(
 )
 
 
-# (\iff is the math relation, not a conditional)
-IF_PATTERN = re.compile(r"\\(?:@)?if(?!f(?![a-zA-Z@]))%s" % (default_if_pattern))
+# (neither \iff, the math relation, nor conditionals that take their branches in braces)
+IF_PATTERN = re.compile(
+    r"\\(?!if(?:f|thenelse|bool|toggle|blank|strequal)(?![a-zA-Z@]))"
+    r"(?!@if(?:star|undefined|classloaded|packageloaded|nextchar)(?![a-zA-Z@]))"
+    r"(?:@)?if%s" % (default_if_pattern)
+)
 ELSE_PATTERN = re.compile(r"\\else\b")
 ELSIF_PATTERN = re.compile(
     r"\\els(?:e)?if%s|\\or%s\b" % (default_if_pattern, default_if_pattern)
@@ -69,6 +73,7 @@ IF_PATTERNS_DEFAULT_LIST = OrderedDict(
         ),
         "ifnum": re.compile(ifnum_pattern),
         "ifdim": re.compile(ifdim_pattern),
+        "ifodd": re.compile(r"\\ifodd\s*\d+"),
         "ifcat": re.compile(ifcat_pattern),
         "ifcase": re.compile(r"\\ifcase" + default_if_pattern),
         "iffileexists": re.compile(r"\\IfFileExists\s*\{"),
@@ -80,6 +85,16 @@ IF_PATTERNS_DEFAULT_LIST = OrderedDict(
     }
 )
 
+# conditionals that take their branches in braces, without \else and \fi
+BRACED_IFS = [
+    "ifthenelse",
+    "iffileexists",
+    "@ifclassloaded",
+    "@ifpackageloaded",
+    "@ifundefined",
+    "@ifstar",
+]
+
 
 def extract_else_elseif_fi(
     content: str,
@@ -217,6 +232,8 @@ class IfElseBlockHandler(TokenHandler):
             return
         pattern = ""
         for k, v in self.all_ifs:
+            if k in BRACED_IFS:
+                continue
             pattern += "|" + v.pattern
         if pattern.startswith("|"):
             pattern = pattern[1:]
-- 
2.43.0


From f1a5b7008c09e2dbf0e2dde6d91e6ce4d6662bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 016/102] fix: \ifcase takes its number only, and words
 beginning with \or do not start a case

---
 latex2json/parser/handlers/if_else_statements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index cfb45b2..6def67f 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -44,7 +44,7 @@ IF_PATTERN = re.compile(
 )
 ELSE_PATTERN = re.compile(r"\\else\b")
 ELSIF_PATTERN = re.compile(
-    r"\\els(?:e)?if%s|\\or%s\b" % (default_if_pattern, default_if_pattern)
+    r"\\els(?:e)?if%s|\\or(?![a-zA-Z@])(?:\s*\w+\b)?" % default_if_pattern
 )  # Matches both \elsif and \elseif
 FI_PATTERN = re.compile(r"\\fi\b")
 
@@ -75,7 +75,7 @@ IF_PATTERNS_DEFAULT_LIST = OrderedDict(
         "ifdim": re.compile(ifdim_pattern),
         "ifodd": re.compile(r"\\ifodd\s*\d+"),
         "ifcat": re.compile(ifcat_pattern),
-        "ifcase": re.compile(r"\\ifcase" + default_if_pattern),
+        "ifcase": re.compile(rf"\\ifcase\s*{counter_or_num}"),
         "iffileexists": re.compile(r"\\IfFileExists\s*\{"),
         "@ifclassloaded": re.compile(r"\\@ifclassloaded\s*\{"),
         "@ifpackageloaded": re.compile(r"\\@ifpackageloaded\s*\{"),
-- 
2.43.0


From 791c1b05d00b83aee5da482b987f35c8448a80ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:45 +0000
Subject: [PATCH 017/102] fix: white space before and inside brace groups,
 boxes and accented letters separates words

---
 latex2json/parser/tex_parser.py | 46 ++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 28d57f5..b2284e2 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -205,7 +205,11 @@ class LatexParser:
                         and "styles" not in tokens[-1]
                     ):
                         # check consistent spacing
-                        if add_space and not tokens[-1]["content"].endswith(" "):
+                        if (
+                            add_space
+                            and not tokens[-1]["content"].endswith(" ")
+                            and not token_dict["content"][:1].isspace()
+                        ):
                             tokens[-1]["content"] += " "
                         tokens[-1]["content"] += token_dict["content"]
                         return
@@ -348,13 +352,17 @@ class LatexParser:
         return {"type": "bibliography", "content": non_duplicate_tokens}
 
     def _process_token(
-        self, token: str | Dict | List[Dict], tokens: List[Dict], is_env_type=False
+        self,
+        token: str | Dict | List[Dict],
+        tokens: List[Dict],
+        is_env_type=False,
+        add_space: bool = False,
     ) -> None:
         if isinstance(token, str):
             token = {"type": "text", "content": token}
         elif isinstance(token, list):
-            for t in token:
-                self._process_token(t, tokens)
+            for i, t in enumerate(token):
+                self._process_token(t, tokens, add_space=add_space and i == 0)
             return
         else:
             if token["type"] == "bibliography":
@@ -414,9 +422,11 @@ class LatexParser:
                 if "title" in token and isinstance(token["title"], str):
                     token["title"] = self.parse(token["title"])
 
-        self.add_token(token, tokens)
+        self.add_token(token, tokens, add_space)
 
-    def _check_handlers(self, content: str, tokens: List[Dict]) -> Tuple[bool, int]:
+    def _check_handlers(
+        self, content: str, tokens: List[Dict], add_space: bool = False
+    ) -> Tuple[bool, int]:
         """Process content through available handlers.
 
         Returns:
@@ -431,6 +441,7 @@ class LatexParser:
                         token,
                         tokens,
                         is_env_type=isinstance(handler, BaseEnvironmentHandler),
+                        add_space=add_space,
                     )
                 return True, end_pos
         return False, 0
@@ -510,6 +521,9 @@ class LatexParser:
             if current_pos >= len(content):
                 break
 
+            # whether white space separates what follows from the text before it
+            add_space = current_pos > 0 and content[current_pos - 1].isspace()
+
             # Add handling for bare braces at the start i.e. latex grouping {content here}
             if content[current_pos] == "{":
                 # Find matching closing brace
@@ -518,8 +532,12 @@ class LatexParser:
                     # Parse the content within the braces
                     nested_tokens = self.parse(inner_content)
                     if nested_tokens:
-                        for token in nested_tokens:
-                            self.add_token(token, tokens)
+                        if inner_content[0].isspace():
+                            add_space = True
+                        for i, token in enumerate(nested_tokens):
+                            self.add_token(token, tokens, add_space and i == 0)
+                        if inner_content[-1].isspace():
+                            self.add_token(" ", tokens)
                     current_pos += end_pos
                     continue
 
@@ -542,10 +560,6 @@ class LatexParser:
                         next_pos -= 1
                     if handle_unknown_commands:
                         text = self._expand_command(text)
-                    # check if preceding text is a space
-                    add_space = False
-                    if current_pos > 0 and content[current_pos - 1].isspace():
-                        add_space = True
                     self.add_token(text, tokens, add_space)
                 current_pos += next_pos
                 if not next_delimiter:
@@ -602,7 +616,9 @@ class LatexParser:
                     continue
 
             # try each handler
-            matched, end_pos = self._check_handlers(content[current_pos:], tokens)
+            matched, end_pos = self._check_handlers(
+                content[current_pos:], tokens, add_space
+            )
             current_pos += end_pos
             if matched:
                 continue
@@ -620,7 +636,7 @@ class LatexParser:
                 token, end_pos = self._check_unknown_command(content[current_pos:])
                 current_pos += end_pos
                 if token:
-                    self.add_token(token, tokens)
+                    self.add_token(token, tokens, add_space)
                     if token["type"] == "command":
                         cmd_name = token["command"]
                         if cmd_name not in self._unknown_commands:
@@ -641,7 +657,7 @@ class LatexParser:
                             )
                     continue
 
-            self.add_token(content[current_pos], tokens)
+            self.add_token(content[current_pos], tokens, add_space)
             current_pos += 1
 
         return tokens
-- 
2.43.0


From 439fdd72e799c1c03f93c91e087239c7dc7fd281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:36 +0000
Subject: [PATCH 018/102] fix: a control word for a letter joins the letters
 after the spaces it swallows

---
 latex2json/parser/tex_parser.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index b2284e2..8c558aa 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -41,6 +41,7 @@ from latex2json.parser.patterns import (
 )
 from latex2json.parser.packages import get_all_custom_handlers
 
+SWALLOWED_SPACES_PATTERN = re.compile(r"[ \t]*(?:\n(?![ \t]*\n)[ \t]*)?")
 UNKNOWN_COMMAND_PATTERN = re.compile(r"(\\[@a-zA-Z\*]+(?:\s*{)?)")
 
 
@@ -510,6 +511,8 @@ class LatexParser:
 
         tokens = []
         current_pos = 0
+        # where a control word that stands for a letter has swallowed spaces
+        glued_pos = -1
         # where a let name was replaced by a (since redefined) primitive
         primitive_pos = -1
 
@@ -522,7 +525,11 @@ class LatexParser:
                 break
 
             # whether white space separates what follows from the text before it
-            add_space = current_pos > 0 and content[current_pos - 1].isspace()
+            add_space = (
+                current_pos > 0
+                and current_pos != glued_pos
+                and content[current_pos - 1].isspace()
+            )
 
             # Add handling for bare braces at the start i.e. latex grouping {content here}
             if content[current_pos] == "{":
@@ -637,6 +644,15 @@ class LatexParser:
                 current_pos += end_pos
                 if token:
                     self.add_token(token, tokens, add_space)
+                    if (
+                        token["type"] == "text"
+                        and token["content"].isalpha()
+                        and content[current_pos - 1].isalpha()
+                    ):
+                        # e.g. Stra\ss e
+                        spaces = SWALLOWED_SPACES_PATTERN.match(content[current_pos:])
+                        current_pos += spaces.end()
+                        glued_pos = current_pos
                     if token["type"] == "command":
                         cmd_name = token["command"]
                         if cmd_name not in self._unknown_commands:
-- 
2.43.0


From b6992750560a6131d1304f15743bf99155f03b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:53 +0000
Subject: [PATCH 019/102] fix: preprocessing keeps \textbackslash and
 \ensuremath for the parser instead of splicing their output into the source

---
 latex2json/parser/tex_preprocessor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 4d1debd..e4bc63d 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -318,7 +318,11 @@ class LatexPreprocessor:
 
             # check for formatting (put formatting ahead so that we can ignore lots of unnecessary things)
             if self.formatting_handler.can_handle(content[current_pos:]):
-                token, end_pos = self.formatting_handler.handle(content[current_pos:])
+                token, end_pos = self.formatting_handler.handle(
+                    content[current_pos:],
+                    # these yield output that would mean something else as LaTeX source
+                    exclude_patterns=["backslash", "ensuremath"],
+                )
                 if end_pos > 0:
                     block = ""
                     if token:
-- 
2.43.0


From c573cdbaf7e6fccb2dee82b2e986d04389f2e79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:53 +0000
Subject: [PATCH 020/102] fix: accents without a base letter and accents over
 dotless i and j

---
 latex2json/parser/handlers/diacritics.py | 19 +++++++++++++++++--
 latex2json/parser/patterns.py            |  2 +-
 latex2json/parser/tex_parser.py          |  6 ++++++
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/handlers/diacritics.py b/latex2json/parser/handlers/diacritics.py
index 26e3fe3..322d9cf 100644
--- a/latex2json/parser/handlers/diacritics.py
+++ b/latex2json/parser/handlers/diacritics.py
@@ -61,6 +61,10 @@ def generate_accent_patterns():
 ACCENT_PATTERNS = generate_accent_patterns()
 
 
+# the letters that take the place of i and j under an accent
+DOTLESS_PATTERN = re.compile(r"^\\([ij])(?![a-zA-Z])(?:\s+|\{\})?")
+
+
 def apply_accent(base_char: str, accent: str) -> str:
     """
     Apply a LaTeX accent to a base character using Unicode combining characters.
@@ -107,10 +111,21 @@ def parse_diacritic_match(
     last_char = matched_str[-1]
     if last_char == "{":
         out, nested_end_pos = extract_nested_content(text[end_pos - 1 :])
-        if out:
+        if out is not None:
             out = out.strip()
-            last_char = out
             end_pos += nested_end_pos - 1
+            if not out:
+                # no base letter e.g. \^{} or \~{}: the accent itself
+                return accent_name[0] if len(accent_name) == 1 else "", end_pos
+            last_char = out
+    elif last_char == "\\":
+        # e.g. \'\i n
+        dotless = DOTLESS_PATTERN.match(text[end_pos - 1 :])
+        if dotless:
+            last_char = dotless.group(0)
+            end_pos += dotless.end() - 1
+
+    last_char = DOTLESS_PATTERN.sub(r"\1", last_char, count=1)
 
     converted = apply_accent(last_char, accent_name)
     return converted, end_pos
diff --git a/latex2json/parser/patterns.py b/latex2json/parser/patterns.py
index 7c47f7d..c3ee478 100644
--- a/latex2json/parser/patterns.py
+++ b/latex2json/parser/patterns.py
@@ -22,7 +22,7 @@ command_or_dim = rf"(?:[-+]?\s*{command_with_opt_brace_pattern}|{number_points_s
 # match $ or % or { or } only if not preceded by \
 # Update DELIM_PATTERN to also match double backslashes and opening braces {
 DELIM_PATTERN = re.compile(
-    r"(?<!\\)(?:\\\\|\$|%|(?:^|[ \t])\{|\s{|{}|\\\^|\\(?![$%&_#{}^~\\]))"
+    r"(?<!\\)(?:\\\\|\$|%|(?:^|[ \t])\{|\s{|{}|\\\^|\\~|\\(?![$%&_#{}^~\\]))"
 )
 
 DOCUMENTCLASS_PATTERN = re.compile(
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 8c558aa..6d83455 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -42,6 +42,7 @@ from latex2json.parser.patterns import (
 from latex2json.parser.packages import get_all_custom_handlers
 
 SWALLOWED_SPACES_PATTERN = re.compile(r"[ \t]*(?:\n(?![ \t]*\n)[ \t]*)?")
+DOTLESS_END_PATTERN = re.compile(r"\\[ij]\s+$")
 UNKNOWN_COMMAND_PATTERN = re.compile(r"(\\[@a-zA-Z\*]+(?:\s*{)?)")
 
 
@@ -626,6 +627,11 @@ class LatexParser:
             matched, end_pos = self._check_handlers(
                 content[current_pos:], tokens, add_space
             )
+            if matched and DOTLESS_END_PATTERN.search(
+                content[current_pos : current_pos + end_pos]
+            ):
+                # e.g. Mart\'\i nez
+                glued_pos = current_pos + end_pos
             current_pos += end_pos
             if matched:
                 continue
-- 
2.43.0


From d8e49c91a4c84bed3b55f9173ec05500e00134d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:38 +0000
Subject: [PATCH 021/102] fix: a repeated legacy font switch is only taken for
 an off switch when it is the same command

---
 latex2json/parser/handlers/legacy_formatting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/legacy_formatting.py b/latex2json/parser/handlers/legacy_formatting.py
index 0826ab0..a202329 100644
--- a/latex2json/parser/handlers/legacy_formatting.py
+++ b/latex2json/parser/handlers/legacy_formatting.py
@@ -208,7 +208,9 @@ class LegacyFormattingHandler(TokenHandler):
 
                     # if exact match detected, we remove it because it acts like a off switch
                     # e.g. \em some italic text ... \em no longer italic
-                    if command and re.match(r"\\" + command, content[total_pos:]):
+                    if command and re.match(
+                        r"\\" + command + r"(?![a-zA-Z])", content[total_pos:]
+                    ):
                         total_pos += len(command) + 1
 
                     return formatted_text, total_pos
-- 
2.43.0


From 2e76672ac189c8c0bcbeb83cbd7b7c8ddb64a930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:58 +0000
Subject: [PATCH 022/102] fix: a grave accent is not the opening of a quotation

---
 latex2json/parser/tex_preprocessor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index e4bc63d..fc9701f 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -21,6 +21,7 @@ from latex2json.parser.handlers import (
 )
 from latex2json.utils.tex_utils import (
     check_string_has_hash_number,
+    is_escaped,
     join_tex,
     strip_latex_comments,
     normalize_whitespace_and_lines,
@@ -242,7 +243,8 @@ class LatexPreprocessor:
             # check quotes
             for quote_type, pattern in QUOTE_PATTERNS.items():
                 match = pattern.match(content[current_pos:])
-                if match:
+                # an escaped ` is an accent
+                if match and not is_escaped(current_pos, content):
                     quote_content = match.group(1)
                     if quote_type == "double_quotes":
                         quote_content = '"' + quote_content + '"'
-- 
2.43.0


From fc560531bfd81068f330925c4fc617736290dff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:24 +0000
Subject: [PATCH 023/102] fix: brace groups directly after text do not leave
 their braces in the output

---
 latex2json/parser/tex_parser.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 6d83455..fde7770 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -43,6 +43,7 @@ from latex2json.parser.packages import get_all_custom_handlers
 
 SWALLOWED_SPACES_PATTERN = re.compile(r"[ \t]*(?:\n(?![ \t]*\n)[ \t]*)?")
 DOTLESS_END_PATTERN = re.compile(r"\\[ij]\s+$")
+UNESCAPED_BRACE_PATTERN = re.compile(r"(?<!\\){")
 UNKNOWN_COMMAND_PATTERN = re.compile(r"(\\[@a-zA-Z\*]+(?:\s*{)?)")
 
 
@@ -566,6 +567,16 @@ class LatexParser:
                     if text.endswith("{"):
                         text = text[:-1]
                         next_pos -= 1
+                    # stop at a brace group, e.g. foo{bar}
+                    brace = UNESCAPED_BRACE_PATTERN.search(text)
+                    if brace and brace.start() > 0:
+                        _, end_pos = extract_nested_content(
+                            content[current_pos + brace.start() :]
+                        )
+                        if end_pos > 0:
+                            text = text[: brace.start()]
+                            next_pos = brace.start()
+                            next_delimiter = brace
                     if handle_unknown_commands:
                         text = self._expand_command(text)
                     self.add_token(text, tokens, add_space)
-- 
2.43.0


From 7fdc97a9175878fdb28d8026ccc80072fa7725c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:21 +0000
Subject: [PATCH 024/102] fix: white space around commands without output and
 inside nested groups separates words

---
 latex2json/parser/tex_parser.py | 39 ++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index fde7770..5c164e7 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -61,6 +61,10 @@ class LatexParser:
         self.current_file_dir = None
         self.current_str = ""
 
+        # white space around the output of the last (nested) parse
+        self._leading_space = False
+        self._trailing_space = False
+
         # color definitions via \definecolor
         self.colors = {}  # e.g. {"mycolor": {"format": "HTML", "value": "FF0000"}}
 
@@ -518,16 +522,30 @@ class LatexParser:
         # where a let name was replaced by a (since redefined) primitive
         primitive_pos = -1
 
+        # white space met since the last output, and before the first one
+        space_pending = False
+        leading_space = False
+        add_space = False
+        prev_output = None
+
         while current_pos < len(content):
+            output = self._output_size(tokens)
+            if output != prev_output:
+                if prev_output == (0, 0):
+                    leading_space = add_space
+                prev_output = output
+                space_pending = False
+
             # Skip whitespace
             while current_pos < len(content) and content[current_pos].isspace():
                 self.current_str += content[current_pos]
                 current_pos += 1
+                space_pending = True
             if current_pos >= len(content):
                 break
 
             # whether white space separates what follows from the text before it
-            add_space = (
+            add_space = space_pending or (
                 current_pos > 0
                 and current_pos != glued_pos
                 and content[current_pos - 1].isspace()
@@ -540,12 +558,13 @@ class LatexParser:
                 if inner_content is not None:
                     # Parse the content within the braces
                     nested_tokens = self.parse(inner_content)
+                    trailing_space = self._trailing_space
                     if nested_tokens:
-                        if inner_content[0].isspace():
+                        if self._leading_space:
                             add_space = True
                         for i, token in enumerate(nested_tokens):
                             self.add_token(token, tokens, add_space and i == 0)
-                        if inner_content[-1].isspace():
+                        if trailing_space or inner_content[-1].isspace():
                             self.add_token(" ", tokens)
                     current_pos += end_pos
                     continue
@@ -693,8 +712,22 @@ class LatexParser:
             self.add_token(content[current_pos], tokens, add_space)
             current_pos += 1
 
+        if self._output_size(tokens) != prev_output:
+            if prev_output == (0, 0):
+                leading_space = add_space
+            space_pending = False
+        self._leading_space = leading_space
+        self._trailing_space = space_pending
+
         return tokens
 
+    @staticmethod
+    def _output_size(tokens: List[Dict]) -> Tuple[int, int]:
+        """Changes whenever something is added to the tokens"""
+        if not tokens:
+            return 0, 0
+        return len(tokens), len(tokens[-1].get("content") or "")
+
     def preprocess(self, content: str) -> str:
         # Preprocess content before parsing
         content, definition_tokens = self.preprocessor.preprocess(
-- 
2.43.0


From 783f1628bf23c90fac281c4530731c41f940683a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 025/102] fix: saved boxes are not changed by their uses,
 \savebox takes its options, \mbox keeps citations, math and styles

---
 latex2json/parser/packages/boxes.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/latex2json/parser/packages/boxes.py b/latex2json/parser/packages/boxes.py
index 6dd435a..bc9361d 100644
--- a/latex2json/parser/packages/boxes.py
+++ b/latex2json/parser/packages/boxes.py
@@ -1,4 +1,5 @@
 from typing import Dict, List, Tuple, Optional
+import copy
 import re
 
 from latex2json.parser.handlers.base import TokenHandler
@@ -123,9 +124,12 @@ class BoxHandler(TokenHandler):
 
         if one_liner:
             # make everything into one line
-            extracted_content = strip_latex_newlines(
-                flatten_all_to_string(extracted_content)
-            )
+            if isinstance(extracted_content, str):
+                extracted_content = strip_latex_newlines(extracted_content)
+            elif isinstance(extracted_content, list):
+                for token in extracted_content:
+                    if token.get("type") == "text":
+                        token["content"] = re.sub(r"\s+", " ", token["content"])
 
         if isinstance(extracted_content, str):
             return {"type": "text", "content": extracted_content}, end_pos
@@ -152,9 +156,12 @@ class BoxHandler(TokenHandler):
         elif command in ("sbox", "savebox"):
             # Extract the box content
             start_pos = match.end()
-            extracted_args, end_pos = extract_delimited_args(content[start_pos:], "{")
+            # \savebox takes [width][position]
+            extracted_args, end_pos = extract_delimited_args(
+                content[start_pos:], "{" if command == "sbox" else "[[{"
+            )
             if extracted_args:
-                box_content = extracted_args[0]
+                box_content = extracted_args[-1]
                 if self.process_content_fn:
                     box_content = self.process_content_fn(box_content)
                 # Store content in a consistent format
@@ -171,7 +178,8 @@ class BoxHandler(TokenHandler):
         elif command == "usebox":
             # Return the saved box content if it exists
             if box_name in self.saved_boxes and self.saved_boxes[box_name] is not None:
-                return self.saved_boxes[box_name], match.end()
+                # every use gets tokens of its own
+                return copy.deepcopy(self.saved_boxes[box_name]), match.end()
 
         return None, match.end()
 
-- 
2.43.0


From c19690682a7e918a8176943a85c88e0a16765d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:14 +0000
Subject: [PATCH 026/102] fix: \newtheorem* declares unnumbered environments,
 also under names with an asterisk

---
 latex2json/parser/handlers/environment.py    | 16 ++++++++++++----
 latex2json/parser/handlers/new_definition.py |  2 ++
 latex2json/parser/tex_parser.py              |  4 +++-
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index fcd0320..0f2d490 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -1,5 +1,5 @@
 import re
-from typing import Callable, Dict, List, Optional, Tuple
+from typing import Callable, Dict, List, Optional, Set, Tuple
 from latex2json.parser.handlers.base import TokenHandler
 from latex2json.utils.tex_utils import (
     extract_args,
@@ -185,16 +185,22 @@ class BaseEnvironmentHandler(TokenHandler):
         super().__init__(**kwargs)
         self.logger = logger or logging.getLogger(__name__)
         self._newtheorems: Dict[str, str] = {}
+        self._unnumbered_theorems: Set[str] = set()
         self._floatnames: Dict[str, str] = {}
 
-    def process_newtheorem(self, var_name: str, title: str):
+    def process_newtheorem(self, var_name: str, title: str, numbered: bool = True):
         self._newtheorems[var_name] = title
+        if numbered:
+            self._unnumbered_theorems.discard(var_name)
+        else:
+            self._unnumbered_theorems.add(var_name)
 
     def process_floatname(self, var_name: str, title: str):
         self._floatnames[var_name] = title
 
     def clear(self):
         self._newtheorems = {}
+        self._unnumbered_theorems = set()
         self._floatnames = {}
 
     def can_handle(self, content: str) -> bool:
@@ -205,8 +211,10 @@ class BaseEnvironmentHandler(TokenHandler):
 
     def _handle_environment(self, env_name: str, inner_content: str) -> None:
 
-        contains_asterisk = "*" in env_name
-        env_name = env_name.replace("*", "")
+        contains_asterisk = "*" in env_name or env_name in self._unnumbered_theorems
+        # the name may have been declared with its asterisk
+        if env_name not in self._newtheorems:
+            env_name = env_name.replace("*", "")
 
         env_name = self._newtheorems.get(env_name, env_name)
         token = {
diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 00ae57a..657b9e1 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -413,6 +413,8 @@ class NewDefinitionHandler(TokenHandler):
         # Handle optional counter specification
         if match.group(2):
             token["counter"] = match.group(2)
+        elif match.group(0).startswith(r"\newtheorem*"):
+            token["numbered"] = False
 
         # Handle optional numbering within
         if match.group(4):
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 5c164e7..3d150e1 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -283,7 +283,9 @@ class LatexParser:
                 self.env_handler.process_floatname(cmd_name, token["title"])
                 return
             elif typing == "newtheorem":
-                self.env_handler.process_newtheorem(cmd_name, token["title"])
+                self.env_handler.process_newtheorem(
+                    cmd_name, token["title"], token.get("numbered", True)
+                )
 
             # Special handling for if blocks
             if typing == "newif":
-- 
2.43.0


From 0824476c2d9a44aa7c790a5c2db3a2470606f57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:28 +0000
Subject: [PATCH 027/102] fix: labels after a footnote do not belong to the
 footnote

---
 latex2json/parser/tex_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 3d150e1..5067f5f 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -394,10 +394,12 @@ class LatexParser:
                         tokens.extend(input_tokens)
                 return
             elif token["type"] in ["footnote", "caption"]:
-                # prev_env = self.current_env
+                prev_env = self.current_env
                 self.current_env = token
                 token["content"] = self.parse(token["content"])
-                # self.current_env = prev_env
+                # labels after a caption belong to it, but not those after a footnote
+                if token["type"] == "footnote":
+                    self.current_env = prev_env
             elif token["type"] == "url":
                 if "title" in token:
                     token["title"] = self.parse(token["title"])
-- 
2.43.0


From 38cb884d40713605df8faf50c32c473f20674e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:35 +0000
Subject: [PATCH 028/102] fix: content before the first item of a list does not
 make the conversion fail

---
 latex2json/structure/tokens/table_figure_list.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2json/structure/tokens/table_figure_list.py b/latex2json/structure/tokens/table_figure_list.py
index 04cb863..1ddbfd5 100644
--- a/latex2json/structure/tokens/table_figure_list.py
+++ b/latex2json/structure/tokens/table_figure_list.py
@@ -47,5 +47,6 @@ class ListToken(EnvironmentToken):
     """Represents itemize/enumerate/description environments"""
 
     type: TokenType = TokenType.LIST
-    content: List[ItemToken] = Field(default_factory=list)
+    # items, and whatever precedes the first one
+    content: List[BaseToken] = Field(default_factory=list)
     depth: int = 1
-- 
2.43.0


From 89d411d28bfdfd261922a10495a6225417640210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:42 +0000
Subject: [PATCH 029/102] fix: subtable takes its width

---
 latex2json/parser/handlers/environment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index 0f2d490..0c4eda2 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -105,6 +105,7 @@ ENV_ARGS = {
     "table": {"optional": 1},  # Expects 1 optional argument for placement
     "figure": {"optional": 1},  # Expects 1 optional argument for placement
     "subfigure": {"optional": 1, "mandatory": 1},
+    "subtable": {"optional": 1, "mandatory": 1},
     "wrapfigure": {"optional": 1, "mandatory": 2},
     "adjustbox": {"mandatory": 1},  # Expects 1 mandatory argument for width
     # ... other environments with known argument patterns
-- 
2.43.0


From dcd89d830957b8c94f6bee0d8defaef10be0abec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:26 +0000
Subject: [PATCH 030/102] fix: item labels end at the first bracket outside
 braces

---
 latex2json/parser/handlers/item.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/handlers/item.py b/latex2json/parser/handlers/item.py
index 6609aab..98230d9 100644
--- a/latex2json/parser/handlers/item.py
+++ b/latex2json/parser/handlers/item.py
@@ -16,6 +16,21 @@ class ItemHandler(BaseEnvironmentHandler):
     def can_handle(self, content: str) -> bool:
         return ITEM_PATTERN.match(content) is not None
 
+    @staticmethod
+    def _find_label_end(content: str, pos: int) -> int:
+        depth = 0
+        while pos < len(content):
+            if content[pos] == "\\":
+                pos += 1
+            elif content[pos] == "{":
+                depth += 1
+            elif content[pos] == "}":
+                depth -= 1
+            elif content[pos] == "]" and depth <= 0:
+                return pos
+            pos += 1
+        return -1
+
     def handle(
         self, content: str, prev_token: Optional[Dict] = None
     ) -> Tuple[Optional[Dict], int]:
@@ -23,9 +38,16 @@ class ItemHandler(BaseEnvironmentHandler):
         if match:
             end_of_item = match.group(2)
             end_pos = match.end()
+            title = match.group(1)
+            start = match.start(2)
+            if title is not None:
+                # the label ends at the first bracket outside braces
+                label_end = self._find_label_end(content, match.start(1))
+                if label_end > match.end(1):
+                    title = content[match.start(1) : label_end]
+                    start = label_end + 1
             if end_of_item:
                 # check to see and skip any nested environments that may contain inner \item
-                start = match.start(2)
                 out_end_pos = find_pattern_while_skipping_nested_envs(
                     content, ITEM_PATTERN, start_pos=start
                 )
@@ -35,8 +57,8 @@ class ItemHandler(BaseEnvironmentHandler):
                 token = self._handle_environment("item", content[start:end_pos].strip())
                 token["type"] = "item"
                 del token["name"]
-                if match.group(1):
-                    token["title"] = match.group(1).strip()
+                if title:
+                    token["title"] = title.strip()
                 return token, end_pos
 
             return None, end_pos
-- 
2.43.0


From 59886f4ed7bb6059fa2a951999e8cffcff420c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:50 +0000
Subject: [PATCH 031/102] fix: items that consist of a label only are kept

---
 latex2json/parser/handlers/item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/item.py b/latex2json/parser/handlers/item.py
index 98230d9..b161ffe 100644
--- a/latex2json/parser/handlers/item.py
+++ b/latex2json/parser/handlers/item.py
@@ -46,7 +46,7 @@ class ItemHandler(BaseEnvironmentHandler):
                 if label_end > match.end(1):
                     title = content[match.start(1) : label_end]
                     start = label_end + 1
-            if end_of_item:
+            if end_of_item or title:
                 # check to see and skip any nested environments that may contain inner \item
                 out_end_pos = find_pattern_while_skipping_nested_envs(
                     content, ITEM_PATTERN, start_pos=start
-- 
2.43.0


From e7341314da3d0d4fb1e9662c4cfeeec48ba4de36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:56 +0000
Subject: [PATCH 032/102] fix: a bracket at the start of an item, quote or
 centred text is text

---
 latex2json/parser/handlers/environment.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index 0c4eda2..aee62a8 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -113,6 +113,18 @@ ENV_ARGS = {
 }
 
 
+# Environments without an optional argument: a bracket that follows is content
+ENVS_WITHOUT_OPTIONS = {
+    "document",
+    "abstract",
+    "quote",
+    "center",
+    "flushleft",
+    "flushright",
+    "item",
+}
+
+
 def get_env_type(env_name: str) -> str:
     return ENV_TYPES.get(env_name.lower(), "environment")
 
@@ -237,7 +249,9 @@ class BaseEnvironmentHandler(TokenHandler):
 
         # Extract title if present (text within square brackets after environment name)
         opt_found = False
-        title, end_pos = extract_nested_content(inner_content, "[", "]")
+        title, end_pos = None, 0
+        if env_name not in ENVS_WITHOUT_OPTIONS:
+            title, end_pos = extract_nested_content(inner_content, "[", "]")
         if end_pos > 0:
             inner_content = inner_content[end_pos:]
             opt_found = True
-- 
2.43.0


From e718ce98196c39b7176a0b21aac284f341efd079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:46 +0000
Subject: [PATCH 033/102] fix: text after a quotation keeps its space when
 styled texts are merged

---
 latex2json/structure/builder.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index 33334a5..7715060 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -1,4 +1,5 @@
 import logging
+import re
 from typing import Dict, Final, List
 from latex2json.structure.token_factory import TokenFactory
 from latex2json.structure.tokens.base import BaseToken
@@ -27,6 +28,8 @@ INLINE_TOKEN_TYPES: Final = frozenset(
 # Add these constants at the top of the file with other constants
 OPENING_PUNCTUATION = ("(", "[", "{", "'", '"')
 CLOSING_PUNCTUATION = (".", ",", "!", "?", ":", ";", ")", "]", "}")
+# a quotation mark that ends a quotation
+CLOSING_QUOTE_PATTERN = re.compile(r"""(?:^|[\s(\[{])(['"])(?:(?!\1).)+\1$""", re.DOTALL)
 
 
 def is_inline_token(token: Dict):
@@ -62,8 +65,9 @@ def should_add_space(current_token: Dict, previous_token: Dict) -> bool:
 
         if no_space and previous_token.get("type") == TokenType.TEXT:
             prev_content = previous_token.get("content", "")
-            return not prev_content.endswith(" ") and not any(
-                prev_content.endswith(mark) for mark in OPENING_PUNCTUATION
+            return not prev_content.endswith(" ") and (
+                not any(prev_content.endswith(mark) for mark in OPENING_PUNCTUATION)
+                or bool(CLOSING_QUOTE_PATTERN.search(prev_content))
             )
 
         return no_space
-- 
2.43.0


From 45a54358733528a0edcaebdcdffa3410feebe3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:11 +0000
Subject: [PATCH 034/102] fix: code and URLs are kept as they are, and the %
 signs in them are no comments

---
 latex2json/parser/tex_parser.py       | 77 +++++++++++++++++++++++++++
 latex2json/parser/tex_preprocessor.py |  5 +-
 latex2json/utils/tex_utils.py         | 57 +++++++++++++-------
 3 files changed, 119 insertions(+), 20 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 5067f5f..652047b 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -29,6 +29,7 @@ from latex2json.parser.handlers import (
 from latex2json.parser.handlers.environment import BaseEnvironmentHandler
 from latex2json.parser.handlers.command_manager import CommandManager
 from latex2json.utils.tex_utils import (
+    check_string_has_hash_number,
     join_tex,
     extract_nested_content,
     read_tex_file_content,
@@ -46,6 +47,21 @@ DOTLESS_END_PATTERN = re.compile(r"\\[ij]\s+$")
 UNESCAPED_BRACE_PATTERN = re.compile(r"(?<!\\){")
 UNKNOWN_COMMAND_PATTERN = re.compile(r"(\\[@a-zA-Z\*]+(?:\s*{)?)")
 
+CODE_PATTERN = re.compile(
+    r"""
+    (?P<start>
+        \\begin\s*\{(?P<env>verbatim|lstlisting)\}
+        (?(env)(?:(?<=\{lstlisting\})\[[^\]]*\])?)
+        |\\verb\*?(?P<delim>[^a-zA-Z])
+    )
+    (?P<code>(?(env).*?|[^\n]*?))
+    (?P<end>(?(env)\\end\s*\{(?P=env)\}|(?P=delim)))
+    |\\.
+    """,
+    re.DOTALL | re.VERBOSE,
+)
+CODE_KEY_PATTERN = re.compile(r"L2JCODE(\d+)X")
+
 
 class LatexParser:
     def __init__(self, logger: logging.Logger = None):
@@ -61,6 +77,10 @@ class LatexParser:
         self.current_file_dir = None
         self.current_str = ""
 
+        # code, which is kept out of the content while that is processed
+        self._code_blocks = []
+        self._depth = 0
+
         # white space around the output of the last (nested) parse
         self._leading_space = False
         self._trailing_space = False
@@ -129,6 +149,7 @@ class LatexParser:
         self._unknown_commands = {}
         self.colors = {}
         self.current_str = ""
+        self._code_blocks = []
         self.current_file_dir = None
         self.current_env = None
 
@@ -514,7 +535,63 @@ class LatexParser:
         if not isinstance(content, str):
             return content
 
+        self._depth += 1
+        try:
+            tokens = self._parse(
+                content,
+                line_break_delimiter,
+                handle_unknown_commands,
+                handle_legacy_formatting,
+                preprocess,
+            )
+        finally:
+            self._depth -= 1
+
+        if self._depth == 0 and self._code_blocks:
+            tokens = self._restore_code(tokens)
+        return tokens
+
+    def _extract_code(self, content: str) -> str:
+        """Replace code by keys, so that nothing in it is taken for LaTeX"""
+
+        def replace(match: re.Match) -> str:
+            code = match.group("code")
+            if (
+                not code
+                or CODE_KEY_PATTERN.fullmatch(code)
+                # code is yet to be filled in e.g. \newenvironment{code}{\begin{verbatim}}{\end{verbatim}}
+                or re.fullmatch(r"\s*\}\s*\{\s*", code)
+                or (match.group("delim") and check_string_has_hash_number(code))
+            ):
+                return match.group(0)
+            self._code_blocks.append(code)
+            key = f"L2JCODE{len(self._code_blocks) - 1}X"
+            return match.group("start") + key + match.group("end")
+
+        return CODE_PATTERN.sub(replace, content)
+
+    def _restore_code(self, token):
+        if isinstance(token, str):
+            return CODE_KEY_PATTERN.sub(
+                lambda match: self._code_blocks[int(match.group(1))].strip(), token
+            )
+        elif isinstance(token, list):
+            token[:] = [self._restore_code(t) for t in token]
+        elif isinstance(token, dict):
+            for key, value in token.items():
+                token[key] = self._restore_code(value)
+        return token
+
+    def _parse(
+        self,
+        content: str,
+        line_break_delimiter: str,
+        handle_unknown_commands: bool,
+        handle_legacy_formatting: bool,
+        preprocess: bool,
+    ) -> List[Dict]:
         content = strip_latex_comments(content)
+        content = self._extract_code(content)
 
         if preprocess:
             content = self.preprocess(content)
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index fc9701f..332d1ca 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -322,8 +322,9 @@ class LatexPreprocessor:
             if self.formatting_handler.can_handle(content[current_pos:]):
                 token, end_pos = self.formatting_handler.handle(
                     content[current_pos:],
-                    # these yield output that would mean something else as LaTeX source
-                    exclude_patterns=["backslash", "ensuremath"],
+                    # these yield output that would mean something else as LaTeX source,
+                    # and the % signs left are no comments
+                    exclude_patterns=["backslash", "ensuremath", "comment"],
                 )
                 if end_pos > 0:
                     block = ""
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 07e4525..2a83976 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -322,12 +322,29 @@ def is_escaped(pos: int, text: str) -> bool:
     return count_preceding_backslashes(text, pos) % 2 == 1
 
 
+# what a percent sign has to be told apart from: code and URLs, where it is an
+# ordinary character, and escaped characters
+COMMENT_SCAN_PATTERN = re.compile(
+    r"""
+    (?P<code>
+        \\begin\s*\{(?P<env>verbatim|lstlisting)\}.*?\\end\s*\{(?P=env)\}
+        |\\verb\*?(?P<delim>[^a-zA-Z\s])[^\n]*?(?P=delim)
+    )
+    |(?P<url>\\(?:url|path|href|nolinkurl)\s*\{)
+    |\\.
+    |(?P<comment>%[^\n\r\v\f\x1c-\x1e\x85\u2028\u2029]*)
+    """,
+    re.DOTALL | re.VERBOSE,
+)
+
+
 def strip_latex_comments(text: str) -> str:
     r"""
     Remove all LaTeX comments while preserving escaped \% characters.
 
     A % starts a comment if it is preceded by an even number (including zero)
     of consecutive backslashes. An odd number indicates that the % is escaped.
+    Percent signs in verbatim code and URLs do not start a comment.
 
     Args:
         text: Input LaTeX text
@@ -335,25 +352,29 @@ def strip_latex_comments(text: str) -> str:
     Returns:
         Text with all comments removed.
     """
-    lines = []
-    for line in text.splitlines():
-        result = []
-        i = 0
-        while i < len(line):
-            if line[i] == "%":
-                # Use helper to decide if this % is escaped.
-                if not is_escaped(i, line):
-                    break  # Unescaped % starts a comment
-                else:
-                    # Escaped percent: include literal %
-                    result.append("%")
-                    i += 1
-                    continue
+    result = []
+    pos = 0
+    while True:
+        match = COMMENT_SCAN_PATTERN.search(text, pos)
+        if not match:
+            result.append(text[pos:])
+            break
+        end_pos = match.end()
+        result.append(text[pos : match.start()])
+        if match.group("url"):
+            url, url_end = extract_nested_content(text[end_pos - 1 :])
+            if url is not None and "\n\n" not in url:
+                end_pos += url_end - 1
+                # except at the end of a line
+                url = re.sub(r"(?<!\\)%(?=[ \t]*\n)", "", text[match.start() : end_pos])
+                result.append(url)
             else:
-                result.append(line[i])
-                i += 1
-        lines.append("".join(result).rstrip())
-    return "\n".join(lines)
+                result.append(match.group(0))
+        elif not match.group("comment"):
+            result.append(match.group(0))
+        pos = end_pos
+
+    return "\n".join(line.rstrip() for line in "".join(result).splitlines())
 
 
 def flatten_all_to_string(tokens: List[Dict | str | List] | str) -> str:
-- 
2.43.0


From c3feeb0727688f502bef1f0c0de80657cf814655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:38 +0000
Subject: [PATCH 035/102] fix: \protect does not drop the command after it

---
 latex2json/parser/patterns.py         |  1 +
 latex2json/parser/tex_parser.py       | 19 +++++++++++++++++++
 latex2json/parser/tex_preprocessor.py | 11 ++++++++++-
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/patterns.py b/latex2json/parser/patterns.py
index c3ee478..29ad906 100644
--- a/latex2json/parser/patterns.py
+++ b/latex2json/parser/patterns.py
@@ -34,6 +34,7 @@ USEPACKAGE_PATTERN = re.compile(
     % (OPTIONAL_BRACE_PATTERN, BRACE_CONTENT_PATTERN),
     re.DOTALL,
 )
+PROTECT_PATTERN = re.compile(r"\\protect(?![a-zA-Z@])\s*")
 LOADCLASS_PATTERN = re.compile(
     r"\\LoadClass\s*%s\s*%s" % (OPTIONAL_BRACE_PATTERN, BRACE_CONTENT_PATTERN),
     re.DOTALL,
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 652047b..2de4ad8 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -39,6 +39,7 @@ from latex2json.parser.tex_preprocessor import LatexPreprocessor
 from latex2json.parser.patterns import (
     PATTERNS,
     DELIM_PATTERN,
+    PROTECT_PATTERN,
 )
 from latex2json.parser.packages import get_all_custom_handlers
 
@@ -685,6 +686,14 @@ class LatexParser:
                     break
                 continue
 
+            # a protected command is the command
+            protect = PROTECT_PATTERN.match(content[current_pos:])
+            if protect and self._is_known_command(
+                content[current_pos + protect.end() :]
+            ):
+                content = content[:current_pos] + content[current_pos + protect.end() :]
+                continue
+
             # check for user defined commands (important to check before new definitions in case of floating \csname)
             if current_pos != primitive_pos and self.command_manager.can_handle(
                 content[current_pos:]
@@ -802,6 +811,16 @@ class LatexParser:
 
         return tokens
 
+    def _is_known_command(self, content: str) -> bool:
+        return (
+            self.command_manager.can_handle(content)
+            or any(pattern.match(content) for pattern in PATTERNS.values())
+            or any(
+                handler.can_handle(content)
+                for handler in [self.legacy_formatting_handler, *self.handlers]
+            )
+        )
+
     @staticmethod
     def _output_size(tokens: List[Dict]) -> Tuple[int, int]:
         """Changes whenever something is added to the tokens"""
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 332d1ca..f6e4e5a 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -6,6 +6,7 @@ from typing import Dict
 from latex2json.parser.handlers.formatting import FormattingHandler
 from latex2json.parser.handlers.if_else_statements import IfElseBlockHandler
 from latex2json.parser.patterns import (
+    PROTECT_PATTERN,
     USEPACKAGE_PATTERN,
     WHITELISTED_COMMANDS,
     DELIM_PATTERN,
@@ -324,7 +325,7 @@ class LatexPreprocessor:
                     content[current_pos:],
                     # these yield output that would mean something else as LaTeX source,
                     # and the % signs left are no comments
-                    exclude_patterns=["backslash", "ensuremath", "comment"],
+                    exclude_patterns=["backslash", "ensuremath", "comment", "protect"],
                 )
                 if end_pos > 0:
                     block = ""
@@ -335,6 +336,14 @@ class LatexPreprocessor:
                     )
                     continue
 
+            # a protected command is the command
+            match = PROTECT_PATTERN.match(content[current_pos:])
+            if match and self.command_manager.can_handle(
+                content[current_pos + match.end() :]
+            ):
+                content = content[:current_pos] + content[current_pos + match.end() :]
+                continue
+
             # Expand commands using command_manager instead of command_processor
             if self.command_manager.can_handle(
                 content[current_pos:]
-- 
2.43.0


From f6756d816c94fe3f0e74c8ddcb7d5904f38236f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:02 +0000
Subject: [PATCH 036/102] fix: starred citations, citation notes with braced
 brackets and \hyperref without brackets are read

---
 latex2json/parser/handlers/content_command.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index 079234f..8ab9b46 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -17,7 +17,8 @@ PARAGRAPH_LEVELS = {
     "subparagraph": 2,
 }
 
-OPTIONAL_BRACE_PATTERN = r"(?:\[([^\]]*)\])?"
+# a bracket in braces does not end the argument
+OPTIONAL_BRACE_PATTERN = r"(?:\[((?:[^\]{}]|\{(?:[^{}]|\{(?:[^{}]|\{[^{}]*\})*\})*\})*|[^\]]*)\])?"
 
 RAW_PATTERNS = OrderedDict(
     [
@@ -60,7 +61,7 @@ RAW_PATTERNS = OrderedDict(
         # Citations
         (
             "citation",
-            r"\\(?:cite|citep|citet|cites|citealt|citealp|citeauthor|citenum|citeyear|citeyearpar|citefullauthor)\s*%s%s\s*{"
+            r"\\(?:cite|citep|citet|cites|citealt|citealp|citeauthor|citenum|citeyear|citeyearpar|citefullauthor)\*?\s*%s%s\s*{"
             % (OPTIONAL_BRACE_PATTERN, OPTIONAL_BRACE_PATTERN),
         ),
         # ("citetext", r"\\citetext\s*{"), # remove citetext since it is just like regular latex -> handled by text_formatting
@@ -187,7 +188,7 @@ class ContentCommandHandler(TokenHandler):
             return {
                 "type": "ref",
                 "title": content,
-                "content": [match.group(1).strip()],
+                "content": [match.group(1).strip()] if match.group(1) else [],
             }
 
         # URLs
-- 
2.43.0


From a523b08abfb75fa18c987a08c7e6a87c2ca0be7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:02 +0000
Subject: [PATCH 037/102] fix: tildes written as commands are part of the URL

---
 latex2json/parser/tex_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 2de4ad8..3df4c53 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -61,6 +61,7 @@ CODE_PATTERN = re.compile(
     """,
     re.DOTALL | re.VERBOSE,
 )
+URL_TILDE_PATTERN = re.compile(r"\\(?:~|textasciitilde(?![a-zA-Z]))(?:\s*\{\})?")
 CODE_KEY_PATTERN = re.compile(r"L2JCODE(\d+)X")
 
 
@@ -425,7 +426,9 @@ class LatexParser:
             elif token["type"] == "url":
                 if "title" in token:
                     token["title"] = self.parse(token["title"])
-                token["content"] = self._expand_command(token["content"])
+                token["content"] = self._expand_command(
+                URL_TILDE_PATTERN.sub("~", token["content"])
+            )
             elif token["type"] == "ref":
                 token["content"] = [self._expand_command(c) for c in token["content"]]
                 if "title" in token:
-- 
2.43.0


From c37c406dc409e8e58aa67ecd41634333df65275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:44 +0000
Subject: [PATCH 038/102] fix: soft hyphens, glue with stretch, and the options
 of breaks and rules do not show up in the text

---
 latex2json/parser/handlers/formatting.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 808ae6b..ac76952 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -40,6 +40,12 @@ declare_pattern_N_blocks = {
 }
 
 
+# e.g. 2pt plus 1fil minus 3pt
+GLUE_PATTERN = number_points_suffix + (
+    r"(?:\s*(?:plus|minus)\s*%s\s*(?:fil+|pt|mm|cm|in|em|ex|sp|bp|dd|cc|mu)(?![a-zA-Z]))*"
+    % number_regex
+)
+
 RAW_PATTERNS = OrderedDict(
     [
         # Comments
@@ -77,15 +83,15 @@ RAW_PATTERNS = OrderedDict(
         ("printcontents", r"\\printcontents\s*{"),
         (
             "page",
-            r"\\enlargethispage\s*\{[^}]*\}|\\pagecolor\*?{[^}]*}|\\(?:centering|raggedright|raggedleft|allowdisplaybreaks|samepage|thepage|noindent|par|clearpage|cleardoublepage|nopagebreak|hss|hfill|hfil|vfill|vfil|break|sloppy|flushbottom|flushleft|flushright|flushtop)\b",
+            r"\\enlargethispage\s*\{[^}]*\}|\\pagecolor\*?{[^}]*}|\\(?:centering|raggedright|raggedleft|allowdisplaybreaks|samepage|thepage|noindent|par|clearpage|cleardoublepage|hss|hfill|hfil|vfill|vfil|break|sloppy|flushbottom|flushleft|flushright|flushtop)\b",
         ),
         (
             "pagebreak",
-            r"\\(?:pagebreak|filbreak|newpage|allowbreak|goodbreak|smallbreak|medbreak|bigbreak|break)\b|\\linebreak(?:\[\d+\])?",
+            r"\\(?:filbreak|newpage|allowbreak|goodbreak|smallbreak|medbreak|bigbreak|break)\b|\\(?:no)?(?:page|line)break(?![a-zA-Z])(?:\s*\[\s*\d+\s*\])?",
         ),
         (
             "vskip",
-            r"\\vskip\s*(?:" + number_regex + r"\w+\b|-?\\[@a-zA-Z]+|\b)",
+            r"\\vskip\s*(?:%s|-?\\[@a-zA-Z]+|\b)" % GLUE_PATTERN,
         ),
         (
             "penalty",
@@ -123,6 +129,8 @@ RAW_PATTERNS = OrderedDict(
             + r"\s*(\=?\s*(?:%s))?" % (number_points_suffix),
         ),
         ("indent", r"\\indent\b"),
+        # where a word may be hyphenated
+        ("hyphen", r"\\-"),
         (
             "lineskip",
             r"\\lineskip\s*%s" % (number_points_suffix)
@@ -139,7 +147,7 @@ RAW_PATTERNS = OrderedDict(
             r"\\(?:"
             r"quad|qquad|xspace|space|,|;|:|\!|"  # \quad, \qquad, \, \; \:
             r"hspace\*?\s*{([^}]+)}|"  # \hspace{length}
-            r"hskip\s*%s" % (number_points_suffix)  # \hskip 10pt
+            r"hskip\s*%s" % (GLUE_PATTERN)  # \hskip 10pt plus 1fil
             + r"|linespread\s*\{[^}]*\}"  # Added \linespread{...}
             r")",
         ),
@@ -202,8 +210,8 @@ RAW_PATTERNS = OrderedDict(
             r"hrulefill\b|"  # no args
             r"centerline\b|"  # no args
             r"cline\s*{([^}]+)}|"  # {n-m}
-            r"topsep\b|parsep\b|partopsep\b|"
-            r"labelsep\s*\{?([^\}]*)\}?|"
+            + r"(?:topsep|parsep|partopsep|tabcolsep|labelsep)(?![a-zA-Z])(?:\s*=?\s*%s|\s*\{[^}]*\})?|"
+            % (GLUE_PATTERN)
             + r"(?:midrule|toprule|bottomrule)%s|"
             % (OPTIONAL_BRACE_PATTERN)  # optional [trim]
             + r"cmidrule\s*(?:\(([^)]+)\)\s*)?(?:\[([^\]]*)\]\s*)?{([^}]+)}|"  # optional (lr)[trim] and {n-m}
@@ -211,12 +219,11 @@ RAW_PATTERNS = OrderedDict(
             r"cdashline\s*{([^}]+)}|"  # {n-m}
             r"specialrule\s*{([^}]*)}\s*{([^}]*)}\s*{([^}]*)}|"  # {height}{above}{below}
             r"addlinespace(?:\[([^\]]*)\])?|"  # optional [length]
-            r"rule\s*{[^}]*}\s*{[^}]*}|"  # \rule{width}{height}
+            r"rule\s*(?:\[[^\]]*\]\s*)?{[^}]*}\s*{[^}]*}|"  # \rule[raise]{width}{height}
             r"hrule\b|"
             r"morecmidrules\b|"  # no args
             r"fboxsep\s*{([^}]+)}|"  # {length}
             r"Xhline\s*{([^}]+)}|"  # {length}
-            r"tabcolsep\b|"
             r"colrule\b|"
             r"noalign\b|"
             r"endfirsthead\b"
-- 
2.43.0


From b5e808501aa36fde304e3129c1684ec9eb3a8b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:23 +0000
Subject: [PATCH 039/102] fix: \protect before a silent command is silent too

---
 latex2json/parser/tex_parser.py       |  5 +++--
 latex2json/parser/tex_preprocessor.py | 17 +++++++++--------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 3df4c53..3aa2044 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -691,8 +691,9 @@ class LatexParser:
 
             # a protected command is the command
             protect = PROTECT_PATTERN.match(content[current_pos:])
-            if protect and self._is_known_command(
-                content[current_pos + protect.end() :]
+            if protect and (
+                content[current_pos + protect.end() :][:1] != "\\"
+                or self._is_known_command(content[current_pos + protect.end() :])
             ):
                 content = content[:current_pos] + content[current_pos + protect.end() :]
                 continue
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index f6e4e5a..8581046 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -319,6 +319,15 @@ class LatexPreprocessor:
                 content = content[:current_pos] + content[current_pos + end_pos :]
                 continue
 
+            # a protected command is the command
+            match = PROTECT_PATTERN.match(content[current_pos:])
+            if match and any(
+                handler.can_handle(content[current_pos + match.end() :])
+                for handler in (self.command_manager, self.formatting_handler)
+            ):
+                content = content[:current_pos] + content[current_pos + match.end() :]
+                continue
+
             # check for formatting (put formatting ahead so that we can ignore lots of unnecessary things)
             if self.formatting_handler.can_handle(content[current_pos:]):
                 token, end_pos = self.formatting_handler.handle(
@@ -336,14 +345,6 @@ class LatexPreprocessor:
                     )
                     continue
 
-            # a protected command is the command
-            match = PROTECT_PATTERN.match(content[current_pos:])
-            if match and self.command_manager.can_handle(
-                content[current_pos + match.end() :]
-            ):
-                content = content[:current_pos] + content[current_pos + match.end() :]
-                continue
-
             # Expand commands using command_manager instead of command_processor
             if self.command_manager.can_handle(
                 content[current_pos:]
-- 
2.43.0


From cb18e5b1ff6ad9af6db4ab55fbd6d6d2ea5741de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:01 +0000
Subject: [PATCH 040/102] fix: adjoining quotations at the end of merged styled
 text

---
 latex2json/structure/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index 7715060..65ec46b 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -29,7 +29,7 @@ INLINE_TOKEN_TYPES: Final = frozenset(
 OPENING_PUNCTUATION = ("(", "[", "{", "'", '"')
 CLOSING_PUNCTUATION = (".", ",", "!", "?", ":", ";", ")", "]", "}")
 # a quotation mark that ends a quotation
-CLOSING_QUOTE_PATTERN = re.compile(r"""(?:^|[\s(\[{])(['"])(?:(?!\1).)+\1$""", re.DOTALL)
+CLOSING_QUOTE_PATTERN = re.compile(r"""(?:^|[\s(\[{'"])(['"])(?:(?!\1).)+\1$""", re.DOTALL)
 
 
 def is_inline_token(token: Dict):
-- 
2.43.0


From cf14b7af2e1dbd8f7e195159eb1d4ca7ba387c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:24 +0000
Subject: [PATCH 041/102] fix: dump tokens by their own class in every field

---
 latex2json/structure/tokens/base.py     | 25 ++++++-------------------
 latex2json/structure/tokens/document.py | 10 ----------
 2 files changed, 6 insertions(+), 29 deletions(-)

diff --git a/latex2json/structure/tokens/base.py b/latex2json/structure/tokens/base.py
index 6064cd3..ee61480 100644
--- a/latex2json/structure/tokens/base.py
+++ b/latex2json/structure/tokens/base.py
@@ -35,13 +35,12 @@ class BaseToken(BaseModel):
         # Get the basic model dump but exclude content as we'll handle it specially
         result = super().model_dump(**kwargs)
 
-        # Handle content field recursively
-        if isinstance(self.content, list):
-            result["content"] = [
-                self.serialize_value(token, **kwargs) for token in self.content
-            ]
-        else:
-            result["content"] = self.serialize_value(self.content, **kwargs)
+        # Tokens are dumped by their own class, in whatever field they are
+        result["content"] = self.serialize_value(self.content, **kwargs)
+        for field in result:
+            value = getattr(self, field)
+            if field != "content" and isinstance(value, (BaseToken, list, dict)):
+                result[field] = self.serialize_value(value, **kwargs)
 
         # Remove None values if exclude_none is True
         if exclude_none:
@@ -68,18 +67,6 @@ class MathEnvToken(BaseToken):
     title: Optional[List[BaseToken]] = None
     proof: Optional["MathEnvToken"] = None
 
-    def model_dump(self, **kwargs):
-        result = super().model_dump(**kwargs)
-
-        if self.title:
-            result["title"] = [
-                self.serialize_value(token, **kwargs) for token in self.title
-            ]
-        if self.proof:
-            result["proof"] = self.serialize_value(self.proof, **kwargs)
-
-        return result
-
     @classmethod
     def process(
         cls, data: Dict[str, Any], create_token: TokenCreator
diff --git a/latex2json/structure/tokens/document.py b/latex2json/structure/tokens/document.py
index c45dd1f..d7db03d 100644
--- a/latex2json/structure/tokens/document.py
+++ b/latex2json/structure/tokens/document.py
@@ -19,16 +19,6 @@ class SectionToken(BaseToken):
     numbering: Optional[str] = None  # e.g. 3.1.2
     content: Optional[List[BaseToken]] = []
 
-    def model_dump(self, **kwargs):
-        result = super().model_dump(**kwargs)
-
-        if self.title:
-            result["title"] = [
-                self.serialize_value(token, **kwargs) for token in self.title
-            ]
-
-        return result
-
 
 class ParagraphToken(SectionToken):
     type: TokenType = TokenType.PARAGRAPH
-- 
2.43.0


From 6d89f2cf91aa8ef68611149ce6ebc0616399bee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:43 +0000
Subject: [PATCH 042/102] fix: keep the title of environments declared by
 \newtheorem

---
 latex2json/parser/handlers/environment.py | 3 ++-
 latex2json/structure/tokens/base.py       | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index aee62a8..5f9f590 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -229,6 +229,7 @@ class BaseEnvironmentHandler(TokenHandler):
         if env_name not in self._newtheorems:
             env_name = env_name.replace("*", "")
 
+        is_theorem = env_name in self._newtheorems
         env_name = self._newtheorems.get(env_name, env_name)
         token = {
             "type": "environment",
@@ -255,7 +256,7 @@ class BaseEnvironmentHandler(TokenHandler):
         if end_pos > 0:
             inner_content = inner_content[end_pos:]
             opt_found = True
-        if title and env_type == "math_env":
+        if title and (env_type == "math_env" or is_theorem):
             token["title"] = title
 
         # Extract arguments based on environment type
diff --git a/latex2json/structure/tokens/base.py b/latex2json/structure/tokens/base.py
index ee61480..44a4ac9 100644
--- a/latex2json/structure/tokens/base.py
+++ b/latex2json/structure/tokens/base.py
@@ -57,6 +57,7 @@ class EnvironmentToken(BaseToken):
 
     type: TokenType = TokenType.ENVIRONMENT
     name: Optional[str] = None
+    title: Optional[List[BaseToken]] = None
 
 
 class MathEnvToken(BaseToken):
-- 
2.43.0


From 0bdb0f630aae7112317b63bfaa56ba46bdff8f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:29 +0000
Subject: [PATCH 043/102] fix: keep labels and styles of tables and
 bibliographies

---
 latex2json/structure/tokens/bibliography.py | 6 +++++-
 latex2json/structure/tokens/tabular.py      | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/latex2json/structure/tokens/bibliography.py b/latex2json/structure/tokens/bibliography.py
index 6739deb..3699417 100644
--- a/latex2json/structure/tokens/bibliography.py
+++ b/latex2json/structure/tokens/bibliography.py
@@ -41,4 +41,8 @@ class BibliographyToken(BaseToken):
                 if isinstance(token, BibItemToken):
                     processed_content.append(token)
 
-        return cls(content=processed_content)
+        return cls(
+            content=processed_content,
+            labels=data.get("labels"),
+            styles=data.get("styles"),
+        )
diff --git a/latex2json/structure/tokens/tabular.py b/latex2json/structure/tokens/tabular.py
index 5bc60e5..7efa486 100644
--- a/latex2json/structure/tokens/tabular.py
+++ b/latex2json/structure/tokens/tabular.py
@@ -92,7 +92,9 @@ class TabularToken(BaseToken):
                 else:
                     row_cells.append(cell)
             all_cells.append(row_cells)
-        return cls(content=all_cells)
+        return cls(
+            content=all_cells, labels=data.get("labels"), styles=data.get("styles")
+        )
 
     @classmethod
     def _process_nested_list(
-- 
2.43.0


From e297fe21b8103c7ce6211c0d83b665f51e327b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:54 +0000
Subject: [PATCH 044/102] fix: keep \verb code with a hash sign and a digit

---
 latex2json/parser/tex_parser.py | 38 ++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 3aa2044..b56e935 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -62,6 +62,16 @@ CODE_PATTERN = re.compile(
     re.DOTALL | re.VERBOSE,
 )
 URL_TILDE_PATTERN = re.compile(r"\\(?:~|textasciitilde(?![a-zA-Z]))(?:\s*\{\})?")
+# what precedes the body of a definition with arguments
+DEFINITION_HEAD_PATTERN = re.compile(
+    r"""
+    \\(?:(?:re)?new|provide|DeclareRobust|New|Renew|Provide|Declare)(?:(?P<command>command)|environment|DocumentCommand)
+    \*?\s*(?:\{[^{}]*\}|\\[a-zA-Z@]+)\s*(?:\[[^\]]*\]\s*)*(?(command)|(?:\{[^{}]*\}\s*)?)$
+    |\\[egx]?def\s*\\[a-zA-Z@]+[^{}]*$
+    """,
+    re.VERBOSE,
+)
+BRACE_PATTERN = re.compile(r"\\.|[{}]", re.DOTALL)
 CODE_KEY_PATTERN = re.compile(r"L2JCODE(\d+)X")
 
 
@@ -558,14 +568,40 @@ class LatexParser:
     def _extract_code(self, content: str) -> str:
         """Replace code by keys, so that nothing in it is taken for LaTeX"""
 
+        open_braces = []
+        scanned = 0
+
+        def scan_braces(end: int) -> None:
+            for brace in BRACE_PATTERN.finditer(content, scanned, end):
+                if brace.group(0) == "{":
+                    open_braces.append(brace.start())
+                elif brace.group(0) == "}" and open_braces:
+                    open_braces.pop()
+
+        def in_definition() -> bool:
+            return any(
+                DEFINITION_HEAD_PATTERN.search(content[max(0, b - 200) : b])
+                for b in open_braces
+            )
+
         def replace(match: re.Match) -> str:
+            nonlocal scanned
             code = match.group("code")
+            if code is None:
+                return match.group(0)
+            scan_braces(match.start())
+            scanned = match.end()
             if (
                 not code
                 or CODE_KEY_PATTERN.fullmatch(code)
                 # code is yet to be filled in e.g. \newenvironment{code}{\begin{verbatim}}{\end{verbatim}}
                 or re.fullmatch(r"\s*\}\s*\{\s*", code)
-                or (match.group("delim") and check_string_has_hash_number(code))
+                # or an argument of a macro
+                or (
+                    match.group("delim")
+                    and check_string_has_hash_number(code)
+                    and in_definition()
+                )
             ):
                 return match.group(0)
             self._code_blocks.append(code)
-- 
2.43.0


From da0751e533122dd3324fcb180ca9b555b23c29d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:16 +0000
Subject: [PATCH 045/102] fix: keep the labels of merged texts

---
 latex2json/structure/builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index 65ec46b..0adaeb3 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -229,6 +229,10 @@ class TokenBuilder:
                         current_text_token["content"] += (
                             " " + next_content if add_space else next_content
                         )
+                        if token.get("labels"):
+                            current_text_token["labels"] = (
+                                current_text_token.get("labels", []) + token["labels"]
+                            )
                     else:
                         concatenated_tokens.append(current_text_token)
                         current_text_token = token
-- 
2.43.0


From 2e775c45e5a406c6a291668f46a9b7e7a8c97316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:49 +0000
Subject: [PATCH 046/102] fix: tables keep spans, nested tables and text around
 makecell, and know other ways to end rows

---
 latex2json/parser/handlers/tabular.py | 87 +++++++++++++++++++++------
 1 file changed, 67 insertions(+), 20 deletions(-)

diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index f920e8e..91b3368 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -19,8 +19,27 @@ TABULAR_PATTERN = re.compile(
     re.DOTALL,
 )
 
-MULTICOLUMN_PATTERN = re.compile(r"\\multicolumn\s*{(\d+)}\s*{", re.DOTALL)
-MULTIROW_PATTERN = re.compile(r"\\multirow\s*{(\d+)}\s*{", re.DOTALL)
+END_TABULAR_PATTERN = re.compile(
+    r"\\end\s*\{(?:tabular|longtable|tabularx|tabulary)\*?\}|\\endtabular(?![a-zA-Z@])"
+)
+
+MULTICOLUMN_PATTERN = re.compile(
+    r"\\multicolumn\s*{\s*(\d+)\s*}\s*{(?:[^{}]|{(?:[^{}]|{[^{}]*})*})*}\s*{", re.DOTALL
+)
+# \multirow[vpos]{nrows}[bigstruts]{width}[vmove]{text}, where width may be a plain * or =
+MULTIROW_PATTERN = re.compile(
+    r"""\\multirow\s*(?:\[[^\]]*\]\s*)?{\s*(-?\d+)[^{}]*}\s*(?:\[[^\]]*\]\s*)?
+    (?:\*|=|{(?:[^{}]|{[^{}]*})*})\s*(?:\[[^\]]*\]\s*)?{""",
+    re.DOTALL | re.VERBOSE,
+)
+
+# other commands that end a row
+ROW_END_PATTERN = re.compile(
+    r"\\(?:tabularnewline|end(?:first|last)?(?:head|foot))(?![a-zA-Z@])"
+)
+
+# environments with a width before the column spec
+WIDTH_ENVS = ["tabular*", "tabularx", "tabulary"]
 
 
 MAKECELL_SHORTSTACK_PATTERN = re.compile(
@@ -111,12 +130,30 @@ def split_cells(row: str) -> List[str]:
     for cell in cells:
         if cell:
             match = MAKECELL_SHORTSTACK_PATTERN.search(cell)
-            if match:
-                cell, end_pos = extract_nested_content(cell[match.end() - 1 :])
+            while match:
+                inner, end_pos = extract_nested_content(cell[match.end() - 1 :])
+                if inner is None:
+                    break
+                before = cell[: match.start()]
+                after = cell[match.end() - 1 + end_pos :]
+                if before.strip() or after.strip():
+                    inner = "{" + inner + "}"
+                cell = before + inner + after
+                match = MAKECELL_SHORTSTACK_PATTERN.search(cell)
         out_cells.append(cell)
     return out_cells
 
 
+def unwrap_structure(content: str, match: re.Match) -> str:
+    """Replace a span by its text, leaving what stands around it in the cell"""
+    inner, end_pos = extract_nested_content(content[match.end() - 1 :])
+    if inner is None:
+        return ""
+    return (
+        content[: match.start()] + inner + content[match.end() - 1 + end_pos :]
+    ).strip()
+
+
 def parse_tabular(latex_table: str, cell_parser_fn=None) -> List[List[Dict]]:
     """
     Parse LaTeX table into structured format with rows and cells containing content and span information
@@ -148,21 +185,13 @@ def parse_tabular(latex_table: str, cell_parser_fn=None) -> List[List[Dict]]:
                 mcol_match = MULTICOLUMN_PATTERN.search(content)
                 if mcol_match:
                     colspan = int(mcol_match.group(1))
-                    start_pos = mcol_match.end() - 1
-                    blocks, end_pos = extract_nested_content_sequence_blocks(
-                        content[start_pos:], max_blocks=2
-                    )
-                    content = blocks[-1].strip() if blocks else ""
+                    content = unwrap_structure(content, mcol_match)
 
                 # Then handle multirow within the content
                 mrow_match = MULTIROW_PATTERN.search(content)
                 if mrow_match:
                     rowspan = int(mrow_match.group(1))
-                    start_pos = mrow_match.end() - 1
-                    blocks, end_pos = extract_nested_content_sequence_blocks(
-                        content[start_pos:], max_blocks=2
-                    )
-                    content = blocks[-1].strip() if blocks else ""
+                    content = unwrap_structure(content, mrow_match)
 
                 # Create cell structure
                 parsed_content = cell_parser_fn(content) if cell_parser_fn else content
@@ -176,7 +205,8 @@ def parse_tabular(latex_table: str, cell_parser_fn=None) -> List[List[Dict]]:
 
                 parsed_row.append(parsed_cell)
 
-            if parsed_row:
+            # e.g. a row of spacing commands
+            if len(cells) > 1 or any(parsed_row):
                 parsed_rows.append(parsed_row)
 
     # strip out start/end empty rows (incl empty cells)
@@ -200,8 +230,8 @@ def extract_table_structures(content: str) -> Tuple[str, Dict[str, Dict]]:
 
     # Define patterns and their block counts
     patterns = {
-        MULTICOLUMN_PATTERN: 2,
-        MULTIROW_PATTERN: 2,
+        MULTICOLUMN_PATTERN: 1,
+        MULTIROW_PATTERN: 1,
         MAKECELL_SHORTSTACK_PATTERN: 1,
     }
 
@@ -213,6 +243,15 @@ def extract_table_structures(content: str) -> Tuple[str, Dict[str, Dict]]:
                 break
 
             start_pos = pos + match.end() - 1
+
+            # leave those of nested tables to them
+            before = current_content[: pos + match.start()]
+            if len(TABULAR_PATTERN.findall(before)) > len(
+                END_TABULAR_PATTERN.findall(before)
+            ):
+                pos = start_pos
+                continue
+
             blocks, end_pos = extract_nested_content_sequence_blocks(
                 current_content[start_pos:], max_blocks=block_count
             )
@@ -304,7 +343,7 @@ class TabularHandler(BaseEnvironmentHandler):
             )
         else:
             start_pos, end_pos, inner_content = extract_nested_content_pattern(
-                content, r"\\tabular", r"\\endtabular"
+                content, r"\\tabular(?![a-zA-Z@])", r"\\endtabular(?![a-zA-Z@])"
             )
         if start_pos == -1:
             return None, match.end()
@@ -323,8 +362,14 @@ class TabularHandler(BaseEnvironmentHandler):
         }
 
         # Extract column spec using nested content extraction
+        has_width = env_type in WIDTH_ENVS
+        if has_width:
+            _, end_pos = extract_nested_content(inner_content)
+            inner_content = inner_content[end_pos:].lstrip()
+            _, end_pos = extract_nested_content(inner_content, "[", "]")
+            inner_content = inner_content[end_pos:]
         blocks, end_pos = extract_nested_content_sequence_blocks(
-            inner_content, max_blocks=2
+            inner_content, max_blocks=1
         )
 
         if blocks:
@@ -333,6 +378,7 @@ class TabularHandler(BaseEnvironmentHandler):
 
             # Get the table content after the column spec
             inner_content = inner_content[end_pos:]
+            inner_content = ROW_END_PATTERN.sub(r"\\\\ ", inner_content)
 
             # First extract table structures
             inner_content, table_structures = extract_table_structures(inner_content)
@@ -348,7 +394,8 @@ class TabularHandler(BaseEnvironmentHandler):
             flattened_content, reference_map = flatten_tokens(processed_content)
 
             # then set back the table structures to the original content
-            for ref_key, structure in table_structures.items():
+            # (the later ones may contain the earlier)
+            for ref_key, structure in reversed(table_structures.items()):
                 flattened_content = flattened_content.replace(
                     ref_key, structure["content"]
                 )
-- 
2.43.0


From d3da261be858c647d42eaab1c66ebca9cfa91ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:49 +0000
Subject: [PATCH 047/102] fix: read the starred line break

---
 latex2json/parser/patterns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/patterns.py b/latex2json/parser/patterns.py
index 29ad906..b14e0fe 100644
--- a/latex2json/parser/patterns.py
+++ b/latex2json/parser/patterns.py
@@ -49,7 +49,7 @@ RAW_PATTERNS = OrderedDict(
         # Line break with optional spacing specification
         (
             "break_spacing",
-            r"\\\\(?:\s*\[([^]]*)\])?",
+            r"\\\\\*?(?:\s*\[([^]]*)\])?",
         ),  # Added \s* to handle optional whitespace
         (
             "line_continuation",
-- 
2.43.0


From b52aa624943678c6126105d88cbd1e31fd17973a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:49 +0000
Subject: [PATCH 048/102] fix: keep escaped characters and spans in groups and
 boxes of table cells

---
 latex2json/parser/tex_parser.py | 35 ++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index b56e935..0128fd7 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -41,7 +41,7 @@ from latex2json.parser.patterns import (
     DELIM_PATTERN,
     PROTECT_PATTERN,
 )
-from latex2json.parser.packages import get_all_custom_handlers
+from latex2json.parser.packages import BoxHandler, get_all_custom_handlers
 
 SWALLOWED_SPACES_PATTERN = re.compile(r"[ \t]*(?:\n(?![ \t]*\n)[ \t]*)?")
 DOTLESS_END_PATTERN = re.compile(r"\\[ij]\s+$")
@@ -72,6 +72,9 @@ DEFINITION_HEAD_PATTERN = re.compile(
     re.VERBOSE,
 )
 BRACE_PATTERN = re.compile(r"\\.|[{}]", re.DOTALL)
+# characters that have to be escaped in LaTeX
+SPECIAL_CHAR_PATTERN = re.compile(r"[&%$#{}]")
+
 CODE_KEY_PATTERN = re.compile(r"L2JCODE(\d+)X")
 
 
@@ -471,24 +474,39 @@ class LatexParser:
         self.add_token(token, tokens, add_space)
 
     def _check_handlers(
-        self, content: str, tokens: List[Dict], add_space: bool = False
+        self,
+        content: str,
+        tokens: List[Dict],
+        add_space: bool = False,
+        escape_text: bool = False,
     ) -> Tuple[bool, int]:
-        """Process content through available handlers.
+        """Process content through available handlers. With escape_text, text is given
+        out as LaTeX again
 
         Returns:
             Tuple[bool, int]: (whether content was matched, new position)
         """
         for handler in self.handlers:
+            if escape_text and isinstance(handler, (TextFormattingHandler, BoxHandler)):
+                continue
             if handler.can_handle(content):
                 prev_token = tokens[-1] if tokens else None
                 token, end_pos = handler.handle(content, prev_token)
                 if token:
+                    output = [] if escape_text else tokens
                     self._process_token(
                         token,
-                        tokens,
+                        output,
                         is_env_type=isinstance(handler, BaseEnvironmentHandler),
                         add_space=add_space,
                     )
+                    if escape_text:
+                        for i, out in enumerate(output):
+                            if out["type"] == "text" and "styles" not in out:
+                                out["content"] = SPECIAL_CHAR_PATTERN.sub(
+                                    r"\\\g<0>", out["content"]
+                                )
+                            self.add_token(out, tokens, add_space and i == 0)
                 return True, end_pos
         return False, 0
 
@@ -636,6 +654,9 @@ class LatexParser:
         if preprocess:
             content = self.preprocess(content)
 
+        # whether the text is to be parsed again (e.g. by cell)
+        keep_latex = line_break_delimiter == r"\\"
+
         tokens = []
         current_pos = 0
         # where a control word that stands for a letter has swallowed spaces
@@ -676,6 +697,10 @@ class LatexParser:
             if content[current_pos] == "{":
                 # Find matching closing brace
                 inner_content, end_pos = extract_nested_content(content[current_pos:])
+                if inner_content is not None and keep_latex:
+                    self.add_token("{" + inner_content + "}", tokens, add_space)
+                    current_pos += end_pos
+                    continue
                 if inner_content is not None:
                     # Parse the content within the braces
                     nested_tokens = self.parse(inner_content)
@@ -785,7 +810,7 @@ class LatexParser:
 
             # try each handler
             matched, end_pos = self._check_handlers(
-                content[current_pos:], tokens, add_space
+                content[current_pos:], tokens, add_space, escape_text=keep_latex
             )
             if matched and DOTLESS_END_PATTERN.search(
                 content[current_pos : current_pos + end_pos]
-- 
2.43.0


From cc62efcfaebd568379883e38e49fcf8ccd4fbadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:35 +0000
Subject: [PATCH 049/102] fix: escaped braces at the end of text and in table
 cells

---
 latex2json/parser/handlers/tabular.py | 8 +++++++-
 latex2json/parser/tex_parser.py       | 3 ++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index 91b3368..7685775 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -81,7 +81,13 @@ def split_latex_content(
             # If odd number of backslashes, the delimiter is escaped
             is_escaped = (backslash_count % 2) == 1
 
-        if content[i] == "{":
+        if content[i] == "\\" and not (
+            content.startswith(delimiter, i) and nesting_level == 0
+        ):
+            # an escaped character, e.g. a brace
+            current_part.append(content[i : i + 2])
+            i += 1
+        elif content[i] == "{":
             nesting_level += 1
             current_part.append(content[i])
         elif content[i] == "}":
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 0128fd7..23caa4e 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -30,6 +30,7 @@ from latex2json.parser.handlers.environment import BaseEnvironmentHandler
 from latex2json.parser.handlers.command_manager import CommandManager
 from latex2json.utils.tex_utils import (
     check_string_has_hash_number,
+    is_escaped,
     join_tex,
     extract_nested_content,
     read_tex_file_content,
@@ -729,7 +730,7 @@ class LatexParser:
                 text = content[current_pos : current_pos + next_pos]
                 if text:
                     # skip delimited braces for next pass
-                    if text.endswith("{"):
+                    if text.endswith("{") and not is_escaped(len(text) - 1, text):
                         text = text[:-1]
                         next_pos -= 1
                     # stop at a brace group, e.g. foo{bar}
-- 
2.43.0


From 633447e3f0c1c9b3c0c15a039edeeb869692190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:57 +0000
Subject: [PATCH 050/102] fix: keep saved boxes and citation aliases to the
 parser that read them

---
 latex2json/parser/handlers/content_command.py | 6 ++++--
 latex2json/parser/packages/boxes.py           | 8 +++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index 8ab9b46..534e235 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -1,6 +1,6 @@
 import re
 from collections import OrderedDict
-from typing import Callable, Dict, Optional, Tuple
+from typing import Any, Callable, Dict, Optional, Tuple
 from latex2json.parser.handlers.base import TokenHandler
 from latex2json.utils.tex_utils import extract_nested_content
 
@@ -89,7 +89,9 @@ GENERIC_COMMAND_PATTERN = re.compile(r"\\[a-zA-Z]+\b")
 
 
 class ContentCommandHandler(TokenHandler):
-    citealias = {}  # key, alias/title
+    def __init__(self, process_content_fn: Optional[Callable[[str], Any]] = None):
+        super().__init__(process_content_fn)
+        self.citealias = {}  # key, alias/title
 
     def clear(self):
         self.citealias = {}
diff --git a/latex2json/parser/packages/boxes.py b/latex2json/parser/packages/boxes.py
index bc9361d..c112de9 100644
--- a/latex2json/parser/packages/boxes.py
+++ b/latex2json/parser/packages/boxes.py
@@ -1,4 +1,4 @@
-from typing import Dict, List, Tuple, Optional
+from typing import Any, Callable, Dict, List, Tuple, Optional
 import copy
 import re
 
@@ -67,8 +67,10 @@ def parse_varname_from_brace_or_backslash(var_name: str) -> Tuple[Optional[str],
 
 
 class BoxHandler(TokenHandler):
-    saved_boxes = {}
-    numbered_boxes = {}  # Add storage for numbered boxes
+    def __init__(self, process_content_fn: Optional[Callable[[str], Any]] = None):
+        super().__init__(process_content_fn)
+        self.saved_boxes = {}
+        self.numbered_boxes = {}  # Add storage for numbered boxes
 
     def can_handle(self, content: str) -> bool:
         return bool(
-- 
2.43.0


From 77f860481882709c4270655e702df8bd1804bfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:23 +0000
Subject: [PATCH 051/102] fix: extract no links from archives that lead out of
 the temporary directory

---
 latex2json/tex_file_extractor.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/latex2json/tex_file_extractor.py b/latex2json/tex_file_extractor.py
index d8ef713..3b0a592 100644
--- a/latex2json/tex_file_extractor.py
+++ b/latex2json/tex_file_extractor.py
@@ -131,10 +131,18 @@ class TexFileExtractor:
                                 )
                                 continue
                             safe_members.append(member)
-                        # Extract only safe members (use filter='data' in Python 3.12+ for better security)
-                        # For broader compatibility, we extract member by member after checks
+                        # Extract only safe members. Links can lead outside of the temporary
+                        # directory, as can what is then extracted through them
                         for member in safe_members:
-                            tar.extract(member, temp_dir)
+                            if hasattr(tarfile, "data_filter"):
+                                try:
+                                    tar.extract(member, temp_dir, filter="data")
+                                except tarfile.FilterError as e:
+                                    print(
+                                        f"[WARNING] Skipping potentially unsafe member in tar.gz: {e}"
+                                    )
+                            elif member.isfile() or member.isdir():
+                                tar.extract(member, temp_dir)
 
                     main_tex, main_folder_abs = TexFileExtractor.find_main_tex_file(
                         temp_dir
-- 
2.43.0


From e4d277939b7072e1ae14e1b01c166a992cbc9c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:28 +0000
Subject: [PATCH 052/102] fix: extract files with two dots in their names

---
 latex2json/tex_file_extractor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/latex2json/tex_file_extractor.py b/latex2json/tex_file_extractor.py
index 3b0a592..d18d877 100644
--- a/latex2json/tex_file_extractor.py
+++ b/latex2json/tex_file_extractor.py
@@ -1,4 +1,5 @@
 import os
+import re
 import gzip
 import tarfile
 import tempfile
@@ -91,7 +92,7 @@ class TexFileExtractor:
                         # Prevent path traversal and absolute paths
                         if (
                             os.path.isabs(member)
-                            or ".." in member
+                            or ".." in re.split(r"[/\\]", member)
                             or not os.path.abspath(member_path).startswith(
                                 os.path.abspath(temp_dir)
                             )
@@ -121,7 +122,7 @@ class TexFileExtractor:
                             # Prevent path traversal and absolute paths
                             if (
                                 os.path.isabs(member.name)
-                                or ".." in member.name
+                                or ".." in re.split(r"[/\\]", member.name)
                                 or not os.path.abspath(member_path).startswith(
                                     os.path.abspath(temp_dir)
                                 )
-- 
2.43.0


From 26fc3faf93262ac7412905db8847bbc8411e5ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:33 +0000
Subject: [PATCH 053/102] fix: remove the temporary directory when an archive
 cannot be processed

---
 latex2json/tex_file_extractor.py | 6 ++++++
 latex2json/tex_reader.py         | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/latex2json/tex_file_extractor.py b/latex2json/tex_file_extractor.py
index d18d877..9dfca3e 100644
--- a/latex2json/tex_file_extractor.py
+++ b/latex2json/tex_file_extractor.py
@@ -209,6 +209,12 @@ class TexFileExtractor:
                     f"Unsupported file type or error processing file: {compressed_path}"
                 )
 
+        except BaseException:
+            # Nobody else knows of the temporary directory yet
+            shutil.rmtree(temp_dir)
+            raise
+
+        try:
             # Yield the relative path of main_tex from temp_dir and temp_dir itself
             yield main_tex, temp_dir
 
diff --git a/latex2json/tex_reader.py b/latex2json/tex_reader.py
index cc98317..b94f14c 100644
--- a/latex2json/tex_reader.py
+++ b/latex2json/tex_reader.py
@@ -203,7 +203,12 @@ class TexReader:
                     f"Found main TeX file in archive: {main_tex}, {compressed_path}"
                 )
                 file_path = os.path.join(temp_dir, main_tex)
-                output = self.process_file(file_path)
+                try:
+                    output = self.process_file(file_path)
+                except Exception:
+                    if not cleanup:
+                        shutil.rmtree(temp_dir)
+                    raise
                 output.temp_dir = temp_dir
                 return output
         except Exception as e:
-- 
2.43.0


From a96ef737aebc3e1c7e6a33037d410e01858272ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:37 +0000
Subject: [PATCH 054/102] fix: cleanup of a result whose temporary directory is
 gone

---
 latex2json/tex_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2json/tex_reader.py b/latex2json/tex_reader.py
index b94f14c..c70a337 100644
--- a/latex2json/tex_reader.py
+++ b/latex2json/tex_reader.py
@@ -28,7 +28,8 @@ class ProcessingResult:
     def cleanup(self):
         """Clean up temporary resources."""
         if self.temp_dir:
-            shutil.rmtree(self.temp_dir)
+            if os.path.exists(self.temp_dir):
+                shutil.rmtree(self.temp_dir)
             self.temp_dir = None
 
 
-- 
2.43.0


From 5e8aded30ff4174ec93cf14bb48e07bcde7c77d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:41 +0000
Subject: [PATCH 055/102] fix: choose the main file regardless of the order of
 directory entries

---
 latex2json/tex_file_extractor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/latex2json/tex_file_extractor.py b/latex2json/tex_file_extractor.py
index 9dfca3e..80e5b1a 100644
--- a/latex2json/tex_file_extractor.py
+++ b/latex2json/tex_file_extractor.py
@@ -46,8 +46,10 @@ class TexFileExtractor:
         Raises:
             FileNotFoundError: If no main TeX file is found
         """
-        for root, _, files in os.walk(folder_path):
-            for file in files:
+        for root, dirs, files in os.walk(folder_path):
+            # not in the order the file system happens to list them
+            dirs.sort()
+            for file in sorted(files):
                 if file.endswith(".tex"):
                     full_path = os.path.join(root, file)
                     try:
-- 
2.43.0


From da230d8052992690329dca7102b16cade1688c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:51 +0000
Subject: [PATCH 056/102] fix: keep the text of files that are not encoded in
 utf-8

---
 latex2json/utils/encoding.py | 38 +++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/latex2json/utils/encoding.py b/latex2json/utils/encoding.py
index 045f973..7f28a74 100644
--- a/latex2json/utils/encoding.py
+++ b/latex2json/utils/encoding.py
@@ -1,5 +1,6 @@
+import codecs
+
 import chardet
-from chardet.universaldetector import UniversalDetector
 
 
 def detect_encoding(path: str) -> str:
@@ -10,24 +11,33 @@ def detect_encoding(path: str) -> str:
         path (str): Path to the file
 
     Returns:
-        str: Detected encoding, defaults to 'utf-8' if detection fails
+        str: Detected encoding, defaults to 'cp1252' if detection fails
     """
 
     # Read the file in binary mode
     with open(path, "rb") as file:
-        # Read a sample of the file for faster detection
-        # For larger files, reading the first few KB is usually sufficient
-        raw_data = file.read(10000)  # Read first 10KB
+        raw_data = file.read()
         if len(raw_data) == 0:  # Empty file
             return "utf-8"
 
+    # what is valid as utf-8 (but for a few stray bytes) hardly is anything else
+    if raw_data.startswith(codecs.BOM_UTF8):
+        return "utf-8-sig"
+    try:
+        raw_data.decode("utf-8")
+        return "utf-8"
+    except UnicodeDecodeError:
+        text = raw_data.decode("utf-8", errors="replace")
+        if sum(c > "\x7f" for c in text) > 2 * text.count("\ufffd"):
+            return "utf-8"
+
     # Detect encoding
     result = chardet.detect(raw_data)
     encoding = result.get("encoding", "utf-8")
 
     # Handle None or very low confidence results
     if encoding is None or result.get("confidence", 0) < 0.5:
-        encoding = "utf-8"  # Default to utf-8 if unsure
+        encoding = "cp1252"  # it is not utf-8, and most likely western
 
     # Some common encoding mappings/normalizations
     encoding_map = {
@@ -52,17 +62,13 @@ def read_file(path):
     encoding = detect_encoding(path)
 
     try:
-        with open(path, "r", encoding=encoding) as f:
+        errors = "replace" if encoding.startswith("utf-8") else "strict"
+        with open(path, "r", encoding=encoding, errors=errors) as f:
+            return f.read()
+    except (UnicodeDecodeError, LookupError):
+        # Last resort: latin-1 can read any byte sequence
+        with open(path, "r", encoding="latin-1") as f:
             return f.read()
-    except UnicodeDecodeError:
-        # First fallback: try utf-8 with error handling
-        try:
-            with open(path, "r", encoding="utf-8", errors="replace") as f:
-                return f.read()
-        except UnicodeDecodeError:
-            # Last resort: latin-1 can read any byte sequence
-            with open(path, "r", encoding="latin-1") as f:
-                return f.read()
 
 
 # Usage
-- 
2.43.0


From 235ea36f1f152d8d163bd1f77e7bf3f0af2c1e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:51 +0000
Subject: [PATCH 057/102] fix: read bibliography files in their own encoding

---
 latex2json/parser/bib/bib_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/bib/bib_parser.py b/latex2json/parser/bib/bib_parser.py
index e8c7323..cf83b65 100644
--- a/latex2json/parser/bib/bib_parser.py
+++ b/latex2json/parser/bib/bib_parser.py
@@ -9,6 +9,7 @@ from latex2json.parser.bib.bibtex_parser import (
 )
 from latex2json.parser.bib.bibdiv_parser import BibDivParser
 from latex2json.parser.bib.bibitem_parser import BibItemParser
+from latex2json.utils.encoding import read_file
 from latex2json.utils.tex_utils import (
     strip_latex_comments,
     normalize_whitespace_and_lines,
@@ -67,8 +68,7 @@ class BibParser:
         #     self.logger.warning(f"BibParser: Already parsed {file_path}")
         #     return None
         # self._parsed_files.add(file_path)
-        with open(file_path, "r") as f:
-            return f.read()
+        return read_file(file_path)
 
     def parse_file(self, file_path: str) -> List[BibTexEntry]:
         """Parse a bibliography file and return list of entries.
-- 
2.43.0


From 93142510348b22596b3dffecf2ae47d1d5d2df8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:52 +0000
Subject: [PATCH 058/102] fix: put input files in place, once, before macros
 are expanded

---
 latex2json/parser/tex_parser.py       | 43 +++++++++++++-
 latex2json/parser/tex_preprocessor.py | 80 ++++++++++++++++++++++++++-
 latex2json/utils/tex_utils.py         | 25 +++++++--
 3 files changed, 138 insertions(+), 10 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 23caa4e..cafb0b7 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -1,6 +1,6 @@
 from collections import OrderedDict
 import re
-from typing import List, Dict, Tuple, Union
+from typing import List, Dict, Optional, Tuple, Union
 import sys, os, traceback
 import logging
 
@@ -33,6 +33,7 @@ from latex2json.utils.tex_utils import (
     is_escaped,
     join_tex,
     extract_nested_content,
+    find_tex_file,
     read_tex_file_content,
     strip_latex_comments,
 )
@@ -93,6 +94,9 @@ class LatexParser:
         self.current_file_dir = None
         self.current_str = ""
 
+        # paths of the files being parsed, the innermost last
+        self._open_files = []
+
         # code, which is kept out of the content while that is processed
         self._code_blocks = []
         self._depth = 0
@@ -166,6 +170,7 @@ class LatexParser:
         self.colors = {}
         self.current_str = ""
         self._code_blocks = []
+        self._open_files = []
         self.current_file_dir = None
         self.current_env = None
 
@@ -897,7 +902,7 @@ class LatexParser:
     def preprocess(self, content: str) -> str:
         # Preprocess content before parsing
         content, definition_tokens = self.preprocessor.preprocess(
-            content, self.current_file_dir
+            content, self.current_file_dir, self._read_input_file, self._open_files
         )
 
         # Process any definition tokens
@@ -906,6 +911,29 @@ class LatexParser:
 
         return content
 
+    def _read_input_file(
+        self, name: str, open_files: List[str]
+    ) -> Optional[Tuple[str, str]]:
+        """Path and content of a file to put in place of an \\input
+
+        Args:
+            name: file name, as given in the command
+            open_files: paths of the files that are being read at that point
+        """
+        path = os.path.join(self.current_file_dir or "", name)
+        if not should_preprocess_file(path):
+            return None
+        try:
+            path = os.path.abspath(find_tex_file(path))
+            if path in open_files:
+                self.logger.warning(f"Circular input of file: {path}")
+                return path, ""
+            content = strip_latex_comments(read_tex_file_content(path))
+        except Exception as e:
+            self.logger.error(f"Failed to read file: {path}, error: {str(e)}")
+            return None
+        return path, self._extract_code(content)
+
     def parse_file(
         self, file_path: str, extension: str = ".tex"
     ) -> List[Dict[str, str]]:
@@ -927,13 +955,22 @@ class LatexParser:
                 self.current_file_dir = os.path.dirname(file_abspath)
 
             try:
+                file_abspath = os.path.abspath(find_tex_file(file_path, extension))
                 content = read_tex_file_content(file_path, extension=extension)
             except FileNotFoundError:
                 self.logger.error(f"File not found: {file_path}", exc_info=True)
                 return []
 
+            if file_abspath in self._open_files:
+                self.logger.warning(f"Circular input of file: {file_path}")
+                return []
+
             preprocess = should_preprocess_file(file_path)
-            out = self.parse(content, preprocess=preprocess)
+            self._open_files.append(file_abspath)
+            try:
+                out = self.parse(content, preprocess=preprocess)
+            finally:
+                self._open_files.pop()
             self.logger.info(f"Finished parsing file: {file_path}")
             return out
         except Exception as e:
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 8581046..9331b55 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -46,6 +46,8 @@ ALL_VERBATIM_PATTERNS.append(
     )
 )
 
+INPUT_PATTERN = re.compile(r"\\(?:input|include)\s*\{([^{}]*)\}")
+
 DELIM_PATTERN_WITH_QUOTES = re.compile(DELIM_PATTERN.pattern + r"|`")
 
 QUOTE_PATTERNS = {
@@ -84,9 +86,16 @@ class LatexPreprocessor:
         self.command_manager.clear()
         self.sty_parser.clear()
 
-    def preprocess(self, content: str, file_dir=None) -> tuple[str, list[Dict]]:
+    def preprocess(
+        self, content: str, file_dir=None, read_input=None, open_files=()
+    ) -> tuple[str, list[Dict]]:
         """Main preprocessing pipeline
 
+        Args:
+            read_input: returns the path and the content of an input file, given its
+                name and the files being read at that point (None to leave it alone)
+            open_files: paths of the files the content is from
+
         Returns:
             tuple: (processed_content, list of definition tokens)
         """
@@ -99,7 +108,9 @@ class LatexPreprocessor:
             content = content[end_pos:]
 
         # 3. Process all definitions and expand commands
-        content, tokens = self._process_definitions_and_expand(content, file_dir)
+        content, tokens = self._process_definitions_and_expand(
+            content, file_dir, read_input, open_files
+        )
         out_tokens.extend(tokens)
 
         # 4. After all expansions, normalize whitespace and lines
@@ -182,8 +193,39 @@ class LatexPreprocessor:
                     self._process_new_definition_token(token)
         return tokens
 
+    def _splice_input(
+        self,
+        content: str,
+        match: re.Match,
+        file_dir: str,
+        read_input,
+        open_files: list[str],
+        spans: list[tuple[str, int]],
+        tokens: list[Dict],
+    ) -> str | None:
+        """Put the content of an input file in place of the command
+
+        Args:
+            spans: the files put in place so far, as (path, length of what follows it)
+
+        Returns:
+            The new content, or None to leave it as it is
+        """
+        to_come = len(content) - match.start()
+        nested_in = [path for path, rest in spans if to_come > rest]
+        found = read_input(match.group(1).strip(), [*open_files, *nested_in])
+        if found is None:
+            return None
+        path, text = found
+        end_pos, cls_tokens = self._check_documentclass(text, file_dir)
+        tokens.extend(cls_tokens)
+        following = content[match.end() :]
+        spans.append((path, len(following)))
+        # the end of a file is the end of a line
+        return content[: match.start()] + text[end_pos:] + "\n" + following
+
     def _process_definitions_and_expand(
-        self, content: str, file_dir: str = None
+        self, content: str, file_dir: str = None, read_input=None, open_files=()
     ) -> tuple[str, list[Dict]]:
         """Handle all definitions and command expansions
 
@@ -201,6 +243,9 @@ class LatexPreprocessor:
         # is yet to be expanded by the parser under an earlier meaning
         in_order = False
 
+        # input files put in place
+        spans = []
+
         while current_pos < len(content):
             # find the next delimiter (this block allows us to quickly identify and process chunks of text between special LaTeX delimiters
             # without it, we would have to parse the entire content string character by character. which would be slower.)
@@ -217,6 +262,16 @@ class LatexPreprocessor:
                     break
                 continue
 
+            # put input files in place
+            match = read_input and INPUT_PATTERN.match(content, current_pos)
+            if match:
+                spliced = self._splice_input(
+                    content, match, file_dir, read_input, open_files, spans, tokens
+                )
+                if spliced is not None:
+                    content = spliced
+                    continue
+
             # Process addto by simply treating the content inside as {...}
             match = ADD_TO_PATTERN.match(content[current_pos:])
             if match:
@@ -229,6 +284,25 @@ class LatexPreprocessor:
             if self.equation_handler.can_handle(content[current_pos:]):
                 token, end_pos = self.equation_handler.handle(content[current_pos:])
                 if end_pos > 0:
+                    match = read_input and INPUT_PATTERN.search(
+                        content, current_pos, current_pos + end_pos
+                    )
+                    if match:
+                        spliced = self._splice_input(
+                            content,
+                            match,
+                            file_dir,
+                            read_input,
+                            open_files,
+                            spans,
+                            tokens,
+                        )
+                        content = (
+                            content[: match.start()] + content[match.end() :]
+                            if spliced is None
+                            else spliced
+                        )
+                        continue
                     # store the math block as placeholder to restore later
                     placeholder = f"__MATH_BLOCK_{len(math_blocks)}__"
                     math_blocks[placeholder] = content[
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 2a83976..2c7a66b 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -254,16 +254,16 @@ def substitute_patterns(
     return text
 
 
-def read_tex_file_content(file_path: str, extension: str = ".tex") -> str:
+def find_tex_file(file_path: str, extension: str = ".tex") -> str:
     """
-    Attempts to read content from an input file.
+    Find an input file, whose extension may be left out.
 
     Args:
         file_path: Path to the input file
         extension: Default file extension to try (e.g., ".tex")
 
     Returns:
-        str: Content of the file
+        str: Path of the file
 
     Raises:
         FileNotFoundError: If file doesn't exist or is a directory
@@ -280,11 +280,28 @@ def read_tex_file_content(file_path: str, extension: str = ".tex") -> str:
         if os.path.exists(path):
             if os.path.isdir(path):
                 continue
-            return read_file(path)
+            return path
 
     raise FileNotFoundError(f"Failed to read input file '{file_path}'")
 
 
+def read_tex_file_content(file_path: str, extension: str = ".tex") -> str:
+    """
+    Attempts to read content from an input file.
+
+    Args:
+        file_path: Path to the input file
+        extension: Default file extension to try (e.g., ".tex")
+
+    Returns:
+        str: Content of the file
+
+    Raises:
+        FileNotFoundError: If file doesn't exist or is a directory
+    """
+    return read_file(find_tex_file(file_path, extension))
+
+
 def has_comment_on_sameline(content: str, pos: int) -> bool:
     """Check if there's an uncommented % before pos on the current line"""
     # Find start of current line
-- 
2.43.0


From fcd0206dcfc23367653973565a523b81b872edbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:52 +0000
Subject: [PATCH 059/102] fix: leave out what follows an endinput line

---
 latex2json/parser/tex_preprocessor.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 9331b55..91c1357 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -60,6 +60,21 @@ QUOTE_PATTERNS = {
 }
 
 
+ENDINPUT_PATTERN = re.compile(r"^[ \t]*\\endinput[ \t]*$", re.MULTILINE)
+
+
+def strip_after_endinput(content: str) -> str:
+    """Leave out what follows an \\endinput, unless that is within a conditional"""
+    match = ENDINPUT_PATTERN.search(content)
+    if match:
+        rest = content[match.end() :]
+        if len(re.findall(r"\\fi(?![a-zA-Z])", rest)) <= len(
+            re.findall(r"\\if[a-zA-Z@]*", rest)
+        ):
+            return content[: match.start()]
+    return content
+
+
 def restore_placeholder_blocks(content: str, blocks: dict) -> str:
     """
     Restores the blocks in the content by replacing placeholders with the original blocks.
@@ -102,6 +117,8 @@ class LatexPreprocessor:
         # 1. Strip comments
         content = strip_latex_comments(content)
 
+        content = strip_after_endinput(content)
+
         # 2. Check for documentclass (only once at the start)
         end_pos, out_tokens = self._check_documentclass(content, file_dir)
         if end_pos > 0:
@@ -217,6 +234,7 @@ class LatexPreprocessor:
         if found is None:
             return None
         path, text = found
+        text = strip_after_endinput(text)
         end_pos, cls_tokens = self._check_documentclass(text, file_dir)
         tokens.extend(cls_tokens)
         following = content[match.end() :]
-- 
2.43.0


From e9526f77ac94793815252fdf678fd04393b22ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:18 +0000
Subject: [PATCH 060/102] fix: a file can be put in place again after what
 follows has grown

---
 latex2json/parser/tex_preprocessor.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 91c1357..94daf4e 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -210,6 +210,12 @@ class LatexPreprocessor:
                     self._process_new_definition_token(token)
         return tokens
 
+    @staticmethod
+    def _leave_inputs(spans: list[tuple[str, int]], to_come: int) -> None:
+        """Drop the files whose end has been reached"""
+        while spans and to_come <= spans[-1][1]:
+            spans.pop()
+
     def _splice_input(
         self,
         content: str,
@@ -223,13 +229,13 @@ class LatexPreprocessor:
         """Put the content of an input file in place of the command
 
         Args:
-            spans: the files put in place so far, as (path, length of what follows it)
+            spans: the files being read, as (path, length of what follows it)
 
         Returns:
             The new content, or None to leave it as it is
         """
-        to_come = len(content) - match.start()
-        nested_in = [path for path, rest in spans if to_come > rest]
+        self._leave_inputs(spans, len(content) - match.start())
+        nested_in = [path for path, _ in spans]
         found = read_input(match.group(1).strip(), [*open_files, *nested_in])
         if found is None:
             return None
@@ -261,10 +267,12 @@ class LatexPreprocessor:
         # is yet to be expanded by the parser under an earlier meaning
         in_order = False
 
-        # input files put in place
+        # input files being read
         spans = []
 
         while current_pos < len(content):
+            self._leave_inputs(spans, len(content) - current_pos)
+
             # find the next delimiter (this block allows us to quickly identify and process chunks of text between special LaTeX delimiters
             # without it, we would have to parse the entire content string character by character. which would be slower.)
             # if next delimiter exists, we need to store the text before the next delimiter (or all remaining text if no delimiter)
-- 
2.43.0


From e8507a56948b144b92f3b842076d44c5e859c6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:38 +0000
Subject: [PATCH 061/102] fix: leave out comment environments before anything
 in them takes effect

---
 latex2json/parser/tex_parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index cafb0b7..cb4a351 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -59,6 +59,7 @@ CODE_PATTERN = re.compile(
     )
     (?P<code>(?(env).*?|[^\n]*?))
     (?P<end>(?(env)\\end\s*\{(?P=env)\}|(?P=delim)))
+    |(?P<comment>\\begin\s*\{comment\}.*?\\end\s*\{comment\})
     |\\.
     """,
     re.DOTALL | re.VERBOSE,
@@ -590,7 +591,8 @@ class LatexParser:
         return tokens
 
     def _extract_code(self, content: str) -> str:
-        """Replace code by keys, so that nothing in it is taken for LaTeX"""
+        """Replace code by keys, so that nothing in it is taken for LaTeX, and leave
+        out comment environments"""
 
         open_braces = []
         scanned = 0
@@ -611,10 +613,12 @@ class LatexParser:
         def replace(match: re.Match) -> str:
             nonlocal scanned
             code = match.group("code")
-            if code is None:
+            if code is None and not match.group("comment"):
                 return match.group(0)
             scan_braces(match.start())
             scanned = match.end()
+            if code is None:
+                return match.group(0) if in_definition() else ""
             if (
                 not code
                 or CODE_KEY_PATTERN.fullmatch(code)
-- 
2.43.0


From 78a043d3d4b95021c7c96df0c58f48ecb0b44b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:10 +0000
Subject: [PATCH 062/102] fix: percent signs and code in comment environments

---
 latex2json/parser/tex_parser.py | 2 +-
 latex2json/utils/tex_utils.py   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index cb4a351..6a1748f 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -59,7 +59,7 @@ CODE_PATTERN = re.compile(
     )
     (?P<code>(?(env).*?|[^\n]*?))
     (?P<end>(?(env)\\end\s*\{(?P=env)\}|(?P=delim)))
-    |(?P<comment>\\begin\s*\{comment\}.*?\\end\s*\{comment\})
+    |(?P<comment>\\begin\s*\{comment\}(?:[ \t]*\n(?:.*?\n)??[ \t]*|.*?)\\end\s*\{comment\})
     |\\.
     """,
     re.DOTALL | re.VERBOSE,
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 2c7a66b..6b6106d 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -340,12 +340,13 @@ def is_escaped(pos: int, text: str) -> bool:
 
 
 # what a percent sign has to be told apart from: code and URLs, where it is an
-# ordinary character, and escaped characters
+# ordinary character, comment environments, and escaped characters
 COMMENT_SCAN_PATTERN = re.compile(
     r"""
     (?P<code>
         \\begin\s*\{(?P<env>verbatim|lstlisting)\}.*?\\end\s*\{(?P=env)\}
         |\\verb\*?(?P<delim>[^a-zA-Z\s])[^\n]*?(?P=delim)
+        |\\begin\s*\{comment\}[ \t]*\n(?:.*?\n)??[ \t]*\\end\s*\{comment\}
     )
     |(?P<url>\\(?:url|path|href|nolinkurl)\s*\{)
     |\\.
-- 
2.43.0


From 754d36067e4cb6a1af8ede116d3a7b7570780283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:03 +0000
Subject: [PATCH 063/102] fix: BibTeX entries are scanned as BibTeX reads them
 (bare values, #, @string, quotes, parentheses, unclosed entries)

---
 latex2json/parser/bib/bibtex_parser.py | 206 +++++++++++++++++--------
 1 file changed, 143 insertions(+), 63 deletions(-)

diff --git a/latex2json/parser/bib/bibtex_parser.py b/latex2json/parser/bib/bibtex_parser.py
index 40e896f..85c2c97 100644
--- a/latex2json/parser/bib/bibtex_parser.py
+++ b/latex2json/parser/bib/bibtex_parser.py
@@ -3,9 +3,9 @@ from enum import Enum
 from logging import Logger
 import logging
 import re
-from typing import Dict, List, Optional
+from typing import Dict, Iterator, List, Optional, Tuple
 from latex2json.utils.tex_utils import (
-    extract_nested_content,
+    normalize_whitespace_and_lines,
 )
 from latex2json.parser.bib.compiled_bibtex import (
     is_compiled_bibtex,
@@ -43,8 +43,146 @@ class BibTexEntry:
         )
 
 
-BibTexPattern = re.compile(r"@(\w+)\s*\{")
-BibTexFieldPattern = re.compile(r"(\w+)\s*=\s*")
+# @type{ or @type( ; an @ that is part of a word or of a control word starts no entry
+BibTexPattern = re.compile(r"(?<![\w\\@])@\s*(\w+)\s*([{(])")
+BibTexLinePattern = re.compile(r"^[ \t]*@\s*\w+\s*[{(]", re.MULTILINE)
+BibTexCommentPattern = re.compile(r"%[^\n]*")
+BibTexSkipPattern = re.compile(r"(?:[\s,]|%[^\n]*)+")
+BibTexNamePattern = re.compile(r"[^\s\"#%'(),={}@]+")
+BibTexEqualsPattern = re.compile(r"\s*=")
+BibTexKeyPattern = re.compile(r"[^\s,{}]*(?:[ \t]+[^\s,{}=%\"]+)*")
+BibTexSpacePattern = re.compile(r"(?:\s|%[^\n]*)*")
+
+
+class BibTexSyntaxError(ValueError):
+    """The entry is not complete"""
+
+
+class BibTexScanner:
+    """Reads the entries of a BibTeX database one by one"""
+
+    def __init__(self, text: str):
+        self.text = text
+        self.strings: Dict[str, str] = {}
+
+    def __iter__(self) -> Iterator[Tuple[str, str, Dict[str, str]]]:
+        text = self.text
+        pos = 0
+        while True:
+            match = BibTexPattern.search(text, pos)
+            if not match:
+                return
+            line_comment = self._comment_before(match.start(), pos)
+            if line_comment:
+                pos = line_comment
+                continue
+            entry_type = match.group(1).lower()
+            close = "}" if match.group(2) == "{" else ")"
+            citation_key = None
+            fields: Dict[str, str] = {}
+            try:
+                pos = match.end()
+                if entry_type in ["comment", "preamble"]:
+                    pos = self._skip_group(pos, close)
+                    continue
+                if entry_type != "string":
+                    citation_key, pos = self._read_key(pos, close)
+                pos = self._read_fields(pos, close, fields)
+            except BibTexSyntaxError:
+                # what is never closed must not cost the entries that follow
+                next_entry = BibTexLinePattern.search(text, match.end())
+                pos = next_entry.start() if next_entry else len(text)
+
+            if entry_type == "string":
+                self.strings.update(fields)
+            elif citation_key or fields:
+                yield entry_type, citation_key, fields
+
+    def _comment_before(self, pos: int, start: int) -> int:
+        """If pos is in a comment, return the end of that comment (else 0)"""
+        line_start = max(self.text.rfind("\n", 0, pos) + 1, start)
+        match = BibTexCommentPattern.search(self.text, line_start)
+        return match.end() if match and match.start() < pos else 0
+
+    def _read_key(self, pos: int, close: str) -> Tuple[str, int]:
+        pos = self._skip(pos, BibTexSpacePattern)
+        citation_key = BibTexKeyPattern.match(self.text, pos).group(0)
+        if close == ")":
+            citation_key = citation_key.rstrip(")")
+        pos = self._skip(pos + len(citation_key), BibTexSpacePattern)
+        if self.text[pos : pos + 1] not in [",", close]:
+            raise BibTexSyntaxError("no comma after the citation key")
+        return citation_key.strip(), pos
+
+    def _read_fields(self, pos: int, close: str, fields: Dict[str, str]) -> int:
+        text = self.text
+        while True:
+            pos = self._skip(pos, BibTexSkipPattern)
+            char = text[pos : pos + 1]
+            if char == close:
+                return pos + 1
+            if char in ["", "@", "}"]:
+                raise BibTexSyntaxError("the entry is not closed")
+            name_match = BibTexNamePattern.match(text, pos)
+            if not name_match:
+                pos = self._skip_group(pos + 1, "}") if char == "{" else pos + 1
+                continue
+            equals_match = BibTexEqualsPattern.match(text, name_match.end())
+            if not equals_match:
+                pos = name_match.end()
+                continue
+            value, pos = self._read_value(equals_match.end())
+            # the first field of a name counts
+            fields.setdefault(name_match.group(0).lower(), value)
+
+    def _read_value(self, pos: int) -> Tuple[str, int]:
+        """Read {..}, "..", numbers and @string names, which # puts together"""
+        text = self.text
+        parts = []
+        while True:
+            pos = self._skip(pos, BibTexSpacePattern)
+            char = text[pos : pos + 1]
+            if char == "{":
+                end_pos = self._skip_group(pos + 1, "}")
+                parts.append(text[pos + 1 : end_pos - 1])
+            elif char == '"':
+                end_pos = self._skip_group(pos + 1, '"')
+                parts.append(text[pos + 1 : end_pos - 1])
+            else:
+                name_match = BibTexNamePattern.match(text, pos)
+                if not name_match:
+                    break
+                end_pos = name_match.end()
+                name = name_match.group(0)
+                parts.append(self.strings.get(name.lower(), name))
+            pos = self._skip(end_pos, BibTexSpacePattern)
+            if text[pos : pos + 1] != "#":
+                break
+            pos += 1
+        return normalize_whitespace_and_lines("".join(parts)), pos
+
+    def _skip_group(self, pos: int, close: str) -> int:
+        """Return the position after the closing delimiter; braces nest"""
+        text = self.text
+        depth = 0
+        while pos < len(text):
+            char = text[pos]
+            if char == "\\" and text[pos + 1 : pos + 2] in list("\\{}\""):
+                pos += 1
+            elif char == close and depth == 0:
+                return pos + 1
+            elif char == "{":
+                depth += 1
+            elif char == "}":
+                depth -= 1
+                if depth < 0:
+                    break
+            pos += 1
+        raise BibTexSyntaxError("no closing delimiter")
+
+    def _skip(self, pos: int, pattern: re.Pattern) -> int:
+        match = pattern.match(self.text, pos)
+        return match.end() if match else pos
 
 
 class BibTexParser:
@@ -96,65 +234,7 @@ class BibTexParser:
             content = "\n".join(bibtex_entries)
 
         entries = []
-        pos = 0
-
-        # Find each entry starting with @
-        for match in re.finditer(BibTexPattern, content):
-            entry_type = match.group(1).lower()
-            start_pos = match.end() - 1  # Position of the opening brace
-
-            # Get everything inside the braces
-            entry_content, next_pos = extract_nested_content(content[start_pos:])
-            if entry_content is None:
-                continue
-
-            # Split into citation key and fields
-            key_end = entry_content.find(",")
-            if key_end == -1:
-                continue
-
-            citation_key = entry_content[:key_end].strip()
-            fields_text = entry_content[key_end + 1 :].strip()
-
-            # Parse fields
-            fields = {}
-            pos = 0
-
-            while pos < len(fields_text):
-                field_match = re.search(BibTexFieldPattern, fields_text[pos:])
-                if not field_match:
-                    break
-
-                field_name = field_match.group(1).lower()
-                field_start = pos + field_match.end()
-
-                # Get value - either in braces or quotes
-                if fields_text[field_start:].lstrip().startswith("{"):
-                    # Skip whitespace to actual brace
-                    while (
-                        field_start < len(fields_text)
-                        and fields_text[field_start].isspace()
-                    ):
-                        field_start += 1
-                    value, value_end = extract_nested_content(fields_text[field_start:])
-                    if value is not None:
-                        fields[field_name] = value.strip()
-                        pos = field_start + value_end
-                else:
-                    # Handle quoted values
-                    quote_match = re.match(r'\s*"([^"]*)"', fields_text[field_start:])
-                    if quote_match:
-                        fields[field_name] = quote_match.group(1)
-                        pos = field_start + quote_match.end()
-                    else:
-                        pos = field_start + 1
-
-                # Skip trailing comma and whitespace
-                while pos < len(fields_text) and (
-                    fields_text[pos].isspace() or fields_text[pos] == ","
-                ):
-                    pos += 1
-
+        for entry_type, citation_key, fields in BibTexScanner(content):
             entry = BibTexEntry.from_bibtex(
                 entry_type=entry_type, citation_key=citation_key, fields=fields
             )
-- 
2.43.0


From 74f9cf7b98b6bb27586a68bc1422a2f93d7c0f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:03 +0000
Subject: [PATCH 064/102] fix: a bibitem list with @ in it is no BibTeX
 database, and % in a database starts no TeX comment

---
 latex2json/parser/bib/bib_parser.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/bib/bib_parser.py b/latex2json/parser/bib/bib_parser.py
index cf83b65..10e9b0a 100644
--- a/latex2json/parser/bib/bib_parser.py
+++ b/latex2json/parser/bib/bib_parser.py
@@ -1,14 +1,17 @@
 from logging import Logger
 import logging
 import os
+import re
 from typing import List
 
 from latex2json.parser.bib.bibtex_parser import (
     BibTexEntry,
     BibTexParser,
+    BibTexPattern,
 )
 from latex2json.parser.bib.bibdiv_parser import BibDivParser
 from latex2json.parser.bib.bibitem_parser import BibItemParser
+from latex2json.parser.bib.compiled_bibtex import is_compiled_bibtex
 from latex2json.utils.encoding import read_file
 from latex2json.utils.tex_utils import (
     strip_latex_comments,
@@ -23,6 +26,15 @@ def preprocess(content: str) -> str:
     return content.strip()
 
 
+def starts_with_bibitems(content: str) -> bool:
+    """Check if a bibitem list begins before any BibTeX entry"""
+    bibitem = re.search(r"\\begin\s*{\w*bibliography}|\\bibitem(?![a-zA-Z])", content)
+    if not bibitem:
+        return False
+    bibtex = BibTexPattern.search(content)
+    return not bibtex or bibitem.start() < bibtex.start()
+
+
 class BibParser:
 
     # _parsed_files = set()
@@ -42,6 +54,7 @@ class BibParser:
     def parse(self, content: str) -> List[BibTexEntry]:
         """Parse both BibTeX, bibitem, and bibdiv entries from the content"""
 
+        database = content
         content = preprocess(content)
 
         entries = []
@@ -51,7 +64,12 @@ class BibParser:
             self.logger.debug("Parsing bibdiv environment content")
             entries.extend(self.bibdiv_parser.parse(content))
         # Use the can_handle method for BibTeX
-        elif self.bibtex_parser.can_handle(content):
+        elif self.bibtex_parser.can_handle(content) and not starts_with_bibitems(
+            content
+        ):
+            # in a BibTeX database, unlike in a compiled one, % can be part of a value
+            if not is_compiled_bibtex(content):
+                content = database
             entries.extend(self.bibtex_parser.parse(content))
         # Use the can_handle method for BibItem (now includes bibliography environment check)
         elif self.bibitem_parser.can_handle(content):
-- 
2.43.0


From a583055a2424ccb5b782c52b3c606a3b0f7f9597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:35 +0000
Subject: [PATCH 065/102] fix: bibitem labels nest, \bibitemdeclare is no
 \bibitem, every bibliography environment of a file is read

---
 latex2json/parser/bib/bibitem_parser.py | 46 ++++++++++++++++++-------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/latex2json/parser/bib/bibitem_parser.py b/latex2json/parser/bib/bibitem_parser.py
index 8beaff1..13d0c6c 100644
--- a/latex2json/parser/bib/bibitem_parser.py
+++ b/latex2json/parser/bib/bibitem_parser.py
@@ -1,14 +1,12 @@
 import re
-from typing import List
+from typing import List, Tuple
 import logging
 from latex2json.parser.bib.bibtex_parser import BibTexEntry
+from latex2json.utils.tex_utils import extract_nested_content, is_escaped
 
 
 class BibItemParser:
-    BibItemPattern = re.compile(
-        r"\\bibitem\s*(?:\[(.*?)\])?\s*\{(.*?)\}\s*([\s\S]*?)(?=\\bibitem|$)",
-        re.DOTALL,
-    )
+    BibItemPattern = re.compile(r"\\bibitem(?![a-zA-Z])")
     NewblockPattern = re.compile(r"\\newblock\b")
 
     def __init__(self, logger: logging.Logger = None):
@@ -21,20 +19,42 @@ class BibItemParser:
         # Check for standalone bibitems (existing logic)
         return bool(re.search(r"\\bibitem", content))
 
+    def _extract_label(self, text: str) -> Tuple[str | None, int]:
+        """Extract [label], in which braces and brackets nest"""
+        start = len(text) - len(text.lstrip())
+        if text[start : start + 1] != "[":
+            return None, 0
+        braces = brackets = 0
+        for i in range(start, len(text)):
+            if text[i] not in "{}[]" or is_escaped(i, text):
+                continue
+            if text[i] in "{}":
+                braces += 1 if text[i] == "{" else -1
+            elif braces == 0:
+                brackets += 1 if text[i] == "[" else -1
+                if brackets == 0:
+                    return text[start + 1 : i], i + 1
+        return None, 0
+
     def parse(self, content: str) -> List[BibTexEntry]:
-        # If content is in bibliography environment, extract the content
-        bib_match = re.search(
+        # If content is in bibliography environments, extract the content
+        bib_matches = re.findall(
             r"\\begin{(\w*bibliography)}(.*?)\\end{\1}", content, re.DOTALL
         )
-        if bib_match:
-            content = bib_match.group(2)
+        if bib_matches:
+            content = "\n".join(bib_content for _, bib_content in bib_matches)
 
         entries = []
         previous_content = None
         bysame_pattern = re.compile(r"\\bysame\b")
 
-        for match in self.BibItemPattern.finditer(content):
-            item = match.group(3).strip()
+        # what comes before the first \bibitem is no item
+        for bibitem in self.BibItemPattern.split(content)[1:]:
+            label, label_end = self._extract_label(bibitem)
+            citation_key, key_end = extract_nested_content(bibitem[label_end:])
+            if citation_key is None:
+                continue
+            item = bibitem[label_end + key_end :].strip()
             if item:
                 # remove newblock
                 item = self.NewblockPattern.sub("", item)
@@ -47,9 +67,9 @@ class BibItemParser:
                         item = bysame_pattern.sub(author_part, item)
 
                 entry = BibTexEntry(
-                    citation_key=match.group(2).strip(),
+                    citation_key=citation_key.strip(),
                     content=item,
-                    label=match.group(1).strip() if match.group(1) else None,
+                    label=label.strip() if label else None,
                     entry_type="bibitem",
                     format="bibitem",
                     fields={},
-- 
2.43.0


From 542555cdace59c76825091d49a647147c91b563d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:17 +0000
Subject: [PATCH 066/102] fix: bibdiv values keep the braces that are
 arguments, \bib* and empty records are read

---
 latex2json/parser/bib/bibdiv_parser.py | 41 +++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/bib/bibdiv_parser.py b/latex2json/parser/bib/bibdiv_parser.py
index 1e443b2..9cf77f4 100644
--- a/latex2json/parser/bib/bibdiv_parser.py
+++ b/latex2json/parser/bib/bibdiv_parser.py
@@ -9,7 +9,40 @@ from latex2json.utils.tex_utils import (
 from latex2json.parser.bib.bibtex_parser import BibTexEntry
 
 BibDivPattern = re.compile(r"\\begin\s*{bibdiv}")
-BibPattern = re.compile(r"\\bib\s*\{([^}]+)\}\s*\{([^}]+)\}")
+BibPattern = re.compile(r"\\bib\*?\s*\{([^}]+)\}\s*\{([^}]+)\}")
+# what a group can be the argument of, or can be kept for
+ArgumentPattern = re.compile(r"(?:\\[a-zA-Z]+\*?\s*|\\[^a-zA-Z]|[_^]|[\]}])$")
+
+
+def strip_grouping_braces(text: str) -> str:
+    """Strip the braces that only group words, e.g. {Navier}-{Stokes}"""
+    result = ""
+    in_math = False
+    pos = 0
+    while pos < len(text):
+        char = text[pos]
+        if char == "\\":
+            result += text[pos : pos + 2]
+            pos += 2
+            continue
+        if char == "$":
+            in_math = not in_math
+        elif char == "{":
+            content, length = extract_nested_content(text[pos:])
+            if content is not None:
+                if (
+                    in_math
+                    or content.lstrip().startswith("\\")
+                    or ArgumentPattern.search(result)
+                ):
+                    result += text[pos : pos + length]
+                else:
+                    result += strip_grouping_braces(content)
+                pos += length
+                continue
+        result += char
+        pos += 1
+    return result
 
 
 class BibDivParser:
@@ -64,7 +97,7 @@ class BibDivParser:
 
             # Get everything inside the braces after the entry type
             entry_content, _ = extract_nested_content(bibdiv_content[match.end() :])
-            if not entry_content:
+            if entry_content is None:
                 continue
 
             # Parse fields
@@ -93,7 +126,7 @@ class BibDivParser:
                     )
                     if value is not None:
                         # Strip any remaining braces from the value
-                        value = re.sub(r"\{([^}]*)\}", r"\1", value)
+                        value = strip_grouping_braces(value)
                         value = value.strip()
                         # Handle multiple instances of the same field
                         if field_name in fields:
@@ -108,7 +141,7 @@ class BibDivParser:
                         comma_pos = len(entry_content)
                     value = entry_content[field_start:comma_pos].strip()
                     # Strip any remaining braces from the value
-                    value = re.sub(r"\{([^}]*)\}", r"\1", value)
+                    value = strip_grouping_braces(value)
                     # Handle multiple instances of the same field
                     if field_name in fields:
                         fields[field_name] = f"{fields[field_name]} and {value}"
-- 
2.43.0


From f1937bd9b0930e5c6386371e533b9812c749cd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:26 +0000
Subject: [PATCH 067/102] fix: compiled BibTeX keeps every author, initials
 with accents, and all verbatim values

---
 latex2json/parser/bib/bib_parser.py      | 10 +++-
 latex2json/parser/bib/compiled_bibtex.py | 61 ++++++++++++++++--------
 2 files changed, 50 insertions(+), 21 deletions(-)

diff --git a/latex2json/parser/bib/bib_parser.py b/latex2json/parser/bib/bib_parser.py
index 10e9b0a..ec05160 100644
--- a/latex2json/parser/bib/bib_parser.py
+++ b/latex2json/parser/bib/bib_parser.py
@@ -11,7 +11,10 @@ from latex2json.parser.bib.bibtex_parser import (
 )
 from latex2json.parser.bib.bibdiv_parser import BibDivParser
 from latex2json.parser.bib.bibitem_parser import BibItemParser
-from latex2json.parser.bib.compiled_bibtex import is_compiled_bibtex
+from latex2json.parser.bib.compiled_bibtex import (
+    is_compiled_bibtex,
+    strip_compiled_bibtex_comments,
+)
 from latex2json.utils.encoding import read_file
 from latex2json.utils.tex_utils import (
     strip_latex_comments,
@@ -68,7 +71,10 @@ class BibParser:
             content
         ):
             # in a BibTeX database, unlike in a compiled one, % can be part of a value
-            if not is_compiled_bibtex(content):
+            if is_compiled_bibtex(content):
+                content = strip_compiled_bibtex_comments(database)
+                content = normalize_whitespace_and_lines(content)
+            else:
                 content = database
             entries.extend(self.bibtex_parser.parse(content))
         # Use the can_handle method for BibItem (now includes bibliography environment check)
diff --git a/latex2json/parser/bib/compiled_bibtex.py b/latex2json/parser/bib/compiled_bibtex.py
index 68ecbdd..579a10b 100644
--- a/latex2json/parser/bib/compiled_bibtex.py
+++ b/latex2json/parser/bib/compiled_bibtex.py
@@ -6,6 +6,7 @@ from latex2json.utils.tex_utils import (
     find_matching_env_block,
     extract_nested_content_sequence_blocks,
     extract_nested_content,
+    strip_latex_comments,
 )
 
 PATTERNS_TO_REPLACE = {
@@ -24,6 +25,23 @@ def apply_pattern_replacements(text):
     return result
 
 
+def extract_name_part(name: str, part: str) -> str | None:
+    part_match = re.search(r"(?<![a-z])%s=(?=\{)" % part, name)
+    if not part_match:
+        return None
+    return extract_nested_content(name[part_match.end() :])[0]
+
+
+def extract_initial(given: str) -> str:
+    """The first letter of a name, with its accent and braces if any"""
+    match = re.match(r"\\(?:[a-zA-Z]+\s*|[^a-zA-Z])", given)
+    accent = match.group(0) if match else ""
+    group, group_end = extract_nested_content(given[len(accent) :])
+    if group is None:
+        return accent + given[len(accent) : len(accent) + 1]
+    return given[: len(accent) + group_end]
+
+
 def parse_compiled_bibtex_entry(entry_text):
     r"""
     Parses a single compiled BibTeX entry into a dictionary.
@@ -63,22 +81,21 @@ def parse_compiled_bibtex_entry(entry_text):
 
         if author_blocks:
             # find the hash stuff
-            for hash_match in re.finditer(r"\{hash=\w+\}\{", author_blocks):
-                hash_pos = hash_match.end() - 1
+            for hash_match in re.finditer(r"\{[^{}]*\bhash=\w+[^{}]*\}\s*(?=\{)", author_blocks):
                 auth_block, _ = extract_nested_content(
-                    author_blocks[hash_pos:], "{", "}"
+                    author_blocks[hash_match.end() :], "{", "}"
                 )
                 if auth_block:
                     # Extract family and given names
-                    family_match = re.search(r"(family=)\{([^}]+)\}", auth_block)
-                    given_match = re.search(r"(given=)\{([^}]+)\}", auth_block)
-                    if family_match and given_match:
-                        start_pos = family_match.end(1)
-                        family, _ = extract_nested_content(auth_block[start_pos:])
-                        start_pos = given_match.end(1)
-                        given, _ = extract_nested_content(auth_block[start_pos:])
-                        given = given[:1] + "."
-                        authors.append(f"{family}, {given}")
+                    family = extract_name_part(auth_block, "family")
+                    given = extract_name_part(auth_block, "given")
+                    prefix = extract_name_part(auth_block, "prefix")
+                    if family and prefix:
+                        family = f"{prefix} {family}"
+                    if family and given:
+                        authors.append(f"{family}, {extract_initial(given)}.")
+                    elif family:
+                        authors.append(family)
 
         if authors:
             entry["author"] = " and ".join(authors)
@@ -98,13 +115,11 @@ def parse_compiled_bibtex_entry(entry_text):
             field_key = "journal"
         entry[field_key] = field_value
 
-    # Parse the eprint value from the \verb block
-    eprint_match = re.search(
-        r"\\verb\{eprint\}\s*\\verb\s+(.+?)\s+\\endverb", entry_text, re.DOTALL
-    )
-    if eprint_match:
-        eprint_value = eprint_match.group(1).strip()
-        entry["eprint"] = eprint_value
+    # Parse the values of \verb blocks (e.g. eprint, doi, url)
+    for verb_match in re.finditer(
+        r"\\verb\{(\w+)\}\s*\\verb\s+(.+?)\s+\\endverb", entry_text, re.DOTALL
+    ):
+        entry.setdefault(verb_match.group(1), verb_match.group(2).strip())
 
     return entry
 
@@ -152,6 +167,14 @@ def process_compiled_bibtex_to_bibtex(input_text):
     return output_entries
 
 
+def strip_compiled_bibtex_comments(input_text: str) -> str:
+    r"""Strip comments; in the lines of a \verb value a % starts none"""
+    return "\n".join(
+        line if re.match(r"\s*\\verb\s", line) else strip_latex_comments(line)
+        for line in input_text.split("\n")
+    )
+
+
 def is_compiled_bibtex(input_text: str) -> bool:
     # Check for the presence of an entry block from \entry to \endentry
     pattern = r"\\entry\{.*?\\endentry"
-- 
2.43.0


From a148c4ca146b188a1ba45bc46ac72bf288bbff72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:32 +0000
Subject: [PATCH 068/102] fix: the .bbl file used in place of a missing one
 does not depend on the directory order

---
 latex2json/parser/bib/bib_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/bib/bib_parser.py b/latex2json/parser/bib/bib_parser.py
index ec05160..eb334c0 100644
--- a/latex2json/parser/bib/bib_parser.py
+++ b/latex2json/parser/bib/bib_parser.py
@@ -130,7 +130,9 @@ class BibParser:
                 bib_content = self._open_file(main_bbl)
             else:
                 # Look for any .bbl file
-                bbl_files = [f for f in os.listdir(directory) if f.endswith(".bbl")]
+                bbl_files = sorted(
+                    f for f in os.listdir(directory or ".") if f.endswith(".bbl")
+                )
                 if bbl_files:
                     first_bbl = os.path.join(directory, bbl_files[0])
                     self.logger.info(f"Bib fallback -> Found {bbl_files[0]}")
-- 
2.43.0


From f3d0a1b5ef970abc02722685082badd94a4a6051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:50 +0000
Subject: [PATCH 069/102] fix: a group that is never closed, or any construct a
 handler cannot read, does not stop the parser

---
 latex2json/parser/handlers/environment.py | 3 ++-
 latex2json/parser/tex_parser.py           | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index 5f9f590..734bfe1 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -349,7 +349,8 @@ class BaseEnvironmentHandler(TokenHandler):
                 )
 
             if end_pos == -1:
-                return None, 0
+                # a group that is never closed
+                return None, match.end()
 
             token = {
                 "type": ENV_TYPES.get("group", "environment"),
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 6a1748f..348431a 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -499,6 +499,9 @@ class LatexParser:
             if handler.can_handle(content):
                 prev_token = tokens[-1] if tokens else None
                 token, end_pos = handler.handle(content, prev_token)
+                if end_pos <= 0:
+                    # could not be read, e.g. for want of an argument
+                    continue
                 if token:
                     output = [] if escape_text else tokens
                     self._process_token(
-- 
2.43.0


From 19d07ed4df5f80b44a14524e73283b18babb9e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:07 +0000
Subject: [PATCH 070/102] fix: an argument that is never closed does not lose
 the document

---
 latex2json/parser/handlers/author.py             | 3 +++
 latex2json/parser/handlers/if_else_statements.py | 3 ++-
 latex2json/parser/handlers/legacy_formatting.py  | 6 ++++++
 latex2json/parser/tex_parser.py                  | 9 +++++++--
 4 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/handlers/author.py b/latex2json/parser/handlers/author.py
index 377c7f0..f4a35cc 100644
--- a/latex2json/parser/handlers/author.py
+++ b/latex2json/parser/handlers/author.py
@@ -72,6 +72,9 @@ class AuthorHandler(TokenHandler):
                 start_pos = match.end() - 1
                 content, end_pos = extract_nested_content(content[start_pos:])
                 total_pos = start_pos + end_pos
+                if content is None:
+                    # the brace is never closed
+                    return None, match.end()
 
                 if name == "thanks":
                     token = {
diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index 6def67f..257ca27 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -188,7 +188,8 @@ def try_handle_ifthenelse(
             content[start_pos:], "{", "}", max_blocks=3
         )
         if len(blocks) != 3:
-            raise ValueError("Invalid \\ifthenelse structure")
+            # arguments are missing
+            return None, match.end()
         return {
             "type": "conditional-ifthenelse",
             "condition": blocks[0],
diff --git a/latex2json/parser/handlers/legacy_formatting.py b/latex2json/parser/handlers/legacy_formatting.py
index a202329..a2fc3b4 100644
--- a/latex2json/parser/handlers/legacy_formatting.py
+++ b/latex2json/parser/handlers/legacy_formatting.py
@@ -115,6 +115,9 @@ class LegacyFormattingHandler(TokenHandler):
                 if matched_str.startswith("\\color"):
                     # our regex is \color{
                     text, end_pos = extract_nested_content("{" + content[next_pos:])
+                    if text is None:
+                        # the brace is never closed
+                        return "", match.end()
                     modern_command = "textcolor"
 
                     if match.group(1):
@@ -129,6 +132,9 @@ class LegacyFormattingHandler(TokenHandler):
                     # simple \tt{text}
                     next_pos -= 1  # remove the opening brace
                     text, end_pos = extract_nested_content(content[next_pos:])
+                    if text is None:
+                        # the brace is never closed
+                        return "", match.end()
                     content_to_format = text.strip()
                     total_pos = next_pos + end_pos
                     formatted_text = "\\%s{%s}" % (modern_command, content_to_format)
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 348431a..77f2937 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -285,8 +285,13 @@ class LatexParser:
                 inner_content, inner_end_pos = extract_nested_content(
                     content[end_pos - 1 :]
                 )
-                end_pos += inner_end_pos - 1
-                total_content += inner_content + "}"
+                if inner_content is None:
+                    # the brace is never closed
+                    total_content = command
+                    end_pos -= 1
+                else:
+                    end_pos += inner_end_pos - 1
+                    total_content += inner_content + "}"
 
             expanded = self._expand_command(total_content)
 
-- 
2.43.0


From 1294c81df8832654c54b9c4aed3f08920c565bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:23 +0000
Subject: [PATCH 071/102] fix: names of counters, lengths, switches and lets
 are no regular expressions

---
 latex2json/parser/handlers/command_processor.py | 10 +++++-----
 latex2json/parser/handlers/new_definition.py    |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index ccf922f..cc0f9f4 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -286,7 +286,7 @@ class CommandProcessor:
         self, command_name: str, left_delim: str, right_delim: str
     ):
         r"""Process a paired delimiter command like \br{content}"""
-        usage_pattern = r"\\" + command_name + r"\*?\s*{"
+        usage_pattern = r"\\" + re.escape(command_name) + r"\*?\s*{"
 
         def handler(
             match: re.Match[str], text: str, math_mode: bool = False
@@ -361,7 +361,7 @@ class CommandProcessor:
 
     def process_newif(self, var_name: str):
         command: CommandEntry = {
-            "pattern": re.compile(r"\\" + var_name + r"(?:true|false)"),
+            "pattern": re.compile(r"\\" + re.escape(var_name) + r"(?:true|false)"),
             "handler": default_ignore_handler,
         }
         self.commands["newif:" + var_name] = command
@@ -382,14 +382,14 @@ class CommandProcessor:
             return "", start_pos + end_pos
 
         command: CommandEntry = {
-            "pattern": re.compile(r"\\" + var_name + r"\b"),
+            "pattern": re.compile(r"\\" + re.escape(var_name) + r"\b"),
             "handler": handler,
         }
         self.commands["newtoks:" + var_name] = command
 
     def process_newX(self, var_name: str, type: str = "newX"):
         command: CommandEntry = {
-            "pattern": re.compile(r"\\" + var_name + r"\b"),
+            "pattern": re.compile(r"\\" + re.escape(var_name) + r"\b"),
             "handler": default_ignore_handler,
         }
         self.commands[type + ":" + var_name] = command
@@ -397,7 +397,7 @@ class CommandProcessor:
     def process_newcounter(self, var_name: str):
 
         command: CommandEntry = {
-            "pattern": re.compile(r"\\the" + var_name + r"\b"),
+            "pattern": re.compile(r"\\the" + re.escape(var_name) + r"\b"),
             "handler": default_ignore_handler,
         }
         self.commands["newcounter:" + var_name] = command
diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 657b9e1..d4234f5 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -350,14 +350,14 @@ class NewDefinitionHandler(TokenHandler):
                 "content": content,
                 "num_args": 0,
                 "defaults": [],
-                "usage_pattern": r"\\" + name + USAGE_SUFFIX,
+                "usage_pattern": r"\\" + re.escape(name) + USAGE_SUFFIX,
             }
         else:
             token = {
                 "type": "let",
                 "name": name,
                 "content": content,
-                "usage_pattern": r"\\" + name + USAGE_SUFFIX,
+                "usage_pattern": r"\\" + re.escape(name) + USAGE_SUFFIX,
             }
         return token, match.end()
 
-- 
2.43.0


From 3bc64aa3340be2f8a7a6c39b86cedd94a63d1278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:35 +0000
Subject: [PATCH 072/102] fix: a control word ends before a digit or underscore

---
 latex2json/parser/bib/bibitem_parser.py       |  4 +-
 latex2json/parser/handlers/author.py          |  2 +-
 latex2json/parser/handlers/content_command.py |  2 +-
 latex2json/parser/handlers/environment.py     |  6 +--
 latex2json/parser/handlers/formatting.py      | 54 +++++++++----------
 .../parser/handlers/if_else_statements.py     |  4 +-
 latex2json/parser/handlers/item.py            |  2 +-
 .../parser/handlers/legacy_formatting.py      |  2 +-
 latex2json/parser/handlers/text_formatting.py |  4 +-
 9 files changed, 40 insertions(+), 40 deletions(-)

diff --git a/latex2json/parser/bib/bibitem_parser.py b/latex2json/parser/bib/bibitem_parser.py
index 13d0c6c..4b5789a 100644
--- a/latex2json/parser/bib/bibitem_parser.py
+++ b/latex2json/parser/bib/bibitem_parser.py
@@ -7,7 +7,7 @@ from latex2json.utils.tex_utils import extract_nested_content, is_escaped
 
 class BibItemParser:
     BibItemPattern = re.compile(r"\\bibitem(?![a-zA-Z])")
-    NewblockPattern = re.compile(r"\\newblock\b")
+    NewblockPattern = re.compile(r"\\newblock(?![a-zA-Z])")
 
     def __init__(self, logger: logging.Logger = None):
         self.logger = logger or logging.getLogger(__name__)
@@ -46,7 +46,7 @@ class BibItemParser:
 
         entries = []
         previous_content = None
-        bysame_pattern = re.compile(r"\\bysame\b")
+        bysame_pattern = re.compile(r"\\bysame(?![a-zA-Z])")
 
         # what comes before the first \bibitem is no item
         for bibitem in self.BibItemPattern.split(content)[1:]:
diff --git a/latex2json/parser/handlers/author.py b/latex2json/parser/handlers/author.py
index f4a35cc..ccc2694 100644
--- a/latex2json/parser/handlers/author.py
+++ b/latex2json/parser/handlers/author.py
@@ -4,7 +4,7 @@ import re
 from latex2json.parser.handlers.base import TokenHandler
 from latex2json.utils.tex_utils import extract_nested_content
 
-AND_PATTERN = re.compile(r"\\and\b", re.IGNORECASE)
+AND_PATTERN = re.compile(r"\\and(?![a-zA-Z])", re.IGNORECASE)
 BACKSLASH_PATTERN = re.compile(r"\\\\")
 
 compile_as = re.DOTALL | re.IGNORECASE
diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index 534e235..0192170 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -71,7 +71,7 @@ RAW_PATTERNS = OrderedDict(
         # Title
         ("title", r"\\title\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         # appendix
-        ("appendix", r"\\(?:appendix|appendices)\b"),
+        ("appendix", r"\\(?:appendix|appendices)(?![a-zA-Z])"),
         # keywords
         ("keywords", r"\\keywords\s*{"),
         # bibliography
diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index 734bfe1..2a37875 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -11,7 +11,7 @@ from latex2json.utils.tex_utils import (
 )
 import logging
 
-BEGIN_GROUP_PATTERN = re.compile(r"\\(?:begin|b)group\b")
+BEGIN_GROUP_PATTERN = re.compile(r"\\(?:begin|b)group(?![a-zA-Z])")
 
 ENV_NAME_BRACE_PATTERN = r"\{([^}]*?)\}"
 
@@ -341,11 +341,11 @@ class BaseEnvironmentHandler(TokenHandler):
             is_bgroup = "bgroup" in match.group(0)
             if is_bgroup:
                 start_pos, end_pos, inner_content = extract_nested_content_pattern(
-                    content, r"\\bgroup\b", r"\\egroup\b"
+                    content, r"\\bgroup(?![a-zA-Z])", r"\\egroup(?![a-zA-Z])"
                 )
             else:
                 start_pos, end_pos, inner_content = extract_nested_content_pattern(
-                    content, r"\\begingroup\b", r"\\endgroup\b"
+                    content, r"\\begingroup(?![a-zA-Z])", r"\\endgroup(?![a-zA-Z])"
                 )
 
             if end_pos == -1:
diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index ac76952..ac84cb2 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -68,26 +68,26 @@ RAW_PATTERNS = OrderedDict(
         ("tracing", r"\\(?:tracinglostchars)\s*=\s*\d+"),
         # date
         ("date", r"\\date\s*\{"),
-        ("today", r"\\today\b"),
+        ("today", r"\\today(?![a-zA-Z])"),
         ("subjclass", r"\\subjclass\s*%s\s*\{[^}]+\}" % OPTIONAL_BRACE_PATTERN),
         # Formatting commands
         ("setup", r"\\(?:hypersetup|captionsetup)%s\s*{" % OPTIONAL_BRACE_PATTERN),
         (
             "make_or_contents",
-            r"\\(?:(?:[a-zA-Z@]+)?maketitle|makeatletter|makeatother|tableofcontents|@title)\b",
+            r"\\(?:(?:[a-zA-Z@]+)?maketitle|makeatletter|makeatother|tableofcontents|@title)(?![a-zA-Z])",
         ),
         ("addcontentsline", r"\\addcontentsline\s*\{[^}]*\}\s*\{[^}]*\}\s*\{[^}]*\}"),
         ("addtocontents", r"\\(?:addtocontents|addtocounter)\s*\{[^}]*\s*\}\s*{"),
         ("titlecontents", r"\\titlecontents\s*{"),
-        ("contents", r"\\(?:contentspage|startcontents)\b"),
+        ("contents", r"\\(?:contentspage|startcontents)(?![a-zA-Z])"),
         ("printcontents", r"\\printcontents\s*{"),
         (
             "page",
-            r"\\enlargethispage\s*\{[^}]*\}|\\pagecolor\*?{[^}]*}|\\(?:centering|raggedright|raggedleft|allowdisplaybreaks|samepage|thepage|noindent|par|clearpage|cleardoublepage|hss|hfill|hfil|vfill|vfil|break|sloppy|flushbottom|flushleft|flushright|flushtop)\b",
+            r"\\enlargethispage\s*\{[^}]*\}|\\pagecolor\*?{[^}]*}|\\(?:centering|raggedright|raggedleft|allowdisplaybreaks|samepage|thepage|noindent|par|clearpage|cleardoublepage|hss|hfill|hfil|vfill|vfil|break|sloppy|flushbottom|flushleft|flushright|flushtop)(?![a-zA-Z])",
         ),
         (
             "pagebreak",
-            r"\\(?:filbreak|newpage|allowbreak|goodbreak|smallbreak|medbreak|bigbreak|break)\b|\\(?:no)?(?:page|line)break(?![a-zA-Z])(?:\s*\[\s*\d+\s*\])?",
+            r"\\(?:filbreak|newpage|allowbreak|goodbreak|smallbreak|medbreak|bigbreak|break)(?![a-zA-Z])|\\(?:no)?(?:page|line)break(?![a-zA-Z])(?:\s*\[\s*\d+\s*\])?",
         ),
         (
             "vskip",
@@ -101,13 +101,13 @@ RAW_PATTERNS = OrderedDict(
         ),
         (
             "skip",
-            r"\\(?:bigskip|medskip|smallskip|lastskip|unskip|(above|below)(display|caption)(short)?skip)\b",
+            r"\\(?:bigskip|medskip|smallskip|lastskip|unskip|(above|below)(display|caption)(short)?skip)(?![a-zA-Z])",
         ),
         (
             "style",
             r"\\(?:pagestyle|urlstyle|thispagestyle|theoremstyle|bibliographystyle|documentstyle|setcitestyle)\s*\{[^}]*\}",
         ),
-        ("bib", r"\\printbibliography\b"),
+        ("bib", r"\\printbibliography(?![a-zA-Z])"),
         ("bibmacro", r"\\renewbibmacro\*?\s*%s\s*{" % (BRACE_CONTENT_PATTERN)),
         ("newstyle", r"\\(?:newpagestyle|renewpagestyle)\s*\{[^}]*\}\s*{"),
         # ("font", r"\\(?:mdseries|bfseries|itshape|slshape|normalfont|ttfamily)\b"),
@@ -124,11 +124,11 @@ RAW_PATTERNS = OrderedDict(
         # New margin and size commands allowing any characters after the number
         (
             "margins",
-            r"\\(?:rightmargin|leftmargin)\b|"
+            r"\\(?:rightmargin|leftmargin)(?![a-zA-Z])|"
             + r"\\(?:topmargin|oddsidemargin|evensidemargin|textwidth|textheight|skip|footskip|headheight|headsep|footnotesep|marginparsep|marginparwidth|parindent|itemindent|parskip|vfuzz|hfuzz|hoffset|voffset)"
             + r"\s*(\=?\s*(?:%s))?" % (number_points_suffix),
         ),
-        ("indent", r"\\indent\b"),
+        ("indent", r"\\indent(?![a-zA-Z])"),
         # where a word may be hyphenated
         ("hyphen", r"\\-"),
         (
@@ -139,7 +139,7 @@ RAW_PATTERNS = OrderedDict(
         # width
         (
             "width",
-            r"\\(?:linewidth|columnwidth|textwidth|hsize|labelwidth)\b",
+            r"\\(?:linewidth|columnwidth|textwidth|hsize|labelwidth)(?![a-zA-Z])",
         ),
         # spacing
         (
@@ -163,7 +163,7 @@ RAW_PATTERNS = OrderedDict(
         (
             "options",
             re.compile(
-                r"\\(?:ProcessOptions\b|(PassOptionsToPackage|PassOptionsToClass)\s*%s\s*%s)|\\ExecuteBibliographyOptions\s*%s"
+                r"\\(?:ProcessOptions(?![a-zA-Z])|(PassOptionsToPackage|PassOptionsToClass)\s*%s\s*%s)|\\ExecuteBibliographyOptions\s*%s"
                 % (BRACE_CONTENT_PATTERN, BRACE_CONTENT_PATTERN, BRACE_CONTENT_PATTERN),
                 re.DOTALL,
             ),
@@ -189,7 +189,7 @@ RAW_PATTERNS = OrderedDict(
         (
             "linenumbers",
             re.compile(
-                r"\\(?:linenumbers\b|linesnumbered\b|numberwithin\s*\{[^}]*\}\s*\{[^}]*\})",
+                r"\\(?:linenumbers(?![a-zA-Z])|linesnumbered(?![a-zA-Z])|numberwithin\s*\{[^}]*\}\s*\{[^}]*\})",
                 re.DOTALL | re.IGNORECASE,
             ),
         ),
@@ -205,10 +205,10 @@ RAW_PATTERNS = OrderedDict(
         (
             "separators",
             r"\\(?:"
-            r"hline\b|"  # no args
-            r"center\b|"  # no args
-            r"hrulefill\b|"  # no args
-            r"centerline\b|"  # no args
+            r"hline(?![a-zA-Z])|"  # no args
+            r"center(?![a-zA-Z])|"  # no args
+            r"hrulefill(?![a-zA-Z])|"  # no args
+            r"centerline(?![a-zA-Z])|"  # no args
             r"cline\s*{([^}]+)}|"  # {n-m}
             + r"(?:topsep|parsep|partopsep|tabcolsep|labelsep)(?![a-zA-Z])(?:\s*=?\s*%s|\s*\{[^}]*\})?|"
             % (GLUE_PATTERN)
@@ -220,13 +220,13 @@ RAW_PATTERNS = OrderedDict(
             r"specialrule\s*{([^}]*)}\s*{([^}]*)}\s*{([^}]*)}|"  # {height}{above}{below}
             r"addlinespace(?:\[([^\]]*)\])?|"  # optional [length]
             r"rule\s*(?:\[[^\]]*\]\s*)?{[^}]*}\s*{[^}]*}|"  # \rule[raise]{width}{height}
-            r"hrule\b|"
-            r"morecmidrules\b|"  # no args
+            r"hrule(?![a-zA-Z])|"
+            r"morecmidrules(?![a-zA-Z])|"  # no args
             r"fboxsep\s*{([^}]+)}|"  # {length}
             r"Xhline\s*{([^}]+)}|"  # {length}
-            r"colrule\b|"
-            r"noalign\b|"
-            r"endfirsthead\b"
+            r"colrule(?![a-zA-Z])|"
+            r"noalign(?![a-zA-Z])|"
+            r"endfirsthead(?![a-zA-Z])"
             r")",
         ),
         (
@@ -238,13 +238,13 @@ RAW_PATTERNS = OrderedDict(
         ("protect", r"\\protect\\[a-zA-Z]+(?:\s*(?:\[[^\]]*\]|\{[^}]*\})*)?"),
         (
             "counters",
-            r"\\c@page\b|\\(?:counterwithin|counterwithout)\s*\{[^}]*}\s*\{[^}]*\}|\\refstepcounter{[^}]+}|\\@addtoreset\s*\{[^}]*\}\s*\{[^}]*\}",
+            r"\\c@page(?![a-zA-Z])|\\(?:counterwithin|counterwithout)\s*\{[^}]*}\s*\{[^}]*\}|\\refstepcounter{[^}]+}|\\@addtoreset\s*\{[^}]*\}\s*\{[^}]*\}",
         ),
         ("add_enumerate_counter", r"\\AddEnumerateCounter\s*\{"),
-        ("backslash", r"\\(?:backslash|textbackslash|arraybackslash)\b"),
+        ("backslash", r"\\(?:backslash|textbackslash|arraybackslash)(?![a-zA-Z])"),
         ("geometry", r"\\geometry\s*\{"),
         ("ensuremath", r"\\ensuremath\s*{"),
-        ("stackmath", r"\\stackMath\b"),
+        ("stackmath", r"\\stackMath(?![a-zA-Z])"),
         ("hyphenation", r"\\hyphenation\s*{"),
         # Handle vspace separately
         ("vspace", r"\\vspace\*?\s*{[^}]*}"),
@@ -258,7 +258,7 @@ RAW_PATTERNS = OrderedDict(
         (
             "other",
             re.compile(
-                r"\\(?:ignorespaces|relax|repeat|\@tempboxa|box|global|@plus|@minus|null|FloatBarrier|footins|phantomsection)\b",
+                r"\\(?:ignorespaces|relax|repeat|\@tempboxa|box|global|@plus|@minus|null|FloatBarrier|footins|phantomsection)(?![a-zA-Z])",
             ),
         ),
         ("newmdenv", re.compile(r"\\newmdenv\s*(?:\[(.*?)\])?\s*\{(.*?)\}", re.DOTALL)),
@@ -274,7 +274,7 @@ RAW_PATTERNS = OrderedDict(
         ("physics", r"\\pacs\s*\{(.*?)\}"),
         ("Hy@", r"\\Hy@[a-zA-Z]+\s*{"),
         ("unvbox", r"\\unvbox\s*(?:%s|\\[a-zA-Z@]+\b)" % (number_regex)),
-        ("string_or_chars", r"\\string\b|\\escapechar\b"),
+        ("string_or_chars", r"\\string(?![a-zA-Z])|\\escapechar(?![a-zA-Z])"),
         (
             "dims",
             re.compile(
@@ -282,7 +282,7 @@ RAW_PATTERNS = OrderedDict(
                 re.VERBOSE | re.DOTALL,
             ),
         ),
-        ("debug", r"\\(?:showthe|the)\b"),
+        ("debug", r"\\(?:showthe|the)(?![a-zA-Z])"),
     ]
 )
 
diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index 257ca27..b85e7fe 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -42,11 +42,11 @@ IF_PATTERN = re.compile(
     r"(?!@if(?:star|undefined|classloaded|packageloaded|nextchar)(?![a-zA-Z@]))"
     r"(?:@)?if%s" % (default_if_pattern)
 )
-ELSE_PATTERN = re.compile(r"\\else\b")
+ELSE_PATTERN = re.compile(r"\\else(?![a-zA-Z])")
 ELSIF_PATTERN = re.compile(
     r"\\els(?:e)?if%s|\\or(?![a-zA-Z@])(?:\s*\w+\b)?" % default_if_pattern
 )  # Matches both \elsif and \elseif
-FI_PATTERN = re.compile(r"\\fi\b")
+FI_PATTERN = re.compile(r"\\fi(?![a-zA-Z])")
 
 value_pattern = r"\\value\s*{\s*([a-zA-Z@]+)\s*}"
 numbered_command_pattern = r"\\([a-zA-Z@]+)(\d+)"
diff --git a/latex2json/parser/handlers/item.py b/latex2json/parser/handlers/item.py
index b161ffe..8fc6bcc 100644
--- a/latex2json/parser/handlers/item.py
+++ b/latex2json/parser/handlers/item.py
@@ -7,7 +7,7 @@ from latex2json.parser.handlers.environment import (
 
 # pattern to match \item up to the next \item or end of string
 ITEM_PATTERN = re.compile(
-    r"\\item\b\s*(?:\[(.*?)\])?\s*([\s\S]*?)(?=\\item\b|$)", re.DOTALL
+    r"\\item(?![a-zA-Z])\s*(?:\[(.*?)\])?\s*([\s\S]*?)(?=\\item(?![a-zA-Z])|$)", re.DOTALL
 )
 
 
diff --git a/latex2json/parser/handlers/legacy_formatting.py b/latex2json/parser/handlers/legacy_formatting.py
index a2fc3b4..030ffcc 100644
--- a/latex2json/parser/handlers/legacy_formatting.py
+++ b/latex2json/parser/handlers/legacy_formatting.py
@@ -76,7 +76,7 @@ SIZE_PATTERN = re.compile(
     r"\\(" + "|".join(LEGACY_SIZE_MAPPING.keys()) + r")(?![a-zA-Z])\s*\{?"
 )
 
-COLOR_PATTERN = re.compile(r"\\(?:color\s*(\[\w+\])?\s*\{|normalcolor\b)")
+COLOR_PATTERN = re.compile(r"\\(?:color\s*(\[\w+\])?\s*\{|normalcolor(?![a-zA-Z]))")
 
 PATTERNS = {
     "font": FONT_PATTERN,
diff --git a/latex2json/parser/handlers/text_formatting.py b/latex2json/parser/handlers/text_formatting.py
index 7607fbe..3158013 100644
--- a/latex2json/parser/handlers/text_formatting.py
+++ b/latex2json/parser/handlers/text_formatting.py
@@ -54,7 +54,7 @@ TEXT_PATTERN = re.compile(
 
 FONT_PATTERN = {
     "fontsize": (r"\\fontsize" + (r"\s*" + BRACE_CONTENT_PATTERN) * 2),
-    "selectfont": (r"\\selectfont\b"),
+    "selectfont": (r"\\selectfont(?![a-zA-Z])"),
     "usefont": (r"\\usefont" + (r"\s*" + BRACE_CONTENT_PATTERN) * 4),
 }
 
@@ -65,7 +65,7 @@ PATTERNS = {
     "frac": re.compile(r"\\(?:frac|nicefrac|textfrac)\s*\{", re.DOTALL),
     "texorpdfstring": re.compile(r"\\texorpdfstring\s*\{", re.DOTALL),
     "color": re.compile(r"\\textcolor\s*(\[\w+\])?\s*{"),
-    "columns": re.compile(r"\\(?:onecolumn\b|twocolumn\s*\[?)"),
+    "columns": re.compile(r"\\(?:onecolumn(?![a-zA-Z])|twocolumn\s*\[?)"),
     "subfloat": re.compile(r"\\subfloat\s*\["),
     "roman_numerals": re.compile(r"\\romannumeral\s+(\d+)"),
 }
-- 
2.43.0


From c8c0fef886320e893004a348e698b031a751a1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:15 +0000
Subject: [PATCH 073/102] fix: a control word is read to its last letter

---
 latex2json/parser/handlers/content_command.py    |  2 +-
 latex2json/parser/handlers/formatting.py         | 16 ++++++++--------
 latex2json/parser/handlers/if_else_statements.py |  2 +-
 latex2json/parser/handlers/new_definition.py     |  2 +-
 latex2json/parser/handlers/text_formatting.py    |  2 +-
 5 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index 0192170..1e82f58 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -49,7 +49,7 @@ RAW_PATTERNS = OrderedDict(
             % OPTIONAL_BRACE_PATTERN,
         ),
         # footnotes
-        ("footnotemark", r"\\footnotemark%s" % OPTIONAL_BRACE_PATTERN),
+        ("footnotemark", r"\\footnotemark(?![a-zA-Z])%s" % OPTIONAL_BRACE_PATTERN),
         ("footnotetext", r"\\footnotetext%s\s*{" % OPTIONAL_BRACE_PATTERN),
         # URLs
         ("url", r"\\(?:url|path)\s*{"),
diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index ac84cb2..4b2380d 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -91,7 +91,7 @@ RAW_PATTERNS = OrderedDict(
         ),
         (
             "vskip",
-            r"\\vskip\s*(?:%s|-?\\[@a-zA-Z]+|\b)" % GLUE_PATTERN,
+            r"\\vskip\s*(?:%s|-?\\[@a-zA-Z]+|(?![a-zA-Z]))" % GLUE_PATTERN,
         ),
         (
             "penalty",
@@ -125,7 +125,7 @@ RAW_PATTERNS = OrderedDict(
         (
             "margins",
             r"\\(?:rightmargin|leftmargin)(?![a-zA-Z])|"
-            + r"\\(?:topmargin|oddsidemargin|evensidemargin|textwidth|textheight|skip|footskip|headheight|headsep|footnotesep|marginparsep|marginparwidth|parindent|itemindent|parskip|vfuzz|hfuzz|hoffset|voffset)"
+            + r"\\(?:topmargin|oddsidemargin|evensidemargin|textwidth|textheight|skip|footskip|headheight|headsep|footnotesep|marginparsep|marginparwidth|parindent|itemindent|parskip|vfuzz|hfuzz|hoffset|voffset)(?![a-zA-Z])"
             + r"\s*(\=?\s*(?:%s))?" % (number_points_suffix),
         ),
         ("indent", r"\\indent(?![a-zA-Z])"),
@@ -134,7 +134,7 @@ RAW_PATTERNS = OrderedDict(
         (
             "lineskip",
             r"\\lineskip\s*%s" % (number_points_suffix)
-            + r"|(%s)?\\baselineskip(?:\s*%s)?" % (number_regex, number_points_suffix),
+            + r"|(%s)?\\baselineskip(?![a-zA-Z])(?:\s*%s)?" % (number_regex, number_points_suffix),
         ),
         # width
         (
@@ -145,7 +145,7 @@ RAW_PATTERNS = OrderedDict(
         (
             "spacing",
             r"\\(?:"
-            r"quad|qquad|xspace|space|,|;|:|\!|"  # \quad, \qquad, \, \; \:
+            r"(?:quad|qquad|xspace|space)(?![a-zA-Z])|,|;|:|\!|"  # \quad, \qquad, \, \; \:
             r"hspace\*?\s*{([^}]+)}|"  # \hspace{length}
             r"hskip\s*%s" % (GLUE_PATTERN)  # \hskip 10pt plus 1fil
             + r"|linespread\s*\{[^}]*\}"  # Added \linespread{...}
@@ -212,7 +212,7 @@ RAW_PATTERNS = OrderedDict(
             r"cline\s*{([^}]+)}|"  # {n-m}
             + r"(?:topsep|parsep|partopsep|tabcolsep|labelsep)(?![a-zA-Z])(?:\s*=?\s*%s|\s*\{[^}]*\})?|"
             % (GLUE_PATTERN)
-            + r"(?:midrule|toprule|bottomrule)%s|"
+            + r"(?:midrule|toprule|bottomrule)(?![a-zA-Z])%s|"
             % (OPTIONAL_BRACE_PATTERN)  # optional [trim]
             + r"cmidrule\s*(?:\(([^)]+)\)\s*)?(?:\[([^\]]*)\]\s*)?{([^}]+)}|"  # optional (lr)[trim] and {n-m}
             r"hdashline(?:\[[\d,\s]*\])?|"  # optional [length,space]
@@ -231,10 +231,10 @@ RAW_PATTERNS = OrderedDict(
         ),
         (
             "rulewidth",
-            r"\\(?:arrayrulewidth|heavyrulewidth|overfullrule)(?:\s*=?\s*%s(?:\w+)?)?"
+            r"\\(?:arrayrulewidth|heavyrulewidth|overfullrule)(?![a-zA-Z])(?:\s*=?\s*%s(?:\w+)?)?"
             % number_regex,
         ),
-        ("paper", r"\\(?:paperwidth|paperheight)(?:\s*=\s*%s(?:\w+)?)?" % number_regex),
+        ("paper", r"\\(?:paperwidth|paperheight)(?![a-zA-Z])(?:\s*=\s*%s(?:\w+)?)?" % number_regex),
         ("protect", r"\\protect\\[a-zA-Z]+(?:\s*(?:\[[^\]]*\]|\{[^}]*\})*)?"),
         (
             "counters",
@@ -267,7 +267,7 @@ RAW_PATTERNS = OrderedDict(
         ("@empty", r"\\@empty(?![a-zA-Z@])"),
         (
             "advance",
-            r"\\(?:advance|divide|multiply)(?:\\[a-zA-Z@*\d]+)?(?:\s+by)?(?:\s*-)?(?:\s*(?:\\)?[a-zA-Z@*\d]+)?",
+            r"\\(?:advance|divide|multiply)(?![a-zA-Z])(?:\\[a-zA-Z@*\d]+)?(?:\s+by)?(?:\s*-)?(?:\s*(?:\\)?[a-zA-Z@*\d]+)?",
         ),
         ("typeout", r"\\typeout\s*{"),
         # other...
diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index b85e7fe..d6429a9 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -29,7 +29,7 @@ tex_token_pattern = r"""
 
 # Pattern for \ifx with two tokens to compare
 ifx_pattern = re.compile(
-    r"\\ifx\s*"
+    r"\\ifx(?![a-zA-Z@])\s*"
     + rf"({tex_token_pattern})\s*"  # First token
     + rf"({tex_token_pattern})",  # Second token
     re.VERBOSE,
diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index d4234f5..e396072 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -37,7 +37,7 @@ DEF_ARG_CONTENT_PATTERN = r"(?:\\.|[^{}\\])*"
 for _ in range(6):
     DEF_ARG_CONTENT_PATTERN = r"(?:\\.|[^{}\\]|\{%s\})*" % DEF_ARG_CONTENT_PATTERN
 
-EXPAND_PATTERN = re.compile(r"\\(?:expandafter|noexpand)(?:\w+)?(?![a-zA-Z])")
+EXPAND_PATTERN = re.compile(r"\\(?:expandafter|noexpand)(?![a-zA-Z])")
 START_CSNAME_PATTERN = re.compile(r"\\csname(?![a-zA-Z])")
 END_CSNAME_PATTERN = re.compile(r"\\endcsname(?![a-zA-Z])")
 
diff --git a/latex2json/parser/handlers/text_formatting.py b/latex2json/parser/handlers/text_formatting.py
index 3158013..2d57bec 100644
--- a/latex2json/parser/handlers/text_formatting.py
+++ b/latex2json/parser/handlers/text_formatting.py
@@ -65,7 +65,7 @@ PATTERNS = {
     "frac": re.compile(r"\\(?:frac|nicefrac|textfrac)\s*\{", re.DOTALL),
     "texorpdfstring": re.compile(r"\\texorpdfstring\s*\{", re.DOTALL),
     "color": re.compile(r"\\textcolor\s*(\[\w+\])?\s*{"),
-    "columns": re.compile(r"\\(?:onecolumn(?![a-zA-Z])|twocolumn\s*\[?)"),
+    "columns": re.compile(r"\\(?:onecolumn(?![a-zA-Z])|twocolumn(?![a-zA-Z])\s*\[?)"),
     "subfloat": re.compile(r"\\subfloat\s*\["),
     "roman_numerals": re.compile(r"\\romannumeral\s+(\d+)"),
 }
-- 
2.43.0


From 9f836bff89985beba597e7eef74423fefe0a47a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:18 +0000
Subject: [PATCH 074/102] fix: a conditional's name ends with its letters, and
 an unclosed \csname in one does not stop the parser

---
 latex2json/parser/handlers/if_else_statements.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index d6429a9..4c84a34 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -11,7 +11,9 @@ from latex2json.parser.patterns import command_with_opt_brace_pattern, command_o
 # Could be character, command, or more complex token
 char_or_command_pattern = r"(?:{\s*)?(?:\\[a-zA-Z@]+|\S)(?:\s*})?"
 
-default_if_pattern = r"\s*(%s\s*%s|.+?)(?=\\|\s|$|\n)" % (
+# what follows \if: the rest of its name, or (for a bare \if) a condition in braces
+# or two tokens to compare
+default_if_pattern = r"((?:true|false|[hvm]mode|inner)(?![a-zA-Z@])|[a-zA-Z@]+[0-9]*|\s*\{[^{}\\]*\}|\s*%s\s*%s|)" % (
     char_or_command_pattern,
     char_or_command_pattern,
 )
@@ -333,9 +335,10 @@ class IfElseBlockHandler(TokenHandler):
                         inner, pos = extract_and_concat_nested_csname(
                             content[start_pos + cs_name_ind :]
                         )
-                        if inner:
-                            start_pos += cs_name_ind + pos
-                            condition = inner.strip()
+                        if pos == -1:
+                            return None, 0
+                        start_pos += cs_name_ind + pos
+                        condition = inner.strip()
                     else:
                         start_pos = match.end()
                         if condition == "\\if" + name or condition == "\\@if" + name:
-- 
2.43.0


From 8d35e41ea3e8c307075dd8be26eeae925a1d3dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:13 +0000
Subject: [PATCH 075/102] fix: databases read one after the other share their
 @string names

---
 latex2json/parser/bib/bib_parser.py    |  2 +-
 latex2json/parser/bib/bibtex_parser.py | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/bib/bib_parser.py b/latex2json/parser/bib/bib_parser.py
index eb334c0..ec5f237 100644
--- a/latex2json/parser/bib/bib_parser.py
+++ b/latex2json/parser/bib/bib_parser.py
@@ -51,7 +51,7 @@ class BibParser:
         self.bibitem_parser = BibItemParser(logger=self.logger)
 
     def clear(self):
-        pass
+        self.bibtex_parser.clear()
         # self._parsed_files = set()
 
     def parse(self, content: str) -> List[BibTexEntry]:
diff --git a/latex2json/parser/bib/bibtex_parser.py b/latex2json/parser/bib/bibtex_parser.py
index 85c2c97..8d5a6ab 100644
--- a/latex2json/parser/bib/bibtex_parser.py
+++ b/latex2json/parser/bib/bibtex_parser.py
@@ -61,9 +61,10 @@ class BibTexSyntaxError(ValueError):
 class BibTexScanner:
     """Reads the entries of a BibTeX database one by one"""
 
-    def __init__(self, text: str):
+    def __init__(self, text: str, strings: Optional[Dict[str, str]] = None):
         self.text = text
-        self.strings: Dict[str, str] = {}
+        # the @string names defined so far
+        self.strings: Dict[str, str] = {} if strings is None else strings
 
     def __iter__(self) -> Iterator[Tuple[str, str, Dict[str, str]]]:
         text = self.text
@@ -188,6 +189,11 @@ class BibTexScanner:
 class BibTexParser:
     def __init__(self, logger: Logger = None):
         self.logger = logger or logging.getLogger(__name__)
+        # databases that are read one after the other share their @string names
+        self.strings: Dict[str, str] = {}
+
+    def clear(self):
+        self.strings = {}
 
     @staticmethod
     def can_handle(content: str) -> bool:
@@ -234,7 +240,7 @@ class BibTexParser:
             content = "\n".join(bibtex_entries)
 
         entries = []
-        for entry_type, citation_key, fields in BibTexScanner(content):
+        for entry_type, citation_key, fields in BibTexScanner(content, self.strings):
             entry = BibTexEntry.from_bibtex(
                 entry_type=entry_type, citation_key=citation_key, fields=fields
             )
-- 
2.43.0


From 9dd62762d06c73aee92ea1e8d0e567e709c8bf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:30 +0000
Subject: [PATCH 076/102] fix: the next entry is no citation key

---
 latex2json/parser/bib/bibtex_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/latex2json/parser/bib/bibtex_parser.py b/latex2json/parser/bib/bibtex_parser.py
index 8d5a6ab..5642ea7 100644
--- a/latex2json/parser/bib/bibtex_parser.py
+++ b/latex2json/parser/bib/bibtex_parser.py
@@ -107,6 +107,8 @@ class BibTexScanner:
 
     def _read_key(self, pos: int, close: str) -> Tuple[str, int]:
         pos = self._skip(pos, BibTexSpacePattern)
+        if BibTexPattern.match(self.text, pos):
+            raise BibTexSyntaxError("no citation key")
         citation_key = BibTexKeyPattern.match(self.text, pos).group(0)
         if close == ")":
             citation_key = citation_key.rstrip(")")
-- 
2.43.0


From efcbf64efd9b74e1a7f374a30a7f3da8291e273a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:26 +0000
Subject: [PATCH 077/102] fix: definitions before the first bibitem take
 effect, and what is there already is not provided again

---
 latex2json/parser/bib/bib_parser.py           |  8 +++++
 latex2json/parser/bib/bibitem_parser.py       |  5 ++-
 .../parser/handlers/command_processor.py      | 17 ++++++++++
 latex2json/parser/tex_parser.py               | 33 ++++++++++++++-----
 latex2json/parser/tex_preprocessor.py         |  7 +++-
 5 files changed, 59 insertions(+), 11 deletions(-)

diff --git a/latex2json/parser/bib/bib_parser.py b/latex2json/parser/bib/bib_parser.py
index ec5f237..a5516f6 100644
--- a/latex2json/parser/bib/bib_parser.py
+++ b/latex2json/parser/bib/bib_parser.py
@@ -50,8 +50,14 @@ class BibParser:
         self.bibdiv_parser = BibDivParser(logger=self.logger)
         self.bibitem_parser = BibItemParser(logger=self.logger)
 
+    @property
+    def prelude(self) -> str:
+        """What comes before the first \\bibitem of the content parsed last"""
+        return self.bibitem_parser.prelude
+
     def clear(self):
         self.bibtex_parser.clear()
+        self.bibitem_parser.prelude = ""
         # self._parsed_files = set()
 
     def parse(self, content: str) -> List[BibTexEntry]:
@@ -59,6 +65,7 @@ class BibParser:
 
         database = content
         content = preprocess(content)
+        self.bibitem_parser.prelude = ""
 
         entries = []
 
@@ -107,6 +114,7 @@ class BibParser:
 
         # Try to find and read the bib file
         bib_content = None
+        self.bibitem_parser.prelude = ""
 
         # Case 1: File already has correct extension
         if file_path.endswith(tuple(exts)) and os.path.exists(file_path):
diff --git a/latex2json/parser/bib/bibitem_parser.py b/latex2json/parser/bib/bibitem_parser.py
index 4b5789a..0e166dd 100644
--- a/latex2json/parser/bib/bibitem_parser.py
+++ b/latex2json/parser/bib/bibitem_parser.py
@@ -11,6 +11,8 @@ class BibItemParser:
 
     def __init__(self, logger: logging.Logger = None):
         self.logger = logger or logging.getLogger(__name__)
+        # what comes before the first item, e.g. definitions of commands used in the items
+        self.prelude = ""
 
     def can_handle(self, content: str) -> bool:
         # Check for bibliography environment
@@ -49,7 +51,8 @@ class BibItemParser:
         bysame_pattern = re.compile(r"\\bysame(?![a-zA-Z])")
 
         # what comes before the first \bibitem is no item
-        for bibitem in self.BibItemPattern.split(content)[1:]:
+        self.prelude, *bibitems = self.BibItemPattern.split(content)
+        for bibitem in bibitems:
             label, label_end = self._extract_label(bibitem)
             citation_key, key_end = extract_nested_content(bibitem[label_end:])
             if citation_key is None:
diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index cc0f9f4..62d9ab6 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -93,6 +93,16 @@ def wrap_math_mode_arg(text: str) -> str:
     return text
 
 
+# macros of the LaTeX kernel that pick one of their arguments: (number of arguments, definition)
+KERNEL_COMMANDS = {
+    "@firstofone": (1, "#1"),
+    "@firstoftwo": (2, "#1"),
+    "@secondoftwo": (2, "#2"),
+    "@gobble": (1, ""),
+    "@gobbletwo": (2, ""),
+}
+
+
 class CommandProcessor:
     def __init__(self):
         # Replace the unicode conversion initialization with LatexUnicodeConverter
@@ -101,10 +111,17 @@ class CommandProcessor:
 
         self.commands: Dict[str, CommandEntry] = {}
         self.let_commands: Dict[str, CommandEntry] = {}
+        self._process_kernel_commands()
 
     def clear(self):
         self.commands = {}
         self.let_commands = {}
+        self._process_kernel_commands()
+
+    def _process_kernel_commands(self):
+        for name, (num_args, definition) in KERNEL_COMMANDS.items():
+            usage_pattern = r"\\" + name + USAGE_SUFFIX
+            self.process_newcommand(name, definition, num_args, [], usage_pattern)
 
     @property
     def _all_commands(self):
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 77f2937..390008a 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -155,6 +155,7 @@ class LatexParser:
 
         # Add preprocessor
         self.preprocessor = LatexPreprocessor(logger=self.logger)
+        self.preprocessor.is_native_command = self._is_native_command
 
     # getter for commands
     @property
@@ -318,6 +319,10 @@ class LatexParser:
 
             typing = token["type"]
 
+            # commands that are there already are not provided again
+            if token.get("provide") and self._is_native_command(cmd_name):
+                return
+
             if typing == "definecolor":
                 self.colors[cmd_name] = {
                     "format": token["format"],
@@ -351,6 +356,12 @@ class LatexParser:
             self._process_new_definition_token(token)
         return end_pos
 
+    def _convert_bibentries(self, entries: List[BibTexEntry]) -> List[Dict]:
+        if self.bib_parser.prelude:
+            # definitions of commands used in the entries
+            self.parse(self.bib_parser.prelude)
+        return [self._convert_bibentry_tokens(entry) for entry in entries]
+
     def _convert_bibentry_tokens(self, entry: BibTexEntry) -> Dict:
         content = entry.content
         if entry.format == "bibitem":
@@ -389,9 +400,7 @@ class LatexParser:
 
             try:
                 entries = self.bib_parser.parse_file(full_path)
-                all_tokens.extend(
-                    [self._convert_bibentry_tokens(entry) for entry in entries]
-                )
+                all_tokens.extend(self._convert_bibentries(entries))
             except Exception as e:
                 self.logger.warning(
                     f"Failed to parse bibliography file: {full_path}, error: {str(e)}"
@@ -425,9 +434,7 @@ class LatexParser:
             if token["type"] == "bibliography":
                 if isinstance(token["content"], str):
                     entries = self.bib_parser.parse(token["content"])
-                    token["content"] = [
-                        self._convert_bibentry_tokens(entry) for entry in entries
-                    ]
+                    token["content"] = self._convert_bibentries(entries)
             elif token["type"] == "bibliography_file":
                 if token["content"]:
                     token = self._parse_bib_file(token["content"])
@@ -451,9 +458,10 @@ class LatexParser:
             elif token["type"] == "url":
                 if "title" in token:
                     token["title"] = self.parse(token["title"])
-                token["content"] = self._expand_command(
-                URL_TILDE_PATTERN.sub("~", token["content"])
-            )
+                url = URL_TILDE_PATTERN.sub("~", token["content"])
+                # the space that ends the name of a macro, e.g. \doibase 10.1000/1
+                url = re.sub(r"(\\[a-zA-Z@]+)\s+(?=\d)", r"\1", url)
+                token["content"] = self._expand_command(url)
             elif token["type"] == "ref":
                 token["content"] = [self._expand_command(c) for c in token["content"]]
                 if "title" in token:
@@ -894,6 +902,13 @@ class LatexParser:
 
         return tokens
 
+    def _is_native_command(self, name: str) -> bool:
+        content = "\\" + name + "{a}{b}"
+        return any(pattern.match(content) for pattern in PATTERNS.values()) or any(
+            handler.can_handle(content)
+            for handler in [self.legacy_formatting_handler, *self.handlers]
+        )
+
     def _is_known_command(self, content: str) -> bool:
         return (
             self.command_manager.can_handle(content)
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 94daf4e..e244b54 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -96,6 +96,9 @@ class LatexPreprocessor:
         # added equation handler to parse out math mode
         self.equation_handler = EquationHandler()
 
+        # whether a command is there without being defined (set by the parser)
+        self.is_native_command = lambda name: False
+
     def clear(self):
         self.if_else_block_handler.clear()
         self.command_manager.clear()
@@ -369,7 +372,9 @@ class LatexPreprocessor:
                 name = token.get("name", "")
                 is_macro = token.get("type") in ["newcommand", "def", "let"]
                 if token.get("provide") and (
-                    name in skipped_names or self.command_manager.has_command(name)
+                    name in skipped_names
+                    or self.command_manager.has_command(name)
+                    or self.is_native_command(name)
                 ):
                     content = content[:current_pos] + content[current_pos + end_pos :]
                     continue
-- 
2.43.0


From ccb886ea41308e2521fa4da045563c183af6ddd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:10 +0000
Subject: [PATCH 078/102] fix: the argument of a bibliography environment is no
 part of an item, each list has its own definitions

---
 latex2json/parser/bib/bib_parser.py     |  8 --------
 latex2json/parser/bib/bibitem_parser.py | 26 +++++++++++++++++++------
 latex2json/parser/bib/bibtex_parser.py  |  2 ++
 latex2json/parser/tex_parser.py         |  6 +++---
 4 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/latex2json/parser/bib/bib_parser.py b/latex2json/parser/bib/bib_parser.py
index a5516f6..ec5f237 100644
--- a/latex2json/parser/bib/bib_parser.py
+++ b/latex2json/parser/bib/bib_parser.py
@@ -50,14 +50,8 @@ class BibParser:
         self.bibdiv_parser = BibDivParser(logger=self.logger)
         self.bibitem_parser = BibItemParser(logger=self.logger)
 
-    @property
-    def prelude(self) -> str:
-        """What comes before the first \\bibitem of the content parsed last"""
-        return self.bibitem_parser.prelude
-
     def clear(self):
         self.bibtex_parser.clear()
-        self.bibitem_parser.prelude = ""
         # self._parsed_files = set()
 
     def parse(self, content: str) -> List[BibTexEntry]:
@@ -65,7 +59,6 @@ class BibParser:
 
         database = content
         content = preprocess(content)
-        self.bibitem_parser.prelude = ""
 
         entries = []
 
@@ -114,7 +107,6 @@ class BibParser:
 
         # Try to find and read the bib file
         bib_content = None
-        self.bibitem_parser.prelude = ""
 
         # Case 1: File already has correct extension
         if file_path.endswith(tuple(exts)) and os.path.exists(file_path):
diff --git a/latex2json/parser/bib/bibitem_parser.py b/latex2json/parser/bib/bibitem_parser.py
index 0e166dd..b0561fb 100644
--- a/latex2json/parser/bib/bibitem_parser.py
+++ b/latex2json/parser/bib/bibitem_parser.py
@@ -11,8 +11,6 @@ class BibItemParser:
 
     def __init__(self, logger: logging.Logger = None):
         self.logger = logger or logging.getLogger(__name__)
-        # what comes before the first item, e.g. definitions of commands used in the items
-        self.prelude = ""
 
     def can_handle(self, content: str) -> bool:
         # Check for bibliography environment
@@ -38,21 +36,36 @@ class BibItemParser:
                     return text[start + 1 : i], i + 1
         return None, 0
 
+    def _strip_widest_label(self, content: str) -> str:
+        """Remove the argument of a bibliography environment, e.g. {99}"""
+        if content.lstrip().startswith("{"):
+            widest, end = extract_nested_content(content)
+            if widest is not None:
+                return content[end:]
+        return content
+
     def parse(self, content: str) -> List[BibTexEntry]:
         # If content is in bibliography environments, extract the content
         bib_matches = re.findall(
             r"\\begin{(\w*bibliography)}(.*?)\\end{\1}", content, re.DOTALL
         )
-        if bib_matches:
-            content = "\n".join(bib_content for _, bib_content in bib_matches)
+        contents = [
+            self._strip_widest_label(bib_content) for _, bib_content in bib_matches
+        ]
 
         entries = []
         previous_content = None
         bysame_pattern = re.compile(r"\\bysame(?![a-zA-Z])")
 
         # what comes before the first \bibitem is no item
-        self.prelude, *bibitems = self.BibItemPattern.split(content)
-        for bibitem in bibitems:
+        bibitems = []
+        for part in contents or [content]:
+            prelude, *items = self.BibItemPattern.split(part)
+            bibitems.extend(
+                (prelude if i == 0 else "", item) for i, item in enumerate(items)
+            )
+
+        for prelude, bibitem in bibitems:
             label, label_end = self._extract_label(bibitem)
             citation_key, key_end = extract_nested_content(bibitem[label_end:])
             if citation_key is None:
@@ -76,6 +89,7 @@ class BibItemParser:
                     entry_type="bibitem",
                     format="bibitem",
                     fields={},
+                    prelude=prelude.strip(),
                 )
                 entries.append(entry)
                 previous_content = item
diff --git a/latex2json/parser/bib/bibtex_parser.py b/latex2json/parser/bib/bibtex_parser.py
index 5642ea7..b132588 100644
--- a/latex2json/parser/bib/bibtex_parser.py
+++ b/latex2json/parser/bib/bibtex_parser.py
@@ -24,6 +24,8 @@ class BibTexEntry:
     # BibTeX related below
     entry_type: Optional[str] = None  # 'article', 'book', etc. for BibTeX
     fields: Optional[Dict[str, str]] = None
+    # what comes before the first \\bibitem of a list, e.g. definitions of commands
+    prelude: str = ""
 
     @classmethod
     def from_bibtex(
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 390008a..e5a5729 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -357,13 +357,13 @@ class LatexParser:
         return end_pos
 
     def _convert_bibentries(self, entries: List[BibTexEntry]) -> List[Dict]:
-        if self.bib_parser.prelude:
-            # definitions of commands used in the entries
-            self.parse(self.bib_parser.prelude)
         return [self._convert_bibentry_tokens(entry) for entry in entries]
 
     def _convert_bibentry_tokens(self, entry: BibTexEntry) -> Dict:
         content = entry.content
+        if entry.prelude:
+            # definitions of commands used in the entries
+            self.parse(entry.prelude)
         if entry.format == "bibitem":
             content = self.parse(content)
         return {
-- 
2.43.0


From fda0ea8f0cb6ed5dfe78c3b3f96f9a02db1ebbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:27 +0000
Subject: [PATCH 079/102] fix: escaped characters end no formula, displaymath
 and math environments are formulas, boxes of text stay in formulas

---
 latex2json/parser/handlers/equation.py | 60 ++++++++++++++++++++------
 latex2json/utils/tex_utils.py          |  7 +--
 2 files changed, 51 insertions(+), 16 deletions(-)

diff --git a/latex2json/parser/handlers/equation.py b/latex2json/parser/handlers/equation.py
index 9d723df..7c24e23 100644
--- a/latex2json/parser/handlers/equation.py
+++ b/latex2json/parser/handlers/equation.py
@@ -8,6 +8,7 @@ from latex2json.utils.tex_utils import (
     extract_nested_content,
     check_delimiter_balance,
     extract_equation_content,
+    is_escaped,
 )
 from latex2json.parser.patterns import LABEL_PATTERN
 from latex2json.parser.handlers.base import TokenHandler
@@ -27,13 +28,32 @@ EQUATION_ENV = {
     "dmath",  # display math
 }
 
+TEXT_BOX_PATTERN = re.compile(r"\\([mfh])box\s*\{")
+
 # Define equation patterns
 RAW_PATTERNS = OrderedDict(
     [
-        ("equation_display_$$", re.compile(r"\$\$([\s\S]*?)\$\$", re.DOTALL)),
-        ("equation_inline_$", re.compile(r"\$([^$]*)\$")),
-        ("equation_display_brackets", re.compile(r"\\\[(.*?)\\\]", re.DOTALL)),
-        ("equation_inline_brackets", re.compile(r"\\\((.*?)\\\)")),
+        # escaped characters, e.g. \$ or \\, end no equation
+        ("equation_display_$$", re.compile(r"\$\$((?:\\[\s\S]|[^\\])*?)\$\$")),
+        ("equation_inline_$", re.compile(r"\$((?:\\[\s\S]|[^\\$])*)\$")),
+        (
+            "equation_display_brackets",
+            re.compile(r"\\\[((?:\\[^\]]|[^\\])*)\\\]"),
+        ),
+        (
+            "equation_inline_brackets",
+            re.compile(r"\\\(((?:\\[^)]|[^\\])*)\\\)"),
+        ),
+        (
+            "equation_display_env",
+            re.compile(
+                r"\\begin\s*\{displaymath\}(.*?)\\end\s*\{displaymath\}", re.DOTALL
+            ),
+        ),
+        (
+            "equation_inline_env",
+            re.compile(r"\\begin\s*\{math\}(.*?)\\end\s*\{math\}", re.DOTALL),
+        ),
     ]
 )
 
@@ -89,7 +109,9 @@ class EquationHandler(TokenHandler):
                 incr = 0
             else:
                 # check box handling to remove boxes e.g. raisebox
-                x, end_pos = self.box_handler.handle(equation[backslash_pos:])
+                x, end_pos = None, 0
+                if not self._is_text_box(equation[backslash_pos:]):
+                    x, end_pos = self.box_handler.handle(equation[backslash_pos:])
                 if end_pos > 0:
                     content = ""
                     if x and isinstance(x.get("content", ""), str):
@@ -103,6 +125,16 @@ class EquationHandler(TokenHandler):
             backslash_pos = equation.find("\\", backslash_pos + incr)
         return equation.strip()
 
+    def _is_text_box(self, equation: str) -> bool:
+        """Check for a box of text, which would be read as math without the box"""
+        match = TEXT_BOX_PATTERN.match(equation)
+        if not match:
+            return False
+        content, _ = extract_nested_content(equation[match.end() - 1 :])
+        if match.group(1) == "h" and "$" not in (content or ""):
+            return False
+        return not re.fullmatch(r"\s*\$[^$]*\$\s*", content or "")
+
     def _handle_labels(self, equation: str) -> Tuple[str, list[str]]:
         """Extract and remove labels from equation."""
         labels = []
@@ -200,14 +232,13 @@ class EquationHandler(TokenHandler):
             ):
                 # Handle unbalanced braces for non-environment equations
                 delimiter = self._get_equation_delimiter(pattern_name)
-                if not delimiter:
-                    return None, 0
-
-                equation, proper_end = extract_equation_content(
-                    content[match.start() :], delimiter
-                )
-                if proper_end > 0:
-                    end_pos = match.start() + proper_end
+                if delimiter:
+                    balanced_equation, proper_end = extract_equation_content(
+                        content[match.start() :], delimiter
+                    )
+                    if proper_end > 0:
+                        equation = balanced_equation
+                        end_pos = match.start() + proper_end
 
             # Process equation content
             equation, labels = self._handle_labels(equation)
@@ -217,6 +248,9 @@ class EquationHandler(TokenHandler):
                 equation = self.process_content_fn(equation)
 
             equation = self._strip_out_formatting(equation)
+            if is_escaped(len(equation), equation):
+                # ends with a control space
+                equation += " "
 
             # Create token
             token = {
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 6b6106d..04f1b6b 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -468,15 +468,16 @@ def extract_equation_content(content: str, delimiter: str) -> Tuple[str, int]:
 
     Args:
         content: Input text containing equation
-        delimiter: Equation delimiter ($ or $$)
+        delimiter: Equation end delimiter ($ or $$ or \\] or \\))
 
     Returns:
         Tuple[str, int]: (equation content, end position)
     """
-    if not content.startswith(delimiter):
+    begin_delimiter = {"\\]": "\\[", "\\)": "\\("}.get(delimiter, delimiter)
+    if not content.startswith(begin_delimiter):
         return "", 0
 
-    start = len(delimiter)
+    start = len(begin_delimiter)
     end_pos = find_delimiter_end(content, start, delimiter)
 
     if end_pos < 0:
-- 
2.43.0


From d96a3b2742fcaeecd25570705bdc678541b837ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:27 +0000
Subject: [PATCH 080/102] fix: primes in formulas are no closing quotes

---
 latex2json/parser/tex_preprocessor.py | 31 ++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index e244b54..5e56e75 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -104,6 +104,23 @@ class LatexPreprocessor:
         self.command_manager.clear()
         self.sty_parser.clear()
 
+    def _find_outside_math(self, content: str, text: str, start: int) -> int:
+        """Find text that is not in a formula (-1 if there is none)"""
+        pos = start
+        while pos < len(content):
+            if content.startswith(text, pos):
+                return pos
+            if content[pos] in "$\\":
+                if self.equation_handler.can_handle(content[pos:]):
+                    _, end_pos = self.equation_handler.handle(content[pos:])
+                    if end_pos > 0:
+                        pos += end_pos
+                        continue
+                if content[pos] == "\\":
+                    pos += 1
+            pos += 1
+        return -1
+
     def preprocess(
         self, content: str, file_dir=None, read_input=None, open_files=()
     ) -> tuple[str, list[Dict]]:
@@ -350,14 +367,22 @@ class LatexPreprocessor:
                 # an escaped ` is an accent
                 if match and not is_escaped(current_pos, content):
                     quote_content = match.group(1)
+                    end_pos = current_pos + match.end()
+                    if "$" in quote_content or "\\" in quote_content:
+                        # primes are no quotes
+                        begin = current_pos + match.start(1)
+                        close = match.group(0)[match.end(1) :]
+                        closing = self._find_outside_math(content, close, begin)
+                        if closing < 0:
+                            continue
+                        quote_content = content[begin:closing]
+                        end_pos = closing + len(close)
                     if quote_type == "double_quotes":
                         quote_content = '"' + quote_content + '"'
                     elif quote_type == "single_quotes":
                         quote_content = "'" + quote_content + "'"
                     content = (
-                        content[:current_pos]
-                        + quote_content
-                        + content[current_pos + match.end() :]
+                        content[:current_pos] + quote_content + content[end_pos:]
                     )
                     continue
 
-- 
2.43.0


From 487b9b4b6c0201ff0dc77d5d556ce535df6edb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:42 +0000
Subject: [PATCH 081/102] fix: macros can end a formula

---
 latex2json/parser/handlers/command_manager.py | 50 +++++++++++++++++++
 latex2json/parser/handlers/equation.py        | 25 +++++++++-
 latex2json/parser/tex_parser.py               |  5 ++
 latex2json/parser/tex_preprocessor.py         |  5 ++
 4 files changed, 84 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/command_manager.py b/latex2json/parser/handlers/command_manager.py
index 11d83fc..eaabe2d 100644
--- a/latex2json/parser/handlers/command_manager.py
+++ b/latex2json/parser/handlers/command_manager.py
@@ -5,8 +5,10 @@ import re
 from latex2json.parser.handlers.base import TokenHandler
 from latex2json.parser.patterns import WHITELISTED_COMMANDS
 from latex2json.parser.handlers.command_processor import CommandProcessor
+from latex2json.parser.handlers.equation import get_formula_end_pattern
 from latex2json.parser.handlers.new_definition import NewDefinitionHandler
 from latex2json.parser.packages.keyval import KeyValHandler
+from latex2json.utils.tex_utils import is_escaped, join_tex
 
 
 class CommandManager(TokenHandler):
@@ -89,6 +91,54 @@ class CommandManager(TokenHandler):
                     pending.append(definition)
         return False
 
+    def expand_formula_end(self, content: str, pos: int) -> Optional[str]:
+        r"""If a formula begins at pos, and a macro ends it, e.g. \ee: the content with
+        that macro expanded, otherwise None"""
+        end_pattern = get_formula_end_pattern(content, pos)
+        if not end_pattern:
+            return None
+        ends = {}
+        found = True
+        while found:
+            # macros which stand for the end, or for other such macros
+            found = False
+            for name, command in self.commands.items():
+                definition = command.get("definition")
+                if name in ends or not definition:
+                    continue
+                if end_pattern.search(definition) or any(
+                    self._mentions(definition, other, end["pattern"])
+                    for other, end in ends.items()
+                ):
+                    ends[name] = command
+                    found = True
+        if not ends:
+            return None
+
+        expanded = None
+        start = pos + 1
+        for _ in range(100):
+            end = end_pattern.search(content, start)
+            limit = end.start() if end else len(content)
+            matches = [
+                (match, command)
+                for command in ends.values()
+                for match in command["pattern"].finditer(content, start, limit)
+                if not is_escaped(match.start(), content)
+            ]
+            if not matches:
+                return expanded if end else None
+            match, command = min(matches, key=lambda found: found[0].start())
+            text, end_pos = command["handler"](
+                command["pattern"].match(content[match.start() :]),
+                content[match.start() :],
+            )
+            start = match.start()
+            content = expanded = join_tex(
+                content[:start], text, content[start + end_pos :]
+            )
+        return None
+
     def register_command(self, token: Dict) -> None:
         """Register commands based on their type"""
         if not token or "name" not in token:
diff --git a/latex2json/parser/handlers/equation.py b/latex2json/parser/handlers/equation.py
index 7c24e23..6d16e5e 100644
--- a/latex2json/parser/handlers/equation.py
+++ b/latex2json/parser/handlers/equation.py
@@ -69,6 +69,25 @@ PATTERNS = OrderedDict(
 )
 PATTERNS.update(RAW_PATTERNS)
 
+FORMULA_BEGIN_PATTERN = re.compile(
+    r"\\begin\s*\{(%s)\*?\}|(\$\$|\\\[|\\\()" % "|".join(sorted({*EQUATION_ENV, "displaymath", "math"}))
+)
+FORMULA_ENDS = {
+    "$$": re.compile(r"\$\$"),
+    "\\[": re.compile(r"\\\]"),
+    "\\(": re.compile(r"\\\)"),
+    **{
+        name: re.compile(r"\\end\s*\{%s\*?\}" % name)
+        for name in (*EQUATION_ENV, "displaymath", "math")
+    },
+}
+
+
+def get_formula_end_pattern(content: str, pos: int) -> Optional[re.Pattern]:
+    """What ends the formula that begins here, if one does"""
+    match = FORMULA_BEGIN_PATTERN.match(content, pos)
+    return FORMULA_ENDS[match.group(1) or match.group(2)] if match else None
+
 
 class EquationHandler(TokenHandler):
     should_extract_content_placeholders = True
@@ -133,7 +152,11 @@ class EquationHandler(TokenHandler):
         content, _ = extract_nested_content(equation[match.end() - 1 :])
         if match.group(1) == "h" and "$" not in (content or ""):
             return False
-        return not re.fullmatch(r"\s*\$[^$]*\$\s*", content or "")
+        # the box around a formula can go, but for line breaks, which would go as well
+        return (
+            not re.fullmatch(r"\s*\$[^$]*\$\s*", content or "")
+            or r"\\" in content
+        )
 
     def _handle_labels(self, equation: str) -> Tuple[str, list[str]]:
         """Extract and remove labels from equation."""
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index e5a5729..2e8599b 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -834,6 +834,11 @@ class LatexParser:
                     )
                     continue
 
+            # a macro may end the formula
+            content = (
+                self.command_manager.expand_formula_end(content, current_pos) or content
+            )
+
             # try each handler
             matched, end_pos = self._check_handlers(
                 content[current_pos:], tokens, add_space, escape_text=keep_latex
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 5e56e75..e9a6a2c 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -326,6 +326,11 @@ class LatexPreprocessor:
                 )
                 continue
 
+            # a macro may end the formula
+            content = (
+                self.command_manager.expand_formula_end(content, current_pos) or content
+            )
+
             # check math mode to ignore expansion of math mode commands
             if self.equation_handler.can_handle(content[current_pos:]):
                 token, end_pos = self.equation_handler.handle(content[current_pos:])
-- 
2.43.0


From 6f6f704788bf3d6327aed9b0432840e7c7107a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:51 +0000
Subject: [PATCH 082/102] fix: options of boxes and minipages, parts of figures
 without caption

---
 latex2json/parser/handlers/environment.py     |  2 +-
 latex2json/parser/handlers/text_formatting.py | 29 +++++++++----------
 latex2json/parser/packages/boxes.py           |  4 +--
 latex2json/utils/tex_utils.py                 |  5 ++--
 4 files changed, 19 insertions(+), 21 deletions(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index 2a37875..c2507dd 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -96,7 +96,7 @@ ENV_TYPES = {
 # Add to your environment configurations
 ENV_ARGS = {
     "thebibliography": {"mandatory": 1},  # Expects 1 mandatory argument
-    "minipage": {"mandatory": 1},  # Expects 1 mandatory argument
+    "minipage": {"optional": 3, "mandatory": 1},  # [pos][height][inner-pos]{width}
     "list": {"mandatory": 2},  # usually used as \list{label}{spacing}
     "adjustwidth": {"mandatory": 2},  # usually used as \adjustwidth{left}{right}
     "spacing": {"mandatory": 1},  # usually used as \spacing{1em}
diff --git a/latex2json/parser/handlers/text_formatting.py b/latex2json/parser/handlers/text_formatting.py
index 2d57bec..6c69d0d 100644
--- a/latex2json/parser/handlers/text_formatting.py
+++ b/latex2json/parser/handlers/text_formatting.py
@@ -66,7 +66,7 @@ PATTERNS = {
     "texorpdfstring": re.compile(r"\\texorpdfstring\s*\{", re.DOTALL),
     "color": re.compile(r"\\textcolor\s*(\[\w+\])?\s*{"),
     "columns": re.compile(r"\\(?:onecolumn(?![a-zA-Z])|twocolumn(?![a-zA-Z])\s*\[?)"),
-    "subfloat": re.compile(r"\\subfloat\s*\["),
+    "subfloat": re.compile(r"\\(?:subfloat|subfigure|subtable)\s*[\[{]"),
     "roman_numerals": re.compile(r"\\romannumeral\s+(\d+)"),
 }
 
@@ -259,23 +259,22 @@ class TextFormattingHandler(TokenHandler):
         return None, total_pos
 
     def _handle_subfloat(self, content: str, match: re.Match) -> Tuple[str, int]:
-        start_pos = match.end() - 1
-        caption, end_pos = extract_nested_content(content[start_pos:], "[", "]")
-        caption = caption.strip()
-
-        total_pos = start_pos + end_pos
+        total_pos = match.end() - 1
+        # [entry in the list of figures][caption]
+        options, end_pos = extract_nested_content_sequence_blocks(
+            content[total_pos:], "[", "]", 2
+        )
+        total_pos += end_pos
         block, end_pos = extract_nested_content(content[total_pos:])
-        if block:
+        if block is not None:
             total_pos += end_pos
 
-        caption = self._process_content(caption)
-        if not isinstance(caption, list):
-            caption = [caption]
-        caption_token = {
-            "type": "caption",
-            "content": caption,
-        }
-        out_tokens = [caption_token]
+        out_tokens = []
+        if options:
+            caption = self._process_content(options[-1].strip())
+            if not isinstance(caption, list):
+                caption = [caption]
+            out_tokens.append({"type": "caption", "content": caption})
         if block:
             block = self._process_content(block)
             if not isinstance(block, list):
diff --git a/latex2json/parser/packages/boxes.py b/latex2json/parser/packages/boxes.py
index c112de9..40fd954 100644
--- a/latex2json/parser/packages/boxes.py
+++ b/latex2json/parser/packages/boxes.py
@@ -20,12 +20,12 @@ BOX_DELIMITERS = {
     "raisebox": "{[[{",  # \raisebox{distance}[extend-above][extend-below]{text}
     "colorbox": "{{",  # \colorbox{color}{text}
     "fcolorbox": "{{{",  # \fcolorbox{border}{bg}{text}
-    "scalebox": "{{",  # \scalebox{scale}{text}
+    "scalebox": "{[{",  # \scalebox{scale}[vertical scale]{text}
     "mbox": "{",  # \mbox{text}
     r"hbox\s+to\s*[^{]+": "{",  # \hbox to \hsize{text}
     "pbox": "{{",  # \pbox{x}{text}
     "resizebox": "{{{",  # \resizebox{width}{height}{text}
-    "rotatebox": "{{",  # \rotatebox{angle}{text}
+    "rotatebox": "[{{",  # \rotatebox[origin]{angle}{text}
     "adjustbox": "{{",  # \adjustbox{max width=\textwidth}{text}
 }
 
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 04f1b6b..c59f8a2 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -502,11 +502,10 @@ def extract_args(content: str, req_args=0, opt_args=0):
 
     req = []
     if req_args > 0:
-        req, end_pos = extract_nested_content_sequence_blocks(
+        req, req_end_pos = extract_nested_content_sequence_blocks(
             content, "{", "}", max_blocks=req_args
         )
-        if end_pos > 0:
-            content = content[end_pos:]
+        end_pos += req_end_pos
 
     return {"req": req, "opt": opt}, end_pos
 
-- 
2.43.0


From 38e62ccb305ccd4f92602a92d1d733a9d2ea29f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:51 +0000
Subject: [PATCH 083/102] fix: diagrams are kept as written

---
 latex2json/parser/tex_preprocessor.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index e9a6a2c..a79acee 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -21,6 +21,7 @@ from latex2json.parser.handlers import (
     EquationHandler,
 )
 from latex2json.utils.tex_utils import (
+    find_matching_env_block,
     check_string_has_hash_number,
     is_escaped,
     join_tex,
@@ -40,11 +41,10 @@ ALL_VERBATIM_PATTERNS.append(
 ALL_VERBATIM_PATTERNS.append(
     re.compile(r"\\begin\s*\{algorithmic\}(.*?)\\end\s*\{algorithmic\}", re.DOTALL)
 )
-ALL_VERBATIM_PATTERNS.append(
-    re.compile(
-        r"\\begin\s*\{(picture|tikzpicture|pgfpicture)\}(.*?)\\end\s*\{\1\}", re.DOTALL
-    )
+PICTURE_PATTERN = re.compile(
+    r"\\begin\s*\{(picture|tikzpicture|pgfpicture)\}(.*?)\\end\s*\{\1\}", re.DOTALL
 )
+ALL_VERBATIM_PATTERNS.append(PICTURE_PATTERN)
 
 INPUT_PATTERN = re.compile(r"\\(?:input|include)\s*\{([^{}]*)\}")
 
@@ -332,8 +332,15 @@ class LatexPreprocessor:
             )
 
             # check math mode to ignore expansion of math mode commands
-            if self.equation_handler.can_handle(content[current_pos:]):
-                token, end_pos = self.equation_handler.handle(content[current_pos:])
+            # (pictures are kept as they are, too)
+            picture = PICTURE_PATTERN.match(content, current_pos)
+            if picture or self.equation_handler.can_handle(content[current_pos:]):
+                if picture:
+                    _, end_pos, _ = find_matching_env_block(
+                        content[current_pos:], picture.group(1)
+                    )
+                else:
+                    _, end_pos = self.equation_handler.handle(content[current_pos:])
                 if end_pos > 0:
                     match = read_input and INPUT_PATTERN.search(
                         content, current_pos, current_pos + end_pos
-- 
2.43.0


From 3b5ab694087c5084bd2e21f89083e310b1d24e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:51 +0000
Subject: [PATCH 084/102] fix: empty algorithms, tables without columns,
 captions in formulas

---
 latex2json/parser/handlers/tabular.py   | 189 ++++++++++++------------
 latex2json/structure/token_factory.py   |  12 +-
 latex2json/structure/tokens/base.py     |  12 +-
 latex2json/structure/tokens/equation.py |   4 +-
 latex2json/structure/tokens/tabular.py  |  10 +-
 5 files changed, 123 insertions(+), 104 deletions(-)

diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index 7685775..d1e468d 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -384,107 +384,108 @@ class TabularHandler(BaseEnvironmentHandler):
 
             # Get the table content after the column spec
             inner_content = inner_content[end_pos:]
-            inner_content = ROW_END_PATTERN.sub(r"\\\\ ", inner_content)
 
-            # First extract table structures
-            inner_content, table_structures = extract_table_structures(inner_content)
+        inner_content = ROW_END_PATTERN.sub(r"\\\\ ", inner_content)
 
-            # Process content with structures extracted
-            processed_content = (
-                self.process_content_fn(inner_content)
-                if self.process_content_fn
-                else inner_content
+        # First extract table structures
+        inner_content, table_structures = extract_table_structures(inner_content)
+
+        # Process content with structures extracted
+        processed_content = (
+            self.process_content_fn(inner_content)
+            if self.process_content_fn
+            else inner_content
+        )
+
+        # then flatten it out to text form and pass it to parse_tabular
+        flattened_content, reference_map = flatten_tokens(processed_content)
+
+        # then set back the table structures to the original content
+        # (the later ones may contain the earlier)
+        for ref_key, structure in reversed(table_structures.items()):
+            flattened_content = flattened_content.replace(
+                ref_key, structure["content"]
             )
 
-            # then flatten it out to text form and pass it to parse_tabular
-            flattened_content, reference_map = flatten_tokens(processed_content)
-
-            # then set back the table structures to the original content
-            # (the later ones may contain the earlier)
-            for ref_key, structure in reversed(table_structures.items()):
-                flattened_content = flattened_content.replace(
-                    ref_key, structure["content"]
-                )
-
-            def cell_parser_fn(content: str):
-                content = content.strip()
-                cells = []
-                current_pos = 0
-
-                # check if content even has any references
-                has_references = False
-                for ref_key in reference_map:
-                    if ref_key in content:
-                        has_references = True
-                        break
-
-                if not has_references:
-                    cells = self._parse_cell(content)
+        def cell_parser_fn(content: str):
+            content = content.strip()
+            cells = []
+            current_pos = 0
+
+            # check if content even has any references
+            has_references = False
+            for ref_key in reference_map:
+                if ref_key in content:
+                    has_references = True
+                    break
+
+            if not has_references:
+                cells = self._parse_cell(content)
+            else:
+                if self.cell_parser_fn:
+                    cells = self.cell_parser_fn(content)
                 else:
-                    if self.cell_parser_fn:
-                        cells = self.cell_parser_fn(content)
+                    cells = [{"type": "text", "content": content}]
+
+                out_cells = []
+                for cell in cells:
+                    if isinstance(cell, dict) and cell.get("type") == "text":
+                        # fetch the references in text content and replace it with the reference content token(s) chunks
+                        # e.g. {type: "text", content: "hello `|REF_1|` world `|REF_2|`", styles: ["bold"]}
+                        # becomes {type: "text", content: "hello "}, REF_1 token, {type: "text", content: " world "}, REF_2 token
+                        # and all these token chunks maintain the same styles as original
+                        content = cell["content"]
+                        styles = cell.get("styles", [])
+                        chunks: List[Dict] = []
+                        current_pos = 0
+
+                        for ref_key in reference_map:
+                            # only one occurence of each reference key and in order
+                            if ref_key in content[current_pos:]:
+                                # Find next reference position
+                                ref_pos = content.find(ref_key, current_pos)
+
+                                # Add text before reference if any
+                                if ref_pos > current_pos:
+                                    text_chunk = {
+                                        "type": "text",
+                                        "content": content[current_pos:ref_pos],
+                                    }
+                                    chunks.append(text_chunk)
+
+                                # Add reference token
+                                ref_token = reference_map[ref_key].copy()
+                                chunks.append(ref_token)
+
+                                current_pos = ref_pos + len(ref_key)
+
+                        # Add remaining text if any
+                        if current_pos < len(content):
+                            text_chunk = {
+                                "type": "text",
+                                "content": content[current_pos:],
+                            }
+                            chunks.append(text_chunk)
+
+                        # now add style if exists
+                        if styles:
+                            for chunk in chunks:
+                                cur_styles = chunk.get("styles", [])
+                                # Preserve order while removing duplicates
+                                chunk["styles"] = list(
+                                    dict.fromkeys(styles + cur_styles)
+                                )
+                        out_cells.extend(chunks)
                     else:
-                        cells = [{"type": "text", "content": content}]
-
-                    out_cells = []
-                    for cell in cells:
-                        if isinstance(cell, dict) and cell.get("type") == "text":
-                            # fetch the references in text content and replace it with the reference content token(s) chunks
-                            # e.g. {type: "text", content: "hello `|REF_1|` world `|REF_2|`", styles: ["bold"]}
-                            # becomes {type: "text", content: "hello "}, REF_1 token, {type: "text", content: " world "}, REF_2 token
-                            # and all these token chunks maintain the same styles as original
-                            content = cell["content"]
-                            styles = cell.get("styles", [])
-                            chunks: List[Dict] = []
-                            current_pos = 0
-
-                            for ref_key in reference_map:
-                                # only one occurence of each reference key and in order
-                                if ref_key in content[current_pos:]:
-                                    # Find next reference position
-                                    ref_pos = content.find(ref_key, current_pos)
-
-                                    # Add text before reference if any
-                                    if ref_pos > current_pos:
-                                        text_chunk = {
-                                            "type": "text",
-                                            "content": content[current_pos:ref_pos],
-                                        }
-                                        chunks.append(text_chunk)
-
-                                    # Add reference token
-                                    ref_token = reference_map[ref_key].copy()
-                                    chunks.append(ref_token)
-
-                                    current_pos = ref_pos + len(ref_key)
-
-                            # Add remaining text if any
-                            if current_pos < len(content):
-                                text_chunk = {
-                                    "type": "text",
-                                    "content": content[current_pos:],
-                                }
-                                chunks.append(text_chunk)
-
-                            # now add style if exists
-                            if styles:
-                                for chunk in chunks:
-                                    cur_styles = chunk.get("styles", [])
-                                    # Preserve order while removing duplicates
-                                    chunk["styles"] = list(
-                                        dict.fromkeys(styles + cur_styles)
-                                    )
-                            out_cells.extend(chunks)
-                        else:
-                            out_cells.append(cell)
-                    cells = out_cells
-
-                if cells:
-                    return cells
-                return None
+                        out_cells.append(cell)
+                cells = out_cells
+
+            if cells:
+                return cells
+            return None
 
-            result = parse_tabular(flattened_content, cell_parser_fn)
-            token["content"] = result
+        result = parse_tabular(flattened_content, cell_parser_fn)
+        token["content"] = result
 
         return token, total_pos
 
diff --git a/latex2json/structure/token_factory.py b/latex2json/structure/token_factory.py
index 677e85a..365b1f7 100644
--- a/latex2json/structure/token_factory.py
+++ b/latex2json/structure/token_factory.py
@@ -1,5 +1,5 @@
 import logging
-from typing import Dict, List, Type, Any, Callable, Union
+from typing import Dict, List, Type, Any, Callable, Union, get_args
 from latex2json.structure.tokens.bibliography import BibliographyToken
 from latex2json.structure.tokens.equation import EquationToken
 from latex2json.structure.tokens.types import TokenType
@@ -95,8 +95,18 @@ class TokenFactory:
             data = {**data, "title": self._process_content(data["title"])}
 
         token_class = self._token_map.get(token_type, BaseToken)
+        if isinstance(data.get("content"), str) and not self._takes_text(token_class):
+            # e.g. nothing in it, or a caption within an equation
+            text = data["content"]
+            tokens = [self.create({"type": "text", "content": text})] if text else []
+            data = {**data, "content": tokens}
         return token_class.model_validate(data)
 
+    @staticmethod
+    def _takes_text(token_class: Type[BaseToken]) -> bool:
+        annotation = token_class.model_fields["content"].annotation
+        return annotation is str or str in get_args(annotation)
+
     def _process_content(self, content: Union[Dict, List, str]) -> Any:
         """Helper method to process nested content recursively"""
         if isinstance(content, dict) and "type" in content:
diff --git a/latex2json/structure/tokens/base.py b/latex2json/structure/tokens/base.py
index 44a4ac9..1f7f87b 100644
--- a/latex2json/structure/tokens/base.py
+++ b/latex2json/structure/tokens/base.py
@@ -73,16 +73,18 @@ class MathEnvToken(BaseToken):
         cls, data: Dict[str, Any], create_token: TokenCreator
     ) -> "MathEnvToken":
         """Process math environment data, filtering for MathEnvTokens only"""
+
+        def create_tokens(items):
+            tokens = [create_token(item) for item in items]
+            return [token for token in tokens if token is not None]
+
         content = []
         title = None
         proof = None
         if "content" in data:
-            for item in data["content"]:
-                content.append(create_token(item))
+            content = create_tokens(data["content"])
         if "title" in data:
-            title = []
-            for item in data["title"]:
-                title.append(create_token(item))
+            title = create_tokens(data["title"])
         if "proof" in data:
             proof = create_token(data["proof"])
 
diff --git a/latex2json/structure/tokens/equation.py b/latex2json/structure/tokens/equation.py
index 8a76244..8481935 100644
--- a/latex2json/structure/tokens/equation.py
+++ b/latex2json/structure/tokens/equation.py
@@ -35,7 +35,9 @@ class EquationToken(BaseToken):
             for k, v in data["placeholders"].items():
                 out = []
                 for item in v:
-                    out.append(create_token(item))
+                    token = create_token(item)
+                    if token is not None:
+                        out.append(token)
                 placeholder_dict[k] = out
 
         return cls(
diff --git a/latex2json/structure/tokens/tabular.py b/latex2json/structure/tokens/tabular.py
index 7efa486..d29c02b 100644
--- a/latex2json/structure/tokens/tabular.py
+++ b/latex2json/structure/tokens/tabular.py
@@ -65,7 +65,7 @@ class TabularToken(BaseToken):
         cls, data: Dict[str, Any], create_token: TokenCreator
     ) -> "TabularToken":
         """Process tabular data recursively"""
-        content: List[List[Union[str, dict, List]]] = data["content"]
+        content: List[List[Union[str, dict, List]]] = data.get("content") or []
         all_cells: TabularContentType = []
         for row in content:
             row_cells: TabularRowType = []
@@ -88,7 +88,9 @@ class TabularToken(BaseToken):
                         )
                         row_cells.append(c)
                 elif isinstance(cell, list):
-                    row_cells.append(cls._process_nested_list(cell, create_token))
+                    row_cells.append(
+                        cls._process_nested_list(cell, create_token) or None
+                    )
                 else:
                     row_cells.append(cell)
             all_cells.append(row_cells)
@@ -104,7 +106,9 @@ class TabularToken(BaseToken):
         processed_list = []
         for item in nested_list:
             if isinstance(item, dict) and "type" in item:
-                processed_list.append(create_token(item))
+                token = create_token(item)
+                if token is not None:
+                    processed_list.append(token)
             elif isinstance(item, list):
                 processed_list.append(cls._process_nested_list(item, create_token))
             else:
-- 
2.43.0


From a963233c4b9a04543053d32fa00f6bc8a1f5efbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:18 +0000
Subject: [PATCH 085/102] fix: arguments left open, headings in formulas,
 orphan items

---
 latex2json/parser/handlers/environment.py     |  2 +-
 latex2json/parser/handlers/formatting.py      |  3 +++
 .../parser/handlers/if_else_statements.py     |  2 +-
 latex2json/structure/token_factory.py         | 19 ++++++++++++-------
 4 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index c2507dd..330869e 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -182,7 +182,7 @@ def find_pattern_while_skipping_nested_envs(
         inner_token, inner_length = BaseEnvironmentHandler.try_handle(
             content[start_pos + start_env :]
         )
-        if not inner_token:
+        if inner_length <= 0:
             return end_pos
 
         start_pos += start_env + inner_length
diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 4b2380d..489d995 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -422,6 +422,9 @@ class FormattingHandler(TokenHandler):
                     extracted_content, end_pos = extract_nested_content(
                         content[start_pos:]
                     )
+                    if extracted_content is None:
+                        # the brace is never closed
+                        return None, start_pos
                     return {
                         "type": "equation",
                         "content": extracted_content,
diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index 4c84a34..14ae105 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -191,7 +191,7 @@ def try_handle_ifthenelse(
         )
         if len(blocks) != 3:
             # arguments are missing
-            return None, match.end()
+            return None, start_pos
         return {
             "type": "conditional-ifthenelse",
             "condition": blocks[0],
diff --git a/latex2json/structure/token_factory.py b/latex2json/structure/token_factory.py
index 365b1f7..c981a7c 100644
--- a/latex2json/structure/token_factory.py
+++ b/latex2json/structure/token_factory.py
@@ -95,16 +95,21 @@ class TokenFactory:
             data = {**data, "title": self._process_content(data["title"])}
 
         token_class = self._token_map.get(token_type, BaseToken)
-        if isinstance(data.get("content"), str) and not self._takes_text(token_class):
-            # e.g. nothing in it, or a caption within an equation
-            text = data["content"]
-            tokens = [self.create({"type": "text", "content": text})] if text else []
-            data = {**data, "content": tokens}
+        for key in ("content", "title"):
+            text = data.get(key)
+            if isinstance(text, str) and not self._takes_text(token_class, key):
+                # e.g. nothing in it, or a caption within an equation
+                tokens = (
+                    [self.create({"type": "text", "content": text})] if text else []
+                )
+                data = {**data, key: tokens}
         return token_class.model_validate(data)
 
     @staticmethod
-    def _takes_text(token_class: Type[BaseToken]) -> bool:
-        annotation = token_class.model_fields["content"].annotation
+    def _takes_text(token_class: Type[BaseToken], key: str) -> bool:
+        if key not in token_class.model_fields:
+            return True
+        annotation = token_class.model_fields[key].annotation
         return annotation is str or str in get_args(annotation)
 
     def _process_content(self, content: Union[Dict, List, str]) -> Any:
-- 
2.43.0


From e489a354c71c724c8b2c824c360e7a99e00e3180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:02 +0000
Subject: [PATCH 086/102] fix: a line break before the word and separates no
 authors, keywords are parsed

---
 latex2json/parser/handlers/author.py | 22 +++++++++++++++++-----
 latex2json/parser/tex_parser.py      |  2 +-
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/latex2json/parser/handlers/author.py b/latex2json/parser/handlers/author.py
index ccc2694..6e4f174 100644
--- a/latex2json/parser/handlers/author.py
+++ b/latex2json/parser/handlers/author.py
@@ -4,7 +4,10 @@ import re
 from latex2json.parser.handlers.base import TokenHandler
 from latex2json.utils.tex_utils import extract_nested_content
 
-AND_PATTERN = re.compile(r"\\and(?![a-zA-Z])", re.IGNORECASE)
+# (a line break before the word "and" separates nothing)
+AND_PATTERN = re.compile(
+    r"(?<!\\)((?:\\\\)*)\\and(?![a-zA-Z])", re.IGNORECASE
+)
 BACKSLASH_PATTERN = re.compile(r"\\\\")
 
 compile_as = re.DOTALL | re.IGNORECASE
@@ -12,11 +15,11 @@ compile_as = re.DOTALL | re.IGNORECASE
 PATTERNS = {
     "author": re.compile(r"\\author(?:\s*\[(.*?)\])?\s*{", compile_as),
     # "correspondingauthor": re.compile(r"\\correspondingauthor\s*{", compile_as),
-    "email": re.compile(r"\\email\s*{", compile_as),
+    "email": re.compile(r"\\email(?:\s*\[(.*?)\])?\s*{", compile_as),
     "affiliation": re.compile(
         r"\\(?:affil|affiliation)(?:\s*\[(.*?)\])?\s*{", compile_as
     ),
-    "address": re.compile(r"\\address\s*{", compile_as),
+    "address": re.compile(r"\\address(?:\s*\[(.*?)\])?\s*{", compile_as),
     "curraddr": re.compile(r"\\curraddr(?:\{\}|\b)"),
     # \thanks usually found inside author block
     "thanks": re.compile(r"\\thanks\s*{", compile_as),
@@ -39,7 +42,7 @@ class AuthorHandler(TokenHandler):
     def _parse_author_content(self, content: str) -> Tuple[List[str], int]:
         authors = []
         # First split by \and
-        and_parts = AND_PATTERN.split(content)
+        and_parts = AND_PATTERN.sub(r"\1\0", content).split("\0")
 
         # Then process each part for possible \\ separators
         for part in and_parts:
@@ -58,11 +61,20 @@ class AuthorHandler(TokenHandler):
             parsed_tokens = []
             for token in tokens:
                 processed = self.process_content_fn(token)
-                if processed:
+                # (nothing but line breaks is no author)
+                if any(not self._is_blank(t) for t in processed):
                     parsed_tokens.append(processed)
             tokens = parsed_tokens
         return tokens
 
+    @staticmethod
+    def _is_blank(token: Dict | str) -> bool:
+        if isinstance(token, dict):
+            if token["type"] != "text":
+                return False
+            token = token["content"]
+        return isinstance(token, str) and not token.strip()
+
     def handle(
         self, content: str, prev_token: Optional[Dict] = None
     ) -> Tuple[Optional[Dict], int]:
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 2e8599b..dd6ce05 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -469,7 +469,7 @@ class LatexParser:
             elif token["type"] == "citation":
                 if "title" in token:
                     token["title"] = self.parse(token["title"])
-            elif token["type"] == "title":
+            elif token["type"] in ["title", "keywords"]:
                 token["content"] = self.parse(token["content"])
             elif token["type"] in ["section", "paragraph"]:
                 self.current_env = token
-- 
2.43.0


From f43bd03f257260cb697241906602024dc72451d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:02 +0000
Subject: [PATCH 087/102] fix: the preamble ends at the document, not inside a
 definition or a comment

---
 latex2json/parser/tex_preamble.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/latex2json/parser/tex_preamble.py b/latex2json/parser/tex_preamble.py
index 930d73a..e1b10ad 100644
--- a/latex2json/parser/tex_preamble.py
+++ b/latex2json/parser/tex_preamble.py
@@ -24,6 +24,13 @@ USE_PATTERN = re.compile(
     + r"\\use[a-zA-Z]+\s*%s\s*%s" % (OPTIONAL_BRACE_PATTERN, BRACE_CONTENT_PATTERN),
     re.DOTALL,
 )
+# where the preamble ends, and what is to be skipped when looking for that
+STOP_PATTERN = re.compile(
+    r"(?P<begin>%s)" % BEGIN_DOCUMENT_PATTERN.pattern
+    + r"|(?P<comment>\\begin\s*\{comment\}.*?\\end\s*\{comment\})"
+    + r"|\\[a-zA-Z@]+",
+    re.DOTALL,
+)
 DELIM_PATTERN = re.compile(r"\\(?=[a-zA-Z@])[a-zA-Z@]+")
 
 # Add these patterns near the top with other patterns
@@ -43,11 +50,23 @@ class LatexPreamble:
     def _preprocess_content(self, content: str) -> str:
         content = strip_latex_comments(content)
 
-        # get all content before begin document
-        begin_doc_search = re.search(BEGIN_DOCUMENT_PATTERN, content)
-        if begin_doc_search:
-            content = content[: begin_doc_search.start()]
-        return content.strip()
+        # get all content before begin document, without comment environments
+        parts = []
+        start = current_pos = 0
+        while match := STOP_PATTERN.search(content, current_pos):
+            current_pos = match.end()
+            if match.group("begin"):
+                return ("".join(parts) + content[start : match.start()]).strip()
+            elif match.group("comment"):
+                parts.append(content[start : match.start()])
+                start = current_pos
+            else:
+                # a definition may have \begin{document} in it
+                rest = content[match.start() :]
+                if self.new_definition_handler.can_handle(rest):
+                    _, end_pos = self.new_definition_handler.handle(rest)
+                    current_pos = max(current_pos, match.start() + end_pos)
+        return ("".join(parts) + content[start:]).strip()
 
     def get_preamble(
         self, content: str, file_dir: str = None
-- 
2.43.0


From cc19958480ab96a08025c79f07054e6b7929f631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:02 +0000
Subject: [PATCH 088/102] fix: a name given by let ends before the equals sign

---
 latex2json/parser/handlers/new_definition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index e396072..0308ea0 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -27,7 +27,7 @@ DEF_COMMAND_PATTERN = re.compile(
 # a single control sequence: a word (maybe csname-built, e.g. \foo#1) or one character
 LET_TARGET_PATTERN = r"\\(?:[a-zA-Z@]+[\d#:]*|[\d#]+|.)"
 LET_COMMAND_PATTERN = re.compile(
-    r"%s([^\s{\\]+)\s*(=\s*(?:%s|[^\s{}\\]+)|%s)"
+    r"%s([^\s{\\=]+|=)\s*(=\s*(?:%s|[^\s{}\\]+)|%s)"
     % (LET_COMMAND_PREFIX, LET_TARGET_PATTERN, LET_TARGET_PATTERN),
     re.DOTALL,
 )
-- 
2.43.0


From e65520bffc0673977640c78965f0fabe03150e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:11 +0000
Subject: [PATCH 089/102] fix: blanks before the star, options and arguments of
 commands are skipped

---
 latex2json/parser/handlers/content_command.py | 30 +++++++++++--------
 latex2json/parser/handlers/environment.py     |  2 +-
 latex2json/parser/handlers/formatting.py      | 28 ++++++++---------
 latex2json/parser/handlers/new_definition.py  | 23 +++++++-------
 latex2json/parser/packages/titlesec.py        |  2 +-
 latex2json/parser/tex_parser.py               |  2 +-
 6 files changed, 46 insertions(+), 41 deletions(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index 1e82f58..e27ecbb 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -24,21 +24,21 @@ RAW_PATTERNS = OrderedDict(
     [
         # 1. Commands that need nested brace handling (simplified patterns)
         ("abstract", r"\\abstract\s*{"),
-        ("section", r"\\(?:(?:sub)*section\*?)\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
-        ("part", r"\\part\*?\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
-        ("chapter", r"\\chapter\*?\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
+        ("section", r"\\(?:(?:sub)*section)\s*\*?\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
+        ("part", r"\\part\s*\*?\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
+        ("chapter", r"\\chapter\s*\*?\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         (
             "paragraph",
-            r"\\(?:(?:sub)*paragraph\*?)\s*%s\s*{" % OPTIONAL_BRACE_PATTERN,
+            r"\\(?:(?:sub)*paragraph)\s*\*?\s*%s\s*{" % OPTIONAL_BRACE_PATTERN,
         ),
-        ("footnote", r"\\footnote\*?%s\s*{" % OPTIONAL_BRACE_PATTERN),
-        ("caption", r"\\(caption|subcaption)\*?\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
-        ("captionof", r"\\captionof\*?\s*{([^}]*?)}\s*{"),
+        ("footnote", r"\\footnote\s*\*?\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
+        ("caption", r"\\(caption|subcaption)\s*\*?\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
+        ("captionof", r"\\captionof\s*\*?\s*{([^}]*?)}\s*{"),
         # input
         ("input_file", r"\\(?:input|include)\s*{"),
         # REFs
-        ("ref", r"\\(?:auto|eq|page)?ref\*?\s*{"),
-        ("cref", r"\\[cC]ref\*?\s*{"),
+        ("ref", r"\\(?:auto|eq|page)?ref\s*\*?\s*{"),
+        ("cref", r"\\[cC]ref\s*\*?\s*{"),
         ("hyperref", r"\\hyperref\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         ("href", r"\\href\s*{([^}]*)}\s*{"),
         # bookmarks
@@ -49,8 +49,11 @@ RAW_PATTERNS = OrderedDict(
             % OPTIONAL_BRACE_PATTERN,
         ),
         # footnotes
-        ("footnotemark", r"\\footnotemark(?![a-zA-Z])%s" % OPTIONAL_BRACE_PATTERN),
-        ("footnotetext", r"\\footnotetext%s\s*{" % OPTIONAL_BRACE_PATTERN),
+        (
+            "footnotemark",
+            r"\\footnotemark(?![a-zA-Z])(?:\s*(?=\[)%s)?" % OPTIONAL_BRACE_PATTERN,
+        ),
+        ("footnotetext", r"\\footnotetext\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         # URLs
         ("url", r"\\(?:url|path)\s*{"),
         ("doi", r"\\doi\s*{"),
@@ -61,7 +64,7 @@ RAW_PATTERNS = OrderedDict(
         # Citations
         (
             "citation",
-            r"\\(?:cite|citep|citet|cites|citealt|citealp|citeauthor|citenum|citeyear|citeyearpar|citefullauthor)\*?\s*%s%s\s*{"
+            r"\\(?:cite|citep|citet|cites|citealt|citealp|citeauthor|citenum|citeyear|citeyearpar|citefullauthor)\s*\*?\s*%s\s*%s\s*{"
             % (OPTIONAL_BRACE_PATTERN, OPTIONAL_BRACE_PATTERN),
         ),
         # ("citetext", r"\\citetext\s*{"), # remove citetext since it is just like regular latex -> handled by text_formatting
@@ -85,6 +88,7 @@ PATTERNS = OrderedDict(
     for key, pattern in RAW_PATTERNS.items()
 )
 
+STARRED_PATTERN = re.compile(r"\\[a-zA-Z]+\s*\*")
 GENERIC_COMMAND_PATTERN = re.compile(r"\\[a-zA-Z]+\b")
 
 
@@ -157,7 +161,7 @@ class ContentCommandHandler(TokenHandler):
             }
         elif matched_type in ["section", "chapter", "part"]:
             level = command.count("sub") + SECTION_LEVELS[matched_type]
-            numbered = (matched_type + "*") not in command
+            numbered = not STARRED_PATTERN.match(command)
             return {
                 "type": "section",
                 "title": content,
diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index 330869e..725088f 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -26,7 +26,7 @@ ENVIRONMENT_PATTERN = re.compile(
 )
 
 NEW_ENVIRONMENT_PATTERN = re.compile(
-    r"\\(?:new|renew|provide)environment\*?\s*\{([^}]*?)\}",
+    r"\\(?:new|renew|provide)environment\s*\*?\s*\{([^}]*?)\}",
 )
 
 LIST_ENVIRONMENTS = ["itemize", "enumerate", "description"]
diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 489d995..cb703a8 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -19,7 +19,7 @@ import decimal
 COLOR_CELLS_PATTERN = re.compile(
     r"""
     \\(?:
-        (?:row|column|cell)color\*?\s*%s\s*{[^}]*}   # \rowcolor, \columncolor, \cellcolor
+        (?:row|column|cell)color\s*\*?\s*%s\s*{[^}]*}   # \rowcolor, \columncolor, \cellcolor
     )
     """
     % OPTIONAL_BRACE_PATTERN,
@@ -71,7 +71,7 @@ RAW_PATTERNS = OrderedDict(
         ("today", r"\\today(?![a-zA-Z])"),
         ("subjclass", r"\\subjclass\s*%s\s*\{[^}]+\}" % OPTIONAL_BRACE_PATTERN),
         # Formatting commands
-        ("setup", r"\\(?:hypersetup|captionsetup)%s\s*{" % OPTIONAL_BRACE_PATTERN),
+        ("setup", r"\\(?:hypersetup|captionsetup)\s*\*?\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         (
             "make_or_contents",
             r"\\(?:(?:[a-zA-Z@]+)?maketitle|makeatletter|makeatother|tableofcontents|@title)(?![a-zA-Z])",
@@ -83,11 +83,11 @@ RAW_PATTERNS = OrderedDict(
         ("printcontents", r"\\printcontents\s*{"),
         (
             "page",
-            r"\\enlargethispage\s*\{[^}]*\}|\\pagecolor\*?{[^}]*}|\\(?:centering|raggedright|raggedleft|allowdisplaybreaks|samepage|thepage|noindent|par|clearpage|cleardoublepage|hss|hfill|hfil|vfill|vfil|break|sloppy|flushbottom|flushleft|flushright|flushtop)(?![a-zA-Z])",
+            r"\\enlargethispage\s*\{[^}]*\}|\\pagecolor\s*\*?\s*{[^}]*}|\\(?:centering|raggedright|raggedleft|samepage|thepage|noindent|par|clearpage|cleardoublepage|hss|hfill|hfil|vfill|vfil|break|sloppy|flushbottom|flushleft|flushright|flushtop)(?![a-zA-Z])",
         ),
         (
             "pagebreak",
-            r"\\(?:filbreak|newpage|allowbreak|goodbreak|smallbreak|medbreak|bigbreak|break)(?![a-zA-Z])|\\(?:no)?(?:page|line)break(?![a-zA-Z])(?:\s*\[\s*\d+\s*\])?",
+            r"\\(?:filbreak|newpage|allowbreak|goodbreak|smallbreak|medbreak|bigbreak|break)(?![a-zA-Z])|\\(?:(?:no)?(?:page|line)break|allowdisplaybreaks)(?![a-zA-Z])(?:\s*\[\s*\d+\s*\])?",
         ),
         (
             "vskip",
@@ -108,7 +108,7 @@ RAW_PATTERNS = OrderedDict(
             r"\\(?:pagestyle|urlstyle|thispagestyle|theoremstyle|bibliographystyle|documentstyle|setcitestyle)\s*\{[^}]*\}",
         ),
         ("bib", r"\\printbibliography(?![a-zA-Z])"),
-        ("bibmacro", r"\\renewbibmacro\*?\s*%s\s*{" % (BRACE_CONTENT_PATTERN)),
+        ("bibmacro", r"\\renewbibmacro\s*\*?\s*%s\s*{" % (BRACE_CONTENT_PATTERN)),
         ("newstyle", r"\\(?:newpagestyle|renewpagestyle)\s*\{[^}]*\}\s*{"),
         # ("font", r"\\(?:mdseries|bfseries|itshape|slshape|normalfont|ttfamily)\b"),
         # setters
@@ -146,7 +146,7 @@ RAW_PATTERNS = OrderedDict(
             "spacing",
             r"\\(?:"
             r"(?:quad|qquad|xspace|space)(?![a-zA-Z])|,|;|:|\!|"  # \quad, \qquad, \, \; \:
-            r"hspace\*?\s*{([^}]+)}|"  # \hspace{length}
+            r"hspace\s*\*?\s*{([^}]+)}|"  # \hspace{length}
             r"hskip\s*%s" % (GLUE_PATTERN)  # \hskip 10pt plus 1fil
             + r"|linespread\s*\{[^}]*\}"  # Added \linespread{...}
             r")",
@@ -171,7 +171,7 @@ RAW_PATTERNS = OrderedDict(
         (
             "declare",
             re.compile(
-                r"\\(DeclareFontShape|DeclareFontFamily|DeclareOption|DeclareSymbolFont|SetMathAlphabet|DeclareGraphicsExtensions)\*?\s*\{",
+                r"\\(DeclareFontShape|DeclareFontFamily|DeclareOption|DeclareSymbolFont|SetMathAlphabet|DeclareGraphicsExtensions)\s*\*?\s*\{",
                 re.DOTALL,
             ),
         ),
@@ -185,7 +185,7 @@ RAW_PATTERNS = OrderedDict(
             ),
         ),
         # number
-        ("number", r"\\num(?:\[([^\]]*)\])?\s*{([^}]*)}"),
+        ("number", r"\\num\s*(?:\[([^\]]*)\])?\s*{([^}]*)}"),
         (
             "linenumbers",
             re.compile(
@@ -208,17 +208,17 @@ RAW_PATTERNS = OrderedDict(
             r"hline(?![a-zA-Z])|"  # no args
             r"center(?![a-zA-Z])|"  # no args
             r"hrulefill(?![a-zA-Z])|"  # no args
-            r"centerline(?![a-zA-Z])|"  # no args
+            r"centerline(?![a-zA-Z])\s*|"  # no args
             r"cline\s*{([^}]+)}|"  # {n-m}
             + r"(?:topsep|parsep|partopsep|tabcolsep|labelsep)(?![a-zA-Z])(?:\s*=?\s*%s|\s*\{[^}]*\})?|"
             % (GLUE_PATTERN)
-            + r"(?:midrule|toprule|bottomrule)(?![a-zA-Z])%s|"
+            + r"(?:midrule|toprule|bottomrule)(?![a-zA-Z])(?:\s*(?=\[)%s)?|"
             % (OPTIONAL_BRACE_PATTERN)  # optional [trim]
             + r"cmidrule\s*(?:\(([^)]+)\)\s*)?(?:\[([^\]]*)\]\s*)?{([^}]+)}|"  # optional (lr)[trim] and {n-m}
-            r"hdashline(?:\[[\d,\s]*\])?|"  # optional [length,space]
+            r"hdashline(?:\s*\[[\d,\s]*\])?|"  # optional [length,space]
             r"cdashline\s*{([^}]+)}|"  # {n-m}
             r"specialrule\s*{([^}]*)}\s*{([^}]*)}\s*{([^}]*)}|"  # {height}{above}{below}
-            r"addlinespace(?:\[([^\]]*)\])?|"  # optional [length]
+            r"addlinespace(?:\s*\[([^\]]*)\])?|"  # optional [length]
             r"rule\s*(?:\[[^\]]*\]\s*)?{[^}]*}\s*{[^}]*}|"  # \rule[raise]{width}{height}
             r"hrule(?![a-zA-Z])|"
             r"morecmidrules(?![a-zA-Z])|"  # no args
@@ -238,7 +238,7 @@ RAW_PATTERNS = OrderedDict(
         ("protect", r"\\protect\\[a-zA-Z]+(?:\s*(?:\[[^\]]*\]|\{[^}]*\})*)?"),
         (
             "counters",
-            r"\\c@page(?![a-zA-Z])|\\(?:counterwithin|counterwithout)\s*\{[^}]*}\s*\{[^}]*\}|\\refstepcounter{[^}]+}|\\@addtoreset\s*\{[^}]*\}\s*\{[^}]*\}",
+            r"\\c@page(?![a-zA-Z])|\\(?:counterwithin|counterwithout)\s*\{[^}]*}\s*\{[^}]*\}|\\refstepcounter\s*{[^}]+}|\\@addtoreset\s*\{[^}]*\}\s*\{[^}]*\}",
         ),
         ("add_enumerate_counter", r"\\AddEnumerateCounter\s*\{"),
         ("backslash", r"\\(?:backslash|textbackslash|arraybackslash)(?![a-zA-Z])"),
@@ -247,7 +247,7 @@ RAW_PATTERNS = OrderedDict(
         ("stackmath", r"\\stackMath(?![a-zA-Z])"),
         ("hyphenation", r"\\hyphenation\s*{"),
         # Handle vspace separately
-        ("vspace", r"\\vspace\*?\s*{[^}]*}"),
+        ("vspace", r"\\vspace\s*\*?\s*{[^}]*}"),
         ("phantom", r"\\(?:hphantom|vphantom|phantom)\s*{"),
         (
             "raise",
diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 0308ea0..5ab0811 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -14,7 +14,7 @@ from latex2json.utils.tex_utils import (
 
 
 POST_NEW_COMMAND_PATTERN_STR = (
-    r"\*?\s*(?:{%s}|%s)(?:\s*\[(\d+)\])?((?:\s*\[[^]]*\])*)\s*{"
+    r"\s*\*?\s*(?:{%s}|%s)(?:\s*\[(\d+)\])?((?:\s*\[[^]]*\])*)\s*{"
     % (command_pattern, command_pattern)
 )
 
@@ -80,10 +80,10 @@ PATTERNS = {
     "@namedef": re.compile(r"\\@namedef\s*{([^}]*)}"),
     # Matches newtheorem with all its optional arguments
     "newtheorem": re.compile(
-        r"\\newtheorem\*?{([^}]*)}(?:\[([^]]*)\])?{([^}]*)}(?:\[([^]]*)\])?", re.DOTALL
+        r"\\newtheorem\s*(\*)?\s*{([^}]*)}\s*(?:\[([^]]*)\])?\s*{([^}]*)}(?:\s*\[([^]]*)\])?", re.DOTALL
     ),
-    "newtheoremstyle": re.compile(r"\\newtheoremstyle\*?{", re.DOTALL),
-    "crefname": re.compile(r"\\[cC]refname{([^}]*)}{([^}]*)}(?:{([^}]*)})?", re.DOTALL),
+    "newtheoremstyle": re.compile(r"\\newtheoremstyle\s*\*?\s*{", re.DOTALL),
+    "crefname": re.compile(r"\\[cC]refname\s*{([^}]*)}\s*{([^}]*)}(?:\s*{([^}]*)})?", re.DOTALL),
     "newtoks": re.compile(
         r"\\newtoks\s*(%s)" % (command_with_opt_brace_pattern), re.DOTALL
     ),
@@ -111,7 +111,7 @@ PATTERNS = {
         r"\\setcounter\s*%s\s*%s" % (BRACE_CONTENT_PATTERN, BRACE_CONTENT_PATTERN),
         re.DOTALL,
     ),
-    "floatname": re.compile(r"\\floatname{([^}]*)}{([^}]*)}"),
+    "floatname": re.compile(r"\\floatname\s*{([^}]*)}\s*{([^}]*)}"),
     "expandafter": EXPAND_PATTERN,
     "endcsname": END_CSNAME_PATTERN,  # for trailing \endcsname?
     # color/font
@@ -274,6 +274,7 @@ class NewDefinitionHandler(TokenHandler):
     def _parse_varname_from_brace_or_backslash(
         self, var_name: str
     ) -> Tuple[Optional[str], int]:
+        var_name = var_name.strip()
         if var_name.startswith("{"):
             _var_name, _ = extract_nested_content(var_name)
             if _var_name:
@@ -408,17 +409,17 @@ class NewDefinitionHandler(TokenHandler):
 
     def _handle_newtheorem(self, match) -> Tuple[Optional[Dict], int]:
         """Handle \newtheorem definitions"""
-        token = {"type": "newtheorem", "name": match.group(1), "title": match.group(3)}
+        token = {"type": "newtheorem", "name": match.group(2), "title": match.group(4)}
 
         # Handle optional counter specification
-        if match.group(2):
-            token["counter"] = match.group(2)
-        elif match.group(0).startswith(r"\newtheorem*"):
+        if match.group(3):
+            token["counter"] = match.group(3)
+        elif match.group(1):
             token["numbered"] = False
 
         # Handle optional numbering within
-        if match.group(4):
-            token["within"] = match.group(4)
+        if match.group(5):
+            token["within"] = match.group(5)
 
         return token, match.end()
 
diff --git a/latex2json/parser/packages/titlesec.py b/latex2json/parser/packages/titlesec.py
index f4a426c..b8cb24d 100644
--- a/latex2json/parser/packages/titlesec.py
+++ b/latex2json/parser/packages/titlesec.py
@@ -24,7 +24,7 @@ r"""
 
 PATTERNS = {
     "titleformat": re.compile(r"\\titleformat\s*{", re.DOTALL),
-    "titlespacing": re.compile(r"\\titlespacing\*?\s*{", re.DOTALL),
+    "titlespacing": re.compile(r"\\titlespacing\s*\*?\s*{", re.DOTALL),
     "titlelabel": re.compile(r"\\titlelabel\s*{", re.DOTALL),
     "titlecontents": re.compile(r"\\titlecontents\s*{", re.DOTALL),
     "titleline": re.compile(
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index dd6ce05..5b52d7d 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -297,7 +297,7 @@ class LatexParser:
             expanded = self._expand_command(total_content)
 
             if expanded.startswith("\\"):
-                token = {"type": "command", "command": command}
+                token = {"type": "command", "command": command.rstrip()}
                 if expanded.startswith(command):
                     expanded = expanded[len(command) :]
                 # expanded = expanded.strip("{}")
-- 
2.43.0


From 99ffd8b93d71c717441e9939e08bfa9aa90ad7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:31 +0000
Subject: [PATCH 090/102] fix: compiled BibTeX keeps editors, publishers and
 other lists, no sorting data

---
 latex2json/parser/bib/compiled_bibtex.py | 81 ++++++++++++++----------
 1 file changed, 48 insertions(+), 33 deletions(-)

diff --git a/latex2json/parser/bib/compiled_bibtex.py b/latex2json/parser/bib/compiled_bibtex.py
index 579a10b..52a3778 100644
--- a/latex2json/parser/bib/compiled_bibtex.py
+++ b/latex2json/parser/bib/compiled_bibtex.py
@@ -11,9 +11,16 @@ from latex2json.utils.tex_utils import (
 
 PATTERNS_TO_REPLACE = {
     r"\\bibinitperiod\b": ".",
-    r"\\bibrangedash\s*\b": "--",
+    r"\\bibrangedash(?![a-zA-Z])\s*": "--",
+    r"\\bibnamedelim[a-z](?![a-zA-Z])\s*": " ",
 }
 
+# fields that sort and label the entries
+INTERNAL_FIELD_PATTERN = re.compile(
+    r"label(?:alpha|title|(?:name|title|date)source)|sort(?:init|inithash|key|name|title|year)"
+    r"|extra(?:alpha|date|datescope|name|title|titleyear|year)|single\w+|unique\w+"
+)
+
 
 def apply_pattern_replacements(text):
     """
@@ -42,6 +49,29 @@ def extract_initial(given: str) -> str:
     return given[: len(accent) + group_end]
 
 
+def parse_names(name_block: str) -> list[str]:
+    """The names of a block as "prefix family, initial." """
+    names = []
+    # find the hash stuff
+    for hash_match in re.finditer(
+        r"\{[^{}]*\bhash=\w+[^{}]*\}\s*(?=\{)", name_block
+    ):
+        name, _ = extract_nested_content(name_block[hash_match.end() :], "{", "}")
+        if not name:
+            continue
+        # Extract family and given names
+        family = extract_name_part(name, "family")
+        given = extract_name_part(name, "given")
+        prefix = extract_name_part(name, "prefix")
+        if family and prefix:
+            family = f"{prefix} {family}"
+        if family and given:
+            names.append(f"{family}, {extract_initial(given)}.")
+        elif family:
+            names.append(family)
+    return names
+
+
 def parse_compiled_bibtex_entry(entry_text):
     r"""
     Parses a single compiled BibTeX entry into a dictionary.
@@ -66,39 +96,24 @@ def parse_compiled_bibtex_entry(entry_text):
     else:
         raise ValueError("Could not parse entry header")
 
-    # First find the \name{author} block
-    author_pattern = r"\\name\{author\}"
-    author_match = re.search(author_pattern, entry_text)
-    if author_match:
-        start_pos = author_match.end()
-        authors = []
-        # Extract each author block using extract_nested_content_sequence_blocks
-        author_blocks, _ = extract_nested_content_sequence_blocks(
-            entry_text[start_pos:], "{", "}", max_blocks=3
+    # Find the \name{author}, \name{editor} etc blocks
+    for name_match in re.finditer(r"\\name\{(\w+)\}", entry_text):
+        # Extract the block of names using extract_nested_content_sequence_blocks
+        name_blocks, _ = extract_nested_content_sequence_blocks(
+            entry_text[name_match.end() :], "{", "}", max_blocks=3
         )
+        if len(name_blocks) < 3:
+            continue
+        names = parse_names(name_blocks[2])
+        if names:
+            entry[name_match.group(1)] = " and ".join(names)
 
-        author_blocks = author_blocks[2]
-
-        if author_blocks:
-            # find the hash stuff
-            for hash_match in re.finditer(r"\{[^{}]*\bhash=\w+[^{}]*\}\s*(?=\{)", author_blocks):
-                auth_block, _ = extract_nested_content(
-                    author_blocks[hash_match.end() :], "{", "}"
-                )
-                if auth_block:
-                    # Extract family and given names
-                    family = extract_name_part(auth_block, "family")
-                    given = extract_name_part(auth_block, "given")
-                    prefix = extract_name_part(auth_block, "prefix")
-                    if family and prefix:
-                        family = f"{prefix} {family}"
-                    if family and given:
-                        authors.append(f"{family}, {extract_initial(given)}.")
-                    elif family:
-                        authors.append(family)
-
-        if authors:
-            entry["author"] = " and ".join(authors)
+    # Parse \list blocks (e.g. publisher, location)
+    for list_match in re.finditer(r"\\list\{(\w+)\}\{\d+\}", entry_text):
+        list_block, _ = extract_nested_content(entry_text[list_match.end() :])
+        items, _ = extract_nested_content_sequence_blocks(list_block or "")
+        if items:
+            entry[list_match.group(1)] = " and ".join(item.strip() for item in items)
 
     # Parse \field blocks (e.g. title, year, eprinttype, eprintclass)
     for field_match in re.finditer(r"(\\field)\{([^}]+)\}\{", entry_text):
@@ -109,7 +124,7 @@ def parse_compiled_bibtex_entry(entry_text):
         field_key = blocks[0].strip()
         field_value = blocks[1].strip()
         # Skip internal fields that aren't needed.
-        if field_key in ["labelnamesource", "labeltitlesource"]:
+        if INTERNAL_FIELD_PATTERN.fullmatch(field_key):
             continue
         if field_key == "journaltitle":
             field_key = "journal"
-- 
2.43.0


From 545c11027ede86e65a8afd3e78066284117186b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:45 +0000
Subject: [PATCH 091/102] fix: a space after a quotation that follows
 punctuation

---
 latex2json/structure/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index 0adaeb3..1d66e73 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -29,7 +29,7 @@ INLINE_TOKEN_TYPES: Final = frozenset(
 OPENING_PUNCTUATION = ("(", "[", "{", "'", '"')
 CLOSING_PUNCTUATION = (".", ",", "!", "?", ":", ";", ")", "]", "}")
 # a quotation mark that ends a quotation
-CLOSING_QUOTE_PATTERN = re.compile(r"""(?:^|[\s(\[{'"])(['"])(?:(?!\1).)+\1$""", re.DOTALL)
+CLOSING_QUOTE_PATTERN = re.compile(r"""(?:^|[\s(\[{'".,;:!?/-])(['"])(?:(?!\1).)+\1$""", re.DOTALL)
 
 
 def is_inline_token(token: Dict):
-- 
2.43.0


From cbfbe30bd14fd899776063f6468292872df853b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:35 +0000
Subject: [PATCH 092/102] fix: loops end with their body, not with the last
 brace of the line

---
 .../parser/handlers/for_loop_statements.py    | 59 +++++++++++++++++--
 1 file changed, 54 insertions(+), 5 deletions(-)

diff --git a/latex2json/parser/handlers/for_loop_statements.py b/latex2json/parser/handlers/for_loop_statements.py
index 9caca97..9c8bbcc 100644
--- a/latex2json/parser/handlers/for_loop_statements.py
+++ b/latex2json/parser/handlers/for_loop_statements.py
@@ -3,17 +3,26 @@ from typing import Dict, List, Optional, Tuple
 import re
 
 from latex2json.parser.handlers.base import TokenHandler
-from latex2json.utils.tex_utils import extract_nested_content_sequence_blocks
+from latex2json.utils.tex_utils import (
+    extract_nested_content,
+    extract_nested_content_sequence_blocks,
+)
 
 
 # ordered dict so that ifthenelse/ifnum etc is matched before general if
 PATTERNS = OrderedDict(
     {
         "forloop": re.compile(r"\\forloop\s*\{"),
-        "foreach": re.compile(r"\\foreach\s+.+\s*\{"),
+        # up to the list of values and the body
+        "foreach": re.compile(
+            r"\\foreach\s*\\[^{}\[\];]*?(?:\[[^\]]*\]\s*)?(?<![a-zA-Z])in(?![a-zA-Z])\s*"
+        ),
     }
 )
 
+# the list of values, as a macro
+FOREACH_VALUES_PATTERN = re.compile(r"\\[a-zA-Z@]+")
+
 
 class ForLoopHandler(TokenHandler):
 
@@ -25,16 +34,56 @@ class ForLoopHandler(TokenHandler):
     ) -> Tuple[Optional[Dict], int]:
         for name, pattern in PATTERNS.items():
             match = pattern.match(content)
-            if match:
-                max_blocks = 4 if name == "forloop" else 2
+            if match and name == "foreach":
+                end_pos = self._foreach_end(content, match.end())
+                if end_pos > 0:
+                    return None, end_pos
+            elif match:
                 start_pos = match.end() - 1  # -1 to exclude the opening brace
                 blocks, end_pos = extract_nested_content_sequence_blocks(
-                    content[start_pos:], "{", "}", max_blocks=max_blocks
+                    content[start_pos:], "{", "}", max_blocks=4
                 )
                 # skip entirely?
                 return None, start_pos + end_pos
         return None, 0
 
+    def _foreach_end(self, content: str, pos: int) -> int:
+        r"""End of a \foreach loop, given where its list of values starts. The body is a
+        group, another loop, or whatever comes before the next semicolon"""
+        values = FOREACH_VALUES_PATTERN.match(content, pos)
+        if values:
+            pos = values.end()
+        else:
+            _, end_pos = extract_nested_content(content[pos:])
+            if end_pos <= 0:
+                return 0
+            pos += end_pos
+        while pos < len(content) and content[pos].isspace():
+            pos += 1
+
+        nested = PATTERNS["foreach"].match(content[pos:])
+        if nested:
+            end_pos = self._foreach_end(content[pos:], nested.end())
+            return pos + end_pos if end_pos > 0 else 0
+        if content[pos : pos + 1] == "{":
+            _, end_pos = extract_nested_content(content[pos:])
+            return pos + end_pos if end_pos > 0 else 0
+
+        depth = 0
+        while pos < len(content):
+            if content[pos] == "\\":
+                pos += 1
+            elif content[pos] == "{":
+                depth += 1
+            elif content[pos] == "}":
+                depth -= 1
+                if depth < 0:
+                    return 0
+            elif content[pos] == ";" and depth == 0:
+                return pos + 1
+            pos += 1
+        return 0
+
 
 if __name__ == "__main__":
     text = r"""
-- 
2.43.0


From 65757a08c6239f79ece0fb634ac7a3ac2794507d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:37 +0000
Subject: [PATCH 093/102] fix: starred forms told apart by commands, after a
 blank, or after other code

---
 .../parser/handlers/command_processor.py      | 22 +++++++++++++---
 .../parser/handlers/if_else_statements.py     | 26 ++++++++++++++-----
 2 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index 62d9ab6..5939f40 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -10,6 +10,7 @@ from latex2json.utils.tex_utils import (
     extract_nested_content_sequence_blocks,
     substitute_patterns,
     extract_nested_content,
+    join_tex,
     substitute_args,
 )
 from latex2json.parser.handlers.new_definition import (
@@ -43,6 +44,8 @@ def default_ignore_handler(
     return "", match.end()
 
 
+IFSTAR_PATTERN = re.compile(r"\\@ifstar(?![a-zA-Z@])")
+
 ENDS_WITH_SPACE_N_WORD_PATTERN = re.compile(r".+(\s+\w+)$")
 
 
@@ -205,13 +208,26 @@ class CommandProcessor:
         true_block = definition
         false_block = ""
 
+        # what comes before, e.g. \leavevmode
+        before = ""
+        ifstar = IFSTAR_PATTERN.search(definition)
+        if ifstar and "#" not in definition[: ifstar.start()]:
+            out, pos = self.if_else_handler.handle(definition[ifstar.start() :])
+            if out and not definition[ifstar.start() + pos :].strip():
+                before = definition[: ifstar.start()]
+                definition = definition[ifstar.start() :]
+
         has_ifstar = definition.startswith(r"\@ifstar")
         if has_ifstar:
-            usage_pattern += r"\*?"
+            if "|" in usage_pattern:
+                usage_pattern = "(?:" + usage_pattern + ")"
+            usage_pattern += r"(?:\s*\*)?"
             out, pos = self.if_else_handler.handle(definition)
             if out and "ifstar" in out["type"]:
-                true_block = out["if_content"] + definition[pos:]
-                false_block = out["else_content"] + definition[pos:]
+                true_block = join_tex(before, out["if_content"]) + definition[pos:]
+                false_block = (
+                    join_tex(before, out["else_content"]) + definition[pos:]
+                )
 
                 def get_definition(match: re.Match[str]) -> str:
                     return true_block if match.group(0).endswith("*") else false_block
diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index 14ae105..63cf6eb 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -82,11 +82,13 @@ IF_PATTERNS_DEFAULT_LIST = OrderedDict(
         "@ifclassloaded": re.compile(r"\\@ifclassloaded\s*\{"),
         "@ifpackageloaded": re.compile(r"\\@ifpackageloaded\s*\{"),
         "@ifundefined": re.compile(r"\\@ifundefined\s*\{"),
-        "@ifstar": re.compile(r"\\@ifstar\s*\{"),
+        "@ifstar": re.compile(r"\\@ifstar(?![a-zA-Z@])\s*(?=\{|\\[a-zA-Z@])"),
         "if": IF_PATTERN,
     }
 )
 
+IFSTAR_COMMAND_PATTERN = re.compile(r"\s*(\\[a-zA-Z@]+)")
+
 # conditionals that take their branches in braces, without \else and \fi
 BRACED_IFS = [
     "ifthenelse",
@@ -266,10 +268,22 @@ class IfElseBlockHandler(TokenHandler):
     def _handle_ifstar(
         self, content: str, match: re.Match
     ) -> Tuple[Optional[Dict], int]:
-        start_pos = match.end() - 1
-        blocks, end_pos = extract_nested_content_sequence_blocks(
-            content[start_pos:], "{", "}", max_blocks=2
-        )
+        # each of the two is a group or a command
+        end_pos = match.end()
+        blocks = []
+        while len(blocks) < 2:
+            branch = IFSTAR_COMMAND_PATTERN.match(content, end_pos)
+            if branch:
+                blocks.append(branch.group(1))
+                end_pos = branch.end()
+                continue
+            block, block_end = extract_nested_content_sequence_blocks(
+                content[end_pos:], "{", "}", max_blocks=1
+            )
+            if not block:
+                break
+            blocks.extend(block)
+            end_pos += block_end
         if len(blocks) == 0:
             return None, 0
         if_content = blocks[0] if len(blocks) > 0 else ""
@@ -279,7 +293,7 @@ class IfElseBlockHandler(TokenHandler):
             "condition": "@ifstar",
             "if_content": if_content,
             "else_content": else_content,
-        }, start_pos + end_pos
+        }, end_pos
 
     def _handle_iffileexists(
         self, content: str, match: re.Match
-- 
2.43.0


From d706cd269057878de17ffdcf3a54637b13df2f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:37 +0000
Subject: [PATCH 094/102] fix: a branch of switches made with etoolbox is kept

---
 latex2json/parser/handlers/if_else_statements.py |  5 +++++
 latex2json/parser/packages/etoolbox.py           | 14 +++++++-------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index 63cf6eb..ca581c7 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -82,6 +82,7 @@ IF_PATTERNS_DEFAULT_LIST = OrderedDict(
         "@ifclassloaded": re.compile(r"\\@ifclassloaded\s*\{"),
         "@ifpackageloaded": re.compile(r"\\@ifpackageloaded\s*\{"),
         "@ifundefined": re.compile(r"\\@ifundefined\s*\{"),
+        "ifbool": re.compile(r"\\(?:if|not)(?:bool|toggle)\s*\{"),
         "@ifstar": re.compile(r"\\@ifstar(?![a-zA-Z@])\s*(?=\{|\\[a-zA-Z@])"),
         "if": IF_PATTERN,
     }
@@ -96,6 +97,7 @@ BRACED_IFS = [
     "@ifclassloaded",
     "@ifpackageloaded",
     "@ifundefined",
+    "ifbool",
     "@ifstar",
 ]
 
@@ -258,6 +260,8 @@ class IfElseBlockHandler(TokenHandler):
             return None, 0
         if_content = blocks[1] if len(blocks) > 1 else ""
         else_content = blocks[2] if len(blocks) > 2 else ""
+        if name == "ifbool" and content.startswith(r"\not"):
+            if_content, else_content = else_content, if_content
         return {
             "type": "conditional-" + name,
             "condition": blocks[0],
@@ -322,6 +326,7 @@ class IfElseBlockHandler(TokenHandler):
                     token, end_pos = try_handle_ifthenelse(content, match)
                     return token, end_pos
                 elif name in [
+                    "ifbool",
                     "@ifclassloaded",
                     "@ifpackageloaded",
                     "@ifundefined",
diff --git a/latex2json/parser/packages/etoolbox.py b/latex2json/parser/packages/etoolbox.py
index 623ac22..f6550b9 100644
--- a/latex2json/parser/packages/etoolbox.py
+++ b/latex2json/parser/packages/etoolbox.py
@@ -5,12 +5,12 @@ from latex2json.utils.tex_utils import extract_nested_content_sequence_blocks
 
 # Compile patterns at module level
 PATTERNS = {
-    "ifnotbool": re.compile(r"\\(?:if|not)bool\s*{([^}]*)}"),
-    "newbool": re.compile(r"\\newbool\s*{([^}]*)}"),
-    "providebool": re.compile(r"\\providebool\s*{([^}]*)}"),
-    "setbool": re.compile(r"\\setbool\s*{([^}]*)}"),
-    "booltrue": re.compile(r"\\booltrue\s*{([^}]*)}"),
-    "boolfalse": re.compile(r"\\boolfalse\s*{([^}]*)}"),
+    "ifnotbool": re.compile(r"\\(?:if|not)(?:bool|toggle)\s*{([^}]*)}"),
+    "newbool": re.compile(r"\\new(?:bool|toggle)\s*{([^}]*)}"),
+    "providebool": re.compile(r"\\provide(?:bool|toggle)\s*{([^}]*)}"),
+    "setbool": re.compile(r"\\set(?:bool|toggle)\s*{([^}]*)}"),
+    "booltrue": re.compile(r"\\(?:bool|toggle)true\s*{([^}]*)}"),
+    "boolfalse": re.compile(r"\\(?:bool|toggle)false\s*{([^}]*)}"),
 }
 
 
@@ -48,7 +48,7 @@ class EtoolboxHandler(TokenHandler):
     def _handle_ifnotbool(self, content: str, match) -> Tuple[Optional[Dict], int]:
         r"""Handle \ifnotbool and \notbool commands"""
         bool_name = match.group(1)
-        is_not = content.startswith(r"\notbool")
+        is_not = content.startswith(r"\not")
         start_pos = match.end()
 
         # Extract true and false code blocks
-- 
2.43.0


From def321fead08d42d793d573970e994beb9eaba2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:37 +0000
Subject: [PATCH 095/102] fix: assignments to token lists with an equals sign
 leave nothing

---
 latex2json/parser/handlers/command_processor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index 5939f40..798c58e 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -408,6 +408,9 @@ class CommandProcessor:
         ) -> Tuple[str, int]:
             # check if there is traling { ... } # we strip this out if exists
             start_pos = match.end()
+            assignment = re.match(r"\s*=\s*(?=\{)", text[start_pos:])
+            if assignment:
+                start_pos += assignment.end()
             content, end_pos = extract_nested_content(text[start_pos:], "{", "}")
             if content is None:
                 return "", start_pos
-- 
2.43.0


From 630154217b9af996427b1ddd55cddb5c010d5950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:37 +0000
Subject: [PATCH 096/102] fix: paired delimiters of a given size

---
 latex2json/parser/handlers/command_processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index 798c58e..c56cad8 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -319,7 +319,7 @@ class CommandProcessor:
         self, command_name: str, left_delim: str, right_delim: str
     ):
         r"""Process a paired delimiter command like \br{content}"""
-        usage_pattern = r"\\" + re.escape(command_name) + r"\*?\s*{"
+        usage_pattern = r"\\" + re.escape(command_name) + r"(?:\*|\s*\[[^\[\]{}]*\])?\s*{"
 
         def handler(
             match: re.Match[str], text: str, math_mode: bool = False
-- 
2.43.0


From 094f89167788da082280945b862f0a1db1403499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:37 +0000
Subject: [PATCH 097/102] fix: commands whose names are put together

---
 latex2json/parser/handlers/command_manager.py | 107 +++++++++++++++++-
 latex2json/parser/handlers/environment.py     |   2 +-
 latex2json/parser/handlers/new_definition.py  |  38 ++++++-
 latex2json/parser/tex_parser.py               |   1 +
 latex2json/parser/tex_preprocessor.py         |  26 ++++-
 5 files changed, 164 insertions(+), 10 deletions(-)

diff --git a/latex2json/parser/handlers/command_manager.py b/latex2json/parser/handlers/command_manager.py
index eaabe2d..b636e09 100644
--- a/latex2json/parser/handlers/command_manager.py
+++ b/latex2json/parser/handlers/command_manager.py
@@ -6,9 +6,28 @@ from latex2json.parser.handlers.base import TokenHandler
 from latex2json.parser.patterns import WHITELISTED_COMMANDS
 from latex2json.parser.handlers.command_processor import CommandProcessor
 from latex2json.parser.handlers.equation import get_formula_end_pattern
-from latex2json.parser.handlers.new_definition import NewDefinitionHandler
+from latex2json.parser.handlers.new_definition import (
+    NewDefinitionHandler,
+    extract_and_concat_nested_csname,
+)
 from latex2json.parser.packages.keyval import KeyValHandler
-from latex2json.utils.tex_utils import is_escaped, join_tex
+from latex2json.utils.tex_utils import (
+    extract_nested_content,
+    is_escaped,
+    join_tex,
+)
+
+# a command whose name is put together
+NAME_USE_PATTERN = re.compile(r"\\csname(?![a-zA-Z@])|\\@nameuse\s*(?=\{)")
+CSNAME_USAGE_PATTERN = re.compile(r"\|\\\\csname\s*[^\s\\]+\s*\\\\endcsname.*$", re.DOTALL)
+DEFINED_NAME_PATTERN = re.compile(
+    r"(?:\\(?:expandafter|noexpand|long|global|protected)(?![a-zA-Z@])\s*)*"
+    r"\\(?:[egx]?def|(?:future)?let|(?:new|renew|provide)command|DeclareRobustCommand)"
+    r"\s*\*?\s*(?:\\(?:expandafter|noexpand)(?![a-zA-Z@])\s*)*\{?\s*(?:\\(?:expandafter|noexpand)(?![a-zA-Z@])\s*)*"
+    r"\\csname(?![a-zA-Z@])((?:(?!\\(?:end)?csname(?![a-zA-Z@])).)*)\\endcsname(?![a-zA-Z@])"
+    r"|\\@namedef\s*\{([^{}]*)\}",
+    re.DOTALL,
+)
 
 
 class CommandManager(TokenHandler):
@@ -32,6 +51,9 @@ class CommandManager(TokenHandler):
         # Add KeyValHandler as a member
         self.keyval_handler = KeyValHandler()
 
+        # whether a command is there without being defined (set by the parser)
+        self.is_native_command = lambda name: False
+
         # Track unknown commands like tex_parser does
         self._unknown_commands = {}
 
@@ -46,6 +68,23 @@ class CommandManager(TokenHandler):
         self, content: str, register: bool = True
     ) -> Tuple[Optional[Dict], int]:
         """Handle command definitions and register them"""
+        # macros in the name of what is defined
+        match = DEFINED_NAME_PATTERN.match(content)
+        if match:
+            group = match.lastindex
+            name = match.group(group)
+            if "\\" in name:
+                expanded = " " + self._expand_name(name)
+                if "\\" not in expanded:
+                    token, end_pos = self.process_definition(
+                        content[: match.start(group)]
+                        + expanded
+                        + content[match.end(group) :],
+                        register,
+                    )
+                    if end_pos > 0:
+                        return token, end_pos + len(name) - len(expanded)
+
         # First try the definition handler
         if self.definition_handler.can_handle(content):
             token, end_pos = self.definition_handler.handle(content)
@@ -62,6 +101,56 @@ class CommandManager(TokenHandler):
 
         return None, 0
 
+    def _expand_name(self, name: str) -> str:
+        # the space after a macro is not part of the name
+        name = re.sub(r"(\\[a-zA-Z@]+)\s+(?!\{)", r"\1{}", name)
+        name = self.processor.expand_commands(name, True)[0].replace("{}", "")
+        return name if "\\" in name else name.lstrip()
+
+    def read_name(self, content: str) -> Tuple[Optional[str], int]:
+        r"""The name in \csname name\endcsname or \@nameuse{name}, and where that ends"""
+        match = NAME_USE_PATTERN.match(content)
+        if not match:
+            return None, 0
+        if match.group(0).startswith(r"\csname"):
+            name, end_pos = extract_and_concat_nested_csname(content)
+        else:
+            name, end_pos = extract_nested_content(content[match.end() :])
+            end_pos += match.end()
+            if name is None:
+                return None, 0
+        if end_pos <= 0:
+            return None, 0
+        return self._expand_name(name), end_pos
+
+    def find_named_command(self, content: str, names=()) -> Tuple[str, int]:
+        r"""The command, e.g. \foo, which \csname foo\endcsname or \@nameuse{foo} stands
+        for, if it is there (or among names)"""
+        name, end_pos = self.read_name(content)
+        if name and not re.search(r"[\s\\{}]", name):
+            if (
+                self.has_command(name)
+                or name in names
+                or (name.isalpha() and self.is_native_command(name))
+            ):
+                return "\\" + name, end_pos
+        return "", end_pos
+
+    def put_named_commands(self, content: str, names=()) -> str:
+        r"""Replace e.g. \csname foo\endcsname by \foo, for the commands that are there"""
+        pos = 0
+        while True:
+            match = NAME_USE_PATTERN.search(content, pos)
+            if not match:
+                return content
+            command, end_pos = self.find_named_command(content[match.start() :], names)
+            pos = match.end()
+            if command:
+                content = join_tex(
+                    content[: match.start()], command, content[match.start() + end_pos :]
+                )
+                pos = match.start() + len(command)
+
     def _should_handle_command_type(self, cmd_type: str) -> bool:
         return not self.command_types or cmd_type in self.command_types
 
@@ -154,6 +243,13 @@ class CommandManager(TokenHandler):
         if token.get("provide") and self.processor.has_command(cmd_name):
             return
 
+        # names that are put together are resolved before
+        if "usage_pattern" in token:
+            token = {
+                **token,
+                "usage_pattern": CSNAME_USAGE_PATTERN.sub("", token["usage_pattern"]),
+            }
+
         # Consolidate command registration logic from sty_parser/tex_parser/tex_preprocessor
         ignore_sty = token.get("is_sty", False) and self.ignore_sty_commands
         math_mode_only = token.get("math_mode_only", False)
@@ -223,6 +319,7 @@ class CommandManager(TokenHandler):
         self, content: str, ignore_unicode: bool = False, math_mode: bool = False
     ) -> Tuple[str, int]:
         """Expand commands in content"""
+        content = self.put_named_commands(content)
         return self.processor.expand_commands(content, ignore_unicode, math_mode)
 
     def has_command(self, command_name: str) -> bool:
@@ -248,6 +345,11 @@ class CommandManager(TokenHandler):
                 # If KeyValHandler processed it, pass through the result
                 return "", end_pos
 
+        # a command whose name is put together
+        command, end_pos = self.find_named_command(content)
+        if command or content.startswith(r"\@nameuse"):
+            return command, end_pos
+
         # If not handled by keyval, use the command processor
         return self.processor.handle(content)
 
@@ -257,6 +359,7 @@ class CommandManager(TokenHandler):
             self.definition_handler.can_handle(content)
             or self.processor.can_handle(content)
             or self.keyval_handler.can_handle(content)
+            or NAME_USE_PATTERN.match(content) is not None
         )
 
     @property
diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index 725088f..de59af5 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -17,7 +17,7 @@ ENV_NAME_BRACE_PATTERN = r"\{([^}]*?)\}"
 
 # e.g. \list \endlist, \xxx \endxxx etc
 # make sure to tweak the '1' in end\1 to match the relevant regex group if combining with other patterns
-ENV_PAIR_PATTERN = r"\\((?:\w|@)+\b)(\s*(?:\{[^}]*\}|\[[^]]*\])*\s*.*)\\end\1"
+ENV_PAIR_PATTERN = r"\\(?!csname\b)((?:\w|@)+\b)(\s*(?:\{[^}]*\}|\[[^]]*\])*\s*.*)\\end\1"
 
 # Check for both \begin{xxx} and \xxx \endxxx e.g. \list \endlist, etc
 ENVIRONMENT_PATTERN = re.compile(
diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 5ab0811..6ad04dd 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -38,6 +38,11 @@ for _ in range(6):
     DEF_ARG_CONTENT_PATTERN = r"(?:\\.|[^{}\\]|\{%s\})*" % DEF_ARG_CONTENT_PATTERN
 
 EXPAND_PATTERN = re.compile(r"\\(?:expandafter|noexpand)(?![a-zA-Z])")
+NEWCOMMAND_OF_NAME_PATTERN = re.compile(
+    r"\s*\\((?:new|renew|provide)command|DeclareRobustCommand)(?![a-zA-Z@])\s*\*?\s*"
+    r"(?:\\(?:expandafter|noexpand)(?![a-zA-Z@])\s*)*(\{?)\s*"
+    r"(?:\\(?:expandafter|noexpand)(?![a-zA-Z@])\s*)*(?=\\csname(?![a-zA-Z@]))"
+)
 START_CSNAME_PATTERN = re.compile(r"\\csname(?![a-zA-Z])")
 END_CSNAME_PATTERN = re.compile(r"\\endcsname(?![a-zA-Z])")
 
@@ -217,6 +222,11 @@ class NewDefinitionHandler(TokenHandler):
                     }, match.end()
                 elif pattern_name in ["expandafter", "endcsname"]:
                     next_pos = match.end()
+                    named = NEWCOMMAND_OF_NAME_PATTERN.match(content, next_pos)
+                    if named:
+                        token, end_pos = self._handle_newcommand_of_name(content, named)
+                        if token:
+                            return token, end_pos
                     token, end_pos = self.handle(content[next_pos:])
                     return token, next_pos + end_pos
                 elif pattern_name == "newcolumntype":
@@ -407,6 +417,30 @@ class NewDefinitionHandler(TokenHandler):
 
         return token, start_pos + end_pos - 1
 
+    def _handle_newcommand_of_name(
+        self, content: str, match
+    ) -> Tuple[Optional[Dict], int]:
+        r"""Handle e.g. \expandafter\newcommand\csname name\endcsname[1]{...}"""
+        name, end_pos = extract_and_concat_nested_csname(content[match.end() :])
+        if end_pos <= 0:
+            return None, 0
+        end_pos += match.end()
+        name = name.lstrip()
+        if match.group(2):
+            brace = re.compile(r"\s*\}").match(content, end_pos)
+            if not brace:
+                return None, 0
+            end_pos = brace.end()
+        definition = "\\" + match.group(1) + r"{\name}"
+        token, definition_end = self.handle(definition + content[end_pos:])
+        if not name or not token:
+            return None, 0
+        token["name"] = name
+        token["usage_pattern"] = (
+            r"\\" + re.escape(name) + (USAGE_SUFFIX if name[-1].isalnum() else "")
+        )
+        return token, end_pos + definition_end - len(definition)
+
     def _handle_newtheorem(self, match) -> Tuple[Optional[Dict], int]:
         """Handle \newtheorem definitions"""
         token = {"type": "newtheorem", "name": match.group(2), "title": match.group(4)}
@@ -470,7 +504,7 @@ class NewDefinitionHandler(TokenHandler):
             expand_after_pattern = re.compile(r"\s*" + EXPAND_PATTERN.pattern)
 
             inner_csnames = []
-            while start_pos < len(content):
+            while start_pos <= len(content):
 
                 # extract inner inside \csname <INNER> \endcsname
                 if len(inner_csnames) < max_csname_blocks:
@@ -495,7 +529,7 @@ class NewDefinitionHandler(TokenHandler):
                         cmd_str += "\\" + inner.replace(" ", "")
 
                 search_prefix = prefix + cmd_str
-                if content[start_pos] == "\\":
+                if content.startswith("\\", start_pos) and not inner_csnames:
                     start_pos += 1
                 search_text = search_prefix + content[start_pos:]
                 full_match = full_pattern.match(search_text)
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 5b52d7d..20708e9 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -156,6 +156,7 @@ class LatexParser:
         # Add preprocessor
         self.preprocessor = LatexPreprocessor(logger=self.logger)
         self.preprocessor.is_native_command = self._is_native_command
+        self.command_manager.is_native_command = self._is_native_command
 
     # getter for commands
     @property
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index a79acee..5e9f94b 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -363,9 +363,9 @@ class LatexPreprocessor:
                         continue
                     # store the math block as placeholder to restore later
                     placeholder = f"__MATH_BLOCK_{len(math_blocks)}__"
-                    math_blocks[placeholder] = content[
-                        current_pos : current_pos + end_pos
-                    ]
+                    math_blocks[placeholder] = self.command_manager.put_named_commands(
+                        content[current_pos : current_pos + end_pos], skipped_names
+                    )
                     content = (
                         content[:current_pos]
                         + placeholder
@@ -403,7 +403,9 @@ class LatexPreprocessor:
                 content[current_pos:], register=False
             )
             if token:
-                if token.get("type", "").startswith("keyval"):
+                if token.get("type", "").startswith("keyval") or "\\" in token.get(
+                    "name", ""
+                ):
                     current_pos += end_pos
                     continue
                 name = token.get("name", "")
@@ -435,7 +437,7 @@ class LatexPreprocessor:
                     current_pos += end_pos
                     continue
                 if is_macro and not in_order:
-                    in_order = self._uses_command(
+                    in_order = name in skipped_names or self._uses_command(
                         name,
                         content[:current_pos],
                         *math_blocks.values(),
@@ -487,6 +489,20 @@ class LatexPreprocessor:
                     )
                     continue
 
+            # a command whose name is put together
+            command, end_pos = self.command_manager.find_named_command(
+                content[current_pos:], skipped_names
+            )
+            if command:
+                content = join_tex(
+                    content[:current_pos], command, content[current_pos + end_pos :]
+                )
+                continue
+            if end_pos > 0:
+                # only the parser knows it, or the macros in its name
+                current_pos += end_pos
+                continue
+
             # Expand commands using command_manager instead of command_processor
             if self.command_manager.can_handle(
                 content[current_pos:]
-- 
2.43.0


From 4d0ec82f9109d7527eb205f9a567e899a9f2e4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:40 +0000
Subject: [PATCH 098/102] fix: style files end at \endinput, take the right
 branch, and are found from the document

---
 latex2json/parser/sty_parser.py       | 43 ++++++++++++++++++---------
 latex2json/parser/tex_preprocessor.py | 17 ++---------
 latex2json/utils/tex_utils.py         | 15 ++++++++++
 3 files changed, 46 insertions(+), 29 deletions(-)

diff --git a/latex2json/parser/sty_parser.py b/latex2json/parser/sty_parser.py
index f9672e1..f5b68b0 100644
--- a/latex2json/parser/sty_parser.py
+++ b/latex2json/parser/sty_parser.py
@@ -21,6 +21,7 @@ from latex2json.parser.handlers import (
 from latex2json.utils.tex_utils import (
     extract_nested_content,
     read_tex_file_content,
+    strip_after_endinput,
     strip_latex_comments,
 )
 from latex2json.parser.patterns import (
@@ -42,6 +43,7 @@ class LatexStyParser:
         self.logger = logger or logging.getLogger(__name__)
 
         self.current_file_dir = None
+        self.document_dir = None  # where names of files start from
         self.parsed_files = set()
 
         self.command_manager = CommandManager(
@@ -53,6 +55,7 @@ class LatexStyParser:
 
     def clear(self):
         self.current_file_dir = None
+        self.document_dir = None
         self.parsed_files.clear()
         self.if_else_block_handler.clear()
         self.command_manager.clear()
@@ -77,21 +80,37 @@ class LatexStyParser:
         tokens = []
         for package_name in package_names:
             package_path = package_name.strip()
-            if self.current_file_dir:
-                package_path = os.path.join(self.current_file_dir, package_path)
             if not package_path.endswith(extension):
                 package_path += extension
-            if os.path.exists(package_path):
+            package_path = self._find_file(package_path)
+            if package_path:
                 tokens.extend(self.parse_file(package_path))
         return tokens
 
+    def _find_file(self, file_path: str) -> str | None:
+        """Path of a file, named from the document or from the file it is named in"""
+        dirs = [d for d in (self.document_dir, self.current_file_dir) if d is not None]
+        for file_dir in dirs or [""]:
+            path = os.path.join(file_dir, file_path)
+            if os.path.isfile(path):
+                return path
+        return None
+
     def _check_usepackage(self, content: str) -> Tuple[List[Dict], int]:
         """Check for usepackage commands and parse any found .sty files
 
         Returns:
             tuple: (list of tokens from sty files, end_position)
         """
-        match = USEPACKAGE_PATTERN.match(content) or INCLUDE_PATTERN.match(content)
+        match = INCLUDE_PATTERN.match(content)
+        if match:
+            file_path = match.group(1).strip()
+            file_path = self._find_file(file_path) or self._find_file(
+                file_path + ".tex"
+            )
+            return self.parse_file(file_path) if file_path else [], match.end()
+
+        match = USEPACKAGE_PATTERN.match(content)
         if match:
             package_names = match.group(1).strip()
             tokens = self._parse_packages(package_names.split(","))
@@ -119,20 +138,15 @@ class LatexStyParser:
                 block = ""
                 if token:
                     typing = token.get("type", "")
-                    if "@" not in typing:
-                        block = token.get("if_content", "")
                     # Handle iffileexists condition
-                    elif typing == "conditional-iffileexists":
+                    if typing == "conditional-iffileexists":
                         block = token.get("else_content", "")
 
                         file_path = token.get("condition", "").strip()
-                        if file_path:
-                            if self.current_file_dir:
-                                file_path = os.path.join(
-                                    self.current_file_dir, file_path
-                                )
-                            if os.path.exists(file_path):
-                                block = token.get("if_content", "")
+                        if file_path and self._find_file(file_path):
+                            block = token.get("if_content", "")
+                    elif "@" not in typing:
+                        block = token.get("if_content", "")
                 return block, current_pos + end_pos
         return None, current_pos
 
@@ -159,6 +173,7 @@ class LatexStyParser:
 
         if isinstance(content, str):
             content = strip_latex_comments(content)
+            content = strip_after_endinput(content)
 
         tokens = []
         current_pos = 0
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 5e9f94b..95ff1b1 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -25,6 +25,7 @@ from latex2json.utils.tex_utils import (
     check_string_has_hash_number,
     is_escaped,
     join_tex,
+    strip_after_endinput,
     strip_latex_comments,
     normalize_whitespace_and_lines,
 )
@@ -60,21 +61,6 @@ QUOTE_PATTERNS = {
 }
 
 
-ENDINPUT_PATTERN = re.compile(r"^[ \t]*\\endinput[ \t]*$", re.MULTILINE)
-
-
-def strip_after_endinput(content: str) -> str:
-    """Leave out what follows an \\endinput, unless that is within a conditional"""
-    match = ENDINPUT_PATTERN.search(content)
-    if match:
-        rest = content[match.end() :]
-        if len(re.findall(r"\\fi(?![a-zA-Z])", rest)) <= len(
-            re.findall(r"\\if[a-zA-Z@]*", rest)
-        ):
-            return content[: match.start()]
-    return content
-
-
 def restore_placeholder_blocks(content: str, blocks: dict) -> str:
     """
     Restores the blocks in the content by replacing placeholders with the original blocks.
@@ -217,6 +203,7 @@ class LatexPreprocessor:
         self, package_names: list[str], file_dir: str = None, extension=".sty"
     ) -> list[Dict]:
         tokens = []
+        self.sty_parser.document_dir = file_dir
         for package_name in package_names:
             package_path = package_name.strip()
             if file_dir:
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index c59f8a2..2e4f1c5 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -395,6 +395,21 @@ def strip_latex_comments(text: str) -> str:
     return "\n".join(line.rstrip() for line in "".join(result).splitlines())
 
 
+ENDINPUT_PATTERN = re.compile(r"^[ \t]*\\endinput[ \t]*$", re.MULTILINE)
+
+
+def strip_after_endinput(content: str) -> str:
+    """Leave out what follows an \\endinput, unless that is within a conditional"""
+    match = ENDINPUT_PATTERN.search(content)
+    if match:
+        rest = content[match.end() :]
+        if len(re.findall(r"\\fi(?![a-zA-Z])", rest)) <= len(
+            re.findall(r"\\if[a-zA-Z@]*", rest)
+        ):
+            return content[: match.start()]
+    return content
+
+
 def flatten_all_to_string(tokens: List[Dict | str | List] | str) -> str:
     if isinstance(tokens, str):
         return tokens
-- 
2.43.0


From fa2c17e337fb525b277174abfe156f1420f88acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:40 +0000
Subject: [PATCH 099/102] fix: classes and packages loaded with options,
 documentstyle

---
 latex2json/parser/patterns.py         | 6 +++---
 latex2json/parser/tex_preprocessor.py | 6 ++++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/patterns.py b/latex2json/parser/patterns.py
index b14e0fe..6941e52 100644
--- a/latex2json/parser/patterns.py
+++ b/latex2json/parser/patterns.py
@@ -26,17 +26,17 @@ DELIM_PATTERN = re.compile(
 )
 
 DOCUMENTCLASS_PATTERN = re.compile(
-    r"\\documentclass\s*%s\s*%s" % (OPTIONAL_BRACE_PATTERN, BRACE_CONTENT_PATTERN),
+    r"\\document(?:class|style)\s*%s\s*%s" % (OPTIONAL_BRACE_PATTERN, BRACE_CONTENT_PATTERN),
     re.DOTALL,
 )
 USEPACKAGE_PATTERN = re.compile(
-    r"\\(?:usepackage|RequirePackage)\s*%s\s*%s"
+    r"\\(?:usepackage|RequirePackage(?:WithOptions)?)\s*%s\s*%s"
     % (OPTIONAL_BRACE_PATTERN, BRACE_CONTENT_PATTERN),
     re.DOTALL,
 )
 PROTECT_PATTERN = re.compile(r"\\protect(?![a-zA-Z@])\s*")
 LOADCLASS_PATTERN = re.compile(
-    r"\\LoadClass\s*%s\s*%s" % (OPTIONAL_BRACE_PATTERN, BRACE_CONTENT_PATTERN),
+    r"\\LoadClass(?:WithOptions)?\s*%s\s*%s" % (OPTIONAL_BRACE_PATTERN, BRACE_CONTENT_PATTERN),
     re.DOTALL,
 )
 
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 95ff1b1..fa1d229 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -49,6 +49,8 @@ ALL_VERBATIM_PATTERNS.append(PICTURE_PATTERN)
 
 INPUT_PATTERN = re.compile(r"\\(?:input|include)\s*\{([^{}]*)\}")
 
+DOCUMENTSTYLE_OPTIONS_PATTERN = re.compile(r"\\documentstyle\s*\[([^\]]*)\]")
+
 DELIM_PATTERN_WITH_QUOTES = re.compile(DELIM_PATTERN.pattern + r"|`")
 
 QUOTE_PATTERNS = {
@@ -179,6 +181,10 @@ class LatexPreprocessor:
         if match:
             cls_name = match.group(1).strip()
             tokens = self._parse_packages([cls_name], file_dir, ".cls")
+            options = DOCUMENTSTYLE_OPTIONS_PATTERN.match(match.group(0))
+            if options:
+                # options may be style files
+                tokens += self._parse_packages(options.group(1).split(","), file_dir)
             return match.end(), tokens
         return 0, []
 
-- 
2.43.0


From fa6f48eee5345d9bb9433cfee1cfa661bc2ca66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:40 +0000
Subject: [PATCH 100/102] fix: what stands before the class is read

---
 latex2json/parser/tex_preprocessor.py | 39 +++++++++++----------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index fa1d229..3592eea 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -127,18 +127,12 @@ class LatexPreprocessor:
 
         content = strip_after_endinput(content)
 
-        # 2. Check for documentclass (only once at the start)
-        end_pos, out_tokens = self._check_documentclass(content, file_dir)
-        if end_pos > 0:
-            content = content[end_pos:]
-
-        # 3. Process all definitions and expand commands
-        content, tokens = self._process_definitions_and_expand(
+        # 2. Process all definitions and expand commands
+        content, out_tokens = self._process_definitions_and_expand(
             content, file_dir, read_input, open_files
         )
-        out_tokens.extend(tokens)
 
-        # 4. After all expansions, normalize whitespace and lines
+        # 3. After all expansions, normalize whitespace and lines
         # But make sure to not normalize verbatim environments (VERBATIM_PATTERNS)
         # so we first need to find all verbatim environments, extract them out, normalize the rest, then put the verbatim environments back in
         content, verbatim_blocks = self._extract_verbatim_blocks(content)
@@ -177,7 +171,7 @@ class LatexPreprocessor:
         Returns:
             int: end position of the match
         """
-        match = DOCUMENTCLASS_PATTERN.search(content)
+        match = DOCUMENTCLASS_PATTERN.match(content)
         if match:
             cls_name = match.group(1).strip()
             tokens = self._parse_packages([cls_name], file_dir, ".cls")
@@ -233,11 +227,9 @@ class LatexPreprocessor:
         self,
         content: str,
         match: re.Match,
-        file_dir: str,
         read_input,
         open_files: list[str],
         spans: list[tuple[str, int]],
-        tokens: list[Dict],
     ) -> str | None:
         """Put the content of an input file in place of the command
 
@@ -254,12 +246,10 @@ class LatexPreprocessor:
             return None
         path, text = found
         text = strip_after_endinput(text)
-        end_pos, cls_tokens = self._check_documentclass(text, file_dir)
-        tokens.extend(cls_tokens)
         following = content[match.end() :]
         spans.append((path, len(following)))
         # the end of a file is the end of a line
-        return content[: match.start()] + text[end_pos:] + "\n" + following
+        return content[: match.start()] + text + "\n" + following
 
     def _process_definitions_and_expand(
         self, content: str, file_dir: str = None, read_input=None, open_files=()
@@ -305,7 +295,7 @@ class LatexPreprocessor:
             match = read_input and INPUT_PATTERN.match(content, current_pos)
             if match:
                 spliced = self._splice_input(
-                    content, match, file_dir, read_input, open_files, spans, tokens
+                    content, match, read_input, open_files, spans
                 )
                 if spliced is not None:
                     content = spliced
@@ -340,13 +330,7 @@ class LatexPreprocessor:
                     )
                     if match:
                         spliced = self._splice_input(
-                            content,
-                            match,
-                            file_dir,
-                            read_input,
-                            open_files,
-                            spans,
-                            tokens,
+                            content, match, read_input, open_files, spans
                         )
                         content = (
                             content[: match.start()] + content[match.end() :]
@@ -447,6 +431,15 @@ class LatexPreprocessor:
                     content = content[:current_pos] + content[current_pos + end_pos :]
                     continue
 
+            # the class, after what may come before it
+            end_pos, cls_tokens = self._check_documentclass(
+                content[current_pos:], file_dir
+            )
+            tokens.extend(cls_tokens)
+            if end_pos > 0:
+                content = content[:current_pos] + content[current_pos + end_pos :]
+                continue
+
             # Update usepackage check to handle returned tokens
             end_pos, sty_tokens = self._check_usepackage(
                 content[current_pos:], file_dir
-- 
2.43.0


From 11321f4c68aa59a303a3af6e400940426d981be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:33:58 +0000
Subject: [PATCH 101/102] fix: numbers in merged proofs

---
 latex2json/structure/builder.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index 1d66e73..255415f 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -401,6 +401,12 @@ class TokenBuilder:
                     token["content"], in_appendix=in_appendix, list_depth=list_depth
                 )
 
+            # Handle a proof merged into its environment
+            if isinstance(token.get("proof"), dict):
+                token["proof"] = self._recursive_organize(
+                    [token["proof"]], in_appendix=in_appendix, list_depth=list_depth
+                )[0]
+
             # Handle special token types
             if token["type"] == "bibliography":
                 section_stack.clear()
-- 
2.43.0


From 3bcae1a5e568511dbff3ecbab6b001a6a806bae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:38:12 +0000
Subject: [PATCH 102/102] fix: names of commands that end in an at sign

---
 latex2json/parser/handlers/command_manager.py   |  4 ++--
 latex2json/parser/handlers/command_processor.py |  3 ++-
 latex2json/parser/handlers/new_definition.py    | 14 ++++++++------
 latex2json/parser/tex_preprocessor.py           |  5 ++---
 4 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/latex2json/parser/handlers/command_manager.py b/latex2json/parser/handlers/command_manager.py
index b636e09..e276aa6 100644
--- a/latex2json/parser/handlers/command_manager.py
+++ b/latex2json/parser/handlers/command_manager.py
@@ -9,6 +9,7 @@ from latex2json.parser.handlers.equation import get_formula_end_pattern
 from latex2json.parser.handlers.new_definition import (
     NewDefinitionHandler,
     extract_and_concat_nested_csname,
+    name_suffix,
 )
 from latex2json.parser.packages.keyval import KeyValHandler
 from latex2json.utils.tex_utils import (
@@ -156,9 +157,8 @@ class CommandManager(TokenHandler):
 
     @staticmethod
     def _mentions(text: str, name: str, usage_pattern) -> bool:
-        suffix = r"(?![a-zA-Z])" if name[-1].isalpha() else ""
         return bool(
-            re.search(r"\\" + re.escape(name) + suffix, text)
+            re.search(r"\\" + re.escape(name) + name_suffix(name), text)
             or re.search(usage_pattern, text)
         )
 
diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index c56cad8..93f6a58 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -17,6 +17,7 @@ from latex2json.parser.handlers.new_definition import (
     END_CSNAME_PATTERN,
     START_CSNAME_PATTERN,
     USAGE_SUFFIX,
+    name_suffix,
     extract_and_concat_nested_csname,
     command_pattern,
 )
@@ -167,7 +168,7 @@ class CommandProcessor:
         suffix = entry["pattern"].pattern[len(prefix) :]
         if "csname" in suffix:
             return False
-        if command_name[-1].isalnum() and not suffix.startswith(USAGE_SUFFIX):
+        if name_suffix(command_name) and not suffix.startswith(USAGE_SUFFIX):
             suffix = USAGE_SUFFIX + suffix
         pattern = re.compile(r"\\" + re.escape(command_name) + suffix, re.DOTALL)
         self.let_commands.pop(command_name, None)
diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 6ad04dd..411303e 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -129,6 +129,12 @@ PATTERNS = {
 USAGE_SUFFIX = r"(?![a-zA-Z@])"
 
 
+def name_suffix(name: str) -> str:
+    """What may not follow the name of a command; nothing for those of one character"""
+    return USAGE_SUFFIX if name[-1:].isalnum() or name[-1:] == "@" else ""
+
+
+
 def extract_and_concat_nested_csname(content: str) -> Tuple[str, int]:
     match = START_CSNAME_PATTERN.match(content)
     if match:
@@ -400,9 +406,7 @@ class NewDefinitionHandler(TokenHandler):
                 defaults.append(default.group(1))
 
         # Don't add negative lookahead for commands ending in special chars
-        needs_lookahead = cmd_name[-1].isalnum()
-        postfix = USAGE_SUFFIX if needs_lookahead else ""
-        pattern = r"\\" + re.escape(cmd_name) + postfix
+        pattern = r"\\" + re.escape(cmd_name) + name_suffix(cmd_name)
 
         token = {
             "type": "newcommand",
@@ -436,9 +440,7 @@ class NewDefinitionHandler(TokenHandler):
         if not name or not token:
             return None, 0
         token["name"] = name
-        token["usage_pattern"] = (
-            r"\\" + re.escape(name) + (USAGE_SUFFIX if name[-1].isalnum() else "")
-        )
+        token["usage_pattern"] = r"\\" + re.escape(name) + name_suffix(name)
         return token, end_pos + definition_end - len(definition)
 
     def _handle_newtheorem(self, match) -> Tuple[Optional[Dict], int]:
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 3592eea..bd9b782 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -16,6 +16,7 @@ from latex2json.parser.patterns import (
 sys.path.append(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
 
 from latex2json.parser.handlers.code_block import PATTERNS as VERBATIM_PATTERNS
+from latex2json.parser.handlers.new_definition import name_suffix
 
 from latex2json.parser.handlers import (
     EquationHandler,
@@ -530,9 +531,7 @@ class LatexPreprocessor:
 
     @staticmethod
     def _uses_command(name: str, *contents: str) -> bool:
-        usage = re.compile(
-            r"\\" + re.escape(name) + (r"(?![a-zA-Z])" if name[-1:].isalpha() else "")
-        )
+        usage = re.compile(r"\\" + re.escape(name) + name_suffix(name))
         return any(usage.search(text) for text in contents)
 
     def _extract_verbatim_blocks(self, content: str) -> tuple[str, dict]:
-- 
2.43.0

