From c1c7423b4b95034e4b768c8bf6d8a219da8a37b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 01/52] fix: (0:n) multiplier must match every count from 0 to
 n

---
 nessaid_cli/compiler.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/nessaid_cli/compiler.py b/nessaid_cli/compiler.py
index b3404c9..39b59a7 100644
--- a/nessaid_cli/compiler.py
+++ b/nessaid_cli/compiler.py
@@ -219,19 +219,16 @@ class NessaidCliParser(NessaidCliParserCommon):
                 term.position = 0
                 t[0].repeat_count = min_count
             return
-        elif min_count == 0:
-            if max_count == 1:
-                t[0] = OptionalInputElement((term,))
-                term.parent = t[0]
-            else:
-                t0 = SequenceInputElement((term,))
-                term.parent = t0
-                term.position = 0
-                t0.repeat_count = max_count
-                t[0] = OptionalInputElement((t0,))
-                t0.parent = t[0]
+        elif min_count == 0 and max_count == 1:
+            t[0] = OptionalInputElement((term,))
+            term.parent = t[0]
             return
 
+        optional = min_count == 0
+        if optional:
+            # None at all, or at least one repetition
+            min_count = 1
+
         term_copy = term.copy()
         if min_count == 1:
             block_1 = term
@@ -249,7 +246,8 @@ class NessaidCliParser(NessaidCliParserCommon):
         opt_block.parent = block_2
         opt_block.position = 0
 
-        t[0] = SequenceInputElement((block_1, block_2))
+        block_class = OptionalInputElement if optional else SequenceInputElement
+        t[0] = block_class((block_1, block_2))
         block_1.parent = t[0]
         block_2.parent = t[0]
 
-- 
2.43.0


From ba594c18486f31ac5e65a375de297c9fd638ecd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 02/52] fix: keep the repeat count when making a repeated block
 optional

---
 nessaid_cli/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/compiler.py b/nessaid_cli/compiler.py
index 39b59a7..b0ca491 100644
--- a/nessaid_cli/compiler.py
+++ b/nessaid_cli/compiler.py
@@ -275,7 +275,7 @@ class NessaidCliParser(NessaidCliParserCommon):
     def p_optional_rule(self, t):
         """term : LBRACE rule RBRACE"""
         rule = t[2]
-        if type(rule) is SequenceInputElement:
+        if type(rule) is SequenceInputElement and rule.repeat_count == 1:
             values = rule.value
             pre_match_binding = rule.pre_match_binding
             post_match_binding = rule.post_match_binding
-- 
2.43.0


From d0b386cc044b8a3aa6dd8fe24a5387b787e6430d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 03/52] fix: an unfinished alternative must not make a complete
 command ambiguous

---
 nessaid_cli/interface.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index bf27a1d..7964d1b 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -826,6 +826,7 @@ class CliInterface(StdStreamsHolder):
                     return res
 
                 prompt_choices = set()
+                complete_sequences = []
 
                 for matching_sequence in matching_sequences:
                     choices = set()
@@ -851,6 +852,7 @@ class CliInterface(StdStreamsHolder):
                             for c in nexts:
                                 if c == EndOfInpuToken:
                                     seq_complete = True
+                                    complete_sequences.append(matching_sequence)
                                 else:
                                     choices.add(c)
                     matching_seq_choices.append(choices)
@@ -875,6 +877,9 @@ class CliInterface(StdStreamsHolder):
                 if matching_sequences:
                     res.matched_sequence.append(cur_token_input)
                     if not dry_run:
+                        if complete_sequences:
+                            matching_sequences = complete_sequences
+
                         if seq_complete and len(matching_sequences) > 1:
                             matching_sequences = await self.fix_sequences(matching_sequences, tok_list)
 
-- 
2.43.0


From a8dfb6fe49192f8d71a3d2c7766084d7229b8d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 04/52] fix: inline function dec must subtract one

---
 nessaid_cli/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 7964d1b..ff58515 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -502,7 +502,7 @@ class CliInterface(StdStreamsHolder):
         if func_name == 'dec':
             r = args[0]
             try:
-                r = r + 1
+                r = r - 1
             except Exception:
                 pass
             return r
-- 
2.43.0


From 56a62143e58db333650b045a0d6d2aa1e502f40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 05/52] fix: quote CLI strings containing a backslash

---
 nessaid_cli/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/utils.py b/nessaid_cli/utils.py
index e7b1e30..b8c9f4a 100644
--- a/nessaid_cli/utils.py
+++ b/nessaid_cli/utils.py
@@ -75,7 +75,7 @@ def convert_to_python_string(cli_string, cli=None):
 
 
 def convert_to_cli_string(python_string):
-    if any(c in python_string for c in [" ", "\n", "\0", "\r", "\t", "\b", "\a", "\v", '"']):
+    if any(c in python_string for c in [" ", "\n", "\0", "\r", "\t", "\b", "\a", "\v", '"', "\\"]):
 
         if python_string.startswith('"'):
             python_string = python_string[1:]
-- 
2.43.0


From be0fc8ad6df039919dedfea3d19c263fe23039c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 06/52] fix: do not cache path token values

---
 nessaid_cli/tokens.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 73120e4..1d29fac 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -580,6 +580,11 @@ class PathToken(StringToken):
     def completable(self):
         return True
 
+    @property
+    def cacheable(self):
+        # The value depends on the current content of the file system
+        return False
+
     @property
     def is_windows(self):
         if self._is_windows is None:
-- 
2.43.0


From e64900995fe9af74bd3d02e95d5cbd1278f8dc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 07/52] fix: action identifiers may start with a keyword of the
 action language

---
 .../binding_parser/binding_text_parser.py     | 23 ++++++++-----------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/nessaid_cli/binding_parser/binding_text_parser.py b/nessaid_cli/binding_parser/binding_text_parser.py
index 83e6afa..86f6208 100644
--- a/nessaid_cli/binding_parser/binding_text_parser.py
+++ b/nessaid_cli/binding_parser/binding_text_parser.py
@@ -27,21 +27,18 @@ class NessaidCliBindingLexer(NessaidCliLexerCommon):
 
     t_ignore_COMMENT = NessaidCliLexerCommon.common_COMMENT
 
-    def t_TRUE(self, t):
-        "True"
+    def t_IDENTIFIER(self, t):
+        r'[A-Za-z_][-a-zA-Z0-9_]*'
+        if t.value in NessaidCliBindingLexer.KYWORD_TOKENS:
+            t.type = NessaidCliBindingLexer.KYWORD_TOKENS[t.value]
         return t
 
-    def t_FALSE(self, t):
-        "False"
-        return t
-
-    def t_NONE(self, t):
-        "None"
-        return t
-
-    def t_CALL(self, t):
-        "call"
-        return t
+    KYWORD_TOKENS = {
+        "True": 'TRUE',
+        "False": 'FALSE',
+        "None": 'NONE',
+        "call": 'CALL',
+    }
 
     def __init__(self, filename="", starting_lineno=1, starting_linepos=0, stdin=None, stdout=None, stderr=None):
         # Build the lexer
-- 
2.43.0


From 86e496c04b2ee826251b55ba28f6579971aa7d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 08/52] fix: do not share cached conversions between quoted and
 plain strings

---
 nessaid_cli/utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nessaid_cli/utils.py b/nessaid_cli/utils.py
index b8c9f4a..ed50ea3 100644
--- a/nessaid_cli/utils.py
+++ b/nessaid_cli/utils.py
@@ -39,12 +39,15 @@ class ExtendedString(str):
 
 def convert_to_python_string(cli_string, cli=None):
 
-    if cli and cli_string in cli.str_cache:
-        return cli.str_cache[cli_string]
+    quoted = hasattr(cli_string, "quoted") and cli_string.quoted
+    cache_key = (str(cli_string), quoted)
+
+    if cli and cache_key in cli.str_cache:
+        return cli.str_cache[cache_key]
 
     converted_str = cli_string
 
-    if hasattr(cli_string, "quoted") and cli_string.quoted:
+    if quoted:
         if converted_str.startswith('"'):
             converted_str = converted_str[1:]
 
@@ -69,7 +72,7 @@ def convert_to_python_string(cli_string, cli=None):
         converted_str = "\\".join(converted_parts)
 
     if cli:
-        cli.cache_string(cli_string, converted_str)
+        cli.cache_string(cache_key, converted_str)
 
     return converted_str
 
-- 
2.43.0


From 6d1c8d485bcd542df8d6ba7c3364f1784464bca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 09/52] fix: the input 0 completes to no integer other than 0

---
 nessaid_cli/tokens.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 1d29fac..209a642 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -417,6 +417,12 @@ class RangedIntToken(CliToken):
                 except Exception:
                     return 0, []
 
+                if number == 0:
+                    # No other number starts with 0
+                    if self._start <= 0 and self._end >= 0:
+                        return 1, ["0"]
+                    return 0, []
+
                 if number < 0 or token_input.startswith("-"):
                     if number == 0 and self._start == 0:
                         return 1, ["0"]
-- 
2.43.0


From ab2a1124ca56627465dc2f10cf3b2d8e52ff9845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 10/52] fix: match the negative integers of an integer range

---
 nessaid_cli/tokens.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 209a642..60e8d34 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -288,9 +288,15 @@ class RangedIntToken(CliToken):
     def helpstring(self):
         return self._helpstring or "An integer between {} and {}".format(self._start, self._end)
 
+    @staticmethod
+    def _is_integer(match_string):
+        if match_string.startswith("-"):
+            return match_string[1:].isnumeric()
+        return match_string.isnumeric()
+
     async def get_value(self, match_string=None, cli=None): # noqa
         try:
-            if match_string.isnumeric():
+            if self._is_integer(match_string):
                 number = int(match_string)
                 if number >= self._start and number <= self._end:
                     return number
@@ -387,13 +393,13 @@ class RangedIntToken(CliToken):
                 if self._start >= 0:
                     return 0, []
                 if self._end >= 0:
-                    comp_args = [0, -self._start, 0]
+                    comp_args = [1, -self._start, 0]
                 else:
                     comp_args = [-self._end, -self._start, 0]
                 n, comps = await self._complete(*comp_args)
                 if n > 0 and not comps:
                     return TOO_MANY_COMPLETIONS, []
-                return n, [-c for c in comps]
+                return n, [str(-c) for c in comps]
             elif token_input == '':
                 count = self._end - self._start + 1
                 if count > 10:
@@ -410,7 +416,7 @@ class RangedIntToken(CliToken):
 
             else:
                 try:
-                    if token_input.isnumeric():
+                    if self._is_integer(token_input):
                         number = int(token_input)
                     else:
                         return 0, []
-- 
2.43.0


From d5b7dc64fd3ebae0501f84d65bae135eaf057512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 11/52] fix: leading digits with a single completion are a
 partial integer

---
 nessaid_cli/tokens.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 60e8d34..67cf512 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -381,6 +381,8 @@ class RangedIntToken(CliToken):
             if n > 1 or n == TOO_MANY_COMPLETIONS:
                 return MATCH_PARTIAL
             elif n == 1:
+                if await self.get_value(token_input, cli=cli) is NullTokenValue:
+                    return MATCH_PARTIAL
                 return MATCH_SUCCESS
         return MATCH_FAILURE
 
-- 
2.43.0


From f1f5fa568806be07ceb2dc617ae3ecbb306ec52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 12/52] fix: hand on a path that matches several entries
 without its quotes

---
 nessaid_cli/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 67cf512..15db8ac 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -642,7 +642,7 @@ class PathToken(StringToken):
         elif n == 1:
             return l[0].path_string
         else:
-            return str_input
+            return await super().get_value(str_input, cli=cli)
 
     async def complete(self, str_input, cli=None): # noqa
         if str_input == "":
-- 
2.43.0


From cfeba49d265dced734e327a6c2c7113cdbf123ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 13/52] fix: do not drop what follows a doubled path separator

---
 nessaid_cli/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 15db8ac..57617d9 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -765,7 +765,7 @@ class PathToken(StringToken):
 
             segment = segments.pop(0)
             if segment == "":
-                break
+                continue
 
             p.has_dir_completion = False
 
-- 
2.43.0


From b4d3fb1861b8e95b754a8a37ec6f5db893781bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 14/52] fix: one token reading must not discard the other
 readings of an input

---
 nessaid_cli/interface.py | 42 +++++++++-------------------------------
 1 file changed, 9 insertions(+), 33 deletions(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index ff58515..c4dab53 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -733,6 +733,7 @@ class CliInterface(StdStreamsHolder):
 
         while True:
             seq_complete = False
+            ambiguous_options = False
 
             assert len(seq_copy) == len(matching_seq_choices)
 
@@ -774,39 +775,12 @@ class CliInterface(StdStreamsHolder):
 
                 for p in partial_matches:
                     token = self.get_token(p[-1].name)
-                    if token.completable:
-                        if completion:
-                            if dry_run and not token_list and not last_token_complete:
-                                self.append_matching_sequence(matching_sequences, p)
-                            elif len(completion) == 1:
-                                _n, comps = await self.complete_token(token, cur_token_input) # noqa
-                                if len(comps) == 1:
-                                    val = await self.get_token_value(token, cur_token_input)
-                                    if val is not NullTokenValue:
-                                        self.append_matching_sequence(matching_sequences, p)
-                            elif await self.get_token_value(token, cur_token_input) is not NullTokenValue:
-                                self.append_matching_sequence(matching_sequences, p)
-                            else:
-                                res.result = MATCH_FAILURE
-                                res.offending_token = tok_list[len(res.matched_sequence)]
-                                res.offending_token_position = len(res.matched_sequence)
-                                res.error = "Ambiguous options matched for the input token: {}".format(
-                                    tok_list[len(res.matched_sequence)])
-                                self.clear_caches()
-                                return res
-                        elif dry_run and not token_list and not last_token_complete:
-                            self.append_matching_sequence(matching_sequences, p)
-                        elif len(partial_matches) == 1:
-                            v = await self.get_token_value(token, cur_token_input)
-                            if v is not NullTokenValue:
-                                self.append_matching_sequence(matching_sequences, p)
-                    else:
-                        v = await self.get_token_value(token, cur_token_input)
-                        if v is not NullTokenValue:
-                            self.append_matching_sequence(matching_sequences, p)
-                        elif dry_run:
-                            if not token_list and not last_token_complete:
-                                self.append_matching_sequence(matching_sequences, p)
+                    if dry_run and not token_list and not last_token_complete:
+                        self.append_matching_sequence(matching_sequences, p)
+                    elif await self.get_token_value(token, cur_token_input) is not NullTokenValue:
+                        self.append_matching_sequence(matching_sequences, p)
+                    elif len(completion) > 1:
+                        ambiguous_options = True
 
             if not initial:
 
@@ -822,6 +796,8 @@ class CliInterface(StdStreamsHolder):
                         if len(tok_list) > len(res.matched_sequence):
                             res.offending_token = tok_list[len(res.matched_sequence)]
                             res.offending_token_position = len(res.matched_sequence)
+                        if ambiguous_options:
+                            res.error = "Ambiguous options matched for the input token: {}".format(res.offending_token)
                     self.clear_caches()
                     return res
 
-- 
2.43.0


From 9c7353a001b02cf3a5e0c9dbc6ca631e205b32de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:24 +0000
Subject: [PATCH 15/52] fix: readings already ruled out must not influence
 ambiguity resolution

---
 nessaid_cli/interface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index c4dab53..b512c00 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -947,7 +947,7 @@ class CliInterface(StdStreamsHolder):
                         match = await self.match_token(token, tok_list[i])
                         toc_types.append(match)
 
-                    if MATCH_SUCCESS in toc_types:
+                    if any(toc_types[j] == MATCH_SUCCESS for j in tokens_to_keep):
                         for j in range(seq_count):
                             if j in tokens_to_keep:
                                 if toc_types[j] != MATCH_SUCCESS:
@@ -965,7 +965,7 @@ class CliInterface(StdStreamsHolder):
                         else:
                             toc_types.append(False)
 
-                    if True in toc_types:
+                    if any(toc_types[j] for j in tokens_to_keep):
                         for j in range(seq_count):
                             if j in tokens_to_keep:
                                 if toc_types[j] != True:
-- 
2.43.0


From 806773500fd037604c858ddb753f6070d7cd02f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 16/52] fix: assigning a variable takes its value and does not
 alias it

---
 nessaid_cli/interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index b512c00..39e4a5e 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -247,6 +247,8 @@ class ExecContext():
 
                     if lhs:
                         rhs = await self.resolve_argument(block.rhs)
+                        if isinstance(rhs, BindingVariable):
+                            rhs = rhs.value
                         lhs.assign(rhs)
 
                 elif isinstance(block, BindingCall):
-- 
2.43.0


From 9f510962652824cbbf9a18b2673f9e71db015def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 17/52] fix: a > inside an action does not end the action

---
 nessaid_cli/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/compiler.py b/nessaid_cli/compiler.py
index b0ca491..1f2a16e 100644
--- a/nessaid_cli/compiler.py
+++ b/nessaid_cli/compiler.py
@@ -98,7 +98,7 @@ class NessaidCliLexer(NessaidCliLexerCommon):
         return t
 
     def t_BINDING_BOUND_CONTENT(self, t):
-        r'([^>\\])+'
+        r'([^>\\]|>(?!>))+'
         self.update_counters(t)
         return t
 
-- 
2.43.0


From 171ba3821c0fa77e9d42738cdcd9a20913f0e46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 18/52] fix: a line comment ends at a carriage return as lines
 do

---
 nessaid_cli/lex_yacc_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/lex_yacc_common.py b/nessaid_cli/lex_yacc_common.py
index f9f4944..065cdb7 100644
--- a/nessaid_cli/lex_yacc_common.py
+++ b/nessaid_cli/lex_yacc_common.py
@@ -145,7 +145,7 @@ class NessaidCliLexerCommon(StdStreamsHolder):
         self.lexer.begin(self._lex_states[-1] if self._lex_states else NessaidCliLexerCommon.INITIAL_STATE)
 
     def common_COMMENT(self, t):
-        r'(/\*(.|\n)*?\*/)|(//.*)|(\#.*)'
+        r'(/\*(.|\n)*?\*/)|(//[^\r\n]*)|(\#[^\r\n]*)'
         self.update_counters(t)
 
     @property
-- 
2.43.0


From 66f290a138b579e2ecfe6e703cd4de53d7a0479a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:26 +0000
Subject: [PATCH 19/52] fix: a plain mixin must not hide the grammar of the
 classes behind it

---
 nessaid_cli/cmd.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index cfb8208..438d34f 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -208,8 +208,6 @@ class NessaidCmd(NessaidCli):
                         grammar_texts.append(base_class.__doc__)
                 else:
                     break
-            else:
-                break
         grammar_texts = reversed(grammar_texts)
 
         if grammar_texts:
-- 
2.43.0


From 6ced1e04961a31cff3ea554ad2721de90a357f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:34 +0000
Subject: [PATCH 20/52] fix: arguments holding quotes, backslashes or control
 characters arrive as they are

exec_args put arguments with blanks in quotes as they were, and left others
alone, so that a quote or a backslash in an argument split it or made it
invalid. Arguments are now written in the command line notation.
---
 nessaid_cli/cmd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index 438d34f..6624187 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -19,6 +19,7 @@ import linecache
 import tracemalloc
 from datetime import datetime
 
+from nessaid_cli.utils import convert_to_cli_string
 from nessaid_cli.compiler import compile_grammar
 from nessaid_cli.cli import NessaidCli, ChildCliExitException, CliAlreadyRunning
 from nessaid_cli.tokens import RangedIntToken, StringToken, MATCH_SUCCESS, MATCH_FAILURE, MATCH_PARTIAL, MATCH_AMBIGUOUS
@@ -374,7 +375,7 @@ class NessaidCmd(NessaidCli):
 
     def exec_args(self, *args):
         modified_args = []
-        chars_to_check = [" "]
+        chars_to_check = [" ", "\n", "\0", "\r", "\t", "\b", "\a", "\v", '"', "\\"]
         for arg in args:
             if not (arg.startswith('"') and arg.endswith('"')):
                 need_quoting = False
@@ -384,7 +385,7 @@ class NessaidCmd(NessaidCli):
                             need_quoting = True
                             break
                 if need_quoting:
-                    modified_args.append('"' + arg + '"')
+                    modified_args.append(convert_to_cli_string('"' + arg + '"'))
                     continue
             modified_args.append(arg)
 
-- 
2.43.0


From cc846d3eb3cef85ad910a55a011ebddd0e5f94bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:13 +0000
Subject: [PATCH 21/52] fix: an empty command file must not block the lines of
 the file that runs it

The empty list of its lines stayed on top of the pending files and was never
taken away, so nothing below it was read any more.
---
 nessaid_cli/cli.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 68fefbf..79b5b09 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -122,13 +122,15 @@ class NessaidCli(CliInterface):
     def file_line(self):
         if self.parent:
             return self.parent.file_line
-        if self._file_data:
+        while self._file_data:
             file_content = self._file_data[-1]
-            if file_content:
-                file_line = file_content.pop(0)
-                if not file_content:
-                    self._file_data.pop()
-                return file_line
+            if not file_content:
+                self._file_data.pop()
+                continue
+            file_line = file_content.pop(0)
+            if not file_content:
+                self._file_data.pop()
+            return file_line
         return None
 
     @property
-- 
2.43.0


From 8a002074e1d267c783b0432a191b2e332150318c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 22/52] fix: a context that falls back on its parent runs its
 exit hook once

match() called on_exit before raising the exception that ends the loop of the
context, which calls it on its way out.
---
 nessaid_cli/cmd.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index 6624187..3e0a565 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -475,7 +475,6 @@ class NessaidCmd(NessaidCli):
                 if dry_run:
                     return parent_resp
                 else:
-                    await self.on_exit()
                     raise ChildCliExitException(
                         tok_list=tok_list, dry_run=dry_run,
                         last_token_complete=last_token_complete, arglist=arglist
-- 
2.43.0


From bf2364988640ef3fc6139dd58a73b340da954b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 23/52] fix: a line falling back from a context opened at the
 start can open another one

The context such a line opened was discarded, and its failure was not reported.
---
 nessaid_cli/cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 79b5b09..f38d296 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -506,13 +506,14 @@ class NessaidCli(CliInterface):
                 child_cli = self.child_cli
                 try:
                     await child_cli.context_loop()
+                    self.child_cli = None
                 except ChildCliExitException as e:
+                    self.child_cli = None
                     match_output = await self.match(
                         e.token_list, dry_run=e.dry_run,
                         last_token_complete=e.last_token_complete, arglist=e.arglist
                     )
-                finally:
-                    self.child_cli = None
+                    self.process_cli_response(e.token_list, match_output)
 
             self._partial_line = False
             self._effective_line = ""
-- 
2.43.0


From cbff98dddd553bd986eef45b8da6e5835535a189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:16 +0000
Subject: [PATCH 24/52] fix: do not insert help text on TAB when what comes
 next has no fixed text

---
 nessaid_cli/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 39e4a5e..e50ec4c 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -148,7 +148,7 @@ class ParsingResult():
 
         if add_EOI:
             self.next_tokens.append(EndOfInpuToken)
-        elif cur_input:
+        elif cur_input and all(t.completion for t in self.next_tokens):
             common_prefix = self.common_prefix(self.next_tokens)
             if common_prefix:
                 self.last_token = (cur_input, common_prefix)
-- 
2.43.0


From 63d0f98f5dcd8d38127f4de0e2b2071d84db8c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:16 +0000
Subject: [PATCH 25/52] fix: a blank inside an open quoted string does not end
 the token for completion

---
 nessaid_cli/cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index f38d296..5b73e7a 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -242,7 +242,10 @@ class NessaidCli(CliInterface):
             self.set_completion_tokens(["Exception tokenizing input line: {}: {}".format(type(e), e)])
             return None
 
-        if line and line[-1] in TOKEN_SEPARATORS:
+        # a blank inside an open quoted string does not end the token
+        open_quote = bool(tokens) and getattr(tokens[-1], "quote_incomplete", False)
+
+        if line and line[-1] in TOKEN_SEPARATORS and not open_quote:
             last_token_complete = True
         else:
             last_token_complete = False
-- 
2.43.0


From 8e3b5b483d2f5429f1eff196260efb8d98459fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:52 +0000
Subject: [PATCH 26/52] fix: an interrupted command does not leave its
 variables to the next line

---
 nessaid_cli/interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index e50ec4c..e2e7133 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -267,6 +267,8 @@ class ExecContext():
             element_node.input_sequence.append(token_value)
             return
 
+        # An interrupted execution leaves its nodes as they were
+        element_node.reset()
         element_node.input_sequence.append(token_value)
 
         element = element_node.element
-- 
2.43.0


From 91496a842b0e2b62f0e1001625414d4e1c76e6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:04 +0000
Subject: [PATCH 27/52] fix: the escaped quote at the end of an open quoted
 string was taken for its closing quote

---
 nessaid_cli/tokens.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 57617d9..05c2dc5 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -232,7 +232,10 @@ class StringToken(CliToken):
             if match_string.startswith('"'):
                 match_string = match_string[1:]
             if match_string.endswith('"'):
-                match_string = match_string[:-1]
+                content = match_string[:-1]
+                # An escaped quote does not close the string
+                if (len(content) - len(content.rstrip('\\'))) % 2 == 0:
+                    match_string = content
             return match_string
         return NullTokenValue
 
-- 
2.43.0


From 2601b98714caf3a2e4f503fdeb1709c53798af21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:04 +0000
Subject: [PATCH 28/52] fix: the length of a quoted string was measured with
 its escape sequences not replaced

---
 nessaid_cli/tokens.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 05c2dc5..b1c5cd3 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -264,15 +264,18 @@ class RangedStringToken(StringToken):
     async def get_value(self, match_string=None, cli=None):
         s = await super().get_value(match_string, cli=cli)
         if isinstance(s, str):
-            if len(s) >= self._min_len and len(s) <= self._max_len:
+            # An escape sequence is one character of the string
+            length = len(convert_to_python_string(s))
+            if length >= self._min_len and length <= self._max_len:
                 return s
         return NullTokenValue
 
     async def match(self, token_input, cli=None):
         val = await super().get_value(token_input, cli=cli)
-        if len(val) > self._max_len:
+        length = len(convert_to_python_string(val))
+        if length > self._max_len:
             return MATCH_FAILURE
-        if len(val) == self._max_len:
+        if length == self._max_len:
             return MATCH_SUCCESS
         return MATCH_PARTIAL
 
-- 
2.43.0


From 1a579c4737444f05edb261f5eda7be22dc084cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:25 +0000
Subject: [PATCH 29/52] fix: arguments that only begin and end with a quote
 arrive whole

exec_args took them for quoted strings: a lone quote swallowed the arguments
after it, and "a" "b" became two.
---
 nessaid_cli/cmd.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index 3e0a565..7082f7d 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -8,6 +8,7 @@
 # pylint: disable=method-hidden
 
 import os
+import re
 import time
 import pstats
 import cProfile
@@ -377,14 +378,9 @@ class NessaidCmd(NessaidCli):
         modified_args = []
         chars_to_check = [" ", "\n", "\0", "\r", "\t", "\b", "\a", "\v", '"', "\\"]
         for arg in args:
-            if not (arg.startswith('"') and arg.endswith('"')):
-                need_quoting = False
-                for c in chars_to_check:
-                    if arg.strip():
-                        if c in arg:
-                            need_quoting = True
-                            break
-                if need_quoting:
+            # An argument which is a quoted string already is left as it is
+            if not re.fullmatch(r'"([^"\n\r\t\\\0]|\\[0nrtbva"\\])*"', arg):
+                if arg.strip() and any(c in arg for c in chars_to_check):
                     modified_args.append(convert_to_cli_string('"' + arg + '"'))
                     continue
             modified_args.append(arg)
-- 
2.43.0


From fb481fbf8d65ca620b5971ab7976fcccbcd4280f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:49 +0000
Subject: [PATCH 30/52] fix: pass named arguments of a token definition by name

---
 nessaid_cli/elements.py  | 7 ++++++-
 nessaid_cli/interface.py | 4 ++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/nessaid_cli/elements.py b/nessaid_cli/elements.py
index 81f4f8c..f83d7ef 100644
--- a/nessaid_cli/elements.py
+++ b/nessaid_cli/elements.py
@@ -489,7 +489,8 @@ class TokenClassDef():
 
     def __init__(self, classname, arglist):
         self._classname = classname
-        self._arglist = [arg.value for arg in arglist]
+        self._arglist = [arg.value for arg in arglist if arg.param_name is None]
+        self._kwargs = {arg.param_name: arg.value for arg in arglist if arg.param_name is not None}
 
     @property
     def classname(self):
@@ -499,6 +500,10 @@ class TokenClassDef():
     def arglist(self):
         return self._arglist
 
+    @property
+    def kwargs(self):
+        return self._kwargs
+
 
 class GrammarSpecification:
 
diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index e2e7133..c605f14 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -454,7 +454,7 @@ class CliInterface(StdStreamsHolder):
                 if tokendef.classname in self._token_class_map:
                     try:
                         self._tokens[(name, helpstring)] = self._token_class_map[tokendef.classname](
-                            name, *tokendef.arglist, cli=self, helpstring=helpstring)
+                            name, *tokendef.arglist, cli=self, helpstring=helpstring, **tokendef.kwargs)
                         return self._tokens[(name, helpstring)]
                     except Exception as e:
                         self.error("Exception creating token object from token def:", e)
@@ -463,7 +463,7 @@ class CliInterface(StdStreamsHolder):
                 if tokendef.classname in _globals:
                     try:
                         self._tokens[(name, helpstring)] =  _globals[tokendef.classname](
-                            name, *tokendef.arglist, cli=self, helpstring=helpstring)
+                            name, *tokendef.arglist, cli=self, helpstring=helpstring, **tokendef.kwargs)
                         return self._tokens[(name, helpstring)]
                     except Exception as e:
                         self.error("Exception creating token object from token def:", e)
-- 
2.43.0


From e45388cafeb6ed5bf9d4ecbdee7f227ea4750b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:44 +0000
Subject: [PATCH 31/52] fix: forget the matched values of the line before

---
 nessaid_cli/interface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index c605f14..fe0acae 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -694,6 +694,7 @@ class CliInterface(StdStreamsHolder):
         self._token_miss = 0
         self._token_value_hit = 0
         self._token_value_miss = 0
+        self._matched_values = []
 
         if not arglist:
             args = []
-- 
2.43.0


From bed51db338b9e91abe746b6117a87cd460202d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:52 +0000
Subject: [PATCH 32/52] fix: replace the escape sequences of a string exactly
 once

---
 nessaid_cli/interface.py | 10 ++++++----
 nessaid_cli/utils.py     |  9 +++++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index fe0acae..d5dd89f 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -7,7 +7,7 @@
 
 import asyncio
 
-from nessaid_cli.utils import StdStreamsHolder, convert_to_python_string
+from nessaid_cli.utils import PythonString, StdStreamsHolder, convert_to_python_string
 
 
 from nessaid_cli.tokens import (
@@ -209,12 +209,12 @@ class ExecContext():
             ext_fn = argument.name
             arglist = [await self.evaluate(arg) for arg in argument.arglist]
             call_res = await self._interface.execute_binding_call(ext_fn, False, *arglist)
-            return call_res
+            return PythonString(call_res) if type(call_res) is str else call_res
         elif type(argument) == FunctionCall:
             ext_fn = argument.name
             arglist = [await self.evaluate(arg) for arg in argument.arglist]
             call_res = await self._interface.execute_binding_call(ext_fn, True, *arglist)
-            return call_res
+            return PythonString(call_res) if type(call_res) is str else call_res
         return argument
 
     async def evaluate(self, arg):
@@ -225,7 +225,9 @@ class ExecContext():
             res = res_arg
 
         if isinstance(res, str):
-            res = convert_to_python_string(str(res), cli=self._interface)
+            if not isinstance(res, PythonString):
+                res = convert_to_python_string(str(res), cli=self._interface)
+            res = str(res)
         return res
 
     async def execute_binding(self, binding_code):
diff --git a/nessaid_cli/utils.py b/nessaid_cli/utils.py
index ed50ea3..1ef66e8 100644
--- a/nessaid_cli/utils.py
+++ b/nessaid_cli/utils.py
@@ -37,8 +37,15 @@ class ExtendedString(str):
         return str(self)
 
 
+class PythonString(str):
+    """A string in which the escape sequences are replaced already"""
+
+
 def convert_to_python_string(cli_string, cli=None):
 
+    if isinstance(cli_string, PythonString):
+        return cli_string
+
     quoted = hasattr(cli_string, "quoted") and cli_string.quoted
     cache_key = (str(cli_string), quoted)
 
@@ -71,6 +78,8 @@ def convert_to_python_string(cli_string, cli=None):
 
         converted_str = "\\".join(converted_parts)
 
+    converted_str = PythonString(converted_str)
+
     if cli:
         cli.cache_string(cache_key, converted_str)
 
-- 
2.43.0


From cdf162320edb338af9d8f08bd94a71613596d3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:42 +0000
Subject: [PATCH 33/52] fix: strings given as arguments arrive and are handed
 back as they are

---
 nessaid_cli/interface.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index d5dd89f..00b76be 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -187,7 +187,14 @@ class ExecContext():
 
     @property
     def root_arglist(self):
-        return [e.value for e in self._root_arglist]
+        return [self.python_value(e.value) for e in self._root_arglist]
+
+    def python_value(self, value):
+        if isinstance(value, str):
+            if not isinstance(value, PythonString):
+                value = convert_to_python_string(str(value), cli=self._interface)
+            value = str(value)
+        return value
 
     def resolve_variable(self, var):
         if type(var) == DollarVariable:
@@ -224,11 +231,7 @@ class ExecContext():
         else:
             res = res_arg
 
-        if isinstance(res, str):
-            if not isinstance(res, PythonString):
-                res = convert_to_python_string(str(res), cli=self._interface)
-            res = str(res)
-        return res
+        return self.python_value(res)
 
     async def execute_binding(self, binding_code):
 
@@ -703,10 +706,11 @@ class CliInterface(StdStreamsHolder):
         else:
             args = []
             for arg in arglist:
-                if isinstance(arg, CliArgument):
-                    args.append(arg)
-                else:
-                    args.append(CliArgument(arg))
+                if not isinstance(arg, CliArgument):
+                    arg = CliArgument(arg)
+                if type(arg.value) is str:
+                    arg = CliArgument(PythonString(arg.value), param_name=arg.param_name)
+                args.append(arg)
 
         cur_token_input = None
         token_list = tok_list.copy()
-- 
2.43.0


From fd2863a17b959691d24084b3a45391f81fb3d382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:42 +0000
Subject: [PATCH 34/52] fix: a line executed without arguments needs no
 argument list

---
 nessaid_cli/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 00b76be..f623e69 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -887,7 +887,7 @@ class CliInterface(StdStreamsHolder):
                                     root_arglist = await self.execute_success_sequence(matching_sequences[0], match_values, args)
                                 finally:
                                     self._executing = False
-                                arglen = len(arglist)
+                                arglen = len(arglist) if arglist else 0
                                 for i in range(arglen):
                                     arglist[i] = root_arglist.pop(0)
                                 res.result = MATCH_SUCCESS
-- 
2.43.0


From 323fc8bffb342bb3c0a88c2315ec998405096007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:03 +0000
Subject: [PATCH 35/52] fix: TAB in the answer to a prompt is part of the
 answer

---
 nessaid_cli/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 5b73e7a..39631fc 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -202,7 +202,8 @@ class NessaidCli(CliInterface):
     async def complete(self, text, state): #noqa
 
         if self._waiting_input:
-            await self._readline.insert_text("\t")
+            # insert_text would take it for the completion key again
+            self._readline._putchar("\t")
             return None
 
         if self._partial_line:
-- 
2.43.0


From a706d4fe0e79bba6b80a9bbc6860ab740464d1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:50 +0000
Subject: [PATCH 36/52] fix: a failing exit hook does not leave the loop marked
 as running

---
 nessaid_cli/cli.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 39631fc..aae907e 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -591,14 +591,16 @@ class NessaidCli(CliInterface):
                     traceback.print_tb(e.__traceback__, file=self.stderr)
                     self.error("\n")
         finally:
-            await self.on_exit()
-            self._exit_loop = False
-            self.exit_grammar()
-            self._running = False
-            top_cli = self._cli_stack.pop()
-            if self != top_cli:
-                raise(Exception("Bug in CLI stack"))
-            self._loop_task = None
+            try:
+                await self.on_exit()
+            finally:
+                self._exit_loop = False
+                self.exit_grammar()
+                self._running = False
+                top_cli = self._cli_stack.pop()
+                if self != top_cli:
+                    raise(Exception("Bug in CLI stack"))
+                self._loop_task = None
 
     async def on_exit(self):
         pass
-- 
2.43.0


From ab7deeb8266180945b4f8587bb9bb5eb62f6eefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:07 +0000
Subject: [PATCH 37/52] fix: entering an unknown grammar is refused

---
 nessaid_cli/cli.py       | 7 ++++++-
 nessaid_cli/interface.py | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index aae907e..18e7897 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -488,12 +488,17 @@ class NessaidCli(CliInterface):
 
     async def cmdloop(self, grammarname, intro=None):
 
+        try:
+            self.enter_grammar(grammarname)
+        except Exception:
+            self._running = False
+            raise
+
         if self._filename:
             self.add_file_to_execute(self._filename)
 
         self._running = True
         self._cli_stack.append(self)
-        self.enter_grammar(grammarname)
 
         try:
             await self.preloop()
diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index f623e69..cb3d304 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -422,6 +422,8 @@ class CliInterface(StdStreamsHolder):
     def enter_grammar(self, grammar_name):
         try:
             grammar = self._grammars.get_grammar(grammar_name)
+            if grammar is None:
+                raise ValueError("Unknown grammar: {}".format(grammar_name))
             self._grammar_stack.append(grammar)
             self._parse_tree = GrammarWalkTree(grammar)
         except Exception as e:
-- 
2.43.0


From 0d8cbe65755602798cfe6795e097fec5f94b4961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:09 +0000
Subject: [PATCH 38/52] fix: a token class mixing plain methods and coroutines
 is warned of, and does not prevent the interface from being made

---
 nessaid_cli/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 18e7897..e0f41f3 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -54,10 +54,11 @@ class NessaidCli(CliInterface):
                  completekey='tab', use_rawinput=True, history_size=100, enable_bell=False, str_cache_size=128):
 
         self._loop = loop if loop else asyncio.get_event_loop()
-        self.validate_token_classes()
 
         super().__init__(self._loop, grammarset, stdin=stdin, stdout=stdout, stderr=stderr, str_cache_size=str_cache_size)
 
+        self.validate_token_classes()
+
         enable_bell = False if enable_bell is not True else True
 
         self._history_size = history_size
-- 
2.43.0


From 03eeee96679e28a710e6e7263a42b347868a25b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:13 +0000
Subject: [PATCH 39/52] fix: a folder that may not be read is reported on the
 error stream of the interface

---
 nessaid_cli/tokens.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index b1c5cd3..5e8d782 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -584,6 +584,7 @@ class PathToken(StringToken):
     DIRECTORY = 'directory'
 
     def __init__(self, name, pathtype=ANY, cli=None, helpstring=None):
+        self._cli = cli
         self._pathtype = pathtype
         self._is_windows = None
         super().__init__(name, cli=cli, helpstring=helpstring)
@@ -638,7 +639,8 @@ class PathToken(StringToken):
                 content.remove("..")
             return content
         except PermissionError:
-            print("\nPermissionError on {}\n".format(path))
+            report = self._cli.error if self._cli else print
+            report("\nPermissionError on {}\n".format(path))
             return []
 
     async def get_value(self, str_input, cli=None): # noqa
-- 
2.43.0


From 5748cfeee6f3467cbcf3bbdc75128f4ab4beddb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:17 +0000
Subject: [PATCH 40/52] fix: profiles are written to the output stream of the
 interface

---
 nessaid_cli/cmd.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index 7082f7d..df22f70 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -430,13 +430,13 @@ class NessaidCmd(NessaidCli):
             with cProfile.Profile() as pr:
                 res = await super().match(tok_list, dry_run, last_token_complete, arglist)
             if self._enable_profiling and enable_profiling:
-                stats = pstats.Stats(pr)
+                stats = pstats.Stats(pr, stream=self.stdout)
                 stats.sort_stats('cumtime')
                 stats.print_stats()
-                print("Token Hit:", self._token_hit)
-                print("Token Miss:", self._token_miss)
-                print("Token Value Hit:", self._token_value_hit)
-                print("Token Value Miss:", self._token_value_miss)
+                self.print("Token Hit:", self._token_hit)
+                self.print("Token Miss:", self._token_miss)
+                self.print("Token Value Hit:", self._token_value_hit)
+                self.print("Token Value Miss:", self._token_value_miss)
         else:
             res = await super().match(tok_list, dry_run, last_token_complete, arglist)
         end = time.time()
-- 
2.43.0


From 9dfa33bab62f16259a6a8b21cb71333370d001e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:19 +0000
Subject: [PATCH 41/52] fix: a line is executed without profiling while another
 profiler is active

---
 nessaid_cli/cmd.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index df22f70..8dce51d 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -427,9 +427,18 @@ class NessaidCmd(NessaidCli):
 
         start = time.time()
         if self._enable_profiling:
-            with cProfile.Profile() as pr:
+            pr = cProfile.Profile()
+            try:
+                pr.enable()
+            except ValueError:
+                # Another profiler is active. Execute the line without profiling
+                pr = None
+            try:
                 res = await super().match(tok_list, dry_run, last_token_complete, arglist)
-            if self._enable_profiling and enable_profiling:
+            finally:
+                if pr:
+                    pr.disable()
+            if pr and self._enable_profiling and enable_profiling:
                 stats = pstats.Stats(pr, stream=self.stdout)
                 stats.sort_stats('cumtime')
                 stats.print_stats()
-- 
2.43.0


From 03393d414be7e7ae99cb69534e5da3eefb98ba3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:13 +0000
Subject: [PATCH 42/52] fix: memory statistics are written to the output stream
 of the interface

---
 nessaid_cli/cmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index 8dce51d..102ec44 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -269,7 +269,7 @@ class NessaidCmd(NessaidCli):
                 return
             top_stats = snapshot.compare_to(self.last_tracemalloc_snapshot, key_type)
             for stat in top_stats[:limit]:
-                print(stat)
+                print(stat, file=self.stdout)
 
         self.last_tracemalloc_snapshot = snapshot
 
-- 
2.43.0


From 2f8d58d95ffa199a8bb31a812e4fc42b926ba852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:13 +0000
Subject: [PATCH 43/52] fix: a constant keyword is not taken for the token of
 the same name

---
 nessaid_cli/elements.py  |  8 +++++++-
 nessaid_cli/interface.py | 11 +++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/elements.py b/nessaid_cli/elements.py
index f83d7ef..8e268c4 100644
--- a/nessaid_cli/elements.py
+++ b/nessaid_cli/elements.py
@@ -7,7 +7,7 @@
 
 from nessaid_cli.tokens import CliToken, MATCH_FAILURE, NullTokenValue
 from nessaid_cli.lex_yacc_common import DollarVariable
-from nessaid_cli.utils import ExtendedString
+from nessaid_cli.utils import ExtendedString, PythonString
 
 
 class CliParameter(ExtendedString):
@@ -173,6 +173,10 @@ class InputElement():
         return self._help_string
 
 
+class ConstantName(PythonString):
+    """The text of a constant keyword, which may also be the name of a token"""
+
+
 class ConstantInputElement(InputElement):
 
     def __init__(self, keyword, helpstring=None):
@@ -568,6 +572,8 @@ class LookupToken():
         self._lookup_path = {}
         self._node = node
         self._name = self._node.element.value
+        if isinstance(self._node.element, ConstantInputElement):
+            self._name = ConstantName(self._name)
 
     @property
     def element(self):
diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index cb3d304..6de31c2 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -23,6 +23,7 @@ from nessaid_cli.elements import (
     GrammarWalkTree,
     TreeNode,
     CliArgument,
+    ConstantName,
     EndOfInpuToken,
     NamedGrammar,
     GrammarRefElement,
@@ -375,6 +376,7 @@ class CliInterface(StdStreamsHolder):
         self._stderr = stderr
 
         self._tokens = {}
+        self._constants = {}
         self._grammars = grammarset
         self._grammar_stack = []
         self._token_class_map = None
@@ -450,6 +452,15 @@ class CliInterface(StdStreamsHolder):
         if not (isinstance(name, str) and name):
             raise ValueError("Expected valid token name")
 
+        if isinstance(name, ConstantName):
+            # Not to be mistaken for a token of the same name
+            if (name, helpstring) not in self._constants:
+                self._token_miss += 1
+                self._constants[(name, helpstring)] = self.create_cli_token(name, tokendef=None, helpstring=helpstring)
+            else:
+                self._token_hit += 1
+            return self._constants[(name, helpstring)]
+
         if (name, helpstring) not in self._tokens:
             self._token_miss += 1
             tokendef = self._grammars.get_tokendef(name)
-- 
2.43.0


From f4611683d45baf6c12ebed5a6c4f1034f968d313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:07 +0000
Subject: [PATCH 44/52] fix: decorated and static command handlers are called
 with all their arguments

---
 nessaid_cli/cmd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index 102ec44..8df884b 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -146,8 +146,9 @@ class NessaidCmd(NessaidCli):
 
         for hook in grammar_hooks:
             if hook.__doc__:
-                argspec = inspect.getfullargspec(hook)
-                argnames = argspec.args[1:]
+                # The signature leaves out self and knows the parameters of decorated hooks
+                argnames = [p.name for p in inspect.signature(hook).parameters.values()
+                            if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
                 gramar_name = self.generate_grammar_name(hook)
                 grammar_alternatives.append(gramar_name)
                 argstring = ", ".join(["$arg_" + str(n + 1) for n in range(cli_nargs)])
-- 
2.43.0


From b63e0d4e7aef4101193a05f7a96eeff78251356f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:07 +0000
Subject: [PATCH 45/52] fix: a coroutine is awaited although the function that
 made it is decorated

---
 nessaid_cli/interface.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 6de31c2..74e3c9a 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -584,10 +584,10 @@ class CliInterface(StdStreamsHolder):
 
                 fn = getattr(self, self.get_cli_hook(func_name))
 
-                if asyncio.iscoroutinefunction(fn):
-                    res = await fn(*ext_args)
-                else:
-                    res = fn(*ext_args)
+                res = fn(*ext_args)
+                if asyncio.iscoroutine(res):
+                    # Of a coroutine function, perhaps a decorated one
+                    res = await res
             else:
                 res = await self.resolve_local_function_call(func_name, *ext_args, **kwarg)
 
@@ -675,10 +675,9 @@ class CliInterface(StdStreamsHolder):
 
         try:
             self._token_value_miss += 1
-            if asyncio.iscoroutinefunction(token.get_value):
-                value = await token.get_value(token_input, cli=self)
-            else:
-                value =  token.get_value(token_input, cli=self)
+            value = token.get_value(token_input, cli=self)
+            if asyncio.iscoroutine(value):
+                value = await value
             if token.cacheable:
                 self._token_value_cache[token_value_key] = value
             return value
@@ -690,19 +689,15 @@ class CliInterface(StdStreamsHolder):
 
     async def match_token(self, token, token_input):
         try:
-            if asyncio.iscoroutinefunction(token.match):
-                return await token.match(token_input, cli=self)
-            else:
-                return token.match(token_input, cli=self)
+            res = token.match(token_input, cli=self)
+            return await res if asyncio.iscoroutine(res) else res
         except:
             return MATCH_FAILURE
 
     async def complete_token(self, token, token_input):
         try:
-            if asyncio.iscoroutinefunction(token.complete):
-                return await token.complete(token_input, cli=self)
-            else:
-                return token.complete(token_input, cli=self)
+            res = token.complete(token_input, cli=self)
+            return await res if asyncio.iscoroutine(res) else res
         except:
             return 0, []
 
-- 
2.43.0


From 6050924503a5e565910bfe45448b93548aef7d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:07 +0000
Subject: [PATCH 46/52] fix: a token defined after its use is neither optional
 nor without its help text

---
 nessaid_cli/compiler.py |  2 +-
 nessaid_cli/elements.py | 11 ++++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/nessaid_cli/compiler.py b/nessaid_cli/compiler.py
index 1f2a16e..88e7107 100644
--- a/nessaid_cli/compiler.py
+++ b/nessaid_cli/compiler.py
@@ -415,7 +415,7 @@ class NessaidCliParser(NessaidCliParserCommon):
             t[0] = elem
             return
 
-        elem = UnresolvedInputElement(identifier)
+        elem = UnresolvedInputElement(identifier, helpstring=helpstring)
         self._grammar_spec.add_unresolved_element(elem)
         t[0] = elem
 
diff --git a/nessaid_cli/elements.py b/nessaid_cli/elements.py
index 8e268c4..6480ecc 100644
--- a/nessaid_cli/elements.py
+++ b/nessaid_cli/elements.py
@@ -467,8 +467,8 @@ class GrammarRefElement(InputElement):
 
 class UnresolvedInputElement(InputElement):
 
-    def __init__(self, keyword, arglist=None):
-        super().__init__()
+    def __init__(self, keyword, arglist=None, helpstring=None):
+        super().__init__(helpstring)
         if isinstance(keyword, str):
             self._value = keyword
         else:
@@ -483,8 +483,13 @@ class UnresolvedInputElement(InputElement):
     def arg_list(self):
         return self._arglist
 
+    @property
+    def mandatory(self):
+        # It stands for a token defined further on, or for the word itself
+        return True
+
     def copy(self):
-        cp = UnresolvedInputElement(self._value)
+        cp = UnresolvedInputElement(self._value, helpstring=self.helpstring)
         self.copy_extras(cp)
         return cp
 
-- 
2.43.0


From e89cf10e531464bb0635686de323ad74d21efe1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:55 +0000
Subject: [PATCH 47/52] fix: a text that begins or ends with a quote keeps it
 when it is written for the command line

---
 nessaid_cli/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nessaid_cli/utils.py b/nessaid_cli/utils.py
index 1ef66e8..3d54acd 100644
--- a/nessaid_cli/utils.py
+++ b/nessaid_cli/utils.py
@@ -89,10 +89,9 @@ def convert_to_python_string(cli_string, cli=None):
 def convert_to_cli_string(python_string):
     if any(c in python_string for c in [" ", "\n", "\0", "\r", "\t", "\b", "\a", "\v", '"', "\\"]):
 
-        if python_string.startswith('"'):
-            python_string = python_string[1:]
-        if python_string.endswith('"'):
-            python_string = python_string[:-1]
+        if len(python_string) > 1 and python_string.startswith('"') and python_string.endswith('"'):
+            # In quotes already
+            python_string = python_string[1:-1]
 
         parts = python_string.split("\\")
         converted_parts = []
-- 
2.43.0


From 319ab256901f7b06e3266015471ffd46c46ccdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:58 +0000
Subject: [PATCH 48/52] fix: escape sequences are replaced also in the lists of
 values of larger parts

---
 nessaid_cli/interface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 74e3c9a..165827c 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -606,6 +606,9 @@ class CliInterface(StdStreamsHolder):
             node = m.node
             node_data = [node]
             token_value = token_values.pop(0)
+            if isinstance(token_value, str) and not isinstance(token_value, PythonString):
+                # Also within the list of values of a larger part
+                token_value = convert_to_python_string(str(token_value), cli=self)
 
             while node.parent:
                 node = node.parent
-- 
2.43.0


From f7ef38f2f44c3e098933bfa1ff1475c9e1b65e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:23 +0000
Subject: [PATCH 49/52] fix: a quoted string ended by a stray backslash is
 complete when a blank follows it

---
 nessaid_cli/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index e0f41f3..3444056 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -245,7 +245,7 @@ class NessaidCli(CliInterface):
             return None
 
         # a blank inside an open quoted string does not end the token
-        open_quote = bool(tokens) and getattr(tokens[-1], "quote_incomplete", False)
+        open_quote = bool(tokens) and getattr(tokens[-1], "quote_incomplete", False) and line.endswith(str(tokens[-1]))
 
         if line and line[-1] in TOKEN_SEPARATORS and not open_quote:
             last_token_complete = True
-- 
2.43.0


From f8d331e9baaeb517cf7bc42b50cca17ac80a580d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:51 +0000
Subject: [PATCH 50/52] fix: a line entered by an action leaves the variables
 of the line around it alone

Executing a line from within an action of the same interface reset the nodes
of the walk tree the outer line was still using: its variables and numbered
values were lost. Such a line now gets a tree of its own.
---
 nessaid_cli/interface.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 165827c..3137394 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -723,6 +723,10 @@ class CliInterface(StdStreamsHolder):
                     arg = CliArgument(PythonString(arg.value), param_name=arg.param_name)
                 args.append(arg)
 
+        if self._executing and self.current_grammar:
+            # A line entered by an action of another one, which still uses the nodes of its tree
+            self._parse_tree = GrammarWalkTree(self.current_grammar)
+
         cur_token_input = None
         token_list = tok_list.copy()
 
@@ -893,11 +897,12 @@ class CliInterface(StdStreamsHolder):
                                     self._matched_values.append(match_value)
                                     tok_index += 1
                                 res.matched_values = match_values
+                                executing = self._executing
                                 try:
                                     self._executing = True
                                     root_arglist = await self.execute_success_sequence(matching_sequences[0], match_values, args)
                                 finally:
-                                    self._executing = False
+                                    self._executing = executing
                                 arglen = len(arglist) if arglist else 0
                                 for i in range(arglen):
                                     arglist[i] = root_arglist.pop(0)
-- 
2.43.0


From 1bd994d0d2212054ef4f7fa94375f15cd81d022b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:33 +0000
Subject: [PATCH 51/52] fix: choices keep the order of the grammar, so that
 help and completions are the same on every run

---
 nessaid_cli/interface.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 3137394..d167145 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -123,7 +123,7 @@ class ParsingResult():
     async def set_next_tokens(self, cli, cur_input, tokens):
         add_EOI = False
         tokens = list(tokens)
-        next_tokens = set()
+        next_tokens = {}
         self.last_token = None
         self.case_insensitive = False
 
@@ -133,15 +133,15 @@ class ParsingResult():
                 if t.completable:
                     _, completions = await cli.complete_token(t, cur_input if cur_input else "")
                     if not completions:
-                        next_tokens.add(TokenCompletion(None, helpstring))
+                        next_tokens.setdefault(TokenCompletion(None, helpstring))
                     else:
                         if t.case_insensitive:
                             self.case_insensitive = True
                         for c in completions:
                             h = await t.get_helpstring(str(c), cli=cli)
-                            next_tokens.add(TokenCompletion(str(c), h))
+                            next_tokens.setdefault(TokenCompletion(str(c), h))
                 else:
-                    next_tokens.add(TokenCompletion(None, helpstring))
+                    next_tokens.setdefault(TokenCompletion(None, helpstring))
             else:
                 add_EOI = True
 
@@ -730,7 +730,8 @@ class CliInterface(StdStreamsHolder):
         cur_token_input = None
         token_list = tok_list.copy()
 
-        prompt_choices = set(self._parse_tree.first())
+        # These keep the order of the grammar, as that of a set changes from run to run
+        prompt_choices = dict.fromkeys(self._parse_tree.first())
 
         res = ParsingResult()
 
@@ -741,15 +742,15 @@ class CliInterface(StdStreamsHolder):
             return res
 
         async def set_next_tokens(res, choices):
-            next_tokens = set()
+            next_tokens = {}
             add_EOT = False
             for c in choices:
                 if not c:
                     add_EOT = True
                     continue
-                next_tokens.add(self.get_token(c.name, c.helpstring))
+                next_tokens[self.get_token(c.name, c.helpstring)] = None
             if add_EOT:
-                next_tokens.add(EndOfInpuToken)
+                next_tokens[EndOfInpuToken] = None
             return await res.set_next_tokens(self, None if last_token_complete else cur_token_input, next_tokens)
 
         initial = True
@@ -827,11 +828,11 @@ class CliInterface(StdStreamsHolder):
                     self.clear_caches()
                     return res
 
-                prompt_choices = set()
+                prompt_choices = {}
                 complete_sequences = []
 
                 for matching_sequence in matching_sequences:
-                    choices = set()
+                    choices = {}
                     try:
                         self._matched_values = []
                         i = 0
@@ -848,7 +849,7 @@ class CliInterface(StdStreamsHolder):
                         seq_complete = True
                     else:
                         if (not token_list) and (not last_token_complete):
-                            choices.add(last_token)
+                            choices[last_token] = None
                         else:
                             nexts = last_token.next()
                             for c in nexts:
@@ -856,15 +857,15 @@ class CliInterface(StdStreamsHolder):
                                     seq_complete = True
                                     complete_sequences.append(matching_sequence)
                                 else:
-                                    choices.add(c)
+                                    choices[c] = None
                     matching_seq_choices.append(choices)
-                    prompt_choices = prompt_choices.union(choices)
+                    prompt_choices.update(choices)
 
             initial = False
 
             if not token_list:
                 if seq_complete:
-                    prompt_choices.add(EndOfInpuToken)
+                    prompt_choices[EndOfInpuToken] = None
 
                 if prompt_choices:
                     await set_next_tokens(res, prompt_choices)
-- 
2.43.0


From 612155fdae999a9c58f1c530f45a3cd10a9a184e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:27 +0000
Subject: [PATCH 52/52] fix: the help of a token of alternative strings lists
 them in the same order on every run

---
 nessaid_cli/tokens.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 5e8d782..1407b84 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -181,9 +181,14 @@ class AlternativeStringsToken(CliToken):
             self._alternatives = [alternatives]
         self._cli_strings = [convert_to_cli_string(s) for s in self._alternatives]
 
+    @staticmethod
+    def _any_one_of(strings):
+        # Sorted, as the order of a set of strings changes from run to run
+        return "Any one of: {" + ", ".join(repr(s) for s in sorted(set(strings))) + "}"
+
     @property
     def helpstring(self):
-        return self._helpstring or "Any one of: {}".format(set(self._cli_strings))
+        return self._helpstring or self._any_one_of(self._cli_strings)
 
     @property
     def completable(self):
@@ -197,7 +202,7 @@ class AlternativeStringsToken(CliToken):
         if matches:
             if len(matches) == 1:
                 return matches[0]
-            return "Any one of: {}".format(set(matches))
+            return self._any_one_of(matches)
         return self.helpstring
 
     async def get_value(self, match_string=None, cli=None):
-- 
2.43.0

