From 5d26697f8afa1012d3b2f10bcd532b6629389c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:34 +0000
Subject: [PATCH 01/37] fix: reset all cached parser state when the .ini file
 path changes

Assigning inifilepath only dropped the raw ConfigParser data; the enhanced
data, the last parse result and SetEnvironment's actions kept serving the
content of the previously loaded file.
---
 src/configparserenhanced/ConfigParserEnhanced.py        | 4 +---
 wip/setenvironment/src/setenvironment/SetEnvironment.py | 9 +++++++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 3570f11..8575ab3 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -201,9 +201,7 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
         # If we have already loaded a .ini file, we should reset the data
         # structure. Delete any lazy-created properties, etc.
         if hasattr(self, '_inifilepath'):
-            if hasattr(self, '_configparserdata'):
-                delattr(self, '_configparserdata')
-            self._reset_lazy_attr("_loginfo")
+            self._reset_configparserdata()
 
         # Internally we represent the inifile as a `list of Path` objects.
         # Do the necessary conversions to make that so.
diff --git a/wip/setenvironment/src/setenvironment/SetEnvironment.py b/wip/setenvironment/src/setenvironment/SetEnvironment.py
index 03c7661..b838407 100644
--- a/wip/setenvironment/src/setenvironment/SetEnvironment.py
+++ b/wip/setenvironment/src/setenvironment/SetEnvironment.py
@@ -1102,6 +1102,15 @@ class SetEnvironment(ConfigParserEnhanced):
     #  H E L P E R S
     # ---------------
 
+    def _reset_configparserdata(self) -> int:
+        """Reset the cached parser state, including the cached ``actions``.
+
+        The actions are computed from the loaded ``.ini`` file(s) so they
+        are stale once the ``ConfigParser`` data is reset.
+        """
+        self._reset_lazy_attr("_var_actions_cache")
+        return super()._reset_configparserdata()
+
     def _apply_envvar(self, operation, envvar_name, envvar_value) -> int:
         """Apply an ENVVAR operation
 
-- 
2.43.0


From a35052f4831dfa981bd70778a7dfdc806cee7436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:38 +0000
Subject: [PATCH 02/37] fix: do not keep a half-built configuration after a
 failed load

A missing file, duplicate section, missing header or decoding error left an
empty or partial ConfigParser cached, so the next access silently returned it.
---
 src/configparserenhanced/ConfigParserEnhanced.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 8575ab3..01107d2 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -243,14 +243,14 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
               reference and user-guide.
         """
         if not hasattr(self, '_configparserdata'):
-            self._configparserdata = configparser.ConfigParser(
+            configparserdata = configparser.ConfigParser(
                 allow_no_value=True,
                 delimiters=self.configparser_delimiters,
                 default_section=self._internal_default_section_name
             )
 
             # Prevent ConfigParser from lowercasing the keys.
-            self._configparserdata.optionxform = str
+            configparserdata.optionxform = str
 
             # configparser.ConfigParser.read() will not fail if it doesn't read the
             # .ini file(s) in the list, it'll just happily continue on and return
@@ -279,14 +279,17 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
                     raise IOError(msg)
 
             try:
-                self._configparserdata.read(self.inifilepath, encoding='utf-8')
+                configparserdata.read(self.inifilepath, encoding='utf-8')
             except configparser.DuplicateOptionError as ex:
-                delattr(self, '_configparserdata')
                 message = "ERROR: Configparser found a section with "
                 message += "two options with identical keys."
                 self.debug_message(0, message)
                 raise ex
 
+            # Only keep the result once everything has loaded successfully so that
+            # a failed load isn't mistaken for an empty configuration later on.
+            self._configparserdata = configparserdata
+
         return self._configparserdata
 
     @property
-- 
2.43.0


From fa47d0129dce082f6bb1954c7322a79eec4fafa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:42 +0000
Subject: [PATCH 03/37] fix: forget the partial result of a failed section
 parse

When parsing a section raised (dangling use, handler failure, cycle at
exception_control_level 5) the section stayed marked as parsed with partial
data, and the next access returned that data without any error.
---
 src/configparserenhanced/ConfigParserEnhanced.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 01107d2..ed967be 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -676,7 +676,12 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
             raise ValueError("`section` cannot be empty.")
 
         # Parse the requested section.
-        result = self._parse_section_r(section, initialize=initialize, finalize=finalize)
+        try:
+            result = self._parse_section_r(section, initialize=initialize, finalize=finalize)
+        except BaseException:
+            # Don't let the partial result of a failed parse pass for a completed one.
+            self.configparserenhanceddata._discard_section(section)
+            raise
 
         # caches the "data_shared" component of handler_parameters
         self.parse_section_last_result = result
@@ -1785,6 +1790,15 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
 
             return
 
+        def _discard_section(self, section):
+            """
+            Forget everything we know about a section so that the next
+            access to it will parse it again.
+            """
+            self._sections_checked.discard(section)
+            self.data.pop(section, None)
+            return
+
         def _parse_owner_section(self, section, force_parse=False):
             """Parse the section from the owner class.
 
-- 
2.43.0


From c452e38d43b0ddb808a3fcc92fac679a82611922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:46 +0000
Subject: [PATCH 04/37] fix: treat a use link from the default section to the
 root as a cycle

A default section that reaches the section being parsed recursed forever, and
parsing the default section itself processed its options twice.
---
 src/configparserenhanced/ConfigParserEnhanced.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index ed967be..3a87af2 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -925,7 +925,12 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
             handler_initialize_params.handler_name = "handler_initialize"
             self.handler_initialize(section_name, handler_initialize_params)
 
-            if self.configparserdata.has_section(self.default_section_name):
+            # The root section is already being processed at this point, so a `use`
+            # link back to it from the default section is a cycle.
+            handler_parameters.data_internal['processed_sections'].add(section_name)
+
+            if section_name != self.default_section_name and \
+                    self.configparserdata.has_section(self.default_section_name):
                 self._parse_section_r(
                     self.default_section_name,
                     handler_parameters=handler_parameters,
-- 
2.43.0


From bf6566447c7daf004d619125423d071c65e149fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:49 +0000
Subject: [PATCH 05/37] fix: restore exception_control_level when unroll_to_str
 fails

---
 .../ConfigParserEnhanced.py                   | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 3a87af2..d42023d 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -621,17 +621,18 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
         ecl = parser.exception_control_level
         parser.exception_control_level = 0
 
-        section_list = parser.configparserenhanceddata.sections()
+        try:
+            section_list = parser.configparserenhanceddata.sections()
 
-        if section is None:
-            for section in section_list:
+            if section is None:
+                for section in section_list:
+                    output_str += __generate_section(section, parser, delimiter)
+                    output_str += "\n"
+            else:
                 output_str += __generate_section(section, parser, delimiter)
-                output_str += "\n"
-        else:
-            output_str += __generate_section(section, parser, delimiter)
-
-        # reset parser ECL (only useful when not using base class parser)
-        parser.exception_control_level = ecl
+        finally:
+            # reset parser ECL (only useful when not using base class parser)
+            parser.exception_control_level = ecl
 
         output_str = output_str.strip()
         output_str += "\n"
-- 
2.43.0


From 22cf41cf18143bbe2b590c7bae302ac2eb657839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:53 +0000
Subject: [PATCH 06/37] fix: unroll_to_str honours custom delimiters and
 default section name

The base-class parser used for unrolling ignored configparser_delimiters and
default_section_name, producing different data from the object itself.
---
 src/configparserenhanced/ConfigParserEnhanced.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index d42023d..e87d9e7 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -608,12 +608,16 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
         output_str = ""
 
         delimiter = ":"
+        if delimiter not in self.configparser_delimiters:
+            delimiter = self.configparser_delimiters[0]
         if space_around_delimiters:
             delimiter = " {} ".format(delimiter)
 
         parser = None
         if use_base_class_parser:
             parser = ConfigParserEnhanced(filename=self.inifilepath)
+            parser.configparser_delimiters = self.configparser_delimiters
+            parser.default_section_name = self.default_section_name
         else:
             parser = self
 
-- 
2.43.0


From 387160008e9d58664856152f7e037829f03b2734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:56 +0000
Subject: [PATCH 07/37] fix: unroll_to_str writes multi-line and percent values
 so they can be read back

---
 src/configparserenhanced/ConfigParserEnhanced.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index e87d9e7..c8cca70 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -598,6 +598,8 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
                 for key, value in parser.configparserenhanceddata.items(section):
                     if value is None:
                         value = ""
+                    # Indent continuation lines and escape the interpolation character.
+                    value = value.replace("\n", "\n\t").replace("%", "%%")
                     output += delimiter.join([key, value]).strip() + "\n"
             else:
                 raise KeyError(f"Section `{section}` was not found.")
-- 
2.43.0


From 9b8542d30a0e4896bcba301f61f0107468cc1a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:00 +0000
Subject: [PATCH 08/37] fix: options named initialize or finalize are not
 operations

handler_initialize and handler_finalize are parser hooks which
get_known_operations excludes, yet an option whose first word was 'initialize'
or 'finalize' invoked them and vanished from the section data.
---
 src/configparserenhanced/ConfigParserEnhanced.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index c8cca70..8e4cabb 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -1181,6 +1181,11 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
         handler_name = operation
         handler_name = self._apply_transformation_to_operation(handler_name)
 
+        # `handler_initialize` and `handler_finalize` are hooks that the parser calls
+        # itself, they're not operations (see also: `get_known_operations`).
+        if handler_name in ("initialize", "finalize"):
+            return (None, None)
+
         handler_name_private = "_handler_{}".format(handler_name)
         handler_name_public = "handler_{}".format(handler_name)
 
-- 
2.43.0


From 17b1eaba78b99c4c69d84d6d78a77cc1c1d23087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:19 +0000
Subject: [PATCH 09/37] fix: quote special characters in generated environment
 commands

Values with a backslash, a double quote or a newline were altered by apply()
and the generated Python script, or made them fail with a SyntaxError; in the
generated bash script backslash, double quote and backtick were interpreted.
---
 .../src/setenvironment/SetEnvironment.py      | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/wip/setenvironment/src/setenvironment/SetEnvironment.py b/wip/setenvironment/src/setenvironment/SetEnvironment.py
index b838407..6fbb14d 100644
--- a/wip/setenvironment/src/setenvironment/SetEnvironment.py
+++ b/wip/setenvironment/src/setenvironment/SetEnvironment.py
@@ -17,6 +17,7 @@ Todo:
 from __future__ import print_function
 
 import inspect
+import json
 import logging
 import os
 from pathlib import Path
@@ -1489,11 +1490,11 @@ class SetEnvironment(ConfigParserEnhanced):
             )
 
         if interp == "python":
-            arglist = ['"' + x + '"' for x in arglist]
+            arglist = [self._quote_arg(x, interp) for x in arglist]
             output = "envvar_op({})".format(",".join(arglist))
         elif interp == "bash":
             # Surround each ini command argument in double quotes, except for the first ini command argument
-            arglist[1 :] = ['"' + x + '"' for x in arglist[1 :]]
+            arglist[1 :] = [self._quote_arg(x, interp) for x in arglist[1 :]]
             output = "envvar_op {}".format(" ".join(arglist))
         else:
             self.exception_control_event(
@@ -1602,7 +1603,7 @@ class SetEnvironment(ConfigParserEnhanced):
             )
 
         if interp == "python":
-            arglist = ['"' + x + '"' for x in arglist]
+            arglist = [self._quote_arg(x, interp) for x in arglist]
             output = "ModuleHelper.module({})".format(",".join(arglist))
         elif interp == "bash":
             output = "module {}".format(" ".join(arglist))
@@ -1615,6 +1616,25 @@ class SetEnvironment(ConfigParserEnhanced):
 
         return output
 
+    def _quote_arg(self, arg, interp) -> str:
+        """Quote an argument of a generated command.
+
+        The argument is put in double quotes such that characters which are
+        special inside of them reach the command unchanged. The ``$`` is left
+        alone because envvar references are expanded when the command executes.
+
+        Args:
+            arg (str): The argument to quote.
+            interp (str): The interpreter the command is generated for.
+
+        Returns:
+            str: The quoted argument.
+        """
+        self._validate_parameter(arg, (str))
+        if interp == "python":
+            return json.dumps(arg, ensure_ascii=False)
+        return '"' + re.sub(r'[\\"`]', r'\\\g<0>', arg) + '"'
+
     def _gen_script_header_bash(self) -> str:
         """Generate "common" Bash functions
 
-- 
2.43.0


From 5b408baef846494c3d2011d8fe21fe281aab5b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:22 +0000
Subject: [PATCH 10/37] fix: apply() reports a module command that was killed
 by a signal

A negative return code was dropped by max() and reported as success when the
exception_control_level does not raise CRITICAL events.
---
 wip/setenvironment/src/setenvironment/SetEnvironment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wip/setenvironment/src/setenvironment/SetEnvironment.py b/wip/setenvironment/src/setenvironment/SetEnvironment.py
index 6fbb14d..e9b1524 100644
--- a/wip/setenvironment/src/setenvironment/SetEnvironment.py
+++ b/wip/setenvironment/src/setenvironment/SetEnvironment.py
@@ -338,7 +338,8 @@ class SetEnvironment(ConfigParserEnhanced):
             if 'module' in iaction.keys():
                 rval = self._apply_module(op, module_name=iaction['module'], module_value=value)
 
-            output = max(output, rval)
+            # Note: rval is negative if the command was terminated by a signal.
+            output = max(output, abs(rval))
 
         return output
 
-- 
2.43.0


From 3244bdc7dc3ac1b7c1aab6ef52a32dbb0df7bdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:26 +0000
Subject: [PATCH 11/37] fix: a hostname pattern may contain '^'

'^host' was truncated to the empty regular expression, which matches any host.
---
 wip/determinesystem/determinesystem/DetermineSystem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wip/determinesystem/determinesystem/DetermineSystem.py b/wip/determinesystem/determinesystem/DetermineSystem.py
index 0761f17..40fc3ea 100644
--- a/wip/determinesystem/determinesystem/DetermineSystem.py
+++ b/wip/determinesystem/determinesystem/DetermineSystem.py
@@ -114,8 +114,8 @@ class DetermineSystem(FormattedMsg):
             #                                  |
             #   Match anything that's not      |
             #        a '#' or whitespace.      |
-            #                      vvvvv    vvvvvvvv
-            keys = [re.findall(r"([^#^\s]*)(?:\s*#.*)?", key)[0]
+            #                      vvvv    vvvvvvvv
+            keys = [re.findall(r"([^#\s]*)(?:\s*#.*)?", key)[0]
                     for key in self.supported_systems_data[sys_name].keys()]
 
             # Keys are treated as REGEXes.
-- 
2.43.0


From 62f4af6c12b14c1a8320e9dba1d68ab3daea76e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:30 +0000
Subject: [PATCH 12/37] fix: a '^' does not split a value in two

---
 wip/keywordparser/keywordparser/KeywordParser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wip/keywordparser/keywordparser/KeywordParser.py b/wip/keywordparser/keywordparser/KeywordParser.py
index 58fc07e..61e53ca 100644
--- a/wip/keywordparser/keywordparser/KeywordParser.py
+++ b/wip/keywordparser/keywordparser/KeywordParser.py
@@ -43,12 +43,12 @@ class KeywordParser(FormattedMsg):
                       else "")
 
         uncommented_values_list = re.findall(
-            r"(?:\s*?#.*\n*)*([^#^\n]*)", values_str
+            r"(?:\s*?#.*\n*)*([^#\n]*)", values_str
         )
         # Regex Explanation
         # =================
-        # (?:\s*?#.*\n*)*([^#^\n]*)
-        # ^^^^^^^^^^^^^ ^ ^^^^^^^^
+        # (?:\s*?#.*\n*)*([^#\n]*)
+        # ^^^^^^^^^^^^^ ^ ^^^^^^^
         # |             | |
         # |             | **Matching group for all non-#/non-\n characters
         # |             |   (i.e. 'intel 18  ', 'intel_19', or 'intel-20')**
-- 
2.43.0


From bed26c7d72ae28b1f03c9a15880fd5ffcb51d1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:34 +0000
Subject: [PATCH 13/37] fix: match environment names and aliases literally in
 the build name

The '.' in names such as intel-18.0.5 matched any character.
---
 wip/loadenv/loadenv/EnvKeywordParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wip/loadenv/loadenv/EnvKeywordParser.py b/wip/loadenv/loadenv/EnvKeywordParser.py
index a440af6..1e52350 100644
--- a/wip/loadenv/loadenv/EnvKeywordParser.py
+++ b/wip/loadenv/loadenv/EnvKeywordParser.py
@@ -90,7 +90,7 @@ class EnvKeywordParser(KeywordParser):
             for name in self.env_names:
                 env_name_in_build_name = (
                     False
-                    if re.search(f"(?:^|{self.delim}){name}(?:$|{self.delim})", self.build_name) is
+                    if re.search(f"(?:^|{self.delim}){re.escape(name)}(?:$|{self.delim})", self.build_name) is
                     None else True
                     )
 
@@ -104,7 +104,7 @@ class EnvKeywordParser(KeywordParser):
                 for alias in self.aliases:
                     alias_in_build_name = (
                         False if
-                        re.search(f"(?:^|{self.delim}){alias}(?:$|{self.delim})",
+                        re.search(f"(?:^|{self.delim}){re.escape(alias)}(?:$|{self.delim})",
                                   self.build_name) is None else True
                         )
 
-- 
2.43.0


From 6ff375e565c0ca1c8664caf93d5bdbdff92cbf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:37 +0000
Subject: [PATCH 14/37] fix: an empty answer to the overwrite prompt asks again
 instead of failing

---
 wip/genconfig/gen_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/genconfig/gen_config.py b/wip/genconfig/gen_config.py
index fb47417..1b292fe 100755
--- a/wip/genconfig/gen_config.py
+++ b/wip/genconfig/gen_config.py
@@ -89,7 +89,7 @@ class GenConfig(FormattedMsg):
                         f"({self.args.cmake_fragment}).\n"
                         "* Would you like to overwrite this file? [y/n] "
                     )
-                    while response.lower()[0] not in ["y", "n"]:
+                    while response.lower()[:1] not in ["y", "n"]:
                         response = input(
                             "  * Input not recognized. Please enter [y/n]: "
                         )
-- 
2.43.0


From bf9c299b12b6f0d3327af6d94ad3c8ee4720a386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:12 +0000
Subject: [PATCH 15/37] fix: report a module that Lmod failed to unload

'A && false || true' always succeeds, so a failed unload (or swap) was
not noticed.
---
 wip/setenvironment/src/setenvironment/ModuleHelper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/setenvironment/src/setenvironment/ModuleHelper.py b/wip/setenvironment/src/setenvironment/ModuleHelper.py
index 18cbf6d..9919fa8 100644
--- a/wip/setenvironment/src/setenvironment/ModuleHelper.py
+++ b/wip/setenvironment/src/setenvironment/ModuleHelper.py
@@ -135,7 +135,7 @@ try:          # pragma: cover if on lmod
         _arguments = _command[1 :] + list(arguments)
         shell_cmds = []
         is_loaded = "module is-loaded {0} && true  || false"
-        is_unloaded = "module is-loaded {0} && false || true"
+        is_unloaded = "module is-loaded {0} && exit 1 || true"
         is_file = "[ -e {0} ] && true || false"
         # TODO: handle other commands: purge, etc.
         if _command[0] == 'load':
-- 
2.43.0


From 0e3e691b7d212cc0c1f422bf32c9666402fdd618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:37 +0000
Subject: [PATCH 16/37] fix: a failed system determination is reported on every
 access

---
 .../determinesystem/DetermineSystem.py        | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/wip/determinesystem/determinesystem/DetermineSystem.py b/wip/determinesystem/determinesystem/DetermineSystem.py
index 40fc3ea..833657e 100644
--- a/wip/determinesystem/determinesystem/DetermineSystem.py
+++ b/wip/determinesystem/determinesystem/DetermineSystem.py
@@ -52,9 +52,9 @@ class DetermineSystem(FormattedMsg):
         if not hasattr(self, "_system_name"):
             hostname = socket.gethostname()
             sys_name_from_hostname = self.get_sys_name_from_hostname(hostname)
-            self._system_name = sys_name_from_hostname
-            if self._system_name is not None and not self.silent:
-                print(f"Using system '{self._system_name}' based on matching "
+            system_name = sys_name_from_hostname
+            if system_name is not None and not self.silent:
+                print(f"Using system '{system_name}' based on matching "
                       f"hostname '{hostname}'.")
             sys_name_from_build_name = self.get_sys_name_from_build_name()
             if (sys_name_from_hostname is None and
@@ -74,26 +74,29 @@ class DetermineSystem(FormattedMsg):
             # Use the system name in build_name if sys_name_from_hostname is
             # None.
             if sys_name_from_build_name is not None:
-                self._system_name = sys_name_from_build_name
+                system_name = sys_name_from_build_name
                 if not self.silent:
                     print(("Setting"
                            if sys_name_from_hostname is None
                            else "Overriding") +
-                          f" system to '{self._system_name}' based on "
+                          f" system to '{system_name}' based on "
                           f"specification in build name '{self.build_name}'.")
-                if (sys_name_from_hostname != self._system_name
+                if (sys_name_from_hostname != system_name
                     and self.force_build_name is False):
                     msg = self.get_formatted_msg(textwrap.fill(
                         f"Hostname '{hostname}' matched to system "
                         f"'{sys_name_from_hostname}' in "
                         f"'{self.supported_systems_file}', but you "
-                        f"specified '{self._system_name}' in the build name.  "
+                        f"specified '{system_name}' in the build name.  "
                         "If you want to force the use of "
-                        f"'{self._system_name}', add the --force flag.",
+                        f"'{system_name}', add the --force flag.",
                         width=68
                     ))
                     sys.exit(msg)
 
+            # Only remember the system once all the checks above have passed.
+            self._system_name = system_name
+
     def get_sys_name_from_hostname(self, hostname):
         """
         Helper function to match the given hostname to a system name, as
-- 
2.43.0


From 5aa86b1b7a61f24fb7d5a73596979fd52069ee3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:55 +0000
Subject: [PATCH 17/37] fix: gen-config.sh returns the status of a failed step

---
 wip/genconfig/gen-config.sh | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/wip/genconfig/gen-config.sh b/wip/genconfig/gen-config.sh
index 2150e0d..5f84aa1 100755
--- a/wip/genconfig/gen-config.sh
+++ b/wip/genconfig/gen-config.sh
@@ -34,13 +34,14 @@ fi
 ################################################################################
 function cleanup_gc()
 {
+    local ret_val=${ret:-0}
     [ -f /tmp/$USER/.bash_cmake_args_loc ] && rm -f /tmp/$USER/.bash_cmake_args_loc 2>/dev/null
     [ -f /tmp/$USER/.load_env_args ] && rm -f /tmp/$USER/.load_env_args 2>/dev/null
 
     unset python_too_old script_dir cleanup_gc gen_config_py_call_args gen_config_helper
-    unset path_to_src load_env_call_args cmake_args_file
+    unset path_to_src load_env_call_args cmake_args_file ret
     trap -  SIGHUP SIGINT SIGTERM
-    return 0
+    return $ret_val
 }
 trap "cleanup_gc; return 1" SIGHUP SIGINT SIGTERM
 ####### END helper functions #######
@@ -100,8 +101,8 @@ fi
 
 
 ### Generate the configuration ###
-python3 -E -s ${script_dir}/gen_config.py $gen_config_py_call_args
-if [[ $? -ne 0 ]]; then
+python3 -E -s ${script_dir}/gen_config.py $gen_config_py_call_args; ret=$?
+if [[ $ret -ne 0 ]]; then
     cleanup_gc; return $?
 fi
 ### ========================== ###
@@ -144,14 +145,14 @@ function gen_config_helper()
 declare -x -f gen_config_helper
 
 # Get proper call args to pass to LoadEnv, which ARE NOT the same as those we pass to GenConfig.
-python3 -E -s ${script_dir}/gen_config.py $gen_config_py_call_args --save-load-env-args /tmp/$USER/.load_env_args
-if [[ $? -ne 0 ]]; then
+python3 -E -s ${script_dir}/gen_config.py $gen_config_py_call_args --save-load-env-args /tmp/$USER/.load_env_args; ret=$?
+if [[ $ret -ne 0 ]]; then
     cleanup_gc; return $?
 fi
 load_env_call_args=$(cat /tmp/$USER/.load_env_args)
 
 # Actually run LoadEnv:
-source ${script_dir}/LoadEnv/load-env.sh ${load_env_call_args}
+source ${script_dir}/LoadEnv/load-env.sh ${load_env_call_args}; ret=$?
 ### ========================== ###
 
 ####### END configuration #######
-- 
2.43.0


From b4a79c5ab8835368b671086ebc6bbde3eee69f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:55 +0000
Subject: [PATCH 18/37] fix: save LoadEnv arguments even if /tmp/$USER does not
 exist yet

---
 wip/genconfig/gen_config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wip/genconfig/gen_config.py b/wip/genconfig/gen_config.py
index 1b292fe..0371fc8 100755
--- a/wip/genconfig/gen_config.py
+++ b/wip/genconfig/gen_config.py
@@ -506,6 +506,7 @@ def main(argv):
     elif gc.args.list_configs:
         gc.list_configs()
     elif gc.args.save_load_env_args is not None:
+        gc.args.save_load_env_args.parent.mkdir(parents=True, exist_ok=True)
         with open(gc.args.save_load_env_args, "w") as F:
             F.write(" ".join(gc.load_env_args))
     elif gc.args.cmake_fragment is not None:
-- 
2.43.0


From fbc0c6d8cc0f5784c3aaca68aff36366dfd99996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:13 +0000
Subject: [PATCH 19/37] fix: list only the configurations of the current system

---
 wip/genconfig/gen_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/genconfig/gen_config.py b/wip/genconfig/gen_config.py
index 0371fc8..8839bbf 100755
--- a/wip/genconfig/gen_config.py
+++ b/wip/genconfig/gen_config.py
@@ -145,7 +145,7 @@ class GenConfig(FormattedMsg):
             self.args.config_specs_file
         ).configparserenhanceddata
         complete_configs = [_ for _ in config_specs.sections()
-                            if _.startswith(sys_name)]
+                            if _.startswith(f"{sys_name}_")]
 
         print(self.get_msg_for_list(
             "Please select one of the following complete configurations from\n"
-- 
2.43.0


From 2080625949189915d7106fb4a1cd8fcf2605c56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:55 +0000
Subject: [PATCH 20/37] fix: a failed validation of config-specs does not
 change the selected configuration

---
 wip/genconfig/gen_config.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/wip/genconfig/gen_config.py b/wip/genconfig/gen_config.py
index 8839bbf..22d4837 100755
--- a/wip/genconfig/gen_config.py
+++ b/wip/genconfig/gen_config.py
@@ -180,6 +180,15 @@ class GenConfig(FormattedMsg):
         if self.load_env is None:
             self.load_load_env()
 
+        try:
+            self._check_config_specs_sections()
+        finally:
+            self.load_env.build_name = self.args.build_name
+            self.load_env.args.force = self.args.force
+            self.config_keyword_parser.build_name = self.args.build_name
+        self.has_been_validated = True
+
+    def _check_config_specs_sections(self):
         ckp = self.config_keyword_parser
         le = self.load_env
         le.args.force = True
@@ -230,11 +239,6 @@ class GenConfig(FormattedMsg):
                                  f"'{self.args.config_specs_file.name}'.")
             ))
 
-        self.load_env.build_name = self.args.build_name
-        self.load_env.args.force = self.args.force
-        self.config_keyword_parser.build_name = self.args.build_name
-        self.has_been_validated = True
-
     def load_config_keyword_parser(self):
         """
         Instantiate an :class:`ConfigKeywordParser` object with this object's
-- 
2.43.0


From 9b09e0f007b67035c674e0d3b9bb57b6ae37db4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:23 +0000
Subject: [PATCH 21/37] fix: module-remove leaves actions of other modules
 alone

---
 wip/setenvironment/src/setenvironment/SetEnvironment.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wip/setenvironment/src/setenvironment/SetEnvironment.py b/wip/setenvironment/src/setenvironment/SetEnvironment.py
index e9b1524..c57cb45 100644
--- a/wip/setenvironment/src/setenvironment/SetEnvironment.py
+++ b/wip/setenvironment/src/setenvironment/SetEnvironment.py
@@ -1001,9 +1001,9 @@ class SetEnvironment(ConfigParserEnhanced):
         for idata in data_shared:
 
             if 'module' in idata.keys():
-                # Note: idata['value'] can be None in some cases
-                if (idata['module'] !=
-                    module_name) and ((idata['value'] == None) or (module_name not in idata['value'])):
+                # Note: The value of a swap is the new module, optionally with its version.
+                swap_to = (idata['value'] or "") if idata['op'] == 'module_swap' else ""
+                if idata['module'] != module_name and not (swap_to + "/").startswith(module_name + "/"):
                     new_data_shared.append(idata)
                 else:
                     self.debug_message(1, "Removed entry:{}".format(idata)) # Console
-- 
2.43.0


From fb4b0c4bf05d8b8083795493b8e0685a3b570d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:15 +0000
Subject: [PATCH 22/37] fix: module() raises FileNotFoundError if LMOD_CMD is
 not set

---
 wip/setenvironment/src/setenvironment/ModuleHelper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/setenvironment/src/setenvironment/ModuleHelper.py b/wip/setenvironment/src/setenvironment/ModuleHelper.py
index 9919fa8..a30c638 100644
--- a/wip/setenvironment/src/setenvironment/ModuleHelper.py
+++ b/wip/setenvironment/src/setenvironment/ModuleHelper.py
@@ -84,7 +84,7 @@ try:          # pragma: cover if on lmod
         # of LMOD_CMD, which is not a bash function, for now. Note that declare -F
         # is the more robust approach.
         lmod_cmd_env = os.getenv("LMOD_CMD")
-        if len(lmod_cmd_env) == 0:
+        if not lmod_cmd_env:
             raise FileNotFoundError("Unable to find module function")
 
         # Attempt running the 'module' command
-- 
2.43.0


From f91450c17edd26c8c23ec612445c04ba8899c37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:45 +0000
Subject: [PATCH 23/37] fix: LoadEnv does not keep environment specifications
 that failed validation

---
 wip/loadenv/load_env.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wip/loadenv/load_env.py b/wip/loadenv/load_env.py
index 75ce893..e91a136 100755
--- a/wip/loadenv/load_env.py
+++ b/wip/loadenv/load_env.py
@@ -213,15 +213,19 @@ class LoadEnv(FormattedMsg):
         ``environment-specs.ini``.  Save the resulting object as
         :attr:`set_environment`.
         """
-        if self.set_environment is None:
-            self.set_environment = SetEnvironment(filename=self.args.environment_specs_file)
+        set_environment = self.set_environment
+        if set_environment is None:
+            set_environment = SetEnvironment(filename=self.args.environment_specs_file)
 
         # Make sure all operations specified in environment-specs.ini are valid
         # Note: If `set_environment.exception_control_level` is
         #       2 or less then `ValueError` will not be raised but
         #       rather `set_environment` will return a nonzero value.
-        self.set_environment.exception_control_level = 5
-        self.set_environment.assert_file_all_sections_handled()
+        set_environment.exception_control_level = 5
+        set_environment.assert_file_all_sections_handled()
+
+        # Keep it only if it is valid, so that a later call does not use rejected specifications.
+        self.set_environment = set_environment
 
 
     def apply_env(self):
-- 
2.43.0


From c47f7a098800f894daa9d740ca48bfe5ab869166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:59 +0000
Subject: [PATCH 24/37] fix: gen-config.sh does not pass line continuations to
 cmake as arguments

---
 wip/genconfig/gen-config.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wip/genconfig/gen-config.sh b/wip/genconfig/gen-config.sh
index 5f84aa1..4c21ede 100755
--- a/wip/genconfig/gen-config.sh
+++ b/wip/genconfig/gen-config.sh
@@ -134,8 +134,8 @@ function gen_config_helper()
 
         sleep 2s
 
-        # Execute cmake call
-        cmake $cmake_args $path_to_src
+        # Execute cmake call (the line continuations are not arguments)
+        cmake ${cmake_args//\\$'\n'/$'\n'} $path_to_src
     else
         echo; echo
         echo "Please run: \"cmake\" with the generated cmake fragment file as input"
-- 
2.43.0


From 267c5d3c443cb7d42a4210f41041e7d04590c8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:17 +0000
Subject: [PATCH 25/37] fix: load-env.sh removes the files it created and no
 others

---
 wip/loadenv/load-env.sh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wip/loadenv/load-env.sh b/wip/loadenv/load-env.sh
index 988fc3b..0783ee2 100755
--- a/wip/loadenv/load-env.sh
+++ b/wip/loadenv/load-env.sh
@@ -24,6 +24,9 @@ fi
 
 #### BEGIN helper functions ####
 
+# Only files that are created below may be removed by cleanup.
+unset env_file load_matching_env_loc
+
 ################################################################################
 # cleanup function
 #
@@ -34,10 +37,11 @@ function cleanup()
 {
     local ret_val=$ret
     [ -f /tmp/$USER/.load_matching_env_loc ] && rm -f /tmp/$USER/.load_matching_env_loc 2>/dev/null
+    [ ! -z ${load_matching_env_loc} ] && rm -f ${load_matching_env_loc} 2>/dev/null
     [ -f /tmp/$USER/.ci_mode ] && rm -f /tmp/$USER/.ci_mode 2>/dev/null
     [ ! -z ${env_file} ] && rm -f ${env_file} 2>/dev/null; rm -f ${env_file::-2}rc 2>/dev/null
 
-    unset python_too_old script_dir ci_mode cleanup env_file ret
+    unset python_too_old script_dir ci_mode cleanup env_file ret load_matching_env_loc
     trap -  SIGHUP SIGINT SIGTERM
     return $ret_val
 }
-- 
2.43.0


From 5d172abc3268ba1c06b099807243832fe03da035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:02 +0000
Subject: [PATCH 26/37] fix: a configuration file that cannot be read is not
 silently skipped

---
 src/configparserenhanced/ConfigParserEnhanced.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 8e4cabb..8457c09 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -279,7 +279,10 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
                     raise IOError(msg)
 
             try:
-                configparserdata.read(self.inifilepath, encoding='utf-8')
+                # Note: `ConfigParser.read` would silently skip files that can't be read.
+                for inifilepath_i in self.inifilepath:
+                    with open(inifilepath_i, encoding='utf-8') as ifp:
+                        configparserdata.read_file(ifp, source=str(inifilepath_i))
             except configparser.DuplicateOptionError as ex:
                 message = "ERROR: Configparser found a section with "
                 message += "two options with identical keys."
-- 
2.43.0


From d09125811419757a9d9ccd95528af60143f5f40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:41 +0000
Subject: [PATCH 27/37] fix: an interrupt at the start of a section parse does
 not mark the section as parsed

---
 src/configparserenhanced/ConfigParserEnhanced.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 8457c09..f757189 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -1845,7 +1845,6 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
 
                 if do_parse_section:
                     self._set_owner_options()
-                    self._sections_checked.add(section)
                     self._owner.parse_section(section)
 
             return
-- 
2.43.0


From f255181131003d3df7606c7b918858841a471c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:13 +0000
Subject: [PATCH 28/37] fix: the name of the loaded environment is quoted in
 the script LoadEnv writes

---
 wip/loadenv/load_env.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wip/loadenv/load_env.py b/wip/loadenv/load_env.py
index e91a136..d7d64d9 100755
--- a/wip/loadenv/load_env.py
+++ b/wip/loadenv/load_env.py
@@ -4,6 +4,7 @@ import argparse
 import getpass
 import os
 from pathlib import Path
+import shlex
 import socket
 import sys
 import textwrap
@@ -278,7 +279,7 @@ class LoadEnv(FormattedMsg):
                 )
 
             with open(f, "a") as F:
-                F.write(f"export LOADED_ENV_NAME={self.parsed_env_name}")
+                F.write(f"export LOADED_ENV_NAME={shlex.quote(self.parsed_env_name)}")
 
         return files[-1]
 
-- 
2.43.0


From c0d49b7d2f35a42f16112add0a8369fc84e5bb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:58 +0000
Subject: [PATCH 29/37] fix: a system whose name has upper case letters is
 found in the build name

---
 wip/determinesystem/determinesystem/DetermineSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/determinesystem/determinesystem/DetermineSystem.py b/wip/determinesystem/determinesystem/DetermineSystem.py
index 833657e..be5ab46 100644
--- a/wip/determinesystem/determinesystem/DetermineSystem.py
+++ b/wip/determinesystem/determinesystem/DetermineSystem.py
@@ -143,7 +143,7 @@ class DetermineSystem(FormattedMsg):
         """
         build_name_options = self.build_name.lower().split("_")
         sys_names_in_build_name = [_ for _ in self.supported_sys_names
-                                   if _ in build_name_options]
+                                   if _.lower() in build_name_options]
         if len(sys_names_in_build_name) > 1:
             msg = self.get_msg_for_list(
                 "Cannot specify more than one system name in the build name\n"
-- 
2.43.0


From 2ef1c8a217be293fe92d66246ec8585cc7851f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:02 +0000
Subject: [PATCH 30/37] fix: a system name in upper case is stripped from the
 build name

---
 wip/loadenv/load_env.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wip/loadenv/load_env.py b/wip/loadenv/load_env.py
index d7d64d9..0b7137c 100755
--- a/wip/loadenv/load_env.py
+++ b/wip/loadenv/load_env.py
@@ -313,7 +313,8 @@ class LoadEnv(FormattedMsg):
             self.args.supported_systems_file,
             force_build_name=self.args.force
             )
-        l = [_ for _ in l if _ not in ds.supported_sys_names]
+        sys_names = [_.lower() for _ in ds.supported_sys_names]
+        l = [_ for _ in l if _.lower() not in sys_names]
 
         self._env_stripped_build_name = delim.join(l)
         return self._env_stripped_build_name
-- 
2.43.0


From c24ac694bf88b8a2c52445f2f6ce8bbfb3f33b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:40 +0000
Subject: [PATCH 31/37] fix: a file list with an invalid entry is rejected
 without changing the current one

---
 src/configparserenhanced/ConfigParserEnhanced.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index f757189..af574e9 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -198,25 +198,27 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
     def inifilepath(self, value) -> list:
         self._validate_parameter(value, (str, list, Path))
 
-        # If we have already loaded a .ini file, we should reset the data
-        # structure. Delete any lazy-created properties, etc.
-        if hasattr(self, '_inifilepath'):
-            self._reset_configparserdata()
-
         # Internally we represent the inifile as a `list of Path` objects.
         # Do the necessary conversions to make that so.
         if not isinstance(value, list):
             value = [value]
 
-        self._inifilepath = []
+        inifilepath = []
 
         for entry in value:
             try:
-                self._inifilepath.append(Path(entry))
+                inifilepath.append(Path(entry))
             except TypeError as ex:
                 self.debug_message(0, "ERROR: invalid entry in `inifilepath` list.")
                 raise ex
 
+        # If we have already loaded a .ini file, we should reset the data
+        # structure. Delete any lazy-created properties, etc.
+        if hasattr(self, '_inifilepath'):
+            self._reset_configparserdata()
+
+        self._inifilepath = inifilepath
+
         return self._inifilepath
 
     @property
-- 
2.43.0


From a6463ba765bd2fc34f2b20129dffb191731b63a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:54 +0000
Subject: [PATCH 32/37] fix: a change of default_section_name takes effect for
 sections that were read before

---
 .../ConfigParserEnhanced.py                   | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index af574e9..9c0924a 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -166,7 +166,25 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
         "parse_section_last_result", (dict), default=None, internal_type=dict
     )
 
-    default_section_name = typed_property("default_section_name", str, default="DEFAULT")
+    _default_section_name_value = typed_property("_default_section_name_value", str, default="DEFAULT")
+
+    @property
+    def default_section_name(self) -> str:
+        """Name of the section whose options are added to every section that is parsed.
+
+        Changing this resets the cached data in the class, since
+        it changes the result of every section.
+
+        Raises:
+            TypeError: If assignment of something other than a ``str`` is attempted.
+        """
+        return self._default_section_name_value
+
+    @default_section_name.setter
+    def default_section_name(self, value) -> str:
+        self._default_section_name_value = value
+        self._reset_configparserdata()
+        return self._default_section_name_value
 
     _internal_default_section_name = typed_property(
         "_internal_default_section_name", str, default="CONFIGPARSERENHANCED_COMMON"
-- 
2.43.0


From 2cc9d4cfe1526e50b6857c576c7b0dd9692e6844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:48 +0000
Subject: [PATCH 33/37] fix: unrolled options whose key or value runs into the
 delimiter read back unchanged

Without space around the delimiters, a key that ends (or a value that
starts) with a piece of a delimiter was written so that the text was
split at another place when it was read again.
---
 src/configparserenhanced/ConfigParserEnhanced.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 9c0924a..19d22b6 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -616,6 +616,7 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
             and options.
             """
             output = ""
+            delimiters = "|".join(re.escape(x) for x in self.configparser_delimiters)
             if parser.configparserenhanceddata.has_section(section):
                 output += f"[{section}]\n"
                 for key, value in parser.configparserenhanceddata.items(section):
@@ -623,6 +624,10 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
                         value = ""
                     # Indent continuation lines and escape the interpolation character.
                     value = value.replace("\n", "\n\t").replace("%", "%%")
+                    # A key or value that would run into the delimiter is set off from it.
+                    split = re.split(delimiters, delimiter.join([key, value]), 1)
+                    if [x.strip() for x in split] != [key.strip(), value.strip()]:
+                        key, value = key + " ", " " + value
                     output += delimiter.join([key, value]).strip() + "\n"
             else:
                 raise KeyError(f"Section `{section}` was not found.")
-- 
2.43.0


From 81ddc6cec0c07e9f248439cba490447c48c78546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:48 +0000
Subject: [PATCH 34/37] fix: a keyword value with any white space in it is
 refused

Only blanks were looked for; a tab inside of a value was let through.
---
 wip/keywordparser/keywordparser/KeywordParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/keywordparser/keywordparser/KeywordParser.py b/wip/keywordparser/keywordparser/KeywordParser.py
index 61e53ca..0b9d5fa 100644
--- a/wip/keywordparser/keywordparser/KeywordParser.py
+++ b/wip/keywordparser/keywordparser/KeywordParser.py
@@ -127,7 +127,7 @@ class KeywordParser(FormattedMsg):
             SystemExit:  If any value contains whitespace.
         """
         values_w_whitespace_or_delim = [_ for _ in values_list
-                                        if " " in _ or "_" in _]
+                                        if "_" in _ or any(c.isspace() for c in _)]
         values_w_whitespace_or_delim = [_ for _ in values_w_whitespace_or_delim
                                         if _ not in ["SELECT_ONE", "SELECT_MANY"]]
         try:
-- 
2.43.0


From 20e1f1e00529bb65c197f8e86e1650807fa66ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:48 +0000
Subject: [PATCH 35/37] fix: a configuration flag without any value raises
 ValueError

It raised IndexError instead of the message that names the flag.
---
 wip/genconfig/src/config_keyword_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/genconfig/src/config_keyword_parser.py b/wip/genconfig/src/config_keyword_parser.py
index 88810b7..422fe3b 100644
--- a/wip/genconfig/src/config_keyword_parser.py
+++ b/wip/genconfig/src/config_keyword_parser.py
@@ -128,7 +128,7 @@ class ConfigKeywordParser(KeywordParser):
             respectively.
         """
         options = self.get_values_for_section_key("configure-flags", flag_name)
-        flag_type = options[0]
+        flag_type = options[0] if len(options) > 0 else None
         options = options[1:]
 
         if flag_type not in ["SELECT_ONE", "SELECT_MANY"]:
-- 
2.43.0


From a71fe6a4abdedce785a5a9b2254a8e4cf8ec3ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:48 +0000
Subject: [PATCH 36/37] fix: concurrent gen-config.sh runs of one user use
 files of their own

All runs shared two files with fixed names in /tmp/$USER. A run could read
the cmake or load-env arguments of another one, or find them removed.
---
 wip/genconfig/gen-config.sh | 18 ++++++++++++------
 wip/genconfig/gen_config.py | 11 ++++++++++-
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/wip/genconfig/gen-config.sh b/wip/genconfig/gen-config.sh
index 4c21ede..2c471fd 100755
--- a/wip/genconfig/gen-config.sh
+++ b/wip/genconfig/gen-config.sh
@@ -35,11 +35,12 @@ fi
 function cleanup_gc()
 {
     local ret_val=${ret:-0}
-    [ -f /tmp/$USER/.bash_cmake_args_loc ] && rm -f /tmp/$USER/.bash_cmake_args_loc 2>/dev/null
-    [ -f /tmp/$USER/.load_env_args ] && rm -f /tmp/$USER/.load_env_args 2>/dev/null
+    [ ! -z ${bash_cmake_args_loc} ] && rm -f ${bash_cmake_args_loc} 2>/dev/null
+    [ ! -z ${load_env_args_file} ] && rm -f ${load_env_args_file} 2>/dev/null
 
     unset python_too_old script_dir cleanup_gc gen_config_py_call_args gen_config_helper
     unset path_to_src load_env_call_args cmake_args_file ret
+    unset bash_cmake_args_loc load_env_args_file
     trap -  SIGHUP SIGINT SIGTERM
     return $ret_val
 }
@@ -48,6 +49,11 @@ trap "cleanup_gc; return 1" SIGHUP SIGINT SIGTERM
 
 
 
+# The files that tell us what GenConfig generated. They belong to this run alone,
+# since others of the same user may go on at the same time.
+bash_cmake_args_loc=/tmp/$USER/.bash_cmake_args_loc.$$.$RANDOM
+load_env_args_file=/tmp/$USER/.load_env_args.$$.$RANDOM
+
 # Get the location to the Python script in a subshell. cd does not change the previous
 # working directory of the caller since this is run in a subshell.
 script_dir="$(cd "$(dirname "${BASH_SOURCE[0]}")" &> /dev/null && pwd)"
@@ -101,7 +107,7 @@ fi
 
 
 ### Generate the configuration ###
-python3 -E -s ${script_dir}/gen_config.py $gen_config_py_call_args; ret=$?
+python3 -E -s ${script_dir}/gen_config.py --bash-cmake-args-location $bash_cmake_args_loc $gen_config_py_call_args; ret=$?
 if [[ $ret -ne 0 ]]; then
     cleanup_gc; return $?
 fi
@@ -110,7 +116,7 @@ fi
 
 ### Run LoadEnv and CMake ###
 # Export these for load-env.sh
-export cmake_args_file=$(cat /tmp/$USER/.bash_cmake_args_loc)
+export cmake_args_file=$(cat $bash_cmake_args_loc)
 export path_to_src
 
 # This function gets called from WITHIN load-env.sh, either in the current shell
@@ -145,11 +151,11 @@ function gen_config_helper()
 declare -x -f gen_config_helper
 
 # Get proper call args to pass to LoadEnv, which ARE NOT the same as those we pass to GenConfig.
-python3 -E -s ${script_dir}/gen_config.py $gen_config_py_call_args --save-load-env-args /tmp/$USER/.load_env_args; ret=$?
+python3 -E -s ${script_dir}/gen_config.py $gen_config_py_call_args --save-load-env-args $load_env_args_file; ret=$?
 if [[ $ret -ne 0 ]]; then
     cleanup_gc; return $?
 fi
-load_env_call_args=$(cat /tmp/$USER/.load_env_args)
+load_env_call_args=$(cat $load_env_args_file)
 
 # Actually run LoadEnv:
 source ${script_dir}/LoadEnv/load-env.sh ${load_env_call_args}; ret=$?
diff --git a/wip/genconfig/gen_config.py b/wip/genconfig/gen_config.py
index 22d4837..8489ca1 100755
--- a/wip/genconfig/gen_config.py
+++ b/wip/genconfig/gen_config.py
@@ -459,6 +459,11 @@ class GenConfig(FormattedMsg):
                             "GenConfig, write the corresponding command line "
                             "arguments for LoadEnv to a specified file.")
 
+        parser.add_argument("--bash-cmake-args-location", action="store",
+                            default=None, type=lambda p: Path(p).resolve(),
+                            help="File that shall name the file with the cmake "
+                            "arguments for bash (used by gen-config.sh).")
+
         config_files = parser.add_argument_group(
             "configuration file overmachine-name-1s"
         )
@@ -539,7 +544,11 @@ def main(argv):
             F.write(gc.generated_config_flags_str)
 
         # Location to the unique file ^^. Used in gen-config.sh.
-        with open(f"/tmp/{user}/.bash_cmake_args_loc", "w") as F:
+        bash_cmake_args_loc = gc.args.bash_cmake_args_location
+        if bash_cmake_args_loc is None:
+            bash_cmake_args_loc = Path(f"/tmp/{user}/.bash_cmake_args_loc")
+        bash_cmake_args_loc.parent.mkdir(parents=True, exist_ok=True)
+        with open(bash_cmake_args_loc, "w") as F:
             F.write(str(bash_cmake_args_file_loc))
 
 
-- 
2.43.0


From 8ef73b1a0cbf25e2d87760b3925d48a477dc44ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:47 +0000
Subject: [PATCH 37/37] fix: with Lmod, module() checks every module of a load
 or unload, not only the first

A load (or unload, or use) of several modules of which only the first
succeeded silently was reported as a success.
---
 wip/setenvironment/src/setenvironment/ModuleHelper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wip/setenvironment/src/setenvironment/ModuleHelper.py b/wip/setenvironment/src/setenvironment/ModuleHelper.py
index a30c638..a968dde 100644
--- a/wip/setenvironment/src/setenvironment/ModuleHelper.py
+++ b/wip/setenvironment/src/setenvironment/ModuleHelper.py
@@ -139,14 +139,14 @@ try:          # pragma: cover if on lmod
         is_file = "[ -e {0} ] && true || false"
         # TODO: handle other commands: purge, etc.
         if _command[0] == 'load':
-            shell_cmds += [is_loaded.format(_arguments[0])]
+            shell_cmds += [is_loaded.format(x) for x in _arguments]
         elif _command[0] == 'unload':
-            shell_cmds += [is_unloaded.format(_arguments[0])]
+            shell_cmds += [is_unloaded.format(x) for x in _arguments]
         elif _command[0] == 'swap':
             shell_cmds += [is_unloaded.format(_arguments[0])]
             shell_cmds += [is_loaded.format(_arguments[1])]
         elif _command[0] == 'use':
-            shell_cmds += [is_file.format(_arguments[0])]
+            shell_cmds += [is_file.format(x) for x in _arguments]
 
         # NOTE: mock.py does not recognize keyword argument 'shell' in __init__
         # so we bypass mock.py via os.system here instead of running:
-- 
2.43.0

