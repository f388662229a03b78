From 39cc2ad3bff44ef559eb8ae51ddd980ebe96e20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 1/7] fix: convert to numeric styles when a query has no out
 parameters

The row size was taken from the last parameter conversion, so a query without
any parameter (or with only empty tuples) raised IndexError.
---
 sqlparams/_converting.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index 1a79717..fc26c23 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -478,8 +478,7 @@ class NamedToNumericConverter(NamedConverter):
 		Returns the many out-style parameters (:class:`list` of :class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = sum(len(__conv[2]) if __conv[0] else 1 for __conv in param_conversions)
 
 		many_out_params = []
 		for i, in_params in enumerate(many_in_params):
@@ -532,8 +531,7 @@ class NamedToNumericConverter(NamedConverter):
 		Returns the out-style parameters (:class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = sum(len(__conv[2]) if __conv[0] else 1 for __conv in param_conversions)
 
 		out_params: List[Any] = [None] * size
 		for expand_tuple, in_name, out_index in param_conversions:
@@ -1258,8 +1256,7 @@ class NumericToNumericConverter(NumericConverter):
 		Returns the many out-style parameters (:class:`list` of :class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = sum(len(__conv[2]) if __conv[0] else 1 for __conv in param_conversions)
 
 		many_out_params = []
 		for i, in_params in enumerate(many_in_params):
@@ -1317,8 +1314,7 @@ class NumericToNumericConverter(NumericConverter):
 		Returns the out-style parameters (:class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = sum(len(__conv[2]) if __conv[0] else 1 for __conv in param_conversions)
 
 		out_params: List[Any] = [None] * size
 		for expand_tuple, in_index, out_index in param_conversions:
@@ -2027,8 +2023,7 @@ class OrdinalToNumericConverter(OrdinalConverter):
 		Returns the many out-style parameters (:class:`list` of :class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = sum(len(__conv[2]) if __conv[0] else 1 for __conv in param_conversions)
 
 		many_out_params = []
 		for i, in_params in enumerate(many_in_params):
@@ -2086,8 +2081,7 @@ class OrdinalToNumericConverter(OrdinalConverter):
 		Returns the out-style parameters (:class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = sum(len(__conv[2]) if __conv[0] else 1 for __conv in param_conversions)
 
 		out_params: List[Any] = [None] * size
 		for expand_tuple, in_index, out_index in param_conversions:
-- 
2.43.0


From 677d09334cfe3abf416f898a76b784430d24f06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:06 +0000
Subject: [PATCH 2/7] fix: check later rows against an empty tuple in
 formatmany()

When a tuple was empty in the first row, nothing recorded that a tuple of
length 0 was expected, and the values of a non-empty tuple in a later row were
silently dropped instead of raising ValueError.
---
 sqlparams/_converting.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index fc26c23..87b86e8 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -338,6 +338,7 @@ class NamedToNamedConverter(NamedConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_name_param, []))
 					return "(NULL)"
 
 				# Convert named parameter by flattening tuple values.
@@ -599,6 +600,7 @@ class NamedToNumericConverter(NamedConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_name_param, []))
 					return "(NULL)"
 
 				# Convert named parameter by flattening tuple values.
@@ -851,6 +853,7 @@ class NamedToOrdinalConverter(NamedConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_name_param, 0))
 					return "(NULL)"
 
 				# Convert named parameter by flattening tuple values.
@@ -1111,6 +1114,7 @@ class NumericToNamedConverter(NumericConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, []))
 					return "(NULL)"
 
 				# Convert numeric parameter by flattening tuple values.
@@ -1371,6 +1375,7 @@ class NumericToNumericConverter(NumericConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, []))
 					return "(NULL)"
 
 				# Convert numeric parameter by flattening tuple values.
@@ -1626,6 +1631,7 @@ class NumericToOrdinalConverter(NumericConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, 0))
 					return "(NULL)"
 
 				# Convert numeric parameter by flattening tuple values.
@@ -1877,6 +1883,7 @@ class OrdinalToNamedConverter(OrdinalConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, []))
 					return "(NULL)"
 
 				# Convert ordinal parameter by flattening tuple values.
@@ -2139,6 +2146,7 @@ class OrdinalToNumericConverter(OrdinalConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, []))
 					return "(NULL)"
 
 				# Convert ordinal parameter by flattening tuple values.
@@ -2382,6 +2390,7 @@ class OrdinalToOrdinalConverter(OrdinalConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, 0))
 					return "(NULL)"
 
 				# Convert ordinal parameter by flattening tuple values.
-- 
2.43.0


From 42b40f555e2e88bc48eabbd3fe36f12a4650c2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 3/7] fix: ignore mapping keys that are digits but not decimal
 numbers

A key such as '\u00b2' satisfies str.isdigit() but int() rejects it, so an
unrelated key in the parameters made every numeric and ordinal conversion
raise ValueError.
---
 sqlparams/_converting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index 87b86e8..f165409 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -901,7 +901,7 @@ class NumericConverter(Converter):
 		return {
 			int(__key) - start: __value
 			for __key, __value in in_params.items()
-			if isinstance(__key, int) or (isinstance(__key, (str, bytes)) and __key.isdigit())
+			if isinstance(__key, int) or (isinstance(__key, str) and __key.isdecimal()) or (isinstance(__key, bytes) and __key.isdigit())
 		}
 
 
@@ -1664,7 +1664,7 @@ class OrdinalConverter(Converter):
 		return {
 			int(__key): __value
 			for __key, __value in in_params.items()
-			if isinstance(__key, int) or (isinstance(__key, (str, bytes)) and __key.isdigit())
+			if isinstance(__key, int) or (isinstance(__key, str) and __key.isdecimal()) or (isinstance(__key, bytes) and __key.isdigit())
 		}
 
 
-- 
2.43.0


From 34b24a77fc2ff880bf78b78df86617c36e05a771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 4/7] fix: reject numeric parameter 0 when the parameters are a
 sequence

Numeric styles start at 1, but parameter 0 (e.g., from '12:00:00') was mapped
to index -1 and silently replaced with the last element of the sequence.
---
 sqlparams/_converting.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index f165409..e2479f1 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -886,6 +886,24 @@ class NumericConverter(Converter):
 		the specified number.
 		"""
 
+	def _check_index(
+		self,
+		in_params: Union[Sequence[Any], Dict[int, Any]],
+		in_index: int,
+	) -> None:
+		"""
+		Check that the in-index does not count from the end of a sequence.
+
+		*in_params* (:class:`~collections.abc.Sequence` or :class:`~collections.abc.Mapping`)
+		is the in-parameters.
+
+		*in_index* (:class:`int`) is the in-index.
+
+		Raises :class:`IndexError` if the index is before the start of a sequence.
+		"""
+		if in_index < 0 and is_sequence(in_params):
+			raise IndexError(f"Numeric parameter {in_index + self._in_start} is out of range.")
+
 	def _mapping_as_sequence(
 		self,
 		in_params: Dict[Union[int, str], Any],
@@ -1018,6 +1036,7 @@ class NumericToNamedConverter(NumericConverter):
 
 			out_params: Dict[str, Any] = {}
 			for expand_tuple, in_index, out_name in param_conversions:
+				self._check_index(in_params, in_index)
 				if expand_tuple:
 					# Tuple conversion.
 					out_names = out_name
@@ -1110,6 +1129,7 @@ class NumericToNamedConverter(NumericConverter):
 			in_num_str = result['param']
 			in_index = int(in_num_str) - self._in_start
 
+			self._check_index(in_params, in_index)
 			value = in_params[in_index]
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
@@ -1275,6 +1295,7 @@ class NumericToNumericConverter(NumericConverter):
 
 			out_params: List[Any] = [None] * size
 			for expand_tuple, in_index, out_index in param_conversions:
+				self._check_index(in_params, in_index)
 				if expand_tuple:
 					# Tuple conversion.
 					values = in_params[in_index]
@@ -1371,6 +1392,7 @@ class NumericToNumericConverter(NumericConverter):
 			# Numeric parameter matched, return numeric out-style parameter.
 			in_index = int(result['param']) - self._in_start
 
+			self._check_index(in_params, in_index)
 			value = in_params[in_index]
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
@@ -1535,6 +1557,7 @@ class NumericToOrdinalConverter(NumericConverter):
 
 			out_params: List[Any] = []
 			for expand_tuple, in_index, out_count in param_conversions:
+				self._check_index(in_params, in_index)
 				if expand_tuple:
 					# Tuple conversion.
 					values = in_params[in_index]
@@ -1627,6 +1650,7 @@ class NumericToOrdinalConverter(NumericConverter):
 			# Numeric parameter matched, return ordinal out-style parameter.
 			in_index = int(result['param']) - self._in_start
 
+			self._check_index(in_params, in_index)
 			value = in_params[in_index]
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
-- 
2.43.0


From 7c40da030fa6d696f4d5ccaf22916bfab241b66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:58 +0000
Subject: [PATCH 5/7] fix: match a parameter directly after an escaped initial
 character

With the default escape character, the text "%%%s" is an escaped percent
sign followed by a parameter. The parameter was not recognized because the
lookbehind rejects any preceding initial character, even one which is the end
of an escape sequence: SQLParams("format", "qmark", escape_char=True)
.format("7 %%%s", [2]) lost its parameter.
---
 sqlparams/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sqlparams/__init__.py b/sqlparams/__init__.py
index 4281063..d52aec9 100644
--- a/sqlparams/__init__.py
+++ b/sqlparams/__init__.py
@@ -410,7 +410,15 @@ class SQLParams(object):
 			escape = in_obj.escape_regex.format(char=re.escape(escape_char))
 			regex_parts.append(escape)
 
-		regex_parts.append(in_obj.param_regex)
+		param_regex = in_obj.param_regex
+		if escape_char == in_obj.escape_char:
+			# Doubled initial characters are consumed by the escape sequence. An initial
+			# character after them (e.g., "%%%s") begins a parameter.
+			not_doubled = "(?<!{})".format(re.escape(in_obj.escape_char))
+			if param_regex.startswith(not_doubled):
+				param_regex = param_regex[len(not_doubled):]
+
+		regex_parts.append(param_regex)
 
 		return re.compile("|".join(regex_parts))
 
-- 
2.43.0


From 65c4187bf584f336dd61db8ce89bc94d7cb500fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:00 +0000
Subject: [PATCH 6/7] fix: strip multiline comments before single line comments

With strip_comments=["--", ("/*", "*/")] a line of a multiline comment which
begins with "--" was stripped on its own, together with the ending string if
it was on that line: "/* a\n-- b */\nSELECT 1" became "/* a\nSELECT 1".
---
 sqlparams/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sqlparams/__init__.py b/sqlparams/__init__.py
index d52aec9..2477df3 100644
--- a/sqlparams/__init__.py
+++ b/sqlparams/__init__.py
@@ -437,18 +437,19 @@ class SQLParams(object):
 		if strip_comments is None:
 			return []
 
-		out_regexes = []
+		multi_regexes = []
+		single_regexes = []
 		for i, comment_style in enumerate(strip_comments):
 			if isinstance(comment_style, str):
 				# Compile regular expression to strip single line comment.
-				out_regexes.append(re.compile("^[ \t]*{comment}.*(?:\n|\r\n)?".format(
+				single_regexes.append(re.compile("^[ \t]*{comment}.*(?:\n|\r\n)?".format(
 					comment=re.escape(comment_style),
 				), re.M))
 
 			elif _util.is_sequence(comment_style):
 				# Compile regular expression to strip multiline comment.
 				start_comment, end_comment = comment_style  # type: str
-				out_regexes.append(re.compile("^[ \t]*{start}.*?{end}(?:\n|\r\n)?".format(
+				multi_regexes.append(re.compile("^[ \t]*{start}.*?{end}(?:\n|\r\n)?".format(
 					start=re.escape(start_comment),
 					end=re.escape(end_comment),
 				), re.DOTALL | re.M))
@@ -457,7 +458,9 @@ class SQLParams(object):
 			else:
 				raise TypeError(f"strip_comments[{i}]={comment_style!r} must be either a str or tuple.")
 
-		return out_regexes
+		# NOTE: A line of a multiline comment can look like a single line comment (and
+		# hold the ending string), so multiline comments must be stripped first.
+		return multi_regexes + single_regexes
 
 	@property
 	def escape_char(self) -> Optional[str]:
-- 
2.43.0


From b31b900fc2adf51c4cb2de17d3c6121936549b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:17 +0000
Subject: [PATCH 7/7] fix: escape sequences which begin with a percent sign
 were ignored

When converting from a style without percent signs to "format" or "pyformat",
the alternative which doubles percent signs came before the escape sequence, so
that an escape character beginning with "%" never escaped a parameter.
---
 sqlparams/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sqlparams/__init__.py b/sqlparams/__init__.py
index 2477df3..ac0ac36 100644
--- a/sqlparams/__init__.py
+++ b/sqlparams/__init__.py
@@ -402,14 +402,15 @@ class SQLParams(object):
 		"""
 		regex_parts = []
 
-		if in_obj.escape_char != "%" and out_obj.escape_char == "%":
-			regex_parts.append("(?P<out_percent>%)")
-
 		if escape_char:
-			# Escaping is enabled.
+			# Escaping is enabled. This must come before the out percent because the
+			# escape character can begin with a percent sign.
 			escape = in_obj.escape_regex.format(char=re.escape(escape_char))
 			regex_parts.append(escape)
 
+		if in_obj.escape_char != "%" and out_obj.escape_char == "%":
+			regex_parts.append("(?P<out_percent>%)")
+
 		param_regex = in_obj.param_regex
 		if escape_char == in_obj.escape_char:
 			# Doubled initial characters are consumed by the escape sequence. An initial
-- 
2.43.0

