"""
Independent reference model of the parameter styles: a hand-written scanner (no
regular expressions, no code shared with /repo), a one-row converter, and an
interpreter which reads a *converted* query back and binds its parameters.
"""

STYLES = (
	'format', 'named', 'named_dollar', 'named_oracle', 'named_sqlserver',
	'numeric', 'numeric_dollar', 'pyformat', 'qmark',
)
NAMED = ('named', 'named_dollar', 'named_oracle', 'named_sqlserver', 'pyformat')
NUMERIC = ('numeric', 'numeric_dollar')
ORDINAL = ('format', 'qmark')
PERCENT = ('format', 'pyformat')
LEAD = {
	'format': '%', 'named': ':', 'named_dollar': '$', 'named_oracle': ':',
	'named_sqlserver': '@', 'numeric': ':', 'numeric_dollar': '$',
	'pyformat': '%', 'qmark': '?',
}
NAME_START = frozenset('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_')
DIGITS = frozenset('0123456789')


class ModelError(Exception):
	"""The reference model says that the conversion has to be refused."""


class Mismatch(Exception):
	"""The converted query cannot be read back."""


def is_word(c):
	return c == '_' or c.isalnum()


def read_name(s, i):
	"""End of the parameter name starting at *i*, or None."""
	if i < len(s) and s[i] in NAME_START:
		i += 1
		while i < len(s) and is_word(s[i]):
			i += 1
		return i
	return None


def read_placeholder(s, i, style):
	"""(end, payload) of the placeholder whose lead is at *i*, or None."""
	if style == 'qmark':
		return None if s.startswith('?', i + 1) else (i + 1, None)
	if style == 'format':
		return (i + 2, None) if s.startswith('s', i + 1) else None
	if style == 'pyformat':
		if not s.startswith('(', i + 1):
			return None
		end = read_name(s, i + 2)
		if end is None or not s.startswith(')s', end):
			return None
		return end + 2, (s[i + 2:end], False)
	if style in NUMERIC:
		end = i + 1
		while end < len(s) and s[end] in DIGITS:
			end += 1
		return (end, s[i + 1:end]) if end > i + 1 else None
	if style == 'named_oracle' and s.startswith('"', i + 1):
		end = read_name(s, i + 2)
		if end is None or not s.startswith('"', end):
			return None
		return end + 1, (s[i + 2:end], True)
	end = read_name(s, i + 1)
	return None if end is None else (end, (s[i + 1:end], False))


def scan(s, style, esc=None, pct=False):
	"""
	Tokens of *s*: ('L', text), ('E',) an escaped lead, ('%',) a percent sign to
	double, ('P', payload, text). Literals are maximal.
	"""
	lead = LEAD[style]
	out, lit, i = [], [], 0

	def flush():
		if lit:
			out.append(('L', ''.join(lit)))
			lit.clear()

	while i < len(s):
		c = s[i]
		if esc and s.startswith(esc + lead, i):
			flush()
			out.append(('E',))
			i += len(esc) + 1
			continue
		if pct and c == '%':
			flush()
			out.append(('%',))
			i += 1
			continue
		if c == lead and (esc == lead or not (i and s[i - 1] == lead)):
			got = read_placeholder(s, i, style)
			if got is not None:
				flush()
				out.append(('P', got[1], s[i:got[0]]))
				i = got[0]
				continue
		lit.append(c)
		i += 1
	flush()
	return out


def oracle_key(key):
	"""Canonical spelling of an Oracle parameter key."""
	if len(key) > 1 and key[0] == key[-1] == '"':
		return key[1:-1]
	return key.upper()


def strip(sql, comments):
	"""Remove the comments that begin a line: multiline styles first."""
	if comments is True:
		comments = [('/*', '*/'), '--']
	if not comments:
		return sql
	for c in [c for c in comments if not isinstance(c, str)] + [c for c in comments if isinstance(c, str)]:
		out, i, at_start = [], 0, True
		while i < len(sql):
			if at_start:
				k = i
				while k < len(sql) and sql[k] in ' \t':
					k += 1
				end = None
				if isinstance(c, str):
					if sql.startswith(c, k):
						end = sql.find('\n', k)
						end = len(sql) if end < 0 else end
						if end < len(sql):
							end += 1
				elif sql.startswith(c[0], k):
					end = sql.find(c[1], k + len(c[0]))
					if end >= 0:
						end += len(c[1])
						if sql.startswith('\r\n', end):
							end += 2
						elif sql.startswith('\n', end):
							end += 1
					else:
						end = None
				if end is not None:
					i = end
					at_start = sql[i - 1] == '\n'
					continue
			out.append(sql[i])
			at_start = sql[i] == '\n'
			i += 1
		sql = ''.join(out)
	return sql


def strip_once(sql, comments):
	"""The same in one pass, in which nothing that a removed comment exposes is looked at."""
	if comments is True:
		comments = [('/*', '*/'), '--']
	comments = [c for c in comments or () if not isinstance(c, str)] + [c for c in comments or () if isinstance(c, str)]
	out, i, at_start = [], 0, True
	while i < len(sql):
		end = None
		if at_start:
			k = i
			while k < len(sql) and sql[k] in ' \t':
				k += 1
			for c in comments:
				start = c if isinstance(c, str) else c[0]
				if not sql.startswith(start, k):
					continue
				if isinstance(c, str):
					end = sql.find('\n', k) + 1 or len(sql)
					break
				at = sql.find(c[1], k + len(start))
				if at >= 0:
					end = at + len(c[1])
					if sql.startswith('\r\n', end):
						end += 2
					elif sql.startswith('\n', end):
						end += 1
					break
		if end is None:
			out.append(sql[i])
			at_start = sql[i] == '\n'
			i += 1
		else:
			i = end
			at_start = sql[i - 1] == '\n'
	return ''.join(out)


def resolve_esc(style, esc):
	return LEAD[style] if esc is True else (esc or None)


def resolve_exp(out_style, exp):
	return (out_style not in NAMED) if exp is None else bool(exp)


def write_placeholder(style, name, quoted=False):
	if style == 'qmark':
		return '?'
	if style == 'format':
		return '%s'
	if style == 'pyformat':
		return '%(' + name + ')s'
	if quoted:
		return LEAD[style] + '"' + name + '"'
	return LEAD[style] + name


def lookup(in_style, payload, counter, params):
	"""
	(canonical id, base of generated out-names, value). *params* is a plain dict
	(named), or a list (numeric and ordinal; numeric also a dict by number).
	"""
	if in_style in NAMED:
		name, quoted = payload
		if in_style == 'named_oracle':
			want = name if quoted else name.upper()
			for key in params:
				if oracle_key(key) == want:
					return want, want, params[key]
			raise ModelError(name)
		if name not in params:
			raise ModelError(name)
		return name, name, params[name]
	if in_style in NUMERIC:
		n = int(payload)
		if isinstance(params, dict):
			if n not in params:
				raise ModelError(payload)
			return n, '_' + payload, params[n]
		if not 1 <= n <= len(params):
			raise ModelError(payload)
		return n, '_' + payload, params[n - 1]
	n = counter[0]
	counter[0] += 1
	if n >= len(params):
		raise ModelError('#%d' % n)
	return ('#', n), '_%d' % n, params[n]


def convert(in_style, out_style, esc, exp, oq, sql, params):
	"""Expected (sql, params) of one conversion (exact)."""
	expand = resolve_exp(out_style, exp)
	pct = LEAD[in_style] != '%' and LEAD[out_style] == '%'
	quoted = bool(oq) and out_style == 'named_oracle'
	text, counter, numbers = [], [0], {}
	out = {} if out_style in NAMED else []

	def emit(ident, name, value):
		if out_style in NAMED:
			key = '"%s"' % name if quoted else name
			out[key] = value
			return write_placeholder(out_style, name, quoted)
		if out_style in NUMERIC:
			if ident not in numbers:
				out.append(value)
				numbers[ident] = len(out)
			return write_placeholder(out_style, str(numbers[ident]))
		out.append(value)
		return write_placeholder(out_style, None)

	for tok in scan(sql, in_style, resolve_esc(in_style, esc), pct):
		if tok[0] == 'L':
			text.append(tok[1])
		elif tok[0] == 'E':
			text.append(LEAD[in_style])
		elif tok[0] == '%':
			text.append('%%')
		else:
			ident, base, value = lookup(in_style, tok[1], counter, params)
			if expand and isinstance(value, tuple):
				subs = []
				for i in range(len(value)):
					name = '%s__%d_sqlp' % (base, i) if in_style in NAMED else '%s_%d' % (base, i)
					subs.append(emit((ident, i), name, value[i]))
				text.append('(' + ','.join(subs) + ')' if subs else '(NULL)')
			else:
				text.append(emit((ident, None), base, value))
	return ''.join(text), out


def merge(stream):
	"""Join adjacent literals of a stream of ('L', text) and ('V', value)."""
	out = []
	for tok in stream:
		if tok[0] == 'L':
			if not tok[1]:
				continue
			if out and out[-1][0] == 'L':
				out[-1] = ('L', out[-1][1] + tok[1])
				continue
		out.append(tok)
	return out


def same_stream(a, b):
	return len(a) == len(b) and all(
		x[0] == y[0] and (x[1] == y[1] if x[0] == 'L' else x[1] is y[1])
		for x, y in zip(a, b)
	)


def meaning(in_style, esc, expand, sql, params):
	"""The stream an in-style query stands for (params as in lookup())."""
	out, counter = [], [0]
	for tok in scan(sql, in_style, resolve_esc(in_style, esc)):
		if tok[0] == 'L':
			out.append(('L', tok[1]))
		elif tok[0] == 'E':
			out.append(('L', LEAD[in_style]))
		else:
			value = lookup(in_style, tok[1], counter, params)[2]
			if expand and isinstance(value, tuple):
				if not value:
					out.append(('L', '(NULL)'))
				for i, sub in enumerate(value):
					out.append(('L', ',' if i else '('))
					out.append(('V', sub))
				if value:
					out.append(('L', ')'))
			else:
				out.append(('V', value))
	return merge(out)


def interpret(out_style, sql, params, oq=False, unescape=False):
	"""
	Bind the parameters of a converted query the way a driver of *out_style*
	would: returns the stream, and raises Mismatch when the parameters do not
	fit the query (missing, left over, or of the wrong container type).
	"""
	want = dict if out_style in NAMED else list
	if type(params) is not want:
		raise Mismatch("out-parameters are %s, expected %s" % (type(params).__name__, want.__name__))
	out, used, n = [], set(), 0
	for tok in scan(sql, out_style, '%' if unescape and out_style in PERCENT else None):
		if tok[0] == 'L':
			if unescape and out_style in PERCENT and '%' in tok[1]:
				raise Mismatch("a percent sign of the text is not doubled")
			out.append(('L', tok[1]))
			continue
		if tok[0] == 'E':
			out.append(('L', '%'))
			continue
		if out_style in NAMED:
			name, quoted = tok[1]
			key = '"%s"' % name if quoted else name
			if key not in params:
				raise Mismatch("query refers to %r which is not among the out-parameters" % key)
		elif out_style in NUMERIC:
			if tok[1] != str(int(tok[1])):
				raise Mismatch("badly written number %r" % tok[2])
			key = int(tok[1]) - 1
			if not 0 <= key < len(params):
				raise Mismatch("query refers to %s but there are %d out-parameters" % (tok[2], len(params)))
		else:
			key, n = n, n + 1
			if key >= len(params):
				raise Mismatch("more placeholders than out-parameters (%d)" % len(params))
		used.add(key)
		out.append(('V', params[key]))
	if len(used) != len(params):
		keys = params if out_style in NAMED else range(len(params))
		raise Mismatch("out-parameters not used by the query: %r" % [k for k in keys if k not in used])
	return merge(out)


def show(stream):
	out = []
	for tok in stream:
		out.append(repr(tok[1]) if tok[0] == 'L' else '<%s>' % safe_repr(tok[1]))
	return ' '.join(out)


def safe_repr(v):
	try:
		return ascii(v)[:200]
	except Exception as e:
		return '<%s: repr raised %s>' % (type(v).__name__, type(e).__name__)
