"""
A second implementation of the SQLParams class, written from the documentation
alone: a hand-written scanner, a plan of the placeholders and rows which are
read in full before anything is converted. It shares no code and no regular
expression with /repo. tools/alt.sh puts it in place of the class in a scratch
copy and runs every check on it: a check which raises an alarm there judges how
the code is written and not what it does.
"""
from collections.abc import Iterable, Mapping, Sequence

LEADS = {'format': '%', 'pyformat': '%', 'named': ':', 'named_oracle': ':', 'numeric': ':', 'named_dollar': '$',
	'numeric_dollar': '$', 'named_sqlserver': '@', 'qmark': '?'}
KINDS = {'format': 'o', 'qmark': 'o', 'numeric': '#', 'numeric_dollar': '#', 'named': 'n', 'named_oracle': 'n', 'named_dollar': 'n',
	'named_sqlserver': 'n', 'pyformat': 'n'}
FIRST = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_')
DEFAULT_COMMENTS = (("/*", "*/"), "--")


def _word(text, at):
	end = at
	while end < len(text) and (text[end].isalnum() or text[end] == '_'):
		end += 1
	return end


def _name(text, at):
	if at < len(text) and text[at] in FIRST:
		return _word(text, at)
	return at


def _placeholder(style, text, at):
	"""The placeholder whose lead is just before at: (end, reference) or None."""
	if style == 'format':
		return (at + 1, None) if text[at:at + 1] == 's' else None
	if style == 'qmark':
		return None if text[at:at + 1] == '?' else (at, None)
	if KINDS[style] == '#':
		end = at
		while end < len(text) and text[end].isdecimal():
			end += 1
		return (end, int(text[at:end])) if end > at else None
	if style == 'pyformat':
		if text[at:at + 1] != '(':
			return None
		end = _name(text, at + 1)
		return (end + 2, text[at + 1:end]) if end > at + 1 and text[end:end + 2] == ')s' else None
	if style == 'named_oracle' and text[at:at + 1] == '"':
		end = _name(text, at + 1)
		return (end + 1, text[at + 1:end]) if end > at + 1 and text[end:end + 1] == '"' else None
	end = _name(text, at)
	if end == at:
		return None
	return end, (text[at:end].upper() if style == 'named_oracle' else text[at:end])


class SQLParams:

	def __init__(self, in_style, out_style, escape_char=None, expand_tuples=None, strip_comments=None, allow_out_quotes=None):
		for style in (in_style, out_style):
			if not isinstance(style, str):
				raise TypeError(style)
			if style not in LEADS:
				raise KeyError(style)
		if escape_char is True:
			escape_char = LEADS[in_style]
		elif not escape_char:
			escape_char = None
		elif not isinstance(escape_char, str):
			raise TypeError(escape_char)
		if strip_comments is True:
			strip_comments = DEFAULT_COMMENTS
		elif strip_comments is False:
			strip_comments = None
		self._many, self._single = [], []
		for comment in strip_comments or ():
			if isinstance(comment, str):
				self._single.append(comment)
			elif isinstance(comment, Sequence) and not isinstance(comment, bytes):
				start, end = comment
				self._many.append((start + '', end + ''))
			else:
				raise TypeError(comment)
		self._in, self._out, self._escape, self._strip = in_style, out_style, escape_char, strip_comments
		self._expand = KINDS[out_style] != 'n' if expand_tuples is None else bool(expand_tuples)
		self._quotes = bool(allow_out_quotes) and out_style == 'named_oracle'

	in_style = property(lambda self: self._in)
	out_style = property(lambda self: self._out)
	escape_char = property(lambda self: self._escape)
	expand_tuples = property(lambda self: self._expand)
	strip_comments = property(lambda self: self._strip)

	def __repr__(self):
		return '{}.{}({!r}, {!r})'.format(type(self).__module__, type(self).__name__, self._in, self._out)

	def format(self, sql, params):
		text = self._text(sql)
		tokens = self._scan(self._uncomment(text))
		out, rows = self._convert(tokens, [params])
		return self._back(sql, out), rows[0]

	def formatmany(self, sql, many_params):
		text = self._text(sql)
		if isinstance(many_params, (str, bytes)) or not isinstance(many_params, Iterable):
			raise TypeError(many_params)
		rows = list(many_params)
		if not rows:
			raise IndexError('no rows')
		tokens = self._scan(self._uncomment(text))
		out, rows = self._convert(tokens, rows)
		return self._back(sql, out), rows

	def _text(self, sql):
		if isinstance(sql, str):
			return sql
		if isinstance(sql, bytes):
			return ''.join(map(chr, sql))
		raise TypeError(sql)

	def _back(self, sql, text):
		return bytes(map(ord, text)) if isinstance(sql, bytes) else text

	def _uncomment(self, text):
		for start, end in self._many:
			text = self._uncomment_one(text, start, end)
		for start in self._single:
			text = self._uncomment_one(text, start, None)
		return text

	@staticmethod
	def _uncomment_one(text, start, end):
		out, at = [], 0
		while at < len(text):
			here = at
			while here < len(text) and text[here] in ' \t':
				here += 1
			if text.startswith(start, here):
				here += len(start)
				stop = None
				if end is None:
					stop = text.find('\n', here)
					stop = len(text) if stop < 0 else stop + 1
				else:
					stop = text.find(end, here)
					if stop >= 0:
						stop += len(end)
						stop += 2 if text.startswith('\r\n', stop) else text.startswith('\n', stop)
					else:
						stop = None
				if stop is not None:
					empty = stop == at
					at = stop
					if empty or (at < len(text) and text[at - 1] != '\n'):
						# The text after the comment is no start of a line.
						line = text.find('\n', at)
						line = len(text) if line < 0 else line + 1
						out.append(text[at:line])
						at = line
					continue
			line = text.find('\n', at)
			line = len(text) if line < 0 else line + 1
			out.append(text[at:line])
			at = line
		return ''.join(out)

	def _scan(self, text):
		"""A list of str (literal text) and 1-tuples (reference)."""
		lead, escape = LEADS[self._in], self._escape
		double = LEADS[self._out] == '%' and lead != '%'
		default = escape == lead
		tokens, at, n = [], 0, len(text)
		after_lead = False
		while at < n:
			if escape and text.startswith(escape + lead, at):
				tokens.append(lead)
				at += len(escape) + 1
				after_lead = not default
				continue
			c = text[at]
			if double and c == '%':
				tokens.append('%%')
				at += 1
				after_lead = False
				continue
			if c == lead and not after_lead:
				found = _placeholder(self._in, text, at + 1)
				if found:
					at, ref = found
					tokens.append((ref,))
					# No placeholder ends in its lead except "?".
					after_lead = self._in == 'qmark' and not default
					continue
			after_lead = c == lead and not default
			tokens.append(c)
			at += 1
		return tokens

	def _reader(self, row):
		kind = KINDS[self._in]
		if kind == 'n':
			if not isinstance(row, Mapping):
				raise TypeError(row)
			if self._in == 'named_oracle':
				names = {}
				for key in row:
					if len(key) > 1 and key[0] == key[-1] == '"':
						name = key[1:-1]
					elif '"' in (key[:1], key[-1:]):
						raise KeyError(key)
					else:
						name = key.upper()
					names.setdefault(name, key)
				return lambda ref: row[names[ref]]
			return row.__getitem__
		start = 1 if kind == '#' else 0
		if isinstance(row, Mapping):
			numbers = {}
			for key, value in row.items():
				if isinstance(key, int) or (isinstance(key, (str, bytes)) and (key.isdigit() if isinstance(key, bytes) else key.isdecimal())):
					numbers[int(key)] = value
			return numbers.__getitem__
		if not isinstance(row, Sequence) or isinstance(row, (str, bytes)):
			raise TypeError(row)

		def read(ref):
			if ref < start:
				raise IndexError(ref)
			return row[ref - start]
		return read

	def _convert(self, tokens, rows):
		if KINDS[self._in] == 'o':
			count = 0
			for n, token in enumerate(tokens):
				if isinstance(token, tuple):
					tokens[n] = (count,)
					count += 1
		readers = [self._reader(row) for row in rows]
		refs = list(dict.fromkeys(token[0] for token in tokens if isinstance(token, tuple)))
		shapes = {}
		for ref in refs:
			value = readers[0](ref)
			shapes[ref] = len(value) if self._expand and isinstance(value, tuple) else None
		kind = KINDS[self._out]
		slots, plan, out = {}, [], []
		for token in tokens:
			if not isinstance(token, tuple):
				out.append(token)
				continue
			ref, = token
			size = shapes[ref]
			parts = []
			for sub in (None,) if size is None else range(size):
				if kind == 'o' or (ref, sub) not in slots:
					slots[ref, sub] = len(plan)
					plan.append((ref, sub))
				parts.append(self._write(ref, sub, slots[ref, sub]))
			out.append(parts[0] if size is None else '(' + ','.join(parts) + ')' if parts else '(NULL)')
		results = []
		for n, read in enumerate(readers):
			values = {ref: read(ref) for ref in refs}
			for ref, size in shapes.items():
				if n and size is not None:
					if not isinstance(values[ref], tuple):
						raise TypeError('%r was expected to be a tuple.' % (values[ref],))
					if len(values[ref]) != size:
						raise ValueError('%r length was expected to be %d.' % (values[ref], size))
			flat = [values[ref] if sub is None else values[ref][sub] for ref, sub in plan]
			if kind == 'n':
				flat = {self._key(ref, sub): value for (ref, sub), value in zip(plan, flat)}
			results.append(flat)
		return ''.join(out), results

	def _key(self, ref, sub):
		name = ref if isinstance(ref, str) else '_%d' % ref
		if sub is not None:
			name += ('__%d_sqlp' if isinstance(ref, str) else '_%d') % sub
		return '"%s"' % name if self._quotes else name

	def _write(self, ref, sub, slot):
		out = self._out
		if out == 'qmark':
			return '?'
		if out == 'format':
			return '%s'
		if out == 'pyformat':
			return '%%(%s)s' % self._key(ref, sub)
		return LEADS[out] + (self._key(ref, sub) if KINDS[out] == 'n' else str(slot + 1))
