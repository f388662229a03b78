"""C19: a real database runs the converted query as the original was meant."""
import sqlite3

from ..strat import st

from .. import gen, grid, model
from ..core import Violation, must

EXAMPLES = {'quick': 12000, 'thorough': 160000}
RULE = ("random boolean conditions (comparison, IN with tuples of length 0 to 6, NOT, AND, OR, BETWEEN) over a small SQLite table with NULLs, "
	"hostile strings and a column without a type (boundary integers and floats, texts, blobs; every value through every pair of styles), written in any of the nine in-styles, converted to the six styles which SQLite can execute, run, and compared with a "
	"three-valued evaluation in Python; rows are inserted through formatmany and executemany, and read back; non-trivial = at least two "
	"placeholders")
ASSUMPTIONS = ("SQLite takes numeric and numeric_dollar parameters by name, from a dict of the numbers",)

OUTS = ('qmark', 'named', 'named_dollar', 'named_sqlserver', 'numeric', 'numeric_dollar')
STRINGS = ("", "a", "A", "it's", "'; DROP TABLE t; --", ":a", "?", "%s", "%(a)s", "$1", "@a", "\\", '"', "NULL", "(1,2)", "é", "--", "/*", "a\nb", "100%", "a\0", "\0", "\0\0b", " a", "a ", "1", "1.0", "0", "\u0663", "A\u0301", "x" * 300)
nums = st.one_of(st.integers(-2, 4), st.none())
texts = st.one_of(st.sampled_from(STRINGS), st.sampled_from(STRINGS), st.none())
# Values for a column without a type: [kind, text], as JSON has neither bytes nor exact numbers.
NUMBERS = (0, 1, -1, 2, 10, 255, 2 ** 31, 2 ** 53, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63, 0.0, 1.0, -1.0, 2.0, 10.0, 0.1, 0.5, 1.5, 1e15, 1e16, 1e22, 2.0 ** 53, 2.0 ** 63,
	1e-300, 1e308, float('inf'), float('-inf'), 5e-324, 1 / 3)
ANYTHING = [['n', '']] + [['v', repr(x)] for x in NUMBERS] + [['s', x] for x in STRINGS] + [['y', x] for x in ('', 'a', '\0', '\xff', '1', 'a\0', '?')]
anything = st.sampled_from(ANYTHING)


def build(d):
	kind, text = d
	return None if kind == 'n' else text if kind == 's' else text.encode('latin1') if kind == 'y' else float(text) if 'n' in text or '.' in text or 'e' in text else int(text)


@st.composite
def conditions(draw, depth=0):
	kind = draw(st.sampled_from(['cmp', 'cmp', 'in', 'in', 'notin', 'between', 'lit'] if depth > 2 else
		['cmp', 'in', 'notin', 'and', 'or', 'not', 'and', 'or', 'between', 'lit', 'text']))
	if kind in ('and', 'or'):
		return [kind, draw(conditions(depth + 1)), draw(conditions(depth + 1))]
	if kind == 'not':
		return [kind, draw(conditions(depth + 1))]
	col = draw(st.sampled_from(['n', 's', 'n', 'x']))
	value = {'n': nums, 's': texts, 'x': anything}[col]
	if kind == 'cmp':
		return [kind, col, draw(st.sampled_from(['=', '<', '>=', '<>'])), draw(value)]
	if kind in ('in', 'notin'):
		return [kind, col, draw(st.lists(value, max_size=draw(st.sampled_from([1, 3, 6]))))]
	if kind == 'between':
		return [kind, 'n', draw(nums), draw(nums)]
	if kind == 'text':
		return [kind, 's', draw(st.sampled_from(["'%'", "'x%%y'", "'{}'", "'100%'", "''"]))]
	return [kind, draw(st.sampled_from(['n IS NULL', 's IS NULL', '1', '0', 'n = n /* note */']))]


@st.composite
def cases(draw, tier):
	return {'in': draw(gen.styles), 'out': draw(st.sampled_from(OUTS)), 'cond': draw(conditions()),
		'rows': draw(st.lists(st.tuples(nums, texts, anything), min_size=1, max_size=5)),
		'share': draw(st.booleans()), 'shuffle': draw(st.integers(0, 999)), 'bytes': draw(st.booleans()),
		'upper': draw(st.booleans()), 'end': draw(st.booleans())}


def enumerate_cases(tier):
	"""Every value, stored and looked for through every pair of styles."""
	n = grid.N(0)
	# Conditions at the end of the query: every pair of styles with tuples of every length.
	for i in model.STYLES:
		for o in OUTS:
			for size in (0, 1, 2, 3, 12):
				for kind in ('in', 'notin', 'cmp'):
					for end in (True, False):
						n += 1
						items = [STRINGS[(n + 3 * k) % len(STRINGS)] for k in range(size)]
						cond = ['cmp', 's', ('=', '<', '>=', '<>')[n // 2 % 4], STRINGS[n % len(STRINGS)]] if kind == 'cmp' else [kind, 's', items]
						yield {'in': i, 'out': o, 'cond': cond, 'rows': [[k, STRINGS[(n + 5 * k) % len(STRINGS)], ['n', '']] for k in range(5)] + [[None, None, ['n', '']]],
							'share': n % 3 == 0, 'shuffle': n % 999, 'bytes': False, 'upper': n % 5 == 0, 'end': end}
	# Long tuples, and many conditions.
	for size in grid.VOLUME:
		for k, i in enumerate(model.STYLES):
			for kind in ('in', 'notin'):
				n += 1
				items = list(range(10, 10 + size))
				for o in (OUTS[(n + size) % 6], OUTS[(n + size + 3) % 6]):
					yield {'in': i, 'out': o, 'cond': ['and', [kind, 'n', items], ['cmp', 's', '<>', 'b']], 'rows': [[v, 'a', ['n', '']] for v in (9, 10, 9 + size // 2, 9 + size, 10 + size, 3)],
						'share': n % 3 == 0, 'shuffle': n % 999, 'bytes': False, 'upper': n % 5 == 0, 'end': n % 2 == 0}
	for k, d in enumerate(ANYTHING):
		for i in model.STYLES:
			for o in OUTS + OUTS[::-1]:
				n += 1
				e = ANYTHING[(k + n) % len(ANYTHING)]
				s = d[1] if d[0] == 's' else STRINGS[n % len(STRINGS)]
				cond = (['in', 'x', [d, e]], ['or', ['cmp', 'x', '>=', d], ['cmp', 's', '<', s]], ['and', ['notin', 'x', [d]], ['in', 's', [s, None]]])[n // 2 % 3]
				cond = ['cmp', 'x', '=', d] if n % 2 else ['and', ['cmp', 's', '=', s], cond]
				yield {'in': i, 'out': o, 'cond': cond, 'rows': [[n % 3, s, d], [None, STRINGS[n % 7], e], [1, s, ['n', '']], [2, None, d]],
					'share': n // 2 % 2 == 0, 'shuffle': n % 999, 'bytes': False, 'upper': n % 5 == 0}


class Writer:
	"""Writes placeholders of the in-style and collects the values."""
	def __init__(self, c):
		self.c, self.style = c, c['in']
		self.values, self.slots = [], []

	def put(self, value):
		n = None
		if self.c['share'] and self.style not in model.ORDINAL:
			for k, v in enumerate(self.values):
				if type(v) is type(value) and v == value and repr(v) == repr(value):
					n = k
		if n is None:
			n = len(self.values)
			self.values.append(value)
		self.slots.append(n)
		return '\ue000%d\ue001' % (len(self.slots) - 1)

	def finish(self, text):
		"""Give the slots their names or numbers, in an order unlike that of use."""
		size = len(self.values)
		order = list(range(size))
		if self.style not in model.ORDINAL:
			x = self.c['shuffle']
			for k in range(size - 1, 0, -1):
				j = x % (k + 1)
				x = x // (k + 1) + 7 * k
				order[k], order[j] = order[j], order[k]
		for s, n in enumerate(self.slots):
			if self.style in model.NAMED:
				name = self.name(order[n])
				ph = model.write_placeholder(self.style, name.lower() if self.style == 'named_oracle' and s % 2 else name)
			elif self.style in model.NUMERIC:
				ph = model.write_placeholder(self.style, str(order[n] + 1))
			else:
				ph = model.write_placeholder(self.style, None)
			text = text.replace('\ue000%d\ue001' % s, ph)
		if self.style in model.NAMED:
			return text, {self.name(order[n]): v for n, v in enumerate(self.values)}
		params = [None] * size
		for n, v in enumerate(self.values):
			params[order[n]] = v
		return text, params

	def name(self, n):
		return 'P%d' % n if self.c['upper'] or self.style == 'named_oracle' else 'p_%d' % n


def parse(col, value):
	return build(value) if col == 'x' else value


def write(cond, w):
	kind = cond[0]
	if kind in ('and', 'or'):
		a = write(cond[1], w)
		return '(%s %s %s)' % (a, kind.upper(), write(cond[2], w))
	if kind == 'not':
		return '(NOT %s)' % write(cond[1], w)
	if kind == 'cmp':
		return '%s %s %s ' % (cond[1], cond[2], w.put(parse(cond[1], cond[3])))
	if kind in ('in', 'notin'):
		return '%s %s %s ' % (cond[1], 'IN' if kind == 'in' else 'NOT IN', w.put(tuple(parse(cond[1], x) for x in cond[2])))
	if kind == 'between':
		a = w.put(cond[2])
		return 'n BETWEEN %s AND %s ' % (a, w.put(cond[3]))
	if kind == 'text':
		return '%s = %s' % (cond[1], cond[2])
	return cond[1]


def rank(v):
	"""SQLite's order of values of different types: numbers, texts, blobs."""
	return (1, v.encode()) if isinstance(v, str) else (2, v) if isinstance(v, bytes) else (0, v)


def compare(op, a, b):
	if a is None or b is None:
		return None
	a, b = rank(a), rank(b)
	return {'=': a == b, '<': a < b, '>=': a >= b, '<>': a != b}[op]


def both(a, b):
	if a is False or b is False:
		return False
	return None if a is None or b is None else True


def negate(a):
	return None if a is None else not a


def truth(cond, row):
	kind = cond[0]
	if kind == 'and':
		return both(truth(cond[1], row), truth(cond[2], row))
	if kind == 'or':
		return negate(both(negate(truth(cond[1], row)), negate(truth(cond[2], row))))
	if kind == 'not':
		return negate(truth(cond[1], row))
	if kind == 'lit':
		return {'n IS NULL': row['n'] is None, 's IS NULL': row['s'] is None, '1': True, '0': False,
			'n = n /* note */': compare('=', row['n'], row['n'])}[cond[1]]
	v = row[cond[1]]
	if kind == 'text':
		return compare('=', v, cond[2].strip("'"))
	if kind == 'cmp':
		return compare(cond[2], v, parse(cond[1], cond[3]))
	if kind == 'between':
		return both(compare('>=', v, cond[2]), negate(compare('<', cond[3], v)))
	items = [parse(cond[1], x) for x in cond[2]] or [None]
	out = False
	for x in items:
		r = compare('=', v, x)
		if r:
			out = True
			break
		if r is None:
			out = None
	return out if kind == 'in' else negate(out)


def bindable(out_style, params):
	if out_style in model.NUMERIC:
		return {str(n + 1): v for n, v in enumerate(params)}
	return params


def check(c, ctx):
	i, o = c['in'], c['out']
	db = sqlite3.connect(':memory:')
	try:
		db.execute('CREATE TABLE t (id INTEGER PRIMARY KEY, n INTEGER, s TEXT, x)')
		# Rows go in through formatmany and executemany.
		w = Writer({**c, 'share': False})
		slots = [w.put(k) for k in range(4)]
		text = 'INSERT INTO t (n, id, s, x) VALUES (%s , %s , %s , %s )' % tuple(slots)
		sql, shape = w.finish(text)
		rows = []
		for id_, (n, s, x) in enumerate(c['rows']):
			values = (n, id_, s, build(x))
			rows.append({k: values[v] for k, v in shape.items()} if isinstance(shape, dict) else [values[v] for v in shape])
		q = must('constructor', ctx.lib.SQLParams, i, o, expand_tuples=True)
		what = '%s->%s formatmany(%s, %r)' % (i, o, ascii(sql), rows)
		out = must(what, q.formatmany, sql, iter(rows))
		try:
			db.executemany(out[0], [bindable(o, p) for p in out[1]])
		except sqlite3.Error as e:
			raise Violation('%s gave %s with %r: SQLite: %s' % (what, ascii(out[0]), out[1], e))
		stored = db.execute('SELECT id, n, s, x FROM t ORDER BY id').fetchall()
		if repr(stored) != repr([(k, n, s, build(x)) for k, (n, s, x) in enumerate(c['rows'])]):
			raise Violation('%s gave %s with %r, which stored %r instead of %r' % (what, ascii(out[0]), out[1], stored, c['rows']))
		# A table without a key: equal rows stay as many as they are, in their order.
		db.execute('CREATE TABLE log (s, x, n)')
		w = Writer({**c, 'share': False})
		slots = [w.put(k) for k in range(3)]
		sql, shape = w.finish('INSERT INTO log (s, x, n) VALUES (%s , %s , %s )' % tuple(slots))
		rows, want = [], []
		for n, s, x in [r for r in c['rows'] for _ in 'ab'] + c['rows'][::-1] + c['rows'][:1] * 3:
			values = (s, build(x), n)
			want.append(values)
			rows.append({k: values[v] for k, v in shape.items()} if isinstance(shape, dict) else [values[v] for v in shape])
		what = '%s->%s formatmany(%s, %r)' % (i, o, ascii(sql), rows)
		out = must(what, q.formatmany, sql, iter(rows))
		try:
			db.executemany(out[0], [bindable(o, p) for p in out[1]])
		except sqlite3.Error as e:
			raise Violation('%s gave %s with %r: SQLite: %s' % (what, ascii(out[0]), out[1], e))
		stored = db.execute('SELECT s, x, n FROM log ORDER BY rowid').fetchall()
		if repr(stored) != repr(want):
			raise Violation('%s gave %s with %r, which stored %r instead of %r' % (what, ascii(out[0]), out[1], stored, want))
		# Query.
		w = Writer(c)
		sql, params = w.finish('SELECT id FROM t WHERE ' + (write(c['cond'], w).rstrip() if c.get('end') else write(c['cond'], w) + ' ORDER BY id'))
		esc = None
		if model.LEAD[i] == '%':
			# The text of a percent style is written with doubled percent signs.
			sql2 = sql
			marks = {}
			for t in model.scan(sql, i):
				if t[0] == 'P':
					marks[t[2]] = True
			parts = []
			for t in model.scan(sql, i):
				parts.append(t[1].replace('%', '%%') if t[0] == 'L' else t[2])
			sql2 = ''.join(parts)
			sql, esc = sql2, True
		q = must('constructor', ctx.lib.SQLParams, i, o, expand_tuples=True, escape_char=esc)
		what = '%s->%s format(%s, %r)' % (i, o, ascii(sql), params)
		if c['bytes']:
			raw = must(what, q.format, sql.encode('latin1'), params)
			out = (raw[0].decode('latin1'), raw[1])
		else:
			out = must(what, q.format, sql, params)
		try:
			got = [r[0] for r in db.execute(out[0], bindable(o, out[1]))]
			if c.get('end'):
				got.sort()
		except sqlite3.Error as e:
			raise Violation('%s gave %s with %r: SQLite: %s' % (what, ascii(out[0]), out[1], e))
		want = [k for k, (n, s, x) in enumerate(c['rows']) if truth(c['cond'], {'n': n, 's': s, 'x': build(x)}) is True]
		if got != want:
			raise Violation('%s gave %s with %r, which selects %r instead of %r from %r' % (
				what, ascii(out[0]), out[1], got, want, c['rows']))
	finally:
		db.close()
	ctx.interesting(len(w.slots) > 1)
	ctx.label('in: ' + i, 'out: ' + o)
	if any(v == () for v in w.values):
		ctx.label('IN with an empty tuple')
	if len(w.slots) > len(w.values):
		ctx.label('parameter used twice')
	if 0 < len(want) < len(c['rows']):
		ctx.label('selects some rows')
