"""C16: missing parameters and unusable arguments are refused, never papered over."""
import collections
import decimal
import io
import itertools
import pathlib
import string
import sys
import types

from ..strat import st

from .. import common, gen, grid, model
from .. import values as V
from ..core import Violation, attempt, error_text, must

EXAMPLES = {'quick': 8000, 'thorough': 120000}
RULE = ("mappings which hold every subset of the keys around those a query refers to, and huge numbers beside those which they could be taken for: right values, or LookupError; (all pairs of styles with small queries, and random ones) a valid conversion is broken in one way (a referenced parameter missing, parameter number 0, wrong container, query or rows of the "
	"wrong type, unknown style, bad escape_char or strip_comments) and has to raise LookupError or TypeError as fitting, while the valid one "
	"works; non-trivial = every case")

KINDS = ('missing', 'missing', 'missing', 'zero', 'container', 'sql', 'rows', 'style', 'style type', 'escape', 'comments')


class Textual:
	"""Much like a text."""
	text = 'SELECT'

	def __str__(self):
		return 'SELECT'

	def encode(self, *a):
		return b'SELECT'

	def decode(self, *a):
		return 'SELECT'

	def __bytes__(self):
		return b'SELECT'

	def __fspath__(self):
		return 'SELECT'

	def __sql__(self):
		return 'SELECT'
	__html__ = __sql__


class Keyed:
	"""Much like a mapping or a sequence, but not one."""
	def __init__(self, data):
		self.data = data

	def keys(self):
		return self.data.keys()

	def items(self):
		return self.data.items()

	def get(self, key, default=None):
		return self.data.get(key, default)

	def __getitem__(self, key):
		return self.data[key]

	def __len__(self):
		return len(self.data)

	def __iter__(self):
		return iter(self.data)

	def __contains__(self, key):
		return key in self.data


class Anything:
	"""Has every item and attribute."""
	def __getitem__(self, key):
		return 1

	def __getattr__(self, name):
		if name.startswith('__'):
			raise AttributeError(name)
		return 1


BAD_SQL = (None, 5, ['SELECT'], bytearray(b'SELECT'), memoryview(b'x'), ('a',), object(), 1.5, {}, True, string.Template('$a'), collections.UserString('SELECT'),
	pathlib.PurePosixPath('query.sql'), io.StringIO('SELECT'), io.BytesIO(b'SELECT'), Textual(), str, [], [b'SELECT'], decimal.Decimal(1), iter(['SELECT']), {'sql': 'SELECT'}, len, types.SimpleNamespace(text='SELECT'), 0)
BAD_BOX = (None, 5, 'abc', b'abc', '', b'', 1.5, {1, 2}, frozenset(), iter(()), object(), 'ab', True, Keyed({'a': 1, 'b': 2, 'A': 3}), Keyed({0: 1, 1: 2, 2: 3}), Anything(), types.SimpleNamespace(a=1, b=2), iter([1, 2, 3]),
	map(str, [1, 2]), {'a': 1}.items(), {1: 1, 2: 2}.keys(), {1: 1, 2: 2}.values(), Textual(), decimal.Decimal(2), list, dict, len, io.StringIO('a'))
BAD_ROWS = (None, 5, 'abc', b'abc', 1.5, object(), '', b'', 0, len, types.SimpleNamespace(rows=[]), decimal.Decimal(1), False, pathlib.PurePosixPath('a'), Textual(), NotImplemented)
BAD_STYLE = ('', 'Named', 'NAMED', 'oracle', 'qmarks', 'named ', ' named', 'numeric_', 'pyformat2', '?', 'sqlserver', 'dollar')
BAD_STYLE_TYPE = (None, 5, b'named', ['named'], ('named',), object(), True, collections.UserString('named'), Textual(), bytearray(b'named'), {'named'}, str, len)
BAD_ESCAPE = (5, b'\\', ['\\'], ('\\',), 1.5, {'a': 1}, object(), collections.UserString('!'), Textual(), bytearray(b'!'), {'!'}, str, len)
BAD_COMMENTS = ([5], ['--', None], [b'--'], ['--', 1.5], [{'a', 'b'}], [('/*', '*/'), 7], [object()], [True])


def enumerate_cases(tier):
	count = grid.N(0)
	sizes = {'sql': len(BAD_SQL), 'rows': len(BAD_ROWS), 'style': 2 * len(BAD_STYLE), 'style type': 2 * len(BAD_STYLE_TYPE), 'escape': len(BAD_ESCAPE),
		'comments': len(BAD_COMMENTS), 'container': len(BAD_BOX) * 3, 'missing': 8, 'zero': 6}
	for i in model.STYLES:
		for o in model.STYLES:
			for kind, size in sizes.items():
				if kind == 'zero' and i not in model.NUMERIC:
					continue
				for n in range(size):
					for pattern, values in (((0,), [grid.S]), ((1, 0, 1), [grid.S, grid.T2]), ((), [grid.S])):
						if not pattern and kind != 'container':
							continue
						count += 1
						case = {'in': i, 'out': o, 'exp': (None, True, False)[count % 3], 'oq': count % 2 == 0, 'q': grid.query(i, pattern, values, count),
							'kind': kind, 'box': grid.box_of(i, count // 2), 'n': n, 'many': count // 2 % 2 == 1, 'bytes': count % 7 == 0}
						if kind == 'missing' and ':' not in case['box'] and i not in model.NAMED:
							case['to'] = n
						yield case
	yield from keyed()
	yield from boxes()


INT_BOXES = tuple(V.INT_SEQUENCES) + V.SEQUENCES


def boxes():
	"""Numbers out of range, and too many placeholders, with sequences of every kind."""
	for i in model.NUMERIC + model.ORDINAL:
		for o in model.STYLES:
			for kind in range(len(INT_BOXES)):
				for size in (0, 1, 3):
					for refs in ((0,), (1, 0), (0, 2), (4,), (1, 4), (256,), (2, 0, 3), (10 ** 18,), (10 ** 25,)):
						if i in model.ORDINAL and refs[-1] > 300:
							continue
						yield {'int box': kind, 'size': size, 'refs': list(refs), 'in': i, 'out': o}


# Large numbers, each with smaller ones that it must not be taken for.
HUGE = [10 ** k + 1 for k in (3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 18, 19, 20, 30, 100, 1000)] + [2 ** k + d for k in (7, 8, 15, 16, 24, 31, 32, 53, 63, 64, 128) for d in (0, 1, 2)] + [
	int(c * k) for c in '19' for k in (4, 9, 10, 18, 19, 20, 40)] + [int('12' * 20), int('1234567890' * 3), sys.maxsize, sys.maxsize + 1]


def decoys(n):
	text = str(n)
	out = {n - 1, n + 1, n * 10, n - 2 ** 32, n - 2 ** 31, n - 2 ** 64, n % 2 ** 7, n % 2 ** 8, n % 2 ** 15, n % 2 ** 16, n % 2 ** 31, n % 2 ** 32, n % 2 ** 63, n % 2 ** 64, int(float(n)) if n < 2 ** 1000 else 3, 1, 2, 0}
	for k in (1, 2, 3, 4, 5, 6, 8, 9, 10, 15, 16, 17, 18, 19, 20):
		out |= {int(text[-k:]), int(text[:k])}
	return sorted(k for k in out if k >= 0 and k != n)


def keyed():
	"""Mappings which hold some of the keys that a query refers to, and others."""
	count = grid.N(0)
	for i in model.STYLES:
		names = {'named_oracle': ['A', 'B', 'AA', '"a"']}.get(i, ['a', 'b', 'aa', 'A']) if i in model.NAMED else [1, 2, 3, 4] if i in model.NUMERIC else [0, 1, 2, 3]
		keys = names + ([] if i in model.NAMED else [k for k in range(6) if k not in names] + [10, 11])
		refs = [p for size in (1, 2, 3) for p in itertools.product(names[:3], repeat=size)] if i not in model.ORDINAL else [[0], [0, 1], [0, 1, 2]] * 9
		for ref in refs:
			for mask in range(2 ** len(keys)):
				have = [k for n, k in enumerate(keys) if mask >> n & 1]
				if len(have) < len(keys) - 2 and mask % 5 and len(keys) > 4 and len(ref) > 1:
					continue
				count += 1
				if count % 7 < 2:
					have.reverse()
				box = V.MAPPINGS[count % len(V.MAPPINGS)]
				yield {'in': i, 'out': model.STYLES[count // 2 % 9], 'exp': (None, True, False)[count // 3 % 3], 'oq': False, 'kind': 'keys', 'refs': [ref_token(i, r) for r in ref],
					'keys': have, 'box': box if i in model.NAMED else '%s:%s' % (('int', 'str', 'mix', 'bytes')[count // 5 % 4], box), 'many': count // 4 % 2 == 1}
	for i in model.NUMERIC:
		for n in HUGE:
			for o in model.STYLES:
				for gone in (False, True):
					count += 1
					yield {'in': i, 'out': o, 'exp': (None, True, False)[count // 3 % 3], 'oq': False, 'kind': 'keys', 'refs': [n, 1, n] if count % 2 else [n],
						'keys': decoys(n) + [n] * (not gone), 'box': '%s:%s' % (('int', 'str', 'mix', 'bytes')[count // 5 % 4], V.MAPPINGS[count % len(V.MAPPINGS)]), 'many': count // 4 % 2 == 1}
				if n < 2 ** 40:
					yield {'in': i, 'out': o, 'exp': None, 'oq': False, 'kind': 'keys', 'refs': [n], 'keys': [1, 2, 3, 4], 'box': V.SEQUENCES[count % len(V.SEQUENCES)], 'many': count // 4 % 2 == 1}


def ref_token(style, name):
	return [name.strip('"'), name[0] == '"'] if style in model.NAMED else name if style in model.NUMERIC else None


def wanted_keys(c):
	i = c['in']
	return [{True: '"%s"' % r[0], False: r[0]}[r[1]] if i in model.NAMED else r if i in model.NUMERIC else n for n, r in enumerate(c['refs'])]


def complete(c):
	return ':' in c['box'] + ':' * (c['in'] in model.NAMED) and all(k in c['keys'] for k in wanted_keys(c))


def check_keys(c, ctx):
	i = c['in']
	values = {k: ('value', k) if c['exp'] is False else 'value %s' % k for k in c['keys']}
	if ':' in c['box']:
		form, kind = c['box'].split(':')
		keyed = [(str(k) if form == 'str' or form == 'mix' and n % 2 else b'%d' % k if form == 'bytes' else k, v) for n, (k, v) in enumerate(values.items())]
		box = V.make_mapping(kind, keyed)
	elif i in model.NAMED:
		box = V.make_mapping(c['box'], values.items())
	else:
		box = V.make_sequence(c['box'], values.values())
	sql = gen.sql_of(grid.toks_of(c['refs']), i)
	wanted = wanted_keys(c)
	q = gen.make(ctx.lib, c)
	what = '%s->%s format%s(%s, %s in %s)' % (i, c['out'], 'many' * c['many'], ascii(sql), model.safe_repr(values), c['box'])
	r = attempt(q.formatmany, sql, [box]) if c['many'] else attempt(q.format, sql, box)
	ctx.interesting()
	if all(k in values for k in wanted):
		if not r.ok:
			raise Violation('%s %s' % (what, r.describe()))
		got = (r.value[0], r.value[1][0] if c['many'] else r.value[1])
		stream = common.read_back(what, c['out'], got, c['oq'])
		bound = [t[1] for t in stream if t[0] == 'V']
		if len(bound) != len(wanted) or not all(x is values[k] for x, k in zip(bound, wanted)):
			raise Violation('%s bound %s instead of %s' % (what, model.safe_repr(bound), model.safe_repr([values[k] for k in wanted])))
		ctx.label('keys: all given')
	else:
		if r.ok or not isinstance(r.error, LookupError):
			raise Violation('%s with a parameter missing %s, expected LookupError' % (what, r.describe()))
		ctx.label('keys: one missing')


@st.composite
def cases(draw, tier):
	kind = draw(st.sampled_from(KINDS))
	i, o = draw(gen.styles), draw(gen.styles)
	if kind == 'zero':
		i = draw(st.sampled_from(model.NUMERIC))
	q = draw(gen.queries(i, zeros=True, name_filter=gen.no_reserved, min_ph=1 if kind in ('missing', 'zero') else 0))
	case = {'in': i, 'out': o, 'exp': draw(st.sampled_from([None, True, False])), 'oq': draw(st.booleans()), 'q': q, 'kind': kind,
		'box': draw(gen.containers(i)), 'n': draw(st.integers(0, 59)), 'many': draw(st.booleans()), 'bytes': draw(st.booleans())}
	if kind == 'missing' and ':' not in case['box'] and i not in model.NAMED:
		case['to'] = draw(st.integers(0, 999))
	return case


REGRESSIONS = [
	{'in': i, 'out': o, 'exp': None, 'oq': False, 'kind': 'zero', 'box': 'list', 'n': n, 'many': m, 'bytes': False,
		'q': {'toks': [['L', ' '], ['P', 1], ['L', ' ']], 'params': [['i', 1], ['i', 2]]}}
	for i in model.NUMERIC for o in model.STYLES for m in (False, True) for n in (0, 1)
]


def check_boxes(c, ctx):
	i, o = c['in'], c['out']
	kind, size, refs = INT_BOXES[c['int box']], c['size'], c['refs']
	items = list(range(5, 5 + size))
	box = V.INT_SEQUENCES[kind](items) if kind in V.INT_SEQUENCES else V.make_sequence(kind, items)
	have = len(box)
	if i in model.ORDINAL:
		count = have + refs[-1] % 5 + 1
		text = 'x ' + ' , '.join(model.write_placeholder(i, '1') for _ in range(count))
	else:
		if not any(not 1 <= r <= have for r in refs):
			return
		text = 'x ' + ' , '.join(model.write_placeholder(i, str(r)) for r in refs)
	q = must('constructor', ctx.lib.SQLParams, i, o)
	full = list(range(1, 400))
	ways = [('format', lambda: q.format(text, box)), ('formatmany', lambda: q.formatmany(text, [box]))]
	if i in model.ORDINAL or all(1 <= r < 400 for r in refs):
		ways.append(('formatmany, after another row,', lambda: q.formatmany(text, [full, box])))
	for how, fn in ways:
		r = attempt(fn)
		if r.ok or not isinstance(r.error, LookupError):
			raise Violation('%s->%s %s of %s with a %s of %d elements: %s, expected a LookupError' % (i, o, how, ascii(text[:200]), kind, have, r.describe()))
	ctx.interesting()
	ctx.label('out of range: ' + kind)


def check(c, ctx):
	if 'int box' in c:
		return check_boxes(c, ctx)
	if c['kind'] == 'keys':
		return check_keys(c, ctx)
	i, kind, n = c['in'], c['kind'], c['n']
	sql, plain, expand = common.setup(c)
	conf = dict(expand_tuples=c['exp'], allow_out_quotes=c['oq'])
	ctx.interesting()
	ctx.label('broken: ' + kind)
	if kind in ('style', 'style type', 'escape', 'comments'):
		a, b, want = i, c['out'], TypeError
		if kind == 'style':
			bad, want = BAD_STYLE[n % len(BAD_STYLE)], LookupError
		elif kind == 'style type':
			bad = BAD_STYLE_TYPE[n % len(BAD_STYLE_TYPE)]
		if kind.startswith('style'):
			if n % 2:
				a = bad
			else:
				b = bad
		elif kind == 'escape':
			conf['escape_char'] = BAD_ESCAPE[n % len(BAD_ESCAPE)]
		else:
			conf['strip_comments'] = BAD_COMMENTS[n % len(BAD_COMMENTS)]
		r = attempt(ctx.lib.SQLParams, a, b, **conf)
		if r.ok or not isinstance(r.error, want):
			raise Violation('SQLParams(%r, %r, %s) %s, expected %s' % (a, b, model.safe_repr(conf), r.describe(), want.__name__))
		return
	q = must('constructor', ctx.lib.SQLParams, i, c['out'], **conf)
	if c['bytes']:
		try:
			sql = sql.encode('latin1')
			if i == 'named_oracle':
				sql.decode('latin1').upper().encode('latin1')
		except UnicodeEncodeError:
			sql = sql if isinstance(sql, str) else sql.decode('latin1')
	box = gen.contain(i, c['box'], plain)
	what = '%s->%s format(%s, %s in %s)' % (i, c['out'], ascii(sql), model.safe_repr(plain), c['box'])
	must(what, q.format, sql, box)

	def call(s, p):
		if c['many']:
			return attempt(q.formatmany, s, [p])
		return attempt(q.format, s, p)

	want = TypeError
	if kind == 'sql':
		bad = BAD_SQL[n % len(BAD_SQL)]
		r, how = call(bad, box), 'the query %s' % model.safe_repr(bad)
	elif kind == 'rows':
		bad = BAD_ROWS[n % len(BAD_ROWS)]
		r, how = attempt(q.formatmany, sql, bad), 'formatmany rows %s' % model.safe_repr(bad)
	elif kind == 'container':
		bad = BAD_BOX[n % len(BAD_BOX)]
		if i in model.NAMED and n % 3 == 0:
			bad = [[], [1, 2], (), ('a', 1), [('a', 1)]][n // 3 % 5]
		if c['many'] and n % 2:
			r, how = attempt(q.formatmany, sql, [box, bad]), 'the parameters %s after others' % model.safe_repr(bad)
		else:
			r, how = call(sql, bad), 'the parameters %s' % model.safe_repr(bad)
	elif kind == 'zero':
		want = LookupError
		toks = [list(t) for t in c['q']['toks']]
		at = [k for k, t in enumerate(toks) if t[0] == 'P']
		at = at[n % len(at)]
		toks[at] = ['P', '00' if n % 5 == 4 else 0]
		text = gen.sql_of(toks, i)
		if ':' in c['box']:
			box = gen.contain(i, c['box'], plain)
		r, how = call(text, box), 'the query %s' % ascii(text)
	else:
		want = LookupError
		used = common.used_values(c)
		key = used[n % len(used)][0]
		if i == 'named_oracle':
			# Other parameters may look like the missing one.
			want_key = model.oracle_key(key)
			alike = ['"%s"' % want_key.lower(), '"%s"' % want_key.swapcase(), '"%sx"' % want_key, '"%s "' % want_key, '""%s""' % want_key]
			alike += [want_key.upper()] if want_key.upper() != want_key else []
			have = {model.oracle_key(k) for k in plain}
			extra = [k for k in alike if model.oracle_key(k) not in have][:n % 4]
			left = {k: v for k, v in plain.items() if k != key}
			left = dict([(k, 'extra') for k in extra if n % 2] + list(left.items()) + [(k, 'extra') for k in extra if not n % 2])
			left = gen.contain(i, c['box'], left)
		elif i in model.NAMED:
			alike = [key.swapcase(), key + ' ', ':' + key, key + '_', '"%s"' % key, key.encode()]
			left = {k: v for k, v in plain.items() if k != key}
			left.update((k, 'extra') for k in alike[:n % 7] if k not in plain)
			left = gen.contain(i, c['box'], left)
		elif ':' in c['box']:
			items = [(k, v) for k, v in box.items() if int(k) != (key if i in model.NUMERIC else key)]
			left = V.make_mapping(c['box'].split(':')[1], items)
		else:
			last = max(k for k, _ in used) - (1 if i in model.NUMERIC else 0)
			left = gen.contain(i, c['box'], plain[:c['to'] % (last + 1)])
		r, how = call(sql, left), 'parameter %r missing: %s' % (key, model.safe_repr(left))
	if r.ok or not isinstance(r.error, want):
		raise Violation('%s with %s %s, expected %s' % (what, how, r.describe(), want.__name__))
	must(what + ' after a refused call', q.format, sql, gen.contain(i, c['box'], plain))
	if c['many']:
		ctx.label('formatmany')
