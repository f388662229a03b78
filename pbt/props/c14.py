"""C14: conversions are independent of each other: no state survives a call."""
import collections.abc
import random

from ..strat import st

from .. import common, gen, grid, model
from .. import values as V
from ..core import Violation, attempt, error_text, must

EXAMPLES = {'quick': 2400, 'thorough': 40000}
RULE = ("(a) shuffled histories of 9 operations for every pair of styles and a second instance which differs in one respect, histories of 1300 to 5000 calls of one instance of every pair of styles, all pairs of 19 comment configurations, 14 escapes and 81 pairs of styles, and (b) random histories of up to 14 operations over up to 4 instances (often of like configuration): format, formatmany, the same query again "
	"with tuples of other lengths or from another container, failing calls, calls made from inside another call (a mapping which converts "
	"a query when it is read), mutation of earlier results, hundreds of distinct queries in a row; every result is compared with the "
	"exact reference model, and earlier results must not change; non-trivial = at least two conversions share an instance or a query")
ASSUMPTIONS = ("generated out-names are _<n> for numeric, _<i> for ordinal and <name>__<i>_sqlp for named in-styles, as the tests fix them",)


@st.composite
def configs(draw, base=None):
	c = dict(base) if base else {}
	if not base or draw(st.booleans()):
		c['in'] = draw(gen.styles)
	if not base or draw(st.booleans()):
		c['out'] = draw(gen.styles)
	if not base or draw(st.booleans()):
		c['exp'] = draw(st.sampled_from([None, None, True, False]))
		c['esc'] = draw(st.sampled_from([None, None, True, '!', '!!', '~']))
		c['oq'] = draw(st.booleans())
		c['strip'] = draw(st.sampled_from([None, None, True, ['#']]))
	return c


@st.composite
def cases(draw, tier):
	first = draw(configs())
	insts = [first] + [draw(configs(first)) for _ in range(draw(st.integers(0, 3)))]
	queries = {}
	for k, c in enumerate(insts):
		queries[k] = [draw(gen.queries(c['in'], name_filter=gen.no_reserved, scale=False, escapes=bool(c['esc']), max_tokens=4))
			for _ in range(draw(st.integers(1, 2)))]
		# A query of another instance of the same in-style.
		for j in range(k):
			if insts[j]['in'] == c['in'] and insts[j]['esc'] == c['esc']:
				queries[k].append(queries[j][0])
				break
	ops = []
	for _ in range(draw(st.integers(2, 14))):
		k = draw(st.integers(0, len(insts) - 1))
		n = draw(st.integers(0, len(queries[k]) - 1))
		op = draw(st.sampled_from(['format', 'format', 'many', 'reshape', 'reshape', 'bad', 'nested', 'mutate', 'bulk', 'reads']))
		rec = {'op': op, 'inst': k, 'q': n}
		params = queries[k][n]['params']
		if op in ('format', 'nested', 'many', 'bad'):
			rec['params'] = gen.rows_like(draw, insts[k]['in'], params, 1)[0]
		if op in ('reshape', 'many'):
			# Other shapes: tuples of other lengths, or scalars for tuples.
			rec['params2'] = reshape(draw, insts[k]['in'], params)
		if op == 'nested':
			j = draw(st.integers(0, len(insts) - 1))
			m = draw(st.integers(0, len(queries[j]) - 1))
			rec['inner'] = [j, m, gen.rows_like(draw, insts[j]['in'], queries[j][m]['params'], 1)[0]]
		if op == 'bad':
			rec['how'] = draw(st.sampled_from(['missing', 'type', 'sql', 'many', 'raise']))
		if op == 'bulk':
			rec['n'] = draw(st.sampled_from([3, 20, 40, 600]))
			rec['tuples'] = draw(st.booleans())
		if op in ('format', 'reshape'):
			rec['box'] = draw(gen.containers(insts[k]['in']))
			rec['bytes'] = draw(st.booleans())
		ops.append(rec)
	return {'head': draw(st.sampled_from(['', '', '', '# c\n', '/* c */ d', '-- c\n# d\n'])), 'insts': insts, 'queries': [queries[k] for k in range(len(insts))], 'ops': ops}


SHAPES = (grid.S, grid.T0, grid.T1, grid.T2, grid.T3, ['n'], ['l', [grid.S]], ['ts', [grid.S]])


def enumerate_cases(tier):
	"""Every pair of styles in histories which convert the same queries in other shapes, in a shuffled order."""
	n = grid.N(0)
	for i in model.STYLES:
		for o in model.STYLES:
			for exp in (None, True, False):
				for other in ('alone', 'same', 'out', 'in', 'options'):
					for _ in range(2 if tier == 'quick' else 12):
						n += 1
						rng = random.Random(n)
						first = {'in': i, 'out': o, 'exp': exp, 'esc': (None, True)[n % 2], 'oq': n % 3 == 0, 'strip': None}
						second = dict(first)
						if other == 'out':
							second['out'] = rng.choice(model.STYLES)
						elif other == 'in':
							second['in'] = rng.choice(model.STYLES)
						elif other == 'options':
							second.update(exp=rng.choice([None, True, False]), esc=rng.choice([None, True, '!']), oq=not first['oq'], strip=rng.choice([None, True]))
						insts = [first] + ([second] if other != 'alone' else [])
						queries = [[grid.query(c['in'], (0, 1, 0), [grid.S, grid.T2], n), grid.query(c['in'], (1, 0), [grid.T1, grid.S], n)] for c in insts]
						ops = []
						for kind in rng.sample(['reshape'] * 6 + ['many', 'many', 'bad', 'bad', 'nested', 'mutate', 'reads', 'bulk'], 9):
							k, m = rng.randrange(len(insts)), rng.randrange(2)
							rec = {'op': kind, 'inst': k, 'q': m}

							def fill(style, params):
								if style in model.NAMED:
									return [[key, rng.choice(SHAPES)] for key, _ in params]
								return [rng.choice(SHAPES) for _ in params]
							style, params = insts[k]['in'], queries[k][m]['params']
							rec['params'], rec['params2'] = fill(style, params), fill(style, params)
							if kind == 'nested':
								rec['inner'] = [0, 1 - m, fill(i, queries[0][1 - m]['params'])]
							elif kind == 'bad':
								rec['how'] = rng.choice(['missing', 'type', 'sql', 'many', 'raise'])
							elif kind == 'bulk':
								rec['n'], rec['tuples'] = 6, rng.random() < 0.5
							elif kind == 'reshape':
								rec['box'], rec['bytes'] = grid.box_of(style, rng.randrange(28)), rng.random() < 0.3
							ops.append(rec)
						yield {'head': '', 'insts': insts, 'queries': queries, 'ops': ops}
	yield from long_histories(tier)
	yield from pairs_of_configurations()
	yield from near(tier)
	yield from shapes()


def shapes():
	"""One query after another with the same text, and values of other shapes."""
	n = grid.N(0)
	for i in model.STYLES:
		for o in model.STYLES:
			for exp in (None, True, False):
				for many in (False, True):
					n += 1
					yield {'shapes': n % 1000, 'in': i, 'out': o, 'exp': exp, 'oq': n % 2 == 0, 'esc': None, 'many': many}



def long_histories(tier):
	"""Thousands of calls of one instance."""
	for a, i in enumerate(model.STYLES):
		for b, o in enumerate(model.STYLES):
			yield {'long': 1300 if tier == 'quick' else 20000, 'in': i, 'out': o, 'exp': True, 'oq': False, 'esc': True, 'distinct': (1, 7, 1300)[(a + b) % 3]}
	for i, o in grid.kind_pairs(1):
		yield {'long': 5000 if tier == 'quick' else 100000, 'in': i, 'out': o, 'exp': None, 'oq': False, 'esc': None, 'distinct': 100000}


COMMENTS = (None, True, [], ['--'], ['#'], ['--', '#'], ['#', '--'], [['/*', '*/']], [['/*', '!/']], [['/!', '*/']], [['/*', '*/'], '--'], ['--', ['/*', '!/']], [['/*', '--']], ['/*'],
	['-'], ['-- '], [['--', '#']], [['#', '#']], [['#', '--'], '/*'])
TEXT = 'a\n-- x\n# y\n/* b */ !/ c\n/* d\n-- e */\n# f #\n /! g */\nh\n- i\n--j\n#k --\nl /* m */\n'
ESCAPES = (None, True, '!', '!!', '\\', '?', '??', '!?', '$', '%', ':', '^', '', False)
ESCAPED = 'a !? !!? ?? ??? \\? b ^? !?? !$ $$ $$$ x% %% %? :? ? c'


def pairs_of_configurations():
	for a in COMMENTS:
		for b in COMMENTS:
			yield {'pair': [{'in': 'qmark', 'out': 'numeric', 'strip': a}, {'in': 'qmark', 'out': 'numeric', 'strip': b}], 'text': TEXT}
	for i in ('qmark', 'numeric_dollar', 'pyformat'):
		for o in ('qmark', 'format', 'named'):
			for a in ESCAPES:
				for b in ESCAPES:
					yield {'pair': [{'in': i, 'out': o, 'esc': a}, {'in': i, 'out': o, 'esc': b}], 'text': ESCAPED}
	for i in model.STYLES:
		for o in model.STYLES:
			for j in model.STYLES:
				for p in model.STYLES:
					yield {'pair': [{'in': i, 'out': o}, {'in': j, 'out': p}], 'text': 'a ? %s %(a)s :a $a @a :1 $1 :"a" ?? %% :: $$ @@ b'}


NEAR = (
	'q {p} x', 'q {p}\tx', 'q {p}\nx', 'q\t{p} x', 'q\n{p} x', 'q\r{p} x', 'q {p}  x', 'q {p} x ', ' q {p} x', 'Q {p} x', 'q {p} X', 'r {p} x', 'q {p} y', 'q,{p} x', 'q {p}-x', 'q {r} x',
	'q {p} {p}', 'q {p} {r}', 'q {r} {p}', '{p} x q', 'q x {p}', '\n#q {p} x', '\n-- {p} x', '--q\n{p} x', '#q\n{p} x', '--q {p} x', 'q {p} x\n', 'q {p} x\r\n', 'q\x0b{p} x', 'q\u00a0{p} x', 'q\x85{p} x', 'q {p} \u00e9', 'q {p} e\u0301')


def near(tier):
	"""Queries which are almost the same, one after the other on the same instance: every pair, in both orders."""
	for i in model.STYLES:
		for o in model.STYLES:
			for strip in (None, True, ['#']):
				yield {'near': len(NEAR), 'in': i, 'out': o, 'exp': True, 'oq': False, 'esc': None, 'strip': strip}


def check_near(c, ctx):
	i, o = c['in'], c['out']
	q = gen.make(ctx.lib, c)
	made = []
	for n, form in enumerate(NEAR[:c['near']]):
		first, second = ('A', 'B') if i in model.NAMED else ('1', '2') if i in model.NUMERIC else ('', '')
		text = form.replace('{p}', model.write_placeholder(i, first)).replace('{r}', model.write_placeholder(i, second))
		params = {'A': 'v', 'B': ('w',)} if i in model.NAMED else ['v', ('w',)]
		made.append((text, params, model.convert(i, o, None, True, False, model.strip(text, c['strip']), params)))
		try:
			raw = text.encode('latin1')
			made.append((raw, params, (made[-1][2][0].encode('latin1'), made[-1][2][1])))
		except UnicodeEncodeError:
			pass
	for a in range(len(made)):
		for b in range(len(made)):
			for k, other in ((a, b), (b, a)):
				text, params, want = made[k]
				if (a + b) % 2:
					got = attempt(q.format, text, params)
				else:
					got = attempt(q.formatmany, text, [params, params])
					if got.ok:
						got.value = (got.value[0], got.value[1][1])
				if not got.ok or not common.same_result(got.value, want):
					raise Violation('%s->%s strip_comments=%r with %s and %s, after %s on the same instance, %s, expected %s with %s' % (
						i, o, c['strip'], ascii(text), params, ascii(made[other][0]), got.describe(), ascii(want[0]), model.safe_repr(want[1])))
	ctx.interesting()
	ctx.label('almost the same queries')


def check_long(c, ctx):
	i, o = c['in'], c['out']
	q = gen.make(ctx.lib, c)
	for n in range(c['long']):
		value = (n, (n, 'x'), (), 'y', (n,))[n % 5]
		params = {'N': value, 'K%d' % n: 0} if i in model.NAMED else [value]
		text = 'q%d %s %%! ' % (n % c['distinct'], model.write_placeholder(i, 'N' if i in model.NAMED else '1'))
		want = model.convert(i, o, c['esc'], c['exp'], c['oq'], text, params)
		if n % 11 == 10:
			attempt(q.format, text, None if n % 2 else {})
		if n % 3:
			got = must('format', q.format, text, params)
		else:
			got = must('formatmany', q.formatmany, text, [params, params])
			got = (got[0], got[1][1])
		if not common.same_result(got, want):
			raise Violation('%s->%s: call %d on an instance, with %s and %s, gave %s with %s, expected %s with %s' % (
				i, o, n + 1, ascii(text), model.safe_repr(params), ascii(got[0]), model.safe_repr(got[1]), ascii(want[0]), model.safe_repr(want[1])))
	ctx.interesting()
	ctx.label('thousands of calls')


def check_shapes(c, ctx):
	i, o = c['in'], c['out']
	q = gen.make(ctx.lib, c)
	text = 'x %s IN %s %% %s' % tuple(model.write_placeholder(i, x) for x in (('A', 'B', 'C') if i in model.NAMED else ('1', '2', '3')))
	rng = random.Random(c['shapes'])
	sizes = (None, 0, 1, 2, 3)
	all_shapes = [(a, b, d) for a in sizes for b in sizes for d in sizes]
	rng.shuffle(all_shapes)
	# Each shape comes directly after the one with the sizes turned round, too.
	for shape in [s for t in all_shapes for s in (t, t[1:] + t[:1], t[::-1])]:
		values = [('v%d' % k,) * n if n is not None else 'v%d' % k for k, n in enumerate(shape)]
		params = dict(zip('ABC', values)) if i in model.NAMED else values
		want = model.convert(i, o, None, c['exp'], c['oq'], text, params)
		if c['many']:
			got = must('formatmany', q.formatmany, text, [params, params])
			got = (got[0], got[1][1])
		else:
			got = must('format', q.format, text, params)
		if not common.same_result(got, want):
			raise Violation('%s->%s: %s with %s, after the same query with other shapes, gave %s with %s, expected %s with %s' % (
				i, o, ascii(text), params, ascii(got[0]), model.safe_repr(got[1]), ascii(want[0]), model.safe_repr(want[1])))
	ctx.interesting()
	ctx.label('one text, many shapes')


def check_pair(c, ctx):
	confs = [dict({'exp': None, 'oq': None, 'esc': None, 'strip': None}, **x) for x in c['pair']]
	for x in confs:
		if isinstance(x['strip'], list):
			x['strip'] = [tuple(y) if isinstance(y, list) else y for y in x['strip']]
	insts = [gen.make(ctx.lib, x) for x in confs]
	for turn, k in enumerate((0, 1, 0)):
		x = confs[k]
		text = c['text']
		bare = model.strip(text, x['strip'])
		if bare != model.strip_once(text, x['strip']):
			continue
		i, o = x['in'], x['out']
		params = {}
		found = [t[1] for t in model.scan(bare, i, model.resolve_esc(i, x['esc']), common.literal_percent(x)) if t[0] == 'P']
		if i in model.NAMED:
			params = {'"a"': 1, '"A"': 2} if i == 'named_oracle' else {'a': 1}
		else:
			params = list(range(50, 60 + len(found)))
		want = model.convert(i, o, x['esc'], None, None, bare, params)
		what = '%s->%s escape_char=%r strip_comments=%r format(%s), with another instance of %s' % (i, o, x['esc'], x['strip'], ascii(text), confs[1 - k])
		got = must(what, insts[k].format, text, params)
		if not common.same_result(got, want):
			raise Violation('%s gave %s with %s, expected %s with %s' % (what, ascii(got[0]), model.safe_repr(got[1]), ascii(want[0]), model.safe_repr(want[1])))
	ctx.interesting(c['pair'][0] != c['pair'][1])
	ctx.label('pair of configurations')


def reshape(draw, style, params):
	def other(d):
		return draw(st.one_of(gen.some_tuples, gen.tuples(draw(st.integers(0, 3))), gen.scalars)) if draw(st.booleans()) else d
	if style in model.NAMED:
		return [[k, other(d)] for k, d in params]
	if len(params) > 8:
		return params
	return [other(d) for d in params]


class Nested(collections.abc.Mapping):
	"""Runs *hook* whenever an item is read."""
	def __init__(self, data, hook):
		self.data, self.hook = data, hook

	def __getitem__(self, key):
		self.hook()
		return self.data[key]

	def __iter__(self):
		return iter(self.data)

	def __len__(self):
		return len(self.data)


class NestedSequence(collections.abc.Sequence):
	"""Runs *hook* whenever an item is read."""
	def __init__(self, data, hook):
		self.data, self.hook = data, hook

	def __getitem__(self, index):
		self.hook()
		return self.data[index]

	def __len__(self):
		return len(self.data)


class Boom(Exception):
	pass


def boom():
	raise Boom()


def copied(want):
	return want[0], dict(want[1]) if isinstance(want[1], dict) else list(want[1])


class Run:
	def __init__(self, c, lib):
		self.c, self.lib = c, lib
		self.insts = [gen.make(lib, i) for i in c['insts']]
		self.results = []  # [result, expected, what]
		self.lists = []  # [list of rows, copy, what]

	def sql(self, k, n):
		i = self.c['insts'][k]
		return self.c.get('head', '') + gen.sql_of(self.c['queries'][k][n]['toks'], i['in'], i['esc'])

	def expect(self, k, sql, plain):
		i = self.c['insts'][k]
		return model.convert(i['in'], i['out'], i['esc'], i['exp'], i['oq'], model.strip(sql, i.get('strip')), plain)

	def what(self, k, fn, sql, plain):
		i = self.c['insts'][k]
		return '%s->%s instance %d %s(%s, %s)' % (i['in'], i['out'], k, fn, ascii(sql), model.safe_repr(plain))

	def compare(self, what, got, want):
		if not common.same_result(got, want):
			raise Violation('%s gave %s with %s, expected %s with %s' % (
				what, ascii(got[0]), model.safe_repr(got[1]), ascii(want[0]), model.safe_repr(want[1])))

	def one(self, k, n, params, box='plain', raw=False):
		style = self.c['insts'][k]['in']
		sql, plain = self.sql(k, n), gen.build_params(style, params)
		want = self.expect(k, sql, plain)
		what = self.what(k, 'format', sql, plain)
		if box != 'plain':
			handed = gen.contain(style, box, plain)
		else:
			handed = dict(plain) if style in model.NAMED else list(plain)
		if raw:
			try:
				sql = sql.encode('latin1')
				text = want[0].encode('latin1')
			except UnicodeEncodeError:
				pass
			else:
				want = (text, want[1])
		got = must(what, self.insts[k].format, sql, handed)
		self.compare(what, got, want)
		self.results.append([got, copied(want), what])
		return got


def check(c, ctx):
	if 'shapes' in c:
		return check_shapes(c, ctx)
	if 'long' in c:
		return check_long(c, ctx)
	if 'pair' in c:
		return check_pair(c, ctx)
	if 'near' in c:
		return check_near(c, ctx)
	run = Run(c, ctx.lib)
	style_of = [i['in'] for i in c['insts']]
	seen = {}
	for rec in c['ops']:
		k, n, op = rec['inst'], rec['q'], rec['op']
		style, q = style_of[k], run.insts[k]
		sql = run.sql(k, n)
		params = rec.get('params') or c['queries'][k][n]['params']
		seen[sql] = seen.get(sql, 0) + 1
		ctx.label('op: ' + op)
		if op == 'format':
			run.one(k, n, params, rec['box'], rec['bytes'])
		elif op == 'reshape':
			run.one(k, n, rec['params2'], rec['box'], rec['bytes'])
		elif op == 'many':
			for ps in (params, rec['params2']):
				plain = gen.build_params(style, ps)
				want = run.expect(k, sql, plain)
				what = run.what(k, 'formatmany', sql, plain)
				got = must(what, q.formatmany, sql, iter([plain, plain]))
				for p in got[1]:
					run.compare(what, (got[0], p), want)
				run.lists.append([got[1], list(got[1]), what])
				for p in got[1]:
					run.results.append([(got[0], p), copied(want), what])
		elif op == 'nested':
			j, m, inner = rec['inner']
			count = [0]

			def hook():
				count[0] += 1
				if count[0] < 4:
					run.one(j, m, inner)
			plain = gen.build_params(style, params)
			data = plain if style in model.NAMED else {
				x + (style in model.NUMERIC): v for x, v in enumerate(plain)}
			want = run.expect(k, sql, plain)
			what = run.what(k, 'format', sql, plain) + ' (reading a parameter runs another conversion)'
			boxes = [Nested(data, hook)]
			if style not in model.NAMED:
				boxes.append(NestedSequence(plain, hook))
			for box in boxes:
				count[0] = 0
				run.compare(what, must(what, q.format, sql, box), want)
				count[0] = 0
				many = must(what, q.formatmany, sql, [box, box])
				for p in many[1]:
					run.compare(what, (many[0], p), want)
		elif op == 'bad':
			how = rec['how']
			plain = gen.build_params(style, params)
			if how == 'missing':
				r = attempt(q.format, sql, {} if style in model.NAMED else [])
			elif how == 'type':
				r = attempt(q.format, sql, None)
			elif how == 'sql':
				r = attempt(q.format, None, plain)
			elif how == 'many':
				r = attempt(q.formatmany, sql, [plain, None])
			else:
				r = attempt(q.format, sql, Nested({'a': 1, 1: 2, 0: 3}, boom))
			if how in ('type', 'sql', 'many') and r.ok:
				raise Violation('%s (%s) %s' % (run.what(k, 'bad call', sql, plain), how, r.describe()))
		elif op == 'mutate':
			for item in run.results:
				got, keep, _ = item
				got[1].clear()
				keep[1].clear()
				if isinstance(got[1], dict):
					got[1]['zz'] = keep[1]['zz'] = 1
				else:
					got[1].append(1)
					keep[1].append(1)
			for got, keep, _ in run.lists:
				got.append(None)
				keep.append(None)
		elif op == 'bulk':
			for x in range(rec['n']):
				value = ['T', x % 4] if rec['tuples'] else ['i', x]
				i = c['insts'][k]
				ref = ['N%d' % (x % 50), False] if style in model.NAMED else 1 if style in model.NUMERIC else None
				text = gen.sql_of([['L', 'q%d ' % (x // 2)], ['P', ref], ['L', ' ']], style)
				plain = gen.build_params(style, [[ref[0], value]] if style in model.NAMED else [value])
				want = run.expect(k, text, plain)
				what = run.what(k, 'format', text, plain) + ' after %d others' % x
				run.compare(what, must(what, q.format, text, plain), want)
		elif op == 'reads':
			i = c['insts'][k]
			if (q.in_style, q.out_style) != (i['in'], i['out']) or q.expand_tuples is not model.resolve_exp(i['out'], i['exp']) or \
					q.escape_char != model.resolve_esc(i['in'], i['esc']) or (q.strip_comments is None) != (i.get('strip') is None):
				raise Violation('instance %d reports another configuration than it was made with: %r %r %r %r' % (
					k, q, q.expand_tuples, q.escape_char, q.strip_comments))
	for got, keep, what in run.lists:
		if len(got) != len(keep) or any(a is not b for a, b in zip(got, keep)):
			raise Violation('the rows of %s changed afterwards to %s' % (what, model.safe_repr(got)))
	for got, keep, what in run.results:
		if not common.same_result(got, keep):
			raise Violation('the result of %s changed afterwards to %s with %s' % (
				what, ascii(got[0]), model.safe_repr(got[1])))
	ctx.interesting(len(c['ops']) > len(c['insts']) or any(n > 1 for n in seen.values()))
	ctx.label('instances: %d' % len(c['insts']))
	if any(n > 1 for n in seen.values()):
		ctx.label('same query converted again')
