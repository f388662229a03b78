"""C07: formatmany() is format() applied to every row."""
import itertools

from ..strat import st

from .. import common, gen, grid, model
from .. import values as V
from ..core import Violation, attempt, error_text, must

EXAMPLES = {'quick': 5600, 'thorough': 100000}
RULE = ("(a) small queries of two parameters with all patterns and kinds of values in every pair of styles, rows which share objects, and thousands of rows, and (b) structured queries with escape sequences and 1 to 6 parameter sets of one shape, each set in its own container, handed over in a "
	"list, tuple, generator, iterator, dict view or one-shot iterable; every row is compared with format() of that row; non-trivial = at "
	"least two rows and one placeholder")
ASSUMPTIONS = ("for named_oracle all rows spell their keys alike",)


def enumerate_cases(tier):
	for n, c in grid.numbered(itertools.chain(grid.patterns(shapes=(grid.S, grid.T0, grid.T1, grid.T3)), grid.kinds((None, True)))):
		rows = grid.rows(c['q'], c['in'], 1 + n % 3)
		yield dict(c, esc=True if n % 5 == 0 else None, rows=rows, boxes=[grid.box_of(c['in'], n // 2 + k * (n // 7)) for k in range(len(rows))],
			iter=ITERABLES[n % len(ITERABLES)], bytes=n % 4 == 0, strip=None)
	for n, c in grid.numbered(grid.volume()):
		rows = grid.rows(c['q'], c['in'], 2)
		yield dict(c, esc=None, rows=rows, boxes=[c['box']] * 2, iter=ITERABLES[n % len(ITERABLES)], bytes=n % 4 == 0, strip=None)
	for n, c in grid.numbered(grid.large(model.STYLES, (300,))):
		yield dict(c, esc=None, rows=grid.rows(c['q'], c['in'], 2), boxes=[c['box']] * 2, iter='list', bytes=False, strip=None)
	for i in model.STYLES:
		for o in model.STYLES:
			for count in (60, 1100):
				q = grid.query(i, (0, 1, 0), [grid.T2, grid.S], count)
				yield {'in': i, 'out': o, 'exp': True, 'oq': False, 'q': q, 'esc': None, 'rows': grid.rows(q, i, count),
					'boxes': [grid.box_of(i, 0)] * count, 'iter': 'gen', 'bytes': False, 'strip': None}
	for count in tuple(range(1, 270)) + (512, 1000, 1024, 4096, 10001, 70000) + ((200000,) if tier != 'quick' else ()):
		# Every number of rows.
		for i, o in grid.kind_pairs(count):
			q = grid.query(i, (0, 1) if count < 20000 else (0,), [grid.T2, grid.S] if count < 20000 else [grid.S], count)
			yield {'in': i, 'out': o, 'exp': True, 'oq': False, 'q': q, 'esc': None, 'count': count,
				'box': grid.box_of(i, 0), 'iter': 'list', 'bytes': False, 'strip': None}
	for n, c in grid.numbered(grid.identical(exps=(None, True))):
		# Values which are one object in one row, and different ones in another.
		rows = grid.rows(c['q'], c['in'], 2)
		if n % 2:
			rows = [rows[1], rows[0], rows[1]]
		yield dict(c, esc=None, rows=rows, boxes=[grid.box_of(c['in'], n // 2 + k * n) for k in range(len(rows))], iter=ITERABLES[n % len(ITERABLES)], bytes=False, strip=None)
	for n, c in grid.numbered(itertools.chain(grid.pairs_of_names(model.STYLES, (True,)) if tier != 'quick' else (), grid.ordinals(model.STYLES, (True,)))):
		rows = grid.rows(c['q'], c['in'], 2)
		yield dict(c, esc=None, rows=rows, boxes=[c['box']] * 2, iter='list', bytes=False, strip=None)


@st.composite
def cases(draw, tier):
	i, o = draw(gen.styles), draw(gen.styles)
	esc = draw(st.sampled_from([None, True]))
	q = draw(gen.queries(i, zeros=True, name_filter=gen.no_reserved, escapes=esc is True))
	n = draw(st.sampled_from([0, 1, 1, 1, 2, 2, 3, 5]))
	rows = [q['params']] + gen.rows_like(draw, i, q['params'], n)
	return {
		'in': i, 'out': o, 'exp': draw(st.sampled_from([None, None, True, False])), 'esc': esc,
		'oq': draw(st.booleans()), 'q': q, 'rows': rows,
		'boxes': [draw(gen.containers(i)) for _ in rows],
		'iter': draw(st.sampled_from(ITERABLES)), 'bytes': draw(st.booleans()),
		'strip': draw(st.sampled_from([None, None, True])),
	}


REGRESSIONS = [
	{'in': i, 'out': o, 'exp': None, 'esc': None, 'oq': False, 'q': {'toks': [['L', 'SELECT 1']], 'params': []},
		'rows': [[], []], 'boxes': ['dict' if i == 'named' else 'list'] * 2, 'iter': 'gen', 'bytes': False, 'strip': None}
	for i in ('named', 'numeric', 'qmark') for o in ('numeric', 'qmark', 'named')
]


SETS = {'set': set, 'frozenset': frozenset, 'keys': lambda x: dict.fromkeys(x).keys()}
ITERABLES = V.ITERABLES + tuple(SETS)


def snapshot(box, style):
	return list(box.items()) if hasattr(box, 'items') else list(box)


def check(c, ctx):
	if 'count' in c:
		c = dict(c, rows=grid.rows(c['q'], c['in'], c['count']), boxes=[c['box']] * c['count'])
	sql = gen.sql_of(c['q']['toks'], c['in'], c['esc'])
	if c['bytes']:
		try:
			sql = sql.encode('latin1')
		except UnicodeEncodeError:
			pass
	q = gen.make(ctx.lib, c)
	rows = [gen.contain(c['in'], b, gen.build_params(c['in'], r)) for b, r in zip(c['boxes'], c['rows'])]
	many = None
	if c['iter'] in SETS:
		keys = V.as_keys(rows)
		many = SETS[c['iter']](keys) if len(keys) == len(rows) and isinstance(keys, dict) else keys
		rows = list(many)
	before = [snapshot(r, c['in']) for r in rows]
	what = '%s->%s formatmany(%s, %s)' % (c['in'], c['out'], ascii(sql), model.safe_repr(before) if len(before) < 300 else '%d rows' % len(before))
	one = '%s->%s format(%s) of row ' % (c['in'], c['out'], ascii(sql))
	single = [must(one + str(k), q.format, sql, r) for k, r in enumerate(rows)]
	got = must(what, q.formatmany, sql, V.make_iterable(c['iter'], rows) if many is None else many)
	if not (isinstance(got, tuple) and len(got) == 2 and type(got[1]) is list):
		raise Violation('%s returned %s' % (what, model.safe_repr(got)))
	if len(got[1]) != len(rows):
		raise Violation('%s returned %d parameter sets for %d rows' % (what, len(got[1]), len(rows)))
	for k, s in enumerate(single):
		if type(got[0]) is not type(s[0]) or got[0] != s[0]:
			raise Violation('%s gave the query %s, format() of row %d gave %s' % (what, ascii(got[0]), k, ascii(s[0])))
		if not common.same_exact(got[1][k], s[1]):
			raise Violation('%s gave row %d as %s, format() gave %s' % (
				what, k, model.safe_repr(got[1][k]), model.safe_repr(s[1])))
	if len({id(p) for p in got[1]}) != len(rows):
		raise Violation('%s returned the same container for two rows' % what)
	for k, r in enumerate(rows):
		now = snapshot(r, c['in'])
		if len(now) != len(before[k]) or not all(same_item(a, b) for a, b in zip(now, before[k])):
			raise Violation('%s changed row %d' % (what, k))
	ctx.interesting(len(rows) > 1 and common.count_ph(c) > 0)
	ctx.label('rows: %s' % (len(rows) if len(rows) < 3 else '3..'), 'iterable: ' + c['iter'],
		'bytes query' if isinstance(sql, bytes) else 'str query')
	if len(set(c['boxes'])) > 1:
		ctx.label('rows in different containers')
	if model.resolve_exp(c['out'], c['exp']) and any(V.is_tuple(d) for _, d in common.used_values(c)):
		ctx.label('expanded tuple')


def same_item(a, b):
	if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 2 == len(b):
		return (a[0] is b[0] or type(a[0]) in (str, int) and a[0] == b[0]) and a[1] is b[1] or a is b
	return a is b
