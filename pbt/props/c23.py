"""C23: the caller's objects are only read, and every result is a container of its own."""
from ..strat import st

from .. import common, gen, grid, model
from .. import values as V
from ..core import Violation, attempt, must

EXAMPLES = {'quick': 4800, 'thorough': 100000}
RULE = ("every pair of styles with every container, and random structured conversions through format, formatmany and failing calls, with the parameters in mutable and read-only containers: "
	"afterwards the containers hold the same keys and objects in the same order, no result is or shares a container with the input or "
	"with another result, and changing a result changes neither input nor later results; non-trivial = at least one placeholder")


@st.composite
def cases(draw, tier):
	i = draw(gen.styles)
	o = draw(st.one_of(st.just(i), gen.styles))
	q = draw(gen.queries(i, zeros=True, name_filter=gen.no_reserved))
	return {'in': i, 'out': o, 'exp': draw(st.sampled_from([None, True, False])), 'oq': draw(st.booleans()), 'q': q,
		'box': draw(gen.containers(i)), 'rows': draw(st.sampled_from([1, 2, 3])), 'outer': draw(st.sampled_from(['list', 'tuple', 'deque'])),
		'noise': draw(st.sampled_from([None, None, 'bytes', 'mixed', 'str'])), 'gap': draw(st.booleans()),
		'fail': draw(st.integers(0, 3)), 'same': draw(st.booleans())}


def enumerate_cases(tier):
	"""Every pair of styles with every container, through every kind of call."""
	n = grid.N(0)
	for i in model.STYLES:
		boxes = V.MAPPINGS + ('factory',) if i in model.NAMED else V.SEQUENCES + tuple('%s:%s' % (f, k) for f in ('int', 'str', 'mix', 'bytes') for k in V.MAPPINGS + ('factory',))
		for box in boxes:
			for o in model.STYLES:
				for pattern, values in (((0, 1, 0), [grid.S, grid.T2]), ((1, 0), [['l', [grid.S]], ['d', []]]), ((0,), [grid.T0]), ((), [grid.S])):
					n += 1
					yield {'in': i, 'out': o, 'exp': (None, True, False)[n % 3], 'oq': n % 2 == 0, 'q': grid.query(i, pattern, values, n), 'box': box,
						'rows': 1 + n % 3, 'outer': ('list', 'tuple', 'deque')[n // 3 % 3], 'noise': (None, 'bytes', 'mixed', 'str')[n // 2 % 4], 'gap': n % 7 < 3,
						'fail': n % 4 if box[-7:] != 'factory' or n % 3 else 0, 'same': n // 4 % 2 == 0}
					if box[-7:] == 'factory':
						# Missing parameters, in one row and in the second one of two.
						for fail in (0, 3):
							yield {'in': i, 'out': o, 'exp': (None, True, False)[n % 3], 'oq': n % 2 == 0, 'q': grid.query(i, pattern, values, n), 'box': box,
								'rows': 2, 'outer': 'list', 'noise': None, 'gap': False, 'fail': fail, 'same': False}


	for n, c in grid.numbered(grid.volume((64, 101, 256, 513, 1001))):
		yield dict(c, rows=1 + n % 3, outer='list', noise=None, gap=False, fail=n % 4, same=n // 4 % 2 == 0)


NOISE = {'bytes': (b'zz', b'99997'), 'mixed': (b'zz', None, 2.5, ('zz',), -5, '99997 '), 'str': ('', 'zz zz', '\u00b2', '\u0663\u0663\u0663\u0663\u0663', '1.5')}


def wrap(c, plain):
	"""The container, with keys which have nothing to do with the query."""
	i = c['in']
	box = gen.contain(i, c['box'], plain)
	if not c['noise'] or not hasattr(box, 'items') or (i == 'named_oracle' and c['noise'] != 'str'):
		return box
	items = list(box.items())
	if c['gap']:
		used = {k for k, _ in common.used_values(c)}
		items = [(k, v) for k, v in items if (k if i in model.NAMED else int(k)) in used]
	for n, k in enumerate(NOISE[c['noise']]):
		items.insert(n * 2 % (len(items) + 1), (k, 'noise'))
	return V.make_mapping(c['box'].split(':')[-1], items)


class Attributes:
	def __init__(self):
		self.a = 1


def numbers():
	yield from range(5)


# What is handed over, and what can be seen of it; the iterators must not be advanced.
ODD = (
	(lambda: {1, 2, 'a'}, lambda x: sorted(map(str, x))),
	(numbers, lambda x: x.gi_frame is not None and x.gi_frame.f_lasti),
	(lambda: bytearray(b'abc'), bytes),
	(lambda: iter([1, 2, 3]), lambda x: x.__length_hint__()),
	(Attributes, lambda x: dict(vars(x))),
	(lambda: {'zz': [1]}, lambda x: sorted(x.items())),
	(lambda: {None: 1, (): 2}, lambda x: [(k, v) for k, v in x.items()]),
	(lambda: {1: 1, 2: 2}.keys(), lambda x: sorted(x)),
	(lambda: ['zz'], list),
	(lambda: [], list),
	(lambda: {}, dict),
	(lambda: set(), set),
)


def snap(box):
	if hasattr(box, 'items'):
		return [(k, id(v), deep(v)) for k, v in box.items()]
	return [(None, id(v), deep(v)) for v in box]


def deep(v):
	if type(v) in (list, tuple) or isinstance(v, (V.MyList, tuple)):
		return [id(x) for x in v]
	if type(v) is dict:
		return [(k, id(x)) for k, x in v.items()]
	if type(v) is set:
		return sorted(v)
	return None


def check(c, ctx):
	i = c['in']
	sql, plain, expand = common.setup(c)
	q = gen.make(ctx.lib, c)
	box = wrap(c, plain)
	what = '%s->%s format(%s, %s in %s)' % (i, c['out'], ascii(sql), model.safe_repr(plain), c['box'])
	before = snap(box)

	def unchanged(when):
		if snap(box) != before:
			raise Violation('%s: %s changed the parameters of the caller' % (what, when))
	first = must(what, q.format, sql, box)
	unchanged('format()')
	if first[1] is box:
		raise Violation('%s returned the container of the caller' % what)
	keep = list(first[1].items()) if isinstance(first[1], dict) else list(first[1])
	second = must(what, q.format, sql, box)
	if second[1] is first[1]:
		raise Violation('%s returned the same container twice' % what)
	# Change one result.
	if isinstance(first[1], dict):
		first[1].clear()
		first[1]['zz'] = 1
	else:
		first[1][:] = [1, 2, 3]
	unchanged('changing a result')
	third = must(what, q.format, sql, box)
	for r in (second, third):
		now = list(r[1].items()) if isinstance(r[1], dict) else list(r[1])
		if len(now) != len(keep) or not all(
			(a[0] == b[0] and a[1] is b[1]) if isinstance(r[1], dict) else a is b for a, b in zip(now, keep)
		) or r[0] != first[0]:
			raise Violation('%s: changing a result changed another one to %s' % (what, model.safe_repr(r)))
	# Rows.
	rows = [box] * c['rows'] if c['same'] else [box] + [wrap(c, plain) for _ in range(c['rows'] - 1)]
	outer = V.make_iterable(c['outer'], rows)
	snaps = [snap(r) for r in rows]
	many = must(what + ' (formatmany)', q.formatmany, sql, outer)
	if list(map(id, outer)) != list(map(id, rows)) or [snap(r) for r in rows] != snaps:
		raise Violation('%s: formatmany() changed the rows of the caller' % what)
	if many[1] is outer:
		raise Violation('%s: formatmany() returned the rows of the caller' % what)
	seen = {id(r) for r in rows}
	for p in many[1]:
		if id(p) in seen:
			raise Violation('%s: formatmany() returned a container of the caller, or one twice' % what)
		seen.add(id(p))
	# The rows of one result have nothing to do with those of the next one.
	rest = [list(p.items()) if isinstance(p, dict) else list(p) for p in many[1]]
	again = must(what + ' (formatmany once more)', q.formatmany, sql, outer)
	if again[1] is many[1] or {id(p) for p in again[1]} & {id(p) for p in many[1]}:
		raise Violation('%s: formatmany() returned a container of an earlier result' % what)
	for p in many[1]:
		p.clear()
	many[1].clear()
	now = [list(p.items()) if isinstance(p, dict) else list(p) for p in again[1]]
	if len(now) != len(rest) or any(len(a) != len(b) or any((x[0] != y[0] or x[1] is not y[1]) if isinstance(p, dict) else x is not y for x, y in zip(a, b)) for a, b, p in zip(now, rest, again[1])):
		raise Violation('%s: changing a result of formatmany() changed the next one to %s' % (what, model.safe_repr(again[1])))
	if [snap(r) for r in rows] != snaps or list(map(id, outer)) != list(map(id, rows)):
		raise Violation('%s: changing a result of formatmany() changed the rows of the caller' % what)
	# Failing calls.
	if c['fail'] == 0 and not (c['box'] == 'factory' and i in model.NAMED and i != 'named_oracle'):  # a dict which makes up what is missing
		attempt(q.format, sql + ' ' + gen.sql_of([['P', ['zz9', False] if i in model.NAMED else 9999 if i in model.NUMERIC else None]], i) + ' ', box)
		attempt(q.formatmany, sql + ' ' + gen.sql_of([['P', ['zz9', True] if i in model.NAMED else 9999 if i in model.NUMERIC else None]], i) + ' ', [box, box])
	elif c['fail'] == 1:
		attempt(q.formatmany, sql, [box, None])
	elif c['fail'] == 2:
		attempt(q.format, None, box)
	unchanged('a later call')
	for d, v in zip([d for _, d in c['q']['params']] if i in model.NAMED else c['q']['params'], plain.values() if i in model.NAMED else plain):
		if d[0] == 'c' and d[1] in ('gen', 'iter') and len(list(v)) != len(d[2]):
			raise Violation('%s: an iterator among the values was advanced' % what)
	# Objects which are no containers of parameters.
	for make, look in (ODD[c['fail'] % len(ODD)], ODD[(len(sql) + c['rows']) % len(ODD)]):
		for how in ('format', 'the only row', 'second row'):
			thing = make()
			seen = look(thing)
			if how == 'format':
				attempt(q.format, sql, thing)
			else:
				attempt(q.formatmany, sql, [thing] if how == 'the only row' else [box, thing])
			if look(thing) != seen:
				raise Violation('%s: handing %s over instead (%s) changed it to %s' % (what, model.safe_repr(make()), how, model.safe_repr(thing)))
	unchanged('a refused row')
	ctx.interesting(common.count_ph(c) > 0)
	if c['noise'] and hasattr(box, 'items'):
		ctx.label('unrelated keys')
	ctx.label('container: ' + c['box'].split(':')[-1])
	if i == c['out']:
		ctx.label('same style')
