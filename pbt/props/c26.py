"""C26: nothing of a conversion is kept."""
import collections
import gc
import weakref

from ..strat import st

from .. import common, gen, grid, model
from .. import values as V
from ..core import Violation, attempt, must

EXAMPLES = {'quick': 6000, 'thorough': 100000}
RULE = ("every pair of styles with every container, through format and formatmany, once and repeatedly, with valid and failing calls, in histories on one or several instances: afterwards every value, element, container, row, "
	"and iterable of rows is watched through weak references: containers have to be gone while the results live, and all the rest when the results are gone, although the instances live on; "
	"non-trivial = at least one value was watched and used by the query")
ASSUMPTIONS = ("what is unreachable counts as gone after a run of the garbage collector",)


class Token:
	"""A value that can be watched."""
	__slots__ = ('__weakref__',)


class Map(collections.abc.Mapping):
	def __init__(self, items):
		self._d = dict(items)

	def __getitem__(self, k):
		return self._d[k]

	def __iter__(self):
		return iter(self._d)

	def __len__(self):
		return len(self._d)


class Dict(dict):
	pass


class Ordered(collections.OrderedDict):
	pass


class Missing(dict):
	"""Makes missing values up."""
	def __missing__(self, k):
		raise KeyError(k)


class List(list):
	pass


class Deque(collections.deque):
	pass


class Seq(collections.abc.Sequence):
	def __init__(self, items):
		self._l = list(items)

	def __getitem__(self, k):
		return self._l[k]

	def __len__(self):
		return len(self._l)


MAPS, SEQS = (Map, Dict, Ordered, Missing), (List, Deque, Seq)
KINDS = ('format', 'many', 'generator', 'missing', 'bad row', 'short row', 'length', 'kind', 'failing rows', 'alternate')


def enumerate_cases(tier):
	n = grid.N(0)
	for i in model.STYLES:
		for o in model.STYLES:
			for kind in KINDS:
				for pattern, values in (((0,), [grid.S]), ((0, 1, 0), [grid.T2, grid.S]), ((1, 0, 2), [grid.S, grid.T3, grid.T0]), ((), [grid.S])):
					for box in range(2):
						n += 1
						yield {'in': i, 'out': o, 'exp': (None, True, True, False)[n % 4], 'oq': n % 2 == 0, 'q': grid.query(i, pattern, values, n), 'box': n // 2 % 4 if box else n % 3 + 4, 'kind': kind,
							'times': (1, 1, 2, 5)[n // 3 % 4], 'same': n // 5 % 2 == 0, 'instances': 1 + n // 7 % 2, 'bytes': n // 11 % 4 == 0, 'strip': True if n // 13 % 3 == 0 else None}


@st.composite
def cases(draw, tier):
	i = draw(gen.styles)
	return {'in': i, 'out': draw(gen.styles), 'exp': draw(st.sampled_from([None, True, True, False])), 'oq': draw(st.booleans()),
		'q': draw(gen.queries(i, zeros=True, name_filter=gen.no_reserved, scale=False)), 'box': draw(st.integers(0, 6)), 'kind': draw(st.sampled_from(KINDS)), 'times': draw(st.sampled_from([1, 1, 2, 3, 40])),
		'same': draw(st.booleans()), 'instances': draw(st.integers(1, 3)), 'bytes': draw(st.booleans()), 'strip': draw(st.sampled_from([None, True]))}


def fresh(c, watch):
	"""A parameter set of tokens, in the shape of the case; all of it is watched."""
	def token():
		t = Token()
		watch.append(('a value', weakref.ref(t)))
		return t

	def value(d):
		return tuple([token() for _ in range(min(V.tuple_len(d), 60))]) if V.is_tuple(d) else token()
	params = c['q']['params']
	if c['in'] in model.NAMED:
		box = MAPS[c['box'] % 4]([(k, value(d)) for k, d in params])
	elif c['box'] < 4:
		start = 1 if c['in'] in model.NUMERIC else 0
		box = MAPS[c['box']]([(k + start if k % 2 else str(k + start), value(d)) for k, d in enumerate(params)])
	else:
		box = SEQS[c['box'] - 4]([value(d) for d in params])
	watch.append(('the container of the parameters', weakref.ref(box)))
	return box


def without_one(c, box):
	"""The same with a value missing."""
	if isinstance(box, collections.abc.Mapping):
		return type(box)(list(box.items())[:-1])
	return type(box)(list(box)[:-1])


def convert(c, q, sql, watch):
	"""One call; returns the result or None. No reference to the parameters outlives this frame but through the library and the result."""
	kind = c['kind']
	box = fresh(c, watch)
	if kind == 'format' or (kind == 'alternate' and len(watch) % 2):
		return must('format', q.format, sql, box)
	if kind == 'missing':
		less = without_one(c, box)
		watch.append(('the container of the parameters', weakref.ref(less)))
		attempt(q.format, sql, less)
		attempt(q.formatmany, sql, [box, less])
		return None
	rows = [box, fresh(c, watch), fresh(c, watch)]
	if kind == 'bad row':
		attempt(q.formatmany, sql, rows + [None])
		return None
	if kind == 'short row':
		attempt(q.formatmany, sql, rows + [without_one(c, fresh(c, watch))])
		return None
	if kind in ('length', 'kind'):
		# A later row with tuples of another length, or none.
		last = fresh(c, watch)
		pairs = [(k, (v + v[:1] + (1,) if kind == 'length' else list(v)) if isinstance(v, tuple) else v) for k, v in (last.items() if isinstance(last, collections.abc.Mapping) else enumerate(last))]
		other = type(last)(pairs if isinstance(last, collections.abc.Mapping) else [v for _, v in pairs])
		watch.append(('the container of the parameters', weakref.ref(other)))
		attempt(q.formatmany, sql, rows + [other])
		return None
	if kind == 'failing rows':
		def failing():
			yield from rows
			raise OSError('rows')
		given = failing()
		watch.append(('the iterable of rows', weakref.ref(given)))
		attempt(q.formatmany, sql, given)
		return None
	given = (r for r in rows) if kind == 'generator' else List(rows)
	watch.append(('the iterable of rows', weakref.ref(given)))
	return must('formatmany', q.formatmany, sql, given)


_frozen = []


def check(c, ctx):
	if not _frozen:
		_frozen.append(1)
		gc.freeze()  # keeps collections short
	sql = gen.sql_of(c['q']['toks'], c['in'])
	if c['bytes'] and sql.isascii():
		sql = sql.encode()
	instances = [gen.make(ctx.lib, c) for _ in range(c['instances'])]
	what = '%s->%s %s(%s), %d times' % (c['in'], c['out'], 'formatmany' if c['kind'] != 'format' else 'format', ascii(sql), c['times'])
	watch = []
	results = []
	for n in range(c['times']):
		text = sql if c['same'] else sql + (b' ' if isinstance(sql, bytes) else ' ') * (n + 1)
		results.append(convert(c, instances[n % len(instances)], text, watch))
	# While the results live, only their values may.
	left = [k for k, w in watch if w() is not None and k != 'a value']
	if left:
		gc.collect()
		left = [k for k, w in watch if w() is not None and k != 'a value']
	if left:
		raise Violation('%s: %s is still referred to after the call' % (what, left[0]))
	values = sum(1 for k, _ in watch if k == 'a value')
	results.clear()
	left = [k for k, w in watch if w() is not None]
	if left:
		gc.collect()
		left = [k for k, w in watch if w() is not None]
	if left:
		raise Violation('%s: %s is still referred to after the result is gone (%d of %d)' % (what, left[0], len(left), values))
	ctx.interesting(values > 0 and common.count_ph(c) > 0)
	ctx.label('call: ' + c['kind'], 'once' if c['times'] == 1 else 'repeatedly')
