"""C24: errors of the caller's own objects pass through."""
import asyncio
import collections.abc
import itertools

from ..strat import st

from .. import common, gen, grid, model
from .. import values as V
from ..core import Inconclusive, Violation, must

EXAMPLES = {'quick': 4800, 'thorough': 80000}
RULE = ("every pair of styles with (a) small queries of every shape and each point at which a parameter container, an expanded tuple or an iterable of rows can fail, and (b) structured queries with a fault "
	"at a random point, of one of 35 kinds of error; if the fault was reached then the call has to raise that very exception object, if it was not then the result has to be the right one; "
	"then the same objects without the fault have to give the right result; non-trivial = the fault was reached")
ASSUMPTIONS = ("the errors are neither LookupErrors nor StopIteration, which mean something to Python's own protocols",)


class Boom(Exception):
	pass


class BoomValue(ValueError):
	pass


class BoomType(TypeError):
	pass


class BoomBase(BaseException):
	pass


ERRORS = {'boom': Boom, 'value': BoomValue, 'type': BoomType, 'base': BoomBase, 'os': OSError, 'runtime': RuntimeError, 'zero': ZeroDivisionError, 'timeout': TimeoutError,
	'interrupt': KeyboardInterrupt, 'exit': SystemExit, 'cancelled': asyncio.CancelledError, 'memory': MemoryError}
ERRORS.update((e.__name__, e) for e in (AttributeError, NotImplementedError, NameError, AssertionError, ArithmeticError, OverflowError, RecursionError, EOFError, ImportError, ModuleNotFoundError,
	BufferError, ReferenceError, PermissionError, FileNotFoundError, ConnectionError, InterruptedError, SystemError, SyntaxError, UserWarning, Warning, Exception, UnboundLocalError, FloatingPointError))
ORDER = tuple(ERRORS)


class Fuse:
	"""Raises *error* at the tick number *at*; later ones succeed if *once*."""
	def __init__(self, error, at, once):
		self.error, self.left, self.once, self.blown = error, at, once, False

	def tick(self):
		if self.left is None:
			return
		if self.left > 0:
			self.left -= 1
			return
		self.blown = True
		if self.once:
			self.left = None
		raise self.error

	def off(self):
		self.left = None


class FaultyMapping(collections.abc.Mapping):
	def __init__(self, items, fuse):
		self._data, self._fuse = dict(items), fuse

	def __getitem__(self, key):
		self._fuse.tick()
		return self._data[key]

	def __iter__(self):
		for k in self._data:
			self._fuse.tick()
			yield k

	def __contains__(self, key):
		return key in self._data

	def __len__(self):
		return len(self._data)


class FaultyDict(dict):
	def __init__(self, items, fuse):
		super().__init__(items)
		self._fuse = fuse

	def __getitem__(self, key):
		self._fuse.tick()
		return dict.__getitem__(self, key)

	def items(self):
		for k in dict.items(self):
			self._fuse.tick()
			yield k


class FaultySequence(collections.abc.Sequence):
	def __init__(self, items, fuse):
		self._data, self._fuse = list(items), fuse

	def __getitem__(self, index):
		self._fuse.tick()
		return self._data[index]

	def __len__(self):
		return len(self._data)


class FaultyList(list):
	def __init__(self, items, fuse):
		super().__init__(items)
		self._fuse = fuse

	def __getitem__(self, index):
		self._fuse.tick()
		return list.__getitem__(self, index)

	def __iter__(self):
		for x in list.__iter__(self):
			self._fuse.tick()
			yield x


class FaultyTuple(tuple):
	def __iter__(self):
		for x in tuple.__iter__(self):
			self._fuse.tick()
			yield x

	def __getitem__(self, index):
		self._fuse.tick()
		return tuple.__getitem__(self, index)


class Rows:
	"""An iterable of rows, in each of several forms."""
	def __init__(self, form, rows, fuse):
		self.form, self.rows, self.fuse = form, rows, fuse

	def make(self):
		return getattr(self, self.form)()

	def generator(self):
		for r in self.rows:
			self.fuse.tick()
			yield r
		self.fuse.tick()

	def closing(self):
		try:
			for r in self.rows:
				self.fuse.tick()
				yield r
		finally:
			pass

	def sequence(self):
		return FaultySequence(self.rows, self.fuse)

	def iterator(self):
		fuse, it = self.fuse, iter(self.rows)

		class Iterator:
			def __iter__(self):
				return self

			def __next__(self):
				fuse.tick()
				return next(it)
		return Iterator()

	def iterable(self):
		fuse, rows = self.fuse, self.rows

		class Iterable:
			def __iter__(self):
				fuse.tick()
				return iter(rows)
		return Iterable()

	def map(self):
		def get(r):
			self.fuse.tick()
			return r
		return map(get, self.rows)


FORMS = ('generator', 'closing', 'sequence', 'iterator', 'iterable', 'map')
PLACES = ('item', 'row item', 'row value', 'value', 'rows', 'rows', 'chain')


def enumerate_cases(tier):
	n = grid.N(0)
	patterns = (((0,), [grid.S]), ((0, 1, 0), [grid.T2, grid.S]), ((1, 0, 0, 1), [grid.S, grid.T3]), ((), []), ((0, 1), [grid.T0, grid.T2]))
	for i in model.STYLES:
		for o in model.STYLES:
			for pattern, values in patterns:
				for place in PLACES:
					for at in (0, 1, 2, 3, 5) if tier == 'quick' else range(14):
						n += 1
						yield {'in': i, 'out': o, 'exp': (None, True, False, True)[n % 4], 'oq': n % 2 == 0, 'q': grid.query(i, pattern, values, n), 'place': place, 'at': at,
							'error': ORDER[n % len(ORDER)], 'rows': (1, 2, 3, 7)[n % 4], 'form': FORMS[n % len(FORMS)], 'subclass': n % 3 == 0, 'keyed': n % 5 < 2, 'once': n % 7 < 3, 'bytes': n % 6 == 0}
	for count, at in ((300, 299), (300, 0), (1100, 1000), (1100, 1024), (5000, 4096)):
		for i, o in grid.kind_pairs(count):
			for form in FORMS:
				n += 1
				yield {'in': i, 'out': o, 'exp': True, 'oq': False, 'q': grid.query(i, (0, 1), [grid.T2, grid.S], n), 'place': 'rows', 'at': at,
					'error': ORDER[n % len(ORDER)], 'rows': count, 'form': form, 'subclass': False, 'keyed': False, 'once': True, 'bytes': False}


@st.composite
def cases(draw, tier):
	i, o = draw(gen.styles), draw(gen.styles)
	return {'in': i, 'out': o, 'exp': draw(st.sampled_from([None, True, True, False])), 'oq': draw(st.booleans()), 'q': draw(gen.queries(i, zeros=True, name_filter=gen.no_reserved, scale=False)),
		'place': draw(st.sampled_from(PLACES)), 'at': draw(st.integers(0, 20)), 'error': draw(st.sampled_from(ORDER)), 'rows': draw(st.integers(1, 5)), 'form': draw(st.sampled_from(FORMS)),
		'subclass': draw(st.booleans()), 'keyed': draw(st.booleans()), 'once': draw(st.booleans()), 'bytes': draw(st.booleans())}


def faulty(c, plain, fuse):
	"""The parameters in a container which can fail."""
	if c['in'] in model.NAMED:
		return (FaultyDict if c['subclass'] else FaultyMapping)(plain, fuse)
	if c['keyed']:
		start = 1 if c['in'] in model.NUMERIC else 0
		items = [(k + start if k % 2 else str(k + start), v) for k, v in enumerate(plain)]
		return (FaultyDict if c['subclass'] else FaultyMapping)(items, fuse)
	return (FaultyList if c['subclass'] else FaultySequence)(plain, fuse)


def with_tuples(plain, fuse):
	def change(v):
		if isinstance(v, tuple):
			v = FaultyTuple(v)
			v._fuse = fuse
		return v
	if isinstance(plain, dict):
		return {k: change(v) for k, v in plain.items()}
	return [change(v) for v in plain]


def elements(v):
	return list(tuple.__iter__(v)) if isinstance(v, FaultyTuple) else v


def equal(got, want):
	"""Like common.same_result, for queries of either type; a faulty tuple that was kept whole stands for the tuple."""
	if type(got) is not tuple or len(got) != 2 or got[0] != want[0] or type(got[1]) is not type(want[1]) or len(got[1]) != len(want[1]):
		return False
	pairs = zip(got[1], want[1]) if isinstance(want[1], list) else ((got[1].get(k, MISSING), v) for k, v in want[1].items())
	return all(a is b or (isinstance(a, FaultyTuple) and isinstance(b, tuple) and len(a) == len(b) and all(x is y for x, y in zip(tuple.__iter__(a), b))) for a, b in pairs)


MISSING = object()


def call(fn, *a):
	try:
		return fn(*a), None
	except Inconclusive:
		raise
	except BaseException as e:
		if isinstance(e, (GeneratorExit,)):
			raise
		return None, e


def check(c, ctx):
	i, place, count = c['in'], c['place'], c['rows']
	sql, plain, expand = common.setup(c)
	q = gen.make(ctx.lib, c)
	error = ERRORS[c['error']]('planned')
	trap = Fuse(error, c['at'], c['once'])
	text = sql
	if c['bytes']:
		try:
			text = sql.encode('latin1')
			if i == 'named_oracle':
				sql.upper().encode('latin1')
		except UnicodeEncodeError:
			text = sql
	want = must('%s->%s format(%s, %s)' % (i, c['out'], ascii(text), model.safe_repr(plain)), q.format, text, plain)
	what = '%s->%s %s(%s, %s), where %s number %d raises %s' % (i, c['out'], 'format' if place in ('item', 'value') else 'formatmany', ascii(text), model.safe_repr(plain),
		{'rows': 'reading the rows', 'chain': 'reading the rows', 'value': 'reading a tuple', 'row value': 'reading a tuple'}.get(place, 'reading the parameters'), c['at'], c['error'])

	def run():
		if place == 'item':
			return call(q.format, text, box)
		if place == 'value':
			return call(q.format, text, values)
		if place == 'row item':
			return call(q.formatmany, text, [plain] * (count - 1) + [box])
		if place == 'row value':
			return call(q.formatmany, text, [plain] * (count - 1) + [values])
		rows = Rows(c['form'], [plain] * count, trap)
		if place == 'chain':
			return call(q.formatmany, text, itertools.chain([plain], rows.make()))
		return call(q.formatmany, text, rows.make())

	def verify(got, e, how):
		if e is not None:
			raise Violation('%s%s: it raised %s' % (what, how, model.safe_repr(e)))
		if place in ('item', 'value'):
			fine = equal(got, want)
		else:
			fine = got[0] == want[0] and len(got[1]) == count + (place == 'chain') and all(equal((got[0], p), want) for p in got[1])
		if not fine:
			raise Violation('%s%s: it returned %s, expected %s' % (what, how, model.safe_repr(got), model.safe_repr(want)))

	box, values = faulty(c, plain, trap), with_tuples(plain, trap)
	got, e = run()
	if trap.blown:
		ctx.interesting()
		ctx.label('fault: ' + place, 'error: ' + c['error'])
		if e is not error:
			raise Violation('%s: it %s' % (what, 'returned ' + model.safe_repr(got) if e is None else 'raised %s instead' % model.safe_repr(e)))
	else:
		ctx.label('fault not reached')
		verify(got, e, ' (not reached)')
	trap.off()
	got, e = run()
	verify(got, e, ', after that call and without the fault')
	got, e = call(q.format, text, plain)
	if e is not None or not common.same_result(got, want):
		raise Violation('%s: afterwards format() of the plain parameters gave %s' % (what, model.safe_repr(got if e is None else e)))
