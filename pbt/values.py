"""
Parameter values as JSON descriptors, so that a failing case can be written to a
replay file and rebuilt from it, and the containers which hold them.
"""
import array
import collections
import collections.abc
import ctypes
import dataclasses
import datetime
import decimal
import enum
import fractions
import functools
import http
import io
import itertools
import ipaddress
import os
import pathlib
import re
import sqlite3
import string
import sys
import time
import types
import typing
import uuid
import weakref


class Opaque:
	"""A value whose every inspection is an error."""
	__slots__ = ('n',)

	def __init__(self, n):
		object.__setattr__(self, 'n', n)

	def _no(self, *a):
		raise RuntimeError("a parameter value was inspected")

	__eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _no
	__hash__ = __bool__ = __len__ = __iter__ = __getitem__ = __contains__ = _no
	__str__ = __format__ = __bytes__ = __int__ = __float__ = __index__ = _no
	__add__ = __radd__ = __mod__ = __call__ = _no
	__copy__ = __deepcopy__ = __reduce_ex__ = _no

	def __repr__(self):
		return 'SECRET-%d' % self.n


class Alike:
	"""All instances are equal, falsy, and have the same hash."""
	def __init__(self, n):
		self.n = n

	def __eq__(self, other):
		return True

	def __hash__(self):
		return 7

	def __bool__(self):
		return False

	def __repr__(self):
		return 'Alike(%d)' % self.n


class MyStr(str):
	pass


class MyList(list):
	pass


class TupleSub(tuple):
	pass


Pair = collections.namedtuple('Pair', ('x', 'y'))


class Color(enum.Enum):
	RED = 'red'
	TWO = (1, 2)


class Level(enum.IntEnum):
	LOW = 0


class Text(str, enum.Enum):
	A = ':a'


class Bits(enum.Flag):
	A = 1
	B = 2


class TupleEnum(tuple, enum.Enum):
	AB = ('a', 'b')


class Typed(typing.NamedTuple):
	x: int
	y: str = 'd'


class OddTuple(tuple):
	"""A tuple with attributes of other types."""
	def __repr__(self):
		return 'OddTuple' + tuple.__repr__(self)

	_field_defaults = {}
	n_fields = 2


class DbNull:
	def __str__(self):
		return 'NULL'

	__html__ = __sql__ = __composed__ = getquoted = __str__

	def __conform__(self, protocol):
		return 'conformed'


class Lazy:
	"""Would be called or awaited by code which resolves lazy values."""
	def __call__(self):
		return 'resolved'

	value = val = __wrapped__ = 'resolved'

	def resolve(self):
		return 'resolved'

	get = tobytes = to_pydatetime = item = isoformat = as_tuple = tolist = __array__ = resolve


class Digit(MyStr):
	__slots__ = ()

	def __repr__(self):
		return 'Digit(%s)' % str.__repr__(self)


class MyInt(int):
	pass


class Magic:
	"""Has every attribute one asks for."""
	def __getattr__(self, name):
		if name.startswith('__') and name.endswith('__') and name in ('__len__', '__iter__', '__index__'):
			raise AttributeError(name)
		return Magic()

	def __call__(self, *a, **k):
		return 'resolved'

	def __repr__(self):
		return 'Magic()'


class MagicTuple(tuple):
	def __getattr__(self, name):
		return Magic()

	def __repr__(self):
		return 'MagicTuple' + tuple.__repr__(self)


class TwistedTuple(tuple):
	"""A tuple whose comparisons and hash say nothing."""
	def __eq__(self, other):
		return True

	def __ne__(self, other):
		return False

	def __hash__(self):
		return 1


class OddStr(str):
	"""A string which prints as something else."""
	def __str__(self):
		return 'other'

	__repr__ = __str__

	def __format__(self, spec):
		return 'formatted'


@dataclasses.dataclass
class Record:
	x: int = 1
	value: str = 'v'


@dataclasses.dataclass(frozen=True)
class Frozen:
	items: tuple = (1, 2)


class Struct(ctypes.Structure):
	_fields_ = [('x', ctypes.c_int)]


class Slots:
	__slots__ = ('value',)

	def __init__(self):
		self.value = 1


class Sized:
	"""Falsy because it is empty."""
	def __len__(self):
		return 0


class Awaitable:
	def __await__(self):
		yield


class Manager:
	def __enter__(self):
		return 'entered'

	def __exit__(self, *a):
		return None


class Numeric:
	"""Converts to numbers, as those of numpy do."""
	def __int__(self):
		return 5

	__index__ = __int__

	def __float__(self):
		return 5.0

	def __bool__(self):
		raise ValueError("ambiguous")

	def __eq__(self, other):
		raise ValueError("ambiguous")

	__hash__ = None


SHARED = {'list': [1, 2], 'empty list': [], 'dict': {'a': 1}, 'object': object(), 'str': ''.join(['shared', ' value']), 'bytes': bytes([115, 104]), 'float': float('1.25'), 'set': {1}, 'bytearray': bytearray(b'x'),
	'magic': Magic(), 'record': Record()}
SHARED_TUPLES = {'tuple': ('p', [1]), 'named': Pair(1, [2]), 'empty': TupleSub()}


class MyBytes(bytes):
	pass


class MyDict(dict):
	pass


UTC = datetime.timezone.utc
OBJECTS = {
	'enum': lambda: Color.RED, 'enum of tuple': lambda: Color.TWO, 'int enum': lambda: Level.LOW, 'str enum': lambda: Text.A,
	'flag': lambda: Bits.A | Bits.B, 'datetime': lambda: datetime.datetime(2020, 10, 25, 2, 30, 1, 5),
	'datetime tz': lambda: datetime.datetime(2020, 10, 25, 2, 30, tzinfo=datetime.timezone(datetime.timedelta(hours=2))),
	'datetime utc': lambda: datetime.datetime(2020, 10, 25, 2, 30, tzinfo=UTC, fold=1), 'date': lambda: datetime.date(2020, 2, 29),
	'time': lambda: datetime.time(1, 2, 3, 4), 'time tz': lambda: datetime.time(1, 2, tzinfo=UTC), 'timedelta': lambda: datetime.timedelta(1, 2, 3),
	'decimal': lambda: decimal.Decimal('1.10'), 'decimal nan': lambda: decimal.Decimal('sNaN'), 'fraction': lambda: fractions.Fraction(1, 3),
	'uuid': lambda: uuid.UUID(int=5), 'path': lambda: pathlib.PurePosixPath('/x'), 'ip': lambda: ipaddress.ip_address('127.0.0.1'),
	'memoryview': lambda: memoryview(b'ab'), 'bytearray': lambda: bytearray(b'ab'), 'big int': lambda: 10 ** 40, 'int subclass': lambda: MyInt(5),
	'bytes subclass': lambda: MyBytes(b'ab'), 'dict subclass': lambda: MyDict(a=1), 'inf': lambda: float('inf'), 'complex': lambda: 1j,
	'range': lambda: range(3), 'slice': lambda: slice(1), 'ellipsis': lambda: Ellipsis, 'not implemented': lambda: NotImplemented,
	'type': lambda: int, 'function': lambda: (lambda: 1), 'partial': lambda: functools.partial(int, 1), 'method': lambda: 'a'.upper,
	'module': lambda: os, 'exception': lambda: KeyError('a'), 'pattern': lambda: re.compile('a'), 'match': lambda: re.match('a', 'a'),
	'stringio': lambda: io.StringIO('a'), 'bytesio': lambda: io.BytesIO(b'a'), 'sqlite binary': lambda: sqlite3.Binary(b'a'),
	'weakref': lambda: weakref.ref(Color), 'mock sql': lambda: DbNull(), 'lazy': lambda: Lazy(), 'object': lambda: object(),
	'bool': lambda: True, 'mapping proxy': lambda: types.MappingProxyType({}), 'generator': lambda: (x for x in 'ab'),
	'set': lambda: {1, 2}, 'surrogate': lambda: '\ud800', 'nul': lambda: 'a\0b', 'list of tuples': lambda: [(1, 2), (3, 4)],
	'namespace': lambda: types.SimpleNamespace(value=1), 'property': lambda: property(len), 'class with tuple': lambda: Typed,
	'minus zero': lambda: -0.0, 'struct_time class': lambda: time.struct_time,
	'long str': lambda: 'x' * 70000, 'longer str': lambda: ''.join(['ab'] * 600000), 'long bytes': lambda: bytes(70000), 'long list': lambda: [0] * 70000,
	'int 15': lambda: 1 << 15, 'int 16': lambda: -(1 << 16) - 1, 'int 31': lambda: 1 << 31, 'int 32': lambda: (1 << 32) + 1, 'int 53': lambda: (1 << 53) + 1, 'int 63': lambda: 1 << 63,
	'int 64': lambda: -(1 << 64), 'int 4000': lambda: 10 ** 4000, 'minus one': lambda: -1, 'float int': lambda: 2.0, 'float big': lambda: 1e300, 'float tiny': lambda: 5e-324,
	'minus inf': lambda: float('-inf'), 'tenth': lambda: 0.1, 'nul end': lambda: 'a\0', 'blank': lambda: ' ', 'blank end': lambda: 'a ', 'blank start': lambda: ' a',
	'line end': lambda: 'a\r\n', 'lone cr': lambda: 'a\rb', 'bom': lambda: '\ufeffa', 'decomposed': lambda: 'e\u0301', 'ligature': lambda: '\ufb01', 'quotes': lambda: "it's \"q\"",
	'null str': lambda: 'NULL', 'none str': lambda: 'None', 'true str': lambda: 'true', 'zero str': lambda: '0', 'number str': lambda: '007', 'float str': lambda: '1e5',
	'date str': lambda: '2020-01-01', 'time str': lambda: '12:34:56', 'percent': lambda: '100%', 'percents': lambda: '%%', 'backslash': lambda: 'a\\', 'like': lambda: 'a_%',
	'json str': lambda: '{"a": 1}', 'bytes nul': lambda: b'a\0', 'bytes utf8': lambda: b'\xc3\xa9', 'bytes high': lambda: b'\xff\xfe', 'emoji': lambda: '\U0001f600', 'tab': lambda: '\ta',
	'magic': lambda: Magic(), 'record': lambda: Record(), 'frozen record': lambda: Frozen(), 'record class': lambda: Record, 'struct': lambda: Struct(1), 'c int': lambda: ctypes.c_int(5), 'c array': lambda: (ctypes.c_char * 2)(),
	'slots': lambda: Slots(), 'sized': lambda: Sized(), 'awaitable': lambda: Awaitable(), 'manager': lambda: Manager(), 'numeric': lambda: Numeric(), 'http status': lambda: http.HTTPStatus.OK,
	'odd str': lambda: OddStr(':a'), 'default dict': lambda: collections.defaultdict(list), 'counter': lambda: collections.Counter('a'), 'ordered': lambda: collections.OrderedDict(a=1), 'proxy dict': lambda: types.MappingProxyType({'a': (1,)}),
	'list iterator': lambda: iter([1]), 'dict keys': lambda: {'a': 1}.keys(), 'zip': lambda: zip('a', 'b'), 'file': lambda: io.BufferedReader(io.BytesIO(b'a')), 'bound': lambda: [].append, 'class method': lambda: dict.fromkeys,
	'static': lambda: staticmethod(len), 'cached': lambda: functools.lru_cache(len), 'lambda two': lambda: (lambda a, b: a), 'generic': lambda: list[int], 'union': lambda: int | str, 'code': lambda: compile('1', 'x', 'eval'), 'cell': lambda: types.CellType(1),
	'context': lambda: decimal.Context(), 'time zone': lambda: UTC, 'ip net': lambda: ipaddress.ip_network('10.0.0.0/8'), 'template': lambda: string.Template('$a'), 'user string': lambda: collections.UserString(':a'), 'list of empty': lambda: [()],
	'dict of tuples': lambda: {'a': (1, 2)}, 'frozen set': lambda: frozenset((1,)), 'row': lambda: sqlite3.connect(':memory:').execute('SELECT 1 a').fetchall()[0][0], 'exception group': lambda: ValueError((1, 2)),
}
OBJECTS.update(('shared ' + k, (lambda v: lambda: v)(v)) for k, v in SHARED.items())
TUPLES = {
	'struct_time': (9, lambda: time.gmtime(5)), 'terminal_size': (2, lambda: os.terminal_size((3, 4))), 'typed': (2, lambda: Typed(1)),
	'tuple enum': (2, lambda: TupleEnum.AB), 'odd': (2, lambda: OddTuple(('x', None))), 'stat': (10, lambda: os.stat_result(range(10))),
	'decimal': (3, lambda: decimal.Decimal('1.5').as_tuple()), 'odd empty': (0, lambda: OddTuple()),
	'of none': (2, lambda: (None, None)), 'of lists': (2, lambda: ([1], [2, 3])),
	'of dicts': (1, lambda: ({'a': 1},)), 'of pairs': (2, lambda: ((1, 2), (3, 4))), 'of bytes': (2, lambda: (b'a', b'')), 'of bools': (3, lambda: (True, False, 1)),
	'of objects': (2, lambda: (object(), Lazy())), 'of one string': (1, lambda: ('abc',)), 'of floats': (2, lambda: (2.0, 2)), 'pair': (2, lambda: ('/*', '*/')),
	'datetime': (3, lambda: TupleSub(datetime.date(2020, 1, 1).isocalendar())),
	'magic': (2, lambda: MagicTuple(('x', 'y'))), 'magic one': (1, lambda: MagicTuple(('x',))), 'magic empty': (0, MagicTuple), 'twisted': (2, lambda: TwistedTuple((1, 2))), 'twisted empty': (0, TwistedTuple),
	'of magic': (2, lambda: (Magic(), Magic())), 'of records': (2, lambda: (Record(), Frozen())), 'of numerics': (2, lambda: (Numeric(), Numeric())), 'of odd strings': (2, lambda: (OddStr('a'), OddStr(':b'))),
	'of one none': (1, lambda: (None,)), 'of one empty': (1, lambda: ((),)), 'of one pair': (1, lambda: ((1, 2),)), 'of one record': (1, lambda: (Record(),)), 'of one dict': (1, lambda: ({},)), 'version': (5, lambda: tuple(sys.version_info)),
}
TUPLES.update(('shared ' + k, (len(v), (lambda v: lambda: v)(v))) for k, v in SHARED_TUPLES.items())


def build(d):
	"""Fresh object for descriptor *d*."""
	k = d[0]
	if k == 'i':
		return d[1]
	if k == 's':
		return ''.join(list(d[1]))
	if k == 'S':
		return MyStr(d[1])
	if k == 'n':
		return None
	if k == 'b':
		return bool(d[1])
	if k == 'f':
		return float(d[1])
	if k == 'y':
		return d[1].encode('latin1')
	if k == 'l':
		return [build(x) for x in d[1]]
	if k == 'ml':
		return MyList(build(x) for x in d[1])
	if k == 'd':
		return {x: build(y) for x, y in d[1]}
	if k == 't':
		return tuple(build(x) for x in d[1])
	if k == 'ts':
		return TupleSub(build(x) for x in d[1])
	if k == 'nt':
		return Pair(build(d[1][0]), build(d[1][1]))
	if k == 'st':
		return set(d[1])
	if k == 'r':
		return range(d[1])
	if k == 'o':
		return Opaque(d[1])
	if k == 'a':
		return Alike(d[1])
	if k == 'c':  # other collections, none of them a tuple
		return COLLECTIONS[d[1]](build(x) for x in d[2])
	if k == 'x':  # objects of all sorts of types
		return OBJECTS[d[1]]()
	if k == 'tx':  # instances of particular tuple types
		return TUPLES[d[1]][1]()
	if k == 'tr':  # one object several times
		return (build(d[2]),) * d[1]
	if k == 'T':  # long tuple of distinct values
		return tuple('v%d' % i for i in range(d[1]))
	raise ValueError(d)


def is_tuple(d):
	return d[0] in ('t', 'ts', 'nt', 'T', 'tr', 'tx')


def tuple_len(d):
	return d[1] if d[0] in ('T', 'tr') else TUPLES[d[1]][0] if d[0] == 'tx' else len(d[1])


class MinMapping(collections.abc.Mapping):
	"""Only what the Mapping ABC requires."""
	def __init__(self, items):
		self._k = [k for k, _ in items]
		self._v = [v for _, v in items]

	def __getitem__(self, key):
		for k, v in zip(self._k, self._v):
			if type(k) is type(key) and k == key:
				return v
		raise KeyError(key)

	def __iter__(self):
		return iter(list(self._k))

	def __len__(self):
		return len(self._k)


class MinSequence(collections.abc.Sequence):
	"""Only what the Sequence ABC requires."""
	def __init__(self, items):
		self._i = list(items)

	def __getitem__(self, i):
		return self._i[i]

	def __len__(self):
		return len(self._i)


class RegSequence:
	"""A registered sequence without any of the mixin methods, like sqlite3.Row."""
	def __init__(self, items):
		self._i = list(items)

	def __getitem__(self, i):
		return self._i[i]

	def __len__(self):
		return len(self._i)


collections.abc.Sequence.register(RegSequence)


def made_up():
	return 'a value which nobody gave'


class MissingDict(dict):
	"""Holds nothing, and makes the values up when they are asked for."""
	def __init__(self, items):
		super().__init__()
		self.made = dict(items)

	def __missing__(self, key):
		return self.made[key]


class TupleLike:
	"""Looks like a named tuple, but is no tuple."""
	_fields = ('x', 'y')

	def __init__(self, items):
		self._i = list(items)

	def __getitem__(self, i):
		return self._i[i]

	def __len__(self):
		return len(self._i)

	def __iter__(self):
		return iter(self._i)


class Wrapped:
	"""What a container of another sort keeps in place of a value."""
	def __init__(self, value):
		self.value = value

	def __repr__(self):
		return 'Wrapped'


class WrapDict(collections.UserDict):
	"""Keeps the values in another form, and hands them out as they were."""
	def __setitem__(self, key, value):
		self.data[key] = Wrapped(value)

	def __getitem__(self, key):
		return self.data[key].value


class WrapList(collections.UserList):
	"""Keeps the items in another form."""
	def __init__(self, items=()):
		self.data = [Wrapped(x) for x in items]

	def __getitem__(self, i):
		return [x.value for x in self.data[i]] if isinstance(i, slice) else self.data[i].value

	def __iter__(self):
		return iter([x.value for x in self.data])

	def __contains__(self, item):
		return item in list(self)


class LyingMapping(collections.abc.Mapping):
	"""A mapping with every attribute, all of which mislead."""
	def __init__(self, items):
		self._d = dict(items)

	def __getitem__(self, key):
		return self._d[key]

	def __iter__(self):
		return iter(self._d)

	def __len__(self):
		return len(self._d)

	def __getattr__(self, name):
		if name.startswith('__'):
			raise AttributeError(name)
		return {}


class OnceIter:
	"""An iterable which can be iterated a single time."""
	def __init__(self, items):
		self._items, self.used = list(items), 0

	def __iter__(self):
		self.used += 1
		if self.used > 1:
			raise RuntimeError("the rows were iterated twice")
		return iter(self._items)


def _shared_array(items):
	return array.array('i', [1] * len(list(items)))


COLLECTIONS = {
	'frozenset': lambda items: frozenset(id(x) for x in items),
	'deque': collections.deque,
	'userlist': collections.UserList,
	'min': MinSequence,
	'bytearray': lambda items: bytearray(len(list(items))),
	'memoryview': lambda items: memoryview(bytes(len(list(items)))),
	'array': _shared_array,
	'keys': lambda items: dict(enumerate(items)).keys(),
	'values': lambda items: dict(enumerate(items)).values(),
	'items': lambda items: dict(enumerate(items)).items(),
	'gen': lambda items: (x for x in list(items)),
	'iter': lambda items: iter(list(items)),
	'ordered': lambda items: collections.OrderedDict(enumerate(items)),
	'counter': lambda items: collections.Counter(str(i) for i, _ in enumerate(items)),
	'userdict': lambda items: collections.UserDict(enumerate(items)),
	'proxy': lambda items: types.MappingProxyType(dict(enumerate(items))),
	'userstr': lambda items: collections.UserString('x' * len(list(items))),
	'namespace': lambda items: types.SimpleNamespace(x=list(items)),
	'slots': lambda items: TupleLike(items),
	'slice': lambda items: slice(len(list(items))),
	'complex': lambda items: complex(0, len(list(items))),
	'type': lambda items: tuple,
}

# Sequences of particular types, for small whole numbers.
INT_SEQUENCES = {
	'array': lambda items: array.array('q', items), 'memoryview': lambda items: memoryview(array.array('q', items)), 'bytearray int': bytearray,
	'range': lambda items: range(items[0], items[0] + len(items)) if items else range(0), 'struct': lambda items: time.struct_time((list(items) + [0] * 9)[:9]),
}
MAPPINGS = ('dict', 'ordered', 'proxy', 'userdict', 'chain', 'min', 'defaultdict', 'wrap', 'lying')
SEQUENCES = ('list', 'tuple', 'userlist', 'deque', 'min', 'tuplesub', 'listsub', 'wrap', 'reg')
ITERABLES = ('list', 'tuple', 'gen', 'iter', 'deque', 'values', 'once', 'map', 'dict', 'chain', 'reversed', 'iterable')


def make_mapping(kind, items):
	items = list(items)
	if kind == 'dict':
		return dict(items)
	if kind == 'ordered':
		return collections.OrderedDict(items)
	if kind == 'proxy':
		return types.MappingProxyType(dict(items))
	if kind == 'userdict':
		return collections.UserDict(items)
	if kind == 'chain':
		h = len(items) // 2
		return collections.ChainMap(dict(items[:h]), dict(items[h:]))
	if kind == 'min':
		return MinMapping(items)
	if kind == 'wrap':
		return WrapDict(items)
	if kind == 'lying':
		return LyingMapping(items)
	if kind == 'missing':
		return MissingDict(items)
	if kind == 'factory':
		d = collections.defaultdict(made_up)
		d.update(items)
		return d
	if kind == 'defaultdict':
		d = collections.defaultdict(None)
		d.update(items)
		return d
	raise ValueError(kind)


def make_sequence(kind, items):
	items = list(items)
	return {
		'list': list, 'tuple': tuple, 'userlist': collections.UserList,
		'deque': collections.deque, 'min': MinSequence, 'tuplesub': TupleSub,
		'listsub': MyList, 'wrap': WrapList, 'reg': RegSequence,
	}[kind](items)


class Iterated:
	"""Iterable, and nothing else."""
	def __init__(self, items):
		self._items = items

	def __iter__(self):
		return iter(self._items)


class HashableMapping(collections.abc.Mapping):
	def __init__(self, data):
		self._data = data

	def __getitem__(self, key):
		return self._data[key]

	def __iter__(self):
		return iter(self._data)

	def __len__(self):
		return len(self._data)
	__eq__, __hash__ = object.__eq__, object.__hash__


class HashableSequence(collections.abc.Sequence):
	def __init__(self, data):
		self._data = data

	def __getitem__(self, index):
		return self._data[index]

	def __len__(self):
		return len(self._data)


def as_keys(items):
	"""A dict whose keys are the rows."""
	out = {}
	for x in items:
		if isinstance(x, collections.abc.Mapping):
			x = HashableMapping(x)
		elif isinstance(x, collections.abc.Sequence) and not isinstance(x, (str, bytes, bytearray)):
			x = HashableSequence(x)
		else:
			return items
		out[x] = None
	return out


def make_iterable(kind, items):
	items = list(items)
	if kind == 'list':
		return items
	if kind == 'tuple':
		return tuple(items)
	if kind == 'gen':
		return (x for x in items)
	if kind == 'iter':
		return iter(items)
	if kind == 'deque':
		return collections.deque(items)
	if kind == 'values':
		return dict(enumerate(items)).values()
	if kind == 'once':
		return OnceIter(items)
	if kind == 'map':
		return map(lambda x: x, items)
	if kind == 'dict':
		return as_keys(items)
	if kind == 'chain':
		return itertools.chain(items[:1], items[1:])
	if kind == 'reversed':
		return reversed(items[::-1])
	if kind == 'iterable':
		return Iterated(items)
	raise ValueError(kind)
