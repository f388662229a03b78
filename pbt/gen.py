"""
Generators shared by the properties. Every case is plain JSON data.

A structured query is a list of tokens
	["L", text]              literal text
	["P", ref]               a placeholder; ref = [name, quoted] / number / None
	["E"]                    an escaped lead character
rendered by sql_of().
"""
import builtins
import enum
import functools
import keyword
import random
import re

from .strat import st

from . import model
from . import values as V

# Separators next to placeholders: never a word character, never a marker.
SEPS = (' ', ' ', ',', '\n', '(', ')', '=', "'", '{', '}', '\\', ';', '-', '/', '*',
	'+', '[', ']', '\t', '|', '\r\n', '<', '>', '!', '#', '~', '.', '\0', '\u00a0', '"', '`')
FRAGMENTS = ('SELECT * FROM users WHERE name = ', ' AND age > ', ' IN ', ' OR ', 'x',
	'', '{}', '{0}', '{param}', '\\1', '\\g<0>', '\\n', "'it''s'", '-- note', '/* c */',
	'(?P<x>)'.replace('?', '!'), 'NULL', '(NULL)', '\u00e9\u4e2d', '\U0001f600', '\x85', '\u2028',
	'12', 'a_1', '_0', '__0_sqlp', 'INSERT INTO t VALUES ', "'abc'", '"quoted id"', ' \n\t ')
MARKERS = set(':$@%?')


@functools.lru_cache(None)
def clean_text(extra=''):
	alphabet = st.sampled_from('ab A1_ ,.()\n\t\'"{}\\-/*=<>;#[]+|!~^&`\u00e9\u00df\u4e2d' + extra)
	return st.one_of(
		st.sampled_from(FRAGMENTS), st.text(alphabet, max_size=8),
		st.text(st.characters(exclude_characters=':$@%?', exclude_categories=('Cs',)), max_size=4),
	)


seps = st.sampled_from(SEPS)


@functools.lru_cache(None)
def literal_pool(extra):
	"""Literals made in advance: one choice to draw instead of many."""
	rng = random.Random(20240801)
	alphabet = 'ab A1_ ,.()\n\t\'"{}\\-/*=<>;#[]+|!~^&`\u00e9\u00df\u4e2d' + extra * 4
	out = {' '}
	for _ in range(1500):
		if rng.random() < 0.5:
			text = rng.choice(FRAGMENTS)
		elif rng.random() < 0.85:
			text = ''.join(rng.choice(alphabet) for _ in range(rng.randrange(8)))
		else:
			text = ''.join(chr(rng.choice([rng.randrange(1, 256), rng.randrange(0x100, 0x3000), rng.randrange(0x10000, 0x10400)])) for _ in range(3))
			text = ''.join(c for c in text if c not in MARKERS)
		out.add(rng.choice(SEPS) + text + rng.choice(SEPS + ('',) * (0 if extra else len(SEPS))))
	return st.sampled_from(sorted(out, key=lambda x: (len(x), x)))


@functools.lru_cache(None)
@st.composite
def literal(draw, extra=''):
	"""Marker-free text (but for *extra*) which starts with a separator."""
	if draw(st.integers(0, 7)):
		return draw(literal_pool(extra))
	return draw(seps) + draw(clean_text(extra)) + (draw(seps) if extra or draw(st.booleans()) else '')


NAMES = ('a', 'b', 'ab', 'A', 'a_1', '_', '_1', '_0', '_1_0', '_0_0', 'name', 'Name', 'NAME',
	'self', 'param', 'params', 'class', 'x1', 'x10', 's', 'i', 'n0', 'sqlp', 'a__0', 'id', 'N1',
	'in_name', 'a\u00e9', 'b\u4e2d', 'names', 'escape', 'quote', 'out_percent', 'char', 'a1', 'a11', 'd', 'se\u00f1or', 'Ma\u00d1ana_\u00e9', 'd\u0434\u044f')
# Words which mean something to Python, to SQL, to drivers, or to the library.
WORDS = tuple(dict.fromkeys([w for w in keyword.kwlist + dir(builtins) if len(w) < 12 and w.isidentifier()] + (
	'null NULL true TRUE false FALSE none nil undefined nan inf default DEFAULT select SELECT from FROM where WHERE table order ORDER group by having limit '
	'offset values VALUES insert into update set SET delete drop join left right on as between like LIKE exists case when then end '
	'current_date CURRENT_TIMESTAMP sysdate rownum rowid user USER date DATE time timestamp interval text TEXT integer varchar char number returning do cast '
	'new NEW old OLD mi ss hh24 hh mm dd yyyy MON Y e E x X b B n N u U r p param params quote escape out_percent out_name in_name value values value0 '
	'sql self cls args kwargs kw key keys items get pop many one two rows row index start name style names count counter lookup char sqlp __ ___ __a _a __a__ __init__ '
	'__class__ __dict__ __len__ _0 _00 _01 _1 _10 _1_0 _0_1 __0 __1_sqlp a__0 a__sqlp a_sqlp sqlp_ _sqlp __sqlp A__0 p0 p1 P_1 param_0 param1 arg0 D s d f i c t '
	'l o int str float bool bytes int4 uuid jsonb regclass').split()))
ASCII_NAMES = tuple(n for n in NAMES if n.isascii())


@functools.lru_cache(None)
def names(ascii_only=False):
	pool = ASCII_NAMES if ascii_only else NAMES
	return st.one_of(
		st.sampled_from(pool), st.sampled_from(pool), st.sampled_from(WORDS),
		st.from_regex(r'[A-Za-z_][A-Za-z0-9_]{0,6}', fullmatch=True),
		st.builds(lambda c, n: c * n, st.sampled_from('aZ_'), st.integers(20, 130)),
	)


SCARY = (':a', '?', '%s', '%(a)s', '$1', '@a', ':1', '%', '%%', '::', '??', "'; DROP TABLE users;--",
	'"', "'", '\\', '\0', '', ' ', 'NULL', '(NULL)', '{}', '{param}', '\\g<1>', '--', '/*', '*/',
	'a', '1', '\u00e9', '\U0001f600', '(?,?)', '__0_sqlp')

scalars = st.one_of(
	st.builds(lambda n: ['i', n], st.integers(-5, 12)),
	st.builds(lambda s: ['s', s], st.sampled_from(SCARY)),
	st.builds(lambda s: ['s', s], st.text(st.characters(exclude_categories=('Cs',)), max_size=5)),
	st.sampled_from([['n'], ['b', 0], ['b', 1], ['f', '0.0'], ['f', '-0.0'], ['f', 'nan'], ['f', '1.0'],
		['y', ''], ['y', 'a?\xff'], ['S', ''], ['S', ':a']]),
	st.builds(lambda n: ['o', n], st.integers(0, 9)),
	st.builds(lambda n: ['a', n], st.integers(0, 9)),
)
others = st.builds(lambda k, x: ['c', k, x], st.sampled_from(sorted(V.COLLECTIONS)), st.lists(scalars, max_size=3))
lists = st.one_of(
	others,
	st.builds(lambda k, x: [k, x], st.sampled_from(['l', 'ml']), st.lists(scalars, max_size=3)),
	st.sampled_from([['d', []], ['d', [['a', ['i', 1]]]], ['st', []], ['st', [1, 2]], ['r', 0], ['r', 3],
		['l', []], ['l', [['t', []]]], ['l', [['t', [['i', 1], ['i', 2]]]]]]),
)
non_tuples = st.one_of(scalars, scalars, scalars, lists)
elements = st.one_of(scalars, scalars, lists,
	st.builds(lambda x: ['t', x], st.lists(scalars, max_size=2)))


@functools.lru_cache(None)
@st.composite
def tuples(draw, size=None):
	if size is None:
		size = draw(st.sampled_from([0, 1, 1, 2, 2, 3, 5, 11, 23]))
	if size > 5:
		return ['T', size]
	if size > 1 and draw(st.integers(0, 5)) == 0:
		return ['tr', size, draw(elements)]
	items = draw(st.lists(elements, min_size=size, max_size=size))
	kind = draw(st.sampled_from(['t', 't', 't', 'ts', 'nt']))
	if kind == 'nt' and size != 2:
		kind = 't'
	return [kind, items]


def pooled(full, make):
	"""*full*, or (mostly) one of many values made in advance."""
	rng = random.Random(4711)
	items = {}
	for _ in range(400):
		d = make(rng)
		items[repr(d)] = d
	pool = sorted(items.values(), key=lambda d: (len(repr(d)), repr(d)))
	some = st.sampled_from(pool)
	return st.one_of(some, some, some, full)


def make_scalar(rng):
	k = rng.randrange(10)
	if k > 7:
		return ['x', rng.choice(sorted(V.OBJECTS))]
	if k < 2:
		return ['i', rng.randrange(-5, 13)]
	if k < 5:
		return ['s', rng.choice(SCARY)]
	if k == 5:
		return rng.choice([['n'], ['b', 0], ['b', 1], ['f', '0.0'], ['f', '-0.0'], ['f', 'nan'], ['f', '1.0'],
			['y', ''], ['y', 'a?\xff'], ['S', ''], ['S', ':a']])
	return [rng.choice('oa'), rng.randrange(10)]


def make_list(rng):
	if rng.random() < 0.3:
		return ['c', rng.choice(sorted(V.COLLECTIONS)), [make_scalar(rng) for _ in range(rng.randrange(4))]]
	if rng.random() < 0.5:
		return [rng.choice(['l', 'ml']), [make_scalar(rng) for _ in range(rng.randrange(4))]]
	return rng.choice([['d', []], ['d', [['a', ['i', 1]]]], ['st', []], ['st', [1, 2]], ['r', 0], ['r', 3],
		['l', []], ['l', [['t', []]]], ['l', [['t', [['i', 1], ['i', 2]]]]]])


def make_tuple(rng):
	size = rng.choice([0, 1, 1, 2, 2, 3, 5, 11, 23])
	if size > 5:
		return ['T', size]
	if rng.random() < 0.1:
		return ['tx', rng.choice(sorted(V.TUPLES))]
	if size > 1 and rng.random() < 0.2:
		return ['tr', size, make_scalar(rng)]
	items = []
	for _ in range(size):
		k = rng.random()
		items.append(make_scalar(rng) if k < 0.6 else make_list(rng) if k < 0.8 else ['t', [make_scalar(rng) for _ in range(rng.randrange(3))]])
	return ['nt' if size == 2 and rng.random() < 0.2 else rng.choice(['t', 't', 't', 'ts']), items]


def make_non_tuple(rng):
	return make_scalar(rng) if rng.random() < 0.75 else make_list(rng)


non_tuples = pooled(non_tuples, make_non_tuple)
some_tuples = pooled(tuples(), make_tuple)
any_value = st.one_of(non_tuples, non_tuples, some_tuples)


@st.composite
def value_like(draw, desc, mixed=False):
	"""Another value of the same shape (tuple length, or not a tuple)."""
	if V.is_tuple(desc):
		return draw(tuples(V.tuple_len(desc)))
	return draw(non_tuples)


def any_case(draw, name):
	how = draw(st.integers(0, 3))
	return [name.lower(), name.upper(), name.swapcase(), name][how]


@st.composite
def queries(draw, in_style, values=any_value, extra='', max_tokens=9, min_ph=0, escapes=False,
	name_filter=None, scale=True, ascii_names=False, zeros=False):
	"""
	{"toks": [...], "params": [[key, value], ...] or [value, ...]}

	Every placeholder has a value. Named params: list of [key, desc] with
	distinct (canonical) keys; otherwise a list of descs.
	"""
	n_ph = draw(st.sampled_from([0, 1, 1, 2, 2, 3, 3, 4, 5, 7, 12]))
	if scale and draw(st.integers(0, 19)) == 0:
		n_ph = draw(st.sampled_from([20, 33, 64]))
	n_ph = max(n_ph, min_ph)
	toks = []
	big = n_ph > 12
	lits = [draw(literal(extra)) for _ in range(2)] if big else None

	def lit():
		if big:
			toks.append(['L', lits[len(toks) % 2]])
			return
		toks.append(['L', draw(literal(extra))])
		if escapes and draw(st.booleans()):
			toks.append(['E'])
			toks.append(['L', draw(literal(extra))])

	if in_style in model.NAMED:
		oracle = in_style == 'named_oracle'
		ns = names(ascii_only=ascii_names)
		if name_filter:
			ns = ns.filter(name_filter)
		distinct = draw(st.lists(ns, min_size=1, max_size=max(2, min(n_ph, 6)) if not big else 14, unique=True))
		if oracle:
			# Canonical names: either all upper case (may be spelled unquoted), or quoted.
			distinct = list(dict.fromkeys(n.upper() if draw(st.booleans()) else n for n in distinct))
		related = draw(st.sampled_from([0, 0, 0, 0, 0, 1, 2, 3]))
		if related:
			# A dense set of names which are easily mixed up.
			some = distinct[:2]
			if related == 1:
				more = [x for n in some for x in (n.swapcase(), n.upper(), n.lower())]
			elif related == 2:
				more = [n + x for n in some for x in draw(st.sampled_from([('_0', '_1', '__0'), ('0', '1', '10'), ('_', '__', '_s')]))]
			else:
				stem = some[0] + draw(st.sampled_from(['x', '_', '1', 'Z'])) * draw(st.integers(15, 140))
				some, more = [stem + '1'], [stem + '2', stem + '12']
				if oracle and draw(st.booleans()):
					some, more = [n.upper() for n in some], [n.upper() for n in more]
			distinct = [x for x in dict.fromkeys(some + more) if model.read_name(x, 0) == len(x) and (not name_filter or name_filter(x))] or distinct
		params, refs = [], []
		for n in distinct:
			if oracle:
				free = n == n.upper()
				key = any_case(draw, n) if free and draw(st.booleans()) else '"%s"' % n
			else:
				key = n
			params.append([key, draw(values)])
		for _ in range(n_ph):
			n = draw(st.sampled_from(distinct))
			if oracle:
				if n == n.upper() and draw(st.booleans()):
					refs.append([any_case(draw, n), False])
				else:
					refs.append([n, True])
			else:
				refs.append([n, False])
	elif in_style in model.NUMERIC:
		size = draw(st.integers(1, max(2, n_ph + 2)))
		if big:
			size = draw(st.sampled_from([9, 10, 11, 25, 101, 1203]))
		params = many(draw, values, size)
		refs = [draw(st.one_of(st.integers(1, size), st.integers(max(1, size - 9), size))) for _ in range(n_ph)]
	else:
		params = many(draw, values, n_ph + draw(st.sampled_from([0, 0, 0, 1])))
		refs = [None] * n_ph

	lit()
	for r in refs:
		toks.append(['P', r])
		lit()
	if zeros and in_style in model.NUMERIC and draw(st.integers(0, 7)) == 0:
		toks = with_zeros(toks, in_style, draw(st.integers(0, 6)))
	return {'toks': toks, 'params': params}


def many(draw, values, size):
	"""*size* values; a few drawn ones repeated with distinct fillers when long."""
	if size <= 8:
		return [draw(values) for _ in range(size)]
	head = [draw(values) for _ in range(5)]
	out = []
	for i in range(size):
		out.append(head[i % 7] if i % 7 < 5 else ['s', 'v%d' % i])
	return out


def rows_like(draw, in_style, params, n):
	"""*n* further parameter sets of the same shape as *params*."""
	out = []
	for _ in range(n):
		if in_style in model.NAMED:
			out.append([[k, draw(value_like(d))] for k, d in params])
		elif len(params) > 8:
			cache = {}
			row = []
			for d in params:
				key = repr(d)[:3] + str(V.tuple_len(d) if V.is_tuple(d) else '')
				if key not in cache:
					cache[key] = draw(value_like(d))
				row.append(cache[key])
			out.append(row)
		else:
			out.append([draw(value_like(d)) for d in params])
	return out


def sql_of(toks, style, esc=None):
	out = []
	for t in toks:
		if t[0] == 'L':
			out.append(t[1])
		elif t[0] == 'E':
			out.append(model.resolve_esc(style, esc) + model.LEAD[style])
		else:
			r = t[1]
			if style in model.NAMED:
				out.append(model.write_placeholder(style, r[0], r[1]))
			elif style in model.NUMERIC:
				out.append(model.write_placeholder(style, t[2] if len(t) > 2 else str(r)))
			else:
				out.append(model.write_placeholder(style, None))
	return ''.join(out)


def with_zeros(toks, style, n):
	"""The same with some numbers spelled with leading zeros."""
	if style not in model.NUMERIC:
		return toks
	out = []
	for t in toks:
		if t[0] == 'P':
			n += 1
			t = [t[0], t[1], '0' * (0, 1, 2, 0, 3, 1, 7)[n % 7] + str(t[1])]
		out.append(t)
	return out


def build_params(style, params):
	"""Plain dict (named) or list of fresh objects: what the model takes."""
	if style in model.NAMED:
		return {k: V.build(d) for k, d in params}
	return [V.build(d) for d in params]


# Containers: how the values are handed to the library.
@functools.lru_cache(None)
def containers(style):
	if style in model.NAMED:
		return st.sampled_from(V.MAPPINGS)
	return st.one_of(
		st.sampled_from(V.SEQUENCES),
		st.builds(lambda k, f: f + ':' + k, st.sampled_from(V.MAPPINGS), st.sampled_from(['int', 'str', 'mix'])),
	)


def contain(style, kind, plain):
	"""Put the plain params into a container of the given kind."""
	if style in model.NAMED:
		if ':' in kind:
			return V.make_mapping(kind.split(':')[1], [(V.MyStr(k), v) for k, v in plain.items()])
		return V.make_mapping(kind, plain.items())
	if kind in V.INT_SEQUENCES:
		return V.INT_SEQUENCES[kind](plain)
	if ':' in kind:
		form, kind = kind.split(':')
		start = 1 if style in model.NUMERIC else 0
		items = []
		for i, v in enumerate(plain):
			key = i + start
			if form == 'str' or (form == 'mix' and i % 2):
				key = str(key)
			elif form == 'bytes':
				key = b'%d' % key
			elif form == 'intsub':
				key = bool(key) if key < 2 and len(plain) % 2 else V.MyInt(key)
			elif form == 'enum':
				key = enum.IntEnum('Key', {'K': key}).K
			elif form == 'strsub':
				key = V.MyStr(key) if i % 2 else V.Digit(str(key))
			elif form == 'bytessub':
				key = V.MyBytes(b'%d' % key)
			items.append((key, v))
		return V.make_mapping(kind, items)
	return V.make_sequence(kind, plain)


styles = st.sampled_from(model.STYLES)
RESERVED = re.compile(r'__[0-9]+_sqlp\Z', re.I)


def no_reserved(name):
	"""Not a name which tuple expansion itself generates (known finding)."""
	return RESERVED.search(name) is None


def make(lib, c, **over):
	kw = dict(escape_char=c.get('esc'), expand_tuples=c.get('exp'),
		strip_comments=c.get('strip'), allow_out_quotes=c.get('oq'))
	kw.update(over)
	return lib.SQLParams(c['in'], c['out'], **kw)
