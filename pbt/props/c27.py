"""C27: conversion time stays moderate."""
import collections.abc
import itertools
import re
import signal

from ..strat import st

from .. import gen, grid, model
from ..core import Violation

EXAMPLES = {'quick': 3200, 'thorough': 60000}
LIMIT = 10.0
RULE = ("(a) for every in-style and twelve configurations, one to three pieces (lead characters, halves of placeholders and comments, quotes, escape sequences, blanks, line ends, letters, digits) repeated 60 to 2500 times, with other pieces before and behind, "
	"(b) large numbers of parameters, tuple elements, rows, unused parameters and repeated placeholders for every pair of kinds of styles, and (c) random nestings of repeated pieces; each has to end within %g s of processor time (it takes milliseconds), in a result or a LookupError; "
	"non-trivial = a query of at least 1000 characters, or 1000 values" % LIMIT)
ASSUMPTIONS = ('sizes are such that quadratic time passes: the bound tells apart what is polynomial of low degree from what is not',)


class TimeUp(BaseException):
	pass


class Anything(collections.abc.Mapping):
	"""Has every name and number."""
	def __init__(self, value):
		self._value = value

	def __getitem__(self, k):
		return self._value

	def __iter__(self):
		return iter(('a', 'A', '1'))

	def __len__(self):
		return 3

	def __contains__(self, k):
		return True


class Endless(collections.abc.Sequence):
	def __init__(self, value):
		self._value = value

	def __getitem__(self, k):
		return self._value

	def __len__(self):
		return 1 << 30


# (out-style, options); STRIP: several comment styles.
STRIP = ['#', '--', ['(*', '*)'], ['/*', '*/']]
SETTINGS = (
	('qmark', {}), ('format', {}), ('named_oracle', {'oq': True}), ('qmark', {'esc': True}), ('pyformat', {'esc': True, 'strip': True}), ('numeric', {'strip': True}), ('named', {'strip': STRIP}),
	('numeric_dollar', {'esc': '\\', 'strip': STRIP}), ('named_dollar', {'esc': 'aa'}), ('format', {'esc': '%', 'exp': True}), ('named', {'esc': '::', 'exp': True}), ('named_sqlserver', {'strip': [['a', 'a'], '  ']}),
)


def pieces(i):
	lead = model.LEAD[i]
	whole = {'pyformat': '%(a)s', 'format': '%s', 'qmark': '?', 'numeric': ':1', 'numeric_dollar': '$1', 'named_oracle': ':"a"'}.get(i, lead + 'a')
	return [lead, whole, lead + '(', lead + 'a' if i in model.NAMED else lead + '1', '"', "'", ')', 's', 'a', '_', '1', '0', ' ', '\t', '\n', '\r\n', '--', '/*', '*/', '*', '/', '#', '\\', '%', '%%', ',', '\u00e9', '-', '(*', '*)', 'a ', ' a', '\n ', '/*\n', '--\n', whole + ' ', lead + ' ', lead + '"', lead + '\\']


def enumerate_cases(tier):
	n = grid.N(0)
	for i in model.STYLES:
		parts = pieces(i)
		for a in parts:
			for o, options in SETTINGS:
				n += 1
				yield {'in': i, 'out': o, **options, 'parts': [[a, 2500]]}
				yield {'in': i, 'out': o, **options, 'parts': [[parts[n % len(parts)], 1], [a, 2500], [parts[n // 50 % len(parts)], 1]]}
		for a, b in itertools.permutations(parts, 2):
			for k in range(1 if tier == 'quick' else 4):
				n += 1
				o, options = SETTINGS[n % len(SETTINGS)]
				yield {'in': i, 'out': o, **options, 'parts': [[a + b, 1200], [parts[n // 20 % len(parts)], 1]] if n // 7 % 2 else [[a, 1200], [b, 1200]]}
				o, options = SETTINGS[n // 12 % len(SETTINGS)]
				yield {'in': i, 'out': o, **options, 'parts': [[a, 1], [b, 1200], [parts[n // 300 % len(parts)], n // 3 % 2]]}
	for size in (3000, 20000):
		for i, o in itertools.product(model.STYLES, repeat=2):
			for what in ('parameters', 'repeated', 'unused', 'tuple', 'rows', 'name', 'tuples'):
				slow = i == 'named_oracle' and what in ('parameters', 'unused')  # looks through all keys
				if not (size > 3000 and slow):
					n += 1
					yield {'in': i, 'out': o, 'exp': (None, True)[n % 2] if what not in ('tuple', 'tuples') else True, 'what': what, 'size': 1000 if slow else size}


@st.composite
def cases(draw, tier):
	i = draw(gen.styles)
	o, options = draw(st.sampled_from(SETTINGS))
	parts = st.sampled_from(pieces(i))
	unit = st.lists(parts, min_size=1, max_size=4).map(''.join)
	many = st.builds(lambda u, k: [u, k], unit, st.sampled_from([1, 1, 2, 60, 400, 1000]))
	return dict({'in': i, 'out': draw(st.sampled_from([o, draw(gen.styles)])), 'parts': draw(st.lists(many, min_size=1, max_size=4)), 'repeat': draw(st.sampled_from([1, 1, 2, 8]))}, **options)


def build(c):
	"""(query, parameters, number of rows)"""
	i = c['in']
	if 'parts' in c:
		text = ''.join(u * k for u, k in c['parts']) * c.get('repeat', 1)
		value = ('x', 'y') if c.get('exp') else 'x'
		return text[:20000], Anything(value) if i in model.NAMED else Endless(value), 1
	size, what = c['size'], c['what']
	number = {'parameters': size, 'tuples': size // 3, 'name': 1}.get(what, 2)
	if i == 'named_oracle' and what == 'tuples':
		number = 300
	values = [tuple(range(size)) if what == 'tuple' and k == 0 else (1, 2, 3) if what == 'tuples' else k for k in range(number)]
	if i in model.NAMED:
		stem = 'N' * (size if what == 'name' else 1)
		params = {'%s%d' % (stem, k): v for k, v in enumerate(values)}
		marks = [gen.sql_of([['P', [k, False]]], i) for k in params]
	else:
		params = values
		marks = [gen.sql_of([['P', k + 1 if i in model.NUMERIC else None]], i) for k in range(number)]
	if what == 'repeated':
		marks = marks * (size // 2)
		if i in model.ORDINAL:
			params = values * (size // 2)
	elif what == 'unused':
		if i in model.NAMED:
			params.update(('U%d' % k, k) for k in range(size))
		else:
			params = params + list(range(size))
	return ' '.join(marks) + ' ', params, size if what == 'rows' else 1


def time_up(*_):
	raise TimeUp()


def check(c, ctx):
	sql, params, rows = build(c)
	q = gen.make(ctx.lib, c)
	what = '%s->%s with %s, a query of %d characters like %s and %d rows' % (c['in'], c['out'], {k: v for k, v in c.items() if k in ('esc', 'exp', 'strip', 'oq', 'parts', 'repeat', 'what', 'size')}, len(sql), ascii(sql[:60]), rows)
	for name, fn, given in (('format', q.format, params), ('formatmany', q.formatmany, [params] * rows)):
		before = signal.signal(signal.SIGVTALRM, time_up)
		signal.setitimer(signal.ITIMER_VIRTUAL, LIMIT, 1)
		try:
			try:
				fn(sql, given)
			finally:
				signal.setitimer(signal.ITIMER_VIRTUAL, 0)
				signal.signal(signal.SIGVTALRM, before)
		except TimeUp:
			raise Violation('%s: %s did not end within %g s of processor time' % (what, name, LIMIT)) from None
		except LookupError:
			ctx.label('missing parameter')
		except Exception as e:
			if isinstance(e, ValueError) and re.search('[0-9]{4000}', sql):
				ctx.label('number of more than 4000 digits')  # Python's limit for int()
				continue
			raise Violation('%s: %s raised %s' % (what, name, type(e).__name__)) from None
	ctx.interesting(len(sql) >= 1000 or c.get('size', 0) >= 1000)
	ctx.label('strip' if c.get('strip') else 'escape' if c.get('esc') else 'plain')
