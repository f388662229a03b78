"""
Bounded-exhaustive grids of small cases, shared by several properties. They make sure that every pair of styles (hence each converter) meets
every kind of value, every pair of names which are easily mixed up, and every pattern of repetition.
"""
import itertools

from . import gen, model
from . import values as V

S, T0, T1, T2, T3 = ['s', 'vv'], ['t', []], ['t', [['s', 'vv']]], ['t', [['s', 'vv'], ['s', 'ww']]], ['t', [['s', 'vv'], ['s', 'ww'], ['n']]]
T12 = ['T', 12]

NAMES = ('a', 'A', 'b', 'aa', 'ab', 'a_', '_a', 'a__', 'a0', 'a1', 'a11', 'a_0', 'a_1', 'a_1_0', 'a__0', 'a__1', 'a__0__1', 'a_0_sqlp', 'A_0', 'a__0_sqlp_', '_', '_1', '_0', '_1_0', '_0_0')
NUMBERS = (1, 2, 3, 10, 11, 12, 20, 21, 100, 101, 110, 111)

KINDS = [
	['n'], ['b', 0], ['b', 1], ['i', 0], ['i', 7], ['f', '0.0'], ['f', 'nan'], ['s', ''], ['s', 'ab'], ['s', ':a'], ['S', ''], ['S', 'ab'], ['y', ''],
	['y', 'ab'], ['o', 1], ['a', 1], ['l', []], ['l', [S, S]], ['ml', [S]], ['d', []], ['d', [['a', S]]], ['st', []], ['st', [1, 2]], ['r', 0], ['r', 3],
	T0, T1, T2, T3, T12, ['T', 101], ['tr', 3, ['n']], ['ts', []], ['ts', [S, S]], ['nt', [S, ['n']]], ['t', [T2, T0]], ['t', [T0]], ['t', [['l', []]]],
	['t', [['n']]], ['t', [['b', 0], ['i', 0]]], ['t', [['s', 'abc']]], ['t', [T2]], ['t', [T1]], ['t', [['t', [T1]]]], ['t', [['l', [T2]]]], ['t', [['d', []]]], ['t', [T2, T2]], ['t', [T1, T1]], ['ts', [T2]], ['ts', [T1]], ['tr', 2, T2], ['tr', 2, ['l', []]],
] + [['c', k, x] for k in sorted(V.COLLECTIONS) for x in ([], [S, S])] + [['x', k] for k in V.OBJECTS] + [['tx', k] for k in V.TUPLES]


class N(int):
	"""
	A counter whose remainders look random: as the cases of a grid take their options from the remainders of one counter, those of a plain
	number would never meet in some combinations.
	"""
	def __add__(self, other):
		return N(int(self) + other)

	def __floordiv__(self, k):
		return N(scramble(int(self), k) >> 8)

	def __mod__(self, k):
		return (scramble(int(self), k + 1000) >> 20) % k


def scramble(n, salt):
	x = (n * 0x9E3779B97F4A7C15 + salt * 0xBF58476D1CE4E5B9 + 0x94D049BB133111EB) & 0xFFFFFFFFFFFFFFFF
	x = ((x ^ (x >> 31)) * 0xD6E8FEB86659FD93) & 0xFFFFFFFFFFFFFFFF
	return x ^ (x >> 32)


def numbered(cases):
	"""enumerate(), with such a counter."""
	return ((N(k), c) for k, c in enumerate(cases))


def key_of(style, name, n=0):
	"""A key for the canonical *name*."""
	if style != 'named_oracle':
		return name
	if respellable(name) and n % 2 == 0:
		return name.lower() if n % 4 else name
	return '"%s"' % name


def respellable(name):
	return name == name.upper() == name.lower().upper()


def ref_of(style, name, n=0):
	if style != 'named_oracle':
		return [name, False]
	if respellable(name) and n % 2 == 0:
		return [name if n % 4 else name.lower(), False]
	return [name, True]


def toks_of(refs):
	toks = [['L', 'x ']]
	for r in refs:
		toks += [['P', r], ['L', ' ']]
	return toks


def query(style, pattern, values, n=0):
	"""A query whose placeholders refer to *values* by the indexes in *pattern*."""
	if style in model.NAMED:
		names = ['ABCDEF'[k] if style == 'named_oracle' else 'abcdef'[k] for k in range(len(values))]
		return {'toks': toks_of([ref_of(style, names[k], n + j) for j, k in enumerate(pattern)]),
			'params': [[key_of(style, name, n), v] for name, v in zip(names, values)]}
	if style in model.NUMERIC:
		return {'toks': toks_of([k + 1 for k in pattern]), 'params': list(values)}
	return {'toks': toks_of([None] * len(pattern)), 'params': [values[k] for k in pattern]}


def box_of(style, n):
	if style in model.NAMED:
		return V.MAPPINGS[n % len(V.MAPPINGS)]
	kinds = V.SEQUENCES + tuple('%s:%s' % (f, k) for f in ('int', 'str', 'mix', 'bytes') for k in V.MAPPINGS)
	return kinds[n % len(kinds)]


def pairs_of_names(outs, exps):
	"""Two parameters with related names, in both orders, with several shapes."""
	shapes = ((S, S), (T2, S), (S, T2), (T2, T2), (T12, T2), (T1, T12))
	n = N(0)
	for a, b in itertools.combinations(NAMES, 2):
		for i in model.NAMED:
			for va, vb in shapes:
				for o in outs:
					for exp in exps:
						n += 1
						for order in ((a, b, a), (b, a, b)):
							yield {'in': i, 'out': o, 'exp': exp, 'oq': n % 2 == 0, 'box': 'dict', 'q': {
								'toks': toks_of([ref_of(i, x, n // 2 + j) for j, x in enumerate(order)]),
								'params': [[key_of(i, a, n // 3), va], [key_of(i, b, n // 5), vb]]}}


def pairs_of_numbers(outs, exps):
	shapes = ((S, S), (T2, S), (S, T2), (T2, T2), (T12, T2), (T2, T12))
	n = N(0)
	for a, b in itertools.combinations(NUMBERS, 2):
		for i in model.NUMERIC:
			for va, vb in shapes:
				params = [['i', k] for k in range(b)]
				params[a - 1], params[b - 1] = va, vb
				for o in outs:
					for exp in exps:
						n += 1
						for order in ((a, b, a), (b, a, b)):
							yield {'in': i, 'out': o, 'exp': exp, 'oq': n % 2 == 0, 'box': 'list' if n % 3 else 'str:dict', 'q': {
								'toks': toks_of(list(order)), 'params': params}}


def zeros(outs=model.STYLES, exps=(None, True)):
	"""Numbers with leading zeros, beside others with the same digits."""
	n = N(0)
	for a, b in ((1, 10), (1, 2), (2, 20), (10, 100), (1, 100), (7, 8), (8, 9), (10, 11), (12, 21), (101, 110)):
		for spell in (('0%d', '%d', '%d'), ('%d', '0%d', '%d'), ('00%d', '0%d', '0%d'), ('%03d', '%d', '%03d'), ('%010d', '%05d', '0%d'), ('%0300d', '0%d', '%d'), ('%02d', '%02d', '%02d'), ('%d', '%04d', '0%d')):
			for va, vb in ((S, S), (T2, S), (S, T2), (T12, T2)):
				for i in model.NUMERIC:
					for o in outs:
						for exp in exps:
							n += 1
							params = [['i', k] for k in range(b)]
							params[a - 1], params[b - 1] = va, vb
							order = ((a, b, a), (b, a, b), (a, a, b))[n % 3]
							toks = [['L', 'x ']]
							for k, form in zip(order, spell):
								toks += [['P', k, form % k], ['L', ' ']]
							yield {'in': i, 'out': o, 'exp': exp, 'oq': False, 'box': box_of(i, n), 'q': {'toks': toks, 'params': params}}


BIG = ((1001, 2001), (1000, 1001), (999, 1999), (100, 1100), (256, 512), (1023, 1024), (1024, 2048), (2001, 12001), (4095, 4096), (1, 10001), (10001, 11001), (255, 257), (1, 257))


def big_numbers(outs=model.STYLES, exps=(None, True)):
	"""Parameters with large numbers."""
	n = N(0)
	for a, b in BIG:
		for va, vb in ((S, S), (T2, S), (T2, T2)):
			for o in outs:
				for exp in exps:
					n += 1
					params = [['i', 1]] * b
					params[a - 1], params[b - 1] = va, vb
					order = ((a, b, a), (b, a, b))[n % 2]
					yield {'in': model.NUMERIC[n % 2], 'out': o, 'exp': exp, 'oq': n % 4 == 0, 'box': 'list' if n % 5 else 'str:dict', 'q': {'toks': toks_of(list(order)), 'params': params}}


def ordinals(outs, exps):
	"""Tuples at particular positions among ordinal placeholders."""
	for size in (2, 3, 10, 11, 12, 13):
		for at in itertools.combinations(sorted({0, 1, 2, 9, 10, 11, size - 1}), 2):
			if at[1] >= size:
				continue
			for va, vb in ((T2, S), (S, T2), (T2, T2), (T12, T3), (T0, T1), (T1, T0)):
				params = [['i', k] for k in range(size)]
				params[at[0]], params[at[1]] = va, vb
				for i in model.ORDINAL:
					for o in outs:
						for exp in exps:
							yield {'in': i, 'out': o, 'exp': exp, 'oq': size % 2 == 0, 'box': 'list' if size % 3 else 'int:dict', 'q': {
								'toks': toks_of([None] * size), 'params': params}}


def patterns(ins=model.STYLES, outs=model.STYLES, exps=(None, True, False), shapes=(S, T0, T1, T2)):
	"""Every pair of styles, with two parameters of every shape in several patterns."""
	n = N(0)
	for pattern in ((0,), (0, 0), (0, 1), (0, 1, 0), (1, 0, 0, 1), (1, 0, 1, 1, 0)):
		for values in itertools.product(shapes, repeat=max(pattern) + 1):
			for i in ins:
				for o in outs:
					for exp in exps:
						n += 1
						yield {'in': i, 'out': o, 'exp': exp, 'oq': n % 2 == 0, 'box': box_of(i, n // 2), 'q': query(i, pattern, values, n)}


def kinds(exps=(None, True, False)):
	"""Every pair of styles with every kind of value, alone and between others."""
	n = N(0)
	for d in KINDS:
		for i in model.STYLES:
			for o in model.STYLES:
				for exp in exps:
					n += 1
					pattern, values = (((0,), [d]), ((0, 1, 0), [d, S]), ((1, 0, 2), [d, T2, S]))[n % 3]
					yield {'in': i, 'out': o, 'exp': exp, 'oq': n % 2 == 0, 'box': box_of(i, n // 3), 'q': query(i, pattern, values, n)}


def shape_like(d, n):
	"""Another value of the shape of *d*."""
	if V.is_tuple(d):
		return ['t', [[['i', n], ['n'], ['l', []], ['a', n]][(n + k) % 4] for k in range(V.tuple_len(d))]]
	return [['i', n], ['n'], ['s', ''], ['l', [['i', n]]], ['b', 0], ['c', 'frozenset', [S]]][n % 6]


def rows(q, style, count):
	out = [q['params']]
	for r in range(1, count):
		if style in model.NAMED:
			out.append([[k, shape_like(d, r + j)] for j, (k, d) in enumerate(q['params'])])
		else:
			out.append([shape_like(d, r + j) for j, d in enumerate(q['params'])])
	return out


def large(outs, sizes=(300, 2500)):
	"""Long queries, with one long tuple."""
	for size in sizes:
		order = sorted(range(size), key=lambda k: (k * 7919) % size)
		for i in model.STYLES:
			values = [['i', k] for k in range(size)]
			values[size // 2] = ['T', 1001]
			if i in model.NAMED:
				q = {'toks': toks_of([ref_of(i, 'N%d' % k, k) for k in order]), 'params': [[key_of(i, 'N%d' % k, k), v] for k, v in enumerate(values)]}
			elif i in model.NUMERIC:
				q = {'toks': toks_of([k + 1 for k in order]), 'params': values}
			else:
				q = {'toks': toks_of([None] * size), 'params': values}
			if i == 'named_oracle' and size > 300:
				q['toks'] = q['toks'][:601]  # the library looks through all keys
				q['params'] = [p for p in q['params'] if model.oracle_key(p[0]) in {'N%d' % k for k in order[:300]}]
			for o in outs:
				for exp in (None, True):
					yield {'in': i, 'out': o, 'exp': exp, 'oq': False, 'box': 'dict' if i in model.NAMED else 'list', 'q': q}


GROUPS = (('named', 'pyformat', 'named_oracle', 'named_dollar', 'named_sqlserver'), ('numeric', 'numeric_dollar'), ('qmark', 'format'))


def kind_pairs(n):
	"""The nine pairs of kinds of styles, with members which change with n."""
	n = N(n * 9)
	for a in GROUPS:
		for b in GROUPS:
			n += 1
			yield a[n % len(a)], b[n // 2 % len(b)]


def pair_of_kinds(n):
	"""One of the nine pairs of kinds."""
	a, b = GROUPS[n % 3], GROUPS[n // 3 % 3]
	n = N(n)
	return a[n // 9 % len(a)], b[n // 18 % len(b)]


def lengths(limit=270, huge=(999, 1000, 1001, 1024, 2100, 32768, 70000)):
	"""Tuples of every length up to the limit, beside a scalar."""
	for size in tuple(range(limit)) + huge:
		for i, o in kind_pairs(size):
			yield {'in': i, 'out': o, 'exp': True, 'oq': False, 'box': box_of(i, 0), 'q': query(i, (0, 1), [['T', size], S], size)}


def crowds(sizes=(9, 10, 17, 33, 65, 101, 129, 257, 513, 1001)):
	"""One or two parameters which the query uses, among many which it does not use."""
	n = N(0)
	for size in sizes:
		for i, o in kind_pairs(size):
			for v in (S, T0, T1, T2):
				for other in (S, T2):
					for at in ('first', 'middle', 'last'):
						n += 1
						k = {'first': 0, 'middle': size // 2, 'last': size - 1}[at]
						if i in model.ORDINAL:
							toks, k = [None], 0
						elif i in model.NUMERIC:
							toks = [k + 1]
						else:
							toks = [ref_of(i, 'N%d' % k, n)]
						values = [v if j == k else other for j in range(size)]
						if i in model.NAMED:
							values = [[key_of(i, 'N%d' % j, n), x] for j, x in enumerate(values)]
						yield {'in': i, 'out': o, 'exp': True, 'oq': n % 2 == 0, 'box': box_of(i, n), 'q': {'toks': toks_of(toks * (1 + n % 3 // 2) if i not in model.ORDINAL else toks), 'params': values}}


def far(sizes=(255, 256, 1000, 1023, 4096, 10001, 32767, 65535, 65537, 100001, 300000)):
	"""Placeholders after and between long texts."""
	n = N(0)
	for size in sizes:
		for i, o in kind_pairs(size):
			for where in (0, 1, 2):
				n += 1
				pattern = (11, 0, 11, 5)
				values = [T2 if k == 5 else ['s', 'v%d' % k] for k in range(12)]
				q = query(i, (0, 1, 0, 5) + (2, 3, 4, 6, 7, 8, 9, 10, 11) * (i in model.ORDINAL), values[:6] if i in model.NAMED else values, n)
				if i in model.NUMERIC:
					q['toks'] = toks_of([k + 1 for k in pattern])
				q['toks'][2 * where] = ['L', ' x ' + ('a b, ' * size)[:size] + ' ']
				yield {'in': i, 'out': o, 'exp': (None, True)[n % 2], 'oq': False, 'box': box_of(i, n), 'q': q}


def counts(limit=270, huge=(999, 1000, 1001, 1024, 2101, 10001, 66000)):
	"""Queries with every number of placeholders up to the limit."""
	for size in tuple(range(1, limit)) + huge:
		pairs = list(kind_pairs(size))
		if size >= limit:
			# Every style as the one and as the other.
			pairs += [(model.STYLES[(k + size) % 9], o) for k, o in enumerate(model.STYLES)]
		for i, o in pairs:
			if i == 'named_oracle' and size > 2101:
				i = 'pyformat'  # the library looks through all keys
			values = [['i', k] for k in range(size)]
			if i in model.NAMED:
				q = {'toks': toks_of([ref_of(i, 'N%d' % k, k) for k in range(size)]), 'params': [[key_of(i, 'N%d' % k, k), v] for k, v in enumerate(values)]}
			else:
				q = {'toks': toks_of([k + 1 if i in model.NUMERIC else None for k in range(size)]), 'params': values}
			yield {'in': i, 'out': o, 'exp': None, 'oq': False, 'box': 'dict' if i in model.NAMED else 'list', 'q': q}


VOLUME = (63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 300, 500, 511, 512, 513, 999, 1000, 1001, 1024, 2101, 5000)


def volume(sizes=VOLUME):
	"""Many placeholders, long tuples, placeholders behind long texts, many parameters."""
	return itertools.chain(counts(0, sizes), lengths(0, sizes), far(), crowds((9, 33, 101, 257, 1001)))


def raw_volume(sizes=VOLUME + (10001,), escapes=(True, '!', '!!')):
	"""
	Texts of many equal pieces, with a placeholder, an escape sequence or a percent sign behind them: in-style, out-style, escape, text.
	"""
	n = N(0)
	for size in sizes:
		for i, o in kind_pairs(size):
			lead = model.LEAD[i]
			for esc in escapes:
				char = model.resolve_esc(i, esc) or lead
				ph = model.write_placeholder(i, '1' if i in model.NUMERIC else 'a')
				for unit in ('x ', '\n', ph + ' ', ph + ',\n', ' ' + char + lead + ' ' if char != lead else ' ' + lead * 2 + ' ', ' % ' if lead != '%' else ' \\'):
					n += 1
					if i == 'named_oracle' and size > 2101:
						continue
					end = ('%s a %s b %s' % (ph, char + lead if char != lead else lead * 2, ph)) + (' 5% %s %%' if lead != '%' else '')
					yield i, o, esc, 'q ' + unit * size + ' ' + end


UNICODE = (('a\u00b5', 'a\u03bc'), ('a\ufb01', 'afi'), ('a\uff21', 'aA'), ('a\u017f', 'as'), ('a\u00df', 'ass'), ('a\u00e9', 'a\u00c9'), ('a\u212a', 'ak'),
	('a\u0131', 'ai'), ('a\u0130', 'aI'), ('a\u00b2', 'a2'), ('a\u00aa', 'aa'), ('a\u0663', 'a3'), ('a\u2160', 'aI'), ('a\u1e9e', 'a\u00df'), ('a\u00c5', 'a\u212b'),
	('a\u0430', 'aa'), ('a\u03c2', 'a\u03c3'), ('a\u01c5', 'a\u01c6'), ('a\uac00', 'a\u1100'), ('a\U0001d41a', 'aa'), ('a\u0149', 'an'), ('a\u1fbe', 'a\u03b9'))


def unicode_names(outs, exps=(None, True)):
	"""Pairs of names which are equal after normalisation or folding of case only."""
	n = N(0)
	for a, b in UNICODE:
		for i in model.NAMED:
			for values in ((S, S), (T2, S), (S, T2)):
				for o in outs:
					for exp in exps:
						n += 1
						yield {'in': i, 'out': o, 'exp': exp, 'oq': n % 2 == 0, 'box': 'dict', 'q': {
							'toks': toks_of([ref_of(i, x, 1) for x in (a, b, a)]), 'params': [[key_of(i, a, 1), values[0]], [key_of(i, b, 1), values[1]]]}}


def texts():
	"""Every character up to U+017F, doubled, at the ends of a query and beside a placeholder."""
	for k in range(0x180):
		ch = chr(k)
		if ch in ':$@%?':
			continue
		for i, o in kind_pairs(k):
			q = query(i, (0, 0), [S, S], 1)
			q['toks'][0] = ['L', ch * (2 + k % 2) + ' ']
			q['toks'][2] = ['L', ch * 2 + ' '] if not model.is_word(ch) else ['L', ' ' + ch * 2 + ' ']
			q['toks'][-1] = ['L', ' ' + ch * 2]
			yield {'in': i, 'out': o, 'exp': None, 'oq': False, 'box': box_of(i, k), 'q': q}


def long_pairs(outs, exps=(True,)):
	"""Pairs of names which differ in one character only: the last one, the first one or the middle one, for every length."""
	n = N(0)
	for size in tuple(range(1, 72)) + tuple(range(120, 132)) + tuple(range(250, 262)):
		for a, b in (('N' * size + 'A', 'N' * size + 'B'), ('A' + 'N' * size, 'B' + 'N' * size), ('N' * (size // 2) + 'A' + 'N' * size, 'N' * (size // 2) + 'B' + 'N' * size)):
			for values in ((S, S), (T2, T2), (T12, S)):
				for o in outs:
					for exp in exps:
						n += 1
						i = model.NAMED[n % len(model.NAMED)]
						yield {'in': i, 'out': o, 'exp': exp, 'oq': n % 2 == 0, 'box': 'dict', 'q': {
							'toks': toks_of([ref_of(i, x, n // 2) for x in (a, b, a)]), 'params': [[key_of(i, a, n), values[0]], [key_of(i, b, n), values[1]]]}}
		n += 1


PLACES = [c for c in map(chr, range(1, 128)) if not c.isalnum() and c not in ':$@%?_'] + [
	'= ', '== ', '!= ', '<> ', '>= ', '||', '((', '( (', 'IN ', ' IN\n', 'in (', 'NOT IN ', 'VALUES ', 'VALUES (', 'ANY ', 'ANY(', 'SET a=', 'LIKE ', 'IS ', 'IS NOT ',
	'BETWEEN ', 'LIMIT ', 'SELECT ', 'AND ', ' (1, ', ' [1, ', '--', '-- ', '/*', '/* ', "N'", "E'", "''", '""', '\r\n', '\n\n', '\u00a0', '\u2028', '']
ENDS = [c for c in PLACES if len(c) < 2 or c[0] in '=!<>|(-/*\r\n\'"'] + [')', '))', ') ', ' )', ' AND', ', ', ' ,', ';', '; ', '*/', ' */', ' --', '.x', '[0]']


AROUND = (('(', ')'), ('((', '))'), ('( (', ') )'), ('( ', ' )'), ('(\n', '\n)'), ('(((', ')))'), ('IN (', ')'), ('IN ((', '))'), ('IN ( ', ' )'), ('in(', ')'), ('NOT IN (', ')'), ('VALUES (', ')'),
	('VALUES ((', '))'), ('ANY (', ')'), ('ANY((', '))'), ('ALL(', ')'), ('f(', ')'), ('f((', '))'), ('f(1, ', ', 2)'), ('(1, ', ')'), ('(', ', 1)'), ('[', ']'), ('[[', ']]'), ('{', '}'), ('{{', '}}'),
	("'", "'"), ("''", "''"), ('"', '"'), ('`', '`'), ('<', '>'), ('|', '|'), ('/*', '*/'), ('/* ', ' */'), ('/*+ ', ' */'), ('-- ', '\n'), ('--', ''), ('#', '\n'), ("('", "')"), ("'(", ")'"), (',', ','),
	('.', '.'), (';', ';'), ('=', '='), ('(=', ')'), ('ARRAY[', ']'), ('ROW(', ')'), ('CAST(', ' AS int)'), ('(SELECT ', ')'), ('{fn x(', ')}'), ('q[', ']'), ("E'", "'"), ('N"', '"'), ('\\', '\\'), ('*', '*'))


def places(shapes=(S, T0, T1, T2)):
	"""A placeholder between texts of all sorts."""
	n = N(0)
	for k, (before, after) in enumerate(AROUND):
		for d in shapes:
			for i, o in kind_pairs(k):
				n += 1
				q = query(i, (0, 1, 0), [d, S], n)
				q['toks'] = [['L', 'x ' + before], q['toks'][1], ['L', after + (' y ', '')[n // 4 % 2] + (before or ' ')], q['toks'][3], ['L', after + ' ' + before], q['toks'][5], ['L', after]]
				yield {'in': i, 'out': o, 'exp': (None, True, True, False)[n % 4], 'oq': False, 'box': box_of(i, n), 'q': q}
	for k in range(max(len(PLACES), len(ENDS))):
		before, after = PLACES[k % len(PLACES)], ENDS[(k * 7) % len(ENDS)]
		for d in shapes:
			for i, o in kind_pairs(k):
				n += 1
				q = query(i, (0, 1, 0), [d, S], n)
				q['toks'] = [['L', 'x ' + before], q['toks'][1], ['L', after if after and not model.is_word(after[0]) else ' ' + after], ['L', ' y ' + before],
					q['toks'][3], ['L', ' ' + before], q['toks'][5], ['L', after if n % 2 and after and not model.is_word(after[0]) else ' ']]
				yield {'in': i, 'out': o, 'exp': (None, True, True, False)[n % 4], 'oq': False, 'box': box_of(i, n), 'q': q}


def words(outs=model.STYLES, exps=(None, True)):
	"""Parameters named by words which mean something elsewhere, beside another one."""
	n = N(0)
	for w in gen.WORDS:
		for values in ((S, S), (T2, S)):
			for o in outs:
				for exp in exps:
					n += 1
					i = model.NAMED[n % len(model.NAMED)]
					other = w + 'x' if n % 2 else 'x' + w
					yield {'in': i, 'out': o, 'exp': exp, 'oq': n % 3 == 0, 'box': box_of(i, n // 2), 'q': {
						'toks': toks_of([ref_of(i, x, n + k) for k, x in enumerate((w, other, w))]), 'params': [[key_of(i, w, n), values[0]], [key_of(i, other, n), values[1]]]}}
		n += 1


SHARED = [['x', 'shared ' + k] for k in V.SHARED] + [['tx', 'shared ' + k] for k in V.SHARED_TUPLES] + [['n'], ['b', 1], ['i', 7], ['a', 1]]


def identical(outs=model.STYLES, exps=(None, True, False)):
	"""Different parameters whose values are one and the same object, or which are equal."""
	n = N(0)
	for d in SHARED:
		for pattern, size in (((0, 1), 2), ((1, 0), 2), ((0, 1, 0), 2), ((1, 0, 0, 1), 2), ((0, 2, 1, 2), 3)):
			for i in model.STYLES:
				for o in outs:
					for exp in exps:
						n += 1
						values = [d] * size
						if size == 3:
							values[n % 3] = ['tr', 2, d] if n % 2 else ['t', [d, S]]
						yield {'in': i, 'out': o, 'exp': exp, 'oq': n % 2 == 0, 'box': box_of(i, n // 3), 'q': query(i, pattern, values, n)}


def reuse(outs=model.STYLES, sizes=(5, 16, 17, 33, 65, 101, 129, 200, 257, 513, 1025)):
	"""Many parameters, then some or all of them again in another order."""
	n = N(0)
	for size in sizes:
		for o in outs:
			for group in GROUPS[:2]:
				for again in ('first', 'same', 'reversed', 'last'):
					n += 1
					i = group[n % len(group)]
					if i == 'named_oracle' and size > 257:
						i = 'pyformat'  # the library looks through all keys
					order = list(range(size))
					order += {'first': [0, 1], 'last': [size - 1, 0], 'same': order, 'reversed': order[::-1]}[again]
					values = [T2 if (k + n % 2) % 7 == 3 and n // 2 % 3 else ['i', k] for k in range(size)]
					if i in model.NAMED:
						q = {'toks': toks_of([ref_of(i, 'N%d' % k, k + j) for j, k in enumerate(order)]), 'params': [[key_of(i, 'N%d' % k, k), v] for k, v in enumerate(values)]}
					else:
						q = {'toks': toks_of([k + 1 for k in order]), 'params': values}
					yield {'in': i, 'out': o, 'exp': (None, True)[n // 5 % 2], 'oq': n % 2 == 0, 'box': 'dict' if i in model.NAMED else 'list', 'q': q}


def stretched(outs=model.STYLES, sizes=(11, 12, 101, 120, 1001)):
	"""A long tuple among parameters whose names, or numbers, look like those of its elements."""
	n = N(0)
	for size in sizes:
		at = sorted({0, 1, 2, 9, 10, 11, 99, 100, 101, size - 1, size} & set(range(size + 1)))
		for form in ('a_%d', 'a%d', 'a__%d', '_a_%d', 'a_%d_sqlp', 'a_%02d', 'a_%x', 'A_%d', '_%d', '_1_%d', 'a___%d'):
			for value in (S, T1, ['T', size]):
				for o in outs:
					n += 1
					i = model.NAMED[n % len(model.NAMED)]
					names = ['a'] + sorted({form % k for k in at})
					if n % 2:
						names = names[1:] + names[:1]
					if i == 'named_oracle':
						names = ['A' if x == 'a' else x for x in names]
					order = names + [names[0], names[-1]]
					yield {'in': i, 'out': o, 'exp': True, 'oq': n % 4 < 2, 'box': 'dict', 'q': {'toks': toks_of([ref_of(i, x, n + k) for k, x in enumerate(order)]),
						'params': [[key_of(i, x, n), ['T', size] if x in ('a', 'A') else value] for x in names]}}
		n += 1
	# Numbers and positions whose decimal digits run into those of an element.
	for size, total in ((12, 130), (101, 125), (120, 1125), (1001, 1125)):
		spots = [k for k in (0, 1, 2, 10, 11, 12, 110, 111, 112, 120, 1100, 1101, 1110) if k < total]
		for a, b in [(spots[:1], spots[1:2]), (spots[1:2], spots[3:5]), (spots[:2], spots[4:6]), (spots[1:3], spots[6:]), (spots, []), ([spots[-1]], spots[:3])]:
			for o in outs:
				n += 1
				params = [['T', size] if k in a else T3 if k in b else S for k in range(total)]
				for i in (model.NUMERIC[n % 2], model.ORDINAL[n % 2]):
					refs = [k + 1 for k in range(total)] if i in model.NUMERIC else [None] * total
					yield {'in': i, 'out': o, 'exp': True, 'oq': n % 4 < 2, 'box': 'list', 'q': {'toks': toks_of(refs), 'params': params}}


CONTEXTS = ('a = ', 'a LIMIT ', 'LIMIT 5 OFFSET ', 'a IN ', 'a NOT IN ', 'a LIKE ', 'a ILIKE ', 'a IS ', 'a IS NOT ', 'a BETWEEN 1 AND ', 'x BETWEEN ', 'a AND ', 'a OR ', 'NOT ', 'SELECT ', 'a FROM ', 'a ORDER BY ',
	'GROUP BY ', 'INSERT INTO t VALUES (', 'UPDATE t SET a = ', 'a = ANY ', 'EXISTS ', 'a INTERVAL ', 'DATE ', 'TIMESTAMP ', 'a AS ', 'a || ', 'a - ', 'CASE WHEN ', 'a THEN ', 'ELSE ', 'RETURNING ', 'TOP ', 'FETCH FIRST ',
	'CALL f(', 'EXEC ', 'a REGEXP ', 'a ESCAPE ', 'a COLLATE ', 'DEFAULT ', 'a AT TIME ZONE ', 'a <> ', 'a >= ', 'DISTINCT ', 'a -> ', 'a::', 'a @> ')


def contexts():
	"""Every kind of value behind words of SQL."""
	n = N(0)
	for d in KINDS:
		for k, word in enumerate(CONTEXTS):
			n += 1
			i, o = pair_of_kinds(n % 999)
			word = ' ' + (word, word.lower())[n % 2]
			if model.LEAD[i] in word or model.LEAD[o] in word:
				continue
			q = query(i, (0, 1, 0), [d, S], n)
			q['toks'] = [['L', 'x' + word], q['toks'][1], ['L', ' , ' + word], q['toks'][3], ['L', word], q['toks'][5], ['L', ' ']]
			yield {'in': i, 'out': o, 'exp': (None, True, False)[n % 3], 'oq': False, 'box': box_of(i, n), 'q': q}
