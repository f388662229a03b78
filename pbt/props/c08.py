"""C08: formatmany() refuses a row that does not fit the query of the first row."""
from ..strat import st

from .. import common, gen, grid, model
from .. import values as V
from ..core import Violation, attempt, error_text, must

EXAMPLES = {'quick': 6400, 'thorough': 100000}
RULE = ("a valid formatmany() call (every pair of styles, kind of breakage, tuples longer or shorter by elements of many kinds, values which hold a fitting tuple, broken parameter and position in small calls; random ones) of 1 to 5 rows in which exactly one row is broken: a tuple parameter becomes a non-tuple or changes its "
	"length, a referenced parameter is missing, or the row is no container; the call has to raise the documented kind of error; the "
	"unbroken call has to work; non-trivial = every case")
ASSUMPTIONS = ("a row whose scalar becomes a tuple is not covered: the tuple is then passed through as one value",)

KINDS = ('scalar', 'length', 'missing', 'container')


def enumerate_cases(tier):
	n = grid.N(0)
	shapes = ((grid.T2, grid.S), (grid.S, grid.T2), (grid.T1, grid.T3), (grid.T0, grid.T2), (grid.T2, grid.T0))
	broken = [('scalar', d) for d in (['n'], ['s', ''], ['s', 'ab'], ['i', 0], ['i', 2], ['l', []], ['l', [grid.S, grid.S]], ['o', 1], ['c', 'frozenset', [grid.S, grid.S]],
		['c', 'slots', [grid.S, grid.S]], ['y', 'ab'], ['r', 2])]
	broken += [('length', ['T', k]) for k in (0, 1, 2, 3, 4)] + [('missing', None)]
	broken += [('container', k) for k in range(len(NOT_CONTAINERS))]
	for i in model.STYLES:
		for o in model.STYLES:
			for values in shapes:
				for pattern in ((0, 1), (1, 0, 1)):
					for kind, new in broken:
						for at in (0, 1, 2):
							if kind in ('scalar', 'length') and not at:
								continue
							n += 1
							q = grid.query(i, pattern, list(values), n)
							rows = grid.rows(q, i, 3 if n % 2 or at == 2 else 2)
							case = {'in': i, 'out': o, 'exp': True, 'oq': n % 2 == 0, 'q': q, 'rows': rows, 'kind': kind, 'at': at, 'new': new,
								'boxes': [grid.box_of(i, n // 2 + k * (n // 7)) for k in range(len(rows))], 'iter': V.ITERABLES[n % len(V.ITERABLES)]}
							used = common.used_values(case)
							if kind in ('scalar', 'length'):
								used = [u for u in used if V.is_tuple(u[1])]
							for w in range(len(used) if kind != 'container' else 1):
								if kind != 'length' or V.tuple_len(used[w][1]) != new[1]:
									yield dict(case, which=w)
	for i in model.STYLES:
		for o in model.STYLES:
			# Queries without placeholders.
			for new in range(len(NOT_CONTAINERS)):
				for at, count in ((0, 1), (0, 2), (1, 2), (2, 3), (1, 3)):
					n += 1
					q = grid.query(i, (), [grid.S], n)
					yield {'in': i, 'out': o, 'exp': (None, True, False)[n % 3], 'oq': n % 2 == 0, 'q': q, 'rows': grid.rows(q, i, count), 'kind': 'container', 'at': at, 'new': new,
						'boxes': [grid.box_of(i, n // 2 + k * (n // 7)) for k in range(count)], 'iter': V.ITERABLES[n % len(V.ITERABLES)]}
	for first in (0, 1, 2, 5):
		# Tuples of every other length.
		for size in tuple(range(0, 530)) + tuple(first + k for k in (768, 1000, 1024, 4096, 65536)):
			if size == first:
				continue
			for m, (i, o) in enumerate(grid.kind_pairs(size)):
				if size < 530 and m % 9 != size % 9 and size > 12 and (size - first) % 64:
					continue
				q = grid.query(i, (0, 1), [['T', first], grid.S], size)
				yield {'in': i, 'out': o, 'exp': True, 'oq': False, 'q': q, 'rows': grid.rows(q, i, 2), 'kind': 'length', 'at': 1, 'new': ['T', size],
					'boxes': [grid.box_of(i, size)] * 2, 'iter': 'list', 'which': 0}
	# Tuples which are longer or shorter by particular elements, and values which hold a fitting tuple.
	last = [['n'], ['i', 0], ['b', 0], ['s', ''], grid.T0, ['l', []], ['f', 'nan'], grid.S, ['s', 'ww'], grid.T1, ['y', ''], ['d', []], ['o', 1]]
	for size in (0, 1, 2, 3):
		base = ['t', [grid.S] * size]
		changed = [('length', ['t', base[1] + [d] * k]) for d in last for k in (1, 2)] + [('length', ['t', [d] * k + base[1]]) for d in last for k in (1, 2)]
		changed += [('length', ['t', [d] * k]) for d in last for k in range(size)]
		changed += [('length', [k, base[1] + [grid.S]]) for k in ('ts',)] + [('length', ['t', [base]] if size != 1 else ['t', [base, base]])]
		changed += [('scalar', d) for d in (['l', [base]], ['l', [base] * max(size, 2)], ['ml', [base]], ['l', base[1]], ['ml', base[1]], ['d', [['a', base]]], ['d', [['0', d] for d in base[1]][:1]])]
		changed += [('scalar', ['c', k, x]) for k in sorted(V.COLLECTIONS) for x in (base[1], [base])]
		changed += [('scalar', ['x', k]) for k in V.OBJECTS]
		for kind, new in changed:
			for m, (i, o) in enumerate(grid.kind_pairs(n)):
				n += 1
				q = grid.query(i, ((0, 1), (1, 0, 1), (0,))[n % 3], [base, grid.S] if n % 3 < 2 else [base], n)
				case = {'in': i, 'out': o, 'exp': True, 'oq': n % 2 == 0, 'q': q, 'rows': grid.rows(q, i, 2 + n % 5 // 3), 'kind': kind, 'at': 1, 'new': new,
					'boxes': [grid.box_of(i, n)] * 3, 'iter': V.ITERABLES[n % len(V.ITERABLES)], 'which': 0}
				yield case
	for at in (3, 7, 15, 31, 49, 63, 99, 100, 127, 128, 255, 256, 299, 999, 1000):
		# Far down in many rows.
		count = at + 1 + at % 3
		for i, o in grid.kind_pairs(at):
			for kind, new in (('scalar', ['n']), ('length', ['T', 3]), ('missing', None), ('container', at % len(NOT_CONTAINERS))):
				q = grid.query(i, (0, 1), [grid.T2, grid.S], at)
				yield {'in': i, 'out': o, 'exp': True, 'oq': False, 'q': q, 'rows': grid.rows(q, i, count), 'kind': kind, 'at': at, 'new': new,
					'boxes': [grid.box_of(i, at)] * count, 'iter': V.ITERABLES[at % len(V.ITERABLES)], 'which': 0 if kind != 'missing' else at % 2}


@st.composite
def cases(draw, tier):
	kind = draw(st.sampled_from(KINDS))
	i, o = draw(gen.styles), draw(gen.styles)
	exp = draw(st.sampled_from([None, True])) if o not in model.NAMED else True
	if kind in ('missing', 'container'):
		exp = draw(st.sampled_from([None, True, False]))
	vals = st.one_of(gen.some_tuples, gen.some_tuples, gen.non_tuples) if kind in ('scalar', 'length') else gen.any_value
	q = draw(gen.queries(i, zeros=True, values=vals, name_filter=gen.no_reserved, min_ph=1, scale=False))
	n = draw(st.sampled_from([1, 1, 2, 3, 4]))
	if kind in ('missing', 'container') and draw(st.booleans()):
		n -= 1
	rows = [q['params']] + gen.rows_like(draw, i, q['params'], n)
	first = 1 if kind in ('scalar', 'length') else 0
	at = draw(st.integers(first, len(rows) - 1)) if len(rows) > first else 0
	case = {
		'in': i, 'out': o, 'exp': exp, 'oq': draw(st.booleans()), 'q': q, 'rows': rows, 'kind': kind, 'at': at,
		'boxes': [draw(gen.containers(i)) for _ in rows], 'iter': draw(st.sampled_from(V.ITERABLES)),
	}
	used = common.used_values(case)
	if kind in ('scalar', 'length'):
		used = [u for u in used if V.is_tuple(u[1])]
	if not used:
		case['kind'] = 'container'
		case['new'] = 0
		return case
	case['which'] = draw(st.integers(0, len(used) - 1))
	if kind == 'scalar':
		case['new'] = draw(gen.non_tuples)
	elif kind == 'length':
		old = V.tuple_len(used[case['which']][1])
		new = draw(st.sampled_from([k for k in (0, 1, 2, 3, old + 1, max(old - 1, 0), 2 * old) if k != old]))
		case['new'] = ['T', new]
	elif kind == 'container':
		case['new'] = draw(st.integers(0, 9))
	return case


NOT_CONTAINERS = (None, 5, 'abc', b'abc', 1.5, True, {1, 2}, frozenset(), iter(()), object())


REGRESSIONS = [
	{'in': i, 'out': o, 'exp': True, 'oq': False, 'kind': 'length', 'at': 1, 'which': 0, 'new': ['T', 2], 'iter': 'list',
		'q': q, 'rows': [q['params'], q['params']], 'boxes': [box, box]}
	for i, q, box in (
		('named', {'toks': [['L', ' '], ['P', ['a', False]], ['L', ' ']], 'params': [['a', ['t', []]]]}, 'dict'),
		('numeric', {'toks': [['L', ' '], ['P', 1], ['L', ' ']], 'params': [['t', []]]}, 'list'),
		('qmark', {'toks': [['L', ' '], ['P', None], ['L', ' ']], 'params': [['t', []]]}, 'list'),
	) for o in model.STYLES
]


def check(c, ctx):
	i = c['in']
	sql = gen.sql_of(c['q']['toks'], i)
	q = gen.make(ctx.lib, c)
	good = [gen.build_params(i, r) for r in c['rows']]
	rows = [gen.contain(i, b, p) for b, p in zip(c['boxes'], good)]
	what = '%s->%s expand_tuples=%r formatmany(%s, %s)' % (i, c['out'], c['exp'], ascii(sql), model.safe_repr(good))
	must(what, q.formatmany, sql, V.make_iterable(c['iter'], rows))
	kind, at = c['kind'], c['at']
	row = good[at]
	if kind == 'container':
		broken = NOT_CONTAINERS[c['new']]
		if i in model.NAMED and c['new'] == 0:
			broken = [1, 2, 3]
		want = TypeError
	else:
		used = common.used_values(c)
		if kind in ('scalar', 'length'):
			used = [u for u in used if V.is_tuple(u[1])]
		key = used[c['which']][0]
		if i in model.NAMED:
			row = dict(row)
			if kind == 'missing':
				del row[key]
			else:
				row[key] = V.build(c['new'])
		else:
			index = key - 1 if i in model.NUMERIC else key
			row = list(row)
			if kind != 'missing':
				row[index] = V.build(c['new'])
			elif ':' not in c['boxes'][at]:
				row = row[:index]
		want = {'scalar': TypeError, 'length': ValueError, 'missing': LookupError}[kind]
		broken = gen.contain(i, c['boxes'][at], row)
		if kind == 'missing' and i not in model.NAMED and ':' in c['boxes'][at]:
			# Keep the other keys of the mapping.
			items = [(k, v) for k, v in gen.contain(i, c['boxes'][at], row).items() if int(k) != key]
			broken = V.make_mapping(c['boxes'][at].split(':')[1], items)
	bad = list(rows)
	bad[at] = broken
	r = attempt(q.formatmany, sql, V.make_iterable(c['iter'], bad))
	if r.ok or not isinstance(r.error, want):
		raise Violation('%s with row %d broken (%s: %s) %s, expected %s' % (
			what, at, kind, model.safe_repr(row if kind != 'container' else broken), r.describe(), want.__name__))
	# The refusal leaves nothing behind.
	must(what + ' after a refused call', q.formatmany, sql, V.make_iterable(c['iter'], rows))
	ctx.interesting()
	ctx.label('broken: ' + kind, 'broken row: ' + ('first' if at == 0 else 'last' if at == len(rows) - 1 else 'middle'))
	if kind == 'length':
		first = next(d for k, d in common.used_values(c) if k == key)
		if V.tuple_len(first) == 0:
			ctx.label('first row has an empty tuple')
		if V.tuple_len(c['new']) == 0:
			ctx.label('broken row has an empty tuple')
