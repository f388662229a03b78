"""C17: conversions compose, and lead back."""
import itertools

from ..strat import st

from .. import common, gen, grid, model
from .. import values as V
from ..core import Violation, must

EXAMPLES = {'quick': 5600, 'thorough': 100000}
RULE = ("(a) all chains of three styles with small queries, chains of two and three with texts of 13 kinds at the ends and between, and (b) structured queries through chains A->B->C (and A->B->...->Z, up to 5 steps), with tuples expanded in the first step, in the last, "
	"or nowhere; the end has to mean the same as the direct conversion; A->A has to be the identity on named and ordinal styles; "
	"non-trivial = at least one placeholder")
ASSUMPTIONS = ("text with percent signs leaves a percent style with escape_char=True",)


def enumerate_cases(tier):
	n = grid.N(0)
	for chain in itertools.product(model.STYLES, repeat=3):
		for where in ('first', 'last', 'never'):
			for pattern, values in (((0, 1, 0), [grid.S, grid.T2]), ((1, 0, 0, 1), [grid.T0, grid.T3]), ((0, 0, 1), [['n'], ['l', []]])):
				n += 1
				yield {'in': chain[0], 'out': chain[-1], 'chain': list(chain), 'exp': None, 'where': where, 'q': grid.query(chain[0], pattern, values, n),
					'box': grid.box_of(chain[0], n // 2), 'oq': n % 2 == 0, 'many': n % 3 == 0}
	# Texts at both ends and between, through chains of two and three styles.
	for chain in itertools.chain(itertools.product(model.STYLES, repeat=2), ((a, b, model.STYLES[(k + 4 * j) % 9]) for j, a in enumerate(model.STYLES) for k, b in enumerate(model.STYLES))):
		for first, middle, last in itertools.product(TEXTS, TEXTS[:6], TEXTS):
			if model.LEAD[chain[0]] == '%' and '%' in first + middle + last:
				continue
			n += 1
			if tier == 'quick' and n % 3:
				continue
			q = grid.query(chain[0], (0, 1), [[['s', 'vv'], ['n'], ['t', []], grid.T2][n // 3 % 4], grid.S], n // 3)
			q['toks'] = [['L', first + ' '], q['toks'][1], ['L', ' ' + middle + ' ' if n % 2 else '-' + middle + ' '], q['toks'][3], ['L', ' ' + last if last else '']]
			yield {'in': chain[0], 'out': chain[-1], 'chain': list(chain), 'exp': None, 'where': ('first', 'last', 'never')[n // 3 % 3], 'q': q,
				'box': grid.box_of(chain[0], n // 3), 'oq': n % 2 == 0, 'many': n % 5 == 0}

	# Parameters which are not used, but whose names occur in the text in all sorts of forms.
	for i in model.STYLES:
		lead = model.LEAD[i]
		for text in ('b', lead + lead + 'b', 'x' + lead + lead + 'b', lead + lead + '(b)s', lead + lead + 's', lead + ' b', lead + '-b', lead + '9', lead + lead + '2', lead + lead + '"b"', lead + lead + lead + 'b', "'b'", '--b', lead + '(b)', lead + '(b)d', lead + '"b',
				'"b"', ':b', '$b', '@b', ':2', '$2', '?', '%s', '%(b)s', '{b}', 'B', lead + lead, ':"b"'):
			if lead == '?' and '?' in text.replace('??', '').strip() or any(t[0] == 'P' for t in model.scan(' ' + text + ' ', i)):
				continue
			for middle in model.STYLES:
				n += 1
				chain = [i, i] if n % 2 else [i, middle, i]
				other = set(chain) - {i}
				if any(model.LEAD[s] in text for s in other if model.LEAD[s] != '%' or lead == '%') or lead == '%' and len(chain) > 2:
					continue
				q = grid.query(i, (0, 0), [['s', 'vv'], ['s', 'ww']], n)
				q['toks'] = [['L', text + ' '], q['toks'][1], ['L', ' ' + text + ' '], q['toks'][3], ['L', ' ' + text]]
				yield {'in': i, 'out': i, 'chain': chain, 'exp': None, 'where': 'never', 'q': q, 'box': grid.box_of(i, n), 'oq': n % 2 == 0, 'many': n % 3 == 0}

	# Related names, numbers and numbers of placeholders, by way of every other style.
	plain = [dict(c) for c in itertools.chain(grid.pairs_of_names(('named',), (None,)), grid.pairs_of_numbers(('named',), (None,)), grid.ordinals(('named',), (None,)),
		grid.long_pairs(('named',), (True,)), grid.words(('named', 'qmark'), (None,)), grid.counts(130, (256, 300, 513, 1000, 2101)), grid.lengths(0, grid.VOLUME[::2]), grid.far((1000, 10001, 65537)), grid.crowds((33, 257)), grid.unicode_names(('named',), (None,)), folded_names())]
	for c in plain:
		for k, middle in enumerate(model.STYLES):
			n += 1
			if len(c['q']['toks']) > 300 and k % 3 != n // 9 % 3 or tier == 'quick' and n // 9 % 2 and len(c['q']['params']) > 1 and k % 2:
				continue
			end = model.STYLES[(n + n // 9) % 9]
			yield {'in': c['in'], 'out': end, 'chain': [c['in'], middle, end], 'exp': None, 'where': ('first', 'last', 'never')[n // 3 % 3], 'q': c['q'],
				'box': c['box'], 'oq': n % 2 == 0, 'many': n % 5 == 0}


def folded_names():
	"""Oracle names which are the same but for their case, beside each other in all spellings."""
	for size in range(1, 34):
		for low in ('abcdefgh' * 5, 'a_1' * 12, 'z' * 33):
			low = low[:size]
			spellings = [[low, True], [low.upper(), False], [low.upper(), True], [low, False], [low.title(), True]]
			for a, b in itertools.permutations(spellings, 2):
				ka, kb = [name if quoted else name.upper() for name, quoted in (a, b)]
				if ka == kb:
					continue
				for va, vb in ((grid.S, grid.S), (grid.T2, grid.S)):
					yield {'in': 'named_oracle', 'box': 'dict', 'q': {'toks': grid.toks_of([a, b, a]), 'params': [['"%s"' % ka, va], ['"%s"' % kb if kb != kb.upper() or size % 2 else kb.lower(), vb]]}}


TEXTS = ('', '%', '%%', "'%'", '% ', '%\n', '\\', '--', '\n', '{}', '"', '%d', '5%%s')


@st.composite
def cases(draw, tier):
	n = draw(st.sampled_from([3, 3, 3, 2, 4, 6]))
	chain = [draw(gen.styles) for _ in range(n)]
	flat = st.one_of(gen.non_tuples, st.builds(lambda k, x: [k, x], st.just('t'), st.lists(gen.non_tuples, max_size=4)))
	pct = model.LEAD[chain[0]] != '%'
	return {'in': chain[0], 'out': chain[-1], 'chain': chain,
		'exp': None, 'where': draw(st.sampled_from(['first', 'last', 'middle', 'never'])),
		'q': draw(gen.queries(chain[0], zeros=True, values=flat, extra='%' if pct else '', name_filter=gen.no_reserved)),
		'box': draw(gen.containers(chain[0])), 'oq': draw(st.booleans()), 'many': draw(st.booleans())}


def check(c, ctx):
	i, chain = c['in'], c['chain']
	sql, plain, _ = common.setup(c)
	steps = list(zip(chain, chain[1:]))
	at = {'first': 0, 'last': len(steps) - 1, 'middle': len(steps) // 2, 'never': None}[c['where']]
	want = model.meaning(i, None, at is not None, sql, plain)
	cur = (sql, gen.contain(i, c['box'], plain))
	trail = '%s with %s' % (ascii(sql), model.safe_repr(plain))
	pct = model.LEAD[i] != '%'
	quoted = False
	for n, (a, b) in enumerate(steps):
		q = must('constructor', ctx.lib.SQLParams, a, b, expand_tuples=n == at,
			escape_char=True if model.LEAD[a] == '%' and n and pct else None,
			allow_out_quotes=True if b == 'named_oracle' and n < len(steps) - 1 else c['oq'])
		# Percent signs double only on the way in from a style without them.
		if model.LEAD[a] == '%' and model.LEAD[b] == '%' and n and pct and '%' in sql:
			q = must('constructor', ctx.lib.SQLParams, a, b, expand_tuples=n == at, allow_out_quotes=c['oq'])
		what = '%s, %s->%s' % (trail, a, b)
		if c['many']:
			r = must(what, q.formatmany, cur[0], [cur[1]])
			new = (r[0], r[1][0])
		else:
			new = must(what, q.format, *cur)
		common.other_way({'in': a}, q, what, *cur, new)
		cur = new
		trail = '%s, %s->%s: %s' % (trail, a, b, ascii(cur[0]))
		quoted = b == 'named_oracle' and (n < len(steps) - 1 or c['oq'])
	stream = common.read_back(trail, chain[-1], cur, quoted, unescape=pct)
	common.expect_stream(trail, stream, want, cur[0])
	ctx.interesting(common.count_ph(c) > 0)
	ctx.label('steps: %d' % len(steps), 'expanded: ' + c['where'])
	if i not in model.NUMERIC and i != 'named_oracle':
		same = must('constructor', ctx.lib.SQLParams, i, i, expand_tuples=False)
		what = '%s->%s format(%s)' % (i, i, ascii(sql))
		got = must(what, same.format, sql, gen.contain(i, c['box'], plain))
		if got[0] != sql:
			raise Violation('%s gave %s' % (what, ascii(got[0])))
		expect = [v for _, v in used(c, plain)] if i in model.ORDINAL else dict(used(c, plain))
		if not common.same_exact(got[1], expect):
			raise Violation('%s gave %s, expected %s' % (what, model.safe_repr(got[1]), model.safe_repr(expect)))
		box = gen.contain(i, c['box'], plain)
		got = must(what.replace('format(', 'formatmany('), same.formatmany, sql, [box, box])
		if got[0] != sql or len(got[1]) != 2 or not all(common.same_exact(p, expect) for p in got[1]):
			raise Violation('%s gave %s with %s, expected %s' % (what.replace('format(', 'formatmany('), ascii(got[0]), model.safe_repr(got[1]), model.safe_repr(expect)))
	if chain[0] == chain[-1] and len(chain) > 2:
		ctx.label('round trip')


def used(c, plain):
	return [(k, plain[k]) for k, _ in common.used_values(c)]
