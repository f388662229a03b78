"""C15: the container of the parameters makes no difference."""
from ..strat import st

from .. import common, gen, grid, model
from .. import values as V
from ..core import Violation, must

EXAMPLES = {'quick': 5600, 'thorough': 100000}
RULE = ("(a) every pair of styles with every container and sets of unrelated keys, and (b) structured queries whose values are handed over in two different containers: any Mapping for named styles, any Sequence or any "
	"Mapping with int, str, mixed or bytes digit keys (with unrelated extra keys, and in any key order) for numeric and ordinal styles; both "
	"results have to be identical; non-trivial = at least one placeholder and two different kinds of container")

NOISE = (['s', 'xx'], ['s', ''], ['s', '\u00b2'], ['s', '1.5'], ['s', '-1'], ['s', ' 1'], ['s', 'a1'], ['n'], ['f', '2.5'], ['t', [['i', 1]]],
	['i', -7], ['i', 99999], ['s', '99998'], ['s', '\u2460'], ['s', '1_0'], ['s', '+1'], ['y', 'x'], ['s', '0x1'], ['s', '1e0'])


def enumerate_cases(tier):
	n = grid.N(0)
	for i in model.STYLES:
		boxes = V.MAPPINGS if i in model.NAMED else V.SEQUENCES + tuple('%s:%s' % (f, k) for f in ('int', 'str', 'mix', 'bytes') for k in V.MAPPINGS)
		for o in model.STYLES:
			for b in boxes:
				for pattern, values in (((0,), [grid.S]), ((1, 0, 1), [grid.S, grid.T2]), ((2, 0), [grid.T2, grid.S, grid.S])):
					for noise in ([], NOISE[:6], NOISE[6:12], NOISE[12:]):
						n += 1
						yield {'in': i, 'out': o, 'exp': (None, True, False)[n % 3], 'oq': n % 2 == 0, 'q': grid.query(i, pattern, values, n),
							'a': boxes[0], 'b': b, 'noise': noise, 'flip': n % 5 == 0, 'gaps': n % 7 < 3, 'many': n % 13 < 6}
			# Keys and containers of other types.
			special = ['factory'] + ['strsub:' + k for k in V.MAPPINGS if k != 'min'] + ['missing'] * (i != 'named_oracle') if i in model.NAMED else [f + ':factory' for f in ('int', 'str', 'mix', 'bytes')] + [f + ':' + k for f in ('intsub', 'enum', 'strsub', 'bytessub') for k in V.MAPPINGS if k != 'min']
			for b in special + ([] if i in model.NAMED else list(V.INT_SEQUENCES)):
				for pattern, size in (((0,), 1), ((1, 0, 1), 2), ((2, 0), 3), ((4, 3, 2, 1, 0), 5)):
					for many in (False, True):
						n += 1
						yield {'in': i, 'out': o, 'exp': (None, True, False)[n % 3], 'oq': n % 2 == 0, 'q': grid.query(i, range(size) if i in model.ORDINAL else pattern, [['i', 5 + k] for k in range(size)], n),
							'a': boxes[0], 'b': b, 'noise': [], 'flip': n % 5 == 0 and ':' in b, 'gaps': False, 'many': many}


@st.composite
def cases(draw, tier):
	i, o = draw(gen.styles), draw(gen.styles)
	q = draw(gen.queries(i, zeros=True, name_filter=gen.no_reserved))
	return {'in': i, 'out': o, 'exp': draw(st.sampled_from([None, True, False])), 'oq': draw(st.booleans()), 'q': q,
		'a': draw(gen.containers(i)), 'b': draw(gen.containers(i) if i in model.NAMED else st.one_of(
			gen.containers(i), st.sampled_from(V.MAPPINGS).map(lambda k: 'bytes:' + k))),
		'noise': draw(st.lists(st.sampled_from(NOISE), max_size=3)), 'flip': draw(st.booleans()),
		'gaps': draw(st.booleans()), 'many': draw(st.booleans())}


REGRESSIONS = [
	{'in': i, 'out': o, 'exp': None, 'oq': False, 'a': 'list', 'b': 'str:dict', 'noise': [['s', '\u00b2']], 'flip': False, 'gaps': False, 'many': False,
		'q': {'toks': [['L', ' '], ['P', 1 if i == 'numeric' else None], ['L', ' ']], 'params': [['i', 1]]}}
	for i in ('numeric', 'qmark') for o in ('qmark', 'numeric', 'named')
]


def check(c, ctx):
	i = c['in']
	sql, plain, expand = common.setup(c)
	q = gen.make(ctx.lib, c)
	what = '%s->%s format(%s, %s)' % (i, c['out'], ascii(sql), model.safe_repr(plain))
	first = must('%s in %s' % (what, c['a']), q.format, sql, gen.contain(i, c['a'], plain))
	common.other_way(c, q, what, sql, gen.contain(i, c['a'], plain), first)
	box = gen.contain(i, c['b'], plain)
	if hasattr(box, 'items') and c['b'] != 'missing':
		items = list(box.items())
		if c['gaps']:
			# Parameters which the query does not use may be missing.
			used = {k for k, _ in common.used_values(c)}
			items = [(k, v) for k, v in items if (k if i in model.NAMED else int(k)) in used]
		noise = [V.build(d) for d in c['noise']]
		if i == 'named_oracle':
			noise = [k for k in noise if isinstance(k, str)]
		if i in model.NAMED:
			noise = [k for k in noise if not isinstance(k, str) or model.oracle_key(k) not in map(model.oracle_key, plain)]
		for n, k in enumerate(noise):
			items.insert(n * 2 % (len(items) + 1), (k, 'noise'))
		ctx.label('extra keys') if noise else None
		if c['flip']:
			items.reverse()
		box = V.make_mapping(c['b'].split(':')[-1], items)
	if c['many']:
		rows = must('%s formatmany in %s and %s' % (what, c['b'], c['a']), q.formatmany, sql,
			[box, gen.contain(i, c['a'], plain), box])
		results = [(rows[0], p) for p in rows[1]]
	else:
		results = [must('%s in %s' % (what, c['b']), q.format, sql, box)]
	for got in results:
		if not common.same_result(got, first):
			raise Violation('%s in %s gave %s with %s; in %s it gave %s with %s' % (
				what, c['a'], ascii(first[0]), model.safe_repr(first[1]), c['b'], ascii(got[0]), model.safe_repr(got[1])))
	ctx.interesting(common.count_ph(c) > 0 and c['a'] != c['b'])
	ctx.label('%s / %s' % (form(c['a']), form(c['b'])))


def form(kind):
	if ':' in kind:
		return kind.split(':')[0] + '-keyed mapping'
	return kind
