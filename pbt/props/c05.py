"""C05: numbering of numeric and ordinal out-parameters."""
import itertools

from ..strat import st

from .. import common, gen, grid, model
from .. import values as V
from ..core import Violation, must

EXAMPLES = {'quick': 10000, 'thorough': 160000}
RULE = ("(a) all queries of up to 4 (thorough: 5) placeholders over 3 parameters with each parameter a scalar or a tuple of length 0, 1 or "
	"2, for every in-style and the four numeric and ordinal out-styles, all pairs of 25 related names and of 12 numbers with 6 shapes, padded and very large numbers, parameters which are one object, and (b) random structured queries with up to 100 "
	"parameters, half of them with equal or identical values; non-trivial = a parameter is used twice, out of order, or as a tuple")

OUTS = model.NUMERIC + model.ORDINAL
SHAPES = (['s', 'vv'], ['t', []], ['t', [['s', 'vv']]], ['t', [['s', 'vv'], ['s', 'ww']]])


def enumerate_cases(tier):
	exps = (None,) if tier == 'quick' else (None, True, False)
	yield from grid.pairs_of_names(OUTS, exps)
	yield from grid.pairs_of_numbers(OUTS, exps)
	yield from grid.ordinals(OUTS, exps)
	yield from grid.large(OUTS)
	yield from grid.identical(OUTS)
	yield from grid.zeros(OUTS)
	yield from grid.big_numbers(OUTS)
	yield from grid.reuse(OUTS)
	yield from grid.stretched(OUTS)
	yield from (c for c in itertools.chain(grid.counts(), grid.lengths()) if c['out'] in OUTS)
	for i in model.STYLES:
		for n in range(0, {'quick': 5, 'thorough': 6}[tier]):
			if i in model.ORDINAL:
				for shapes in itertools.product(range(4), repeat=n):
					for o in OUTS:
						yield mini(i, o, [None] * n, [SHAPES[s] for s in shapes])
				continue
			for seq in itertools.product(range(3), repeat=n):
				# Every parameter that is not used has the first shape.
				used = sorted(set(seq))
				for shapes in itertools.product(range(4), repeat=len(used)):
					params = [SHAPES[0]] * 3
					for u, s in zip(used, shapes):
						params[u] = SHAPES[s]
					for o in OUTS:
						if i in model.NAMED:
							names = 'ABC' if i == 'named_oracle' else 'abc'
							forms = [[names[k].lower() if n % 2 else names[k], False] for k in seq]
							if i != 'named_oracle':
								forms = [[names[k], False] for k in seq]
							yield mini(i, o, forms, [[names[k], params[k]] for k in range(3)])
						else:
							yield mini(i, o, [k + 1 for k in seq], params)


def mini(i, o, refs, params):
	toks = [['L', 'x ']]
	for r in refs:
		toks += [['P', r], ['L', ' ']]
	return {'in': i, 'out': o, 'exp': None, 'q': {'toks': toks, 'params': params},
		'box': 'dict' if i in model.NAMED else 'list'}


same_values = st.sampled_from([['i', 1], ['b', 1], ['f', '1.0'], ['n'], ['a', 1], ['a', 2], ['t', [['i', 1]]],
	['t', [['b', 1], ['i', 1]]], ['t', []], ['s', '']])


@st.composite
def cases(draw, tier):
	i, o = draw(gen.styles), draw(st.sampled_from(OUTS))
	vals = draw(st.sampled_from([gen.any_value, same_values]))
	return {
		'in': i, 'out': o, 'exp': draw(st.sampled_from([None, True, False])),
		'q': draw(gen.queries(i, zeros=True, values=vals)), 'box': draw(gen.containers(i)),
	}


def check(c, ctx):
	sql, plain, expand = common.setup(c)
	q = gen.make(ctx.lib, c)
	what = '%s->%s format(%s, %s)' % (c['in'], c['out'], ascii(sql), model.safe_repr(plain))
	out_sql, out = must(what, q.format, sql, gen.contain(c['in'], c['box'], plain))
	common.other_way(c, q, what, sql, gen.contain(c['in'], c['box'], plain), (out_sql, out))
	# Expected sources, one per out-placeholder in order.
	sources, counter = [], [0]
	for tok in model.scan(sql, c['in']):
		if tok[0] != 'P':
			continue
		ident, _, value = model.lookup(c['in'], tok[1], counter, plain)
		if expand and isinstance(value, tuple):
			sources += [((ident, k), v) for k, v in enumerate(value)]
		else:
			sources.append(((ident, None), value))
	if type(out) is not list:
		raise Violation('%s: out-parameters are a %s' % (what, type(out).__name__))
	found = [t[1] for t in model.scan(out_sql, c['out']) if t[0] == 'P']
	if len(found) != len(sources):
		raise Violation('%s gave %s with %d placeholders instead of %d' % (what, ascii(out_sql), len(found), len(sources)))
	if c['out'] in model.NUMERIC:
		numbers, want = {}, []
		for ident, v in sources:
			if ident not in numbers:
				numbers[ident] = len(numbers) + 1
				want.append(v)
		expect = [str(numbers[ident]) for ident, _ in sources]
		if found != expect:
			raise Violation('%s gave %s, numbered %s instead of %s' % (what, ascii(out_sql), found, expect))
	else:
		want = [v for _, v in sources]
	if not common.same_exact(out, want):
		raise Violation('%s gave the parameters %s, expected %s' % (what, model.safe_repr(out), model.safe_repr(want)))
	keys = [k for k, _ in common.used_values(c)]
	ctx.interesting(len(set(map(str, keys))) < len(keys) or keys != sorted(keys, key=str) or
		any(V.is_tuple(d) for _, d in common.used_values(c)))
	if len(set(map(str, keys))) < len(keys):
		ctx.label('parameter used twice')
	if any(V.is_tuple(d) for _, d in common.used_values(c)):
		ctx.label('tuple')
	if len(found) >= 10:
		ctx.label('10 or more out-parameters')
	if not found:
		ctx.label('no out-parameter')
