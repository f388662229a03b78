"""C04: tuple expansion."""
import itertools

from ..strat import st

from .. import common, gen, grid, model
from .. import values as V
from ..core import Violation, must

EXAMPLES = {'quick': 14000, 'thorough': 200000}
RULE = ("(a) every kind of value in every pair of styles and setting, all patterns of repetition, one object in several places, tuples at every place of a query, among many parameters which it does not use, and of every length up to 300 and some beyond, and (b) structured queries whose values are biased to tuples (empty, 1-element, long, nested, named tuples, subclasses) and "
	"to look-alikes (lists, sets, ranges, strings, bytes, falsy scalars), with expand_tuples unset, on, and off; "
	"non-trivial = a placeholder whose value is a tuple or another collection")

vals = st.one_of(gen.some_tuples, gen.some_tuples, gen.some_tuples, gen.lists, gen.scalars,
	st.sampled_from([['T', 10], ['T', 12], ['T', 100], ['T', 1001], ['t', []], ['n'], ['s', ''], ['i', 0], ['b', 0]]))


def enumerate_cases(tier):
	for n, c in grid.numbered(itertools.chain(grid.kinds(), grid.patterns())):
		yield dict(c, esc=True if n % 5 < 2 else None, many=n % 7 < 3)
		yield dict(c, esc=None if n % 11 < 5 else True, many=n % 7 > 2)
	for n, c in grid.numbered(grid.identical(exps=(True,))):
		yield dict(c, esc=None, many=n % 2 == 0)
	for n, c in grid.numbered(grid.places()):
		yield dict(c, exp=True, esc=None, many=n % 2 == 0)
	for n, c in grid.numbered(grid.lengths()):
		yield dict(c, esc=None, many=n % 3 == 0)
	for n, c in grid.numbered(grid.crowds()):
		yield dict(c, esc=None, many=n % 2 == 0)


@st.composite
def cases(draw, tier):
	i, o = draw(gen.styles), draw(gen.styles)
	return {
		'in': i, 'out': o, 'exp': draw(st.sampled_from([None, None, True, True, False])),
		'oq': draw(st.booleans()),
		'q': draw(gen.queries(i, zeros=True, values=vals, name_filter=gen.no_reserved, min_ph=1, scale=False)),
		'box': draw(gen.containers(i)), 'esc': draw(st.sampled_from([None, None, True])),
		'many': draw(st.booleans()),
	}


def check(c, ctx):
	sql, plain, expand = common.setup(c)
	want = model.meaning(c['in'], c['esc'], expand, sql, plain)
	q = gen.make(ctx.lib, c)
	what = '%s->%s expand_tuples=%r format(%s, %s)' % (c['in'], c['out'], c['exp'], ascii(sql), model.safe_repr(plain))
	if c['many']:
		r = must(what, q.formatmany, sql, [gen.contain(c['in'], c['box'], plain)])
		got = (r[0], r[1][0])
	else:
		got = must(what, q.format, sql, gen.contain(c['in'], c['box'], plain))
	common.expect_stream(what, common.read_back(what, c['out'], got, c['oq']), want, got[0])
	common.other_way(c, q, what, sql, gen.contain(c['in'], c['box'], plain), got)
	used = [d for _, d in common.used_values(c)]
	ctx.interesting(any(V.is_tuple(d) or d[0] in ('l', 'ml', 'd', 'st', 'r', 'c') for d in used))
	if expand:
		for d in used:
			if V.is_tuple(d):
				n = V.tuple_len(d)
				ctx.label('expanded length ' + (str(n) if n < 3 else '3..10' if n <= 10 else '11..' if n < 1000 else '1000+'))
	elif any(V.is_tuple(d) for d in used):
		ctx.label('tuple kept whole')
	ctx.label('expand_tuples=%s' % c['exp'])
	if any(d[0] == 'c' for d in used):
		ctx.label('collection of another type')
	names = [str(k) for k, d in common.used_values(c) if V.is_tuple(d)]
	if expand and len(set(names)) < len(names):
		ctx.label('tuple parameter used twice')
