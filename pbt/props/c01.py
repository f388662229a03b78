"""C01: the converted query binds every placeholder to its original value."""
from ..strat import st

from .. import common, gen, grid, model
from .. import values as V
from . import c16
from ..core import must

EXAMPLES = {'quick': 16000, 'thorough': 240000}
RULE = ("(a) all small queries of two parameters with repetition, kinds of values, related and Unicode names, runs of one letter, large and padded numbers, long texts, many parameters, parameters which are one and the same object, and texts of many kinds around and between the placeholders for every pair of styles, and (b) structured queries (marker-free literals between placeholders) for a random (in-style, out-style) pair "
	"and option set, params in a random container; non-trivial = at least one placeholder whose value reaches the output")
ASSUMPTIONS = ("a placeholder is followed by a non-word character, and the literal text contains no marker of either style",)


def enumerate_cases(tier):
	yield from grid.patterns()
	yield from grid.kinds()
	yield from grid.pairs_of_names(model.STYLES, (None,))
	yield from grid.large(model.STYLES)
	yield from grid.counts()
	yield from grid.far()
	yield from grid.crowds()
	yield from grid.texts()
	yield from grid.places()
	yield from grid.long_pairs(('named', 'named_oracle'))
	yield from grid.words()
	yield from grid.unicode_names(model.STYLES)
	yield from grid.identical()
	yield from grid.zeros()
	yield from grid.big_numbers()
	yield from grid.reuse()
	yield from grid.stretched()
	yield from grid.contexts()
	yield from (c for c in c16.keyed() if c16.complete(c))


@st.composite
def cases(draw, tier):
	i, o = draw(gen.styles), draw(gen.styles)
	exp = draw(st.sampled_from([None, None, True, False]))
	return {
		'in': i, 'out': o, 'exp': exp,
		'oq': draw(st.booleans()) if o == 'named_oracle' else None,
		'q': draw(gen.queries(i, zeros=True, name_filter=gen.no_reserved)),
		'box': draw(gen.containers(i)),
	}



REGRESSIONS = [
	{'in': 'named', 'out': 'numeric', 'exp': None, 'oq': None, 'box': 'dict',
		'q': {'toks': [['L', 'SELECT 1']], 'params': []}},
	{'in': 'qmark', 'out': 'numeric', 'exp': None, 'oq': None, 'box': 'list',
		'q': {'toks': [['L', 'SELECT 1 ']], 'params': []}},
	{'in': 'numeric', 'out': 'numeric_dollar', 'exp': None, 'oq': None, 'box': 'list',
		'q': {'toks': [['L', ' '], ['P', 1], ['L', ' ']], 'params': [['t', []]]}},
]


def check(c, ctx):
	if c.get('kind') == 'keys':
		return c16.check_keys(c, ctx)
	sql, plain, expand = common.setup(c)
	want = model.meaning(c['in'], None, expand, sql, plain)
	lib = gen.make(ctx.lib, c)
	what = '%s->%s format(%s)' % (c['in'], c['out'], ascii(sql))
	got = must(what, lib.format, sql, gen.contain(c['in'], c['box'], plain))
	stream = common.read_back(what, c['out'], got, c['oq'])
	common.expect_stream(what, stream, want, got[0])
	common.other_way(c, lib, what, sql, gen.contain(c['in'], c['box'], plain), got)
	ctx.interesting(any(t[0] == 'V' for t in want))
	ctx.label('pair:%s>%s' % (kind(c['in']), kind(c['out'])))
	used = common.used_values(c)
	if expand and any(V.is_tuple(d) for _, d in used):
		ctx.label('expanded tuple')
	if len(used) > 10:
		ctx.label('more than 10 placeholders')
	if len({k for k, _ in used}) < len(used):
		ctx.label('repeated parameter')
	if not used:
		ctx.label('no placeholder')


def kind(style):
	return 'named' if style in model.NAMED else 'numeric' if style in model.NUMERIC else 'ordinal'
