"""C06: named out-parameters are complete, minimal, and never shared."""
import itertools

from ..strat import st

from .. import common, gen, grid, model
from .. import values as V
from ..core import Violation, must

EXAMPLES = {'quick': 16000, 'thorough': 200000}
RULE = ("(a) all pairs of 25 related names, of 12 numbers and of positions, with 6 shapes, Unicode names, keywords, long names which differ in one place, padded and very large numbers, and (b) structured queries into the five named out-styles, expanding tuples or not, with up to 100 parameters and tuple lengths up to "
	"23; non-trivial = at least two distinct sources (parameter, or element of a tuple)")
ASSUMPTIONS = ("no in-parameter has a name ending in __<n>_sqlp while tuples are expanded (known finding)",
	"names are compared as written (unquoted named_oracle output is not folded)", "numbers are written without leading zeros")

values = st.one_of(gen.any_value, gen.some_tuples)


def enumerate_cases(tier):
	exps = (True,) if tier == 'quick' else (None, True, False)
	yield from grid.pairs_of_names(model.NAMED, exps)
	yield from grid.pairs_of_numbers(model.NAMED, exps)
	yield from grid.ordinals(model.NAMED, exps)
	yield from grid.large(model.NAMED)
	yield from grid.patterns(outs=model.NAMED)
	yield from grid.unicode_names(model.NAMED)
	yield from grid.long_pairs(model.NAMED)
	yield from grid.words(model.NAMED)
	yield from grid.identical(model.NAMED)
	yield from grid.big_numbers(model.NAMED)
	yield from grid.reuse(model.NAMED)
	yield from grid.stretched(model.NAMED)
	yield from (c for c in itertools.chain(grid.counts(), grid.lengths()) if c['out'] in model.NAMED)


@st.composite
def cases(draw, tier):
	i, o = draw(gen.styles), draw(st.sampled_from(model.NAMED))
	exp = draw(st.sampled_from([None, True, True, True, False]))
	return {
		'in': i, 'out': o, 'exp': exp, 'oq': draw(st.booleans()),
		'q': draw(gen.queries(i, values=values, name_filter=gen.no_reserved if exp else None)),
		'box': draw(gen.containers(i)),
	}


def check(c, ctx):
	sql, plain, expand = common.setup(c)
	q = gen.make(ctx.lib, c)
	what = '%s->%s format(%s, %s)' % (c['in'], c['out'], ascii(sql), model.safe_repr(plain))
	got = must(what, q.format, sql, gen.contain(c['in'], c['box'], plain))
	out_sql, out = got
	common.read_back(what, c['out'], got, c['oq'])
	common.other_way(c, q, what, sql, gen.contain(c['in'], c['box'], plain), got)
	sources, counter = [], [0]
	for tok in model.scan(sql, c['in']):
		if tok[0] != 'P':
			continue
		ident, base, value = model.lookup(c['in'], tok[1], counter, plain)
		if expand and isinstance(value, tuple):
			sources += [((ident, k), None, v) for k, v in enumerate(value)]
		else:
			sources.append(((ident, None), base if c['in'] in model.NAMED else None, value))
	found = []
	for t in model.scan(out_sql, c['out']):
		if t[0] == 'P':
			name, quoted = t[1]
			if quoted != bool(c['oq'] and c['out'] == 'named_oracle'):
				raise Violation('%s gave %s: wrong quoting' % (what, ascii(out_sql)))
			found.append(('"%s"' % name if quoted else name, name))
	if len(found) != len(sources):
		raise Violation('%s gave %s with %d placeholders instead of %d' % (what, ascii(out_sql), len(found), len(sources)))
	by_source, by_name = {}, {}
	for (key, name), (ident, keep, value) in zip(found, sources):
		if keep is not None and name != keep:
			raise Violation('%s renamed %r to %r' % (what, keep, name))
		if by_source.setdefault(ident, key) != key:
			raise Violation('%s used two names for one parameter: %r and %r' % (what, by_source[ident], key))
		if by_name.setdefault(key, ident) != ident:
			raise Violation('%s used the name %r for two parameters: %r and %r' % (what, key, by_name[key], ident))
		if out[key] is not value:
			raise Violation('%s bound %r to %s instead of %s' % (what, key, model.safe_repr(out[key]), model.safe_repr(value)))
	ctx.interesting(len(by_source) > 1)
	if expand and any(V.is_tuple(d) for _, d in common.used_values(c)):
		ctx.label('expanded tuple')
	if len(by_source) > 10:
		ctx.label('more than 10 names')
	if len(by_source) < len(sources):
		ctx.label('repeated source')
	ctx.label('quoted' if c['oq'] and c['out'] == 'named_oracle' else 'unquoted')
