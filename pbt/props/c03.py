"""C03: values travel beside the query, untouched; the SQL depends on their shape only."""
from ..strat import st

from .. import common, gen, grid, model
from .. import values as V
from ..core import Violation, must

EXAMPLES = {'quick': 12000, 'thorough': 160000}
RULE = ("(a) every kind of value (150 types) in every pair of styles and (b) structured queries over all 81 style pairs; each is converted with (1) values which raise on every inspection, (2) hostile "
	"strings, (3) random values, all of one shape; the three queries must be equal and every value must come out as the "
	"same object; non-trivial = at least one placeholder")


def enumerate_cases(tier):
	for n, c in grid.numbered(grid.kinds((None,) if tier == 'quick' else (None, True, False))):
		yield dict(c, other=grid.rows(c['q'], c['in'], 2)[1], bytes=n % 4 == 0, strip=True if n % 5 == 0 else None)
	for n, c in grid.numbered(grid.contexts()):
		if tier != 'quick' or n % 3 == 0:
			yield dict(c, other=grid.rows(c['q'], c['in'], 2)[1], bytes=n % 4 == 0, strip=True if n % 5 == 0 else None)
	for n, c in grid.numbered(grid.volume()):
		yield dict(c, other=grid.rows(c['q'], c['in'], 2)[1], bytes=n % 4 == 0, strip=True if n % 5 == 0 else None)


@st.composite
def cases(draw, tier):
	i, o = draw(gen.styles), draw(gen.styles)
	q = draw(gen.queries(i, zeros=True, name_filter=gen.no_reserved))
	return {
		'in': i, 'out': o, 'exp': draw(st.sampled_from([None, True, False])),
		'oq': draw(st.booleans()), 'q': q,
		'other': gen.rows_like(draw, i, q['params'], 1)[0],
		'box': draw(gen.containers(i)), 'bytes': draw(st.booleans()),
		'strip': draw(st.sampled_from([None, None, True])),
	}


def reshape(desc, counter, fn):
	if V.is_tuple(desc):
		out = []
		for _ in range(V.tuple_len(desc)):
			counter[0] += 1
			out.append(fn(counter[0]))
		return ['t', out]
	counter[0] += 1
	return fn(counter[0])


def flatten(values, expand):
	out = []
	for v in values:
		if expand and isinstance(v, tuple):
			out.extend(v)
		else:
			out.append(v)
	return out


def check(c, ctx):
	sql = gen.sql_of(c['q']['toks'], c['in'])
	named = c['in'] in model.NAMED
	pairs = c['q']['params'] if named else [[n, d] for n, d in enumerate(c['q']['params'])]
	shapes = []
	for fn in (
		lambda n: ['o', n],
		lambda n: ['s', "\u00a7Q7\u00a7%d' OR 1=1; :a ? %%s $1 @a --" % n],
	):
		counter = [0]
		new = [[k, reshape(d, counter, fn)] for k, d in pairs]
		shapes.append(new if named else [d for _, d in new])
	shapes += [c['q']['params'], c['other']]
	q = gen.make(ctx.lib, c)
	expand = model.resolve_exp(c['out'], c['exp'])
	if c['bytes']:
		try:
			sql = sql.encode('latin1')
		except UnicodeEncodeError:
			pass
	results, many_in = [], []
	for params in shapes:
		plain = gen.build_params(c['in'], params)
		many_in.append(plain)
		what = '%s->%s format(%s, %s)' % (c['in'], c['out'], ascii(sql), model.safe_repr(plain))
		out = must(what, q.format, sql, gen.contain(c['in'], c['box'], plain))
		results.append(out)
		if out[0] != results[0][0]:
			raise Violation('%s gave %s, but other values of the same shape gave %s' % (
				what, ascii(out[0]), ascii(results[0][0])))
		have = list(out[1].values()) if isinstance(out[1], dict) else list(out[1])
		mine = {id(v) for v in flatten(plain.values() if named else plain, expand)}
		for v in have:
			if id(v) not in mine:
				raise Violation('%s put %s among the out-parameters, which was not given' % (what, model.safe_repr(v)))
	text = results[0][0]
	text = text.decode('latin1') if isinstance(text, bytes) else text
	for mark in ('\u00a7Q7\u00a7', 'SECRET-'):
		if mark not in text or mark in gen.sql_of(c['q']['toks'], c['in']):
			continue
		raise Violation('%s->%s leaked a value into the query %s' % (c['in'], c['out'], ascii(text)))
	what = '%s->%s formatmany(%s)' % (c['in'], c['out'], ascii(sql))
	many = must(what, q.formatmany, sql, [gen.contain(c['in'], c['box'], p) for p in many_in])
	if many[0] != results[0][0]:
		raise Violation('%s gave the query %s, format() gave %s' % (what, ascii(many[0]), ascii(results[0][0])))
	if len(many[1]) != len(results):
		raise Violation('%s gave %d sets for %d' % (what, len(many[1]), len(results)))
	for a, b in zip(many[1], results):
		if not common.same_exact(a, b[1]):
			raise Violation('%s gave %s, format() gave %s' % (what, model.safe_repr(a), model.safe_repr(b[1])))
	n = common.count_ph(c)
	ctx.interesting(n > 0)
	ctx.label('bytes query' if isinstance(sql, bytes) else 'str query')
	if expand and any(V.is_tuple(d) for _, d in common.used_values(c)):
		ctx.label('expanded tuple')
