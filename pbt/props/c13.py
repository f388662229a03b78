"""C13: Oracle parameter names: unquoted fold case, quoted do not; output quoting."""
import itertools

from ..strat import st

from .. import common, gen, grid, model
from .. import values as V
from . import c17
from ..core import Violation, attempt, error_text, must

EXAMPLES = {'quick': 5600, 'thorough': 100000}
RULE = ("(a) every combination of one or two placeholders and one or two parameter keys over the names a, A, aB, AB in quoted and unquoted "
	"spelling, into 5 out-styles (thorough: 9), and (b) random Oracle queries with names in mixed case and quoting, into all out-styles with "
	"and without allow_out_quotes, as format and formatmany; compared with the model of Oracle's rule; non-trivial = a quoted spelling, "
	"or a reference spelled unlike its key")
ASSUMPTIONS = ("ASCII names, and letters whose upper and lower case are single letters", "no two keys of one parameter set mean the same parameter")

NAMES = ('a', 'A', 'aB', 'AB')
SPELLINGS = tuple((n, q) for n in NAMES for q in (False, True))


def spell(n, quoted):
	return '"%s"' % n if quoted else n


def enumerate_cases(tier):
	keys = [spell(*s) for s in SPELLINGS]
	sets = [[k] for k in keys] + [list(p) for p in itertools.combinations(keys, 2)] + [list(reversed(p)) for p in itertools.combinations(keys, 2)]
	count = grid.N(0)
	outs = ('named_oracle', 'named', 'qmark', 'numeric', 'pyformat') if tier == 'quick' else model.STYLES
	for ks in sets:
		if len({model.oracle_key(k) for k in ks}) < len(ks):
			continue
		for n in (1, 2):
			for refs in itertools.product(SPELLINGS, repeat=n):
				for o in outs:
					for oq in ((False, True) if o == 'named_oracle' else (False,)):
						count += 1
						yield {'in': 'named_oracle', 'out': o, 'exp': None, 'oq': oq, 'box': 'dict', 'many': count % 3 == 0,
							'q': {'toks': [['L', 'x ']] + [t for r in refs for t in (['P', list(r)], ['L', ' '])],
								'params': [[k, ['s', 'v%d' % j]] for j, k in enumerate(ks)]}}

	# Into Oracle: every kind of placeholder, tuples of every length, related and long names, words.
	more = itertools.chain(
		(dict(c, out='named_oracle') for c in grid.lengths(130, (256, 1000, 1001, 2101))), (dict(c, out='named_oracle') for c in grid.counts(130, (256, 1000, 1001, 2101))), grid.patterns(outs=('named_oracle',), exps=(True,)), grid.ordinals(('named_oracle',), (True,)),
		grid.pairs_of_numbers(('named_oracle',), (True,)), grid.pairs_of_names(('named_oracle',), (True,)), grid.words(('named_oracle',), (True,)), grid.large(('named_oracle',), (300,)),
		(c for c in itertools.chain(grid.pairs_of_names(outs, (None,)), grid.words(outs, (True,))) if c['in'] == 'named_oracle'),
		(dict(c, out=o, exp=True) for o in outs for c in c17.folded_names()))
	for n, c in grid.numbered(more):
		for oq in ((False, True) if c['out'] == 'named_oracle' else (False,)):
			yield dict(c, oq=oq, many=n % 3 == 0)


	# Keys which mean no name that can be written, beside the right one and alone.
	for odd in ODD:
		for o in model.STYLES:
			for name, quoted in (('a', False), ('A', True), ('a', True), ('AB', False), ('_', False)):
				for where in ('before', 'after', 'alone'):
					count += 1
					right = spell(name if quoted else name.upper(), True) if count % 2 else name if not quoted else spell(name, True)
					params = {'before': [[odd, ['i', 1]], [right, ['s', 'vv']]], 'after': [[right, ['s', 'vv']], [odd, ['i', 1]]], 'alone': [[odd, ['i', 1]]]}[where]
					yield {'in': 'named_oracle', 'out': o, 'exp': None, 'oq': count % 3 == 0, 'box': V.MAPPINGS[count // 2 % len(V.MAPPINGS)], 'many': count % 5 < 2,
						'q': {'toks': [['L', 'x '], ['P', [name, quoted]], ['L', ' ']], 'params': params}}


ODD = ('', '""', ' A', 'A ', ' A ', '\tA', 'A\n', '\nA', 'A\u00a0', '\ufeffA', '" A"', '"A "', '"a b"', '"a\n"', '"\n"', "'A'", "'a'", '`A`', '[A]', '(A)', ':A', '%A', '$A', '@A', '&A',
	'A.B', 'A:B', 'A-B', 'A,', 'A;', '\\A', 'A\0', '"A\0"', '0', '1', '"1"', '"1A"', '1A', '__A', '_A_', '""A""', '""a""', '"a"b"', '"A""', 'A"A', 'AA', '"AA"', "''", '?', '"?"', '"%"', '{A}', '"\\A"', '""""', '"""')


@st.composite
def cases(draw, tier):
	o = draw(st.sampled_from(model.STYLES + ('named_oracle',) * 4))
	i = draw(st.sampled_from(model.STYLES)) if o == 'named_oracle' and draw(st.booleans()) else 'named_oracle'
	q = draw(gen.queries(i, name_filter=gen.no_reserved))
	if i == 'named_oracle' and draw(st.integers(0, 3)) == 0 and q['toks']:
		# Break one reference, so that nothing matches.
		at = [k for k, t in enumerate(q['toks']) if t[0] == 'P']
		if at:
			k = draw(st.sampled_from(at))
			name, quoted = q['toks'][k][1]
			q['toks'][k] = ['P', draw(st.sampled_from([[name.lower(), True], [name.swapcase(), True], [name + 'x', quoted], [name.upper(), quoted]]))]
	return {'in': i, 'out': o, 'exp': draw(st.sampled_from([None, True, False])), 'oq': draw(st.booleans()), 'q': q,
		'box': draw(gen.containers(i)), 'many': draw(st.booleans()),
		'esc': draw(st.sampled_from([None, None, True]))}


def check(c, ctx):
	i, o = c['in'], c['out']
	sql, plain, expand = common.setup(c)
	q = gen.make(ctx.lib, c)
	what = '%s->%s allow_out_quotes=%r format(%s, %s)' % (i, o, c['oq'], ascii(sql), model.safe_repr(plain))
	box = gen.contain(i, c['box'], plain)
	try:
		want = model.convert(i, o, c.get('esc'), c['exp'], c['oq'], sql, plain)
	except model.ModelError as e:
		want, missing = None, e
	if c.get('many'):
		r = attempt(q.formatmany, sql, [box, box])
		got = r
		if r.ok:
			got.value = (r.value[0], r.value[1][1])
	else:
		got = attempt(q.format, sql, box)
	refs = [t[1] for t in c['q']['toks'] if t[0] == 'P']
	if i == 'named_oracle':
		keys = [k for k, _ in c['q']['params']]
		ctx.interesting(any(quoted or name not in keys for name, quoted in refs))
	else:
		ctx.interesting(bool(refs))
	if want is None:
		ctx.label('no such parameter')
		if got.ok or not isinstance(got.error, LookupError):
			raise Violation('%s %s, but there is no parameter %s' % (what, got.describe(), missing))
		return
	if not got.ok:
		raise Violation('%s %s, expected %s' % (what, got.describe(), ascii(want[0])))
	if not common.same_result(got.value, want):
		raise Violation('%s gave %s with %s, expected %s with %s' % (
			what, ascii(got.value[0]), model.safe_repr(got.value[1]), ascii(want[0]), model.safe_repr(want[1])))
	common.other_way(c, q, what, sql, box, want)
	if o == 'named_oracle':
		ctx.label('into Oracle, %s' % ('quoted' if c['oq'] else 'unquoted'))
	if o == 'named_oracle' and c['oq'] and not c.get('esc'):
		# A quoted result is itself an Oracle query: converting it again changes nothing.
		again = must('second conversion of ' + what,
			ctx.lib.SQLParams('named_oracle', 'named_oracle', expand_tuples=False, allow_out_quotes=True).format, *want)
		if not common.same_result(again, want):
			raise Violation('%s gave %s, which converts to %s' % (what, ascii(want[0]), ascii(again[0])))
		ctx.label('stable under a second conversion')
