"""C18: the result depends on nothing but the referenced parameters and the text around them."""
import itertools

from ..strat import st

from .. import common, gen, grid, model
from .. import values as V
from ..core import Violation, must

EXAMPLES = {'quick': 5600, 'thorough': 100000}
RULE = ("every character up to U+017F at the ends of a query and beside placeholders, in runs of up to 70; texts of up to 300000 characters; up to 70000 parameters which are not used; random queries: (extra) parameters which the query does not refer to are added, removed or replaced, before, between and after the others: the "
	"result stays identical; (split) two queries are converted apart and joined: for ordinal out-styles the result of the joined query is "
	"the concatenation, for named out-styles of named queries the union; (text) replacing literal text by other literal text changes "
	"nothing but that text; non-trivial = at least one placeholder")


RUNS = ('\r\n', '\n ', ' \n', '\t ', "''", "' '", '--', '/*', '*/', '{}', '{0}', '()', ', ', '\\\\', '\\n', 'a ', '; ', '\x00 ')


def enumerate_cases(tier):
	# Runs of every character.
	n = grid.N(0)
	for text in [chr(k) for k in range(0x180)] + list(RUNS):
		if text in ':$@%?':
			continue
		for size in (3, 4, 9, 70):
			for i, o in grid.kind_pairs(n):
				n += 1
				q = grid.query(i, (0, 1), [grid.S, grid.T2], n)
				q['toks'] = [['L', ' '], q['toks'][1], ['L', ' ']]
				q['params'] = q['params'] if i not in model.ORDINAL else q['params'][:1]
				run = text * size
				yield {'in': i, 'out': o, 'exp': None, 'oq': False, 'box': grid.box_of(i, n), 'q': q, 'rel': 'text', 'many': n % 3 == 0, 'texts': [run + ' ', ' ' + run]}
			n += 1
	# Many parameters which are not used.
	for filler in (1, 9, 10, 11, 99, 100, 250, 256, 999, 1000, 1001, 1024, 5000, 70000):
		for a, b in itertools.product(range(3), repeat=2):
			n += 1
			i, o = grid.GROUPS[a][n % len(grid.GROUPS[a])], grid.GROUPS[b][n // 2 % len(grid.GROUPS[b])]
			for many in (False, True):
				for front in (False, True):
					yield {'in': i, 'out': o, 'exp': (None, True, False)[n % 3], 'oq': False, 'box': 'dict' if i in model.NAMED else 'list', 'rel': 'extra', 'many': many,
						'q': grid.query(i, (0, 1, 0), [grid.S, grid.T2], n), 'extra': [['other', grid.S]], 'drop': False, 'front': front, 'filler': filler, 'keys': []}
	for n, c in grid.numbered(grid.identical(exps=(True,))):
		# Values which the query does not use, one of them the same object as one it does use.
		d = c['q']['params'][0]
		if c['in'] in model.NAMED:
			yield dict(c, rel='extra', many=n % 2 == 0, extra=[['OTHER', d[1]], ['X', grid.S]], drop=False, front=n // 2 % 2 == 0, filler=0, keys=[])
		else:
			yield dict(c, rel='extra', many=n % 2 == 0, extra=[['OTHER', d], ['X', grid.S]], drop=False, front=n // 2 % 2 == 0, filler=0, keys=[])
	for n, c in grid.numbered(grid.far()):
		texts = [t[1] for t in c['q']['toks'] if t[0] == 'L']
		toks = [['L', ' x '] if t[0] == 'L' else t for t in c['q']['toks']]
		yield dict(c, q=dict(c['q'], toks=toks), rel='text', many=n % 3 == 0, texts=[' ' + t for t in texts[:4]])
	for n, c in grid.numbered(itertools.chain(grid.counts(0, grid.VOLUME), grid.lengths(0, grid.VOLUME), grid.crowds((33, 257)))):
		# The same, around many placeholders, in two halves, or with more parameters.
		toks = c['q']['toks']
		number = sum(t[0] == 'P' for t in toks)
		yield dict(c, rel='text', many=n % 3 == 0, texts=[(' x ', ' 5 = ', ', ', ' ( ')[(n + k) % 4] for k in range(4)])
		named = [[key_like(c['in']), grid.S]]
		yield dict(c, rel='extra', many=n % 3 == 1, extra=named, drop=False, front=n % 2 == 0, filler=0, keys=[])
		if c['in'] in model.ORDINAL or c['in'] in model.NAMED:
			o = c['out'] if c['in'] in model.NAMED and c['out'] in model.NAMED else model.ORDINAL[n % 2]
			yield dict(c, out=o, rel='split', many=n % 3 == 2, at=(0, 1, number // 2, number - 1)[n % 4])
	for n, c in grid.numbered(grid.contexts()):
		texts = [t[1] for t in c['q']['toks'] if t[0] == 'L']
		yield dict(c, q=dict(c['q'], toks=[['L', ' x '] if t[0] == 'L' else t for t in c['q']['toks']]), rel='text', many=n % 3 == 0, texts=texts)
	for n, c in grid.numbered(grid.texts()):
		a, b, z = (t[1] for t in c['q']['toks'] if t[0] == 'L')
		q = dict(c['q'], toks=[['L', ' x '], c['q']['toks'][1], ['L', ' y ']])
		for many in (False, True):
			yield dict(c, q=q, rel='text', many=many, texts=[a, z])
		yield dict(c, rel='split', many=n % 3 == 1, at=n % 3, out=c['out'] if c['in'] in model.NAMED and c['out'] in model.NAMED else model.ORDINAL[n % 2])


def key_like(style):
	return 'OTHER_%s' % style.upper()


@st.composite
def cases(draw, tier):
	rel = draw(st.sampled_from(['extra', 'extra', 'split', 'text']))
	i = draw(gen.styles)
	o = draw(gen.styles)
	if rel == 'split':
		o = draw(st.sampled_from(model.ORDINAL + (model.NAMED if i in model.NAMED else ())))
	q = draw(gen.queries(i, zeros=True, name_filter=gen.no_reserved))
	case = {'in': i, 'out': o, 'exp': draw(st.sampled_from([None, True, False])), 'oq': draw(st.booleans()), 'q': q, 'rel': rel,
		'box': draw(gen.containers(i)), 'many': draw(st.booleans())}
	if rel == 'extra':
		case['extra'] = draw(st.lists(st.tuples(gen.names(ascii_only=i == 'named_oracle'), gen.any_value), min_size=1, max_size=4))
		case['drop'] = draw(st.booleans())
		case['front'] = draw(st.booleans())
		case['filler'] = draw(st.sampled_from([0, 0, 0, 0, 0, 0, 0, 12, 120, 1500]))
		case['keys'] = draw(st.lists(st.sampled_from(['-1', 'x y', None, -1, -2, 10000, '20000', 0.5, '', '0x1', ' a', 'a ', '1a', '""', '" A"', ':a', 'a\0']), max_size=3, unique=True))
	if rel == 'split':
		case['at'] = draw(st.integers(0, 20))
	if rel == 'text':
		case['texts'] = [draw(gen.literal()) for _ in range(4)]
	return case


def run(q, c, what, sql, box):
	if c['many']:
		r = must(what, q.formatmany, sql, [box, box])
		got = r[0], r[1][1]
	else:
		got = must(what, q.format, sql, box)
	common.other_way(c, q, what, sql, box, got)
	return got


def check(c, ctx):
	i, rel = c['in'], c['rel']
	named = i in model.NAMED
	sql, plain, expand = common.setup(c)
	q = gen.make(ctx.lib, c)
	what = '%s->%s format(%s, %s)' % (i, c['out'], ascii(sql), model.safe_repr(plain))
	base = run(q, c, what, sql, gen.contain(i, c['box'], plain))
	ctx.interesting(common.count_ph(c) > 0)
	ctx.label('relation: ' + rel)
	if rel == 'extra':
		used = {k for k, _ in common.used_values(c)}
		if named:
			have = {model.oracle_key(k) for k in plain} if i == 'named_oracle' else set(plain)
			new = {k: v for k, v in plain.items() if k in used or not c['drop']}
			add = {}
			for name, d in c['extra']:
				if (model.oracle_key(name) if i == 'named_oracle' else name) not in have:
					add[name] = V.build(d)
			for k in range(c.get('filler', 0)):
				if 'FILL%d' % k not in have:
					add['FILL%d' % k] = k
			if i == 'named_oracle':
				keep = {}
				for k, v in add.items():
					keep[model.oracle_key(k)] = (k, v)
				add = dict(keep.values())
			for k in c.get('keys') or ():
				# Keys which no placeholder can refer to.
				if i != 'named_oracle' or isinstance(k, str):
					add[k] = 'more'
			box = {**add, **new} if c['front'] else {**new, **add}
			box = gen.contain(i, c['box'], box)
		else:
			base_no = 1 if i in model.NUMERIC else 0
			values = [v if k + base_no in used or not c['drop'] else 'other' for k, v in enumerate(plain)]
			values += [V.build(d) for _, d in c['extra']]
			values += ['filler'] * c.get('filler', 0)
			box = gen.contain(i, c['box'], values)
			if ':' in c['box'] and c.get('keys'):
				# Keys which no placeholder can refer to.
				more = [(k, 'more') for k in c['keys']]
				items = list(box.items())
				box = V.make_mapping(c['box'].split(':')[1], more + items if c['front'] else items + more)
		got = run(q, c, what + ' with other parameters', sql, box)
		if not common.same_result(got, base):
			raise Violation('%s gave %s with %s; with unrelated parameters in %s it gave %s with %s' % (
				what, ascii(base[0]), model.safe_repr(base[1]), model.safe_repr(box), ascii(got[0]), model.safe_repr(got[1])))
	elif rel == 'split':
		toks = c['q']['toks']
		cuts = [k for k, t in enumerate(toks) if t[0] == 'L']
		at = cuts[c['at'] % len(cuts)] + 1
		left, right = toks[:at], toks[at:]
		if right and right[0][0] == 'P':
			right = [['L', ' ']] + right
		first, second = gen.sql_of(left, i), gen.sql_of(right, i)
		both = run(q, c, what, first + second, gen.contain(i, c['box'], plain))
		n = sum(t[0] == 'P' for t in left)
		rest = plain[n:] if i in model.ORDINAL else plain
		a = run(q, c, what + ' (first part)', first, gen.contain(i, c['box'], plain))
		b = run(q, c, what + ' (second part)', second, gen.contain(i, c['box'], rest))
		joined = {**a[1], **b[1]} if isinstance(a[1], dict) else a[1] + b[1]
		if both[0] != a[0] + b[0] or not common.same_exact(both[1], joined):
			raise Violation('%s->%s: %s gives %s with %s, and %s gives %s with %s, but together they give %s with %s' % (
				i, c['out'], ascii(first), ascii(a[0]), model.safe_repr(a[1]), ascii(second), ascii(b[0]), model.safe_repr(b[1]),
				ascii(both[0]), model.safe_repr(both[1])))
	else:
		toks, n, pairs = [], 0, []
		for t in c['q']['toks']:
			if t[0] == 'L':
				pairs.append((t[1], c['texts'][n % 4]))
				t = ['L', c['texts'][n % 4]]
				n += 1
			toks.append(t)
		other = gen.sql_of(toks, i)
		got = run(q, c, '%s->%s format(%s)' % (i, c['out'], ascii(other)), other, gen.contain(i, c['box'], plain))
		if not common.same_exact(got[1], base[1]):
			raise Violation('%s gave %s, but %s around the same placeholders gave %s' % (
				what, model.safe_repr(base[1]), ascii(other), model.safe_repr(got[1])))
		# The replacement of each placeholder is the same in both.
		pieces = cut(base[0], [p[0] for p in pairs], what)
		pieces2 = cut(got[0], [p[1] for p in pairs], what)
		if pieces is not None and pieces2 is not None and pieces != pieces2:
			raise Violation('%s gave %s, but with other text %s' % (what, ascii(base[0]), ascii(got[0])))


def cut(sql, texts, what):
	"""What stands between the literal texts (None when they are not where they were)."""
	if not sql.startswith(texts[0]):
		raise Violation('%s changed the text %s at the start of %s' % (what, ascii(texts[0]), ascii(sql)))
	if not sql.endswith(texts[-1]):
		raise Violation('%s changed the text %s at the end of %s' % (what, ascii(texts[-1]), ascii(sql)))
	return None if len(texts) > 2 else sql[len(texts[0]):len(sql) - len(texts[-1])] if len(texts) == 2 else ''
