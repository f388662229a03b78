"""C10: percent signs survive the percent styles."""
from ..strat import st

from .. import common, gen, grid, model
from ..core import Violation, must

EXAMPLES = {'quick': 7200, 'thorough': 120000}
RULE = ("every three of 41 bits of text (one in five in the quick tier), and random queries with percent signs everywhere (alone, doubled, '%s', '%(x)s', '%d', directly beside placeholders) from the seven styles "
	"which do not use %, into format and pyformat, evaluated with Python's own % operator, and converted back with escape_char=True; "
	"and into the other styles, where every percent sign has to stay; non-trivial = at least one percent sign in the text")

INS = tuple(s for s in model.STYLES if model.LEAD[s] != '%')
BITS = ('%', '%', '%', '%%', '%%%', '%s', '%(a)s', '%(', '%d', '%5.2f', '100%', 'LIKE \'%x%\'', '%%s', '%A', '%1', ' ', ' ', 'a ', '(', ')',
	"'", '\n', ',', '=', '{}', '{0}', '\\%', 's', 'x', '\u00e9', '% ', ' %', '-- 5%\n', '/*%*/')


@st.composite
def cases(draw, tier):
	i = draw(st.sampled_from(INS))
	o = draw(st.sampled_from(model.PERCENT + model.PERCENT + INS))
	q = draw(gen.queries(i, zeros=True, name_filter=gen.no_reserved, scale=False))
	toks = []
	for t in q['toks']:
		if t[0] == 'P':
			toks.append(t)
			continue
		bits = draw(st.lists(st.sampled_from(BITS), max_size=5))
		text = ''.join(bits)
		# After a name or number there must be no word character.
		if toks and model.is_word((text + ' ')[0]):
			text = draw(st.sampled_from(['%', ' '])) + text
		toks.append(['L', text])
	if i == 'qmark':
		for k in range(1, len(toks) - 1):
			if toks[k][0] == 'L' and not toks[k][1]:
				toks[k] = ['L', '%']
	elif i not in model.ORDINAL:
		for k in range(1, len(toks) - 1):
			if toks[k][0] == 'L' and not toks[k][1]:
				toks[k] = ['L', '%']
	return {'in': i, 'out': o, 'exp': draw(st.sampled_from([None, True, False])), 'oq': None,
		'q': {'toks': toks, 'params': q['params']}, 'box': draw(gen.containers(i)),
		'esc': draw(st.sampled_from([None, None, None, True, '\\', '%', '%%', '!'])), 'many': draw(st.booleans())}


def enumerate_cases(tier):
	"""Every three bits of text: at the start, between two placeholders, at the end."""
	yield from characters()
	yield from volume()
	n, m = grid.N(0), 0
	for a in BITS2:
		for b in BITS2:
			for z in BITS2:
				m += 1
				if tier == 'quick' and m % 5:
					continue
				for i in INS:
					n += 1
					o = model.PERCENT[(n // 2 + n // 14) % 2] if n % 5 else INS[n // 5 % len(INS)]
					q = grid.query(i, (0, 1), [(grid.S, grid.T2, grid.T0, ['n'])[n % 4], grid.S], n)
					q['toks'] = [['L', a], q['toks'][1], ['L', b if not model.is_word((b + ' ')[0]) and b else ' ' + b], q['toks'][3], ['L', z if not model.is_word((z + ' ')[0]) else ' ' + z]]
					yield {'in': i, 'out': o, 'exp': (None, True, False)[n % 3], 'oq': None, 'q': q, 'box': grid.box_of(i, n // 2), 'esc': (None, None, True, '\\')[n % 4], 'many': n % 7 < 3}



def volume():
	"""Percent signs behind many placeholders, many other percent signs, and long texts."""
	n = grid.N(0)
	for size in grid.VOLUME + (10001, 100001):
		for i in INS:
			for o in model.PERCENT:
				for unit in ('x ', ' %', '%%', '\n', ' %s '):
					n += 1
					q = grid.query(i, (0, 1), [(grid.S, grid.T2, grid.T0, ['n'])[n % 4], grid.S], n)
					run = unit * size
					q['toks'] = [['L', (run if n % 2 else '') + ' 5% '], q['toks'][1], ['L', ' %% a%'], q['toks'][3], ['L', ' %s ' + ('' if n % 2 else run) + ' 100%']]
					yield {'in': i, 'out': o, 'exp': (None, True, False)[n % 3], 'oq': None, 'q': q, 'box': grid.box_of(i, n // 2), 'esc': (None, True)[n % 2], 'many': n % 7 < 3}
	for n, c in grid.numbered(grid.counts(0, grid.VOLUME)):
		if c['in'] in INS:
			toks = [['L', t[1] + '%, '] if t[0] == 'L' else t for t in c['q']['toks']]
			yield dict(c, out=model.PERCENT[n % 2], oq=None, q=dict(c['q'], toks=toks), esc=(None, True)[n % 2], many=n % 3 == 0)


def characters():
	"""Every character beside percent signs, beside placeholders and in between."""
	n = grid.N(0)
	for ch in list(map(chr, range(0x180))) + list('\u200b\u2028\u2029\ufeff\uff05\u066a\ufe6a\u2052\ud800\U0001f600'):
		if ch in ':$@%?':
			continue
		for texts in ((ch + '% ', ' ' + ch + '%%', ' %' + ch), ('%' + ch + ' ', ' %%' + ch + '%', ' ' + ch + '%' + ch), (ch * 2 + '%', ' %' + ch * 2 + '%%', '%%%' + ch)):
			for a in grid.GROUPS:
				for o in model.PERCENT:
					n += 1
					i = [s for s in a if s in INS][n % sum(s in INS for s in a)]
					q = grid.query(i, (0, 1), [grid.S, (grid.S, grid.T2, grid.T0)[n % 3]], n)
					q['toks'] = [['L', texts[0]], q['toks'][1], ['L', texts[1]], q['toks'][3], ['L', texts[2]]]
					yield {'in': i, 'out': o, 'exp': (None, True, False)[n % 3], 'oq': None, 'q': q, 'box': grid.box_of(i, n // 2), 'esc': (None, None, True, '\\')[n % 4] if ch != '\\' else None, 'many': n % 7 < 3}


BITS2 = tuple(dict.fromkeys(BITS)) + ('%0', '%%%%', '%c %r', '%*d', '%-5s', '%%(a)s', '%i', '\\n%', '\uff05', '"%"')


class Token:
	def __init__(self, text):
		self.text = text

	def __str__(self):
		return self.text


def check(c, ctx):
	i, o = c['in'], c['out']
	sql, plain, expand = common.setup(c)
	want = model.meaning(i, c['esc'], expand, sql, plain)
	q = gen.make(ctx.lib, c)
	what = '%s->%s format(%s, %s)' % (i, o, ascii(sql), model.safe_repr(plain))
	box = gen.contain(i, c['box'], plain)
	if c['many']:
		r = must(what + ' (formatmany)', q.formatmany, sql, [box])
		got = (r[0], r[1][0])
	else:
		got = must(what, q.format, sql, box)
	common.other_way(c, q, what, sql, box, got)
	text = ''.join(t[1] for t in c['q']['toks'] if t[0] == 'L')
	ctx.interesting('%' in text)
	ctx.label('out: ' + (o if o in model.PERCENT else 'other'))
	if o not in model.PERCENT:
		if any(t[0] == 'L' and model.LEAD[o] in t[1] for t in want):
			return
		literals = ''.join(t[1] for t in model.scan(got[0], o) if t[0] == 'L')
		expect = ''.join(t[1] for t in want if t[0] == 'L')
		if literals.count('%') != expect.count('%') or ('%%' not in expect and '%%' in literals):
			raise Violation('%s gave %s: the percent signs changed' % (what, ascii(got[0])))
		stream = common.read_back(what, o, got)
		common.expect_stream(what, stream, want, got[0])
		return
	# Python's % operator is the oracle: bind a unique token to every value.
	marks, rendered = {}, []
	for tok in want:
		if tok[0] == 'L':
			rendered.append(tok[1])
		else:
			rendered.append('\ue000%d\ue001' % marks.setdefault(id(tok[1]), len(marks)))
	for v in (got[1].values() if isinstance(got[1], dict) else got[1]):
		if id(v) not in marks:
			raise Violation('%s returned the parameter %s which the query does not use' % (what, model.safe_repr(v)))
	token = lambda v: '\ue000%d\ue001' % marks[id(v)]
	if o == 'format':
		bind = tuple(token(v) for v in got[1])
	else:
		bind = {k: token(v) for k, v in got[1].items()}
	try:
		final = got[0] % bind
	except Exception as e:
		raise Violation('%s gave %s which Python cannot interpolate with %d parameters: %s' % (what, ascii(got[0]), len(bind), e))
	if final != ''.join(rendered):
		raise Violation('%s gave %s which means %s instead of %s' % (what, ascii(got[0]), ascii(final), ascii(''.join(rendered))))
	if any(t[0] == 'L' and model.LEAD[i] in t[1] for t in want):
		ctx.label('escaped lead')
		return
	# And back again.
	back = must('constructor', ctx.lib.SQLParams, o, i, escape_char=True, expand_tuples=False)
	what2 = 'the way back of %s, %s->%s format(%s)' % (what, o, i, ascii(got[0]))
	out = must(what2, back.format, got[0], got[1])
	stream = common.read_back(what2, i, out)
	common.expect_stream(what2, stream, want, out[0])
	toks = c['q']['toks']
	if any(a[0] == 'L' and b[0] == 'P' and a[1].endswith('%') for a, b in zip(toks, toks[1:])):
		ctx.label('percent directly before a placeholder')
	if any(a[0] == 'P' and b[0] == 'L' and b[1].startswith('%') for a, b in zip(toks, toks[1:])):
		ctx.label('percent directly after a placeholder')
