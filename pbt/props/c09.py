"""C09: escape sequences stand for one literal lead character, and for nothing else."""
import itertools

from ..strat import st

from .. import common, gen, grid, model
from ..core import Violation, must
from . import c02

EXAMPLES = {'quick': 8000, 'thorough': 140000}
RULE = ("(a) for 45 escape strings, every text of up to 3 (thorough: 4) pieces: the lead, the escape, its characters, the same in the other case, a placeholder, "
	"and text, against the exact model; (b) three relations over random texts and all 81 style pairs: (sub) replacing every escape sequence by a private-use character and "
	"putting the lead character in its place afterwards gives the same query and parameters; (text) escaping all leads of an arbitrary text "
	"gives the text back with no parameters; (off) with escaping disabled doubled leads stay as they are; non-trivial = at least one "
	"escape sequence or doubled lead")
ASSUMPTIONS = ("a custom escape string does not directly precede a lead except in escape sequences",)

PRIVATE = '\ue000'
CUSTOM = ('\\', '!', '!!', '^', '~', '\\\\', '|', '.', '*', '[', '(', '#', '{', '}', '&', '[^', '!^!', '\u00a6', '+', '`')


def enumerate_cases(tier):
	for n, (i, o, esc, sql) in grid.numbered(grid.raw_volume()):
		yield {'in': i, 'out': o, 'mode': 'model', 'esc': esc, 'sql': sql, 'oq': n % 2 == 0, 'many': n % 3 == 0}
	n = grid.N(0)
	# Every character directly beside an escape sequence.
	for i in model.STYLES:
		for esc in (True, '\\', '!', '!!'):
			mark = model.resolve_esc(i, esc) + model.LEAD[i]
			for ch in map(chr, range(1, 0x180)):
				for sql in ('x ' + mark + ch + ' y', 'x ' + ch + mark + ' y', ch + mark + ch):
					n += 1
					yield {'in': i, 'out': model.STYLES[n % 9], 'mode': 'model', 'esc': esc, 'sql': sql, 'oq': n % 2 == 0, 'many': n % 3 == 0}
	for i in model.STYLES:
		lead = model.LEAD[i]
		ph = model.write_placeholder(i, '1' if i in model.NUMERIC else 'a')
		for esc in (None, True) + CUSTOM + ('%', '%%', '!%', '%!', lead, lead * 2, '!' + lead, lead + '!', '!' + lead + '!', 'x', 'Ex', '\u00e9', 'a', '1', ' ', '\n', '\t', '-', '/*', "'", '"', '\ufeff', 'abc', '!-+', '!!!!', '\\' * 4, '#esc#', '<->(?)', 'ESCAPE ', '~' * 8, '-+' * 5 + '!', '^' * 17, '{escape}' * 5, '!' * 99):
			char = model.resolve_esc(i, esc)
			atoms = [lead, ph, 'x', ' ']
			if char:
				atoms += [char, char.swapcase(), char + lead, char[:1], char[-1:]]
			atoms = list(dict.fromkeys(atoms))
			for size in range(1, 4 if tier == 'quick' else 5):
				for parts in itertools.product(atoms, repeat=size):
					n += 1
					yield {'in': i, 'out': model.STYLES[n % 9], 'mode': 'model', 'esc': esc, 'sql': ''.join(parts), 'oq': n % 2 == 0, 'many': n % 3 == 0}


@st.composite
def cases(draw, tier):
	i, o = draw(gen.styles), draw(gen.styles)
	mode = draw(st.sampled_from(['sub', 'sub', 'text', 'off']))
	case = {'in': i, 'out': o, 'mode': mode, 'exp': draw(st.sampled_from([None, True, False])), 'oq': draw(st.booleans())}
	lead = model.LEAD[i]
	if mode == 'off':
		case['esc'] = draw(st.sampled_from([None, False, '']))
		parts = draw(st.lists(st.one_of(
			st.builds(lambda n: lead * n, st.integers(2, 5)), gen.clean_text('%' if lead != '%' else ''),
			st.sampled_from(['a', 's', '1', '(a)s', '"a"', ' '])), max_size=8))
		text = ''
		for p in parts:
			# A run of leads stays a run of leads.
			text += p
		case['text'] = text
		return case
	special = ['%', '%%', '!%', '%!'] if lead != '%' else []
	case['esc'] = esc = draw(st.sampled_from([True, True, True, True] + list(CUSTOM) + special + special + [lead, lead * 2, '!' + lead]))
	default = esc is True or esc == lead
	if mode == 'text':
		marks = ':$@%?'
		text = draw(st.one_of(
			st.lists(st.sampled_from(list(marks) + [lead] * 4 + ['a', 's', '1', '(', ')s', '"', ' ', '\n', lead + 'a', lead + lead,
				'%s', '%(a)s', ':1', '::int', '{}', "'", '\u00e9', '\\']), max_size=14).map(''.join),
			st.text(st.characters(exclude_categories=('Cs',)), max_size=10)))
		case['text'] = text
		return case
	# Structured: E tokens anywhere in the literals; next to placeholders with the default escape.
	q = draw(gen.queries(i, zeros=True, name_filter=gen.no_reserved, escapes=True))
	toks = []
	for t in q['toks']:
		if t[0] == 'L' and not default:
			t = ['L', ' ' + t[1] + draw(st.sampled_from([esc[-1], '', ' '])) * (lead not in esc)]
		if t[0] == 'P' and not default:
			toks.append(['L', ' '])
		toks.append(t)
	if default:
		out = []
		for t in toks:
			# Drop separators, or put an escape sequence directly beside the placeholder.
			if t[0] == 'P' and draw(st.integers(0, 2)) == 0:
				out.extend([['E']] * draw(st.integers(1, 2)))
				out.append(t)
				if i != 'qmark' and draw(st.booleans()):
					out.append(['E'])
			elif t[0] == 'E' and draw(st.booleans()):
				out.extend([['E'], ['L', draw(st.sampled_from(['a', '1', 's', '(a)s', '"A"', '_x', 'int'])) + ' ']])
			else:
				out.append(t)
		toks = out
	case['q'] = {'toks': toks, 'params': q['params']}
	case['box'] = draw(gen.containers(i))
	return case


REGRESSIONS = [
	{'in': i, 'out': o, 'mode': 'sub', 'exp': None, 'oq': False, 'esc': True, 'q': q, 'box': box}
	for i, q, box in (
		('format', {'toks': [['L', '7 '], ['E'], ['P', None], ['L', ' ']], 'params': [['i', 2]]}, 'list'),
		('qmark', {'toks': [['L', '7 '], ['E'], ['P', None], ['L', ' ']], 'params': [['i', 2]]}, 'list'),
		('numeric', {'toks': [['L', '7 '], ['E'], ['P', 1], ['L', ' ']], 'params': [['i', 2]]}, 'list'),
		('pyformat', {'toks': [['L', '7 '], ['E'], ['P', ['a', False]], ['L', ' ']], 'params': [['a', ['i', 2]]]}, 'dict'),
		('named_oracle', {'toks': [['L', '7 '], ['E'], ['P', ['A', True]], ['L', ' ']], 'params': [['a', ['i', 2]]]}, 'dict'),
	) for o in ('qmark', 'named', 'numeric', 'format')
] + [
	{'in': i, 'out': o, 'mode': 'sub', 'exp': None, 'oq': False, 'esc': '%', 'q': q, 'box': box}
	for i, q, box in (
		('named', {'toks': [['L', 'x '], ['E'], ['L', 'b '], ['P', ['a', False]], ['L', ' ']], 'params': [['a', ['i', 2]]]}, 'dict'),
		('qmark', {'toks': [['L', 'x '], ['E'], ['L', 'b '], ['P', None], ['L', ' ']], 'params': [['i', 2]]}, 'list'),
	) for o in ('format', 'pyformat')
]


def check(c, ctx):
	if c['mode'] == 'model':
		return c02.check(c, ctx)
	i, o = c['in'], c['out']
	lead = model.LEAD[i]
	q = gen.make(ctx.lib, c)
	pct = common.literal_percent(c)
	conf = '%s->%s escape_char=%r' % (i, o, c['esc'])
	empty = {} if i in model.NAMED else []
	if c['mode'] in ('text', 'off'):
		text = c['text']
		if c['mode'] == 'text':
			esc = model.resolve_esc(i, c['esc'])
			sql = ''.join(esc + ch if ch == lead else ch for ch in text)
		else:
			sql = text
			if any(len(run) == 1 for run in runs(text, lead)):
				return
		want = text.replace('%', '%%') if pct else text
		what = '%s format(%s)' % (conf, ascii(sql))
		for _ in range(1):
			out = must(what, q.format, sql, empty)
			if out[0] != want or len(out[1]):
				raise Violation('%s gave %s, expected the query %s without parameters' % (what, ascii(out), ascii(want)))
			common.other_way(c, q, what, sql, empty, out)
			many = must('%s formatmany(%s)' % (conf, ascii(sql)), q.formatmany, sql, [empty, empty])
			if many[0] != want or any(len(p) for p in many[1]):
				raise Violation('%s formatmany(%s) gave %s, expected the query %s without parameters' % (
					conf, ascii(sql), ascii(many), ascii(want)))
		ctx.interesting(lead in text)
		ctx.label('relation: ' + c['mode'])
		if lead + lead in text:
			ctx.label('adjacent leads')
		return
	toks = c['q']['toks']
	sql = gen.sql_of(toks, i, c['esc'])
	if PRIVATE in sql:
		return
	plain_sql = gen.sql_of([['L', PRIVATE] if t[0] == 'E' else t for t in toks], i)
	plain = gen.build_params(i, c['q']['params'])
	bare = gen.make(ctx.lib, c, escape_char=None)
	what = '%s format(%s, %s)' % (conf, ascii(sql), model.safe_repr(plain))
	got = must(what, q.format, sql, gen.contain(i, c['box'], plain))
	common.other_way(c, q, what, sql, gen.contain(i, c['box'], plain), got)
	ref = must('%s->%s format(%s)' % (i, o, ascii(plain_sql)), bare.format, plain_sql, gen.contain(i, c['box'], plain))
	want = ref[0].replace(PRIVATE, lead)
	if got[0] != want or not common.same_exact(got[1], ref[1]):
		raise Violation('%s gave %s with %s, expected %s with %s' % (
			what, ascii(got[0]), model.safe_repr(got[1]), ascii(want), model.safe_repr(ref[1])))
	n = sum(t[0] == 'E' for t in toks)
	if pct and n and '%' in str(c['esc']):
		ctx.label('percent escape into a percent style')
	ctx.interesting(n > 0)
	ctx.label('relation: sub', 'default escape' if model.resolve_esc(i, c['esc']) == lead else 'custom escape')
	if any(a[0] == 'E' and b[0] == 'P' for a, b in zip(toks, toks[1:])):
		ctx.label('escape directly before a placeholder')
	if any(a[0] == 'P' and b[0] == 'E' for a, b in zip(toks, toks[1:])):
		ctx.label('escape directly after a placeholder')


def runs(text, lead):
	out, n = [], 0
	for ch in text:
		if ch == lead:
			n += 1
		elif n:
			out.append(lead * n)
			n = 0
	if n:
		out.append(lead * n)
	return out
