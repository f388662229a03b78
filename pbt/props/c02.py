"""C02: exactly the documented placeholder syntax is recognised."""
import itertools

from ..strat import st

from .. import common, gen, grid, model
from ..core import Violation, attempt, error_text, must

EXAMPLES = {'quick': 16000, 'thorough': 240000}
RULE = ("(a) every string of up to 5 atoms (quick; 6, or 7 for four out-styles, thorough) over a small alphabet per "
	"in-style, for all 81 style pairs and three escape settings; names of every length up to 300 and numbers of up to 300 digits, every character up to U+1FFFF (thorough: all) before, after, and inside a placeholder and at the ends of a query; (b) random marker-heavy texts; compared with a "
	"hand-written scanner; non-trivial = the text contains the lead character of the in-style")
ASSUMPTIONS = ("placeholder names use ASCII letters, digits, underscore and a few non-ASCII letters after the first character; "
	"numbers are written in ASCII, and without leading zeros where the out-style is a named one",)

ALPHABET = {
	'format': ('%', 's', ' ', 'a'),
	'pyformat': ('%', '%(', 'a', ')s', ' '),
	'named': (':', 'a', '1', ' ', '%'),
	'named_dollar': ('$', 'a', '1', ' ', '%'),
	'named_sqlserver': ('@', '_', '1', ' ', '%'),
	'named_oracle': (':', '"', 'a', 'B', ' '),
	'numeric': (':', '1', 'a', ' ', '%'),
	'numeric_dollar': ('$', '2', 'a', ' ', '%'),
	'qmark': ('?', 'a', ' ', '%'),
}


def enumerate_cases(tier):
	for i in model.STYLES:
		for depth in range(1, {'quick': 6, 'thorough': 8}[tier]):
			for atoms in itertools.product(ALPHABET[i], repeat=depth):
				sql = ''.join(atoms)
				for o in model.STYLES:
					if depth == 7 and o not in ('qmark', 'numeric', 'named', 'pyformat'):
						continue
					for esc in (None, True):
						yield {'in': i, 'out': o, 'esc': esc, 'sql': sql}
						if depth <= 4:
							yield {'in': i, 'out': o, 'esc': esc, 'sql': sql, 'many': True}
				if depth <= 5 and i != 'named_oracle':
					lead = model.LEAD[i]
					for o in ('qmark', 'numeric', 'named', 'format'):
						yield {'in': i, 'out': o, 'esc': '\\', 'sql': sql.replace('a', '\\')}
						if o == 'qmark':
							yield {'in': i, 'out': o, 'esc': '!!', 'sql': sql.replace(' ', '!')}
					del lead
	yield from sizes()
	yield from characters(tier)
	yield from edges()
	for n, (i, o, esc, sql) in grid.numbered(grid.raw_volume(grid.VOLUME[::3] if tier == 'quick' else grid.VOLUME + (10001,), (None, True, '!'))):
		yield {'in': i, 'out': o, 'esc': esc, 'sql': sql, 'oq': n % 2 == 0, 'many': n % 3 == 0}


def sizes():
	"""Names and numbers of every length."""
	n = grid.N(0)
	for size in tuple(range(1, 301)) + (511, 512, 513, 1023, 1024, 1025, 4096, 5000, 70000):
		for i in model.NAMED:
			n += 1
			name = 'aB_9x'[size % 3] + ('xY_7' * size)[:size - 1]
			sql = ' %s %s ' % (model.write_placeholder(i, name), model.write_placeholder(i, name + 'z'))
			yield {'in': i, 'out': model.STYLES[n % 9], 'esc': (None, True)[n % 2], 'sql': sql, 'many': n % 3 == 0}
		if size <= 300:
			for i in model.NUMERIC:
				for digits in ('1' + '0' * (size - 1), '9' * size, '0' * (size - 1) + '1'):
					n += 1
					yield {'in': i, 'out': model.STYLES[n % 9], 'esc': (None, True)[n % 2], 'sql': ' %s ' % model.write_placeholder(i, digits)}


def characters(tier):
	"""Every character (quick: up to U+1FFFF) directly before, after and in a placeholder."""
	n = grid.N(0)
	for start in range(0, 0x20000 if tier == 'quick' else 0x110000, 64):
		chars = ''.join(map(chr, range(start, start + 64)))
		for k, i in enumerate(model.STYLES):
			if i in model.NUMERIC:
				chars_here = ''.join(ch for ch in chars if not ch.isdecimal())
			else:
				chars_here = chars
			lead = model.LEAD[i]
			ph = model.write_placeholder(i, '1' if i in model.NUMERIC else 'a')
			forms = [lambda ch: ph + ch, lambda ch: ch + ph + ' ', lambda ch: lead + ch]
			if i in model.NAMED:
				forms.append(lambda ch: model.write_placeholder(i, 'a' + ch + 'b'))
			for form in forms:
				n += 1
				if tier == 'quick' and (n + start // 64) % 2:
					continue
				yield {'in': i, 'out': model.STYLES[(start // 64 + n // 2) % 9], 'esc': (None, True, '!')[n % 3], 'sql': ' '.join(form(ch) for ch in chars_here)}


def edges():
	"""Every character, once to three times, at both ends of a query."""
	n = grid.N(0)
	for ch in list(map(chr, range(0x180))) + list('\u200b\u2028\u2029\ufeff\u3000\u2003\ud800\U0001f600\u0130\u0131\u1e9e\u212a'):
		for i in model.STYLES:
			ph = model.write_placeholder(i, '1' if i in model.NUMERIC else 'a')
			for k, o in enumerate(model.STYLES):
				n += 1
				sql = '%s %s %s' % (ch * (n % 3 + 1), ph, ch * ((n + k) % 3 + 1))
				yield {'in': i, 'out': o, 'esc': (None, True, '!')[n % 5 % 3], 'sql': sql, 'many': n % 4 == 0}


ATOMS = (':', '::', ':::', '$', '$$', '@', '@@', '?', '??', '%', '%%', '%s', '%(', ')s', '%(a)s', '%(ab1)s', ':a', ':ab1',
	'$a', '@a', ':1', ':12', '$1', '$10', ':"a"', ':"A"', '"', "'", 'a', 'A', 'b1', '_', '1', '12', ' ', ' ', '\n', ',',
	'(', ')', 's', '\\', '!', '!!', '^', '-', '--', '/*', '*/', '{', '}', '{param}', "'12:34:56'", '::int', 'x::text[]',
	'E\'\\\\\'', '\u00e9', '\u4e2d', '\r\n', '\t', '\0', '[', ']', '&', ';', '.', '=', '<', '>', '|', '#', '~', '`')
ESCAPES = (None, None, True, True, '\\', '!', '!!', '^', 'a', ' ', '.', '{', '\\\\', '[x', '$', ':', '?', '*', '|', '\u00e9', '%', '%%', '@', '!%')


@st.composite
def cases(draw, tier):
	i, o = draw(gen.styles), draw(gen.styles)
	lead = model.LEAD[i]
	esc = draw(st.sampled_from(ESCAPES))
	own = [lead, lead + lead, lead + 'a', model.write_placeholder(i, '1' if i in model.NUMERIC else 'a1')]
	if isinstance(esc, str):
		own += [esc, esc + lead, esc + own[3]]
	atom = st.one_of(st.sampled_from(own), st.sampled_from(ATOMS))
	parts = draw(st.lists(atom, max_size=draw(st.sampled_from([3, 6, 12, 30]))))
	return {'in': i, 'out': o, 'esc': esc, 'sql': ''.join(parts), 'oq': draw(st.booleans()), 'many': draw(st.booleans())}


def check(c, ctx):
	i, o, esc, sql = c['in'], c['out'], c['esc'], c['sql']
	char = model.resolve_esc(i, esc)
	pct = common.literal_percent(c)
	found = [t[1] for t in model.scan(sql, i, char, pct) if t[0] == 'P']
	if i in model.NAMED:
		params = {}
		for n, (name, quoted) in enumerate(found):
			key = name
			if i == 'named_oracle':
				key = '"%s"' % (name if quoted else name.upper())
			params.setdefault(key, 'v%d' % n)
	elif i in model.NUMERIC:
		if any(p[0] == '0' and (o in model.NAMED or not p.strip('0')) for p in found):
			ctx.label('skipped: leading zero')
			return
		if any(len(p) > 3 for p in found):
			params = {int(p): 'v' + p for p in found}
			ctx.label('large number')
		else:
			params = ['v%d' % n for n in range(max([int(p) for p in found], default=0))]
	else:
		params = ['v%d' % n for n in range(len(found))]
	want = model.convert(i, o, esc, None, c.get('oq'), sql, params)
	what = '%s->%s escape_char=%r format(%s, %r)' % (i, o, esc, ascii(sql), params)
	q = must('constructor', ctx.lib.SQLParams, i, o, escape_char=esc, allow_out_quotes=c.get('oq'))
	if c.get('many'):
		r = attempt(q.formatmany, sql, [params])
		if r.ok:
			r.value = (r.value[0], r.value[1][0])
		what = what.replace('format(', 'formatmany(')
	else:
		r = attempt(q.format, sql, params)
	if not r.ok:
		raise Violation('%s raised %s, expected %r' % (what, error_text(r.error), want))
	if not common.same_result(r.value, want):
		raise Violation('%s gave %s, expected %s' % (what, ascii(r.value), ascii(want)))
	common.other_way(c, q, what, sql, params, want)
	lead = model.LEAD[i]
	ctx.interesting(lead in sql)
	if found:
		ctx.label('with placeholders')
	if lead + lead in sql:
		ctx.label('doubled lead')
	if lead in sql and not found:
		ctx.label('lead but no placeholder')
	if char and char + lead in sql:
		ctx.label('escape sequence')
