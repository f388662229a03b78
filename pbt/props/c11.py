"""C11: comment stripping removes exactly the comments that begin a line."""
import itertools
import zlib

from ..strat import st

from .. import common, gen, grid, model
from .. import values as V
from ..core import Violation, attempt, error_text, must

EXAMPLES = {'quick': 10000, 'thorough': 120000}
RULE = ("(a) all texts of up to 5..7 atoms (comment markers, blanks, line ends, text) for five configurations, comments, indentations and lines of every length up to 300 and some up to 70000, and every character in and beside comments, against a hand-written stripper, where stripping in one pass and style by style agree, and (b) texts assembled from code lines (with placeholders and trailing comments), whole-line comments and multi-line comments whose "
	"positions are known by construction, for the default and for custom comment styles; the result has to equal the conversion, "
	"without stripping, of the text whose comments were left out by construction; non-trivial = at least one comment was removed")
ASSUMPTIONS = ("after the end of a multi-line comment the line ends or continues with code", "lines end in LF or CRLF")

STYLES = (
	(True, ['--'], [['/*', '*/']]),
	(True, ['--'], [['/*', '*/']]),
	(['#'], ['#'], []),
	(['--', '#'], ['--', '#'], []),
	(['//', ['/*', '*/']], ['//'], [['/*', '*/']]),
	([['/*', '*/'], ['{-', '-}'], ';;'], [';;'], [['/*', '*/'], ['{-', '-}']]),
	([['(*', '*)']], [], [['(*', '*)']]),
	(['.', ['[[', ']]']], ['.'], [['[[', ']]']]),
	(['REM '], ['REM '], []),
	([['<!', '>']], [], [['<!', '>']]),
	([], [], []),
	(None, [], []),
	(False, [], []),
	(['\\', ['+', '|']], ['\\'], [['+', '|']]),
	(['-- '], ['-- '], []),
	(['# ', ['/* ', ' */']], ['# '], [['/* ', ' */']]),
	([['##', '##']], [], [['##', '##']]),
	(['--', ['"""', '"""']], ['--'], [['"""', '"""']]),
	(['--', '-- ', '-'], ['--', '-- ', '-'], []),
	([['BEGIN', 'END'], ['/*', '*/'], '#'], ['#'], [['BEGIN', 'END'], ['/*', '*/']]),
)
INDENT = ('', '', ' ', '\t', '  \t ')
CODE = ('SELECT 1', 'x = 5', "'-- no'", 'a -- trailing :zz ?', 'b /* trailing */ c', 'd /* open', 'e */ f', 'g # h', 'k // l', 'm (* n *)',
	'UPDATE t', 'o {- p', 'q . r', 's [[ t ]]', '5 - 3', '-1', '/ 2', '* 3', '(', 'u\x0b-- v', 'w\u2028-- y', 'z\x0c/* a */', 'b <! c >', '-',
	'c\x85-- d', 'NULL \\ +', '', '--x', '-', '#x', '## x', '/*x*/', '""" x', 'REMARK', 'begin x END', '/')
BODY = ('', ' ', ' note', ' :zz', ' ?', ' %s %(zz)s', ' $zz @zz :9 $9', ' 100% {}', "'quote", ' "', ' \\', '/', '-', ' é', '*', ' --', ' -- x',
	' SELECT 1;', ' :: ??', '#', '!', '\r x', '\x0b', '\x0c-- y', '\x85 z', '\u2028', '\x1c', '\r')
INNER = ('\n', '\n-- inner', '\n\n', '\n:zz\n', '\n # x', '\r\n', '\n x', '\n\t* line ?', '\n"', '--\n')


LINES = {
	True: ('--', '/*', '*/', ' ', '\n', '\r\n', 'x', '-'),
	('#', ('<!', '>')): ('#', '<!', '>', '\t', '\n', 'x', '\r\n'),
	(('/*', '*/'), ('(*', '*)')): ('/*', '*/', '(*', '*)', '\n', ' x'),
	('--', ('/*', '*/')): ('--', '/*', '*/', '\r', '\n', '\x0b', '\u2028', 'x'),
	(('##', '##'), ';'): ('##', '#', ';', '\n', ' '),
}


def enumerate_cases(tier):
	n = grid.N(0)
	for k, (conf, atoms) in enumerate(LINES.items()):
		for size in range(1, 7 + (tier != 'quick') - (len(atoms) > 6) + (len(atoms) < 6)):
			for seq in itertools.product(range(len(atoms)), repeat=size):
				text = ''.join(atoms[a] for a in seq)
				comments = True if conf is True else list(conf)
				if model.strip(text, comments) != model.strip_once(text, comments):
					continue
				n += 1
				yield {'grid': k, 'text': text, 'in': 'named', 'out': model.STYLES[n % 9], 'many': n % 5 == 0}
	yield from sized()
	yield from characters()
	yield from letters()
	yield from crowd()


def sized():
	"""Comments, indentations and lines of every length and number."""
	n = grid.N(0)
	for size in tuple(range(1, 301)) + (511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 65535, 65536, 70000):
		for conf, one, multi in ((True, '--', ('/*', '*/')), (['#', ['<!--', '-->']], '#', ('<!--', '-->'))):
			a, z = multi
			texts = [
				'a\n%s%s x\nb' % (' \t'[n % 2] * size, one), 'a\n%s%s x %s\nb' % ((' ', '\t', ' \t')[n % 3] * size, a, z), 'a\n%s%s\nb' % (one, 'x ' * size),
				'%s%s%s b' % (a, 'x:' * size, z), 'a\n%s%s%s\nb' % (a, ' y\n' * size, z), 'x' * size + '\n%s :c\nb' % one, ' ' * size + 'x %s no\n%s %s\n' % (one, a, z),
				'a\n%s%s b' % (a, '*' * size + z)]
			if size <= 4097:
				texts += [('%s x\n' % one) * size + 'y', ('%s x\n %s\n' % (a, z)) * size + 'y', 'x\n' * size + '%s z\n' % one, '\n' * size + '%s %s\n' % (a, z), 'y\n\n%s z\n\n' % one * size]
			for text in texts:
				n += 1
				yield {'conf': conf, 'text': text, 'in': 'qmark' if n % 2 else 'named_dollar', 'out': model.STYLES[n % 9], 'many': n % 5 == 0}


def characters():
	"""Every character in comments, beside them, and in front of them."""
	n = grid.N(0)
	for ch in list(map(chr, range(0x180))) + list('\u200b\u2028\u2029\ufeff\u3000\u2003\ud800\U0001f600'):
		if ch in ':?$@%':
			continue
		for conf, one, (a, z) in ((True, '--', ('/*', '*/')), (['#', ['(*', '*)']], '#', ('(*', '*)'))):
			for text in (
				'%s%sx%s\n%s y' % (one, ch, ch, ch), 'x %s%s\n  %s z\nw' % (ch, one, one), 'x\n%s%s y\nw' % (ch, one), 'x\n %s%s y\nw' % (ch, one),
				'%s%sx%s%s\ny' % (a, ch, ch, z), 'x%s\n%s%s z %s%s\nw' % (ch, a, ch, z, ch), 'x\n%s%s y %s\nw' % (ch, a, z), 'x\n%s y\n%s%s w' % (a, ch, z)):
				n += 1
				comments = True if conf is True else [tuple(x) if isinstance(x, list) else x for x in conf]
				if model.strip(text, comments) != model.strip_once(text, comments):
					continue
				yield {'conf': conf, 'text': text, 'in': 'qmark' if n % 2 else 'named_dollar', 'out': model.STYLES[n % 9], 'many': n % 5 == 0}


ONE = ('#', '--', '//', ';;', '!!', '**', '~~', '||', '^^', '>>', '<<', '..', '&&', '++', '==', ',,', 'REM', 'dnl ')
TWO = (('/*', '*/'), ('(*', '*)'), ('{-', '-}'), ('<!', '!>'), ('[[', ']]'), ('`(', ')`'), ('\\(', '\\)'), ('"(', ')"'), ("'(", ")'"), ('x(', ')x'), ('1(', ')1'), ('_(', ')_'), ('{{', '}}'), ('{|', '|}'), ('<?x', 'x>'))


def crowd():
	"""Many comment styles in one configuration, in several orders, with a comment of every style in the text."""
	n = grid.N(0)
	for size in range(1, len(ONE) + 1):
		for turn in (0, 1, 5):
			one = (ONE[turn:] + ONE[:turn])[:size]
			two = (TWO[turn:] + TWO[:turn])[:size]
			lines = ['q'] + ['%s x %d\ny' % (m, k) for k, m in enumerate(ONE)] + ['%s z %d %s\nw' % (a, k, b) for k, (a, b) in enumerate(TWO)] + ['%s v %d\n%s\nu' % (a, k, b) for k, (a, b) in enumerate(TWO)]
			for conf in (list(one), [list(t) for t in two], [list(t) for t in two] + list(one), list(one) + [list(t) for t in two]):
				comments = [tuple(x) if isinstance(x, list) else x for x in conf]
				for text in lines[1:] + ['\n'.join(lines), '\n'.join(lines[::-1]) + '\n']:
					if model.strip(text, comments) != model.strip_once(text, comments):
						continue
					n += 1
					if len(text) < 40 and n % 3:
						continue
					yield {'conf': conf, 'text': text, 'in': 'qmark' if n % 2 and '?' not in text else 'named_dollar', 'out': model.STYLES[n % 9], 'many': n % 5 == 0}


def letters():
	"""Comment markers made of letters, and lines which begin with the same letters in another case."""
	n = grid.N(0)
	for one, (a, z) in (('REM', ('BEGIN', 'END')), ('rem', ('begin', 'end')), ('Rem ', ('Begin', 'eNd')), ('x', ('yY', 'Yy')), ('\u00e9', ('\u00c9', '\u00e9')), ('\u017f', ('k', '\u212a')), ('N\u00c9', ('\u00df', 'ss')), ('i', ('I', '\u0130'))):
		forms = dict.fromkeys(f(m) for m in (one, a, z) for f in (str, str.lower, str.upper, str.title, str.swapcase, str.casefold))
		for m in forms:
			for k in dict.fromkeys([z, z.lower(), z.upper(), z.swapcase(), 'other']):
				for text in ('%s text %s\nnext' % (m, k), ' \t%s b\n%s c\n' % (m, k), 'q %s\n%s\n\n%s\nr' % (m, m, k), '%s%s%s\n%s' % (m, m, k, m), '%s a %s b\n' % (m, k)):
					for conf in ([one], [[a, z]], [[a, z], one]):
						comments = [tuple(x) if isinstance(x, list) else x for x in conf]
						if model.strip(text, comments) != model.strip_once(text, comments):
							continue
						n += 1
						yield {'conf': conf, 'text': text, 'in': 'qmark' if n % 2 else 'named_dollar', 'out': model.STYLES[n % 9], 'many': n % 5 == 0}


def check_text(c, ctx):
	if 'conf' in c:
		conf = c['conf'] if c['conf'] is True else [tuple(x) if isinstance(x, list) else x for x in c['conf']]
	else:
		conf = list(LINES)[c['grid']]
	conf = conf if conf is True else list(conf)
	want = model.strip(c['text'], conf)
	q = must('constructor', ctx.lib.SQLParams, c['in'], c['out'], strip_comments=conf)
	what = '%s->%s strip_comments=%r %s(%s)' % (c['in'], c['out'], conf, 'formatmany' if c['many'] else 'format', ascii(c['text']))
	box = {} if c['in'] in model.NAMED else []
	got = must(what, q.formatmany, c['text'], [box])[0] if c['many'] else must(what, q.format, c['text'], box)[0]
	if got != want:
		raise Violation('%s gave %s, expected %s' % (what, ascii(got), ascii(want)))
	# The same as bytes, the other way, and for another number of rows.
	turn = zlib.crc32(ascii(c['text']).encode())
	text, want2 = c['text'], want
	if turn % 4:
		try:
			text, want2 = c['text'].encode('latin1'), want.encode('latin1')
		except UnicodeEncodeError:
			pass
	rows = None if c['many'] and turn % 3 else V.make_iterable(V.ITERABLES[turn // 4 % len(V.ITERABLES)], [box] * (1 + turn // 64 % 3))
	what = '%s->%s strip_comments=%r %s(%s)' % (c['in'], c['out'], conf, 'format' if rows is None else 'formatmany', ascii(text))
	got = must(what, q.format, text, box)[0] if rows is None else must(what, q.formatmany, text, rows)[0]
	if got != want2 or type(got) is not type(text):
		raise Violation('%s gave %s, expected %s' % (what, ascii(got), ascii(want2)))
	ctx.interesting(want != c['text'])
	ctx.label('enumerated text')


@st.composite
def cases(draw, tier):
	i, o = draw(gen.styles), draw(gen.styles)
	k = draw(st.integers(0, len(STYLES) - 1))
	conf, singles, multis = STYLES[k]
	starts = singles + [m[0] for m in multis]
	parts = []  # [kind, text]
	q = draw(gen.queries(i, zeros=True, name_filter=gen.no_reserved, scale=False))
	groups = [['P', t[1]] for t in q['toks'] if t[0] == 'P']
	for _ in range(draw(st.integers(1, 7))):
		kind = draw(st.sampled_from(['code', 'code', 'single', 'multi', 'blank', 'run']))
		eol = draw(st.sampled_from(['\n', '\n', '\r\n']))
		if kind == 'run':
			# Many comments.
			if singles + multis:
				s = draw(st.sampled_from(singles + multis))
				line = (s + ' :zz ?' if isinstance(s, str) else s[0] + '\n ?' + s[1]) + eol
				parts.extend(['C', line] for _ in range(draw(st.sampled_from([2, 9, 18, 40]))))
		elif kind == 'single' and singles:
			body = ''.join(draw(st.lists(st.sampled_from(BODY), max_size=3)))
			parts.append(['C', draw(st.sampled_from(INDENT)) + draw(st.sampled_from(singles)) + body + eol])
		elif kind == 'multi' and multis:
			s, e = draw(st.sampled_from(multis))
			body = ''.join(draw(st.lists(st.sampled_from(BODY + INNER), max_size=4)))
			if e in body or e in (body + e)[:-1]:
				body = ' '
			# The whole comment must end at the first end marker.
			text = s + body + e
			if text.index(e, len(s)) != len(text) - len(e):
				text = s + ' ' + e
			if any(line.lstrip(' \t').startswith(m) for line in text.split('\n')[1:] for m, _ in multis):
				text = s + ' x ' + e
			tail = draw(st.sampled_from(['eol', 'eol', 'code']))
			parts.append(['C', draw(st.sampled_from(INDENT)) + text + (eol if tail == 'eol' else '')])
			if tail == 'code':
				parts.append(['L', draw(st.sampled_from([' c', 'c', '\tc'])) + draw(st.sampled_from([' d', ' :: d', ' -- e', ' /* f */'])) + eol])
		elif kind == 'blank':
			parts.append(['L', draw(st.sampled_from(['', ' ', '\t'])) + eol])
		else:
			code = draw(st.sampled_from(CODE))
			if any(code.lstrip(' \t').startswith(s) for s in starts):
				code = 'c ' + code
			parts.append(['L', draw(st.sampled_from(INDENT)) + code])
			while groups and draw(st.booleans()):
				parts.append(['L', ' ' if code or True else ''])
				if not code:
					parts.append(['L', 'w '])
				parts.append(groups.pop(0))
				parts.append(['L', draw(st.sampled_from([' ', ' -- tail', ') /* x */ ', ',']))])
			parts.append(['L', eol])
	if draw(st.booleans()) and parts and parts[-1][0] in 'LC':
		parts[-1][1] = parts[-1][1].rstrip('\r\n')
		if not parts[-1][1]:
			parts.pop()
	if draw(st.booleans()) and multis and parts and parts[-1][1] and parts[-1][0] == 'L' and parts[-1][1].endswith('\n'):
		# A comment that never ends is no comment.
		s, e = multis[0]
		parts.append(['L', s + ' open'])
	# Text inside the code which looks like a placeholder is avoided: only the in-style of the case matters.
	return {'in': i, 'out': o, 'style': k, 'exp': draw(st.sampled_from([None, True])), 'oq': None, 'parts': parts,
		'params': q['params'], 'box': draw(gen.containers(i)), 'bytes': draw(st.booleans()), 'many': draw(st.booleans())}


REGRESSIONS = [
	{'in': 'qmark', 'out': 'qmark', 'style': k, 'exp': None, 'oq': None, 'params': [['i', 1]], 'box': 'list', 'bytes': False, 'many': False,
		'parts': [['C', '/* a\n%s b */\n' % m], ['L', 'SELECT '], ['P', None], ['L', '\n']]}
	for k, m in ((0, '--'), (4, '//'))
]


def render(parts, style, keep):
	out = []
	for t in parts:
		if t[0] == 'P':
			out.append(gen.sql_of([t], style))
		elif t[0] == 'L' or keep:
			out.append(t[1])
	return ''.join(out)


def config(k):
	conf = STYLES[k][0]
	if isinstance(conf, list):
		return [tuple(x) if isinstance(x, list) and len(conf) % 2 else x for x in conf]
	return conf


def check(c, ctx):
	if 'text' in c:
		check_text(c, ctx)
		return
	i = c['in']
	full, bare = render(c['parts'], i, True), render(c['parts'], i, False)
	if any(len([t for t in model.scan(bare, s) if t[0] == 'P']) != sum(p[0] == 'P' for p in c['parts']) for s in (i,)):
		# A trailing comment holds a placeholder: drop those.
		full, bare = defuse(c, True), defuse(c, False)
	if c['bytes']:
		try:
			full, bare = full.encode('latin1'), bare.encode('latin1')
		except UnicodeEncodeError:
			pass
	plain = gen.build_params(i, c['params'])
	box = gen.contain(i, c['box'], plain)
	conf = config(c['style'])
	what = '%s->%s strip_comments=%r format(%s)' % (i, c['out'], conf, ascii(full))
	q = must('constructor', ctx.lib.SQLParams, i, c['out'], expand_tuples=c['exp'], strip_comments=conf)
	ref = must('constructor', ctx.lib.SQLParams, i, c['out'], expand_tuples=c['exp'])
	want = must('%s->%s format(%s)' % (i, c['out'], ascii(bare)), ref.format, bare, box)
	if c['many']:
		r = must(what + ' (formatmany)', q.formatmany, full, [box, box])
		got = (r[0], r[1][1])
	else:
		got = must(what, q.format, full, box)
	if not common.same_result(got, want):
		raise Violation('%s gave %s with %s, expected %s with %s' % (
			what, ascii(got[0]), model.safe_repr(got[1]), ascii(want[0]), model.safe_repr(want[1])))
	removed = [p for p in c['parts'] if p[0] == 'C']
	ctx.interesting(bool(removed))
	ctx.label('styles %d' % c['style'])
	if any('\n' in p[1].rstrip('\r\n') for p in removed):
		ctx.label('comment over several lines')
	if any(len([t for t in model.scan(p[1], i) if t[0] == 'P']) for p in removed):
		ctx.label('placeholder inside a removed comment')


def defuse(c, keep):
	out = []
	for t in c['parts']:
		if t[0] == 'L':
			text = t[1]
			for m in ':?':
				text = text.replace(m, '')
			out.append(['L', text])
		else:
			out.append(t)
	return render(out, c['in'], keep)
