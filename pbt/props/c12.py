"""C12: a bytes query is converted byte for byte like the str query it encodes."""
from ..strat import st

from .. import common, gen, grid, model
from ..core import Violation, attempt, error_text, must

EXAMPLES = {'quick': 7200, 'thorough': 120000}
RULE = ("(a) every byte value in every pair of styles beside placeholders, every pair of bytes, and text in other encodings, and (b) random byte strings over all 256 values, dense in markers, and structured queries in Latin-1; the result of the bytes query has "
	"to be the encoded result of the str query with the very same parameters, for format and formatmany, and errors have to agree; queries of subclasses of str and bytes are converted like plain ones; "
	"non-trivial = a byte above 127 or a placeholder")
ASSUMPTIONS = ("bytes stand for Latin-1 text",)

ATOMS = (b':', b'::', b'?', b'??', b'%', b'%%', b'%s', b'%(a)s', b'$a', b'@a', b':a', b':1', b'$1', b':"a"', b':"A"', b' ', b'\n', b'\r\n', b'--',
	b'\n-- x ', b'/*', b'*/', b'\xe9', b'\xff', b'\x00', b'\x80', b'\xc3\xa9', b'a', b'\x85', b'\xa0', b"'", b'"', b'\\', b'{}', b'\xaa', b'\xb2', b'\xb5',
	b':a\xe9', b':a\xb5 ', b'$b\xff ', b':\xe9')


class TextQuery(str):
	pass


class BytesQuery(bytes):
	pass


def enumerate_cases(tier):
	n = grid.N(0)
	for i in model.STYLES:
		ph = {'format': '%s', 'pyformat': '%(a)s', 'qmark': '?'}.get(i, model.LEAD[i] + ('1' if i in model.NUMERIC else 'a'))
		for o in model.STYLES:
			for b in range(256):
				n += 1
				yield {'in': i, 'out': o, 'exp': (None, True, False)[n % 3], 'oq': n % 2 == 0, 'esc': None, 'strip': None if n % 5 else True, 'mode': 'raw',
					'sql': ''.join(ph if x == 'P' else chr(b) if x == 'B' else x for x in ('B P BBP B', 'PB x B', 'B P BPB')[n % 3]), 'drop': 0, 'sub': n % 8 == 0}
	for start in range(0, 65536, 4):
		# Every pair of bytes, at the start, in the middle, and at the end.
		i, o = grid.pair_of_kinds(start // 4)
		ph = model.write_placeholder(i, '1' if i in model.NUMERIC else 'a')
		a, b, c, d = (chr(k >> 8) + chr(k & 255) for k in range(start, start + 4))
		yield raw(i, o, a + ' ' + b + ph + ' ' + c + ' ' + d, start // 4)
	n = grid.N(0)
	for text in encoded():
		for i in model.STYLES:
			ph = model.write_placeholder(i, '1' if i in model.NUMERIC else 'a')
			n += 1
			yield raw(i, model.STYLES[n // 9 % 9], (text, text + ph + ' ', ph + ' ' + text, text + ' \n-- x\n' + ph + '\n' + text)[n % 4], n)


def raw(i, o, sql, n):
	n = grid.N(n)
	return {'in': i, 'out': o, 'exp': (None, True, False)[n % 3], 'oq': n % 2 == 0, 'esc': None, 'strip': None if n % 5 else True, 'mode': 'raw', 'sql': sql, 'drop': 0, 'sub': n % 8 == 0}


def encoded():
	"""Bytes which look like text in another encoding."""
	words = ['a\u00e9', '\u00b5', 'na\u00efve \u20ac', '\u4e2d\u6587', '\U0001f600', ''.join(map(chr, range(0xa0, 0x100))), 'x']
	for w in words:
		for enc in ('utf-8', 'utf-8-sig', 'utf-16', 'utf-16-le', 'utf-16-be', 'utf-32', 'utf-7', 'cp1252', 'cp1251', 'shift_jis', 'gbk', 'euc_jp', 'iso2022_jp', 'cp037', 'punycode'):
			try:
				yield w.encode(enc).decode('latin1')
			except UnicodeEncodeError:
				pass
	for ch in range(0x80, 0x800):
		yield 'x' * (ch % 2) + chr(ch).encode().decode('latin1')
	yield from ('\xef\xbb\xbf', '\xff\xfe', '\xfe\xff', '\0\0\xfe\xff', '\x1f\x8b', '# -*- coding: utf-8 -*-\n\xc3\xa9', '-- coding: cp1251\n\xe9', '\xc3', '\x80\x80', '\xed\xa0\x80', '\xc0\x80',
		'\\xe9', '\\u00e9', '&eacute;', '%C3%A9', "b'a'", "X'FF'", '\xa0\xa0', '\x85\n', '\xad', '\xff\xff')


@st.composite
def cases(draw, tier):
	i, o = draw(gen.styles), draw(gen.styles)
	mode = draw(st.sampled_from(['raw', 'structured']))
	case = {'in': i, 'out': o, 'exp': draw(st.sampled_from([None, True, False])), 'oq': draw(st.booleans()),
		'esc': draw(st.sampled_from([None, True, '\\', '\xa6'])), 'strip': draw(st.sampled_from([None, True])), 'mode': mode,
		'sub': draw(st.booleans())}
	if mode == 'raw':
		raw = draw(st.lists(st.one_of(st.sampled_from(ATOMS), st.binary(max_size=4)), max_size=12).map(b''.join))
		case['sql'] = raw.decode('latin1')
		case['drop'] = draw(st.sampled_from([0, 0, 0, 0, 1]))
		return case
	q = draw(gen.queries(i, zeros=True, name_filter=gen.no_reserved, ascii_names=i == 'named_oracle'))
	toks = [[t[0], ''.join(ch if ord(ch) < 256 else chr(ord(ch) % 127 + 129) for ch in t[1])] if t[0] == 'L' else t for t in q['toks']]
	case['sql'] = gen.sql_of(toks, i)
	case['q'] = {'toks': toks, 'params': q['params']}
	return case


def check(c, ctx):
	i = c['in']
	sql = c['sql']
	try:
		raw = sql.encode('latin1')
	except UnicodeEncodeError:
		return
	if i == 'named_oracle' and c['mode'] == 'raw':
		# Upper-casing may leave Latin-1; only ASCII names.
		if any(t[0] == 'P' and not t[1][0].isascii() for t in model.scan(sql, i)):
			return
	if c['mode'] == 'structured':
		params = gen.build_params(i, c['q']['params'])
	else:
		# Every placeholder a recogniser could see has a value, unless one is dropped.
		n = 40 - c['drop'] * 40
		if i in model.NAMED:
			params = {}
			for esc in (None, c['esc']):
				for t in model.scan(sql, i, model.resolve_esc(i, esc)):
					if t[0] == 'P' and not c['drop']:
						key = t[1][0]
						if i == 'named_oracle':
							key = '"%s"' % (key if t[1][1] else key.upper())
						params[key] = ('x', key)
		else:
			params = ['v%d' % k for k in range(n)]
			if n:
				params[0] = ('p', 'q')
	q = gen.make(ctx.lib, c)
	what = '%s->%s escape_char=%r format(%s, %s)' % (i, c['out'], c['esc'], ascii(raw), model.safe_repr(params))
	a, b = attempt(q.format, raw, params), attempt(q.format, sql, params)
	compare(what, a, b, None)
	if params or i not in model.NAMED:
		rows = [params, params]
		compare(what.replace('format(', 'formatmany('), attempt(q.formatmany, raw, rows), attempt(q.formatmany, sql, rows), 2)
	if c.get('sub'):
		# Instances of subclasses are the same queries.
		for given in (TextQuery(sql), BytesQuery(raw)):
			for many in (False, True):
				args = [params, params] if many else params
				if many and not params and i in model.NAMED:
					continue
				plain = sql if isinstance(given, str) else raw
				call, base = [attempt(q.formatmany if many else q.format, s, args) for s in (given, plain)]
				sets = (lambda r: r.value[1]) if many else (lambda r: [r.value[1]])
				if call.ok != base.ok or (base.ok and (call.value[0] != base.value[0] or len(sets(call)) != len(sets(base)) or not all(
						common.same_exact(x, y) for x, y in zip(sets(call), sets(base))))) or (not base.ok and type(call.error) is not type(base.error)):
					raise Violation('%s: %s with a query of a subclass of %s %s, with a plain one %s' % (
						what, 'formatmany' if many else 'format', type(plain).__name__, call.describe(), base.describe()))
		ctx.label('query of a subclass')
	if b.ok:
		ctx.interesting(not sql.isascii() or len(b.value[1]) > 0)
		ctx.label('converted')
	else:
		ctx.label('both refused')
	if not sql.isascii():
		ctx.label('bytes above 127')


def compare(what, a, b, many):
	if a.ok != b.ok or (not a.ok and type(a.error) is not type(b.error)):
		raise Violation('%s %s, but the str query %s' % (what, a.describe(), b.describe()))
	if not a.ok:
		return
	if type(a.value[0]) is not bytes or type(b.value[0]) is not str:
		raise Violation('%s: the query came out as %s for bytes and %s for str' % (
			what, type(a.value[0]).__name__, type(b.value[0]).__name__))
	if a.value[0].decode('latin1') != b.value[0]:
		raise Violation('%s gave %s, the str query gave %s' % (what, ascii(a.value[0]), ascii(b.value[0])))
	xs, ys = ([a.value[1]], [b.value[1]]) if many is None else (a.value[1], b.value[1])
	if len(xs) != len(ys) or not all(common.same_exact(x, y) for x, y in zip(xs, ys)):
		raise Violation('%s gave the parameters %s, the str query gave %s' % (what, model.safe_repr(xs), model.safe_repr(ys)))
