"""C20: an instance reports the configuration it uses, and can be rebuilt from it."""
import functools
import sys

from ..strat import st

from .. import common, gen, grid, model
from ..core import Violation, attempt, error_text, must

EXAMPLES = {'quick': 6400, 'thorough': 100000}
RULE = ("all 81 style pairs with every option unset, off, on, or custom, every character up to U+017F as escape_char, given by position or keyword; the reported properties have to "
	"follow the documented defaults, and an instance rebuilt from them has to convert probing queries identically; non-trivial = at least "
	"one option differs from its default")

COMMENTS = (None, True, False, [], ['--'], ['#', '--'], [('/*', '*/')], ('--', ('/*', '*/')), [['{', '}'], ';'], ['\\', ('(*', '*)')])
PROBES = ('x -- y\n-- c\n/* m\n*/ %s', '# z\n; w\n{ b } %s', '\\ u\n(* v *) %s', '\n--a\n  /*b*/\n%s')


ESCAPES = [chr(k) for k in range(0x180)] + ['  ', '\r\n', ' \t', '\n\n', '\0\0', 'None', 'True', 'False', '0', '1', 'esc', '{}', '()', '\\\\', '%%', '::', '$$', '@@', '\u2028', '\u3000',
	'\ufeff', '\U0001f600', '\u4e2d\u6587', 'x' * 300]


def enumerate_cases(tier):
	"""Every pair of styles with every value of every option, and every character as escape_char."""
	n = grid.N(0)
	for i in model.STYLES:
		for o in model.STYLES:
			for exp in (None, True, False):
				for esc in (None, True, False, '', '\\', model.LEAD[i]):
					for strip in range(len(COMMENTS)):
						n += 1
						if tier == 'quick' and n % 3:
							continue
						yield {'in': i, 'out': o, 'exp': exp, 'esc': esc, 'strip': strip, 'oq': (None, True, False)[n % 7 % 3], 'q': grid.query(i, (0, 1, 0), [grid.S, grid.T2], n),
							'probe': n % 4, 'positional': n % 2 == 0, 'omit': n % 5 < 3}
	for k, esc in enumerate(ESCAPES):
		for i, o in grid.kind_pairs(k):
			n += 1
			yield {'in': i, 'out': o, 'exp': None, 'esc': esc, 'strip': n % 2, 'oq': True, 'q': grid.query(i, (0, 1), [grid.S, grid.T2], n),
				'probe': n % 4, 'positional': n % 2 == 0, 'omit': True}


@functools.lru_cache(None)
def subclasses(lib):
	"""Classes of the caller: one that adds nothing, and one whose constructor is another."""
	class Sub(lib.SQLParams):
		pass

	class Fixed(lib.SQLParams):
		def __init__(self, in_style, out_style, **kw):
			kw['expand_tuples'] = False
			super().__init__(in_style, out_style, **kw)
	for c in (Sub, Fixed):
		c.__qualname__ = c.__name__
		setattr(sys.modules[__name__], c.__name__, c)
	return Sub, Fixed


@st.composite
def cases(draw, tier):
	i, o = draw(gen.styles), draw(gen.styles)
	q = draw(gen.queries(i, name_filter=gen.no_reserved, scale=False, extra='%' if model.LEAD[i] != '%' else ''))
	return {'in': i, 'out': o, 'exp': draw(st.sampled_from([None, True, False, 1, 0])),
		'esc': draw(st.sampled_from([None, True, False, '', '\\', '!', '^^', model.LEAD[i]])),
		'strip': draw(st.integers(0, len(COMMENTS) - 1)), 'oq': draw(st.sampled_from([None, True, False])), 'q': q,
		'probe': draw(st.integers(0, 3)), 'positional': draw(st.booleans()), 'omit': draw(st.booleans())}


def check(c, ctx):
	i, o = c['in'], c['out']
	lib = ctx.lib
	strip = COMMENTS[c['strip']]
	strip = list(strip) if isinstance(strip, list) else strip
	kw = dict(escape_char=c['esc'], expand_tuples=c['exp'], strip_comments=strip, allow_out_quotes=c['oq'])
	what = 'SQLParams(%r, %r, %s)' % (i, o, model.safe_repr(kw))
	if c['positional']:
		q = must(what, lib.SQLParams, i, o, c['esc'], c['exp'], strip, c['oq'])
	else:
		given = {k: v for k, v in kw.items() if not (c['omit'] and v is None)}
		q = must(what, lib.SQLParams, in_style=i, out_style=o, **given)
	want = {
		'in_style': i, 'out_style': o,
		'escape_char': model.LEAD[i] if c['esc'] is True else (c['esc'] or None),
		'expand_tuples': model.resolve_exp(o, c['exp']),
		'strip_comments': lib.DEFAULT_COMMENTS if strip is True else None if strip is False else strip,
	}
	for name, value in want.items():
		got = must('%s.%s' % (what, name), getattr, q, name)
		if got != value or (isinstance(value, (bool, type(None))) and got is not value):
			raise Violation('%s.%s is %s, expected %s' % (what, name, model.safe_repr(got), model.safe_repr(value)))
		r = attempt(setattr, q, name, value)
		if r.ok or not isinstance(r.error, AttributeError):
			raise Violation('%s.%s can be assigned' % (what, name))
	if set(map(str, want['strip_comments'] or ())) and strip is True:
		if '--' not in q.strip_comments or ('/*', '*/') not in q.strip_comments:
			raise Violation('%s: the default comment styles are %r' % (what, q.strip_comments))
	text = must('repr(%s)' % what, repr, q)
	if not (text.startswith('sqlparams.SQLParams(') and repr(i) in text and repr(o) in text):
		raise Violation('repr(%s) is %r' % (what, text))
	rebuilt = must('eval(repr(%s))' % what, eval, text, {'sqlparams': lib})
	if (rebuilt.in_style, rebuilt.out_style) != (i, o):
		raise Violation('repr(%s) is %r, which makes %r' % (what, text, rebuilt))
	for sub in subclasses(lib):
		text = must('repr() of a subclass', repr, must('a subclass', sub, i, o))
		back = must('eval(%r)' % text, eval, text, {'sqlparams': lib, 'pbt': sys.modules['pbt'], sub.__name__: sub})
		if type(back) is not sub or (back.in_style, back.out_style) != (i, o):
			raise Violation('repr() of an instance of the subclass %s.%s for %s to %s is %r, which makes %r' % (sub.__module__, sub.__name__, i, o, text, back))
	again = must('rebuilding ' + what, lib.SQLParams, q.in_style, q.out_style, escape_char=q.escape_char, expand_tuples=q.expand_tuples,
		strip_comments=q.strip_comments, allow_out_quotes=c['oq'])
	plain = gen.build_params(i, c['q']['params'])
	body = gen.sql_of(c['q']['toks'], i)
	lead = model.LEAD[i]
	sql = 'z ' + lead * 2 + ' \\' + lead + ' !' + lead + ' ^^' + lead + ' .' + PROBES[c['probe']] % body
	handed = plain
	a, b = attempt(q.format, sql, handed), attempt(again.format, sql, handed)
	if a.ok != b.ok or (a.ok and not common.same_result(a.value, b.value)) or (not a.ok and type(a.error) is not type(b.error)):
		raise Violation('%s and its rebuilt copy differ on %s: %s / %s' % (what, ascii(sql), a.describe(), b.describe()))
	# Each value of an option does what it says.
	if a.ok and i != 'qmark':
		if strip in (None, False) or strip == []:
			twin = must('twin of ' + what, lib.SQLParams, i, o, c['esc'], c['exp'], None, c['oq'])
			t = attempt(twin.format, sql, handed)
			if not t.ok or not common.same_result(t.value, a.value):
				raise Violation('%s strips or changes %s: %s' % (what, ascii(sql), a.describe()))
		if c['esc'] in (None, False, ''):
			if 'z ' + lead * 2 + ' ' not in a.value[0]:
				raise Violation('%s has no escape sequence, but it gave %s for %s' % (what, ascii(a.value[0]), ascii(sql)))
		if c['esc'] is True or c['esc'] == lead:
			if 'z ' + lead + ' \\' not in a.value[0]:
				raise Violation('%s uses the default escape, but it gave %s for %s' % (what, ascii(a.value[0]), ascii(sql)))
	ctx.interesting(c['exp'] is not None or bool(c['esc']) or bool(strip) or bool(c['oq']))
	ctx.label('escape_char=%r' % (c['esc'] if c['esc'] in (None, True, False) else 'string'), 'expand_tuples=%r' % c['exp'])
