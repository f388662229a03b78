"""Checks shared by several properties."""
import zlib

from . import gen, model
from . import values as V
from .core import Violation, attempt, error_text, must


def read_back(what, out_style, result, oq=False, unescape=None):
	"""Check the shape of a format() result and interpret it."""
	if not (isinstance(result, tuple) and len(result) == 2):
		raise Violation('%s did not return a pair: %s' % (what, model.safe_repr(result)))
	sql, params = result
	if type(sql) is not str:
		raise Violation('%s returned a query of type %s' % (what, type(sql).__name__))
	try:
		return model.interpret(out_style, sql, params, oq, bool(unescape))
	except model.Mismatch as e:
		raise Violation('%s gave %s with %s: %s' % (what, ascii(sql), model.safe_repr(params), e))


def expect_stream(what, got, want, sql):
	if not model.same_stream(got, want):
		raise Violation('%s gave %s which means\n  %s\nbut the query means\n  %s' % (
			what, ascii(sql), model.show(got), model.show(want)))


def name_of(c):
	return '%s->%s format(%s)' % (c['in'], c['out'], ascii(c.get('sql', '')))


def setup(c):
	"""(sql, plain params, expand) of a structured case."""
	sql = gen.sql_of(c['q']['toks'], c['in'], c.get('esc'))
	plain = gen.build_params(c['in'], c['q']['params'])
	return sql, plain, model.resolve_exp(c['out'], c.get('exp'))


def literal_percent(c):
	"""Whether literal percent signs are doubled."""
	return model.LEAD[c['in']] != '%' and model.LEAD[c['out']] == '%'


def same_exact(a, b):
	"""Same container type, same keys or length, the very same value objects."""
	if type(a) is not type(b):
		return False
	if isinstance(a, dict):
		return len(a) == len(b) and all(k in b and a[k] is b[k] for k in a)
	return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def same_result(a, b):
	return type(a[0]) is type(b[0]) and a[0] == b[0] and same_exact(a[1], b[1])


def count_ph(c):
	return sum(t[0] == 'P' for t in c['q']['toks'])


def used_values(c):
	"""Descriptors of the values the query refers to, per placeholder."""
	out, n = [], 0
	params = c['q']['params']
	index = {}
	if c['in'] in model.NAMED:
		for k, d in params:
			index.setdefault(model.oracle_key(k) if c['in'] == 'named_oracle' else k, (k, d))
	for t in c['q']['toks']:
		if t[0] != 'P':
			continue
		if c['in'] in model.NAMED:
			name, quoted = t[1]
			if c['in'] == 'named_oracle':
				want = name if quoted else name.upper()
				out.append(index[want])
			else:
				out.append(index[name])
		elif c['in'] in model.NUMERIC:
			out.append((t[1], params[t[1] - 1]))
		else:
			out.append((n, params[n]))
			n += 1
	return out


def other_way(c, q, what, sql, box, got):
	"""
	*got* is what format() returned for this str query. The same from bytes, from formatmany(), or both, which of them depends on the query.
	"""
	how = zlib.crc32(sql.encode('utf8', 'surrogatepass')) % 5 % 4
	if how % 2:
		try:
			text = sql.encode('latin1')
			if c['in'] == 'named_oracle':
				sql.upper().encode('latin1')
		except UnicodeEncodeError:
			how -= 1
	if not how:
		return
	if how % 2 == 0:
		text = sql
	if how > 1:
		out, rows = must('%s through formatmany(%s)' % (what, ascii(text[:2000])), q.formatmany, text, [box, box])
		if len(rows) != 2:
			raise Violation('%s: formatmany(%s) returned %d sets of parameters for two rows' % (what, ascii(text[:2000]), len(rows)))
	else:
		out, *rows = must('%s through bytes' % what, q.format, text, box)
	if type(out) is not type(text) or (out.decode('latin1') if isinstance(out, bytes) else out) != got[0] or not all(same_exact(r, got[1]) for r in rows):
		raise Violation('%s gave %s with %s, but format%s(%s) gave %s with %s' % (
			what, ascii(got[0][:2000]), model.safe_repr(got[1]), 'many' * (how > 1), ascii(text[:2000]), ascii(out[:2000]), model.safe_repr(rows)))
