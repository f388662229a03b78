"""
Runs a list of cases and describes the results as plain data, in this process or (as a program) in another one:
python -m pbt.pure MODE < cases > results
"""
import json
import sys
import traceback
import types

if __name__ == '__main__':
	class Nothing:
		"""Stands for the strategies of gen.py, which are not needed here and slow to import."""
		def __getattr__(self, name):
			return self

		def __call__(self, *a, **k):
			return self
	sys.modules['pbt.strat'] = types.ModuleType('pbt.strat')
	sys.modules['pbt.strat'].st = Nothing()

from . import gen, model


def labels(plain):
	"""{id: label} of the values, and of the elements of tuples."""
	out = {}
	for k, v in (plain.items() if isinstance(plain, dict) else enumerate(plain)):
		out.setdefault(id(v), ['v', str(k)])
		if isinstance(v, tuple):
			for j, x in enumerate(list(tuple.__iter__(v))):
				out.setdefault(id(x), ['e', str(k), j])
	return out


def describe(sql, params, names):
	if isinstance(sql, bytes):
		sql = ['bytes', sql.decode('latin1')]
	if isinstance(params, dict):
		return [sql, 'dict', sorted(([k, names.get(id(v), '?')] for k, v in params.items()), key=repr)]
	return [sql, type(params).__name__, [names.get(id(v), '?') for v in params]]


def outcome(fn):
	try:
		return fn()
	except (Exception, SystemExit) as e:
		return ['raised', next(t.__name__ for t in type(e).__mro__ if t in (KeyError, IndexError, TypeError, ValueError, LookupError) or t in (Exception, BaseException))]


def change(wrong, v):
	"""A value which does not fit in with *v* in a later row."""
	if not isinstance(v, tuple):
		return v
	return v + v[:1] + (1,) if wrong == 'length' else list(v)


def one(lib, c):
	"""format() and formatmany() of one case; 'wrong' breaks the call in one way."""
	sql = gen.sql_of(c['q']['toks'], c['in'], c.get('esc'))
	sql += ' ' * c.get('pad', 0)
	plain = gen.build_params(c['in'], c['q']['params'])
	names = labels(plain)
	wrong = c.get('wrong')
	if c.get('bytes') and sql.isascii():
		sql = sql.encode('ascii')
	if wrong == 'missing':
		sql = sql + type(sql)() + (b' ' if isinstance(sql, bytes) else ' ')
		more = gen.sql_of([['P', ['zz9', False] if c['in'] in model.NAMED else 9999 if c['in'] in model.NUMERIC else None]], c['in']) + ' '
		if c['in'] in model.ORDINAL:
			more *= 30
		sql += more.encode('ascii') if isinstance(sql, bytes) else more
	given = None if wrong == 'params' else 5 if wrong == 'number' else gen.contain(c['in'], c['box'], plain)
	rows = 5 if wrong == 'rows' else [gen.contain(c['in'], c['box'], plain), None] if wrong == 'row' else [gen.contain(c['in'], c['box'], plain)] * c.get('rows', 2)
	if wrong in ('length', 'kind'):
		other = [change(wrong, v) for v in plain.values()] if isinstance(plain, dict) else [change(wrong, v) for v in plain]
		rows = rows[:1] + [gen.contain(c['in'], c['box'], dict(zip(plain, other)) if isinstance(plain, dict) else other)] * 2
	if wrong == 'sql':
		sql = None
	try:
		q = gen.make(lib, c, **({'escape_char': 5} if wrong == 'escape' else {'strip_comments': 5} if wrong == 'strip' else {}))
	except (Exception, SystemExit) as e:
		return ['constructor', outcome(lambda: (_ for _ in ()).throw(e))]

	def single():
		text, params = q.format(sql, given)
		return describe(text, params, names)

	def many():
		text, sets = q.formatmany(sql, rows)
		sets = [describe(text, p, names) for p in sets]
		return sets if len(sets) < 9 else [len(sets), all(s == sets[0] for s in sets), sets[0]]
	return [outcome(single), outcome(many), [q.in_style, q.out_style, repr(q.escape_char), repr(q.expand_tuples), repr(q.strip_comments), repr(q)]]


def evaluate(lib, cases, mode=None):
	cases = json.loads(json.dumps(cases))
	if mode == 'reversed':
		return [one(lib, c) for c in cases[::-1]][::-1]
	if mode == 'twice':
		for c in cases:
			one(lib, c)
	elif mode == 'purge':
		import re
		out = []
		for c in cases:
			re.purge()
			out.append(one(lib, c))
		return out
	elif mode == 'gc':
		import gc
		gc.set_threshold(1)
	elif mode == 'no gc':
		import gc
		gc.disable()
	elif mode == 'thread':
		import threading
		out = []
		t = threading.Thread(target=lambda: out.extend(one(lib, c) for c in cases))
		t.start()
		t.join()
		return out
	elif mode == 'trace':
		sys.settrace(lambda *a: None)
		try:
			return [one(lib, c) for c in cases]
		finally:
			sys.settrace(None)
	elif mode == 'async':
		import asyncio

		async def main():
			return [one(lib, c) for c in cases]
		return asyncio.run(main())
	elif mode == 'streams':
		saved = sys.stdin, sys.stdout, sys.stderr, sys.__stdin__, sys.__stdout__, sys.__stderr__
		sys.stdin = sys.stdout = sys.stderr = sys.__stdin__ = sys.__stdout__ = sys.__stderr__ = None
		try:
			return [one(lib, c) for c in cases]
		finally:
			sys.stdin, sys.stdout, sys.stderr, sys.__stdin__, sys.__stdout__, sys.__stderr__ = saved
	elif mode == 'folder':
		import os
		import tempfile
		folder = tempfile.mkdtemp(prefix='pbt-c25-')
		os.chdir(folder)
		os.rmdir(folder)
		try:
			return [one(lib, c) for c in cases]
		finally:
			os.chdir('/')
	elif mode == 'profile':
		sys.setprofile(lambda *a: None)
		try:
			return [one(lib, c) for c in cases]
		finally:
			sys.setprofile(None)
	elif mode == 'deep':
		def down(n):
			return down(n - 1) if n else [one(lib, c) for c in cases]
		return down(600)
	elif mode == 'decimal':
		import decimal
		decimal.getcontext().prec = 1
		decimal.getcontext().traps[decimal.Inexact] = True
	elif mode == 'copy':
		import copy
		return [one(lib, copy.deepcopy(c)) for c in cases]
	elif mode == 'exception':
		try:
			raise OSError('an unrelated error is being handled')
		except OSError:
			return [one(lib, c) for c in cases]
	return [one(lib, c) for c in cases]


def main():
	from . import core
	core.prepare_import()
	lib = core.load_library()
	try:
		out = evaluate(lib, json.load(sys.stdin), sys.argv[1] or None)
	except BaseException as e:
		out = {'crash': traceback.format_exc(), 'library': core.from_library(e)}
	json.dump(out, sys.stdout)


if __name__ == '__main__':
	main()
