"""C25: conversions depend on their arguments only, and touch nothing else."""
import contextlib
import gc
import io
import json
import locale
import os
import random
import subprocess
import sys
import threading
import time
import warnings

from ..strat import st

from .. import core, gen, grid, model, pure
from .. import values as V
from ..core import Violation

EXAMPLES = {'quick': 400, 'thorough': 8000}
RULE = ("batches of conversions (every pair of styles, valid and failing calls) run in this process and in a fresh process under each of 28 environments (hash seeds, -O, -OO, -bb -W error, -X dev, -I, "
	"other locales, garbage collection at every step, in a thread, in an event loop, traced, in another order, with caches purged): queries, parameters by identity, and kinds of errors have to be the same; "
	"while a batch runs in this process no file, socket or process may be opened, nothing printed, and no process-wide state changed; non-trivial = every batch")
ASSUMPTIONS = ('one version of Python (3.12)',)

# (name, interpreter options, environment, mode)
ENVIRONMENTS = (
	('hash seed 1', (), {'PYTHONHASHSEED': '1'}, ''), ('hash seed 2', (), {'PYTHONHASHSEED': '2'}, 'reversed'), ('hash seed 77', (), {'PYTHONHASHSEED': '77'}, ''),
	('hash seed 4242', (), {'PYTHONHASHSEED': '4242'}, 'twice'), ('-O', ('-O',), {}, ''), ('-OO', ('-OO',), {}, ''), ('-W error -bb', ('-W', 'error', '-bb'), {}, ''),
	('-X dev', ('-X', 'dev'), {}, ''), ('-s -E', ('-s',), {}, ''), ('C locale', (), {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}, ''),
	('POSIX, ASCII output', (), {'LC_ALL': 'POSIX', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0', 'PYTHONIOENCODING': 'ascii'}, ''), ('UTF-8 mode', ('-X', 'utf8'), {}, ''),
	('reversed', (), {}, 'reversed'), ('twice', (), {}, 'twice'), ('purged', (), {}, 'purge'), ('gc at every step', (), {}, 'gc'), ('no gc', (), {}, 'no gc'), ('thread', (), {}, 'thread'),
	('traced', (), {}, 'trace'), ('event loop', (), {}, 'async'), ('no streams', (), {}, 'streams'), ('in a folder that is gone', (), {}, 'folder'), ('profiled', (), {}, 'profile'), ('from deep down', (), {}, 'deep'),
	('decimal context', (), {}, 'decimal'), ('while handling an error', (), {}, 'exception'),
	('no home, other zone', (), {'HOME': '/nonexistent', 'TZ': 'Asia/Tokyo', 'USER': '', 'LANG': 'tr_TR.UTF-8', 'LANGUAGE': 'tr'}, ''),
	('debug variables', (), {'DEBUG': '1', 'PYTHONDEBUG': '0', 'SQLPARAMS_DEBUG': '1', 'CI': '1', 'PYTEST_CURRENT_TEST': '', 'NO_COLOR': '1', 'TERM': 'dumb'}, ''),
)
WRONG = (None, None, None, 'missing', 'params', 'rows', 'row', 'sql', 'escape', 'strip', 'number', 'length', 'kind')


# Texts which are the name of something.
NAMES = ('query.sql', '/etc/passwd', '@query.sql', 'file:///etc/passwd', 'http://localhost/x', '.', '~', '$HOME', '', '-', 'select', 'README.rst', '\\i query.sql', '!ls', 'sqlparams')


def small_cases():
	n = grid.N(0)
	for pattern, values in (((0,), [grid.S]), ((0,), [grid.S, grid.T2, grid.S]), ((), [grid.S, grid.S]), ((0, 1, 0), [grid.T2, grid.S]), ((1, 0, 2), [grid.S, grid.T3, grid.T0]), ((), []), ((3, 1, 0, 2, 1), [grid.S, ['n'], grid.T1, ['l', [grid.S]]])):
		for i in model.STYLES:
			for o in model.STYLES:
				for wrong in (None, WRONG[3 + (n + 1) % 10]):
					n += 1
					q = grid.query(i, pattern, values, n)
					if n % 7 == 6:
						q['toks'] = [['L', NAMES[n // 7 % len(NAMES)]]]
					elif n % 3 == 0:
						q['toks'] = [['L', '-- a 100%\n/* b */\n ']] + q['toks'] + ([['E'], ['L', ' ']] if n % 2 else [['L', '%s' if model.LEAD[i] != '%' else '']])
					yield {'in': i, 'out': o, 'exp': (None, True, False)[n // 2 % 3], 'oq': n % 2 == 0, 'esc': True if n % 3 == 0 else None, 'strip': (None, True)[n // 3 % 2],
						'box': grid.box_of(i, n), 'q': q, 'wrong': wrong, 'bytes': n % 5 == 0, 'rows': 1 + n % 3}
	# More parameters, longer queries, and more rows.
	for size, blanks, rows in ((6, 0, 1), (13, 5000, 2), (70, 70000, 150), (300, 0, 3)):
		for i in model.STYLES:
			for o in model.STYLES:
				n += 1
				stem = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'[n % 26] + '_Q'[n // 26 % 2]
				values = [grid.S if k % 3 else grid.T2 if n % 2 else ['i', k] for k in range(size)]
				if i in model.NAMED:
					q = {'toks': grid.toks_of([grid.ref_of(i, '%s%d' % (stem, k), k) for k in range(size)]), 'params': [[grid.key_of(i, '%s%d' % (stem, k), k), v] for k, v in enumerate(values)]}
				else:
					q = {'toks': grid.toks_of([k + 1 if i in model.NUMERIC else None for k in range(size)]), 'params': values}
				yield {'in': i, 'out': o, 'exp': (None, True)[n // 2 % 2], 'oq': False, 'esc': None, 'strip': None, 'box': 'dict' if i in model.NAMED else 'list', 'q': q, 'wrong': None,
					'pad': blanks, 'bytes': n % 5 == 0, 'rows': rows}


def enumerate_cases(tier):
	cases = list(small_cases())
	size = 135
	small, large = [c for c in cases if 'pad' not in c], [c for c in cases if 'pad' in c]
	for k in range(0, len(small), size):
		for e in range(len(ENVIRONMENTS)):
			yield {'env': e, 'cases': small[k:k + size]}
	for k in range(3):
		for e in range(len(ENVIRONMENTS)):
			yield {'env': e, 'cases': [c for n, c in grid.numbered(large) if tier == 'thorough' or len(c['q']['params']) < 20 or (n + e) % 4 == 0][k::3]}


@st.composite
def single(draw):
	i, o = draw(gen.styles), draw(gen.styles)
	esc = draw(st.sampled_from([None, None, True]))
	return {'in': i, 'out': o, 'exp': draw(st.sampled_from([None, True, False])), 'oq': draw(st.booleans()), 'esc': esc, 'strip': draw(st.sampled_from([None, True, ['#', ['(*', '*)']]])),
		'box': draw(gen.containers(i)), 'q': draw(gen.queries(i, escapes=esc is True, zeros=True, name_filter=gen.no_reserved, scale=False)),
		'wrong': draw(st.sampled_from(WRONG)), 'bytes': draw(st.booleans()), 'rows': draw(st.integers(1, 3))}


@st.composite
def cases(draw, tier):
	return {'env': draw(st.integers(0, len(ENVIRONMENTS) - 1)), 'cases': draw(st.lists(single(), min_size=1, max_size=12))}


def elsewhere(env, cases):
	name, options, variables, mode = ENVIRONMENTS[env]
	full = {'PATH': os.environ.get('PATH', ''), 'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPATH': core.VERIF, 'SQLPARAMS_REPO': core.REPO, 'LC_ALL': 'C.UTF-8'}
	full.update(variables)
	try:
		p = subprocess.run([sys.executable, *options, '-m', 'pbt.pure', mode], input=json.dumps(cases).encode(), env=full, cwd='/', stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
	except subprocess.TimeoutExpired:
		raise Violation('with %s the conversions do not end' % name) from None
	try:
		out = json.loads(p.stdout)
	except ValueError:
		raise RuntimeError('the other process ended with code %d: %s' % (p.returncode, p.stderr[-2000:]))
	if isinstance(out, dict):
		if out['library']:
			raise Violation('with %s a conversion ended in %s' % (name, out['crash'][-600:]))
		raise RuntimeError(out['crash'])
	if (core.REPO + '/').encode() in p.stderr:
		raise Violation('with %s a conversion wrote to stderr: %s' % (name, ascii(p.stderr[:600])))
	return out


EVENTS = ('open', 'socket.', 'subprocess.', 'os.', 'shutil.', 'tempfile.', 'pty.', 'signal.', 'sys.setprofile', 'sys.settrace', 'sys.addaudithook', 'sys.set_asyncgen', 'threading.', '_thread.', 'ctypes.', 'sqlite3.',
	'urllib.', 'http.', 'smtplib.', 'mmap.', 'fcntl.', 'webbrowser.', 'pickle.', 'marshal.', 'builtins.input', 'time.sleep', 'glob.', 'code.__new__')
_seen, _active = [], [False]


def hook(event, args):
	if not _active[0] or not (event.startswith(EVENTS) or event in ('exec', 'compile')):
		return
	frame, library, depth = sys._getframe(1), False, 0
	root = os.path.realpath(core.REPO) + os.sep
	while frame is not None:
		name = frame.f_code.co_filename
		if 'importlib' in name:
			return  # a module that is imported late
		if name.startswith(root):
			if depth and event in ('exec', 'compile'):
				return  # the standard library at work, such as namedtuple()
			library = True
			break
		depth += 1
		frame = frame.f_back
	if library:
		_seen.append('%s(%s)' % (event, ', '.join(ascii(a)[:60] for a in args[:3])))


_where = {}


def where(name):
	if name not in _where:
		path = os.path.realpath(name)
		_where[name] = 'library' if path.startswith(os.path.realpath(core.REPO) + os.sep) else 'harness' if path.startswith(os.path.realpath(core.VERIF) + os.sep) or 'importlib' in name else None
	return _where[name]


def by_library(depth=2):
	"""Whether the library called, itself or through the standard library."""
	frame, place = sys._getframe(depth), None
	while frame is not None and place is None:
		place = where(frame.f_code.co_filename)
		frame = frame.f_back
	return place == 'library'


class Watched(dict):
	"""Environment variables; the library must not look at them."""
	def _note(self):
		if _active[0] and (by_library(3) or by_library(4)):
			_seen.append('os.environ')

	def __getitem__(self, k):
		self._note()
		return dict.__getitem__(self, k)

	def get(self, *a):
		self._note()
		return dict.get(self, *a)

	def __contains__(self, k):
		self._note()
		return dict.__contains__(self, k)


def noting(name, fn):
	def call(*a, **k):
		if _active[0] and by_library():
			_seen.append(name)
		return fn(*a, **k)
	return call


@contextlib.contextmanager
def watching():
	"""Notes when the library looks at the environment, the clock, or for random numbers."""
	saved = [(os, 'environ', os.environ)] + [(m, n, getattr(m, n)) for m, names in (
		(time, ('time', 'time_ns', 'monotonic', 'perf_counter', 'process_time')), (random, ('random', 'randrange', 'randint', 'choice', 'shuffle', 'sample', 'getrandbits', 'seed')),
		(os, ('urandom', 'getpid', 'getcwd', 'stat'))) for n in names]
	try:
		for m, n, old in saved:
			setattr(m, n, Watched(old) if n == 'environ' else noting('%s.%s()' % (m.__name__, n), old))
		_active[0] = True
		yield
	finally:
		_active[0] = False
		for m, n, old in saved:
			setattr(m, n, old)


_hooked = []


def state():
	import decimal
	return {
		'environment variables': dict(os.environ), 'current folder': os.getcwd(), 'warning filters': list(map(repr, warnings.filters)), 'random state': random.getstate(), 'recursion limit': sys.getrecursionlimit(),
		'locale': locale.setlocale(locale.LC_ALL), 'decimal context': repr(decimal.getcontext()), 'gc': (gc.isenabled(), gc.get_threshold()), 'switch interval': sys.getswitchinterval(), 'trace': (sys.gettrace(), sys.getprofile()),
		'threads': sorted(t.name for t in threading.enumerate()), 'hooks': (sys.excepthook, sys.displayhook, sys.stdout, sys.stderr, sys.stdin, sys.unraisablehook), 'path': list(sys.path), 'digits': sys.get_int_max_str_digits(),
	}


def check(c, ctx):
	if not _hooked:
		_hooked.append(1)
		sys.addaudithook(hook)
		pure.evaluate(ctx.lib, c['cases'])
	out, err = io.StringIO(), io.StringIO()
	with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), warnings.catch_warnings(record=True) as warned:
		warnings.simplefilter('always')
		limit = sys.getrecursionlimit()
		if c['env'] % 2:
			gc.disable()
			sys.setrecursionlimit(limit + 100)
		try:
			before = state()
			_seen.clear()
			with watching():
				want = pure.evaluate(ctx.lib, c['cases'])
			after = state()
		finally:
			gc.enable()
			sys.setrecursionlimit(limit)
	text = json.dumps(c['cases'])[:700]
	if _seen:
		raise Violation('a conversion made use of %s, in %s' % (_seen[0], text))
	if out.getvalue() or err.getvalue():
		raise Violation('a conversion printed %s, in %s' % (ascii((out.getvalue() + err.getvalue())[:200]), text))
	for w in warned:
		if not w.filename.startswith((core.REPO, pure.__file__)):
			continue
		raise Violation('a conversion raised the warning %s, in %s' % (ascii(str(w.message)), text))
	for k in before:
		if before[k] != after[k]:
			raise Violation('a conversion changed the %s, in %s' % (k, text))
	got = elsewhere(c['env'], c['cases'])
	want = json.loads(json.dumps(want))
	for k, (a, b) in enumerate(zip(want, got)):
		if a != b:
			raise Violation('with %s %s gave %s, else it gives %s' % (ENVIRONMENTS[c['env']][0], json.dumps(c['cases'][k])[:700], ascii(b), ascii(a)))
	ctx.interesting()
	ctx.label('environment: ' + ENVIRONMENTS[c['env']][0])
	for w, r in zip(c['cases'], want):
		if 'raised' in str(r):
			ctx.label('with a failing call')
