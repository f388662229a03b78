"""C22: prebuild.py derives the README files from their sources and nothing else."""
import contextlib
import io
import os
import shutil
import subprocess
import sys
import tempfile

from ..strat import st

from .. import core, model
from ..core import Violation, must

EXAMPLES = {'quick': 4000, 'thorough': 60000}
RULE = ("random README.rst.in and CHANGES.rst (documentation roles, near misses of them, Unicode, all kinds of text; every two bits of text; sizes up to several megabytes) in a scratch directory; "
	"README.rst has to be the source with the known roles rewritten and the link targets appended, README-dist.rst both texts joined, the "
	"sources untouched, a second run without effect; some runs are a separate process under another locale; non-trivial = at least one role")

ROLES = (
	(':class:`dict`', '*dict*'), (':class:`tuple`', '*tuple*'), (':class:`.SQLParams`', '`SQLParams`_'),
	(':meth:`.SQLParams.format`', '`SQLParams.format`_'), (':meth:`.SQLParams.formatmany`', '`SQLParams.formatmany`_'),
	(':mod:`sqlparams`', '*sqlparams*'),
)
BASE = 'https://python-sql-parameters.readthedocs.io/en/latest/sqlparams.html#sqlparams.'
BITS = ('text ', '\n', '\n\n', ':class:`list`', '`link`_', '.. _`link`: http://example.org/\n', '>>> query\n', '*em*', '\\ s', 'é', '中', '\U0001f600',
	':class:', '`dict`', ':meth:`format`', '$1 %s {} \\1', '====', ' ', ':class: `dict`', 'SQLParams', ':mod:`sqlparam`', '::\n\n  x', '\t', '.',
	':CLASS:`dict`', '"', "'", '\u2028', '\x85', '--', '\ufeff', '\x00', '\x1a', '\x0c', '\x1c')


REGRESSIONS = [
	{'readme': r, 'changes': c, 'repeat': n, 'locale': locale, 'stale': False}
	for locale in (0, 1, 2) for n in (1, 500)
	for r, c in ((['\u00e9 :class:`dict` \u4e2d'], ['x\n']), (['x\n'], ['\u00e9 \u4e2d']), (['\U0001f600'], ['\u2028 :class:`dict`\n']), (['\ufeffx\n'], ['\ufeffy\n']))
]


def enumerate_cases(tier):
	"""Every two bits of text beside each other in either file, and files of all sizes."""
	bits = [r[0] for r in ROLES] + list(BITS)
	for a in bits:
		for b in bits:
			yield {'readme': [a, b], 'changes': [b, a], 'locale': 0, 'stale': False}
		yield {'readme': [a, a, a], 'changes': [], 'locale': 0, 'stale': True}
		yield {'readme': [], 'changes': [a, a, a], 'locale': 0, 'stale': True}
	# Almost a role: one character left out, doubled, replaced, or in the other case.
	for role, _ in ROLES:
		for k, ch in enumerate(role):
			near = [role[:k] + x + role[k + 1:] for x in ('', ch * 2, 'x', '\\', ' ', '\n', '.', ch.swapcase())]
			near += [role[:k] + x + role[k:] for x in ('x', ' ', '\u200b')]
			yield {'readme': [x + ' | ' for x in near], 'changes': near, 'locale': 0, 'stale': False}
			yield {'readme': ['a ', role, ' b ', role[k:], role[:k], role], 'changes': [role], 'locale': 0, 'stale': False}
	text = ['0123456789 ' * 9 + '\n', ':class:`dict` \u4e2d\n']
	for times in (1, 5, 10, 35, 70, 140, 560, 1200, 8700, 9100, 20000) + ((100000,) if tier == 'thorough' else ()):
		yield {'readme': text, 'changes': ['x\n'], 'repeat': times, 'locale': 0, 'stale': True}
		yield {'readme': ['x\n'], 'changes': text, 'repeat2': times, 'locale': 0, 'stale': True}
		yield {'readme': ['\n'], 'changes': ['\n'], 'repeat': times, 'repeat2': times, 'locale': 0, 'stale': False}
		yield {'readme': ['a' * 97], 'changes': ['b' * 97], 'repeat': times, 'repeat2': times, 'locale': 0, 'stale': False}


@st.composite
def cases(draw, tier):
	bit = st.one_of(st.sampled_from([r[0] for r in ROLES]), st.sampled_from(BITS),
		st.text(st.characters(exclude_categories=('Cs',), exclude_characters='\r:`'), max_size=4))
	return {'readme': draw(st.lists(bit, max_size=14)), 'changes': draw(st.lists(bit, max_size=6)),
		'repeat': draw(st.sampled_from([1] * 30 + [30, 400])),
		'locale': draw(st.sampled_from([0] * 60 + [1, 2])), 'stale': draw(st.booleans())}


def load():
	path = os.path.join(core.REPO, 'prebuild.py')
	with open(path, 'rb') as fh:
		return compile(fh.read(), path, 'exec')


def execute(code):
	"""What "python prebuild.py" does; returns the exit code."""
	try:
		exec(code, {'__name__': '__main__', '__file__': os.path.join(core.REPO, 'prebuild.py'), '__doc__': None})
	except SystemExit as e:
		return e.code
	return 0


_module = []


def run_prebuild(folder, locale):
	if locale:
		env = {'PATH': os.environ.get('PATH', ''), 'LC_ALL': 'C' if locale == 1 else 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1'}
		if locale == 1:
			env.update(PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
		try:
			p = subprocess.run([sys.executable, os.path.join(core.REPO, 'prebuild.py')], cwd=folder, env=env,
				stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
		except subprocess.TimeoutExpired:
			raise Violation('prebuild.py does not end') from None
		if p.returncode:
			raise Violation('prebuild.py ended with code %d: %s' % (p.returncode, ascii(p.stdout[-400:])))
		return
	if not _module:
		_module.append(must('compiling prebuild.py', load))
	argv, cwd = sys.argv, os.getcwd()
	sys.argv = ['prebuild.py']
	os.chdir(folder)
	try:
		with contextlib.redirect_stdout(io.StringIO()):
			code = must('prebuild.py', execute, _module[0])
	finally:
		os.chdir(cwd)
		sys.argv = argv
	if code:
		raise Violation('prebuild.py ended with code %r' % code)


def rewrite(text):
	"""Left to right, one role at a time (no role can arise from another)."""
	out, k = [], 0
	if ':' not in text:
		return text
	while k < len(text):
		for old, new in ROLES:
			if text.startswith(old, k):
				out.append(new)
				k += len(old)
				break
		else:
			out.append(text[k])
			k += 1
	return ''.join(out)


def check(c, ctx):
	readme, changes = ''.join(c['readme']) * c.get('repeat', 1), ''.join(c['changes']) * c.get('repeat2', 1)
	folder = tempfile.mkdtemp(prefix='pbt-c22-')
	try:
		def put(name, text):
			with open(os.path.join(folder, name), 'wb') as fh:
				fh.write(text.encode('utf8'))

		def get(name):
			path = os.path.join(folder, name)
			if not os.path.exists(path):
				raise Violation('prebuild did not write %s' % name)
			with open(path, 'rb') as fh:
				return fh.read()
		put('README.rst.in', readme)
		put('CHANGES.rst', changes)
		if c['stale']:
			put('README.rst', 'stale ' * 400)
			put('README-dist.rst', 'stale ' * 900)
		want = rewrite(readme) + '\n' + ''.join('.. _`%s`: %s%s\n' % (n, BASE, n) for n in ('SQLParams', 'SQLParams.format', 'SQLParams.formatmany'))
		dist = want + '\n\n' + changes
		for n in range(2):
			run_prebuild(folder, c['locale'] if n == 0 else 0)
			for name, text in (('README.rst', want), ('README-dist.rst', dist), ('README.rst.in', readme), ('CHANGES.rst', changes)):
				got = get(name)
				if got != text.encode('utf8'):
					raise Violation('README.rst.in %s with CHANGES.rst %s: after run %d %s is %s, expected %s' % (
						ascii(readme[:2000]), ascii(changes[:2000]), n + 1, name, ascii(got[:600]), ascii(text.encode('utf8')[:600])))
			left = sorted(os.listdir(folder))
			if left != ['CHANGES.rst', 'README-dist.rst', 'README.rst', 'README.rst.in']:
				raise Violation('prebuild left %r' % left)
	finally:
		shutil.rmtree(folder, ignore_errors=True)
	hits = [r for r, _ in ROLES if r in readme]
	ctx.interesting(bool(hits))
	if len(hits) > 1:
		ctx.label('several roles')
	ctx.label('separate process, locale %d' % c['locale'] if c['locale'] else 'in process')
	if not readme.isascii() or not changes.isascii():
		ctx.label('not ASCII')
