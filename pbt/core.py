"""
Runner: drives one property with Hypothesis (sharded over processes), shrinks,
writes replay and evidence files.
"""
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SQLPARAMS_REPO', '/repo')
OUT = os.environ.get('SQLPARAMS_OUT') or VERIF  # set by tools/ only


class Violation(Exception):
	"""The property is broken by the current case."""


class Inconclusive(BaseException):
	"""The time limit of the shard was reached."""


class Hanging(BaseException):
	"""A case takes far too long."""


CASE_LIMIT = {'quick': 40, 'thorough': 150}  # seconds of processor time
BLOCKED = 15  # seconds in which a conversion uses no processor time: it waits for something that never comes


def hanging(*_):
	raise Hanging()


class Stats:
	def __init__(self):
		self.evaluations = 0
		self.labels = collections.Counter()
		self.nontrivial = set()
		self.samples = []
		self.truncated = False
		self.enumerated = 0
		self.nontrivial_enumerated = 0
		self.slowest = 0.0
		self.case_limit = CASE_LIMIT['thorough']


class Ctx:
	"""Handed to check(): labels, non-triviality, the library."""
	def __init__(self, lib):
		self.lib = lib
		self.labels = set()
		self.nontrivial = False

	def label(self, *names):
		self.labels.update(names)

	def interesting(self, cond=True):
		if cond:
			self.nontrivial = True


def prepare_import():
	"""Import from /repo's working tree, never from a stale .pyc."""
	sys.dont_write_bytecode = True
	sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'no-such-pycache-%d' % os.getpid())
	sys.path[:] = [p for p in sys.path if os.path.realpath(p or '.') != os.path.realpath(REPO)]
	sys.path.insert(0, REPO)


def load_library():
	import sqlparams
	where = os.path.realpath(sqlparams.__file__)
	if not where.startswith(os.path.realpath(REPO) + os.sep):
		raise RuntimeError("sqlparams was imported from %s" % where)
	return sqlparams


class Outcome:
	__slots__ = ('ok', 'value', 'error')

	def __init__(self, ok, value=None, error=None):
		self.ok, self.value, self.error = ok, value, error

	def describe(self):
		if self.ok:
			from .model import safe_repr
			return 'returned ' + safe_repr(self.value)
		return 'raised ' + error_text(self.error)


def error_text(e):
	try:
		text = ascii(str(e))[:200]
	except Exception:
		text = '?'
	return '%s: %s' % (type(e).__name__, text)


def attempt(fn, *a, **k):
	"""Call the library: what it returns or raises is data for the oracle."""
	try:
		return Outcome(True, fn(*a, **k))
	except (Exception, SystemExit) as e:
		return Outcome(False, error=e)


def must(what, fn, *a, **k):
	"""Call the library where the property says that it has to work."""
	r = attempt(fn, *a, **k)
	if not r.ok:
		raise Violation('%s raised %s' % (what, error_text(r.error)))
	return r.value


def case_key(case):
	return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).digest()


def from_library(e):
	"""Whether the exception came out of code in /repo."""
	root, tb = os.path.realpath(REPO) + os.sep, e.__traceback__
	while tb is not None:
		if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
			return True
		tb = tb.tb_next
	return False


def in_library(frame):
	"""Whether the frame is code in /repo, or was called from there."""
	root = os.path.realpath(REPO) + os.sep
	while frame is not None:
		if os.path.realpath(frame.f_code.co_filename).startswith(root):
			return True
		frame = frame.f_back
	return False


def run_case(prop, case, lib, stats, distinct=False):
	ctx = Ctx(lib)
	began = time.process_time()
	last = [None]

	def tick(signum, frame):
		now = time.process_time()
		if last[0] is not None and now - last[0] < 0.05 and in_library(frame):
			raise Hanging('blocked')
		last[0] = now

	try:
		signal.signal(signal.SIGPROF, hanging)
		signal.setitimer(signal.ITIMER_PROF, stats.case_limit, 5)
		signal.signal(signal.SIGALRM, tick)
		signal.setitimer(signal.ITIMER_REAL, BLOCKED, BLOCKED)
		try:
			prop.check(case, ctx)
		finally:
			signal.setitimer(signal.ITIMER_REAL, 0)
			signal.setitimer(signal.ITIMER_PROF, 0)
	except Hanging as e:
		if not from_library(e):
			raise RuntimeError('the check takes too long: %s' % json.dumps(case)[:600]) from e
		if e.args:
			raise Violation('a conversion waits for ever, in %s' % json.dumps(case)[:600]) from None
		raise Violation('a conversion did not end within %d s of processor time, in %s' % (stats.case_limit, json.dumps(case)[:600])) from None
	except (Exception, SystemExit) as e:
		if isinstance(e, Violation) or not from_library(e):
			raise
		raise Violation('%s raised where the property says that it works, in %s' % (error_text(e), json.dumps(case)[:600])) from e
	finally:
		stats.slowest = max(stats.slowest, time.process_time() - began)
		stats.evaluations += 1
		for name in ctx.labels:
			stats.labels[name] += 1
		if ctx.nontrivial and distinct:
			# Enumerated cases are distinct by construction.
			stats.nontrivial_enumerated += 1
			if len(stats.samples) < 2 and stats.evaluations % 1009 == 0:
				stats.samples.append(case)
		elif ctx.nontrivial:
			key = case_key(case)
			if key not in stats.nontrivial:
				stats.nontrivial.add(key)
				if len(stats.samples) < 3 or (len(stats.samples) < 6 and stats.evaluations % 97 == 0):
					stats.samples.append(case)


def shard_main(prop_name, tier, seed, shard, nshards, limit, queue):
	try:
		queue.put((shard, run_shard(prop_name, tier, seed, shard, nshards, limit)))
	except BaseException:
		queue.put((shard, {'crash': traceback.format_exc()}))


def run_shard(prop_name, tier, seed, shard, nshards, limit):
	import hypothesis
	from hypothesis import HealthCheck, Phase, settings
	from hypothesis.internal.conjecture import engine
	if hasattr(engine, 'MAX_SHRINKING_SECONDS'):
		engine.MAX_SHRINKING_SECONDS = 45
	lib = load_library()
	prop = importlib.import_module('pbt.props.' + prop_name.lower())
	stats = Stats()
	stats.case_limit = CASE_LIMIT[tier]
	start = time.monotonic()
	failure = None

	# Bounded-exhaustive part.
	if hasattr(prop, 'enumerate_cases'):
		best = None
		for i, case in enumerate(prop.enumerate_cases(tier)):
			if i % nshards != shard:
				continue
			if i % 512 == shard and time.monotonic() - start > limit:
				stats.truncated = True
				break
			stats.enumerated += 1
			try:
				run_case(prop, case, lib, stats, True)
			except Violation as e:
				best = (case, str(e))
				break
		if best:
			failure = best

	# Generated part.
	if failure is None:
		last = {}
		count = prop.EXAMPLES[tier] // nshards + 1

		def body(case):
			if not last and time.monotonic() - start > limit:
				stats.truncated = True
				raise Inconclusive()
			try:
				run_case(prop, case, lib, stats)
			except Violation as e:
				last['case'], last['error'] = case, str(e)
				raise

		test = hypothesis.given(prop.cases(tier))(body)
		test = hypothesis.seed(seed * 1000003 + shard * 7919 + 17)(test)
		test = settings(
			max_examples=count, deadline=None, database=None, derandomize=False,
			report_multiple_bugs=False, print_blob=False,
			phases=(Phase.generate, Phase.shrink),
			suppress_health_check=list(HealthCheck),
		)(test)
		try:
			test()
		except Inconclusive:
			pass
		except BaseException as e:
			if not last:
				raise
			del e
		if last:
			failure = (last['case'], last['error'])

	return {
		'evaluations': stats.evaluations, 'labels': dict(stats.labels),
		'nontrivial': list(stats.nontrivial), 'samples': stats.samples,
		'truncated': stats.truncated, 'enumerated': stats.enumerated,
		'nontrivial_enumerated': stats.nontrivial_enumerated,
		'failure': failure, 'slowest': stats.slowest,
	}


def read_known(prop_id):
	"""Known findings of the property: [{property, what, case}]."""
	path = os.path.join(VERIF, 'known_findings.jsonl')
	out = []
	if os.path.exists(path):
		with open(path) as fh:
			for line in fh:
				if line.strip():
					rec = json.loads(line)
					if rec.get('property') == prop_id and rec.get('status') == 'known':
						out.append(rec)
	return out


def run(prop_id, tier, seed):
	start = time.monotonic()
	prepare_import()
	lib = load_library()
	prop = importlib.import_module('pbt.props.' + prop_id.lower())
	nshards = min(8, max(1, os.cpu_count() or 1))
	limit = {'quick': 150, 'thorough': 600}[tier]

	# Saved cases first: regressions of repaired defects, and known findings.
	stats = Stats()
	failures = []
	for case in getattr(prop, 'REGRESSIONS', ()):
		try:
			run_case(prop, case, lib, stats)
		except Violation as e:
			failures.append((case, str(e)))
	for rec in read_known(prop_id):
		try:
			run_case(prop, rec['case'], lib, stats)
		except Violation:
			print('KNOWN-FINDING: property=%s %s' % (prop_id, rec['what']), flush=True)

	results = []
	if not failures:
		mp = multiprocessing.get_context('fork')
		queue = mp.Queue()
		procs = [
			mp.Process(target=shard_main, args=(prop_id, tier, seed, i, nshards, limit, queue), daemon=True)
			for i in range(nshards)
		]
		for p in procs:
			p.start()
		got = {}
		while len(got) < nshards:
			try:
				i, res = queue.get(timeout=2)
				got[i] = res
			except Exception:
				dead = [i for i, p in enumerate(procs) if i not in got and not p.is_alive()]
				if dead and queue.empty():
					time.sleep(1)
					if queue.empty():
						for i in dead:
							got[i] = {'crash': 'shard %d ended with code %s' % (i, procs[i].exitcode)}
			if time.monotonic() - start > limit + 200:
				for i, p in enumerate(procs):
					if i not in got:
						p.terminate()
						got[i] = {'crash': 'shard %d did not finish' % i}
		for p in procs:
			p.join(5)
		results = [got[i] for i in range(nshards)]
	crashes = [r['crash'] for r in results if 'crash' in r]
	good = [r for r in results if 'crash' not in r]
	failures += [tuple(r['failure']) for r in good if r['failure']]

	labels = collections.Counter(stats.labels)
	nontrivial = set(stats.nontrivial)
	samples = list(stats.samples)
	evaluations, enumerated, truncated, distinct = stats.evaluations, 0, False, 0
	for r in good:
		labels.update(r['labels'])
		nontrivial.update(r['nontrivial'])
		samples += r['samples']
		evaluations += r['evaluations']
		enumerated += r['enumerated']
		distinct += r['nontrivial_enumerated']
		truncated = truncated or r['truncated']

	violation = None
	if failures:
		violation = min(failures, key=lambda f: len(json.dumps(f[0])))
		folder = os.path.join(OUT, 'replays')
		os.makedirs(folder, exist_ok=True)
		path = os.path.join(folder, '%s-%s-%d.json' % (prop_id, tier, seed))
		with open(path, 'w') as fh:
			json.dump({
				'property': prop_id, 'case': violation[0], 'error': violation[1],
				'replay_cmd': 'cd /verif && ./check.sh %s --replay %s' % (prop_id, path),
			}, fh, indent=1)

	evidence = {
		'property': prop_id, 'tier': tier, 'seed': seed, 'level': 'exploration',
		'coverage': {
			'evaluations': evaluations,
			'distinct_nontrivial': len(nontrivial) + distinct,
			'rule': prop.RULE,
			'samples': sorted(samples, key=lambda c: len(json.dumps(c)))[:8] or ['none'],
			'classes': dict(sorted(labels.items())),
			'enumerated_exhaustively': enumerated,
			'shards': nshards,
			'slowest_case_cpu_s': round(max([stats.slowest] + [r['slowest'] for r in good]), 2),
			'time_limit_reached': truncated,
		},
		'assumptions': list(getattr(prop, 'ASSUMPTIONS', ())),
		'wall_s': round(time.monotonic() - start, 2),
		'violations': 1 if violation else 0,
	}
	os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
	tmp = os.path.join(OUT, 'evidence', prop_id + '.json.tmp')
	with open(tmp, 'w') as fh:
		json.dump(evidence, fh, indent=1)
		fh.write('\n')
	os.replace(tmp, tmp[:-4])

	if violation:
		print('property %s broken: %s' % (prop_id, violation[1]))
		print('case: %s' % json.dumps(violation[0])[:2000])
		print('VIOLATION property=%s replay=%s' % (prop_id, path), flush=True)
		return 1
	if crashes:
		print('harness error:\n' + crashes[0], file=sys.stderr)
		return 2
	print('%s %s seed=%d: %d cases (%d enumerated), %d distinct non-trivial, %.1f s%s' % (
		prop_id, tier, seed, evaluations, enumerated, len(nontrivial) + distinct,
		time.monotonic() - start, ' [time limit reached]' if truncated else ''))
	return 0


def replay(prop_id, path):
	prepare_import()
	lib = load_library()
	prop = importlib.import_module('pbt.props.' + prop_id.lower())
	with open(path) as fh:
		case = json.load(fh)['case']
	try:
		run_case(prop, case, lib, Stats())
	except Violation as e:
		print('property %s broken: %s' % (prop_id, e))
		print('VIOLATION property=%s replay=%s' % (prop_id, path))
		return 1
	print('%s: the case passes' % prop_id)
	return 0
