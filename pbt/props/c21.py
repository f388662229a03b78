"""C21: an instance can be shared between threads: interleavings change no result."""
import os
import sys
import threading

from ..strat import st

from .. import common, core, gen, grid, model
from .. import values as V
from ..core import Violation, attempt, error_text

EXAMPLES = {'quick': 4000, 'thorough': 60000}
RULE = ("two or three threads convert different queries at once on one shared instance (or on several of the same configuration); a "
	"scheduler switches between them at the traced lines of the library, following a generated schedule (and one switch at every line, for every pair of styles); every result is compared with the "
	"reference model; non-trivial = at least two switches inside a conversion")
ASSUMPTIONS = ("switches happen between lines of Python code of the library, not inside a line or inside the re module",)


@st.composite
def cases(draw, tier):
	i, o = draw(gen.styles), draw(gen.styles)
	conf = {'in': i, 'out': o, 'exp': draw(st.sampled_from([None, None, True, False])),
		'esc': draw(st.sampled_from([None, None, True, '!'])), 'oq': draw(st.booleans()),
		'strip': draw(st.sampled_from([None, True]))}
	n = draw(st.sampled_from([2, 2, 3]))
	comment = draw(st.sampled_from([[], [['L', '-- c\n']], [['L', ' /* d */\n-- e\n']]]))
	base = draw(gen.queries(i, name_filter=gen.no_reserved, scale=False, escapes=bool(conf['esc']), min_ph=1))
	jobs = []
	for k in range(n):
		same = draw(st.booleans())
		q = base if same else draw(gen.queries(i, name_filter=gen.no_reserved, scale=False, escapes=bool(conf['esc']), min_ph=1))
		jobs.append({'q': {'toks': comment + q['toks'], 'params': gen.rows_like(draw, i, q['params'], 1)[0] if same else q['params']},
			'many': draw(st.sampled_from([0, 0, 1, 3])), 'own': draw(st.integers(0, 5)) == 0})
	return dict(conf, jobs=jobs, schedule=draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(1, 12)), min_size=2, max_size=30)))


def enumerate_cases(tier):
	"""Every pair of styles, and one switch at every line (in thorough, two): the second thread runs in the middle of the first."""
	n = grid.N(0)
	for a in model.STYLES:
		for b in model.STYLES:
			for k in range(2, 110):
				n += 1
				if tier == 'quick' and (k % 3 != n // 108 % 3 if k < 70 else k % 9 != n // 108 % 9):
					continue
				exp = (None, True)[n % 2]
				jobs = [{'q': grid.query(a, (0, 1, 0), [['s', 'xx'], grid.T2], n), 'many': (0, 0, 2)[n // 3 % 3], 'own': False},
					{'q': grid.query(a, ((1, 0), (0, 1, 0), (0, 0, 1))[n % 3], [['i', int(n)], (grid.T3, grid.S, grid.T2)[n // 5 % 3]], n + 1), 'many': (0, 2)[n // 7 % 2], 'own': n % 11 == 0}]
				esc, strip = (None, None, True, '!')[n // 2 % 4], (None, True)[n // 3 % 2]
				for job in jobs:
					if strip:
						job['q']['toks'][0] = ['L', '-- c\n /* d\n*/\nx ']
					if esc:
						job['q']['toks'] += [['E'], ['L', ' ']]
				yield {'in': a, 'out': b, 'exp': exp, 'esc': esc, 'oq': n % 7 < 3, 'strip': strip, 'jobs': jobs,
					'schedule': [[0, k], [1, 100000], [0, 100000]]}
				if tier == 'thorough':
					for k2 in range(1, 60, 4):
						yield {'in': a, 'out': b, 'exp': exp, 'esc': esc, 'oq': False, 'strip': strip, 'jobs': jobs, 'schedule': [[0, k], [1, k2 + n % 4], [0, 100000], [1, 100000]]}


class Baton:
	"""Lets one thread run at a time; the schedule says for how many lines."""
	def __init__(self, n, schedule):
		self.cond = threading.Condition()
		self.alive = set(range(n))
		self.schedule, self.pos = schedule, 0
		self.current, self.left = schedule[0][0] % n, schedule[0][1]
		self.switches, self.free = 0, False

	def advance(self):
		"""Give the baton to the next live thread of the schedule (lock held)."""
		before = self.current
		for _ in range(len(self.schedule)):
			self.pos = (self.pos + 1) % len(self.schedule)
			who, lines = self.schedule[self.pos]
			if who in self.alive:
				self.current, self.left = who, lines
				break
		else:
			if self.alive:
				self.current, self.left = min(self.alive), 10
		if self.current != before:
			self.switches += 1
		self.cond.notify_all()

	def wait(self, me):
		while self.current != me and not self.free:
			if not self.cond.wait(2):
				# The thread with the baton is blocked (on a lock of the library): let all run.
				self.free = True
				self.cond.notify_all()

	def line(self, me):
		with self.cond:
			if self.free:
				return
			if self.current == me:
				self.left -= 1
				if self.left > 0:
					return
				self.advance()
			self.wait(me)

	def start(self, me):
		with self.cond:
			self.wait(me)

	def done(self, me):
		with self.cond:
			self.alive.discard(me)
			if self.current == me:
				self.advance()


def check(c, ctx):
	folder = os.path.join(os.path.realpath(core.REPO), 'sqlparams') + os.sep
	shared = gen.make(ctx.lib, c)
	work = []
	for job in c['jobs']:
		sql = gen.sql_of(job['q']['toks'], c['in'], c['esc'])
		plain = gen.build_params(c['in'], job['q']['params'])
		use = dict(c, strip=None)
		# The reference is the same conversion, alone, on an instance of its own.
		single = attempt(gen.make(ctx.lib, c).format, sql, plain)
		work.append((job, sql, plain, gen.make(ctx.lib, c) if job['own'] else shared, single))
		if c['strip'] is None:
			want = model.convert(c['in'], c['out'], c['esc'], c['exp'], c['oq'], sql, plain)
			if not single.ok or not common.same_result(single.value, want):
				raise Violation('%s->%s format(%s) %s, expected %s' % (c['in'], c['out'], ascii(sql), single.describe(), ascii(want[0])))
	baton = Baton(len(work), c['schedule'])
	results = [None] * len(work)

	def thread(me):
		job, sql, plain, q, single = work[me]

		def tracer(frame, event, arg):
			if not frame.f_code.co_filename.startswith(folder):
				return None
			if event == 'line':
				baton.line(me)
			return tracer
		baton.start(me)
		sys.settrace(tracer)
		try:
			if job['many']:
				results[me] = attempt(q.formatmany, sql, [plain] * job['many'])
			else:
				results[me] = attempt(q.format, sql, plain)
		finally:
			sys.settrace(None)
			baton.done(me)

	threads = [threading.Thread(target=thread, args=(k,), daemon=True) for k in range(len(work))]
	for t in threads:
		t.start()
	for t in threads:
		t.join(30)
		if t.is_alive():
			raise Violation('%s->%s: threads sharing an instance do not finish' % (c['in'], c['out']))
	for k, (job, sql, plain, q, single) in enumerate(work):
		got = results[k]
		what = '%s->%s %s(%s, %s) in thread %d of %d' % (c['in'], c['out'], 'formatmany' if job['many'] else 'format',
			ascii(sql), model.safe_repr(plain), k, len(work))
		if got is None or got.ok != single.ok:
			raise Violation('%s %s, alone it %s' % (what, got and got.describe(), single.describe()))
		if not got.ok:
			if type(got.error) is not type(single.error):
				raise Violation('%s %s, alone it %s' % (what, got.describe(), single.describe()))
			continue
		sets = got.value[1] if job['many'] else [got.value[1]]
		for p in sets:
			if not common.same_result((got.value[0], p), single.value):
				raise Violation('%s gave %s with %s, alone it gave %s with %s' % (what, ascii(got.value[0]),
					model.safe_repr(p), ascii(single.value[0]), model.safe_repr(single.value[1])))
	ctx.interesting(baton.switches > 1)
	ctx.label('threads: %d' % len(work), 'switches: %s' % ('0' if not baton.switches else '1..9' if baton.switches < 10 else '10..'))
	if baton.free:
		ctx.label('a thread was blocked: schedule given up')
