"""
hypothesis.strategies, with the small strategies made once: building a strategy
costs more than drawing from it, and most are written inline here.
"""
from hypothesis import strategies as _st


class _Strategies:
	def __init__(self):
		self._cache = {}

	def __getattr__(self, name):
		return getattr(_st, name)

	def _make(self, key, fn, *a, **k):
		try:
			return self._cache[key]
		except KeyError:
			out = self._cache[key] = fn(*a, **k)
			return out

	def sampled_from(self, xs):
		if isinstance(xs, str) or not all(type(x) in (str, int, bool, type(None)) for x in xs):
			return _st.sampled_from(xs)
		return self._make(('s',) + tuple((type(x), x) for x in xs), _st.sampled_from, tuple(xs))

	def booleans(self):
		return self._make('b', _st.booleans)

	def integers(self, a=None, b=None):
		return self._make(('i', a, b), _st.integers, a, b)

	def just(self, x):
		return _st.just(x)


st = _Strategies()
