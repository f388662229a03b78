"""Which combinations of three options the enumerated cases of a property never meet: tools/pairs.py [ID ...]"""
import collections
import importlib
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from pbt import values as V


def shape(v):
	if isinstance(v, str):
		return v if len(v) < 20 else None
	if v is None or isinstance(v, (bool, int)):
		return v if not isinstance(v, int) or isinstance(v, bool) or v < 12 else None
	return None


def fields(c):
	out = {}
	for k, v in c.items():
		if k in ('q', 'rows', 'params', 'text', 'parts', 'boxes', 'chain', 'noise', 'cond', 'ops'):
			continue
		if isinstance(v, (str, bool, int)) or v is None:
			out[k] = shape(v)
	if 'q' in c:
		ps = [p[1] for p in c['q']['params']] if c['in'].startswith(('named', 'pyformat')) else c['q']['params']
		out['tuple'] = max((min(V.tuple_len(p), 3) for p in ps if V.is_tuple(p)), default=-1) if len(ps) < 300 else None
		refs = [str(t[1]) for t in c['q']['toks'] if t[0] == 'P']
		out['repeat'] = len(set(refs)) < len(refs)
	return out


for name in sys.argv[1:] or ['C%02d' % k for k in range(1, 24)]:
	mod = importlib.import_module('pbt.props.' + name.lower())
	if not hasattr(mod, 'enumerate_cases'):
		continue
	seen, groups, n = collections.defaultdict(set), collections.defaultdict(lambda: collections.defaultdict(set)), 0
	for c in mod.enumerate_cases('quick'):
		n += 1
		if not isinstance(c, dict):
			continue
		f = fields(c)
		ks = sorted(f)
		g = tuple(ks)
		for k in ks:
			groups[g][k].add(f[k])
		for r in itertools.combinations(ks, 3):
			seen[g, r].add(tuple(f[k] for k in r))
	print(name, n, 'cases')
	for g, vals in groups.items():
		ks = [k for k in g if 1 < len(vals[k]) <= 60]
		for r in itertools.combinations(ks, 3):
			full = 1
			for k in r:
				full *= len(vals[k])
			have = len(seen[g, r])
			if have < full:
				print('   ', '/'.join(r), have, 'of', full)
