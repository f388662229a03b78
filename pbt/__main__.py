import argparse
import os
import sys

from . import core

ap = argparse.ArgumentParser()
ap.add_argument('property', nargs='?')
ap.add_argument('--selftest', action='store_true')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
ap.add_argument('--seed', type=int, default=None)
ap.add_argument('--replay')
args = ap.parse_args()
if args.selftest:
	core.prepare_import()
	import hypothesis
	print('hypothesis', hypothesis.__version__, 'library', core.load_library().__file__)
	sys.exit(0)
if args.replay:
	sys.exit(core.replay(args.property, args.replay))
seed = args.seed
if seed is None:
	try:
		seed = int(os.environ.get('VERIF_SEED', '1'))
	except ValueError:
		seed = 1
sys.exit(core.run(args.property, args.tier, seed))
