#!/bin/bash
# Run the checks on a second implementation of the library (tools/alt/impl.py): none may raise an alarm.
# usage: tools/alt.sh [SEED [ID ...]]
cd "$(dirname "$0")/.." || exit 2
seed=${1:-1}; shift
props=${*:-$(ls pbt/props | sed -n 's/^c\([0-9]*\)\.py$/C\1/p')}
scratch=$(mktemp -d /tmp/alt.XXXXXX); trap 'rm -rf "$scratch"' EXIT
cp -a "${SQLPARAMS_REPO:-/repo}" "$scratch/repo"
python3 - "$scratch/repo/sqlparams/__init__.py" "$PWD/tools/alt/impl.py" <<'P'
import ast, sys
path, impl = sys.argv[1:]
src = open(path).read()
cls = [n for n in ast.parse(src).body if isinstance(n, ast.ClassDef)][0]
head = src.splitlines(True)[:cls.lineno - 1]
with open(path, 'w') as f:
	f.writelines(head)
	f.write('\n\nfrom ._alt import SQLParams\nSQLParams.__module__ = __name__\n')
import os
text = open(impl).read()
open(os.path.join(os.path.dirname(path), '_alt.py'), 'w').write(text)
P
(cd "$scratch/repo" && python3-vt -m pytest -q 2>&1 | tail -3)
rc=0
for p in $props; do
	VERIF_SEED=$seed SQLPARAMS_REPO=$scratch/repo SQLPARAMS_OUT=$scratch/out ./check.sh $p > "$scratch/log" 2>&1 || { rc=1; echo "ALARM $p"; grep -v '^  ' "$scratch/log" | tail -4 | cut -c1-600; }
done
exit $rc
