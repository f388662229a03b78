#!/bin/bash
# usage: seeded_matrix.sh [own|all] [ids...]: run the checks against scratch copies with each planted bug applied
cd "$(dirname "$0")/.." || exit 2
MODE=${1:-own}; shift
IDS=("$@"); [ ${#IDS[@]} = 0 ] && IDS=($(ls seeded))
T=$(mktemp -d /tmp/matrix.XXXXXX); trap 'rm -rf "$T"' EXIT
one() {
	id=$1; mode=$2; T=$3
	w=$T/$id; cp -a /repo "$w"; git -C "$w" apply "$PWD/seeded/$id/patch.diff" || { echo "$id APPLY-FAILED"; return; }
	own=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
	props=$own; [ "$mode" = all ] && props=$(seq -f 'C%02g' 1 $(wc -l < properties.jsonl))
	res=""
	for p in $props; do
		SQLPARAMS_REPO=$w SQLPARAMS_OUT=$T/out-$id ./check.sh "$p" > "$T/$id.$p.log" 2>&1; rc=$?
		if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " "$T/$id.$p.log"; then res="$res $p"; elif [ $rc != 0 ]; then res="$res $p(rc=$rc)"; fi
	done
	case " $res " in *" $own "*) s=caught;; *) s=MISSED;; esac
	echo "$id $own $s by:$res"
	rm -rf "$w"
}
export -f one
printf '%s\n' "${IDS[@]}" | xargs -P 7 -I{} bash -c 'one {} '"$MODE $T"
