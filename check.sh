#!/bin/bash
# usage: check.sh PROPERTY [more arguments of the simulator]  |  check.sh --replay FILE
# Builds the simulator from /repo's current working tree and searches VERIF_SEED's seeds of the tier VERIF_TIER.
# 0: the property held on everything explored; 1: VIOLATION; 3: error of the check.
cd "$(dirname "$0")" || exit 3
V=$PWD
SIM=$(python3 tools/prep.py) || exit 3
ARGS=(-out "$V")
need_race() { R=$(python3 tools/prep.py --race) || exit 3; ARGS+=(-race "$R"); }
if [ "$1" = --replay ]; then
	grep -q '"property": "C07"' "$2" && need_race
	exec "$SIM" replay "$2" "${ARGS[@]}"
fi
P=$1; shift
[ "$P" = C07 ] && need_race
TIER=${VERIF_TIER:-quick}; [ "$TIER" = thorough ] || TIER=quick
exec "$SIM" check -prop "$P" -tier "$TIER" -seed "${VERIF_SEED:-1}" "${ARGS[@]}" "$@"
