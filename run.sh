#!/bin/bash
# run.sh ID [flags]: build the harness from /repo's working tree and check property ID.
# Tier and seed come from VERIF_TIER and VERIF_SEED (defaults: quick, 1).
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
[ -x /opt/veriftools/go1.27.3/bin/go ] && PATH=/opt/veriftools/go1.27.3/bin:$PATH
export PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
id=$1; shift
tier=${VERIF_TIER:-quick}
for a in "$@"; do [ "$a" = --thorough ] && tier=thorough; done
args=(); for a in "$@"; do [ "$a" != --thorough ] && args+=("$a"); done
seed=${VERIF_SEED:-1}
case "$seed" in (*[!0-9]*|'') seed=1;; esac
work=$(mktemp -d /tmp/gotverif.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
export TMPDIR=$work
cp -r "$here/harness" "$work/src" || exit 2
race=
case "$id" in (C24|C25) race=-race;; esac
if ! (cd "$work/src" && go build $race -o "$work/harness" . ) >"$work/build.log" 2>&1; then
	echo "INCONCLUSIVE: the harness does not build against /repo" >&2
	head -c 4000 "$work/build.log" >&2
	exit 2
fi
rm -rf "$work/src"
mkdir -p "$here/evidence"
"$work/harness" -prop "$id" -tier "$tier" -seed "$seed" -evidence "$here/evidence/$id.json" \
	-replays "$here/evidence/replays" -known "$here/KNOWN_FINDINGS.txt" "${args[@]}"
exit $?
