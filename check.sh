#!/bin/sh
# check.sh PROPERTY TIER
# Builds the harness against the working tree of /repo and runs the check of one property.
# Exit 0: held. Exit 1: violation, named on a VIOLATION line. Any other exit: the check failed to run.
id=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
root=$(cd "$(dirname "$0")" && pwd) || exit 2
. "$root/env.sh"

work=$root/.build
mkdir -p "$work/bin" || exit 2
"$root/harness/overlay.sh" "$work/overlay" || exit 2

cd "$root/harness" || exit 2
go build -overlay "$work/overlay/harness.json" -o "$work/bin/vt-$id" . || exit 2
if [ "$id" = C24 ]; then
	go build -overlay "$work/overlay/cli.json" -o "$work/bin/cli-$id" \
		github.com/tokenized/txbuilder/cmd || exit 2
	VERIF_CLI=$work/bin/cli-$id
	export VERIF_CLI
fi

exec "$work/bin/vt-$id" run -prop "$id" -tier "$tier" -seed "$seed" -root "$root"
