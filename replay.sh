#!/bin/sh
# replay.sh FILE : evaluates the case of a replay file against the working tree of /repo.
root=$(cd "$(dirname "$0")" && pwd) || exit 2
file=$(realpath "$1") || exit 2
. "$root/env.sh"
work=$root/.build
mkdir -p "$work/bin" || exit 2
"$root/harness/overlay.sh" "$work/overlay" || exit 2
cd "$root/harness" || exit 2
go build -overlay "$work/overlay/harness.json" -o "$work/bin/vt-replay" . || exit 2
go build -overlay "$work/overlay/cli.json" -o "$work/bin/cli-replay" \
	github.com/tokenized/txbuilder/cmd || exit 2
VERIF_CLI=$work/bin/cli-replay exec "$work/bin/vt-replay" replay "$file"
