#!/bin/sh
# Fills the build cache, so that the checks only compile what changed.
root=$(cd "$(dirname "$0")" && pwd) || exit 2
. "$root/env.sh"
work=$root/.build
mkdir -p "$work/bin" "$root/evidence" || exit 2
"$root/harness/overlay.sh" "$work/overlay" || exit 2
cd "$root/harness" || exit 2
go build -overlay "$work/overlay/harness.json" -o "$work/bin/vt-setup" . || exit 2
go build -overlay "$work/overlay/cli.json" -o "$work/bin/cli-setup" \
	github.com/tokenized/txbuilder/cmd || exit 2
rm -f "${work:?}/bin/vt-setup" "${work:?}/bin/cli-setup"
