#!/bin/bash
# build.sh OUT [race]: builds the monitor binary against /repo's working tree.
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOPATH=${GOPATH:-/root/go} GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
export GOCACHE=${VERIF_GOCACHE:-$here/../build/gocache}
out=$1; race=; [ "$2" = race ] && race=-race
mkdir -p "$here/../build"
python3 "$here/mkoverlay.py" "$(cd "$here/../build" && pwd)" || exit 2
cd "$here" || exit 2
mod=
if [ -n "$VERIF_REPO" ]; then # a scratch copy of the repository (development only)
	d=$(mktemp -d); sed "s#=> /repo#=> $VERIF_REPO#" go.mod > "$d/go.mod"; cp go.sum "$d/go.sum"; mod="-modfile=$d/go.mod"
fi
exec go test -c $race $mod -vet=off -overlay "$here/../build/overlay.json" -o "$out" .
