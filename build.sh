#!/bin/bash
# Builds the simulator from /repo's current working tree into /verif/build.
# usage: build.sh [plain] [race]
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
export GOCACHE=$here/build/gocache
REPO=${VERIF_REPO:-/repo}
B=$here/build
mkdir -p "$B/src" "$B/bin" "$GOCACHE" || exit 2
exec 9>"$B/lock"; flock 9
python3 "$here/rt/patch.py" "$(go env GOROOT)" "$B/ov" || exit 2
cd "$here/sim" || exit 2
go build -o "$B/bin/instrument" ./instrument || exit 2
rm -rf "$B/src.new"; mkdir -p "$B/src.new/gobinlog" "$B/src.new/mysql" || exit 2
pkgs=$(cd "$REPO" && find . -name '*.go' ! -name '*_test.go' ! -path './cmd/*' ! -path './.git/*' ! -path '*/testdata/*' -printf '%h\n' | sort -u)
"$B/bin/instrument" "$REPO" "$B/src.new/gobinlog" $pkgs || exit 2
drv=$GOMODCACHE/github.com/\!breeze0806/mysql@v1.4.2
"$B/bin/instrument" "$drv" "$B/src.new/mysql" . || exit 2
printf 'module github.com/Breeze0806/gobinlog\n\ngo 1.16\n\nrequire (\n\tgithub.com/Breeze0806/go v0.0.0\n\tgithub.com/Breeze0806/mysql v1.4.2\n)\n' > "$B/src.new/gobinlog/go.mod"
printf 'module github.com/Breeze0806/mysql\n\ngo 1.16\n' > "$B/src.new/mysql/go.mod"
for d in gobinlog mysql; do
  mkdir -p "$B/src/$d"
  rsync -rc --delete "$B/src.new/$d/" "$B/src/$d/" 2>/dev/null || { rm -rf "$B/src/$d"; cp -r "$B/src.new/$d" "$B/src/$d"; }
done
rm -rf "$B/src.new"
for k in "${@:-plain}"; do
  f=; [ $k = race ] && f=-race
  go build $f -overlay "$B/ov/overlay.json" -o "$B/bin/simd-$k.new" ./simd || exit 2
  mv "$B/bin/simd-$k.new" "$B/bin/simd-$k"
done
