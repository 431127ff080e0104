#!/bin/bash
# tools/seed.sh ID [PROP...]: try the planted bug seeded/ID in a scratch copy of
# /repo: it applies, builds, passes the stable tests, and its demonstration
# tells the two trees apart.  Also runs the named checks against it (from the
# scratch copy; development only).
set -u
id=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
s=$here/seeded/$id
w=$(mktemp -d /tmp/seedXXXXXX)
trap 'rm -rf "$w"' EXIT
git -C /repo archive HEAD | tar -x -C "$w"
. /opt/vp/env.sh 2>/dev/null; cd "$w" || exit 1; git init -q . >/dev/null

demo=$w.demo; mkdir -p "$demo"; cp -a "$s"/. "$demo"; rm -f "$demo"/*.diff "$demo"/meta.json
(timeout 300 bash "$demo/demo.sh" >/tmp/seed.$id.base 2>&1) && echo "base: pass" || { echo "base: FAIL"; tail -5 /tmp/seed.$id.base; }
git apply "$s/patch.diff" || { echo "does not apply"; exit 1; }
go build ./... || echo "does not build"
(timeout 300 bash "$demo/demo.sh" >/tmp/seed.$id.bug 2>&1) && echo "bug: NOT SHOWN" || { echo "bug: shown"; tail -4 /tmp/seed.$id.bug | cut -c1-160; }
if [ "${NOTEST:-}" = "" ]; then
go test -vet=off -count=1 -timeout 10m ./... 2>&1 | grep -E '^(---|FAIL|ok|panic)' | head -10
fi
rm -rf "$demo"
for p in "$@"; do
  (timeout 900 /tmp/chk -prop $p -repo "$w" -out /tmp/ev 2>&1; echo "$p exit $?") | grep -E "VIOLATION|exit|rule" | head -${LINES_MAX:-4} | cut -c1-220
done
