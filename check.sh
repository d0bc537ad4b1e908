#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here"
id="$1"; tier="${2:-quick}"
export PATH="/usr/local/bin:/usr/bin:/bin:$PATH" TMPDIR="${TMPDIR:-/tmp}"
eng="$here/.bin/eng"
if [ ! -x "$eng" ] || [ -n "$(find engine -newer "$eng" -name '*.go' -not -path '*/vendor/*' -print -quit)" ]; then
  ./build.sh >&2 || exit 3
fi
mkdir -p evidence ".work/$id"
exec "$eng" -prop "$id" -tier "$tier" -harness "$here/harness" -evidence "$here/evidence/$id.json" \
  -work "$here/.work/$id" -findings "$here/KNOWN_FINDINGS"
