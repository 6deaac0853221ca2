#!/bin/bash
# exit 0: the behaviour is right; otherwise it is broken. Run in the repository.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
bash "$here/kit/build.sh" "$here/kit" "$tmp" "$here/demo.cpp" || exit 3
"$tmp/demo"
