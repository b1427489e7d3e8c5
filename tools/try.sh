#!/bin/bash
# try.sh PATCH ID...: run checks against a scratch copy of /repo with a patch applied (never against /repo itself)

D=$(mktemp -d /tmp/ekat-try-XXXXXX); trap 'rm -rf "$D"' EXIT
cp -a /repo "$D/repo"; P=$(readlink -f "$1"); shift
git -C "$D/repo" apply ${TRY_FLAGS:-} "$P"
for id in "$@"; do VERIF_REPO="$D/repo" python3 "$(dirname "$0")/../check.py" "$id"; echo "$id rc=$?"; done 2>&1
