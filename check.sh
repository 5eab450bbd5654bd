#!/bin/bash
# check.sh PROPERTY [quick|thorough]: verify the contracts of one property against /repo's current source
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d /tmp/vc.XXXXXX)"
export HOME="$scratch" TMPDIR="$scratch"
: > "$HOME/.pfa"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 TZ=UTC PYTHONPATH="$here${VC_REPO:+:$VC_REPO}" PYTHONWARNINGS=ignore
cd "$here"
/opt/venv/bin/python -m vc.check "$@" </dev/null 2>"$scratch/err"
rc=$?
grep -v -e SyntaxWarning -e dataType -e "is with a literal" "$scratch/err" | tail -20 >&2
case "$scratch" in /tmp/vc.*) rm -rf "$scratch";; esac
[ "$rc" = 0 ] || rc=1
exit $rc
