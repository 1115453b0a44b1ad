#!/bin/bash
# mut.sh PATCH CHECK...: runs checks against a patched copy of /repo, which is
# bind-mounted over /repo in a namespace of its own (development only).
# PATCH: a diff, or a python file that edits the files below the current directory.
p=$(realpath "$1"); shift
d=$(mktemp -d /tmp/mutXXXXXX)
cp -a /repo "$d/repo"
cd "$d/repo" || exit 2
case "$p" in
*.py) python3 "$p" || exit 2 ;;
*) git apply "$p" || exit 2 ;;
esac
git diff --quiet && { echo "NO CHANGE"; exit 2; }
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
for c in "$@"; do
	unshare -Urm sh -c "mount --bind $d/repo /repo && cd /repo && { [ -n '$NOTEST' ] || go test ./... 2>&1 | grep -v '^ok\|no test files' ; } ; cd /verif && ./check $c -noevidence -j ${J:-8} 2>&1 | tail -${TAIL:-4}"
done
rm -rf "$d"
