#!/bin/bash
# mutant.sh PATCH ID...   Applies PATCH to a scratch copy of /repo, builds a
# scratch copy of the harness against it and runs the given checks there.
# Prints one line per check. Nothing in /repo or /verif changes.
export PATH="$PATH:/usr/local/bin:/root/.cargo/bin"
patch=$(realpath "$1"); shift
w=$(mktemp -d /tmp/mutant.XXXXXX)
trap 'rm -rf "$w"' EXIT
mkdir "$w/repo" "$w/verif"
git -C /repo archive HEAD | tar x -C "$w/repo"
git -C "$w/repo" init -q
git -C "$w/repo" apply "$patch" || { echo "patch does not apply"; exit 2; }
cp -r /verif/check.sh /verif/KNOWN_FINDINGS.txt "$w/verif/"
mkdir "$w/verif/harness"
cp -r /verif/harness/Cargo.toml /verif/harness/Cargo.lock /verif/harness/src "$w/verif/harness/"
mkdir "$w/verif/fuzz"
cp -r /verif/fuzz/Cargo.toml /verif/fuzz/Cargo.lock /verif/fuzz/wrap.sh /verif/fuzz/src "$w/verif/fuzz/"
grep -rl /repo "$w/verif/harness" "$w/verif/fuzz" "$w/verif/check.sh" | xargs sed -i "s#/repo#$w/repo#g"
for id in "$@"; do
    t=$(date +%s)
    (cd "$w/verif" && ./check.sh "$id" >"$w/out" 2>&1)
    rc=$?
    echo "$id rc=$rc $(( $(date +%s) - t ))s $(grep -a -A1 'failing case' "$w/out" | tr '\n' ' ' | cut -c1-300)"
    [ $rc = 2 ] && tail -5 "$w/out"
done
exit 0
