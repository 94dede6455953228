#!/bin/bash
# tools/seedtest.sh ID [PROPERTY...]: does seeded/ID hold up, and which checks catch it?
# Works in a scratch copy of /repo.
id=$1; shift
s=/verif/seeded/$id
w=/tmp/seedwork-$id
rm -rf -- "$w"
git -C /repo worktree prune
mkdir -p "$w" && git -C /repo archive HEAD | tar -x -C "$w" || exit 2
cd "$w" && git init -q . && git add -A >/dev/null && git -c user.name=x -c user.email=x commit -qm base
b() { [ -f _build/build.ninja ] || cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTING=ON -DURKEL_ENABLE_DEBUG=ON >/dev/null 2>&1; ninja -C _build 2>&1 | tail -3; }
t() { (cd _build && ctest -j1 2>&1 | grep -E "tests passed|Failed|Passed" | tail -8); }
d() { cp -a "$s" /tmp/seeddemo-$id; rm -f -- /tmp/seeddemo-$id/patch.diff /tmp/seeddemo-$id/meta.json; timeout 300 bash /tmp/seeddemo-$id/demo.sh > /tmp/seeddemo-$id.out 2>&1; echo "demo $1: $?"; tail -4 /tmp/seeddemo-$id.out; rm -rf -- /tmp/seeddemo-$id; }
b >/dev/null
d clean
git apply "$s/patch.diff" || exit 2
b; t
d patched
for p in "$@"; do VERIF_REPO=$w timeout 900 python3 /verif/check.py $p 2>&1 | tail -2 | cut -c1-300; echo "check $p: ${PIPESTATUS[0]}"; done
rm -rf -- "$w"
