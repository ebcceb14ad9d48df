#!/usr/bin/env bash
# tools/seed.sh <id>: confirm a planted bug in scratch copies of /repo (builds, passes the tests, demo differs).
set -u
id=$1; src=/verif/seeded/$id
s=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo "$s/repo"
( cd "$s/repo" && git checkout -q -- . && bash "$src/demo.sh" >"$s/clean.log" 2>&1 ); a=$?
( cd "$s/repo" && git apply "$src/patch.diff" && cargo build --offline -q >"$s/b.log" 2>&1 ); b=$?
( cd "$s/repo" && cargo test --offline -q >"$s/t.log" 2>&1 ); t=$?
( cd "$s/repo" && timeout 300 bash "$src/demo.sh" >"$s/bug.log" 2>&1 ); d=$?
echo "$id: demo clean=$a build=$b tests=$t demo bug=$d"
if [ $a = 0 ] && [ $b = 0 ] && [ $t = 0 ] && [ $d != 0 ]; then echo "$id: GOOD"; else
  echo "$id: BAD"; tail -n 5 "$s/clean.log" "$s/b.log"; grep -E "FAILED|failed|panicked" "$s/t.log" | head -8; tail -3 "$s/bug.log"; fi
rm -rf "$s"
