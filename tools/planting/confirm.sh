#!/bin/bash
# confirm.sh WT ID...: in the scratch copy WT of /repo, confirm that each
# planted bug builds, passes the stable tests, and that its demo tells.
wt=$1; shift
. /opt/vp/env.sh; cd "$wt"
demo() { timeout 300 bash "/verif/seeded/$1/demo.sh" > "/tmp/demo.$1.log" 2>&1; echo $?; }
for id in "$@"; do
  git checkout -q -- . ; cargo build -q "${ARGS[@]}" 2>/dev/null
  s=$(date +%s); clean=$(demo $id); t1=$(( $(date +%s) - s ))
  git apply "/verif/seeded/$id/patch.diff" || { echo "$id: NOAPPLY"; continue; }
  if ! cargo build -q "${ARGS[@]}" 2>/tmp/cb.log; then echo "$id: NOBUILD"; tail -20 /tmp/cb.log; git checkout -q -- .; continue; fi
  s=$(date +%s); bad=$(demo $id); t2=$(( $(date +%s) - s ))
  cp /tmp/demo.$id.log /tmp/demo.$id.bad.log
  cargo test "${ARGS[@]}" --no-fail-fast -- --test-threads 8 > /tmp/ct.log 2>&1
  fails=$(grep -E "^test .* FAILED|panicked at|could not compile" /tmp/ct.log | head -3)
  git checkout -q -- .
  echo "$id: clean=$clean(${t1}s) bad=$bad(${t2}s) testfail=[$fails]"
done
