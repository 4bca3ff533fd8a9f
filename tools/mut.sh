#!/bin/bash
# Sensitivity testing in a scratch copy: mut.sh PATCH [CHECK...]  (PATCH applies to /repo's HEAD).
# Builds the copy, runs its tests, then the given checks (default: all), printing those that fail.
set -u
D=${MUT_DIR:-/tmp/mut}
mkdir -p $D
if [ ! -d $D/verif ]; then mkdir -p $D/verif; fi
rm -rf "$D/repo"
git -C /repo worktree prune
mkdir $D/repo && git -C /repo archive HEAD | tar -x -C $D/repo
cp /repo/Cargo.lock $D/repo/ 2>/dev/null
rsync -a --delete --exclude target --exclude replays --exclude evidence --exclude seeded --exclude .git /verif/ $D/verif/ 2>/dev/null || { rm -rf "$D/verif/harness/src"; cp -r /verif/harness/src /verif/harness/Cargo.toml /verif/harness/Cargo.lock $D/verif/harness/ 2>/dev/null || { mkdir -p $D/verif/harness; cp -r /verif/harness/src /verif/harness/Cargo.toml /verif/harness/Cargo.lock $D/verif/harness/; }; cp /verif/run.sh /verif/KNOWN_FINDINGS.txt $D/verif/; }
sed -i "s#/repo#$D/repo#" $D/verif/harness/Cargo.toml
if [ "$1" != none ]; then
  (cd $D/repo && git init -q . 2>/dev/null; git apply "$1") || { echo "PATCH DOES NOT APPLY"; exit 2; }
fi
shift
if [ "${TESTS:-1}" = 1 ]; then
  (cd $D/repo && CARGO_TARGET_DIR=$D/target cargo test --offline --lib 2>&1 | grep -E "^test result|error|FAILED" | head -5)
fi
cd $D/verif
ids=${*:-$(./run.sh list)}
for id in $ids; do
  o=$(timeout 900 ./run.sh check $id --tier quick ${CASES:+--cases $CASES} 2>&1); r=$?
  if [ $r -ne 0 ]; then echo "== $id exit $r"; echo "$o" | grep -vE "^(VIOLATION|failing case)" | cut -c1-300 | tail -4; fi
done
