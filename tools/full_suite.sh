#!/bin/bash
# full_suite.sh SRC [cargo-test args]: the repository's complete own test suite (not only what the baseline build
# compiles) on a scratch copy of SRC, with the stand-in crates. Used while developing fixes and planted changes.
# On the unchanged tree 4 tests fail for reasons that lie in the stand-ins (see DESIGN.md).
V=$(cd "$(dirname "$0")/.." && pwd)
S=${1:?usage: full_suite.sh SRC [cargo-test args]}; shift
grep -q '^name = "rusty-machine"' "$S/Cargo.toml" || { echo "$S is no copy of rusty-machine"; exit 2; }
D=${SUITE_DIR:-/tmp/verif-suite}; mkdir -p $D
rsync -a --delete --exclude target --exclude .git --exclude Cargo.lock "$S"/ $D/ 2>/dev/null || { find $D -mindepth 1 -maxdepth 1 ! -name target -exec rm -rf {} + ; cp -a "$S"/. $D/; }
cat >> $D/Cargo.toml <<TOML
[patch."https://github.com/AtheMathmo/rulinalg"]
rulinalg = { path = "$V/shim/rulinalg" }
[patch.crates-io]
num = { path = "$V/shim/num" }
rand = { path = "$V/shim/rand" }
[workspace]
TOML
python3 - "$V/harness/Cargo.lock" $D/Cargo.lock <<'PY'
import sys,re
t=open(sys.argv[1]).read()
parts=t.split("[[package]]")
parts=[p for p in parts if '\nname = "monitors"' not in p]
open(sys.argv[2],"w").write("[[package]]".join(parts))
PY
cd $D && cargo test --offline --features "stats datasets" --no-fail-fast "$@" 2>&1 | grep -E "^test result|FAILED|failed|panicked|^error|warning: unused" 
