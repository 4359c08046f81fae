#!/bin/bash
# Runs checks against a changed copy: mutate.sh PATCH ID... (scratch in /tmp/mut; quick tier unless SIM_RUNS is set)
set -u
patch=$(realpath "$1")
shift
M=${MUT:-/tmp/mut}
if [ ! -d $M/verif ]; then
  mkdir -p $M
  cp -a /repo $M/repo
  mkdir -p $M/verif
fi
rsync -a --delete --exclude target /verif/sim/ $M/verif/sim/ 2>/dev/null || { rm -rf -- "${M:?}/verif/sim"; cp -a /verif/sim $M/verif/sim; }
for c in interp interp-core; do rsync -a --delete --exclude target --exclude Cargo.lock /verif/$c/ $M/verif/$c/; done
mkdir -p $M/verif/tools
cp /verif/run.sh $M/verif/run.sh
cp /verif/tools/rustc-cov $M/verif/tools/
grep -rlE '"/(repo|verif)|/repo/|/verif' --exclude-dir=target $M/verif/sim/src $M/verif/sim/Cargo.toml $M/verif/interp $M/verif/interp-core $M/verif/run.sh | xargs sed -i -E 's#(^|[^a-z/])/repo#\1'$M'/repo#g; s#(^|[^a-z/])/verif#\1'$M'/verif#g'
git -C $M/repo checkout -q -- . && git -C $M/repo clean -fdq
git -C $M/repo fetch -q /repo HEAD && git -C $M/repo reset -q --hard FETCH_HEAD
if [ -s "$patch" ]; then git -C $M/repo apply "$patch" || { echo "does not apply"; exit 3; }; fi
for id in "$@"; do
  start=$(date +%s)
  out=$($M/verif/run.sh check $id 2>&1)
  code=$?
  echo "$(basename $(dirname $patch))/$(basename $patch) $id exit $code in $(( $(date +%s) - start )) s: $(echo "$out" | head -2 | cut -c1-260 | tr '\n' ' ')"
done
git -C $M/repo checkout -q -- .
