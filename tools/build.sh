#!/bin/bash
# build.sh <property>|all: build what the property's check needs from /repo's current working tree.
cd /verif && . ./env.sh
mkdir -p target
case "$1" in
  all) crates="harness sched raster cli" ;;
  C27) crates="harness cli" ;;
  C21) crates="sched" ;;
  C22|C24|C25|C26) crates="raster" ;;
  *) crates="harness" ;;
esac
exec 9>target/.build.lock; flock 9
# cargo decides freshness by mtime; a content hash makes sure that a changed tree is rebuilt whatever its mtimes.
h=$(cd /repo && find victor lester proc-macros Cargo.toml -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
if [ "$(cat target/.repo-hash 2>/dev/null)" != "$h" ]; then
  rm -f target/.repo-hash
  for c in harness sched raster cli; do
    (cd $c && for p in victor victor-internal-proc-macros lester $([ $c = cli ] && echo cli); do cargo clean -p $p >/dev/null 2>&1; done)
  done
  echo "$h" > target/.repo-hash
fi
for c in $crates; do
  (cd $c && cargo build >/verif/target/build-$c.log 2>&1) || { tail -40 target/build-$c.log >&2; exit 1; }
done
