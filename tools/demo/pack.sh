#!/bin/bash
# pack.sh <seeded dir>...: (re)writes demo.sh and lab.tgz of planted changes.
cd "$(dirname "$0")/../.." || exit 2
t=$(mktemp -d)
mkdir -p $t/sim/src
cp -r prog $t/prog; rm -rf $t/prog/target
cp -r sim/{Cargo.toml,Cargo.lock,build.rs,csrc,iface,sdk,shims} $t/sim/
for f in client host iface lab layout model native rt sdk util work; do cp sim/src/$f.rs $t/sim/src/; done
cp tools/demo/main.rs $t/sim/src/main.rs
(cd $t && find . -type f | sort | tar cf - --mtime=2026-01-01 --owner=0 --group=0 -T - | gzip -n9 > lab.tgz)
for d in "$@"; do cp $t/lab.tgz tools/demo/demo.sh $d/; chmod +x $d/demo.sh; done
rm -rf "$t"
