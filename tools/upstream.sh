#!/bin/bash
# Development aid: upstream's whole test suite (most of it is not built here) with the stand-in libraries.
set -e
R=${VERIF_REPO:-/repo}; V=$(cd $(dirname $0)/..; pwd); D=$(mktemp -d /tmp/up.XXXX); trap "rm -rf $D" EXIT
for f in $(find $R/src -name '*.cpp') $R/test/{simfil,complex,arena,token}.cpp; do
  echo "g++ -std=c++20 -O0 -w -DSIMFIL_WITH_MODEL_JSON -I$R/include -I$V/shim -c $f -o $D/$(echo $f | tr / _).o"
done | xargs -P 10 -I{} sh -c '{}'
g++ $D/*.o -lCatch2Main -lCatch2 -lfmt -lpthread -o $D/t && (cd $R/test; $D/t "$@")
