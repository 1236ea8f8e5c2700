#!/bin/bash
# Checks that the tools the checks use are there; nothing is built in advance,
# every check compiles its drivers from /repo's working tree.
set -e
for t in g++ clang++ java python3 nm; do command -v $t > /dev/null || { echo "missing: $t"; exit 1; }; done
test -f /opt/veriftools/tla/tla2tools.jar
test -f /opt/veriftools/tla/CommunityModules-deps.jar
mkdir -p build evidence
cd spec
for m in LimbsMC Plan SweepTrace $(ls *Trace.tla *MC.tla | sed "s,.tla,,"); do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla > ../build/sany.log 2>&1 || { cat ../build/sany.log; exit 1; }
done
echo "setup ok"
