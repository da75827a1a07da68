#!/bin/bash
# tlc.sh Module cfg : run TLC on a spec by hand, without the emitted records
cd /verif/spec; d=$(mktemp -d)
timeout ${T:-300} java -XX:+UseParallelGC -Xmx8g -Xss16m -Dfile.encoding=UTF-8 -Djava.io.tmpdir=$d -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 8 -metadir $d -noGenerateSpecTE -config $2.cfg $1.tla > $d/out 2>&1
grep -v '^"@' $d/out | grep -vE "^(Parsing|Semantic|Linting|Starting|Computing|TLC2|Running|Progress|  Estimates|  calculated|  because|The (depth|average))" | cut -c1-400 | tail -${N:-25}
echo "records: $(grep -c '^"@' $d/out)"; [ -n "$S" ] && grep '^"@' $d/out | head -$S | cut -c1-1500
rm -rf $d
