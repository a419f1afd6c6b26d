#!/bin/bash
# mkbug.sh <id> <property> <lib|svc|data> <needs> <what> : assemble /verif/seeded/<id> from
# /tmp/bugs/<id>/{patch.diff,main.rs} (a demo.sh of its own may lie there)
id=$1; d=/verif/seeded/$id; t=/verif/tools/bug
mkdir -p $d/src
cp /tmp/bugs/$id/patch.diff $d/patch.diff
if [ "$3" != data ]; then
  cp $t/demo.sh $d/demo.sh
  cp $t/$3/Cargo.toml $d/; cp $t/$3/src/*.rs $d/src/; cp /tmp/bugs/$id/main.rs $d/src/main.rs
  if [ $3 = svc ]; then
    rm -rf $d/svc-lib $d/shims; cp -r /verif/harness/svc-lib /verif/harness/shims $d/
    sed -i 's#"../../../repo/#"/repo/#' $d/svc-lib/Cargo.toml
  fi
fi
[ -f /tmp/bugs/$id/demo.sh ] && cp /tmp/bugs/$id/demo.sh $d/demo.sh
chmod +x $d/demo.sh
python3 -c "
import json,sys
json.dump(dict(property=sys.argv[1],needs=sys.argv[2],what_it_breaks=sys.argv[3]),open('$d/meta.json','w'),indent=1)" "$2" "$4" "$5"
