#!/bin/bash
# quick loop over checks of the built tgmon: q.sh "IDS" [seed] [tier]
mkdir -p /dev/shm/tg
for p in $1; do timeout ${4:-900} /verif/target/release/tgmon --property $p --tier ${3:-quick} --seed ${2:-1} --known /verif/known_findings.json --scratch /dev/shm/tg --replays /dev/shm/tg --svcd /verif/target/release/svcd --out /dev/shm/tg/$p.json --limit 3000 2>&1 | cut -c1-260 | grep -v '^VIOLATION' | tail -${5:-3}; done
