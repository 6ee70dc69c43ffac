#!/bin/bash
# dev.sh CAMPAIGN SECS [NPROC] [SEED]: run one native campaign on several cores, show what it reports
cd "$(dirname "$0")/.."; T=$(bin/build_native.sh 2>/tmp/dev.err) || { head -c 3000 /tmp/dev.err; exit 1; }
N=${3:-4}; D=$(mktemp -d /tmp/dev.XXXXXX)
for ((i=0;i<N;i++)); do $T run --campaign $1 --seed ${4:-1} --start $i --stride $N --secs $2 --tier 0 --cpu $i --replaydir /tmp --maxviol 6 > $D/$i.log 2>&1 & done; wait
grep -h -v '"t":"case"\|"t":"end"' $D/*.log | cut -c1-${W:-500}; grep -h '"t":"case"' $D/*.log | wc -l; /bin/rm -r "$D"
