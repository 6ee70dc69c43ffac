#!/bin/bash
# tools/devpy.sh CAMPAIGN SECS [NPROC] [SEED]: run a Python campaign and summarise
C=$1; S=$2; N=${3:-4}; SEED=${4:-1}
P=${PYDIR:-$(/verif/bin/build_python.sh | tail -1)}
D=$(mktemp -d /tmp/devpy.XXXX)
for i in $(seq 0 $((N-1))); do
  PYSIM_STDERR=$ERR timeout $((S+200)) /opt/venv/bin/python /verif/pysim/run.py run --campaign $C --seed $SEED --start $i --stride $N --secs $S --tier ${TIER:-quick} --cpu $i --replaydir $D --pydir $P --maxviol ${MAXV:-3} > $D/o$i 2> $D/e$i &
done; wait
/opt/venv/bin/python - $D <<'PY'
import sys,json,glob,collections
ctr=collections.Counter(); n=0; hs=set(); w=[]; errs=collections.Counter(); viol=[]
for f in glob.glob(sys.argv[1]+"/o*"):
    for l in open(f):
        try: d=json.loads(l)
        except ValueError: print("?",l[:200]); continue
        if d["t"]=="case":
            n+=1; hs|=set(d["hash"]); w.append(d["wall"])
            for k,v in d["ctr"].items(): ctr[k]+=v
        elif d["t"]=="error": errs[d["detail"][-400:]]+=1
        elif d["t"]=="violation": viol.append(d)
print("cases",n,"distinct",len(hs),"wall mean %.2f max %.2f"%(sum(w)/max(1,len(w)),max(w or [0])),dict(ctr))
for e,c in errs.most_common(4): print("ERR x%d: %s"%(c,e))
print(len(viol),"violations")
for v in viol[:8]:
    print(v["seed"],v["variant"],v["kind"],":",v["detail"][:700],"| repro",v["reproduced"],v["original_events"],"->",v["events"],"|",v["sample"][:300],"|",v["replay"])
PY
for f in $D/e*; do [ -s $f ] && tail -3 $f | cut -c1-300; done
[ -n "$KEEP" ] || true
