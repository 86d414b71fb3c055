#!/bin/sh
# dev.sh FLAVOR HARNESS [args]: build and run all shards, print failures
cd /verif || exit 1
fl=$1; h=$2; shift 2
python3 tools/build.py $fl $h > /tmp/dev.build 2>&1 || { grep -E "error|Error" -A3 /tmp/dev.build | head -60; exit 1; }
d=$(mktemp -d /tmp/dev.XXXX)
N=${N:-8}
for k in $(seq 0 $((N-1))); do
  ASAN_OPTIONS=detect_leaks=0:max_allocation_size_mb=6000 ${VERIF_BUILD:-build}/bin/$fl/$h --out $d/$k.json --cur $d/$k.cur --shard $k --nshards $N "$@" 2>$d/$k.err &
done
wait
python3 - $d $N <<'PY'
import json,sys,os
d,N=sys.argv[1],int(sys.argv[2])
nc=0;fc={};ex={};cnt={};ub={};cov=set();done=0;gr={}
for k in range(N):
    try: r=json.load(open(f"{d}/{k}.json"))
    except Exception as e:
        print("shard",k,"crashed in",open(f"{d}/{k}.cur","rb").read().split(b"\0")[0][:300 if nc else 900].decode("utf8","replace"))
        er=open(f"{d}/{k}.err",errors="replace").read()
        i=er.find("ERROR: Addr")
        if nc<2: print("\n".join(l for l in er[i if i>=0 else -1500:][:6000].split("\n") if "ERROR" in l or "libspu" in l or "/verif" in l or i<0)[:1500])
        nc+=1; continue
    done+=r["done"]; cov.update(r["cover"])
    for a,b in r["counts"].items(): cnt[a]=cnt.get(a,0)+b
    for a,b in r["groups"].items(): gr[a]=gr.get(a,0)+b
    for a,b in r["fail_counts"].items(): fc[a]=fc.get(a,0)+b
    for a,b in r["ub"].items(): ub[a]=ub.get(a,0)+b
    for f in r["failures"]: ex.setdefault(f["key"],f)
    for i in r["inconclusive"]: print("INC",i[:300])
print("done",done,"cover",len(cov),cnt,gr)
for k,v in sorted(fc.items()): print("FAIL",k,v,ex[k]["case"],ex[k]["msg"][:700],"|",ex[k]["desc"][:500])
for k,v in sorted(ub.items()): print("UB",k,v)
PY
rm -rf $d
