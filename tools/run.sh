# run.sh src "flags" entry [opts]
cd /verif; python3 - "$1" "$2" <<'P'
import sys; sys.path.insert(0,'/verif')
import vp
vp.ensure_built()
r=vp.sh(vp.clangxx('/tmp/h.bc','/verif/harness/'+sys.argv[1],sys.argv[2].split()))
if r.returncode: print(r.stdout[-3000:]); raise SystemExit(1)
P
[ $? = 0 ] || exit 1
shift 2
IFS=, ; for e in $1; do IFS=" "; rm -rf /tmp/o; mkdir -p /tmp/o; timeout 300 build/symx /tmp/h.bc build/rt.bc build/rt_streams.bc build/rtc.bc --entry $e --out /tmp/o --time ${TL:-60} --all ${@:2} >/tmp/o/log 2>&1; echo "$e rc=$?"; tail -5 /tmp/o/log; python3 - <<'P'
import glob,json
a={}
for f in glob.glob('/tmp/o/stats.*'):
    s=json.load(open(f))
    for k,v in s.items():
        if isinstance(v,(int,float)): a[k]=a.get(k,0)+v
        elif isinstance(v,dict):
            for kk,vv in v.items(): a.setdefault(k,{}); a[k][kk]=a[k].get(kk,0)+vv
print({k:v for k,v in a.items() if k in('paths','killed','steps','queries','z3_queries','z3_time','time','assert_queries','assert_unsat','reached','incomplete','unsupported') or k.startswith('mt_')})
for f in sorted(glob.glob('/tmp/o/viol*'))[:4]:
    v=json.load(open(f)); print('VIOL',v['kind'],v['msg'],v['where'][:300],v['inputs'],v['notes'][:40])
P
done
