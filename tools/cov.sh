#!/bin/bash
# Development aid: which functions and lines of the repository do the checks execute?
# tools/cov.sh OUTDIR RUNS [PROPERTY...]   (builds an instrumented copy under OUTDIR)
out=$1; runs=$2; shift 2
. "$(dirname "${BASH_SOURCE[0]}")/../env.sh"
mkdir -p "$out/root/evidence" "$out/root/replays"; cp known_findings.txt "$out/root/"
export CARGO_TARGET_DIR=$out/build DSIM_COV=1 CARGO_PROFILE_RELEASE_DEBUG=1 CARGO_PROFILE_RELEASE_STRIP=none
export RUSTFLAGS="-Ctarget-cpu=native -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-pc-table"
(cd sim && cargo build --locked --offline --release --target x86_64-unknown-linux-gnu -q 2>/dev/null) || exit 1
B=$out/build/x86_64-unknown-linux-gnu/release/sim
rm -f "$out/cov"
[ $# = 0 ] && set -- P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15
for q; do
  DSIM_COV_FILE=$out/cov DSIM_COV_PCS=$out/pcs "$B" check --property $q --tier quick --seed 1 --runs "$runs" --root "$out/root" | tail -1
done
cut -d' ' -f1 "$out/pcs" | llvm-symbolizer --obj="$B" --no-inlines --output-style=JSON -C > "$out/sym.json"
python3 - "$out" <<'E'
import json,sys
out=sys.argv[1]
cov=open(out+'/cov','rb').read()
fn={}
for i,l in enumerate(open(out+'/sym.json')):
    d=json.loads(l); s=d.get('Symbol') or []
    if not s: continue
    s=s[0]; f=s.get('FileName','')
    if not f.startswith('/repo/'): continue
    k=(f[6:],s.get('StartLine',0)); x=fn.setdefault(k,[0,0,set(),set(),s.get('FunctionName','')])
    x[0]+=1; x[1]+=cov[i]
    (x[3] if cov[i] else x[2]).add(s.get('Line',0))
with open(out+'/report.txt','w') as o:
    for (f,l),x in sorted(fn.items()):
        miss=sorted(v for v in x[2]-x[3] if v)
        o.write(f"{f}:{l} {x[1]}/{x[0]} {x[4][:120]} {'MISSING lines '+str(miss) if miss else ''}\n")
h=sum(x[1] for x in fn.values()); t=sum(x[0] for x in fn.values())
print('edges of repository code reached:',h,'of',t,'(instantiated functions)')
E
