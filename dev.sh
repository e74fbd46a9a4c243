#!/bin/bash
# dev.sh HARNESS.cpp [runner args]: build one harness quickly (no evidence) and run it
src=$1; shift
b=/tmp/dev_$(basename $src .cpp)
R=${VERIF_REPO:-/repo}
SAN="-O1 -fsanitize=address -fsanitize=bounds,return,unreachable,integer-divide-by-zero -fno-sanitize-recover=all -D_GLIBCXX_SANITIZE_VECTOR=1"
MODE=${MODE:-san}; [ $MODE = opt ] && SAN="-O2"
I="-std=gnu++17 -w -g1 -I /verif/engine -I $R -I $R/ac-library -I /verif/acl -I /verif/harness"
X=$(sed -n 's,^// FLAGS:,,p' $src | head -1)
m=/tmp/dev_main_$MODE.o
[ $m -nt /verif/engine/pbt_main.cpp -a $m -nt /verif/engine/pbt.hpp ] || g++-10 $I $SAN -c /verif/engine/pbt_main.cpp -o $m || exit 2
g++-10 $I $SAN $X $src $m -o $b -static-libasan -static-libubsan 2>&1 | grep -E 'error|undefined|required from here' | cut -c1-300 | head -${ERRN:-20}
[ ${PIPESTATUS[0]} = 0 ] || exit 2
ulimit -s 1048576
export ASAN_OPTIONS=detect_leaks=0:quarantine_size_mb=8:hard_rss_limit_mb=3500:alloc_dealloc_mismatch=0
$b "$@" | python3 -c '
import sys,json
for l in sys.stdin:
    try: d=json.loads(l)
    except Exception: print(l.rstrip()[:3000]); continue
    print(d["rc"],d["test"],"cases",d["cases"],"nt",d["nontrivial"],"wall",round(d["wall"],2),"CAPPED" if d["capped"] else "",d["labels"])
    if d["rc"]: print("   ",d.get("kind"),d.get("message","")[:450]); print("   ",d.get("notes","")[:1200])
'
