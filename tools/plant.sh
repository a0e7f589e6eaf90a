#!/bin/bash
# tools/plant.sh SEEDS.py OUTDIR [JOBS]: tries the planted bugs of SEEDS.py, each in a private
# mount namespace with a scratch copy of /repo bound over /repo (development only).
seeds=$(realpath "$1"); out=$(realpath -m "$2"); jobs=${3:-3}
mkdir -p "$out"
python3 - "$seeds" <<'PY' > "$out/ids"
import runpy, sys
for s in runpy.run_path(sys.argv[1])['SEEDS']:
    print(s['id'])
PY
one() {
    w=$(mktemp -d /tmp/plant.XXXXXX)
    cp -a "${RSRC:-/repo}" "$w/repo"; cp -a "${VSRC:-/verif}" "$w/verif"
    unshare -m bash -c "mount --bind $w/repo /repo && mount --bind $w/verif /verif && exec python3 /verif/tools/plant_one.py $2 $1 $3" > "$3/$1.log" 2>&1
    rm -rf "$w"
    tail -1 "$3/$1.log"
}
export -f one
xargs -P "$jobs" -I{} bash -c "one {} $seeds $out" < "$out/ids"
