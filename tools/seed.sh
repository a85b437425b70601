#!/bin/bash
# seed.sh ID PROPERTY NEEDS WHAT [DEMO.rs] < demo-lines : saves /repo's working-tree change as planted bug ID,
# checks that the demo fails with it and passes without it, and restores /repo.
set -u
id=$1 prop=$2 needs=$3 what=$4
d=/verif/seeded/$id
rm -rf "$d"; mkdir -p "$d"
git -C /repo diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
cp -r /verif/tools/kit "$d/kit"
[ -n "${5:-}" ] && cp "$5" "$d/demo.rs"
{ printf '#!/bin/bash\n. "$(dirname "$0")/kit/lib.sh"\n'; cat; printf 'exit $fail\n'; } > "$d/demo.sh"
python3 - "$d" "$prop" "$needs" "$what" <<'P'
import json,sys
d,p,n,w=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(d+"/meta.json","w"),indent=1)
P
cd /repo
bash "$d/demo.sh" > /tmp/seed.out 2>&1; a=$?
bash /opt/vp/build.sh > /tmp/seed.build 2>&1 || echo "BUILD FAILS"
bash /opt/vp/test.sh /tmp/seed.json 2>&1 | tail -1
git -C /repo checkout -- .
bash "$d/demo.sh" > /tmp/seed.out2 2>&1; b=$?
echo "$id: with=$a without=$b"; tail -3 /tmp/seed.out | cut -c1-200; tail -3 /tmp/seed.out2
