#!/bin/bash
# dump.sh OUT pkgdir...  : overlay contracts and dump SSA
. /opt/vp/env.sh
cd /repo
out=$1; shift
python3 - "$out.ov" "$@" <<'PY'
import sys,os,json,glob,tempfile
ov=sys.argv[1]; rep={}
d=ov+'.d'; os.makedirs(d,exist_ok=True)
for p in sys.argv[2:]:
    pk=os.path.basename(p)
    g=open('/verif/contracts/_lib/ghost.go').read().replace('package PKG','package '+pk)
    f=os.path.join(d,pk+'_ghost.go'); open(f,'w').write(g)
    rep['/repo/%s/zz_verif_ghost.go'%p]=f
    for c in glob.glob('/verif/contracts/%s/*.go'%p):
        rep['/repo/%s/zz_verif_%s'%(p,os.path.basename(c))]=c
json.dump({'Replace':rep},open(ov,'w'))
PY
args=(); for p in "$@"; do args+=("./$p"); done
/tmp/ssadump -dir /repo -overlay "$out.ov" "${args[@]}" > "$out"
