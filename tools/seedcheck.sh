#!/bin/bash
# seedcheck.sh ID [--nocheck] [--all PROPS...]: works on a bind-mounted copy of /repo in a private mount namespace
# confirms: patch applies, builds, stable tests pass, demo 0 without / nonzero with, then runs the property's check
ID=$1; shift
D=/verif/seeded/$ID
[ -d /tmp/sd/repo ] || { mkdir -p /tmp/sd; cp -a /repo /tmp/sd/repo; }
exec unshare -m bash -c '
ID=$1; D=$2; shift 2
mount --bind /tmp/sd/repo /repo
cd /repo && git checkout -q -- . && git status --short | head -3
bash /opt/vp/build.sh >/tmp/sd/build.log 2>&1 || { echo "base build failed"; exit 1; }
TD=$(mktemp -d /tmp/sd/demo.XXXX); cp $D/* $TD/; rm -f $TD/*.diff $TD/meta.json
( cd /repo && timeout 300 bash $TD/demo.sh >/tmp/sd/demo0.log 2>&1 ); a=$?
git apply $D/patch.diff || { echo "patch does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/sd/build.log 2>&1 || { echo "patched build failed"; tail -5 /tmp/sd/build.log; git checkout -q -- .; exit 1; }
( cd /repo && timeout 300 bash $TD/demo.sh >/tmp/sd/demo1.log 2>&1 ); b=$?
case " $* " in *" --notest "*) t=skipped;; *)
bash /opt/vp/test.sh /tmp/sd/out.json >/tmp/sd/test.log 2>&1
t=$(python3 -c "
import json;s=set(json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]);o=json.load(open(\"/tmp/sd/out.json\"));m=sorted(s-set(o[\"passed\"]));print(\"pass\" if not m else \"MISSING %s\"%m)");; esac
echo "$ID: demo clean=$a patched=$b tests=$t"
P=$(python3 -c "import json;print(json.load(open(\"$D/meta.json\"))[\"property\"])")
case " $* " in *" --nocheck "*) ;; *) cd ${VW:-/verif}; ./check $P --tier quick | tail -4; echo "rc=${PIPESTATUS[0]}";; esac
cd /repo; git checkout -q -- .
rm -r $TD
' _ "$ID" "$D" "$@"
