#!/bin/bash
# seed.sh ID [check-props...]: validates /verif/seeded/ID in a scratch copy of /repo bind-mounted over /repo
# (private mount namespace): patch applies, builds, tests pass, demo fails with it and passes without it;
# then runs the named checks (default: the property in meta.json) against the patched copy.
id=$1; shift
s=/verif/seeded/$id
w=$(mktemp -d /tmp/seed_$id.XXXX)
git -C /repo worktree list >/dev/null
cp -a /repo "$w/repo"
props=${*:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
export s w props id
unshare -Urm bash -c '
mount --bind $w/repo /repo; cd /repo; git checkout -q -- . 
fail() { echo "SEED $id: BAD: $1"; }
bash /opt/vp/build.sh >$w/b0.log 2>&1 || fail "base build"
[ -n "$NODEMO" ] || bash $s/demo.sh >$w/d0.log 2>&1 || { fail "demo on unchanged tree"; tail -5 $w/d0.log; }
git apply $s/patch.diff || { fail apply; exit; }
bash /opt/vp/build.sh >$w/b.log 2>&1 || { fail build; tail -30 $w/b.log; exit; }
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh $w/o.json >$w/t.log 2>&1; python3 -c "
import json; b=json.load(open(\"/opt/vp/BASELINE.json\")); o=json.load(open(\"$w/o.json\"));
print(\"SEED $id: tests passed\",len(o[\"passed\"]),\"failed\",o[\"failed\"][:5])"; fi
[ -n "$NODEMO" ] || { bash $s/demo.sh >$w/d.log 2>&1 && fail "demo passes with the patch" || { echo "SEED $id: demo fails as wanted: $(tail -1 $w/d.log)"; }; }
export DV_BUILD=$w/build; mkdir -p $w/build; [ -d /verif/build/pb ] && cp -a /verif/build/pb $w/build/pb
for p in $props; do echo "SEED $id: check $p"; DV_EVID=$w/evid /verif/check $p 2>&1 | cut -c1-400; echo "rc ${PIPESTATUS[0]}"; [ -n "$SHOWREPLAY" ] && head -${SHOWREPLAY} $w/evid/replay/$p.txt; done
'
rm -rf "$w"
