#!/bin/bash
# tools/seed.sh ID [notest] [nocheck]: confirm a planted bug of seeded/ID in a scratch copy of /repo, bind-mounted over /repo in a private namespace
id=$1; shift
src=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$src/meta.json'))['property'])")
w=/tmp/seed/$id; mkdir -p /tmp/seed
[ -d "$w" ] && rm -rf "/tmp/seed/$id"
cp -a /repo "$w"; (cd $w && git checkout -q -- . ) || exit 9
cp -r $src $w.demo; rm -f $w.demo/patch.diff $w.demo/meta.json
ns() { unshare -Urm sh -c "mount --bind $w /repo && cd /repo && $1"; }
ns "timeout 300 bash $w.demo/demo.sh" > $w.demo/clean.log 2>&1; clean=$?
(cd $w && git apply $src/patch.diff) || { echo "$id: PATCH DOES NOT APPLY"; exit 9; }
ns "bash /opt/vp/build.sh" > $w.demo/build.log 2>&1; build=$?
ns "timeout 300 bash $w.demo/demo.sh" > $w.demo/patched.log 2>&1; patched=$?
tests=skipped
case " $* " in *" notest "*) ;; *)
  ns "bash /opt/vp/test.sh $w.demo/out.json" > $w.demo/test.log 2>&1
  tests=$(python3 - $w.demo/out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def passed(d):
    for k in ('passed','stable','stable_passed','tests'):
        if k in d:
            v=d[k]
            return set(v) if isinstance(v,list) else set(t for t,s in v.items() if s in ('passed',True,'pass'))
    raise SystemExit('keys %s' % list(d)[:5])
m=passed(b)-passed(o)
print('ok' if not m else 'BROKEN %s' % sorted(m)[:3])
P
);; esac
chk=skipped
case " $* " in *" nocheck "*) ;; *)
  ns "cd /verif && bin/check $prop --no-evidence" > $w.demo/check.log 2>&1; chk=$?
  [ $chk = 1 ] && grep -q "^VIOLATION property=$prop" $w.demo/check.log && chk=CAUGHT; [ $chk = 0 ] && chk=MISSED;; esac
echo "$id [$prop]: demo clean=$clean build=$build demo patched=$patched tests=$tests check=$chk"
cp $w.demo/*.log /tmp/seed/ 2>/dev/null; mkdir -p /tmp/seedlog/$id; mv $w.demo/*.log /tmp/seedlog/$id/; rm -rf "/tmp/seed/$id" "/tmp/seed/$id.demo"
