#!/bin/bash
# tools/seed.sh ID... : for each seeded change, in a private copy bound over /repo:
# demo passes unchanged; patch applies, builds, repo tests pass, demo fails; the check reports it.
one() {
  id=$1; d=/verif/seeded/$id; s=$(mktemp -d /tmp/seed.XXXXXX); cp -a /repo $s/repo
  mkdir $s/demo; cp -a $d/. $s/demo/; rm -f $s/demo/*.diff $s/demo/meta.json
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  unshare -Urm bash -c "
    mount --bind $s/repo /repo; cd /repo
    bash /opt/vp/build.sh >$s/b0 2>&1 || echo BASE-BUILD-FAIL
    timeout 300 bash $s/demo/demo.sh >$s/d0 2>&1; a=\$?
    git apply $d/patch.diff || echo APPLY-FAIL
    bash /opt/vp/build.sh >$s/b1 2>&1 || { echo BUILD-FAIL; tail -5 $s/b1; }
    bash /opt/vp/test.sh $s/t.json >/dev/null 2>&1
    t=\$(python3 -c \"import json;o=json.load(open('$s/t.json'));b=json.load(open('/opt/vp/BASELINE.json'));b=b.get('stable',b.get('passed',b)) if isinstance(b,dict) else b;print(len(o['passed']),len(o['failed']))\")
    timeout 300 bash $s/demo/demo.sh >$s/d1 2>&1; b=\$?
    c=- ; if [ -z \"$NOCHECK\" ]; then ( cd /verif; timeout 900 python3 check.py $prop quick >$s/c 2>&1 ); c=\$?; fi
    echo \"$id: demo base=\$a patched=\$b tests=\$t check $prop=\$c \$(grep -h VIOLATION $s/c 2>/dev/null | head -1 | cut -c1-150)\"
    [ \$a = 0 ] || head -20 $s/d0; [ \$b != 0 ] || tail -20 $s/d1
    [ \"\$c\" != 1 ] && [ -f $s/c ] && tail -3 $s/c
    true"
  rm -rf "$s"
}
for i in "$@"; do one $i; done
