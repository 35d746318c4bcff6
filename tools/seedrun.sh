#!/bin/bash
# seedrun.sh [-p] [bug...]: run the checks against each seeded bug in a scratch copy
# of /repo; -p only the check of the bug's own property. Development only.
. /opt/vp/env.sh >/dev/null 2>&1
own=; [ "$1" = -p ] && { own=1; shift; }
cd /verif; (cd checker && go build -o /tmp/seedck .) || exit 1
claimed=$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")
[ $# -gt 0 ] || set -- $(ls seeded)
one() { b=$1
  w=/tmp/seedrun.$b; cp -a /repo $w; git -C $w apply /verif/seeded/$b/patch.diff || { echo "$b: does not apply"; return; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  ids=$claimed; [ -n "$own" ] && ids=$p
  hit=; for i in $ids; do VERIF_REPO=$w VERIF_DIR=/tmp/seedv.$b timeout 900 /tmp/seedck $i >/tmp/seedout.$b.$i 2>&1; r=$?; [ $r -ne 0 ] && hit="$hit $i$([ $r -ne 1 ] && echo "(rc=$r)")$(grep -q 'rule decided' /tmp/seedout.$b.$i && echo '?')"; done
  case " $hit " in *" $p "*|*" $p? "*) s=caught;; *) s=MISSED;; esac
  echo "$b [$p] $s by:$hit"; rm -rf /tmp/seedrun.$b /tmp/seedv.$b
}
export -f one; export claimed own
printf '%s\n' "$@" | xargs -P 6 -I{} bash -c 'one {}'
