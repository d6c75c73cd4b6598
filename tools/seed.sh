#!/bin/bash
# seed.sh verify ID...: confirms planted changes in scratch copies (builds, tests, demo with and without).
# seed.sh catch ID...: applies each to /repo, runs its property's quick check, undoes it.
V=$(cd "$(dirname "$0")/.." && pwd)
cmd=$1; shift
T=/tmp/seedwork
scratch() {   # a scratch copy of /repo with scripts of its own
    mkdir -p $T/$1/vp
    rsync -a --exclude _build --delete /repo/ $T/$1/repo/
    for f in build.sh test.sh run_tests.py results.py examples.json; do sed "s#/repo#$T/$1/repo#g; s#/opt/vp/build.sh#$T/$1/vp/build.sh#; s#/opt/vp/run_tests.py#$T/$1/vp/run_tests.py#; s#/opt/vp/results.py#$T/$1/vp/results.py#" /opt/vp/$f > $T/$1/vp/$f; done
    mkdir -p $T/$1/repo/_build
    grep -q _build $T/$1/repo/.git/info/exclude || echo /_build/ >> $T/$1/repo/.git/info/exclude
}
demo() { ( cd $T/$1/repo && mkdir -p $T/$1/demo && cp -r $V/seeded/$2/. $T/$1/demo/ && rm -f $T/$1/demo/patch.diff $T/$1/demo/meta.json && timeout 300 bash $T/$1/demo/demo.sh >$T/$1/demo.out 2>&1; r=$?; find $T/$1/demo -mindepth 1 -delete; exit $r ) }
if [ "$cmd" = verify ]; then
    scratch base; bash $T/base/vp/build.sh >/dev/null 2>&1 || { echo base build failed; exit 1; }
    for id in "$@"; do
        demo base $id; r0=$?
        [ $r0 = 0 ] || tail -5 $T/base/demo.out
        scratch mut
        git -C $T/mut/repo apply $V/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
        bash $T/mut/vp/test.sh $T/mut/out.json >$T/mut/test.log 2>&1
        python3 - $T/mut/out.json <<'P'
import json, sys
b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open(sys.argv[1]))
st = b.get('stable') or b.get('passed') or b.get('tests') or b
miss = sorted(set(st) - set(o['passed']))
print('tests: missing', miss[:6], len(o['passed']))
P
        demo mut $id; r1=$?
        echo "$id: demo base=$r0 mutant=$r1"
        tail -3 $T/mut/demo.out
    done
    rm -rf /tmp/seedwork
else
    for id in "$@"; do
        p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
        git -C /repo apply $V/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
        ( cd $V; timeout 900 python3 check.py $p > /tmp/seed-$id.log 2>&1; echo "$id $p exit=$? $(grep -c '^VIOLATION' /tmp/seed-$id.log) violations" )
        git -C /repo checkout -- .
    done
fi
