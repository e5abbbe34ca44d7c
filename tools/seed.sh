#!/bin/bash
# tools/seed.sh ID PROPERTY NEEDS BREAKS: makes seeded/ID from the changes in /tmp/w/repo (a scratch copy of /repo) and /tmp/w/demo.cpp,
# after checking that the demonstration fails with the change and passes without it; resets the scratch copy
set -e
R=/tmp/w/repo
S=/verif/seeded/$1
git -C $R diff --quiet && { echo "no change"; exit 1; }
mkdir -p $S
git -C $R diff > $S/patch.diff
cp /tmp/w/demo.cpp $S/demo.cpp
SRC=all; grep -q '// headers only' /tmp/w/demo.cpp && SRC=none
cat > $S/demo.sh <<'D'
#!/bin/bash
# builds demo.cpp with the sources of the working directory and runs it in a scratch directory
HERE=$(cd "$(dirname "$0")" && pwd)
export REPO=$PWD
export W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
export FLAGS="-std=c++20 -O0 -w -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB -I$HERE/stub -I$REPO -I$REPO/ThermoFun"
one() { g++ $FLAGS -c "$1" -o "$W/$(echo "$1" | md5sum | cut -c1-16).o"; }
export -f one
{ echo "$HERE/demo.cpp"; [ SRC = none ] || find ThermoFun -name '*.cpp' -size +0 | sed "s|^|$REPO/|"; } | xargs -P 8 -I{} bash -c 'one "{}"' || exit 3
g++ "$W"/*.o -o "$W/demo" -lspdlog -lfmt || exit 3
cd "$W" && ./demo "$REPO"
D
sed -i "s/\[ SRC = none \]/[ $SRC = none ]/" $S/demo.sh
mkdir -p $S/stub; cp -r /verif/harness/stub/ChemicalFun $S/stub/
[ $SRC = none ] && rm -rf "$S/stub"
chmod +x $S/demo.sh
python3 - "$@" <<'P'
import json, sys
json.dump({'property': sys.argv[2], 'needs': sys.argv[3], 'what_it_breaks': sys.argv[4]}, open('/verif/seeded/%s/meta.json' % sys.argv[1], 'w'), indent=1)
P
set +e
(cd $R && timeout 300 bash $S/demo.sh > /tmp/w/with.log 2>&1); a=$?
git -C $R checkout -q -- .
(cd $R && timeout 300 bash $S/demo.sh > /tmp/w/without.log 2>&1); b=$?
echo "$1: with the change $a, without $b"
[ $a -ne 0 ] && [ $a -ne 3 ] && [ $b -eq 0 ] || { tail -n 5 /tmp/w/with.log /tmp/w/without.log; exit 1; }
