# bug.sh ID : full confirmation of one seeded bug in a scratch copy
id=$1; S=/verif/seeded/$id; W=/tmp/bw/$id; rm -rf "/tmp/bw/$id"; mkdir -p /tmp/bw; cp -a /repo $W; cd $W
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
bash $S/demo.sh > /tmp/bw/$id.d0 2>&1; a=$?
git apply $S/patch.diff || { echo "$id APPLY FAIL"; rm -rf "/tmp/bw/$id"; exit 1; }
make -B -j8 CC=gcc all > /tmp/bw/$id.mk 2>&1 || { echo "$id BUILD FAIL"; exit 1; }
t=$(make test 2>&1 | tail -1); grep -q Error <<< "$t" && tt=FAIL || tt=pass
bash $S/demo.sh > /tmp/bw/$id.d1 2>&1; b=$?
echo "$id prop=$prop demo-clean=$a tests=$tt demo-bug=$b ($(tail -1 /tmp/bw/$id.d1))"
for p in ${2:-$prop}; do VERIF_REPO=$W python3 /verif/run.py $p > /tmp/bw/$id.$p.out 2>&1; echo "   $p exit $? $(grep -v OK /tmp/bw/$id.$p.out | head -2 | cut -c1-200)"; done
rm -rf "/tmp/bw/$id"
