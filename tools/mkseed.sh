#!/bin/bash
# mkseed.sh ID PROP "needs" "what it breaks" < demo.c : keep the current change of /repo's working tree as a planted bug, then undo it
d=/verif/seeded/$1; mkdir -p $d; cat > $d/demo.c
git -C /repo diff > $d/patch.diff; git -C /repo checkout -q -- .
cat > $d/demo.sh <<'X'
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$d"' EXIT
gcc -w -I/repo/src -o $d/demo $here/demo.c /repo/src/bigfile.c /repo/src/bigfile-record.c -lm || exit 2
timeout 60 $d/demo $d/data
X
python3 -c "import json,sys;json.dump({'property':sys.argv[1],'needs':sys.argv[2],'what_it_breaks':sys.argv[3]},open('$d/meta.json','w'))" "$2" "$3" "$4"
