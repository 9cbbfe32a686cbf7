# Sourced by run.sh for C25: runs the two generator commands of the working
# tree under several map orders and prepares a build with what they write.
g=$scratch/gen
mkdir -p "$g" || exit 3
python3 - "$scratch/ov" <<'PY' || exit 3
import json, sys
d = sys.argv[1]
o = json.load(open(d + "/overlay.json"))
src = '''package main

import (
	"os"
	_ "unsafe"
)

type verifStateT struct {
	Mode, Const, N, Len int
	Over                bool
	Choice, Width       [1024]uint8
}

//go:linkname verifState internal/runtime/maps.verifState
var verifState verifStateT

func init() {
	if s := os.Getenv("MC_ORDER"); s != "" {
		verifState.Mode = 1
		verifState.Const = int(s[0] - '0')
	}
}
'''
open(d + "/order.go", "w").write(src)
for c in ("genmaybe", "gentest"):
    o["Replace"]["/repo/internal/cmd/%s/zz_verif_order.go" % c] = d + "/order.go"
json.dump(o, open(d + "/gen.json", "w"))
PY
for c in genmaybe gentest; do
  go build -overlay "$scratch/ov/gen.json" -ldflags=-checklinkname=0 -o "$g/$c" github.com/lestrrat-go/jsval/internal/cmd/$c || exit 3
done
for o in 0 1 2 3 4 5 6 7; do
  mkdir "$g/$o" || exit 3
  # what is there already makes no difference
  for f in maybe.go maybe_gen_test.go meta.go; do
    case $o in
    1) yes '// what was here before' | head -c 300000 >"$g/$o/$f" ;;
    2) echo '// short' >"$g/$o/$f" ;;
    3) : >"$g/$o/$f" ;;
    4) cp "$g/0/$f" "$g/$o/$f" && echo '// one more line' >>"$g/$o/$f" ;;
    5) yes '' | head -c 300000 >"$g/$o/$f" ;;
    esac
  done
  (cd "$g/$o" && MC_ORDER=$o timeout 300 "$g/genmaybe") >"$g/log" 2>&1 || broken "genmaybe fails under map order $o" "$g/log"
  (cd "$g/$o" && MC_ORDER=$o timeout 300 "$g/gentest" /repo/schema.json meta.go) >"$g/log" 2>&1 || broken "gentest fails under map order $o" "$g/log"
  for f in maybe.go maybe_gen_test.go meta.go; do
    [ -s "$g/$o/$f" ] || broken "the generator wrote no $f under map order $o" "$g/log"
    diff "$g/0/$f" "$g/$o/$f" >"$g/log" || broken "the generated $f depends on map iteration order or on what was there before ($o)" "$g/log"
  done
done
python3 - "$scratch" "$g" <<'PY' || exit 3
import json, re, sys
s, g = sys.argv[1:3]
o = json.load(open(s + "/ov/overlay.json"))
o["Replace"]["/repo/maybe.go"] = g + "/0/maybe.go"
json.dump(o, open(s + "/ov/regen.json", "w"))
src = open(g + "/0/meta.go").read()
src = re.sub(r"(?m)^package \w+", "package genmeta", src, count=1)
open(s + "/src/genmeta/gen.go", "w").write(src)
names = re.findall(r"(?m)^\s*(?:var )?(\w+)\s+\*jsval\.JSVal\b", src)
open(s + "/src/genmeta/reg.go", "w").write("package genmeta\n\nfunc init() { Meta = %s }\n" % (names[0] if names else "nothing"))
PY
# the tree itself must build, so that a failure is the generators'
build >"$g/log0" 2>&1
ok=$?
mv "$scratch/src/genmeta/gen.go" "$g/gen.go.off" && mv "$scratch/src/genmeta/reg.go" "$g/reg.go.off" || exit 3
if [ $ok != 0 ]; then
  build || { sleep 1; build; } || exit 3
  broken "the regenerated meta-schema validator does not compile" "$g/log0"
fi
cp "$g/gen.go.off" "$scratch/src/genmeta/gen.go" && cp "$g/reg.go.off" "$scratch/src/genmeta/reg.go" || exit 3
overlay=$scratch/ov/regen.json
build >"$g/log1" 2>&1 || { sleep 1; build >"$g/log1" 2>&1; } || broken "the regenerated Maybe types do not compile in place of the shipped ones" "$g/log1"
