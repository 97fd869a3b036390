#!/bin/sh
# overlay.sh OUTDIR
# Writes to OUTDIR patched copies of two standard library files and the overlay descriptions that
# select them. The patched math/rand lets the harness pin every seed, so that a run is a function of
# the code and VERIF_SEED. The patched net lets the command line tool reach a local stand-in of the
# chain service. Nothing outside OUTDIR is written.
set -e
out=$1
goroot=$(go env GOROOT)
mkdir -p "$out"

python3 - "$goroot" "$out" <<'PY'
import json, sys
goroot, out = sys.argv[1], sys.argv[2]

def patch(src, dst, subs, tail=""):
    text = open(src).read()
    for old, new in subs:
        if text.count(old) != 1:
            sys.exit("overlay: cannot patch %s: %r" % (src, old))
        text = text.replace(old, new)
    open(dst, "w").write(text + tail)

rand_src = goroot + "/src/math/rand/rand.go"
patch(rand_src, out + "/rand.go", [
    ("func NewSource(seed int64) Source {\n",
     "func NewSource(seed int64) Source {\n\tif s, ok := verifNext(); ok {\n\t\tseed = s\n\t}\n"),
    ("func globalRand() *Rand {\n",
     "func globalRand() *Rand {\n\tif r := verifRand.Load(); r != nil {\n\t\treturn r\n\t}\n"),
    ("func Seed(seed int64) {\n",
     "func Seed(seed int64) {\n\tif r := verifRand.Load(); r != nil {\n\t\ts, _ := verifNext()\n"
     "\t\tr.Seed(s)\n\t\treturn\n\t}\n"),
], """
var verifRand atomic.Pointer[Rand]
var verifState atomic.Uint64

func verifMix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func verifNext() (int64, bool) {
	if verifRand.Load() == nil {
		return 0, false
	}
	return int64(verifMix(verifState.Add(0x9e3779b97f4a7c15)) >> 1), true
}

// VerifPin makes every later draw of this package a function of seed.
func VerifPin(seed uint64) {
	verifState.Store(verifMix(seed))
	r := New(new(lockedSource))
	r.Seed(int64(verifMix(seed^0x5851f42d4c957f2d) >> 1))
	verifRand.Store(r)
}

// VerifUnpin restores the usual behaviour.
func VerifUnpin() {
	verifRand.Store(nil)
}
""")
json.dump({"Replace": {rand_src: out + "/rand.go"}}, open(out + "/harness.json", "w"))

dial_src = goroot + "/src/net/dial.go"
patch(dial_src, out + "/dial.go", [
    ("func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n",
     "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n"
     "\tif target, ok := verifsyscall.Getenv(\"VERIF_DIAL\"); ok && len(address) > 4 &&\n"
     "\t\taddress[len(address)-4:] == \":443\" {\n\t\taddress = target\n\t}\n"),
    ("import (\n", "import (\n\tverifsyscall \"syscall\"\n"),
])
json.dump({"Replace": {dial_src: out + "/dial.go"}}, open(out + "/cli.json", "w"))
PY
