#!/bin/bash
# Builds the simulation worker from /repo's working tree into /verif/.build.
# exit 3: /repo or the framework does not build; exit 4: the generator fails on
# the simulated services; exit 5: what it generated does not compile.
set -u
VERIF=$(cd "$(dirname "$0")/.." && pwd)
REPO=${REPO:-/repo}
B=${BUILD_DIR:-$VERIF/.build}
mkdir -p "$B/tmp" "$B/gocache"
export GOROOT=/opt/veriftools/go1.25.14
export PATH=$GOROOT/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off GOCACHE=$B/gocache GOTMPDIR=$B/tmp CGO_ENABLED=0
RACE=
if [ "${SIM_RACE:-}" = 1 ]; then RACE="-race -gcflags=gotsrpcsim/worker=-race=false -gcflags=github.com/valyala/gorpc=-race=false"; fi
python3 "$VERIF/toolchain/mkoverlay.py" "$GOROOT" "$B/std" || exit 3
GORPC=$(ls -d /root/go/pkg/mod/github.com/valyala/gorpc@v0.0.0-20160519171614-908281bef774) || exit 3
S=$B/sim
mkdir -p "$S/ts" "$S/instr" "$S/gorpc"
cp -r "$VERIF/sim/." "$S/" && cp "$GORPC"/*.go "$S/gorpc/" && chmod -R u+w "$S"
find "$S/gorpc" -name '*_test.go' -delete
python3 - "$S/gorpc/transport.go" <<'PY' || exit 3
import sys
p=sys.argv[1]; s=open(p).read()
old="\ttcpConn := conn.(*net.TCPConn)\n"
if s.count(old)!=1: sys.exit("gorpc anchor")
open(p,"w").write(s.replace(old,"\ttcpConn, ok := conn.(*net.TCPConn)\n\tif !ok {\n\t\treturn nil // the simulated network\n\t}\n"))
PY
printf 'module github.com/valyala/gorpc\n' > "$S/gorpc/go.mod"
sed "s#@REPO@#$REPO#g" "$VERIF/sim/go.mod.tmpl" > "$S/go.mod"
cp "$REPO/go.sum" "$S/build.sum"
sed "s#@ROOT@#$S#g; s#@OUT@#$S/ts#g" "$VERIF/sim/svc/gotsrpc.yml.tmpl" > "$S/gotsrpc.yml"
python3 "$VERIF/toolchain/mkrnd.py" "${SIM_SVC_SEED:-1}" "$S" "${SIM_SVC_GROUPS:-3}" || exit 3
python3 "$VERIF/toolchain/prep.py" "$REPO" "$VERIF/sim" "$S" "$B/corpus" || exit 3
cd "$S" || exit 3
export GOFLAGS="-mod=mod -modfile=$S/build.mod"
go build -overlay "$B/std/std.json" -o "$B/gotsrpc" github.com/foomo/gotsrpc/v2/cmd/gotsrpc > "$B/gen-build.log" 2>&1 || { cat "$B/gen-build.log" >&2; exit 3; }
find "$S/svc" -name "*_gen.go" -delete
rm -rf "$S/ts" && mkdir "$S/ts"
GOPATH=$S/gopath GOMODCACHE=/root/go/pkg/mod "$B/gotsrpc" gotsrpc.yml > "$B/generate.log" 2>&1 || { tail -5 "$B/generate.log" >&2; exit 4; }
cp "$B/std/std.json" "$B/overlay.json"
go run -overlay "$B/std/std.json" "$VERIF/toolchain/instr/main.go" "$S/instr" "$B/overlay.json" $(find "$REPO" -name '*.go' ! -name '*_test.go' ! -path "$REPO/example/*" ! -path "$REPO/cmd/*" ! -path '*/.*' ! -path '*/testdata/*' ! -path '*/node_modules/*' | sort; ls "$S"/cmdmain/*.go) $(find "$S/svc" -name "*_gen.go" | sort) || exit 3
if ! CGO_ENABLED=${SIM_RACE:-0} go build $RACE -overlay "$B/overlay.json" -o "$B/worker${SIM_RACE:+-race}" ./worker > "$B/worker-build.log" 2>&1; then
	cat "$B/worker-build.log" >&2
	if grep -q '^svc/\|_gen.go' "$B/worker-build.log"; then exit 5; fi
	exit 3
fi
if [ "${SIM_TS:-}" = 1 ]; then
	go run "$VERIF/toolchain/sigs/main.go" "$S" > "$B/sigs.json" || exit 3
	node "$VERIF/toolchain/tstable.js" "$S/ts" "$B/ts.json" || exit 3
fi
