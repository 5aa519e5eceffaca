#!/bin/bash
# ./run.sh ID quick|thorough   run the check of a property
# ./run.sh replay FILE         run one saved case
# ./run.sh build               build everything
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
for g in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
	[ -x "$g/go" ] && PATH=$g:$PATH && break
done
export HOME=${HOME:-/root} PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
unset GOROOT GOEXPERIMENT GODEBUG
mkdir -p .build evidence replays || exit 2
build() { # NAME [flags]
	local out=$PWD/.build/$1
	shift
	(cd harness && go build "$@" -o "$out" .) || { echo "ERROR: build failed" >&2; exit 2; }
}
race_props=" C14 C31 "
narrow_props=" C38 " # these are run in 32 bits
test_props=" C23 " # these need a *testing.T
build_test() {
	(cd harness && go test -c -o "$PWD/../.build/harness-test" .) || { echo "ERROR: build failed" >&2; exit 2; }
}
case "$1" in
build)
	build harness
	build harness-race -race
	GOARCH=386 CGO_ENABLED=0 build harness-386
	build_test
	exit 0 ;;
replay)
	id=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)
	if [[ $race_props == *" $id "* ]]; then
		build harness-race -race
		export GORACE="halt_on_error=1 exitcode=66"
		exec .build/harness-race replay "$2"
	fi
	if [[ $narrow_props == *" $id "* ]]; then
		GOARCH=386 CGO_ENABLED=0 build harness-386
		exec .build/harness-386 replay "$2"
	fi
	if [[ $test_props == *" $id "* ]]; then
		build_test
		exec .build/harness-test replay "$2"
	fi
	build harness
	exec .build/harness replay "$2" ;;
C*)
	if [[ $race_props == *" $1 "* ]]; then
		build harness-race -race
		exec .build/harness-race run "$1" "${2:-quick}"
	fi
	if [[ $narrow_props == *" $1 "* ]]; then
		GOARCH=386 CGO_ENABLED=0 build harness-386
		exec .build/harness-386 run "$1" "${2:-quick}"
	fi
	if [[ $test_props == *" $1 "* ]]; then
		build_test
		exec .build/harness-test run "$1" "${2:-quick}"
	fi
	build harness
	exec .build/harness run "$1" "${2:-quick}" ;;
*)
	echo "usage: $0 ID quick|thorough | replay FILE | build" >&2
	exit 2 ;;
esac
