#!/bin/bash
# run.sh setup | check ID | replay FILE
# Builds the harness against /repo's working tree, then runs it.
cd "$(dirname "$0")" || exit 2
. ./env.sh
export VERIF_DIR=$PWD VERIF_BIN=$PWD/.build
mkdir -p .build
build() {
	(cd harness && go build -o ../.build/harness ./cmd/harness &&
		for b in mysqldef psqldef mssqldef sqlite3def; do go build -o ../.build/$b github.com/k0kubun/sqldef/cmd/$b || exit 1; done &&
		cd /repo && for b in mysqldef psqldef mssqldef; do go build -o "$VERIF_DIR/.build/real-$b" ./cmd/$b || exit 1; done
	) >.build/log 2>&1 || { cat .build/log >&2; return 1; }
}
case "$1" in
setup) build || exit 2 ;;
check)
	build || { echo "the harness does not build against /repo" >&2; exit 2; }
	exec .build/harness check "$2" ;;
replay)
	build || exit 2
	exec .build/harness replay "$2" ;;
*) echo "usage: run.sh setup | check ID | replay FILE" >&2; exit 2 ;;
esac
