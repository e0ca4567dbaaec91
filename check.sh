#!/bin/bash
# check.sh PROPERTY        decide one property on /repo's current tree
# check.sh --build         only build (warms caches)
# check.sh --replay FILE   re-run a recorded violation
# VERIF_TIER=quick|thorough
set -u
export HOME=/root PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${VERIF_GOCACHE:-/root/.cache/go-build}"
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="${VERIF_DIR:-$here}"
repo="${VERIF_REPO:-/repo}"
build="${VERIF_BUILD:-$here/.build}"
mkdir -p "$build/bin" "$here/evidence"
what="${1:?usage: check.sh PROPERTY | --build | --replay FILE}"

# Properties whose check has variants for the race detecting binary.
case " C04 C06 C07 C10 C12 C14 C15 C16 C17 C18 C19 " in *" $what "*) race=1 ;; *) race=0 ;; esac
case "$what" in --build|--replay) race=1 ;; esac

build_all() {
	exec 9>"$build/lock" && flock 9 || return 1
	(cd "$here/tools/instrument" && go build -o "$build/bin/instrument" .) || return 1
	(cd "$repo" && "$build/bin/instrument" -repo "$repo" -out "$build/src" -zmc "$here/mc/zmc") || return 1
	sed "s#=> /repo#=> $repo#" "$here/harness/go.mod" >"$build/go.mod.new" && cp "$here/harness/go.sum" "$build/go.sum" || return 1
	cmp -s "$build/go.mod.new" "$build/go.mod" || cp "$build/go.mod.new" "$build/go.mod"
	local pids=() rc=0
	(cd "$here/harness" && go build -modfile "$build/go.mod" -overlay "$build/src/overlay.json" -o "$build/bin/harness" .) & pids+=($!)
	if [ "$race" = 1 ]; then
		(cd "$here/harness" && go build -race -modfile "$build/go.mod" -overlay "$build/src/overlay.json" -o "$build/bin/harness-race" .) & pids+=($!)
	fi
	case "$what" in C22|--build)
		(cd "$repo" && go build -o "$build/bin/trc-cli" ./cmd/trc) & pids+=($!) ;;
	esac
	for p in "${pids[@]}"; do wait "$p" || rc=1; done
	exec 9>&-
	return $rc
}
build_all || { echo "check.sh: build failed" >&2; exit 3; }
export VERIF_CLI="$build/bin/trc-cli"
case "$what" in
--build) exit 0 ;;
--replay) exec "$build/bin/harness" replay "$2" ;;
*) exec "$build/bin/harness" run "$what" ;;
esac
