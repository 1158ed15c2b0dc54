#!/bin/bash
# ./run.sh PROPERTY: builds what the check needs from /repo's working tree and runs the check. VERIF_TIER, VERIF_SEED.
prop=${1:?usage: run.sh PROPERTY}
cd "$(dirname "$0")" || exit 3
export VERIF_DIR=$PWD VERIF_REPO=${VERIF_REPO:-/repo}
export HOME="${HOME:-/root}" LANG="${LANG:-C.UTF-8}" TZ=UTC
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-buildvcs=false" CGO_ENABLED=0
tmp=$(mktemp -d "${TMPDIR:-/tmp}/verif-${prop#--}-XXXXXX") || exit 3
trap 'chmod -R u+w "$tmp" 2>/dev/null; rm -rf "$tmp"' EXIT
mkdir -p "$tmp/bin" "$tmp/scratch" evidence replays
export VERIF_BINS=$tmp/bin VERIF_SCRATCH=$tmp/scratch

fail() { echo "BUILD FAILED: $*" >&2; exit 3; }

need() { # which programs of /repo the property's check drives
    case $1 in
    C16) echo coin csv2coin ;;
    C17 | C18) echo coin ofx2coin ;;
    C19) echo coin ofx2coin csv2coin ;;
    C20) echo coin gc2coin ;;
    C21) echo coin gen2coin ;;
    C22) echo coin coin2html ;;
    C26 | C29) echo coin coin2html ;;
    C28 | C31 | C32) echo coin csv2coin ofx2coin gc2coin gen2coin coin2html ;;
    *) echo coin ;;
    esac
}

api() { # does the property's check link /repo's packages
    case $1 in C09 | C10 | C27) return 0 ;; esac
    return 1
}

build_api() { # the harness and the checks that call exported functions, as a program of /repo's module
    mkdir -p "$tmp/api"
    { printf '{"Replace":{'; sep=
      for f in "$PWD"/harness/vh/*.go "$PWD"/harness/api/*.go; do
          printf '%s"%s":"%s"' "$sep" "$VERIF_REPO/cmd/zzverif/${f##*/}" "$f"; sep=,
      done
      printf '}}\n'; } > "$tmp/api/overlay.json"
    (cd "$VERIF_REPO" && go build -overlay "$tmp/api/overlay.json" -o "$tmp/bin/vh" ./cmd/zzverif)
}

build() { # build one program of /repo
    local p=$1
    if [ "$p" = coin2html ]; then
        mkdir -p "$tmp/ov"
        { printf '{"Replace":{'; sep=
          for f in "$VERIF_REPO"/cmd/coin2html/*.go; do
              sed 's,^//go:embed .*,//,' "$f" > "$tmp/ov/${f##*/}"
              printf '%s"%s":"%s"' "$sep" "$f" "$tmp/ov/${f##*/}"; sep=,
          done
          printf '}}\n'; } > "$tmp/ov/overlay.json"
        (cd "$VERIF_REPO" && go build -overlay "$tmp/ov/overlay.json" -o "$tmp/bin/coin2html" ./cmd/coin2html)
    else
        (cd "$VERIF_REPO" && go build -o "$tmp/bin/$p" "./cmd/$p")
    fi
}

viewer() { # coin2html's viewer in one file, with a stand-in for the d3 modules
    local m alias=
    for m in d3 d3-selection d3-time d3-time-format d3-scale d3-array d3-axis d3-hierarchy d3-shape d3-scale-chromatic d3-format d3-interpolate; do
        alias="$alias --alias:$m=$PWD/harness/js/d3.js"
    done
    (cd "$VERIF_REPO/cmd/coin2html/js" && /opt/veriftools/node/node_modules/.bin/esbuild src/ui.ts --bundle --format=iife $alias \
        --log-level=error --outfile="$tmp/bin/viewer.js") > "$tmp/viewer.err" 2>&1 || cp "$tmp/viewer.err" "$tmp/bin/viewer.err"
}

if [ "$prop" = --build ]; then
    for p in coin csv2coin ofx2coin gc2coin gen2coin coin2html; do build "$p" || fail "$p"; done
    (cd harness && go build -o "$tmp/bin/" ./vh) || fail harness
    build_api || fail "harness in the module"
    exit 0
fi
for p in $(need "$prop"); do build "$p" || fail "$p"; done
if [ "$prop" = C29 ]; then viewer; fi
if api "$prop"; then build_api || fail harness; else (cd harness && go build -o "$tmp/bin/vh" ./vh) || fail harness; fi
api "$prop" || exec_vh=1
if [ -n "$exec_vh" ]; then "$tmp/bin/vh" "$prop"; exit $?; fi
# the library ends the process when it meets an error: that is an answer too
"$tmp/bin/vh" "$prop" > "$tmp/out" 2>&1
rc=$?
cat "$tmp/out"
if [ $rc -ne 0 ] && [ $rc -ne 3 ] && ! grep -q '^VIOLATION ' "$tmp/out"; then
    mkdir -p "replays/$prop"
    cp "$tmp/out" "replays/$prop/exit.txt"
    echo "the library ended the process with exit code $rc on valid input"
    echo "VIOLATION property=$prop replay=replays/$prop/exit.txt"
    exit 1
fi
exit $rc
