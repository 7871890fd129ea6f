# sourced by run.sh and setup.sh
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS= CGO_ENABLED=0
export HOME=${HOME:-/root} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
export GOCACHE=$here/.build/gocache
MC=$here/.build/bin/mc
build_mc() {
  mkdir -p "$here/.build/bin" "$here/.build/mod" || return 1
  local tmp; tmp=$(mktemp -d "$here/.build/mod/m.XXXXXX") || return 1
  cp "$here/mc/go.mod" "$tmp/go.mod"; cp "$here/mc/go.sum" "$tmp/go.sum"
  # the library's own requirements may change together with the tree under check
  cat /repo/go.sum >> "$tmp/go.sum" 2>/dev/null
  (cd "$here/mc" && go build -mod=mod -modfile="$tmp/go.mod" -o "$tmp/mc" ./cmd/mc) || { rm -rf "$tmp"; return 1; }
  mv -f "$tmp/mc" "$MC"; rm -rf "$tmp"
}
# build_extra FLAVOUR: sched (instrumented library), order (walks over maps) or race. A flavour that cannot be built is left out,
# the checker notes it in the evidence.
build_extra() {
  local tmp fl=$1 lvl; rm -f "$MC-$fl" "$MC-$fl.note"
  mkdir -p "$here/.build/bin" "$here/.build/mod" || return 1
  tmp=$(mktemp -d "$here/.build/mod/x.XXXXXX") || return 1
  cp "$here/mc/go.mod" "$tmp/go.mod"; cp "$here/mc/go.sum" "$tmp/go.sum"
  cat /repo/go.sum >> "$tmp/go.sum" 2>/dev/null
  : > "$tmp/note"
  if [ "$fl" = race ]; then
    (cd "$here/mc" && CGO_ENABLED=1 go build -race -mod=mod -modfile="$tmp/go.mod" -ldflags "-X main.flavour=race" -o "$tmp/mc" ./cmd/mc) 2>"$tmp/err"
  else
    (cd "$here/mc" && go build -mod=mod -modfile="$tmp/go.mod" -o "$tmp/instr" ./cmd/instr) 2>"$tmp/err"
    if [ "$fl" = order ]; then set -- "mqttp=order vltypes=order"; else set -- "vlmonitoring=mem mqttp=stmt" "vlmonitoring=stmt mqttp=stmt" "vlmonitoring=shim mqttp=shim"; fi
    for lvl in "$@"; do
      rm -rf "$tmp/ov"; mkdir "$tmp/ov"
      if "$tmp/instr" -out "$tmp/ov" $lvl 2>>"$tmp/err" &&
        (cd "$here/mc" && go build -mod=mod -modfile="$tmp/go.mod" -overlay "$tmp/ov/overlay.json" -ldflags "-X main.flavour=$fl" -o "$tmp/mc" ./cmd/mc) 2>>"$tmp/err"; then
        break
      fi
      echo "instrumentation: $lvl could not be built" >> "$tmp/note"
    done
  fi
  [ -z "${VERIF_KEEP_ERR:-}" ] || cat "$tmp/err" >&2
  if [ -x "$tmp/mc" ]; then cp "$tmp/note" "$MC-$fl.note"; mv -f "$tmp/mc" "$MC-$fl"; else cat "$tmp/err" >&2; fi
  rm -rf "$tmp"
}
# flavours ID: the builds a property's check needs besides the plain one
flavours() { case $1 in C20) echo sched race;; C21|C22|C28) echo sched;; C03|C04|C12|C19|C25) echo order;; esac; }
