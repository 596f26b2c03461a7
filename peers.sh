# sourced: build_peers OUTDIR [go build flags]   programs for the platforms of C29 and C30
# A platform the installed toolchain cannot build for, or whose programs do not
# run here, is left out (OUTDIR/skipped says so); one the code under test does
# not build for leaves its log, OUTDIR/NAME.broken.
build_peers() {
  local out=$1; shift
  mkdir -p "$out/hello"; : >"$out/skipped"
  printf 'module hello\ngo 1.20\n' >"$out/hello/go.mod"
  printf 'package main\nimport ("bufio"; "encoding/json"; "fmt"; "os"; "regexp"; "strconv"; "strings"; "bytes")\nvar _, _, _, _, _, _ = bufio.NewReader, json.Marshal, regexp.MustCompile, strconv.Itoa, strings.ToUpper, bytes.Equal\nfunc main() { fmt.Println("hello", len(os.Args)) }\n' >"$out/hello/hello.go"
  local goroot; goroot=$(go env GOROOT)
  printf '%s\n' "$goroot/lib/wasm/wasm_exec_node.js" >"$out/wasm_exec"
  peer_for() { # NAME GOOS GOARCH TAGS RUNNER...
    local name=$1 os=$2 arch=$3 tags=$4; shift 4
    if ! (cd "$out/hello" && CGO_ENABLED=0 GOOS=$os GOARCH=$arch go build -o "$out/$name.hello" . && [ "$("$@" "$out/$name.hello")" = "hello 1" ]) >/dev/null 2>&1; then
      echo "$name" >>"$out/skipped"; return
    fi
    (cd "$here/harness" && CGO_ENABLED=0 GOOS=$os GOARCH=$arch go build "${flags[@]}" -tags "$tags" -o "$out/$name" ./cmd/peer) >"$out/$name.log" 2>&1 || mv "$out/$name.log" "$out/$name.broken"
  }
  local flags=("$@")
  peer_for x386 linux 386 "" env &
  peer_for js js wasm "" node "$goroot/lib/wasm/wasm_exec_node.js" &
  wait
  peer_for appengine linux amd64 appengine env
  # Windows: its file in place of the POSIX one, with a stand-in for the system calls
  local dir; dir=$(cd "$here/harness" && go list "${flags[@]}" -m -f '{{.Dir}}' github.com/ilius/go-table)/runewidth
  if sed -e '/^\/\/go:build/d;/^\/\/ +build/d' -e 's#^\([[:space:]]*\(import[[:space:]]\+\)\?\)"syscall"#\1syscall "verifharness/fakesyscall"#' "$dir/runewidth_windows.go" >"$out/win.go" &&
    printf '{"Replace": {"%s": "%s"}}\n' "$dir/runewidth_posix.go" "$out/win.go" >"$out/overlay.json" &&
    (cd "$here/harness" && go build "${flags[@]}" -overlay "$out/overlay.json" -o "$out/windows" ./cmd/peer) >"$out/windows.log" 2>&1; then :; else echo windows >>"$out/skipped"; fi
}
