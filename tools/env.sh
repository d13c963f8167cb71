# sourced: build environment of the explorers (same toolchain as /opt/vp/build.sh, own target dir)
export HOME=/root PATH=/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin
export RUSTUP_TOOLCHAIN=1.82.0-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= TZ=UTC
export VERIF_DIR="$here"
export CARGO_TARGET_DIR="$here/target"
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG

vh_crate() { case "$1" in C08|C18|C21|C23) echo hooked;; *) echo harness;; esac; }

# vh_fresh CRATE: freshness does not rest on modification times alone: when the content of the
# sources differs from what was last built, drop the old build of the crates under test first
vh_fresh() {
  local c="$1" stamp="$here/target/.src-$1" now
  now=$(cd /repo && find src csvp/src Cargo.toml csvp/Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
    (cd "$here/$c" && cargo clean --offline -q -p csvpp -p csvp 2>/dev/null)
    rm -f "$stamp"
  fi
  (cd "$here/$c" && cargo build --offline -q 1>&2) && echo "$now" > "$stamp"
}

# vh_command: the real command and the libraries that set its clock and watch it, beside the explorers
vh_command() {
  vh_fresh command || return 1
  local n so
  for n in clock faults net; do
    so="$here/target/debug/lib$n.so"
    [ "$so" -nt "$here/preload/$n.c" ] || gcc -O1 -shared -fPIC -o "$so" "$here/preload/$n.c" -ldl -lpthread 1>&2 || return 1
  done
}

# vh_build ID: prints the path of the binary
vh_build() {
  local c; c=$(vh_crate "$1")
  mkdir -p "$here/target"
  (
    flock 9
    vh_fresh "$c" || exit 1
    case "$1" in C10|C11|C14|C17|C20|C23) vh_command;; esac
  ) 9>"$here/target/.lock" || return 1
  if [ "$c" = harness ]; then echo "$here/target/debug/vh"; else echo "$here/target/debug/vhh"; fi
}
