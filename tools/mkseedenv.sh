#!/bin/bash
# mkseedenv.sh <dir>: writes <dir>/env.tgz (the stand-ins and support code a demonstration is built
# from) and <dir>/demo.sh. <dir>/demo.rs is the demonstration.
set -e
v="$(dirname "$(dirname "$(readlink -f "$0")")")"; d="$(readlink -f "$1")"
w=$(mktemp -d)
cp -r "$v/shims" "$v/target_crate" "$w/"
mkdir -p "$w/harness/src/bin"
cp "$v/harness/Cargo.toml" "$v/harness/Cargo.lock" "$w/harness/"
cp -r "$v/harness/kit" "$w/harness/"
cp "$v"/harness/src/*.rs "$w/harness/src/"
sed -i 's#"/repo/#"@REPO@/#' "$w/target_crate/Cargo.toml"
rm -rf "$w/target_crate/target"
tar czf "$d/env.tgz" --sort=name --mtime=@0 --owner=0 --group=0 -C "$w" shims target_crate harness
rm -rf "$w"
[ -f "$d/demo.sh" ] || cat > "$d/demo.sh" <<'EOS'
#!/bin/bash
# Builds demo.rs against the working tree in the current directory (offline, with the stand-ins of
# env.tgz for the dependencies that are not available) in a scratch directory, and runs it.
here="$(dirname "$(readlink -f "$0")")"; repo="$PWD"
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
tar xzf "$here/env.tgz" -C "$w" || exit 3
sed -i "s#@REPO@#$repo#" "$w/target_crate/Cargo.toml"
cp "$here/demo.rs" "$w/harness/src/bin/demo.rs"
export CARGO_NET_OFFLINE=true VERIF_ROOT="$w"
cargo build --offline --quiet --manifest-path "$w/harness/Cargo.toml" --target-dir "$w/target" --release --bin demo || exit 3
cd "$w" && timeout 200 "$w/target/release/demo"
EOS
chmod +x "$d/demo.sh"
