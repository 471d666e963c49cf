#!/bin/bash
# packs the stand-in dependencies for the demonstrations
w=$(mktemp -d); cp -r /verif/shadow/stubs "$w/stubs"
sed -e 's/^autobins = false/autobins = false\n/' /verif/shadow/Cargo.toml > "$w/Cargo.toml"
cat >> "$w/Cargo.toml" <<'T'
[profile.dev.package."*"]
opt-level = 0
[[bin]]
name = "demo"
path = "demo.rs"
T
cp /verif/shadow/Cargo.lock "$w/"
rm -rf "$w"/stubs/*/target
tar -C "$w" --sort=name --mtime=2020-01-01 -czf /verif/dev/kit.tgz Cargo.toml Cargo.lock stubs; ls -la /verif/dev/kit.tgz
cat > /verif/dev/demo.sh <<'T'
#!/bin/bash
# builds the whole crate from ./src against stand-in dependencies (kit.tgz) and runs demo.rs
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD; [ -d "$repo/src/System" ] || repo=/repo
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
tar -C "$w" -xzf "$here/kit.tgz"
cp -r "$repo/src" "$w/src"; ln -s "$repo/samples" "$w/samples"
cp "$here/demo.rs" "$w/demo.rs"
cd "$w" && CARGO_TARGET_DIR="$w/target" cargo build --offline --quiet --bin demo || exit 2
"$w/target/debug/demo"
T
