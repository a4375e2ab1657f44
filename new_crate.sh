#!/bin/bash
# new_crate.sh ID: scaffold a contract crate
id=$1; d=/verif/crates/$id; mkdir -p $d/src
cat > $d/Cargo.toml <<X
[package]
name = "$id"
version = "0.1.0"
edition = "2024"

[[bin]]
name = "$id"
path = "src/main.rs"

[dependencies]
spec = { path = "../spec" }
qx = { path = "../qx" }
whippyunits = { path = "/repo" }
whippyunits-core = { path = "/repo/whippyunits-core" }
whippyunits-proc-macros = { path = "/repo/proc-macros" }

[profile.dev]
opt-level = 1
debug = false

[lints.rust]
unexpected_cfgs = { level = "allow" }

[workspace]
X
[ -f $d/Cargo.lock ] || cp /repo/Cargo.lock $d/Cargo.lock
