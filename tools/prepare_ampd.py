#!/usr/bin/env python3
"""Lays out build/ampd, build/events and build/events-derive: the sources of the worker daemon as they are in /repo, seen
through symlinks, except the files for which ampd/inside has a replacement (clients of services that are not here), with
manifests whose dependencies can be met offline (ampd/stubs stands in for the crates that are not in the cache)."""
import os, shutil
REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = f"{HERE}/build"
INSIDE = f"{HERE}/ampd/inside"
GONE = {"main.rs", "tests"}


def put(path, text):
    if os.path.exists(path):
        with open(path) as f:
            if f.read() == text:
                return
    with open(path, "w") as f:
        f.write(text)


def link(target, path):
    if os.path.islink(path) and os.readlink(path) == target:
        return
    if os.path.islink(path) or os.path.exists(path):
        os.unlink(path)
    os.symlink(target, path)


def lay(src, dst, inside, rel=""):
    os.makedirs(dst, exist_ok=True)
    want = set()
    names = set(os.listdir(src) if os.path.isdir(src) else []) | set(os.listdir(inside) if os.path.isdir(inside) else [])
    for n in sorted(names):
        r = f"{rel}{n}"
        s, i = f"{src}/{n}", f"{inside}/{n}"
        if r in GONE and not os.path.exists(i):
            continue
        want.add(n)
        if os.path.isdir(i) or os.path.isdir(s):
            lay(s, f"{dst}/{n}", i, r + "/")
        else:
            link(i if os.path.exists(i) else s, f"{dst}/{n}")
    for n in os.listdir(dst):
        if n not in want:
            p = f"{dst}/{n}"
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)


S = "../../ampd/stubs"
lay(f"{REPO}/ampd/src", f"{B}/ampd/src", INSIDE)
lay(f"{REPO}/packages/events/src", f"{B}/events/src", "/nonexistent")
lay(f"{REPO}/packages/events-derive/src", f"{B}/events-derive/src", "/nonexistent")
put(f"{B}/events/Cargo.toml", f'''[package]
name = "events"
version = "0.1.0"
edition = "2021"
[dependencies]
axelar-wasm-std = {{ path = "../ws/packages/axelar-wasm-std" }}
base64 = "0.21.2"
error-stack = {{ version = "0.4.0", features = ["eyre"] }}
serde_json = "1.0.89"
tendermint = {{ path = "{S}/tendermint" }}
thiserror = "1"
''')
put(f"{B}/events-derive/Cargo.toml", '''[package]
name = "events-derive"
version = "0.1.0"
edition = "2021"
[lib]
proc-macro = true
[dependencies]
error-stack = { version = "0.4.0", features = ["eyre"] }
events = { path = "../events" }
quote = "1"
serde = "1"
serde_json = "1.0.89"
syn = { version = "2", features = ["full"] }
''')
put(f"{B}/ampd/Cargo.toml", f'''[package]
name = "ampd"
version = "0.1.0"
edition = "2018"
[lib]
path = "src/root.rs"
[dependencies]
async-trait = "0.1.59"
axelar-wasm-std = {{ path = "../ws/packages/axelar-wasm-std" }}
base64 = "0.21.2"
bcs = "0.1.5"
connection-router = {{ path = "../ws/contracts/connection-router", features = ["library"] }}
clap = {{ path = "{S}/clap" }}
cosmos-sdk-proto = {{ path = "{S}/cosmos-sdk-proto" }}
cosmrs = {{ path = "{S}/cosmrs", features = ["cosmwasm"] }}
cosmwasm-std = "1.3.3"
deref-derive = {{ path = "{S}/deref-derive" }}
derive_builder = {{ path = "{S}/derive_builder" }}
ecdsa = "0.16.6"
enum-display-derive = "0.1.1"
error-stack = {{ version = "0.4.0", features = ["eyre"] }}
ethers = {{ version = "2.0.8", features = ["rustls"] }}
events = {{ path = "../events" }}
events-derive = {{ path = "../events-derive" }}
futures = "0.3.25"
hex = {{ version = "0.4.3", features = ["serde"] }}
humantime-serde = {{ path = "{S}/humantime-serde" }}
itertools = "0.11.0"
k256 = {{ version = "0.13.1", features = ["ecdsa"] }}
mockall = "0.11.3"
move-core-types = {{ path = "{S}/move-core-types" }}
multisig = {{ path = "../ws/contracts/multisig", features = ["library"] }}
report = {{ path = "../ws/packages/report" }}
serde = {{ version = "1.0.147", features = ["derive"] }}
serde_json = "1.0.89"
serde_with = {{ path = "{S}/serde_with" }}
service-registry = {{ path = "../ws/contracts/service-registry", features = ["library"] }}
sim = {{ path = "{S}/sim" }}
sui-json-rpc-types = {{ path = "{S}/sui-json-rpc-types" }}
sui-types = {{ path = "{S}/sui-types" }}
tendermint = {{ path = "{S}/tendermint" }}
tendermint-rpc = {{ path = "{S}/tendermint-rpc" }}
thiserror = "1"
tokio = {{ path = "{S}/tokio-shim", package = "tokio-shim" }}
tokio-stream = {{ path = "{S}/tokio-stream", features = ["sync"] }}
tokio-util = "0.7.8"
tonic = {{ path = "{S}/tonic" }}
tracing = {{ version = "0.1.37", features = ["valuable", "log"] }}
url = "2.3.1"
valuable = {{ version = "0.1.0", features = ["derive"] }}
voting-verifier = {{ path = "../ws/contracts/voting-verifier", features = ["library"] }}
''')
