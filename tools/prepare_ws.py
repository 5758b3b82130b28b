#!/usr/bin/env python3
"""Lays out /verif/build/ws: the buildable part of the /repo workspace, seen through symlinks.

The contracts inherit dependency versions from a workspace root that must not list members with git dependencies (ampd,
integration-tests, events*), so their root is this generated Cargo.toml: /repo/Cargo.toml with another members list."""
import os, re, sys
REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WS = os.path.join(HERE, "build", "ws")
LEFT_OUT = {"ampd", "integration-tests", "packages/events", "packages/events-derive"}

def put(path, text):
    if os.path.exists(path):
        with open(path) as f:
            if f.read() == text:
                return
    with open(path, "w") as f:
        f.write(text)

os.makedirs(WS, exist_ok=True)
members = []
for top in ("contracts", "packages"):
    for name in sorted(os.listdir(f"{REPO}/{top}")):
        path = f"{top}/{name}"
        if path not in LEFT_OUT and os.path.exists(f"{REPO}/{path}/Cargo.toml"):
            members.append(path)
    link = f"{WS}/{top}"
    if os.path.islink(link) and os.readlink(link) != f"{REPO}/{top}":
        os.unlink(link)
    if not os.path.islink(link):
        os.symlink(f"{REPO}/{top}", link)
with open(f"{REPO}/Cargo.toml") as f:
    manifest = f.read()
listed = "members = [" + ", ".join(f'"{m}"' for m in members) + "]"
manifest, n = re.subn(r"(?m)^members\s*=\s*\[[^\]]*\]", lambda _: listed, manifest, count=1)
if not n:
    sys.exit("no members list in /repo/Cargo.toml")
put(f"{WS}/Cargo.toml", manifest)
