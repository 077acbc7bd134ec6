"""Mirrors /repo as a buildable cargo package in /verif/build/pkg.

cargo cannot load /repo's manifest (its submodule factrs-typetag is missing), so everything but Cargo.toml is
symlinked and Cargo.toml is derived from /repo's current one without the two optional dependencies that need it.
Files are rewritten only when they change, so cargo rebuilds incrementally from /repo's working tree."""
import os
import re
import sys

PKG = sys.argv[1]
REPO = sys.argv[2] if len(sys.argv) > 2 else "/repo"
SKIP = {".git", "target", "Cargo.toml", "Cargo.lock", "factrs-typetag"}
os.makedirs(PKG, exist_ok=True)
want = set(os.listdir(REPO)) - SKIP
for name in os.listdir(PKG):
    path = os.path.join(PKG, name)
    if os.path.islink(path) and (name not in want or os.readlink(path) != os.path.join(REPO, name)):
        os.unlink(path)
for name in want:
    path = os.path.join(PKG, name)
    if not os.path.lexists(path):
        os.symlink(os.path.join(REPO, name), path)
text = open(f"{REPO}/Cargo.toml", encoding="utf-8").read()
if not os.path.exists(f"{REPO}/factrs-typetag/Cargo.toml"):
    text = re.sub(r"(?m)^typetag\s*=.*\n", "", text)
    text = re.sub(r"(?m)^serde\s*=\s*\{.*\n", "", text)
    text = re.sub(r"(?m)^serde\s*=\s*\[[^\]]*\]\n", "", text)
out = f"{PKG}/Cargo.toml"
if not (os.path.exists(out) and open(out, encoding="utf-8").read() == text):
    with open(out, "w", encoding="utf-8") as f:
        f.write(text)
