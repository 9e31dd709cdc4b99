#!/usr/bin/env python3
"""Drops the build products of every /repo crate whose content changed since it was last built (cargo itself goes by
mtime, which a checkout or an undone patch can defeat).  `fresh.py` cleans, `fresh.py --save` records the state."""
import hashlib, json, os, re, subprocess, sys
REPO, T = "/repo", os.environ["CARGO_TARGET_DIR"]
STATE = f"{T}/repo_hashes.json"

def crates():
    out = {}
    for base in ("contracts", "packages"):
        for d, dirs, files in os.walk(f"{REPO}/{base}"):
            dirs[:] = [x for x in dirs if x not in ("target", "tests", "examples", "node_modules", ".git")]
            if "Cargo.toml" in files:
                name = re.search(r'^name\s*=\s*"([^"]+)"', open(f"{d}/Cargo.toml").read(), re.M).group(1)
                h = hashlib.sha256()
                for d2, dirs2, files2 in sorted(os.walk(d)):
                    dirs2[:] = sorted(x for x in dirs2 if x not in ("target", "tests", "examples"))
                    for f in sorted(files2):
                        if f.endswith((".rs", ".toml")):
                            h.update(f.encode()); h.update(open(f"{d2}/{f}", "rb").read())
                out[name] = h.hexdigest()
    return out

now = crates()
if "--save" in sys.argv:
    os.makedirs(T, exist_ok=True)
    json.dump(now, open(STATE + ".tmp", "w")); os.replace(STATE + ".tmp", STATE)
    sys.exit(0)
try:
    old = json.load(open(STATE))
except Exception:
    sys.exit(0)  # nothing built yet, or unknown: cargo decides
lock = open("/verif/harness/Cargo.lock").read()
for n, h in now.items():
    if old.get(n) != h and f'name = "{n}"' in lock:
        subprocess.run(["cargo", "clean", "--offline", "-p", n], cwd="/verif/harness", check=False,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
