#!/bin/bash
# Copies the crates with threads and input/output from /repo's working tree, with std replaced by the controlled
# one of mc/vmc. Files are only touched when their content changes.
set -e
ROOT=$(cd "$(dirname "$0")/../.." && pwd)
OUT=$ROOT/build/net
mkdir -p "$OUT"
python3 - "$ROOT" "$OUT" <<'PY'
import os, re, sys, shutil
root, out = sys.argv[1:3]
REPO = "/repo"
wanted = set()
def put(path, text):
    wanted.add(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    open(path, "w").write(text)
def translate(text):
    text = re.sub(r"(?<![\w:])(?:::)?std(?=\s*::)", "vmc_std", text)
    # the command line
    text = re.sub(r"\bfrom_args(_safe)?\(\)", r"from_iter\1(vmc_std::env::args_os())", text)
    text = re.sub(r"\bget_matches(_safe)?\(\)", r"get_matches_from\1(vmc_std::env::args_os())", text)
    # the inherent methods of Path that look at the file system
    return re.sub(r"\.(exists|try_exists|is_file|is_dir|is_symlink)\(\)", r".vmc_\1()", text) + "\n#[allow(unused_imports)]\nuse vmc_std::fs::Look as _;\n"
def mirror(src, dst, main_to_lib=False):
    for d, _, files in os.walk(os.path.join(REPO, src, "src")):
        for f in files:
            if not f.endswith(".rs"):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, os.path.join(REPO, src))
            t = translate(open(p).read())
            if main_to_lib and rel.startswith("src/bin/"):
                continue
            if main_to_lib and rel == "src/main.rs":
                rel = "src/lib.rs"
                t += "\npub fn vmc_entry() { vmc_std::rt::world().log_level = 0; let _ = main(); }\n"
            put(os.path.join(out, dst, rel), t)
V = f'vmc_std = {{ path = "{root}/mc/vmc" }}\n'
def shim(n, extra=""):
    return f'{n} = {{ path = "{root}/mc/shims/{n}"{extra} }}\n'
def manifest(dst, name, deps, lib=None):
    t = f'[package]\nname = "{name}"\nversion = "0.1.0"\nedition = "2018"\n\n'
    if lib:
        t += f'[lib]\nname = "{lib}"\n\n'
    put(os.path.join(out, dst, "Cargo.toml"), t + "[dependencies]\n" + deps)
SESSION = V + f'''serde = {{ version = "1.0", features = ["derive"] }}
thiserror = "1.0"
rac = {{ version = "1.3", features = ["curve25519-dalek"] }}
vru-noise = {{ path = "{REPO}/vru-noise" }}
vru-kyber = {{ path = "{REPO}/vru-kyber" }}
curve25519-dalek = {{ version = "3.1", features = ["serde"] }}
chacha20poly1305 = "0.8"
sha3 = "0.9"
base64 = "0.13"
hex = "0.4"
byteorder = "1.4"
'''
mirror("vru-session", "vru-session")
manifest("vru-session", "vru-session", SESSION)
mirror("vru-udp", "vru-udp")
manifest("vru-udp", "vru-udp", V + shim("popol") + shim("rand") + '''log = "0.4"
serde = { version = "1.0", features = ["derive"] }
thiserror = "1.0"
rac = { version = "1.3", features = ["curve25519-dalek"] }
''' + f'vru-session = {{ package = "vru-session-recorder", path = "{root}/mc/net/session-recorder" }}\n')
mirror("vru-tcp", "vru-tcp")
manifest("vru-tcp", "vru-tcp", V + shim("mio", ', features = ["os-poll", "tcp"]') + '''log = "0.4"
thiserror = "1.0"
rac = "1.3"
vru-session = { path = "../vru-session" }
''')
NODE = V + shim("popol") + shim("rand") + shim("sled") + shim("ctrlc") + shim("tracing-subscriber") + '''tracing = "0.1"
log = "0.4"
libc = "0.2"
rac = "1.3"
structopt = "0.3"
bincode = "1.3"
serde = { version = "1.0", features = ["derive"] }
vru-session = { path = "../vru-session" }
'''
for d, tcp in (("vnode", 'vru-tcp = { path = "../vru-tcp" }\n'),
               ("vnode-recorded", f'vru-tcp = {{ package = "vru-tcp-recorder", path = "{root}/mc/net/recorder" }}\n')):
    mirror("vru-node", d, True)
    manifest(d, d, NODE + tcp)
for d, _, files in os.walk(out):
    for f in files:
        p = os.path.join(d, f)
        if p not in wanted and f != "Cargo.lock":
            os.remove(p)
PY
