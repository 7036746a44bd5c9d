#!/usr/bin/env python3
"""Make/refresh the instrumented copy of /repo's library in /verif/build/instr.

The copy is the working tree's src/ (and README.md, which lib.rs includes) with one line appended
to lib.rs: `extern crate vp_std as std;`, which redirects every `std::` path to the harness'
facade. Only files whose content changed are rewritten, so cargo rebuilds only when needed.
"""
import os, re, sys

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "build", "instr")


def put(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def main():
    want = set()
    src = os.path.join(REPO, "src")
    for root, _dirs, files in os.walk(src):
        for n in files:
            p = os.path.join(root, n)
            rel = os.path.relpath(p, REPO)
            with open(p, "rb") as f:
                data = f.read()
            if rel == os.path.join("src", "lib.rs"):
                data += b"\n#[allow(unused_extern_crates, unused_imports)]\n#[macro_use]\nextern crate vp_std as std;\n"
            put(os.path.join(OUT, rel), data)
            want.add(os.path.normpath(os.path.join(OUT, rel)))
    for n in os.listdir(REPO):
        p = os.path.join(REPO, n)
        if os.path.isfile(p) and n.endswith(".md"):
            with open(p, "rb") as f:
                put(os.path.join(OUT, n), f.read())
            want.add(os.path.join(OUT, n))
    edition = "2021"
    with open(os.path.join(REPO, "Cargo.toml")) as f:
        m = re.search(r'^edition\s*=\s*"(\d+)"', f.read(), re.M)
        if m:
            edition = m.group(1)
    toml = f"""# generated by harness/prepare.py
[package]
name = "another-rxrust"
version = "0.0.0"
edition = "{edition}"

[features]
web = []

[lib]
doctest = false
test = false

[dependencies]
vp_std = {{ path = "{VERIF}/harness/vp_std" }}
"""
    put(os.path.join(OUT, "Cargo.toml"), toml.encode())
    want.add(os.path.join(OUT, "Cargo.toml"))
    for root, _dirs, files in os.walk(OUT):
        for n in files:
            p = os.path.join(root, n)
            if os.path.normpath(p) not in want and n != "Cargo.lock":
                os.remove(p)


if __name__ == "__main__":
    main()
