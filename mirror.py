#!/usr/bin/env python3
"""Mirrors /repo's working tree to build/src with the two unobtainable git dependencies replaced by the
signature-only stubs in /verif/stubs, so that the WHOLE program type-checks (nothing is cut)."""
import os, re, sys, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
SKIP_DIRS = {".git", "target", "node_modules", ".anchor", "test-ledger", ".yarn"}
SKIP_TOP = {"tests", "scripts", ".github"}
STUBS = {"protocol-zap": "protocol-zap", "unchecked_account": "unchecked_account"}

def manifest(text):
    for name, d in STUBS.items():
        p = os.path.join(HERE, "stubs", d)
        text = re.sub(r'(?m)^%s[ \t]*=[ \t]*\{[^}\n]*\bgit\b[^}\n]*\}' % re.escape(name),
                      '%s = { path = "%s" }' % (name, p), text)
    return text

def lock(text):
    head, *packages = re.split(r"(?m)^(?=\[\[package\]\]$)", text)
    out = []
    for p in packages:
        name = re.search(r'^name = "(.*)"$', p, re.M)[1]
        if re.search(r'^source = "git\+', p, re.M):
            if name == "unchecked_account":
                p = re.sub(r'(?m)^source = .*\n', '', p)
            elif name == "protocol-zap":
                p = '[[package]]\nname = "protocol-zap"\nversion = "0.1.0"\n\n'
            else:
                continue
        out.append(p)
    return head + "".join(out)

def transform(rel, data):
    if rel == "Cargo.lock":
        return lock(data.decode()).encode()
    if os.path.basename(rel) == "Cargo.toml":
        return manifest(data.decode()).encode()
    return data

def mirror(repo, dst_root):
    wanted, idls = set(), False
    for top, dirs, files in os.walk(repo):
        rel_top = os.path.relpath(top, repo)
        dirs[:] = [d for d in dirs if d not in SKIP_DIRS and not (rel_top == "." and d in SKIP_TOP)]
        for name in files:
            src = os.path.join(top, name)
            rel = os.path.normpath(os.path.join(rel_top, name))
            if not os.path.isfile(src) or rel == "rust-toolchain.toml":
                continue
            wanted.add(rel)
            with open(src, "rb") as f:
                data = transform(rel, f.read())
            dst = os.path.join(dst_root, rel)
            if os.path.isfile(dst):
                with open(dst, "rb") as f:
                    if f.read() == data:
                        continue
            elif os.path.isdir(dst):
                shutil.rmtree(dst)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            with open(dst, "wb") as f:
                f.write(data)
            idls |= rel.startswith("idls/")
    for top, dirs, files in os.walk(dst_root, topdown=False):
        for name in files:
            p = os.path.join(top, name)
            rel = os.path.relpath(p, dst_root)
            if rel not in wanted:
                os.remove(p)
                idls |= rel.startswith("idls/")
        if top != dst_root and not os.listdir(top):
            os.rmdir(top)
    if idls:
        libs = os.path.join(dst_root, "libs")
        for d in os.listdir(libs) if os.path.isdir(libs) else []:
            p = os.path.join(libs, d, "src", "lib.rs")
            if os.path.exists(p):
                os.utime(p)

if __name__ == "__main__":
    repo = sys.argv[1] if len(sys.argv) > 1 else "/repo"
    dst = sys.argv[2] if len(sys.argv) > 2 else os.path.join(HERE, "build", "src")
    os.makedirs(dst, exist_ok=True)
    mirror(repo, dst)
