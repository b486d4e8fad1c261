#!/usr/bin/env python3
"""Lays out WORK/scope: a view of /repo's hun_law *library* that builds offline.

The semantic parser needs the `peginator` crate, which does not exist in this sandbox, so the view
leaves out src/parser/semantic_info and hun_law_grammar (exactly what /opt/vp/scope.py leaves out).
Every other source is a symlink into /repo's working tree, so whatever is built from the view is
built from the current tree.  Usage: layout.py REPO VIEW [full PEGINATOR]

With `full`, nothing is left out: the grammar crate is laid out too, with a parser generated by
tools/peg.py from the repository's grammar, and the stand-in for the peginator crate.
"""
import os
import re
import shutil
import subprocess
import sys

REPO, VIEW = sys.argv[1], sys.argv[2]
FULL = sys.argv[4] if sys.argv[3:4] == ["full"] else None
OMIT = set() if FULL else {"src/parser/semantic_info", "src/bin", "src/main.rs"}


def drop_mod(text, names):
    return re.sub(rf"(?m)^\s*(pub(\([^)]*\))?\s+)?mod\s+({'|'.join(names)})\s*;[^\n]*\n?", "", text)


def manifest(text):
    text = re.sub(r"(?ms)^\[workspace\]\n.*?(?=^\[|\Z)", "", text)
    if not FULL:
        text = re.sub(r"(?m)^hun_law_grammar\s*=[^\n]*\n", "", text)
    # only the library is built here: no tests, no binaries
    text = re.sub(r"(?ms)^\[\[(test|bin|bench|example)\]\]\n.*?(?=^\[|\Z)", "", text)
    text = re.sub(r"(?ms)^\[dev-dependencies\]\n.*?(?=^\[|\Z)", "", text)
    text = re.sub(r"(?ms)^\[profile\.[a-z]+\]\n.*?(?=^\[|\Z)", "", text)
    return text


GENERATED = {} if FULL else {
    "Cargo.toml": manifest,
    "src/parser/mod.rs": lambda t: drop_mod(t, ["semantic_info"]),
}


def remove(path):
    if os.path.isdir(path) and not os.path.islink(path):
        shutil.rmtree(path)
    elif os.path.lexists(path):
        os.unlink(path)


def write(path, text):
    if os.path.isfile(path) and not os.path.islink(path):
        if open(path, encoding="utf-8").read() == text:
            return
    else:
        remove(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "w", encoding="utf-8").write(text)


def link(src, dst):
    if os.path.islink(dst) and os.readlink(dst) == src:
        return
    remove(dst)
    os.symlink(src, dst)


def layout(rel):
    src, dst = os.path.join(REPO, rel), os.path.join(VIEW, rel)
    if os.path.islink(dst) or os.path.isfile(dst):
        os.unlink(dst)
    os.makedirs(dst, exist_ok=True)
    names = set()
    for name in os.listdir(src):
        r = os.path.join(rel, name)
        if r in OMIT:
            continue
        names.add(name)
        s, d = os.path.join(REPO, r), os.path.join(VIEW, r)
        if r in GENERATED:
            write(d, GENERATED[r](open(s, encoding="utf-8").read()))
        elif os.path.isdir(s):
            layout(r)
        else:
            link(s, d)
    for name in os.listdir(dst):
        if name not in names:
            remove(os.path.join(dst, name))


layout("src")
write(os.path.join(VIEW, "Cargo.toml"), manifest(open(os.path.join(REPO, "Cargo.toml"), encoding="utf-8").read()))
for extra in ("build.rs", "data"):
    if os.path.exists(os.path.join(REPO, extra)):
        link(os.path.join(REPO, extra), os.path.join(VIEW, extra))
if FULL:
    g, v = os.path.join(REPO, "hun_law_grammar"), os.path.join(VIEW, "hun_law_grammar")
    text = open(os.path.join(g, "Cargo.toml"), encoding="utf-8").read()
    text = re.sub(r"(?ms)^\[build-dependencies\]\n.*?(?=^\[|\Z)", "", text)
    text = re.sub(r"(?m)^peginator\s*=[^\n]*\n", f'peginator = {{ path = "{FULL}" }}\n', text)
    write(os.path.join(v, "Cargo.toml"), text)
    os.makedirs(os.path.join(v, "src"), exist_ok=True)
    for name in os.listdir(os.path.join(g, "src")):
        if name != "grammar_generated.rs":
            link(os.path.join(g, "src", name), os.path.join(v, "src", name))
    new = os.path.join(VIEW, "grammar_new.rs")
    subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "peg.py"), os.path.join(g, "grammar.ebnf"), new], check=True)
    write(os.path.join(v, "src/grammar_generated.rs"), open(new, encoding="utf-8").read())
    os.unlink(new)
    sys.exit(0)
# The modules of the command line program that do not need the semantic parser, as a list of `mod`
# items the harness includes.
BIN, BIN_VIEW = os.path.join(REPO, "src/bin/hun_law"), os.path.join(VIEW, "bin_src")
remove(BIN_VIEW)
os.makedirs(BIN_VIEW)
mods = []
for name in sorted(os.listdir(BIN)) if os.path.isdir(BIN) else []:
    src = os.path.join(BIN, name)
    link(src, os.path.join(BIN_VIEW, name))
    root = os.path.join(src, "mod.rs") if os.path.isdir(src) else src
    if name == "main.rs" or not root.endswith(".rs") or not os.path.exists(root):
        continue
    if "semantic_info" in open(root, encoding="utf-8").read():
        continue
    mod = name.removesuffix(".rs")
    path = os.path.join(BIN_VIEW, os.path.relpath(root, BIN))
    mods.append(f'#[allow(dead_code)]\n#[path = "{path}"]\nmod {mod};\n')
write(os.path.join(BIN_VIEW, "mods.rs"), "".join(mods))
