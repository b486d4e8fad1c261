#!/usr/bin/env python3
"""Lays out WORK/scope: a view of /repo's hun_law *library* that builds offline.

The semantic parser needs the `peginator` crate, which does not exist in this sandbox, so the view
leaves out src/parser/semantic_info and hun_law_grammar (exactly what /opt/vp/scope.py leaves out).
Every other source is a symlink into /repo's working tree, so whatever is built from the view is
built from the current tree.  Usage: layout.py REPO VIEW
"""
import os
import re
import shutil
import sys

REPO, VIEW = sys.argv[1], sys.argv[2]
OMIT = {"src/parser/semantic_info", "src/bin", "src/main.rs"}


def drop_mod(text, names):
    return re.sub(rf"(?m)^\s*(pub(\([^)]*\))?\s+)?mod\s+({'|'.join(names)})\s*;[^\n]*\n?", "", text)


def manifest(text):
    text = re.sub(r"(?ms)^\[workspace\]\n.*?(?=^\[|\Z)", "", text)
    text = re.sub(r"(?m)^hun_law_grammar\s*=[^\n]*\n", "", text)
    # only the library is built here: no tests, no binaries
    text = re.sub(r"(?ms)^\[\[(test|bin|bench|example)\]\]\n.*?(?=^\[|\Z)", "", text)
    text = re.sub(r"(?ms)^\[dev-dependencies\]\n.*?(?=^\[|\Z)", "", text)
    text = re.sub(r"(?ms)^\[profile\.[a-z]+\]\n.*?(?=^\[|\Z)", "", text)
    return text


GENERATED = {
    "Cargo.toml": manifest,
    "src/parser/mod.rs": lambda t: drop_mod(t, ["semantic_info"]),
}


def remove(path):
    if os.path.isdir(path) and not os.path.islink(path):
        shutil.rmtree(path)
    elif os.path.lexists(path):
        os.unlink(path)


def write(path, text):
    if os.path.isfile(path) and not os.path.islink(path):
        if open(path, encoding="utf-8").read() == text:
            return
    else:
        remove(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "w", encoding="utf-8").write(text)


def link(src, dst):
    if os.path.islink(dst) and os.readlink(dst) == src:
        return
    remove(dst)
    os.symlink(src, dst)


def layout(rel):
    src, dst = os.path.join(REPO, rel), os.path.join(VIEW, rel)
    if os.path.islink(dst) or os.path.isfile(dst):
        os.unlink(dst)
    os.makedirs(dst, exist_ok=True)
    names = set()
    for name in os.listdir(src):
        r = os.path.join(rel, name)
        if r in OMIT:
            continue
        names.add(name)
        s, d = os.path.join(REPO, r), os.path.join(VIEW, r)
        if r in GENERATED:
            write(d, GENERATED[r](open(s, encoding="utf-8").read()))
        elif os.path.isdir(s):
            layout(r)
        else:
            link(s, d)
    for name in os.listdir(dst):
        if name not in names:
            remove(os.path.join(dst, name))


layout("src")
write(os.path.join(VIEW, "Cargo.toml"), manifest(open(os.path.join(REPO, "Cargo.toml"), encoding="utf-8").read()))
for extra in ("build.rs", "data"):
    if os.path.exists(os.path.join(REPO, extra)):
        link(os.path.join(REPO, extra), os.path.join(VIEW, extra))
os.makedirs(os.path.join(VIEW, "bin_src"), exist_ok=True)
link(os.path.join(REPO, "src/bin/hun_law/fixup_editor.rs"), os.path.join(VIEW, "bin_src/fixup_editor.rs"))
