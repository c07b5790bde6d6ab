"""Lays out /verif/build/ws: a tree of symlinks into /repo that cargo can build offline.

/repo's own Cargo.toml depends (behind the feature `js`) on a git repository that cannot be
reached here, so the manifest and the workspace list are derived; every source file is a symlink
to /repo's own file, so what is compiled is /repo's working tree.
"""
import os
import re
import shutil

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
WS = os.path.join(BUILD, "ws")


def write(path, text):
    if os.path.islink(path):
        os.unlink(path)
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


def link(src, dst):
    if os.path.islink(dst) and os.readlink(dst) == src:
        return
    if os.path.lexists(dst):
        shutil.rmtree(dst) if os.path.isdir(dst) and not os.path.islink(dst) else os.unlink(dst)
    os.symlink(src, dst)


def manifest(text):
    text = re.sub(r"(?ms)^\[dependencies\.napi\]\n.*?(?=^\[)", "", text)
    text = re.sub(r"(?ms)^js = \[.*?^\]\n", "", text)
    text = re.sub(r"(?ms)^members = \[.*?^\]\n", 'members = ["src/proc_macro"]\n', text)
    text = re.sub(r"(?ms)^exclude = \[\"examples/point\"\]\n", "", text)
    text = re.sub(r"(?ms)^\[\[test\]\]\n.*?(?=^\[|\Z)", "", text)
    text = re.sub(r"(?ms)^\[dev-dependencies\]\n.*?(?=^\[)", "", text)
    return text


def stage():
    os.makedirs(WS, exist_ok=True)
    write(f"{WS}/Cargo.toml", manifest(open(f"{REPO}/Cargo.toml").read()))
    for n in ("src", "build.rs", "README.md"):
        if os.path.exists(f"{REPO}/{n}"):
            link(f"{REPO}/{n}", f"{WS}/{n}")
    return WS


if __name__ == "__main__":
    stage()
