"""Mirror /repo as a cargo package that can be loaded offline.

/repo/Cargo.toml names an optional path dependency (factrs-typetag) whose git submodule is empty here, so cargo
refuses to load the manifest at all.  This keeps a copy of /repo's working tree with a Cargo.toml derived from /repo's
on every run.  Files are compared by content and rewritten only when they differ, so cargo rebuilds exactly when a
source changed, whatever /repo's timestamps say."""
import os
import re
import shutil

SKIP = {".git", "target", "Cargo.toml", "Cargo.lock", "factrs-typetag"}


def write(path, text):
    if os.path.exists(path) and open(path, encoding="utf-8").read() == text:
        return
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def sync(src, dst):
    """make dst equal to src, touching only what differs"""
    if os.path.islink(dst):
        os.unlink(dst)
    if os.path.isdir(src):
        if os.path.exists(dst) and not os.path.isdir(dst):
            os.unlink(dst)
        os.makedirs(dst, exist_ok=True)
        names = {n for n in os.listdir(src) if n not in (".git", "target")}
        for n in set(os.listdir(dst)) - names:
            p = os.path.join(dst, n)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
        for n in sorted(names):
            sync(os.path.join(src, n), os.path.join(dst, n))
    elif os.path.isfile(src):
        if os.path.isdir(dst):
            shutil.rmtree(dst)
        data = open(src, "rb").read()
        if not os.path.exists(dst) or open(dst, "rb").read() != data:
            with open(dst, "wb") as f:
                f.write(data)


def mirror(repo, dest, manifest=True):
    os.makedirs(dest, exist_ok=True)
    want = set(os.listdir(repo)) - SKIP
    for name in os.listdir(dest):
        p = os.path.join(dest, name)
        if name not in want and name not in SKIP:
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
    for name in sorted(want):
        sync(os.path.join(repo, name), os.path.join(dest, name))
    if not manifest:
        return
    text = open(os.path.join(repo, "Cargo.toml"), encoding="utf-8").read()
    if not os.path.exists(os.path.join(repo, "factrs-typetag", "Cargo.toml")):
        text = re.sub(r"(?m)^typetag\s*=.*\n", "", text)
        text = re.sub(r"(?m)^serde\s*=\s*\{.*\n", "", text)
        text = re.sub(r"(?m)^serde\s*=\s*\[[^\]]*\]\n", "", text)
    else:
        sync(os.path.join(repo, "factrs-typetag"), os.path.join(dest, "factrs-typetag"))
    write(os.path.join(dest, "Cargo.toml"), text)


def mirror_serde(repo, dest):
    """The same tree with its serde feature usable: the missing fork of typetag is replaced by /verif/serde/typetag."""
    mirror(repo, dest, manifest=False)
    text = open(os.path.join(repo, "Cargo.toml"), encoding="utf-8").read()
    write(os.path.join(dest, "Cargo.toml"), re.sub(r'path = "(\./)?factrs-typetag/?"', 'path = "../../serde/typetag"', text))


if __name__ == "__main__":
    import sys
    mirror(sys.argv[1], sys.argv[2])
