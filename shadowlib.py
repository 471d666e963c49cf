"""The whole real crate, compiled from a content-synchronised copy of REPO/src against stand-in
dependencies (shadow/stubs). Only used to search for failing inputs, never to prove."""
import fcntl, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
SHADOW = os.path.join(HERE, "shadow")


def sync(repo, sub="src"):
    src, dst = os.path.join(repo, sub), os.path.join(SHADOW, sub)
    if os.path.islink(dst):
        os.unlink(dst)
    os.makedirs(dst, exist_ok=True)
    seen = set()
    for root, dirs, files in os.walk(src):
        rel = os.path.relpath(root, src)
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in files:
            a, b = os.path.join(root, f), os.path.normpath(os.path.join(dst, rel, f))
            seen.add(b)
            data = open(a, "rb").read()
            if not os.path.exists(b) or open(b, "rb").read() != data:
                open(b, "wb").write(data)
    for root, dirs, files in os.walk(dst):
        for f in files:
            p = os.path.normpath(os.path.join(root, f))
            if p not in seen:
                os.remove(p)


def build(repo, binname, dest, timeout=600):
    """-> (rc, stderr); the executable is copied to dest"""
    with open(os.path.join(SHADOW, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sync(repo)
        sync(repo, "samples")
        crate = os.path.join(HERE, "replay_crate")
        try:
            p = subprocess.run(["cargo", "build", "--offline", "--bin", binname] if binname else ["cargo", "build", "--offline"],
                               cwd=crate, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return 124, "timeout"
        if p.returncode == 0 and binname:
            shutil.copy(os.path.join(crate, "target/debug", binname), dest)
        return p.returncode, p.stderr


if __name__ == "__main__":
    rc, e = build(sys.argv[1] if len(sys.argv) > 1 else "/repo", None, None, 1500)
    print(e[-3000:])
    sys.exit(rc)
