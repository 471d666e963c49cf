"""Concrete search for a failing input on the real code (replay of failed obligations, bounded stand-in)."""
import os, re, subprocess


def run(rp, repo, here, out, seed, budget, known, sh):
    kind, name, *args = rp
    if kind == "single":
        return single(name, args, repo, here, out, seed, budget, known, sh)
    if kind == "shadow":
        return shadow(name, args, repo, here, out, seed, budget, known, sh)
    raise SystemExit("unknown replay kind")


def parse(rc, so, se, cmd, known):
    st = dict(cmd=cmd, rc=rc)
    m = re.search(r"tried=(\d+) distinct_nontrivial=(\d+)", so)
    if m:
        st["evaluations"], st["distinct_nontrivial"] = int(m.group(1)), int(m.group(2))
    ks = re.findall(r"^KNOWN (\S+)", so, re.M)
    st["known"] = sorted(set(ks))
    if rc == 1 and "FAIL " in so:
        return so[so.index("FAIL "):][:6000], st
    if rc != 0:
        st["error"] = (se or so)[-400:]
    return None, st


def single(name, args, repo, here, out, seed, budget, known, sh):
    src = open(os.path.join(here, "replay", name + ".rs")).read().replace("@REPO@", repo).replace("@HERE@", here)
    p, exe = os.path.join(out, name + "_replay.rs"), os.path.join(out, name + "_replay")
    open(p, "w").write(src)
    rc, so, se = sh(["rustc", "--edition", "2018", "-O", "-A", "warnings", p, "-o", exe], 300)
    if rc != 0:
        return None, dict(cmd="rustc", error=se[-600:], rc=rc)
    cmd = [exe, *args, str(100000 * budget), str(seed)] + [k for k, _ in known]
    rc, so, se = sh(cmd, 240 if budget < 10 else 700)
    return parse(rc, so, se, " ".join(cmd), known)


def shadow(name, args, repo, here, out, seed, budget, known, sh):
    import shadowlib
    n = int(args[0]) if args else 20000
    exe = os.path.join(out, name + "_replay")
    rc, se = shadowlib.build(repo, name, exe)
    if rc != 0:
        return None, dict(cmd="cargo build (shadow)", error=se[-1500:], rc=rc)
    cmd = [exe, str(n * budget), str(seed)] + [k for k, _ in known]
    rc, so, se = sh(cmd, 300 if budget < 10 else 700)
    return parse(rc, so, se, " ".join(cmd), known)
