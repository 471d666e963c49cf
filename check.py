#!/usr/bin/env python3
"""Decide one property: extract the functions under contract from /repo's working tree, have Verus
discharge every obligation, and on a failed obligation search for a failing input on the real code."""
import json, os, re, subprocess, sys, time, fnmatch, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
sys.path.insert(0, HERE)
from props import PROPS, TRUST
import replaylib

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
VX = os.path.join(HERE, "vx/target/debug/vx")


def sh(cmd, timeout, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"


def build_vx():
    src = [os.path.join(HERE, "vx/src", f) for f in os.listdir(os.path.join(HERE, "vx/src"))]
    if not os.path.exists(VX) or max(map(os.path.getmtime, src)) > os.path.getmtime(VX):
        rc, o, e = sh(["cargo", "build", "--offline", "--manifest-path", os.path.join(HERE, "vx/Cargo.toml")], 800)
        if rc != 0:
            print(e[-3000:])
            sys.exit(3)


ERR_RE = re.compile(r"^(error|warning|note)(\[[^\]]*\])?: ?(.*)$")


def parse_errors(stderr, fname):
    """-> list of (message, [lines])"""
    out, cur = [], None
    for l in stderr.splitlines():
        m = ERR_RE.match(l)
        if m:
            cur = None
            if m.group(1) == "error":
                cur = [m.group(3), [], [l]]
                out.append(cur)
            elif m.group(1) == "note" and "not all errors" in m.group(3):
                cur = None
            continue
        if cur is not None:
            cur[2].append(l)
            m = re.match(r"^\s*--> .*?:(\d+):\d+", l) or re.match(r"^(\d+)\s*\|", l)
            if m:
                cur[1].append(int(m.group(1)))
    return [e for e in out if not e[0].startswith("aborting due to")]


OBLIGATION = re.compile(
    r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|"
    r"possible arithmetic|possible division|could not prove termination|decreases not satisfied|"
    r"possible bit shift|recommendation|unable to prove|failed this|not satisfied|index out of bounds|"
    r"possible|requires not satisfied|assert_by|assert_forall|constructed value may fail")
RLIMIT = re.compile(r"[Rr]esource limit|rlimit|timed out|canceled")


def fn_spans(path):
    """(start,end,name) of every fn in the generated file (specs and lemmas included)"""
    spans = []
    name_re = re.compile(r"^\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:open |closed |broadcast |uninterp )*(?:proof |spec |exec |axiom )*fn (\w+)")
    lines = open(path).read().splitlines()
    for i, l in enumerate(lines, 1):
        m = name_re.match(l)
        if m:
            if spans:
                spans[-1][1] = i - 1
            spans.append([i, len(lines), m.group(1)])
    return spans


def run_verus(path, rlimit, extra=()):
    t = time.time()
    cmd = ["verus", path, "--output-json", "--time-expanded", "--multiple-errors", "4", "--rlimit", str(rlimit), *extra]
    env = dict(os.environ)
    rc, so, se = sh(cmd, 600, cwd=os.path.dirname(path), env=env)
    try:
        j = json.loads(so[so.index("{"):])
    except Exception:
        j = {}
    return dict(rc=rc, json=j, stderr=se, wall=time.time() - t, cmd=" ".join(cmd))


def analyse(res, path):
    """-> (status, failures) status in ok|failed|undecided"""
    vr = res["json"].get("verification-results", {})
    if vr.get("success") and vr.get("errors") == 0 and vr.get("verified", 0) > 0:
        return "ok", []
    errs = parse_errors(res["stderr"], path)
    if not vr or vr.get("encountered-vir-error") or "verified" not in vr or (vr.get("verified", 0) + vr.get("errors", 0)) == 0:
        return "undecided", [dict(msg=e[0], fn="?", text="\n".join(e[2][:12])) for e in errs] or [dict(msg="verifier gave no result", fn="?", text=res["stderr"][-1500:])]
    spans = fn_spans(path)
    fails, und = [], []
    for msg, lines, text in errs:
        fns = []
        # the enclosing function of the program point where it fails: the last mentioned line is the
        # exit / call; the first one is the clause. Prefer spans that are exec functions.
        for ln in lines:
            for s, e, n in spans:
                if s <= ln <= e and n not in fns:
                    fns.append(n)
        f = dict(msg=msg, fns=fns, lines=lines, text="\n".join(text[:20]))
        if RLIMIT.search(msg):
            und.append(f)
        elif OBLIGATION.search(msg):
            fails.append(f)
        else:
            und.append(f)
    if fails:
        return "failed", fails
    return "undecided", und


def smt_ms(j):
    try:
        return j["times-ms"]["verification"]["smt"]["smt-run"]
    except Exception:
        try:
            return j["times-ms"]["smt"]["smt-run"]
        except Exception:
            return 0


def count_queries(path, out):
    """assertion-level obligations: labelled assertions in the final AIR"""
    d = os.path.join(out, "log")
    shutil.rmtree(d, ignore_errors=True)
    sh(["verus", path, "--log-dir", d, "--log", "air"], 300, cwd=out)
    n = 0
    if os.path.isdir(d):
        for root, _, fs in os.walk(d):
            for f in fs:
                txt = open(os.path.join(root, f), errors="replace").read()
                n += len(re.findall(r"^\s*\(assert$", txt, re.M)) + 0
        shutil.rmtree(d, ignore_errors=True)
    return n


def extract(unit, out):
    rs, js = os.path.join(out, unit + ".rs"), os.path.join(out, unit + ".json")
    rc, so, se = sh([VX, REPO, os.path.join(HERE, "units", unit + ".vx"), rs, js], 120)
    try:
        rep = json.load(open(js))
    except Exception:
        rep = dict(functions=[], problems=[f"extractor failed: {se[-500:]}"], drops=[], types=[])
    if rc not in (0, 2):
        rep["problems"].append(f"extractor exit {rc}: {se[-500:]}")
    return rs, rep


def probe_vacuity(unit, rs, rep, out):
    """put `assert(false)` at the start of every function body under contract: each must fail"""
    lines = open(rs).read().splitlines()
    want = []
    for f in rep["functions"]:
        if f["trusted"]:
            continue
        # the body brace: first line that is exactly "{" after the fn header within the span
        s, e = f["start"], f["end"]
        depth_line = None
        for i in range(s - 1, min(e, len(lines))):
            if lines[i].strip() == "{" and any("fn " in x for x in lines[s - 1:i]):
                depth_line = i
                break
        if depth_line is None:
            continue
        lines[depth_line] = "{ proof { assert(false); }"
        want.append((f["path"].split("::")[-1], depth_line + 1))
    p = os.path.join(out, unit + "_probe.rs")
    open(p, "w").write("\n".join(lines) + "\n")
    res = run_verus(p, 10)
    errs = parse_errors(res["stderr"], p)
    failed_lines = set()
    for msg, ls, _ in errs:
        failed_lines.update(ls)
    vac = [n for n, ln in want if ln not in failed_lines]
    os.remove(p)
    return len(want), vac


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)$", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    cfg = PROPS[prop]
    t0 = time.time()
    out = os.path.join(HERE, "out", prop)
    os.makedirs(out, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    build_vx()
    thorough = TIER == "thorough"
    undecided, failures, funcs, trusted, drops, cmds = [], [], [], [], [], []
    obligations = discharged = 0
    asserts = 0
    solver_ms = 0
    probes = 0
    pool = ThreadPoolExecutor(8)

    def work(unit):
        rs, rep = extract(unit, out)
        if not os.path.exists(rs):
            return rs, rep, None, None
        probe = pool.submit(probe_vacuity, unit, rs, rep, out) if not rep["problems"] else None
        return rs, rep, run_verus(rs, 60 if thorough else 30), probe

    with ThreadPoolExecutor(4) as p:
        done = dict(zip(cfg["units"], p.map(work, cfg["units"])))
    for unit, want in cfg["units"].items():
        rs, rep, res, probe = done[unit]
        drops += [d for d in rep["drops"] if d not in drops]

        def mine(n):
            return want == "*" or any(fnmatch.fnmatch(n, w) for w in want)
        probs = []
        for p in rep["problems"]:
            head = p.split(":")
            fname = p.split(": ")[0].split("::")[-1]
            names = [f["path"].split("::")[-1] for f in rep["functions"]]
            if fname in names and not mine(fname):
                # belongs to another property; but the file may not verify as a whole
                pass
            probs.append(p)
        if probs:
            undecided += [f"{unit}: {p}" for p in probs]
        if not os.path.exists(rs):
            continue
        cmds.append(res["cmd"])
        st, fl = analyse(res, rs)
        vr = res["json"].get("verification-results", {})
        solver_ms += smt_ms(res["json"])
        breakdown = []
        try:
            for m in res["json"]["times-ms"]["verification"]["smt"]["smt-run-module-times"]:
                breakdown += m["function-breakdown"]
        except Exception:
            try:
                for m in res["json"]["times-ms"]["smt"]["smt-run-module-times"]:
                    breakdown += m["function-breakdown"]
            except Exception:
                pass
        for b in breakdown:
            n = b["function"].split("::")[-1]
            if mine(n) or b.get("mode:") != "exec":
                obligations += 1
                discharged += 1 if b.get("success") else 0
        for f in rep["functions"]:
            n = f["path"].split("::")[-1]
            if mine(n):
                if f.get("imported"):
                    trusted.append(f"contract of {f['path']} is proved in unit {f['imported']} (checked by its own property), used here without re-proving")
                elif f["trusted"]:
                    trusted.append(f"assumed contract (body not verified): {f['path']} in {f['file']}")
                else:
                    funcs.append(dict(function=f["path"], file=f["file"], inlined_helpers=f["inlined"]))
        if st == "undecided":
            undecided += [f"{unit}: {x['msg']}" for x in fl]
        elif st == "failed":
            for x in fl:
                if want == "*" or not x["fns"] or any(mine(n) for n in x["fns"]):
                    failures.append((unit, x))
        if st == "ok" and not probs:
            n, vac = probe.result()
            probes += n
            if vac:
                undecided.append(f"{unit}: contract of {vac} is vacuous (assert(false) at its start verifies)")
        txt = open(rs).read()
        for m in re.finditer(r"(assume_specification[^;{]*|#\[verifier::external_body\]\s*(?:pub )?(?:proof |broadcast )*(?:fn|struct) \w+|axiom fn \w+|\badmit\(\)|\bassume\()", txt):
            s = " ".join(m.group(1).split())
            if s not in trusted:
                trusted.append(s[:160])
        if re.search(r"\badmit\(\)|\bassume\(", txt):
            undecided.append(f"{unit}: contains assume/admit")

    # ---- concrete search on the real code
    rp = cfg.get("replay")
    known = known_findings(prop)
    finding, rstats = None, None
    need = "full" if (failures or undecided) else ("bounded" if cfg.get("always_replay") or known else None)
    if rp:
        if need or thorough:
            budget = dict(full=3, bounded=1).get(need, 1) * (20 if thorough else 1)
            finding, rstats = replaylib.run(rp, REPO, HERE, out, SEED, budget, known, sh)
        if rstats and rstats.get("known"):
            for k, what in known:
                if k in rstats["known"]:
                    print(f"KNOWN-FINDING: property={prop} {what}")
    else:
        for k, what in known:
            print(f"KNOWN-FINDING: property={prop} {what}")

    violation = None
    rpath = os.path.join(out, "replay.txt")
    if finding:
        violation = "input"
        open(rpath, "w").write("failing input on the real code (reproduce: %s)\n\n%s\n\nfailed obligations:\n%s\n" % (
            rstats.get("cmd", ""), finding, "\n".join(f"{u}: {x['msg']} in {x['fns']}\n{x['text']}" for u, x in failures)))
        print(f"VIOLATION property={prop} replay={rpath}")
    elif failures and not undecided:
        violation = "obligation"
        open(rpath, "w").write("obligation(s) that the verifier no longer accepts:\n\n" + "\n".join(
            f"{u}: {x['msg']} in {x['fns']}\n{x['text']}\n" for u, x in failures) + f"\nconcrete search: {rstats}\n")
        print(f"VIOLATION property={prop} replay={rpath} no-failing-input-found")
    proved = not failures and not undecided
    if not violation:
        if proved:
            print(f"{prop}: proved: {discharged}/{obligations} obligations discharged by Verus/Z3, {len(funcs)} functions under contract, {probes} vacuity probes failed as they must")
        else:
            print(f"{prop}: NOT PROVED on this tree (verifier could not be applied), bounded stand-in found nothing:")
            for u in undecided[:20]:
                print("   ", u)
            for u, x in failures[:10]:
                print("    open obligation:", u, x["msg"], x["fns"])
    bounded = cfg.get("bounded", [])
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd="; ".join(cmds), trusted_base=TRUST["common"] + cfg.get("trust", []) + trusted,
        functions_under_contract=funcs, vacuity_probes=probes, solver_ms=solver_ms, backend="Verus 0.2026.09.13 / Z3 (bundled)",
        extraction_drops=drops, undecided=undecided, open_obligations=[f"{u}: {x['msg']} in {x['fns']}" for u, x in failures],
        bounded_standins=bounded,
    )
    if rstats:
        cov["bounded_search"] = {k: v for k, v in rstats.items() if k != "known"}
    level = "proof"
    if not proved:
        level = "other"
        cov["explanation"] = ("the deductive proof did not go through on this tree; " +
                              ("violation reported" if violation else "only the bounded search on the real code was done"))
    ev = dict(property=prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level, coverage=cov,
              assumptions=TRUST["common"] + cfg.get("trust", []) + trusted + [f"bounded, not proved: {b}" for b in bounded],
              wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    sys.exit(1 if violation else 0)


main()
