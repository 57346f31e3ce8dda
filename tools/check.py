#!/usr/bin/env python3
"""Decide one property: build the harness against /repo's working tree, run its phases,
judge how each ended, write evidence/<id>.json.

usage: check.py <property id> [--case PHASE/NAME]
exit 0: held on everything explored; 1: VIOLATION line printed; 2: no verdict."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
sys.path.insert(0, os.path.join(VERIF, "tools"))
from phases import PHASES, RULES

def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", HOME=e.get("HOME") or "/root")
    e["PATH"] = "/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.pop("GOTRACEBACK", None)
    return e

def build(work, race):
    out = os.path.join(work, "race.test" if race else "plain.test")
    cmd = ["go", "test", "-c", "-o", out] + (["-race"] if race else []) + ["."]
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout)
        print("NO-VERDICT: the harness does not build against /repo")
        sys.exit(2)
    return out

def lib_frames(text):
    return re.findall(r"^\s+(%s/[^\s:]+\.go:\d+)" % REPO, text, re.M)

def first_stack(err):
    """the stack of the goroutine that crashed"""
    m = re.search(r"^(panic:|fatal error:|SIG\w+:)", err, re.M)
    if not m:
        return ""
    rest = err[m.start():]
    parts = re.split(r"\n\n(?=goroutine \d+)", rest)
    return "\n\n".join(parts[:2])

def deadlocked(err):
    """both dumps of a stall show nothing that can run"""
    dumps = re.split(r"^=== dump \d\n", err, flags=re.M)[1:]
    if len(dumps) < 2:
        return False
    for d in dumps:
        blocked_in_lib = False
        for g in re.split(r"\n\n(?=goroutine )", d):
            m = re.match(r"goroutine \d+ [^\[]*\[([^\]]*)\]", g.strip())
            if not m:
                continue
            if "watchdog" in g:
                continue
            state = m.group(1).split(",")[0]
            if state in ("running", "runnable", "syscall", "sleep", "IO wait") or state.startswith("sleep"):
                return False
            if REPO + "/" in g:
                blocked_in_lib = True
        if not blocked_in_lib:
            return False
    return True

def run_phase(binary, test, work, tier, seed, case, timeout):
    out = os.path.join(work, test + ".json")
    errf = os.path.join(work, test + ".err")
    for f in (out, errf):
        if os.path.exists(f):
            os.unlink(f)
    scratch = tempfile.mkdtemp(prefix="s", dir=work)
    e = env()
    e.update(VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_OUT=out, VERIF_SCRATCH=scratch,
             GORACE="halt_on_error=1 exitcode=66 history_size=3", GOTRACEBACK="all")
    e.pop("VERIF_CASE", None)
    if case:
        e["VERIF_CASE"] = case
    with open(errf, "w") as ef:
        p = subprocess.Popen([binary, "-test.run", "^Test%s$" % test, "-test.timeout", "0"],
                             cwd=scratch, env=e, stdout=ef, stderr=subprocess.STDOUT,
                             start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            rc = "timeout"
    with open(errf, errors="replace") as f:
        err = f.read(8 << 20)
    shutil.rmtree(scratch, ignore_errors=True)
    try:
        res = json.load(open(out))
    except Exception:
        res = None
    return rc, err, res

def judge(rc, err, res):
    """-> (verdict, message); verdict: held | violated | maybe | none"""
    if rc == 0:
        if res is None or res.get("distinct", 0) == 0:
            return "none", "the phase observed nothing"
        return "held", ""
    if rc == 10 and res:
        return "violated", res.get("violation") or "?"
    if "WARNING: DATA RACE" in err:
        if lib_frames(err):
            return "violated", "data race: " + " / ".join(list(dict.fromkeys(lib_frames(err)))[:4])
        return "none", "data race outside of the library"
    if rc == 11:
        m = "no progress"
        if deadlocked(err):
            return "violated", "deadlock: every goroutine is blocked"
        return "maybe", m
    st = first_stack(err)
    if st:
        head = st.split("\n", 1)[0]
        if lib_frames(st) or ("all goroutines" in head and lib_frames(err)):
            return "violated", head + " at " + " / ".join((lib_frames(st) or lib_frames(err))[:3])
        if "deadlock" in head and lib_frames(err):
            return "maybe", head
        return "none", "crash outside of the library: " + head
    if rc == "timeout":
        return "maybe", "the run did not end in time"
    if rc == 1:
        tail = err.strip().split("\n")[-1] if err.strip() else ""
        return "maybe", "the library ended the process: " + tail
    return "none", "exit %s" % rc

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    only_phase = only_case = None
    if "--thorough" in sys.argv:
        tier = "thorough"
    if "--case" in sys.argv:
        only_phase, only_case = sys.argv[sys.argv.index("--case") + 1].split("/", 1)
    t0 = time.time()
    phases = PHASES[prop]
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    evid = os.path.join(VERIF, "evidence")
    os.makedirs(evid, exist_ok=True)
    replay = os.path.join(evid, "replay-%s.txt" % prop)
    if os.path.exists(replay):
        os.unlink(replay)
    cov = dict(evaluations=0, distinct_nontrivial=0, rule=RULES[prop], samples=[], phases={})
    verdict, notes = "held", []
    try:
        bins = {}
        for ph in phases:
            test, race = ph["test"], ph["race"]
            if only_phase and test != only_phase:
                continue
            if race not in bins:
                bins[race] = build(work, race)
            reps = ph.get("reps", {}).get(tier, 1)
            for rep in range(reps):
                s = seed + 1000 * rep
                limit = 280 if tier == "quick" else 3000
                tries, got = 0, []
                while True:
                    tries += 1
                    rc, err, res = run_phase(bins[race], test, work, tier, s, only_case, limit)
                    v, msg = judge(rc, err, res)
                    got.append((v, msg, rc, err, res))
                    # not conclusive by itself: the same run has to show it again
                    if v in ("held", "violated") or tries >= 2:
                        break
                if v == "maybe" and all(g[0] in ("maybe", "violated") for g in got):
                    v = "violated"
                if v == "held" and tries > 1:
                    notes.append("%s: first run gave no verdict (%s), repeated run held" % (test, got[0][1]))
                if res:
                    cov["evaluations"] += res.get("evaluations", 0)
                    cov["distinct_nontrivial"] += res.get("distinct", 0)
                    cov["samples"] += (res.get("samples") or [])[:2] if rep == 0 else []
                    p = cov["phases"].setdefault(test, dict(race_detector=race, runs=0))
                    p["runs"] += 1
                    for k, n in (res.get("metrics") or {}).items():
                        p[k] = max(p.get(k, 0), n) if k.startswith("max_") else p.get(k, 0) + n
                if v == "violated":
                    verdict = "violated"
                    case = (res or {}).get("case") or ""
                    with open(replay, "w") as f:
                        f.write("property %s, phase %s, seed %d, tier %s, case %s\n" % (prop, test, s, tier, case))
                        f.write("rerun: cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3 tools/check.py %s%s\n\n"
                                % (s, tier, prop, " --case %s/%s" % (test, case) if case else ""))
                        f.write("violation: %s\n\n" % msg)
                        for l in (res or {}).get("history") or []:
                            f.write(l + "\n")
                        f.write("\n--- stderr\n" + err[:200000])
                    print("%s: %s: %s" % (prop, test, msg[:1500]))
                    break
                if v != "held":
                    verdict = "none"
                    print("%s: %s: no verdict: %s" % (prop, test, msg))
                    sys.stdout.write(err[-3000:])
                    break
            if verdict != "held":
                break
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
              wall_s=round(time.time() - t0, 2), violations=1 if verdict == "violated" else 0,
              assumptions=["Go race detector and testing/synctest of go 1.27",
                           "harness oracles in /verif/harness"] + notes)
    with open(os.path.join(evid, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if verdict == "violated":
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        sys.exit(1)
    if verdict == "none":
        sys.exit(2)
    print("%s held: %d executions, %d distinct, %.1fs" % (prop, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"]))
    sys.exit(0)

main()
