#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's current tree.

Mirrors and compiles /repo with the harnesses to LLVM IR, executes every entry of the property
symbolically, lets the SMT solver decide each assertion on each path, replays every counterexample
(and one witness per reachability mark) against the native build of the same tree with the real
dependencies, and writes evidence/PROPERTY.json.  Exit 0: held; 1: VIOLATION; 2: could not decide.
"""
import fcntl, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import spec

V = "/verif"
B = V + "/build"


def say(*a):
    print(*a, flush=True)


def build(which):
    p = subprocess.run(["bash", V + "/build.sh", which], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def known():
    out = []
    for l in open(V + "/known-findings.txt"):
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l.strip())
        if m:
            out.append(m.groups())
    return out


def write_log(path, nd, sched, comment):
    with open(path, "w") as f:
        for c in comment:
            f.write("# " + c.replace("\n", " ") + "\n")
        for _, h in nd:
            f.write(h + "\n")
        if sched:
            f.write("sched " + " ".join(map(str, sched)) + "\n")


def replay(entry, log, limit=60, clock_ms=0):
    """-> (outcome, text) with outcome one of 'violation <id>', 'done', 'other'."""
    d = tempfile.mkdtemp(prefix="vxreplay.", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    env = dict(os.environ, VX_DIR=d, RUST_BACKTRACE="0", VX_CLOCK_MS=str(clock_ms))
    try:
        p = subprocess.run(["bash", "-c", "ulimit -v 12000000; exec \"$0\" \"$@\"", B + "/native/debug/replay", entry, log],
                           cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit)
        t = p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return "violation no-end", (e.stdout or b"").decode(errors="replace") + "\n(no end within %d s)" % limit
    finally:
        shutil.rmtree(d, ignore_errors=True)
    m = re.search(r"^REPLAY-VIOLATION (.*)$", t, re.M)
    if m:
        return "violation " + m.group(1), t
    if "REPLAY-DONE" in t:
        return "done", t
    if "REPLAY-ASSUMPTION-FAILED" in t:
        return "unfit", t
    if p.returncode < 0 or p.returncode in (134, 137, 139, 101):
        return "violation abort", t
    if "REPLAY-" not in t:
        # the code under check ended the process
        return "violation exit", t
    return "other", t


def engine(cmd, out, limit, tmp):
    """Runs the engine and whatever it forks; -> its report or None, and what it said."""
    log = tmp + "/engine.log"
    with open(log, "w") as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            rc = "no end"
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    shutil.rmtree("/tmp/symir.%d" % p.pid, ignore_errors=True)
    t = open(log, errors="replace").read()
    try:
        return json.load(open(out)), t
    except Exception as ex:
        return None, "%s, exit %s: %s" % (ex, rc, t[-1500:])


def there(entry, which):
    """Whether a build has what an entry runs: the server's program, the model of tikv-client."""
    need = [""] if entry.startswith("h_bin_") else [".tikv"] if entry.startswith("h_tk_") else []
    if entry == "h_tk_program":
        need = ["", ".tikv"]
    return all(os.path.exists(B + "/bin/" + which + x) for x in need)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    pr = spec.PROPS[pid]
    t0 = time.time()
    os.makedirs(B, exist_ok=True)
    os.makedirs(V + "/evidence/replays", exist_ok=True)
    for f in glob.glob(V + "/evidence/replays/%s-*" % pid):
        os.remove(f)
    with open(B + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(B + "/engine/release/symir"):
            rc, out = build("engine")
            if rc:
                say(out[-3000:]); say("ERROR engine does not build"); return 2
        rc, out = build("sym")
        if rc:
            say(out[-4000:]); say("ERROR the harnesses do not build with this tree"); return 2
    ll = max(glob.glob(B + "/sym/release/deps/vhsym-*.ll"), key=os.path.getmtime)
    nat = {}
    th = threading.Thread(target=lambda: nat.update(r=build("native")))
    th.start()

    entries = list(pr["entries"]) + (list(pr.get("thorough", [])) if tier == "thorough" else [])
    scale = 1 if tier == "quick" else pr.get("scale", 6)
    res, problems, viols, gaps = [], [], [], []
    tmp = tempfile.mkdtemp(prefix="vxrun.")
    for e in entries:
        name, secs = e[0], e[1] * scale
        if not there(name, "sym"):
            gaps.append("%s: the tree does not build with the server's program or the model of tikv-client among the harnesses" % name)
            continue
        out = "%s/%s.json" % (tmp, name)
        cmd = [B + "/engine/release/symir", "run", "--ll", ll, "--entry", name, "--out", out, "--timeout", str(secs),
               "--jobs", "8", "--query-ms", "30000" if tier == "quick" else "120000", "--max-viol", "4",
               "--max-steps", "200000000" if name.startswith("h_sc_") else "6000000"] + (e[2] if len(e) > 2 else [])
        j = None
        for attempt in range(2):
            j, why = engine(cmd, out, secs + 180, tmp)
            if j is not None and not any("lost" in k for k in j["errors"]):
                break
            say("%s: engine failed: %s" % (name, why))
        if j is None:
            problems.append("%s: engine failed: %s" % (name, why))
            continue
        res.append(j)
        viols += [(name, v) for v in j["violations"]]
        soft = ("time limit", "solver gave no answer")
        for k, n in j["errors"].items():
            if not k.startswith(soft):
                # paths given up: what the others showed stands, the evidence says what is left out
                (gaps if j["completed"] else problems).append("%s: %s (%d paths given up)" % (name, k, n))
        if not j["violations"]:
            for r in (e[3] if len(e) > 3 else pr.get("reach", [])):
                if r not in j["reach"]:
                    (gaps if j["incomplete"] else problems).append("%s: nothing reached %s" % (name, r))
            if j["completed"] == 0:
                problems.append("%s: no path ran to its end" % name)
        say("%s: %d paths, %d queries (%d unsat), %.1f s%s%s" % (name, j["completed"], j["queries"], j["unsat"], j["seconds"],
            ", INCOMPLETE" if j["incomplete"] else "", ", VIOLATIONS " + str(j["violations_seen"]) if j["violations"] else ""))
    th.join()
    rc, out = nat["r"]
    if rc:
        say(out[-4000:]); problems.append("the native replay does not build")

    # (programs that only one of the two builds has are not compared)
    res_n = [j for j in res if rc or there(j["entry"], "native")]

    # counterexamples: report what the real code reproduces
    reported, seen, found_known, slow, n = [], set(), set(), [], 0
    if not rc:
        for name, v in viols:
            key = (name, v["id"])
            if key in seen:
                continue
            n += 1
            log = V + "/evidence/replays/%s-%d.txt" % (pid, n)
            write_log(log, v["nd"], v["sched"], ["property %s, entry %s, %s" % (pid, name, v["id"]), v["msg"], v["notes"],
                                                 "replay: %s/native/debug/replay %s <this file>  (VX_DIR=a scratch directory)" % (B, name)])
            o, t = replay(name, log, 30)
            if not o.startswith("violation"):
                # what happens within one instant of the clock happens within one of a coarser clock
                o, t2 = replay(name, log, 30, 100)
                t = t + "\n(with a clock of 100 ms:) " + t2
                if o.startswith("violation"):
                    with open(log, "a") as f:
                        f.write("# VX_CLOCK_MS=100\n")
            if o == "other" and v["id"] == "panic" and any("panicked at " + x in t for x in re.findall(r"panic at (\S+:\d+:\d+)", v["msg"])):
                # in a thread of the code's own, without which the run went on beyond its inputs
                o = "violation panic"
            if not o.startswith("violation"):
                # more than one counterexample may be on file for this assertion
                if v["id"] == "no-end":
                    # long, but it ends: a path not explored to its end
                    slow.append(name)
                    gaps.append("%s: %s, but natively it ends" % (name, v["msg"][:200]))
                elif not any(name == a and v["id"] == b["id"] and b is not v for a, b in viols[viols.index((name, v)) + 1:]):
                    problems.append("%s: counterexample for %s does not reproduce: %s" % (name, v["id"], t[-300:]))
                continue
            seen.add(key)
            got = o.split(" ", 1)[1]
            with open(log, "a") as f:
                f.write("# real code: " + got + "\n")
            k = [x for x in known() if x[0] == pid and x[1] in (v["id"], got)]
            if k:
                found_known.add(k[0])
            else:
                reported.append((v["id"], log, v["msg"], name))
    # witnesses: what the symbolic execution says can happen does happen natively
    validated, samples = 0, []
    if not rc:
        for j in res_n:
            ends = sorted(j["ends"], key=lambda e: -len([1 for _, h in e["nd"] if h.strip("0")]))[:8]
            todo = [("", e["nd"], e["sched"]) for e in ends]
            if not any(e["sched"] for e in ends):
                todo += [(mark, nd, []) for mark, nd in sorted(j["witness"].items())[:4]]
            good, bad = 0, []
            for mark, nd, sched in todo:
                log = "%s/w.txt" % tmp
                write_log(log, nd, sched, [])
                for _ in range(3):
                    # (harnesses that live by the clock may find that too much time went by)
                    o, t = replay(j["entry"], log, 60)
                    if o == "done":
                        break
                if o == "unfit":
                    continue
                if o.startswith("violation"):
                    got = o.split(" ", 1)[1]
                    if any(x[0] == pid and x[1] == got for x in known()) or any(r[0] == got or r[3] == j["entry"] for r in reported):
                        continue
                    if any(a == j["entry"] for a, _ in viols) and j["entry"] not in slow:
                        continue
                    n += 1
                    keep = V + "/evidence/replays/%s-%d.txt" % (pid, n)
                    shutil.copy(log, keep)
                    reported.append((got, keep, "the real code fails %s on an assignment the solver made for another path" % got, j["entry"]))
                elif o == "done" if not mark else "REACHED " + mark in t:
                    validated += 1
                    good += 1
                    if len(samples) < 6 and mark == "":
                        samples.append({"entry": j["entry"], "assignment": [h for _, h in nd][:24], "schedule": sched, "native": "ran to its end, no violation"})
                else:
                    bad.append("%s: %s natively: %s" % (j["entry"], "mark %s not reached" % mark if mark else "a path does not end", t[-200:]))
            # one assignment that goes another way natively (time, hashing) is reported; none that goes the same way is a failure
            (gaps if good else problems).extend(bad)
    shutil.rmtree(tmp, ignore_errors=True)

    fns = {}
    for j in res:
        for f, m in j["coverage"].items():
            for k, l in m.items():
                fns.setdefault(f, {}).setdefault(k, set()).update(x for x in l if x)
    tot = lambda k: sum(j[k] for j in res)
    cov = {
        "states": tot("completed"), "transitions": tot("instructions"), "traces_validated_against_impl": validated,
        "samples": samples or [{"entry": j["entry"], "paths": j["completed"]} for j in res][:4],
        "exhaustive": not problems and not gaps and all(j["incomplete"] == 0 for j in res),
        "meaning": "states = paths executed symbolically to their end; transitions = IR instructions executed; validated = solver assignments replayed on the native build",
        "functions_encoded": {f: {k: len(l) for k, l in sorted(m.items())} for f, m in sorted(fns.items()) if "src/proto" not in f},
        "bounds": pr["bounds"], "outside": pr["outside"],
        "solver": res[0]["solver"] if res else "", "queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"),
        "answered_by_cached_model": tot("model_hits"), "solver_s": round(tot("solver_ms") / 1000, 2),
        "assertions_evaluated": {k[7:]: sum(j["reach"].get(k, 0) for j in res) for k in sorted({k for j in res for k in j["reach"] if k.startswith("assert:")})},
        "entries": [{k: j[k] for k in ("entry", "seconds", "paths", "completed", "killed", "forks", "incomplete", "queries", "unsat", "unknown")} for j in res],
        "problems": problems[:20], "gaps": gaps[:20],
        "known_findings": [" ".join(k) for k in sorted(found_known)],
    }
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov,
          "assumptions": spec.ASSUME + pr.get("assume", []), "wall_s": round(time.time() - t0, 1), "violations": len(reported)}
    with open(V + "/evidence/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(found_known):
        say("KNOWN-FINDING: property=%s %s %s" % k)
    for i, log, msg, name in reported:
        say("  %s in %s: %s" % (i, name, msg[:400]))
        say("VIOLATION property=%s replay=%s" % (pid, log))
    for p in gaps:
        say("GAP " + p)
    for p in problems:
        say("PROBLEM " + p)
    if reported:
        return 1
    return 2 if problems else 0


if __name__ == "__main__":
    sys.exit(main())
