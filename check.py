#!/usr/bin/env python3
"""Decide one property of xml_dom by symbolic execution of its compiled code.

  check.py PROPERTY [--tier quick|thorough]
  check.py --replay FILE          re-run a recorded counterexample natively

The harness entries of the property (props.py) are compiled with /repo's current source to LLVM
IR; the engine in engine/ executes them symbolically and asks Z3 about every branch and assertion.
Counterexamples are replayed against a native build before they are reported.
Exit: 0 held, 1 VIOLATION, 2 the check could not decide.
"""
import glob, json, os, re, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props

T0 = time.time()
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)
BUILD = os.path.join(HERE, "build")
JOBS = str(max(1, min(8, os.cpu_count() or 1)))
HASH_STUB = "BuildHasher>::hash_one"


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def run(cmd, cwd=None, env=None, timeout=None):
    """run in an own process group, so that everything it started can be ended"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return None, out, err


def cargo(args, cwd, target, tier):
    env = dict(ENV, CARGO_TARGET_DIR=target)
    if tier == "thorough":
        env["HARNESS_TIER"] = "thorough"
    rc, out, err = run(["cargo"] + args, cwd=cwd, env=env, timeout=600)
    if rc != 0:
        errs = [l for l in err.splitlines() if l.startswith("error")][:12]
        return "cargo %s: %s\n%s" % (" ".join(args[:4]), rc, "\n".join(errs) or err[-1500:])
    return None


def build_engine():
    return cargo(["build", "--release", "--offline", "-q"], HERE + "/engine", BUILD + "/engine", "")


FEATURES = ""  # features of the harness that the property needs ("parser")


def build_ir(tier):
    e = cargo(["rustc", "--release", "--bin", "h", "--offline", "-q", "--features", FEATURES, "--", "--emit=llvm-ir", "-C", "linker=true"],
              HERE + "/harness", BUILD + "/ir-" + tier + FEATURES, tier)
    return e


def ir_file(tier):
    c = glob.glob(BUILD + "/ir-%s/release/deps/h-*.ll" % (tier + FEATURES))
    if not c:
        die("no IR was emitted")
    return max(c, key=os.path.getmtime)


def build_native(tier, profile):
    return cargo(["build", "--profile", profile, "--features", "replay," + FEATURES, "--bin", "h", "--offline", "-q"],
                 HERE + "/harness", BUILD + "/native-" + tier + FEATURES, tier)


def native(tier, profile):
    return BUILD + "/native-%s/%s/h" % (tier + FEATURES, profile)


def encode(values):
    return " ".join("%s:%d:%s" % (n, w, v) for n, w, v in values)


def replay_lines(tier, profile, entry, only, lines, timeout):
    """native results, one per line; the process may die on a line (crash, hang)"""
    res = []
    todo = list(lines)
    f = BUILD + "/replay-%d-%d.txt" % (os.getpid(), threading.get_ident())
    while todo:
        with open(f, "w") as h:
            h.write("\n".join(todo) + "\n")
        rc, out, err = run([native(tier, profile), entry, f], env=dict(ENV, HARNESS_ONLY=only), timeout=timeout)
        got = [l.split("\t") for l in out.splitlines() if "\t" in l]
        got = got[: len(todo)]
        res += got
        todo = todo[len(got):]
        if todo:
            if rc == 0:
                die("replay printed too few results")
            why = "hang" if rc is None else "crash %s %s" % (rc, err.strip()[-200:].replace("\n", " "))
            res.append([why, "", ""])
            todo = todo[1:]
    if os.path.exists(f):
        os.unlink(f)
    return res


def load_known(prop):
    """known_findings.txt: 'finding: property=P18 assert=P18.x what fails' / 'fixed: ...'"""
    known = {}
    p = HERE + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) assert=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3).strip()
    return known


def reach_ids(prop):
    """the witnesses that the harness declares for a property"""
    ids = set()
    for f in glob.glob(HERE + "/harness/src/*.rs"):
        ids |= set(re.findall(r'(?:reach\(|panic_id\("\+|[^.\w]W\()"?(%s\.[\w.-]+)"' % prop, open(f).read()))
    return ids


def merge(parts):
    t = {"incomplete": {}, "reached": {}, "asserts": {}, "functions": set(), "violations": [], "samples": []}
    for p in parts:
        d = json.load(open(p))
        for k, v in d.items():
            if k in ("functions",):
                t[k] |= set(v)
            elif k in ("violations", "samples"):
                t[k] += v
            elif isinstance(v, dict):
                for a, b in v.items():
                    t[k][a] = t[k].get(a, 0) + b
            elif isinstance(v, (int, float)):
                t[k] = max(t.get(k, 0), v) if k in ("max_query_s", "nfuncs") else t.get(k, 0) + v
    return t


def check_replay(path):
    global FEATURES
    lines = open(path).read().splitlines()
    h = dict(l[2:].split("=", 1) for l in lines if l.startswith("# ") and "=" in l)
    line = [l for l in lines if l and not l.startswith("#")] or [""]
    FEATURES = props.PROPS[h["property"]].get("features", "")
    for profile in ("replay", "replayrel"):
        e = build_native(h["tier"], profile)
        if e:
            die(e)
        r = replay_lines(h["tier"], profile, h["entry"], h["property"] + ".", [line[0]], 60)
        print(profile, r[0][0])
    sys.exit(0)


def cross_check(dump, limit=40):
    """the solver's verdicts again, by other solvers"""
    done = agree = 0
    bad = []
    t = 0.0
    for f in sorted(glob.glob(dump + "/*.smt2"))[:limit]:
        verdict = "unsat" if f.endswith("-unsat.smt2") else "sat"
        for cmd in (["cvc5", "--tlimit=20000", f], ["z3-new", "-T:20", f]):
            s = time.time()
            rc, out, err = run(cmd, timeout=40)
            t += time.time() - s
            v = (out.strip().splitlines() or ["?"])[0]
            if v in ("sat", "unsat"):
                done += 1
                if v == verdict:
                    agree += 1
                else:
                    bad.append((f, cmd[0], v, verdict))
    return {"queries": done, "agree": agree, "seconds": round(t, 1)}, bad


def main():
    global FEATURES
    a = sys.argv[1:]
    if a[:1] == ["--replay"]:
        check_replay(a[1])
    prop = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = props.PROPS[prop]
    FEATURES = spec.get("features", "")
    entries = spec["entries"]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(HERE + "/evidence/replay", exist_ok=True)
    if os.path.exists(HERE + "/evidence/%s.json" % prop):
        os.unlink(HERE + "/evidence/%s.json" % prop)

    errs = {}
    def job(k, f, *x):
        errs[k] = f(*x)
    th = [threading.Thread(target=job, args=("engine", build_engine)),
          threading.Thread(target=job, args=("ir", build_ir, tier)),
          threading.Thread(target=job, args=("native", build_native, tier, "replay"))]
    [t.start() for t in th]
    [t.join() for t in th]
    for k, e in errs.items():
        if e:
            die(e)
    ll = ir_file(tier)
    build_s = time.time() - T0

    known = load_known(prop)
    budget = spec.get("time", {}).get(tier, 420 if tier == "quick" else 3000)
    deadline = T0 + build_s + budget
    per = {}
    dump = None
    for i, entry in enumerate(entries):
        out = BUILD + "/out-%s-%s" % (prop, entry)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        left = max(20, (deadline - time.time()) / (len(entries) - i) if i + 1 < len(entries) else deadline - time.time())
        # what earlier entries did not use is shared by those that remain
        left = max(left, min(deadline - time.time(), 240)) if tier == "quick" else left
        cmd = [BUILD + "/engine/release/symx", "--ll", ll, "--entry", entry, "--out", out, "--jobs", JOBS,
               "--hash-stub", HASH_STUB, "--time", str(int(left)), "--only", prop + ".", "--known", ",".join(known),
               "--stop-after", "12", "--solver-ms", "20000" if tier == "quick" else "120000"]
        if tier == "thorough":
            dump = BUILD + "/dump-" + prop
            if i == 0:
                shutil.rmtree(dump, ignore_errors=True)
            cmd += ["--dump", dump + "/" + entry, "--dump-n", "10"]
        t1 = time.time()
        rc, o, e = run(cmd, timeout=left + 120)
        if rc != 0:
            die("engine failed on %s: rc %s %s" % (entry, rc, (e or o)[-800:]))
        per[entry] = merge(glob.glob(out + "/part-*.json"))
        per[entry]["wall"] = time.time() - t1
        shutil.rmtree(out, ignore_errors=True)
        print("%-22s paths %d steps %d queries %d solver %.1fs wall %.1fs %s" % (
            entry, per[entry]["done"], per[entry]["steps"], per[entry]["queries"], per[entry]["solver_s"],
            per[entry]["wall"], ("INCOMPLETE %s dropped %d" % (per[entry]["incomplete"], per[entry]["dropped"]))
            if per[entry]["incomplete"] or per[entry]["dropped"] else ""), flush=True)

    # counterexamples, replayed natively
    found, known_hit, unconfirmed = {}, {}, []
    for entry, t in per.items():
        by_id = {}
        for v in t["violations"]:
            by_id.setdefault((v["id"], v["kind"]), []).append(v)
        for (vid, kind), vs in sorted(by_id.items()):
            ok = None
            for v in vs[:4]:
                line = encode(v["values"])
                for profile in ("replay", "replayrel"):
                    if profile == "replayrel":
                        e = build_native(tier, profile)
                        if e:
                            die(e)
                    r = replay_lines(tier, profile, entry, prop + ".", [line], 20)[0]
                    if r[0] == "ok" or r[0].startswith(("assume", "desync")):
                        continue
                    ok = (v, line, profile, r[0])
                    break
                if ok:
                    break
            if not ok:
                unconfirmed.append((entry, vid, kind, vs[0]["detail"], encode(vs[0]["values"]), vs[0]["stack"][:6]))
                continue
            if vid in known:
                known_hit[vid] = known[vid]
            else:
                found.setdefault(vid, (entry,) + ok)
    viols = []
    for vid, (entry, v, line, profile, res) in sorted(found.items()):
        f = HERE + "/evidence/replay/%s-%d.txt" % (prop, len(viols))
        with open(f, "w") as h:
            h.write("# property=%s\n# entry=%s\n# tier=%s\n# id=%s\n# kind=%s\n# detail=%s\n# profile=%s\n# native=%s\n# stack=%s\n%s\n" % (
                prop, entry, tier, vid, v["kind"], v["detail"].replace("\n", " "), profile, res,
                " < ".join(v["stack"][:8]), line))
        viols.append({"id": vid, "entry": entry, "kind": v["kind"], "native": res, "model": line, "replay": f})

    # sampled paths: what the engine observed against what the native code does
    validated, mismatches = 0, []
    sample_out = []
    for entry, t in per.items():
        s = t["samples"]
        step = max(1, len(s) // 40)
        s = s[::step][:40]
        if not s or viols:
            continue
        res = replay_lines(tier, "replay", entry, prop + ".", [encode(x["values"]) for x in s], 60)
        for x, r in zip(s, res):
            if r[0].startswith("assert ") and r[0][7:] in known:
                continue
            if r[0] == "ok" and r[1] == ",".join(x["obs"]):
                validated += 1
                if len(sample_out) < 8:
                    sample_out.append({"entry": entry, "inputs": encode(x["values"]), "observed": r[1][:200]})
            else:
                mismatches.append((entry, encode(x["values"]), r[:2], x["obs"]))

    reached = {}
    for t in per.values():
        for k, v in t["reached"].items():
            reached[k] = reached.get(k, 0) + v
    missing = sorted(i for i in reach_ids(prop) if not reached.get(i))
    incomplete = {e: dict(t["incomplete"], **({"paths dropped at a limit": t["dropped"]} if t["dropped"] else {}))
                  for e, t in per.items() if t["incomplete"] or t["dropped"]}
    asserts = {}
    for t in per.values():
        for k, v in t["asserts"].items():
            asserts[k] = asserts.get(k, 0) + v

    cc = None
    if tier == "thorough":
        alld = BUILD + "/dump-" + prop
        tot, bad = {"queries": 0, "agree": 0, "seconds": 0}, []
        for d in sorted(glob.glob(alld + "/*")):
            c, b = cross_check(d)
            for k in tot:
                tot[k] = round(tot[k] + c[k], 1)
            bad += b
        cc = tot
        if bad:
            die("solvers disagree: %s" % bad[:3])
        shutil.rmtree(alld, ignore_errors=True)

    sm = lambda k: sum(t.get(k, 0) for t in per.values())
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sm("done") + sm("panics"),
            "transitions": sm("steps"),
            "traces_validated_against_impl": validated,
            "samples": sample_out or [v["model"] for v in viols] or ["none"],
            "exhaustive": not incomplete and not viols,
            "meaning": "states = feasible execution paths explored to the end; transitions = IR instructions executed "
                       "symbolically; validated = sampled paths whose observed values equal those of the native build",
            "bounds": spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"],
            "entries": {e: {k: t.get(k, 0) for k in ("done", "infeasible", "forks", "steps", "queries", "cache_hits",
                                                    "byte_decided", "unknowns", "asserts_sym", "concretized")}
                        | {"solver_s": round(t["solver_s"], 2), "wall_s": round(t["wall"], 2)} for e, t in per.items()},
            "functions_encoded": sorted(set().union(*[t["functions"] for t in per.values()]))[:400],
            "functions_executed_all": max(t["nfuncs"] for t in per.values()),
            "queries": sm("queries"), "solver_s": round(sm("solver_s"), 2),
            "assertions": asserts, "witnesses": {k: v for k, v in sorted(reached.items()) if k.startswith(prop + ".")},
            "not_explored": incomplete, "build_s": round(build_s, 1),
        },
        "assumptions": props.ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(time.time() - T0, 1),
        "violations": viols,
    }
    if cc:
        ev["coverage"]["cross_checked_with_cvc5_and_newer_z3"] = cc
    if known:
        ev["coverage"]["known_findings_seen"] = sorted(known_hit)
    with open(HERE + "/evidence/%s.json" % prop, "w") as h:
        json.dump(ev, h, indent=1)

    for vid, what in sorted(known_hit.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if viols:
        for v in viols:
            print("  %s: %s [%s]" % (v["id"], v["native"][:300], v["model"][:300]))
        print("VIOLATION property=%s replay=%s" % (prop, viols[0]["replay"]))
        sys.exit(1)
    if unconfirmed:
        die("counterexample does not reproduce natively (engine or harness is wrong): %s" % (unconfirmed[:2],))
    if mismatches:
        die("engine and native build disagree on a sampled path: %s" % (mismatches[:2],))
    if missing and not incomplete:
        die("vacuous: never reached %s" % missing)
    if missing:
        die("not reached within the limits: %s" % missing)
    print("OK property=%s paths=%d queries=%d solver=%.1fs wall=%.1fs%s" % (
        prop, sm("done"), sm("queries"), sm("solver_s"), time.time() - T0,
        "" if not incomplete else " (bounded exploration not finished: %s)" % json.dumps(incomplete)))
    sys.exit(0)


main()
