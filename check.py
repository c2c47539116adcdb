#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [--replay FILE]

Builds the monitor binary from /repo's working tree, runs the workloads of one
property under its monitors in parallel shards, writes evidence/<property>.json.
Exit 0: held on everything explored. Exit 1: VIOLATION lines. Exit 2: no verdict.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import props_meta as meta

SUBJECT = "github.com/voltbras/go-ocpp"


def build(out, race):
    cmd = [os.path.join(HERE, "harness", "build.sh"), out] + (["race"] if race else [])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-4000:])
        print("check: build failed")
        sys.exit(2)


def known(prop):
    """The recorded findings of a property: {key: what fails}."""
    out = {}
    for line in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3)
    return out


def crash_of(text):
    """(key, detail) of a crash of the process that the code under test caused, else None."""
    m = re.search(r"^(panic: |fatal error: |unexpected fault address|SIGSEGV|SIGABRT)", text, re.M)
    if not m:
        return None
    rest = text[m.start():]
    first = rest.split("\n", 1)[0][:300]
    # the goroutine that panicked is dumped first
    stacks = re.split(r"\n\n", rest)
    for s in stacks[:3] if first.startswith("panic") else stacks:
        if not re.search(r"^goroutine \d+", s, re.M):
            continue
        for l in s.split("\n"):
            if l.startswith("verifharness."):
                break
            if l.startswith(SUBJECT):
                fn = l.rsplit("(", 1)[0].replace(SUBJECT, "")
                return "crash:" + fn, rest[:6000]
        if first.startswith("panic"):
            break
    if first.startswith("fatal error: all goroutines"):
        return None
    return None


def races_of(prefix):
    out = []
    d, base = os.path.split(prefix)
    for f in sorted(os.listdir(d)):
        if not f.startswith(base + "."):
            continue
        for rep in open(os.path.join(d, f), errors="replace").read().split("=================="):
            if "WARNING: DATA RACE" not in rep:
                continue
            owners = []
            for st in re.split(r"\n\n", rep):
                if not re.search(r"(Read|Write|read|write) at 0x|Previous (atomic )?(read|write)", st):
                    continue
                own = None
                for l in st.split("\n"):
                    l = l.strip()
                    if l.startswith(SUBJECT):
                        own = l.rsplit("(", 1)[0].replace(SUBJECT, "")
                        break
                    if l.startswith("verifharness."):
                        own = "harness"
                        break
                owners.append(own)
            out.append((owners, rep.strip()))
    return out


def main():
    args = [a for a in sys.argv[1:]]
    replay = None
    if "--replay" in args:
        i = args.index("--replay")
        replay = json.load(open(args[i + 1]))
        del args[i:i + 2]
        prop = replay["property"]
        tier = replay.get("tier", "quick")
    else:
        prop = args[0]
        tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if replay:
        seed = replay["seed"]
    t0 = time.time()
    m = meta.META[prop]
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return run(prop, tier, seed, m, work, t0, replay)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, tier, seed, m, work, t0, replay):
    passes = []  # (name, race, shards, gomaxprocs, env)
    cpus = os.cpu_count() or 8
    if m.get("normal", True):
        passes.append(("normal", False, min(8, cpus), 2))
    if m.get("race"):
        passes.append(("race", True, m.get("race_shards", 4), max(2, cpus // m.get("race_shards", 4))))
    if replay and replay.get("pass"):
        passes = [p for p in passes if p[0] == replay["pass"]]
    res = {"evaluations": 0, "counts": {}, "states": set(), "samples": [], "violations": [], "inconclusive": [], "soft": []}
    budget = m.get("budget", {}).get(tier, 700 if tier == "quick" else 5400)
    for name, race, shards, procs in passes:
        binary = os.path.join(work, name + ".test")
        build(binary, race)
        reps = 1
        if replay and replay.get("index") is not None:
            shards, reps = 1, 10
        jobs = []
        for i in range(shards * reps):
            out = os.path.join(work, "%s.%d.json" % (name, i))
            log = os.path.join(work, "%s.%d.log" % (name, i))
            jr = os.path.join(work, "%s.%d.journal" % (name, i))
            env = {k: v for k, v in os.environ.items() if not k.startswith("VERIF_") or k == "VERIF_REPO"}
            env.update(VERIF_PROP=prop, VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_OUT=out, VERIF_JOURNAL=jr,
                       VERIF_SHARD="%d/%d" % (i % shards, shards), GOMAXPROCS=str(procs), GOTRACEBACK="all",
                       GODEBUG=m.get("godebug", ""))
            if not env["GODEBUG"]:
                del env["GODEBUG"]
            if race:
                env["GORACE"] = "log_path=%s halt_on_error=0 exitcode=0 history_size=3" % os.path.join(work, "%s.%d.race" % (name, i))
            if replay and replay.get("index") is not None:
                env["VERIF_ONLY"] = "%s:%d" % (replay["kind"], replay["index"])
            p = subprocess.Popen([binary, "-test.run", "TestVerif$", "-test.timeout", "0"], cwd=work, env=env,
                                 stdin=subprocess.DEVNULL, stdout=open(log, "w"), stderr=subprocess.STDOUT,
                                 start_new_session=True)
            jobs.append((p, out, log, jr, os.path.join(work, "%s.%d.race" % (name, i))))
        for p, out, log, jr, racelog in jobs:
            timed_out = False
            try:
                p.wait(max(1, budget - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                timed_out = True
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
            cur = {}
            try:
                cur = json.load(open(jr))
            except Exception:
                pass
            cur.pop("what", None)
            cur.setdefault("seed", seed)
            cur.setdefault("tier", tier)
            cur["property"] = prop
            d = None
            try:
                d = json.load(open(out))
            except Exception:
                pass
            if d:
                res["evaluations"] += d["evaluations"]
                for k, v in (d["counts"] or {}).items():
                    res["counts"][k] = res["counts"].get(k, 0) + v
                res["states"].update(d["states"] or [])
                res["samples"] += d["samples"] or []
                for v in d["violations"] or []:
                    v["pass"] = name
                    res["violations"].append(v)
                res["inconclusive" if p.returncode == 4 else "soft"] += d["inconclusive"] or []
            if race:
                for owners, rep in races_of(racelog):
                    if any(o and o != "harness" for o in owners):
                        key = "race:" + "|".join(sorted(set(o for o in owners if o)))
                        res["violations"].append(dict(cur, key=key, detail=rep[:6000], **{"pass": name}))
                    else:
                        res["inconclusive"].append("data race outside the code under test:\n" + rep[:3000])
            if not (d and d["done"]) or p.returncode not in (0, 3):
                text = open(log, errors="replace").read()
                crash = crash_of(text)
                if crash:
                    res["violations"].append(dict(cur, key=crash[0], detail=crash[1], **{"pass": name}))
                elif p.returncode == 3:
                    pass
                elif timed_out:
                    res["counts"]["shards_out_of_time"] = res["counts"].get("shards_out_of_time", 0) + 1
                    if tier == "quick" or not d:
                        res["inconclusive"].append("shard out of time in %s" % json.dumps(cur))
                else:
                    res["inconclusive"].append("the monitor process ended with %s in %s:\n%s" % (p.returncode, json.dumps(cur), text[-3000:]))

    # single executions without a verdict are recorded; many mean that the check gives no answer
    if len(res["soft"]) > max(2, res["evaluations"] // 50):
        res["inconclusive"] += res["soft"]
    kn = known(prop)
    shown, new, byk = {}, [], {}
    for v in res["violations"]:
        if v["key"] in kn:
            shown[v["key"]] = kn[v["key"]]
        else:
            new.append(v)
    # the findings are printed on every run of the whole check
    for k, what in sorted(shown.items()):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, what, k))
    for v in new:
        byk.setdefault(v["key"], []).append(v)
    if new:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    n = 0
    for k, vs in byk.items():
        if n >= 10:
            break
        v = vs[0]
        path = os.path.join(HERE, "replay", "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9._-]+", "_", k)[:80]))
        json.dump(v, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s: %s" % (k, " ".join(v.get("detail", "").split())[:700]))
        n += 1
    for s in res["inconclusive"][:3]:
        print("INCONCLUSIVE: " + s[:3000])
    if not replay:
        cov = {"evaluations": res["evaluations"], "distinct_nontrivial": len(res["states"]), "rule": m["rule"],
               "samples": res["samples"][:8], "observed": res["counts"], "passes": [p[0] for p in passes]}
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": meta.ASSUMPTIONS + m.get("assumptions", []), "wall_s": round(time.time() - t0, 1),
              "violations": len(byk)}
        if res["inconclusive"] or res["soft"]:
            cov["inconclusive"] = [x[:300] for x in (res["inconclusive"] + res["soft"])[:10]]
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, ensure_ascii=False)
    if new:
        return 1
    if res["inconclusive"]:
        return 2
    if not replay and (res["evaluations"] == 0 or not res["states"]):
        print("check: nothing was observed")
        return 2
    print("%s held on %d evaluations, %d distinct (%.1f s) %s" % (prop, res["evaluations"], len(res["states"]), time.time() - t0, json.dumps(res["counts"])))
    return 0


if __name__ == "__main__":
    sys.exit(main())
