#!/usr/bin/env python3
"""Deterministic-simulation checks for cest.

  check.py <property>            run the check (VERIF_TIER, VERIF_SEED)
  check.py --replay <file>       rebuild the world and replay a recorded failure
  check.py --setup               compile every world once (a build smoke test)

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer.
"""
import hashlib, json, os, re, shutil, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from plan import CHECKS, WORLDS, CLASSES, TITLES

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CEST_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(BUILD, "replays")
CXX = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"
NCPU = max(1, min(8, os.cpu_count() or 1))
BASE = ["-std=c++2a", "-O1", "-g1", "-fsized-deallocation", "-DCONSTEXPR_CEST=1",
        "-I" + os.path.join(REPO, "include"), "-I" + HERE,
        "-Wall", "-Wno-unused-private-field", "-Wno-unused-function"]
KINDS = {
    "asan": ["-fsanitize=address", "-fno-omit-frame-pointer", "-fsanitize-coverage=trace-pc-guard"],
    "plain": ["-fsanitize-coverage=trace-pc-guard"],
}


class NoAnswer(Exception):
    pass


class DoesNotLink(Exception):
    """a world compiles, but the library's headers leave library symbols undefined"""


UNDEF = "undefined reference to `cest::"


def log(*a):
    print(*a, flush=True)


def mask(names):
    m = 0
    for n in names:
        m |= 1 << CLASSES.index(n)
    return m


def build_cmd(world, out):
    w = WORLDS[world]
    return ([CXX] + BASE + KINDS[w.get("kind", "asan")] + w.get("flags", []) +
            [f'-DSIM_WORLD_NAME="{world}"'] + ["-o", out, os.path.join(HERE, "worlds", w["src"])] + w.get("libs", []))


def build_one(world):
    out = os.path.join(BUILD, world)
    t = time.time()
    if w_special := WORLDS[world].get("builder"):
        import threads_build
        r = getattr(threads_build, w_special)(world, out, CXX, BASE, WORLDS[world], HERE)
    else:
        r = subprocess.run(build_cmd(world, out), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return world, r.returncode, r.stdout, time.time() - t


def build(worlds):
    os.makedirs(BUILD, exist_ok=True)
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(build_one, sorted(worlds, key=lambda w: -WORLDS[w].get("cost", 10))))
    for w, rc, out, dt in res:
        if rc:
            log(out[-4000:])
            if WORLDS[w].get("alone") and UNDEF in out:
                raise DoesNotLink(w, sorted(set(re.findall(UNDEF + "[^']*", out))))
            raise NoAnswer(f"world {w} does not build")
    return {w: round(dt, 1) for w, rc, out, dt in res}


def shard(world, args, out):
    cmd = [os.path.join(BUILD, world), "explore", "--out", out] + [str(a) for a in args]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode or not os.path.exists(out + ".json"):
        return {"error": f"{' '.join(cmd)} -> {p.returncode}: {p.stdout[-500:]}"}
    with open(out + ".json") as f:
        d = json.load(f)
    with open(out + ".hashes", "rb") as f:
        raw = f.read()
    n = len(raw) // 16
    d["hashes"] = list(struct.iter_unpack("<QQ", raw[:n * 16]))
    return d


def replay_once(world, path):
    p = subprocess.run([os.path.join(BUILD, world), "replay", "--file", path],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    m = re.search(r"RESULT class=(\w+) hash=(\w+)", p.stdout)
    return (m.group(1), m.group(2)) if m else ("?", "?")


def replay_field(path, key):
    with open(path, errors="replace") as f:
        for line in f:
            if line.startswith(key + "="):
                return line[len(key) + 1:].rstrip("\n")
            if line.startswith("trace:"):
                break
    return ""


def known_findings(prop):
    """finding: property=<id> world=<w> class=<c> match="<regex>" <what fails>"""
    res = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) world=(\S+) class=(\S+) match="(.*?)" (.*)', line.strip())
            if m and m.group(1) == prop:
                res.append(m.groups()[1:])
    return res


def run_check(prop, tier, seed):
    c = CHECKS[prop]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    if "custom" in c:
        import importlib
        mod = importlib.import_module(c["custom"])
        return mod.run(prop, tier, seed, c, HERE, REPO, EVID, REPLAYS, CXX, NCPU)
    jobs = []
    for j in c["jobs"]:
        runs = j["runs"] * (c.get("thorough_factor", 20) if tier == "thorough" else 1)
        jobs.append(dict(j, runs=runs))
    worlds = sorted({j["world"] for j in jobs})
    # make every world in this property's scope once
    times = build(worlds)
    t_build = time.time() - t0
    # explore
    cap = c.get("thorough_time", 3000) if tier == "thorough" else c.get("quick_time", 240)
    tmp = os.path.join(BUILD, "run-" + prop)
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    tasks = []
    for ji, j in enumerate(jobs):
        nw = min(NCPU, max(1, j["runs"] // 8))
        for w in range(nw):
            tasks.append((ji, j, w, nw))
    tasks.sort(key=lambda t: (t[2], -t[1].get("cost", 1)))
    deadline = time.time() + cap
    # what a run may use shrinks with what is left, so the whole check stays within its cap
    def do(t):
        ji, j, w, nw = t
        left = max(2.0, deadline - time.time())
        cl = mask(j.get("classes", c["classes"]))
        return ji, shard(j["world"], ["--seed", seed, "--profile", j["profile"], "--to", j["runs"],
                                      "--worker", w, "--workers", nw, "--classes", cl,
                                      "--attribute", j.get("attribute", c.get("attribute", 0)),
                                      "--maxviol", 3, "--time", "%.1f" % left],
                         os.path.join(tmp, f"j{ji}w{w}"))
    t1 = time.time()
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(do, tasks))
    explore_s = time.time() - t1
    agg = {}
    viols = []
    allhash = {}
    for ji, d in res:
        if "error" in d:
            raise NoAnswer(d["error"])
        a = agg.setdefault(ji, {"runs": 0, "nontrivial": 0, "steps": 0, "calls": 0, "failed_calls": 0, "edges": 0,
                                "fault_runs": 0, "states": 0, "switches": 0, "simtime": 0, "cov_edges": 0, "cov_total": 0,
                                "armed": {}, "fired": {}, "foreign": {}, "probes": {}, "hashes": {}})
        for k in ("runs", "nontrivial", "steps", "calls", "failed_calls", "edges", "fault_runs", "switches"):
            a[k] += d[k]
        a["states"] = max(a["states"], d["states"])
        a["cov_edges"] = max(a["cov_edges"], d["cov_edges"])
        a["cov_total"] = d["cov_total"]
        for k in ("armed", "fired", "foreign", "probes"):
            for n, v in d[k].items():
                a[k][n] = a[k].get(n, 0) + v
        for i, h in d["hashes"]:
            a["hashes"][i & ~(1 << 63)] = (h, i >> 63)
        for v in d["violations"]:
            v["world"] = jobs[ji]["world"]
            v["profile"] = jobs[ji]["profile"]
            v["attribute"] = jobs[ji].get("attribute", c.get("attribute", 0))
            viols.append(v)
    shutil.rmtree(os.path.join(tmp, "x"), ignore_errors=True)

    known = known_findings(prop)
    listed, fresh = {}, []
    for v in viols:
        hit = None
        for k in known:
            if k[0] == v["world"] and k[1] == v["class"] and re.search(k[2], v["message"]):
                hit = k
        if hit:
            listed[hit] = listed.get(hit, 0) + 1
        else:
            fresh.append(v)

    reported = None
    attempts = []
    if fresh:
        # one candidate per (world, class), stable ones first, earliest run first
        fresh.sort(key=lambda v: (v["message"].startswith("UNSTABLE"), v["index"]))
        seen, cand = set(), []
        for v in fresh:
            if (v["world"], v["class"]) not in seen:
                seen.add((v["world"], v["class"]))
                cand.append(v)
        cand += [v for v in fresh if v not in cand]
        for v in cand[:6]:
            final = os.path.join(REPLAYS, f"{prop}-{v['world']}-{v['class']}-{v['index']}.replay")
            for path in shrink_then(v, final):
                r1, r2 = replay_once(v["world"], path), replay_once(v["world"], path)
                want = (replay_field(path, "class"), replay_field(path, "hash"))
                if r1 == r2 and r1 == want:
                    reported = (v, path)
                    break
                attempts.append(f"{path}: recorded {want}, replays gave {r1} {r2}")
            if reported:
                break

    # the same indices under another partition must give the same executions
    selftest = {"compared": 0, "different": 0}
    if not reported:
        bad = []
        def again(ji):
            j = jobs[ji]
            n = min(j["runs"], j.get("selftest", 24))
            return ji, shard(j["world"], ["--seed", seed, "--profile", j["profile"], "--to", n, "--worker", 0, "--workers", 1,
                                          "--classes", mask(j.get("classes", c["classes"])), "--maxviol", 1000, "--time", 60],
                             os.path.join(tmp, f"s{ji}"))
        with ThreadPoolExecutor(NCPU) as ex:
            for ji, d in ex.map(again, range(len(jobs))):
                if "error" in d:
                    raise NoAnswer(d["error"])
                for i, h in d["hashes"]:
                    i &= ~(1 << 63)
                    if i in agg[ji]["hashes"]:
                        selftest["compared"] += 1
                        if agg[ji]["hashes"][i][0] != h:
                            selftest["different"] += 1
                            bad.append((jobs[ji]["world"], jobs[ji]["profile"], i))
        if bad:
            raise NoAnswer(f"the same seed gave different executions: {bad[:5]}")
        if fresh:
            raise NoAnswer("violations seen but none replayed exactly: " + "; ".join(attempts))
        if sum(a["runs"] for a in agg.values()) == 0:
            raise NoAnswer("no run completed")

    # evidence
    fired, armed, foreign, probes = {}, {}, {}, {}
    uniq = set()
    for ji, a in agg.items():
        for dst, src in ((fired, "fired"), (armed, "armed"), (foreign, "foreign")):
            for n, v in a[src].items():
                dst[n] = dst.get(n, 0) + v
        for n, v in a["probes"].items():
            probes[jobs[ji]["world"] + ":" + n] = probes.get(jobs[ji]["world"] + ":" + n, 0) + v
        for i, (h, nt) in a["hashes"].items():
            if nt:
                uniq.add((jobs[ji]["world"], jobs[ji]["profile"], h))
    tot = lambda k: sum(a[k] for a in agg.values())
    samples = []
    for ji, j in enumerate(jobs[:4]):
        nt = sorted(i for i, (h, n) in agg[ji]["hashes"].items() if n)
        idx = nt[len(nt) // 2] if nt else 0
        p = subprocess.run([os.path.join(BUILD, j["world"]), "one", "--seed", str(seed), "--profile", str(j["profile"]), "--from", str(idx)],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        lines = p.stdout.splitlines()
        samples.append({"world": j["world"], "profile": j["profile"], "seed": seed, "index": idx,
                        "events": lines[:14] + (["... %d more" % (len(lines) - 14)] if len(lines) > 14 else [])})
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": c.get("level", "exploration"),
        "coverage": {
            "evaluations": tot("runs"),
            "distinct_nontrivial": len(uniq),
            "rule": c.get("rule", "one evaluation is one simulated run: a seeded pseudo-random history of client operations and injected "
                          "faults, compared with a reference model after every operation; it is non-trivial when it made at least 5 library "
                          "calls and, in a fault profile, at least one fault actually fired; distinct means a distinct hash over the whole "
                          "execution trace (every operation, argument, outcome and observation)"),
            "samples": samples,
            "runs_per_hour": int(tot("runs") / max(explore_s, 1e-9) * 3600),
            "seeds_per_hour": int(tot("runs") / max(explore_s, 1e-9) * 3600),
            "simulated_time": {"logical_steps": tot("steps"), "library_calls": tot("calls"),
                               "note": "cest has no clock; simulated time is counted in scheduler steps"},
            "calls_that_failed": tot("failed_calls"),
            "runs_with_faults": tot("fault_runs"),
            "faults_fired": {k: v for k, v in fired.items() if v},
            "faults_armed": {k: v for k, v in armed.items() if v},
            "instrumented_branch_steps": tot("edges"),
            "scheduler_switches": tot("switches"),
            "abstract_states_reached": {j["world"] + "/" + str(j["profile"]): agg[ji]["states"] for ji, j in enumerate(jobs) if ji in agg},
            "branch_edges_covered": {j["world"] + "/" + str(j["profile"]): f"{agg[ji]['cov_edges']}/{agg[ji]['cov_total']}" for ji, j in enumerate(jobs) if ji in agg},
            "runs_per_job": {j["world"] + "/" + str(j["profile"]): agg[ji]["runs"] for ji, j in enumerate(jobs) if ji in agg},
            "rare_events": probes,
            "failures_of_other_properties_seen": foreign,
            "determinism_selftest": selftest,
            "real_components": c.get("real", "all of /repo/include/cest code reached"),
            "stub_components": c.get("stub", "heap (operator new/delete and allocator), client element types, comparators, callables, deleters"),
            "build_s": round(t_build, 1), "explore_s": round(explore_s, 1), "compile_s_per_world": times,
            "known_findings_seen": {k[3]: n for k, n in listed.items()},
        },
        "assumptions": c.get("assumptions", []) + [
            "clang 18 -std=c++2a, x86-64 Linux; the simulator's element, allocator and stream stubs behave as the C++ standard allows user code to behave",
        ],
        "wall_s": round(wall, 2),
        "violations": len(fresh),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, n in listed.items():
        log(f"KNOWN-FINDING: property={prop} {k[3]}")
    if reported:
        v, path = reported
        log(f"{prop}: {TITLES.get(prop, '')}")
        log(f"  world {v['world']} profile {v['profile']} seed {seed} run {v['index']}: {replay_field(path, 'class')} {replay_field(path, 'message')}")
        with open(path, errors="replace") as f:
            tr = f.read().split("trace:\n", 1)[-1].splitlines()
        for line in tr[-25:]:
            log("    " + line)
        shutil.rmtree(tmp, ignore_errors=True)
        log(f"VIOLATION property={prop} replay={path}")
        return 1
    shutil.rmtree(tmp, ignore_errors=True)
    log(f"{prop}: held on {tot('runs')} runs ({len(uniq)} distinct non-trivial, {sum(fired.values())} faults fired), "
        f"build {t_build:.0f}s explore {explore_s:.0f}s; foreign {foreign}")
    return 0


def shrink_then(v, final):
    """yield the minimised replay file first, then the recorded one"""
    w = os.path.join(BUILD, v["world"])
    p = subprocess.run([w, "shrink", "--file", v["file"], "--out", final, "--time", "20",
                        "--attribute", str(v.get("attribute", 0))],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode == 0 and os.path.exists(final):
        yield final
    raw = final.replace(".replay", "-full.replay")
    shutil.copyfile(v["file"], raw)
    yield raw


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        world = replay_field(sys.argv[2], "world")
        if replay_field(sys.argv[2], "class") == "LINK":
            try:
                build([world])
            except DoesNotLink as e:
                same = str(e.args[1]) == replay_field(sys.argv[2], "message")
                print("reproduced exactly" if same else "did NOT reproduce")
                return 1 if same else 2
            print("did NOT reproduce")
            return 2
        if world == "constexpr":
            import cexpr
            return cexpr.replay(sys.argv[2], HERE, REPO, CXX)
        build([world])
        p = subprocess.run([os.path.join(BUILD, world), "replay", "--file", sys.argv[2]], stdout=subprocess.PIPE, text=True, errors="replace")
        print(p.stdout)
        m = re.search(r"RESULT class=(\w+) hash=(\w+)", p.stdout)
        same = m and (m.group(1), m.group(2)) == (replay_field(sys.argv[2], "class"), replay_field(sys.argv[2], "hash"))
        print("reproduced exactly" if same else "did NOT reproduce")
        return 1 if same else 2
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        if not os.path.exists(CXX) and not shutil.which(CXX):
            print("no clang++")
            return 2
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(EVID, exist_ok=True)
        return 0
    if len(sys.argv) != 2 or sys.argv[1] not in CHECKS:
        print(__doc__)
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    try:
        return run_check(sys.argv[1], tier, seed)
    except DoesNotLink as e:
        prop, (w, syms) = sys.argv[1], e.args
        if w not in CHECKS[prop].get("alone", []):
            log(f"ERROR {prop}: world {w} does not link")
            return 2
        path = os.path.join(REPLAYS, f"{prop}-{w}-LINK.replay")
        with open(path, "w") as f:
            f.write(f"world={w}\nclass=LINK\nmessage={syms}\ntrace:\na program that includes only the header it uses does not link\n")
        with open(os.path.join(EVID, prop + ".json"), "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "level": CHECKS[prop].get("level", "exploration"),
                       "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "no run: the simulated program does not link", "samples": syms},
                       "assumptions": [], "wall_s": 0, "violations": 1}, f)
        log(f"VIOLATION property={prop} replay={path}")
        return 1
    except NoAnswer as e:
        log(f"ERROR {sys.argv[1]}: {e}")
        return 2


if __name__ == "__main__":
    sys.dont_write_bytecode = True
    sys.exit(main())
