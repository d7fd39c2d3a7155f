"""C20: seeded histories evaluated by the compiler and by the machine.

Each history is a list of (operation, a, b) drawn from one PRNG per
(seed, section, index).  The same interpreter (cx/cx.hpp) runs it as a constant
expression, where the evaluator rejects undefined behaviour and leaks, and at
run time; the digests of everything observed must agree.
"""
import hashlib, json, os, random, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor

SECTIONS = {  # name: (interpreter, operation kinds, share)
    "seq": ("Seq", 50, 5),
    "dict": ("Dict", 20, 3),
    "str": ("StrOf<cest::string>", 16, 3),
    "wstr": ("StrOf<cest::wstring>", 16, 1),
    "u8str": ("StrOf<cest::u8string>", 16, 1),
    "u16str": ("StrOf<cest::u16string>", 16, 1),
    "u32str": ("StrOf<cest::u32string>", 16, 1),
    "ptr": ("Ptr", 18, 3),
    "io": ("Io", 16, 3),
}
CHUNKS = [2, 5, 0]          # deque block size; 0: as shipped
STEPS = 20_000_000


def history(seed, section, index):
    r = random.Random(f"{seed}/{section}/{index}")
    kinds = SECTIONS[section][1]
    n = r.choice([3, 6, 12, 25, 50]) + r.randrange(6)
    pool = list(range(kinds)) if r.randrange(3) == 0 else r.sample(range(kinds), min(kinds, 2 + r.randrange(8)))
    return [(r.choice(pool), r.randrange(4000) if r.randrange(3) else r.randrange(12), r.randrange(64)) for _ in range(n)]


def source(items, const=True):
    """items: list of (name, section, ops)"""
    out = ['#include "cx/cx.hpp"', "#include <cstdio>", "#include <cstdlib>", "#include <sys/wait.h>", "#include <unistd.h>", "#include <fcntl.h>", "using namespace cx;"]
    tab = []
    for name, sec, ops in items:
        w = SECTIONS[sec][0]
        body = ",".join("{%d,%d,%d}" % o for o in ops) or "{0,0,0}"
        out.append(f"constexpr Op h_{name}[] = {{{body}}};")
        if const:
            out.append(f"constexpr Out c_{name} = run<{w}>(h_{name}, {len(ops)});")
            tab.append(f'{{"{name}", h_{name}, {len(ops)}, run<{w}>, c_{name}.h, c_{name}.n}}')
        else:
            tab.append(f'{{"{name}", h_{name}, {len(ops)}, run<{w}>, 0, 0}}')
    out.append("struct T { const char* name; const Op* ops; size_t n; Out (*f)(const Op*, size_t, u64*, u64); u64 h, c; };")
    out.append("static const T tab[] = {" + ",\n".join(tab) + "};")
    out.append(r'''
int main() {
  int keep = dup(1), nul = open("/dev/null", O_WRONLY);
  FILE* r = fdopen(keep, "w");
  for (const T& t : tab) {
    fflush(nullptr);
    pid_t p = fork();
    if (!p) {
      alarm(10); dup2(nul, 1); dup2(nul, 2);
      Out o = t.f(t.ops, t.n, nullptr, 0);
      if (o.h != t.h || o.n != t.c) { fprintf(r, "DIFF %s %llx %llx\n", t.name, (unsigned long long)t.h, (unsigned long long)o.h); }
      else fprintf(r, "SAME %s %llu\n", t.name, (unsigned long long)o.n);
      fflush(r); _exit(0);
    }
    int st; waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(r, "DIED %s %x\n", t.name, st); fflush(r); }
  }
}''')
    return "\n".join(out) + "\n"


class Tu:
    def __init__(self, HERE, REPO, CXX, tmp):
        self.HERE, self.REPO, self.CXX, self.tmp = HERE, REPO, CXX, tmp
        self.n = 0

    def compile(self, tag, text, chunk, out=True):
        src = os.path.join(self.tmp, tag + ".cpp")
        exe = os.path.join(self.tmp, tag)
        with open(src, "w") as f:
            f.write(text)
        cmd = [self.CXX, "-std=c++2a", "-O0", "-DCONSTEXPR_CEST=1", "-w", "-ferror-limit=0", "-fno-caret-diagnostics", "-fno-color-diagnostics",
               f"-fconstexpr-steps={STEPS}", "-fconstexpr-backtrace-limit=6", "-I" + os.path.join(self.REPO, "include"), "-I" + self.HERE]
        if chunk:
            cmd.append(f"-DCEST_SIM_CHUNK_SIZE={chunk}")
        try:
            p = subprocess.run(cmd + ["-o", exe, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
        except subprocess.TimeoutExpired:
            return exe, 1, "compiler timed out"
        return exe, p.returncode, p.stdout

    def rejected(self, text):
        """names whose constant evaluation failed -> first note; None if anything else went wrong"""
        bad, other, cur = {}, [], None
        for line in text.splitlines():
            m = re.search(r"error: constexpr variable 'c_(\w+)' must be initialized by a constant expression", line)
            if m:
                cur = m.group(1)
                bad[cur] = ""
            elif " error: " in line:
                if "c_" in line and re.search(r"'c_\w+'", line):
                    continue
                if re.search(r"non-type|not a constant expression", line):
                    continue
                other.append(line)
                cur = None
            elif " note: " in line and cur and not bad[cur]:
                bad[cur] = re.sub(r"^.*? note: ", "", line)[:160]
        return bad, other

    def run(self, exe):
        try:
            p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=300)
        except subprocess.TimeoutExpired:
            return {}
        res = {}
        for line in p.stdout.splitlines():
            w = line.split()
            if len(w) >= 2 and w[0] in ("SAME", "DIFF", "DIED"):
                res[w[1]] = (w[0], w[2] if len(w) > 2 else "")
        return res

    def judge(self, items, chunk, tag):
        """returns {name: (class, message)} for bad ones, or raises"""
        exe, rc, text = self.compile(tag, source(items), chunk)
        verdict, obs = {}, 0
        good = items
        if rc:
            bad, other = self.rejected(text)
            if not bad:
                raise RuntimeError(f"{tag} does not build: " + (other[0] if other else text[-600:]))
            names = set(bad)
            exe2, rc2, t2 = self.compile(tag + "r", source([i for i in items if i[0] in names], const=False), chunk)
            if rc2:
                raise RuntimeError(f"{tag} does not build: {t2[-600:]}")
            rt = self.run(exe2)
            for n, why in bad.items():
                if rt.get(n, ("DIED",))[0] != "DIED":        # it completes at run time
                    verdict[n] = ("NOT_CONSTANT", f"completes at run time but is not a constant expression: {why}")
            good = [i for i in items if i[0] not in names]
            if good:
                exe, rc, text = self.compile(tag + "g", source(good), chunk)
                if rc:
                    raise RuntimeError(f"{tag} does not build: {text[-600:]}")
        if good:
            rt = self.run(exe)
            for i in good:
                r = rt.get(i[0])
                if r is None:
                    raise RuntimeError(f"{tag}: no result for {i[0]}")
                if r[0] == "DIFF":
                    verdict[i[0]] = ("DIFFERENT", "the compiler's observations differ from the run-time ones")
                elif r[0] == "DIED":
                    verdict[i[0]] = ("DIFFERENT", "the compiler evaluates it but the program dies at run time")
                else:
                    obs += int(r[1])
        for x in (tag, tag + "r", tag + "g"):
            for e in ("", ".cpp"):
                try:
                    os.unlink(os.path.join(self.tmp, x + e))
                except OSError:
                    pass
        return verdict, obs


def shrink(tu, section, ops, chunk, cls, ncpu, limit):
    t0 = time.time()
    def tries(cands, k):
        def f(ic):
            i, c = ic
            try:
                v, _ = tu.judge([("x", section, c)], chunk, f"s{k}_{i}")
                return v.get("x", ("",))[0] == cls
            except RuntimeError:
                return False
        with ThreadPoolExecutor(ncpu) as ex:
            return list(ex.map(f, enumerate(cands)))
    k, w = 0, max(1, len(ops) // 2)
    while time.time() - t0 < limit:
        cands = [ops[:i] + ops[i + w:] for i in range(0, len(ops), w)]
        k += 1
        ok = tries(cands, k)
        if any(ok):
            ops = cands[ok.index(True)]
            w = min(w, max(1, len(ops) // 2))
        elif w == 1:
            break
        else:
            w //= 2
    for j in range(len(ops)):
        if time.time() - t0 > limit:
            break
        o = ops[j]
        cands = [ops[:j] + [(o[0], a, b)] + ops[j + 1:] for a, b in ((0, 0), (0, o[2]), (o[1], 0), (1, o[2]), (o[1] % 5, o[2] % 3))]
        k += 1
        ok = tries(cands, k)
        if any(ok):
            ops = cands[ok.index(True)]
    return ops


def write_replay(path, prop, seed, section, index, chunk, cls, msg, ops):
    with open(path, "w") as f:
        f.write(f"world=constexpr\nproperty={prop}\nseed={seed}\nindex={index}\nsection={section}\nchunk={chunk}\nclass={cls}\nmessage={msg}\n")
        f.write("ops=" + " ".join("%d,%d,%d" % o for o in ops) + "\ntrace:\n")
        for o in ops:
            f.write(f"operation {o[0]} of {SECTIONS[section][0]} with a={o[1]} b={o[2]}\n")


def read_replay(path):
    d = {}
    with open(path) as f:
        for line in f:
            if line.startswith("trace:"):
                break
            k, _, v = line.rstrip("\n").partition("=")
            d[k] = v
    d["ops"] = [tuple(int(x) for x in w.split(",")) for w in d["ops"].split()]
    return d


def replay(path, HERE, REPO, CXX):
    d = read_replay(path)
    tmp = os.path.join(HERE, "build", "cx-replay")
    os.makedirs(tmp, exist_ok=True)
    try:
        v, _ = Tu(HERE, REPO, CXX, tmp).judge([("x", d["section"], d["ops"])], int(d["chunk"]), "x")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    got = v.get("x", ("OK", ""))
    print(f"RESULT class={got[0]} {got[1]}")
    same = got[0] == d["class"]
    print("reproduced exactly" if same else "did NOT reproduce")
    return 1 if same else 2


def run(prop, tier, seed, c, HERE, REPO, EVID, REPLAYS, CXX, NCPU):
    t0 = time.time()
    tmp = os.path.join(HERE, "build", "cx-" + prop)
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    tu = Tu(HERE, REPO, CXX, tmp)
    per = c.get("per_tu", 60)
    units = c["units"] * (c.get("thorough_factor", 25) if tier == "thorough" else 1)
    cap = c.get("thorough_time", 2400) if tier == "thorough" else c.get("quick_time", 300)
    secs = [s for s, v in SECTIONS.items() for _ in range(v[2])]
    tasks, nxt = [], {s: 0 for s in SECTIONS}
    for u in range(units):
        s = secs[u % len(secs)]
        chunk = CHUNKS[(u // len(secs)) % 3] if s == "seq" else 5
        items = []
        for _ in range(per if s != "seq" or chunk else max(1, per // 4)):
            i = nxt[s]
            nxt[s] += 1
            items.append((f"{s}_{i}", s, history(seed, s, i)))
        tasks.append((u, s, chunk, items))
    deadline = t0 + cap
    def do(t):
        u, s, chunk, items = t
        if time.time() > deadline:
            return t, None
        try:
            return t, tu.judge(items, chunk, f"u{u}")
        except RuntimeError as e:
            return t, e
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(do, tasks))
    explore_s = time.time() - t0
    runs = steps = obs = 0
    uniq, bad, errors, per_sec, kinds = set(), [], [], {}, {}
    for (u, s, chunk, items), r in res:
        if r is None:
            continue
        if isinstance(r, Exception):
            errors.append(str(r))
            continue
        v, o = r
        obs += o
        for n, sec, ops in items:
            runs += 1
            steps += len(ops)
            per_sec[s] = per_sec.get(s, 0) + 1
            for op in ops:
                kinds.setdefault(s, set()).add(op[0])
            if len(ops) >= 5:
                uniq.add((s, chunk, hashlib.sha256(repr(ops).encode()).hexdigest()))
            if n in v:
                bad.append((n, sec, chunk, ops) + v[n])
    rc = 0
    if bad:
        n, sec, chunk, ops, cls, msg = min(bad, key=lambda b: len(b[3]))
        path = os.path.join(REPLAYS, f"{prop}-{n}.replay")
        small = shrink(tu, sec, ops, chunk, cls, NCPU, 60)
        for cand in (small, ops):
            v, _ = tu.judge([("x", sec, cand)], chunk, "f")
            if v.get("x", ("",))[0] == cls:
                write_replay(path, prop, seed, sec, n.split("_")[1], chunk, cls, v["x"][1], cand)
                print(f"{prop}: section {sec}, deque block size {chunk or 'as shipped'}, history {n}: {cls}: {v['x'][1]}")
                for o in cand:
                    print(f"    operation {o[0]} with a={o[1]} b={o[2]}")
                rc = 1
                break
        else:
            print(f"ERROR {prop}: failures seen but none replayed")
            rc = 2
    elif errors:
        print(f"ERROR {prop}: " + errors[0])
        rc = 2
    elif not runs:
        print(f"ERROR {prop}: nothing ran")
        rc = 2
    samples = []
    for (u, s, chunk, items), r in res[:3]:
        n, sec, ops = items[len(items) // 2]
        samples.append({"history": n, "interpreter": SECTIONS[sec][0], "seed": seed, "deque_block": chunk, "ops": ["%d,%d,%d" % o for o in ops[:20]]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": c.get("level", "exploration"),
        "coverage": {
            "evaluations": runs, "distinct_nontrivial": len(uniq),
            "rule": "one evaluation is one seeded history of interleaved operations on several objects, evaluated once by the compiler as a constant "
                    "expression (which rejects undefined behaviour and leaks) and once at run time, all observations compared by digest; non-trivial "
                    "means at least 5 operations; distinct means a distinct operation list per interpreter and deque block size",
            "samples": samples,
            "runs_per_hour": int(runs / max(explore_s, 1e-9) * 3600), "seeds_per_hour": int(runs / max(explore_s, 1e-9) * 3600),
            "simulated_time": {"logical_steps": steps, "note": "cest has no clock; simulated time is counted in operations"},
            "observations_compared": obs, "histories_per_interpreter": per_sec,
            "operation_kinds_used": {k: f"{len(v)}/{SECTIONS[k][1]}" for k, v in kinds.items()},
            "faults_fired": {}, "faults_note": "no fault can be injected into constant evaluation: allocation cannot fail and nothing can be thrown there; the nondeterminism explored is the interleaving and arguments of operations",
            "real_components": "all of cest reached, clang's constant evaluator and the compiled code", "stub_components": "none",
            "explore_s": round(explore_s, 1), "build_errors": errors[:3],
        },
        "assumptions": ["clang 18's constant evaluator implements the C++20 rules", "histories only use operations that do not throw"],
        "wall_s": round(time.time() - t0, 2), "violations": len(bad),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    if rc == 1:
        print(f"VIOLATION property={prop} replay={path}")
    elif rc == 0:
        print(f"{prop}: held on {runs} histories ({len(uniq)} distinct non-trivial), {obs} observations compared, {explore_s:.0f}s")
    return rc
