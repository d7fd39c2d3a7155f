"""Build of the thread worlds: the client is compiled with clang's thread
instrumentation, the runtime is not, and the callbacks are the simulator's."""
import os, subprocess, types

WRAPS = ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock",
         "pthread_rwlock_unlock", "pthread_once", "snprintf", "sprintf", "vsnprintf", "printf", "strlen", "memcmp", "memchr"]


def threads(world, out, CXX, BASE, w, HERE):
    base = [f for f in BASE if f not in ("-O1",)]
    cl, rt = out + ".client.o", out + ".rt.o"
    cmds = [
        [CXX] + base + ["-O0", "-fsanitize=thread", "-fno-builtin", "-fsanitize-coverage=trace-pc-guard"] + w.get("flags", []) + ["-c", "-o", cl, os.path.join(HERE, "thr", w["src"])],
        [CXX] + base + ["-O2", f'-DSIM_WORLD_NAME="{world}"', "-c", "-o", rt, os.path.join(HERE, "thr", "rt.cpp")],
    ]
    txt, rc = "", 0
    ps = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace") for c in cmds]
    for p in ps:
        o, _ = p.communicate()
        txt += o
        rc = rc or p.returncode
    if not rc:
        sym = []                       # only the client's references are redirected
        for s in WRAPS:
            sym += ["--redefine-sym", f"{s}=__wrap_{s}"]
        for c in (["objcopy"] + sym + [cl], [CXX, "-o", out, cl, rt, "-lpthread"]):
            r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            txt += r.stdout
            rc = rc or r.returncode
            if rc:
                break
    return types.SimpleNamespace(returncode=rc, stdout=txt)
