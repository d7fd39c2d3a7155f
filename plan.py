"""What each property's check runs: worlds, profiles, run counts, failure classes."""
import json, os
CLASSES = ["OK", "CONTENT", "STRONG", "BASIC", "INDEP", "ALIAS", "STABLE", "SWALLOW", "EXC", "TERMINATE", "LEAK",
           "LIFETIME", "MISMATCH", "MEM", "CRASH", "HANG", "COST", "DELIVER", "STATE", "OUTPUT", "RACE", "OWN", "CALLS"]
P_FAULT, P_COST, P_COPY, P_HOLD = 1, 2, 4, 8
TITLES = {}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")) as f:
    for line in f:
        if line.strip():
            p = json.loads(line)
            TITLES[p["id"]] = p["title"]

ALL = CLASSES[1:]
# a container's own property: everything except what C12, C16 and C17 own
OWN = [c for c in ALL if c not in ("LEAK", "MISMATCH", "COST", "STABLE")]

WORLDS = {
    "vec": dict(src="vec.cpp", cost=25),
    "dict": dict(src="dict.cpp", cost=25),
    "str": dict(src="str.cpp", cost=25),
    "lst": dict(src="lst.cpp", cost=25),
    "deq2": dict(src="deq.cpp", cost=25, flags=["-DCEST_SIM_CHUNK_SIZE=2"]),
    "deq5": dict(src="deq.cpp", cost=25, flags=["-DCEST_SIM_CHUNK_SIZE=5"]),
    "deq1024": dict(src="deq.cpp", cost=25),
    "sptr": dict(src="sptr.cpp", cost=15),
    "outw": dict(src="outw.cpp", cost=20),
    "memio": dict(src="memio.cpp", cost=20),
    "ist": dict(src="ist.cpp", cost=20, alone=True),
    "fn": dict(src="fn.cpp", cost=15),
    "alg": dict(src="alg.cpp", cost=40, flags=["-DCEST_SIM_CHUNK_SIZE=4"]),
    "readers": dict(src="readers.cpp", builder="threads", cost=15, flags=["-DCEST_SIM_CHUNK_SIZE=4"]),
    "shared": dict(src="shared.cpp", builder="threads", cost=10),
    "onestream": dict(src="onestream.cpp", builder="threads", cost=10),
    "handover": dict(src="handover.cpp", builder="threads", cost=15, flags=["-DCEST_SIM_CHUNK_SIZE=4"]),
    "separate": dict(src="separate.cpp", builder="threads", cost=15, flags=["-DCEST_SIM_CHUNK_SIZE=4"]),
}
def J(world, profile, runs, **kw):
    return dict(world=world, profile=profile, runs=runs, **kw)

FATAL = ["LIFETIME", "MEM", "CRASH", "HANG"]
SEQW = ["vec", "deq2", "deq5", "lst", "dict", "str"]

THR = ["CONTENT", "RACE", "MEM", "CRASH", "HANG", "TERMINATE"]
THR_REAL = "the cest code under test, compiled with memory-access instrumentation, on real stacks with real exceptions; libstdc++ and libc"
THR_STUB = "thread scheduler (one thread runs at a time, switches drawn from the seed at instrumented accesses, calls, locks and device writes), locks, heap, process streams' devices"
THR_RULE = ("one evaluation is one simulated run: generated scripts of 2 or 3 threads executed under one seeded schedule with every memory access "
            "of library code checked for unordered conflicts, then each script alone, all observations compared; it is non-trivial when it made at "
            "least 5 library calls and, in a fault profile, at least one fault fired; distinct means a distinct hash over the whole execution "
            "trace including every switch; abstract states are distinct (paused operation, running operation, thread pair) triples")

CHECKS = {
    "C01": dict(classes=OWN, jobs=[J("vec", 0, 80000), J("vec", P_FAULT, 160000), J("vec", P_COPY | P_FAULT, 50000), J("vec", P_COST, 400), J("vec", P_COST | P_FAULT, 400)]),
    "C02": dict(classes=OWN, jobs=[J("deq2", 0, 60000), J("deq2", P_FAULT, 100000), J("deq5", 0, 40000), J("deq5", P_FAULT, 60000),
                                   J("deq5", P_COPY | P_FAULT, 30000), J("deq1024", 0, 4000), J("deq1024", P_FAULT, 6000), J("deq5", P_COST, 150), J("deq1024", P_COST, 200), J("deq1024", P_COST | P_FAULT, 200)]),
    "C03": dict(classes=OWN, jobs=[J("lst", 0, 100000), J("lst", P_FAULT, 160000), J("lst", P_COPY | P_FAULT, 50000), J("lst", P_COST, 300), J("lst", P_COST | P_FAULT, 300)]),
    "C04": dict(classes=OWN, jobs=[J("dict", 0, 70000), J("dict", P_FAULT, 120000), J("dict", P_COPY | P_FAULT, 40000), J("dict", P_COST, 500), J("dict", P_COST | P_FAULT, 500)]),
    "C05": dict(classes=OWN, jobs=[J("str", 0, 200000), J("str", P_FAULT, 300000), J("str", P_COPY | P_FAULT, 100000), J("str", P_COST, 2000), J("str", P_COST | P_FAULT, 2000)]),
    "C06": dict(classes=ALL, jobs=[J("sptr", 0, 500000), J("sptr", P_FAULT, 600000)]),
    "C07": dict(classes=ALL, jobs=[J("fn", 0, 500000), J("fn", P_FAULT, 600000)]),
    "C08": dict(classes=["DELIVER", "CONTENT"] + FATAL, alone=["ist"], jobs=[J("ist", 0, 200000), J("ist", P_FAULT, 250000), J("memio", 0, 40000)]),
    "C09": dict(classes=["STATE", "EXC", "SWALLOW", "TERMINATE", "CRASH", "HANG"], jobs=[J("ist", 0, 150000), J("ist", P_FAULT, 300000), J("memio", 0, 30000), J("memio", P_FAULT, 30000)]),
    "C10": dict(classes=ALL, jobs=[J("memio", 0, 100000), J("memio", P_FAULT, 140000)]),
    "C11": dict(classes=ALL, jobs=[J("outw", 0, 90000), J("outw", P_FAULT, 160000)]),
    "C12": dict(classes=["LEAK", "MISMATCH"] + FATAL,
                jobs=[J(w, p, 20000) for w in SEQW for p in (0, P_FAULT)] + [J("deq1024", P_FAULT, 1600)] +
                     [J(w, p, 20000) for w in ("sptr", "fn", "ist", "memio", "outw", "alg") for p in (0, P_FAULT)]),
    "C13": dict(classes=["CONTENT", "STRONG", "BASIC", "INDEP", "ALIAS"] + FATAL, attribute=1,
                jobs=[J(w, p, n) for w in SEQW for p, n in ((P_FAULT, 50000), (P_COPY | P_FAULT, 16000))] + [J("deq1024", P_FAULT, 1600)] +
                     [J(w, P_COST | P_FAULT, 150) for w in ("vec", "deq1024", "lst", "dict", "str")]),
    "C14": dict(classes=["EXC", "SWALLOW", "TERMINATE"],
                jobs=[J(w, p, n) for w in SEQW for p, n in ((0, 10000), (P_FAULT, 30000))] + [J("deq1024", P_FAULT, 800)] +
                     [J(w, p, n) for w in ("sptr", "fn", "ist", "memio", "alg") for p, n in ((0, 10000), (P_FAULT, 40000))]),
    "C15": dict(classes=["INDEP", "ALIAS", "MISMATCH", "TERMINATE"] + FATAL,
                jobs=[J(w, p, n) for w in SEQW for p, n in ((P_COPY, 30000), (P_COPY | P_FAULT, 30000))] + [J("deq1024", P_COPY, 800)]),
    "C16": dict(classes=["STABLE", "MEM", "CRASH", "HANG"],
                jobs=[J(w, p, n) for w in SEQW for p, n in ((P_HOLD, 30000), (P_HOLD | P_FAULT, 30000))] + [J("deq1024", P_HOLD, 800)] +
                     [J(w, P_HOLD | P_COST, 150) for w in ("vec", "deq1024", "lst", "dict", "str")]),
    "C17": dict(classes=["COST", "HANG"],
                jobs=[J(w, p, 1500 if w == "deq5" else 4000) for w in ("vec", "deq5", "lst", "dict", "str") for p in (P_COST, P_COST | P_FAULT)] +
                     [J("deq1024", P_COST, 600), J("deq1024", P_COST | P_FAULT, 600), J("deq2", P_FAULT, 8000)]),
    "C18": dict(classes=THR, jobs=[J("readers", 0, 30000), J("readers", P_FAULT, 30000)], real=THR_REAL, stub=THR_STUB, rule=THR_RULE),
    "C19": dict(classes=THR, jobs=[J("separate", 0, 24000), J("separate", P_FAULT, 24000)], real=THR_REAL, stub=THR_STUB, rule=THR_RULE),
    "C24": dict(classes=ALL, jobs=[J("alg", 0, 200000), J("alg", P_FAULT, 300000)]),
    "C25": dict(classes=THR + ["LEAK", "LIFETIME", "OWN"], jobs=[J("shared", 0, 40000), J("shared", P_FAULT, 40000)], real=THR_REAL, stub=THR_STUB,
                rule=THR_RULE.replace("then each script alone, all observations compared", "ownership checked by every owner and after the end")),
    "C26": dict(classes=THR, jobs=[J("onestream", 0, 40000), J("onestream", P_FAULT, 40000)], real=THR_REAL, stub=THR_STUB,
                rule=THR_RULE.replace("then each script alone, all observations compared", "each thread's characters told apart in what the devices received")),
    "C27": dict(classes=THR + ["LEAK"], jobs=[J("handover", 0, 24000), J("handover", P_FAULT, 24000)], real=THR_REAL, stub=THR_STUB,
                rule=THR_RULE.replace("then each script alone, all observations compared", "then all calls again by one thread in the order in which the locks were taken, all observations compared")),
    "C20": dict(custom="cexpr", units=126, per_tu=60),
}

_SIM = "Seeded search, not exhaustive: a break that needs a history, fault placement or schedule the runs did not reach is missed. Trusts the reference model, the simulator's stubs, AddressSanitizer and clang 18."
NOTES = {
    "C01": ("seeded histories of several clients on vectors of tracked, throwing elements over a failing heap, compared with a sequence model after every call", _SIM),
    "C02": ("seeded push/pop histories on deques with 2, 5 and 1024 elements per storage block and on queues, with failing heap and elements, compared with a sequence model", _SIM),
    "C03": ("seeded positional histories on lists and forward_lists with failing heap and elements, compared with a sequence model", _SIM),
    "C04": ("seeded dictionary histories with throwing comparators, keys and heap, compared with an ordered reference dictionary", _SIM),
    "C05": ("seeded string histories over four character types and custom traits with failing heap and input iterators, compared with std::basic_string", _SIM),
    "C06": ("seeded interleavings of owners, re-entrant deleters and destructors with failing heap and throwing deleter copies, against an ownership model", _SIM),
    "C07": ("seeded transfer and call histories with re-entrant targets, failing heap and throwing targets, against an ownership and call-log model", _SIM),
    "C08": ("a simulated byte source with seeded chunking, temporary ends and exceptions under the real streams, delivery checked against the source's bytes and a std::istream twin", _SIM),
    "C09": ("a simulated byte source with seeded chunking, temporary ends and exceptions under the real streams, state and exceptions checked against a std::istream twin", _SIM),
    "C10": ("seeded histories on several open string streams and memory files with failing heap, compared with std::stringstream twins and the original bytes", _SIM),
    "C11": ("simulated output devices that fill up, refuse, throw and recover under the process streams; bytes, order and state compared with std streams over equal devices", _SIM),
    "C12": ("a simulated heap and tracked elements in every world account for each block and element through every injected failure", _SIM),
    "C13": ("seeded fault placement inside every kind of insertion, state compared with the model from before the call; only failures that vanish without the fault count", _SIM),
    "C14": ("seeded fault placement at every seam; the exception that leaves each call is compared with the one injected", _SIM),
    "C15": ("seeded histories weighted towards copies, self-assignment and arguments inside the object, compared with per-object models", _SIM),
    "C16": ("several clients hold positions and references across each other's seeded operations and failures; each is re-read against the model after every step", _SIM),
    "C18": ("2-3 simulated threads run const operations on shared objects under seeded preemption at memory accesses, with failing heap and copies; happens-before race detection and comparison with solo execution", _SIM),
    "C19": ("2-3 simulated threads each run their own script under seeded preemption at memory accesses, with failing heap and copies; happens-before race detection and comparison of all results and output with solo execution", _SIM),
    "C20": ("seeded interleaved histories on several objects, each evaluated by the compiler's constant evaluator and at run time by the same interpreter, all observations compared", _SIM),
    "C24": ("seeded algorithms over all containers with throwing predicates, comparators, elements and heap inside them, compared with the same call over the standard container", _SIM),
    "C25": ("2-3 simulated threads copy, exchange and drop owners of common objects under seeded preemption at memory accesses, with failing heap; happens-before race detection, use-after-free, destruction counts and final owner counts checked", _SIM),
    "C26": ("2-3 simulated threads write to the same process streams under seeded preemption at memory accesses and device writes, with failing heap; happens-before race detection, and every device's bytes are taken apart by writer and compared with what each thread sent", _SIM),
    "C27": ("2-3 simulated threads use the same objects in turn under the client's locks and pass contents between them, in a seeded order and with failing heap and copies; the same calls by one thread in the same order must see the same, with happens-before race detection", _SIM),
    "C17": ("seeded large and adversarial histories with failed insertions; comparisons, element operations and allocated bytes per call are metered against growth bounds", _SIM),
}
NOT_APPLICABLE = {
    "C21": "cmath functions are pure functions of one argument: no schedule, time, I/O, allocation, failure or multi-party behaviour for a simulator to control; deciding them is numerical testing or proof, another technique",
    "C22": "complex arithmetic is pure: no nondeterminism or fault reaches it, so simulation has nothing to schedule or inject; deciding it is numerical testing or proof",
    "C23": "character classification is a pure function of one small integer and is decided by enumerating 257 values; nothing to schedule or inject (its thread-independence is part of C19)",
}
