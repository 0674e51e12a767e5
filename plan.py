"""What each check runs: stages of workloads, with the seconds each gets in either tier."""

NET = ("Random dataflow programs (scripts, function contexts and library units over channels of random depth, latencies, types and "
       "adapters, with feedback loops) derived from a completing schedule, each run on the real library under a random perturbation of "
       "its thread schedule. A case is one program with one initialization mode and one perturbation mode; it is non-trivial if at least one "
       "element was received, and distinct by program text, initialization mode and perturbation mode. ")


def net(suite, quick=25, thorough=420, **kw):
    return {"suite": suite, "quick": quick, "thorough": thorough, **kw}


def miri(suite, quick, thorough, **kw):
    """number of interpreter processes per worker; each runs `per` cases"""
    return {"suite": suite, "variant": "miri", "quick": quick, "thorough": thorough, **kw}


def san(suite, quick, thorough, variant, **kw):
    """a workload in a build with a sanitizer; whether it hangs is for other checks"""
    return net(suite, quick, thorough, variant=variant, hang=False, **kw)


def known(suite):
    """one program, run once; what it shows is in known_findings.txt"""
    return net(suite, 2, 2, workers=1)


PLAN = {
    "C01": [net("C01")],
    "C02": [net("C02")],
    "C03": [net("C03")],
    "C04": [net("C04", 28), net("crowd", 4, 60), known("known04")],
    "C05": [net("C05", 30), known("known05")],
    "C06": [net("C06")],
    "C07": [net("C07", 28), net("stalls", 6, 100, variant="logging")],
    "C08": [net("C08")],
    "C09": [net("views", 20, 300), miri("views", 3, 120, per=8)],
    "C10": [net("C10"), net("store", 6, 100)],
    "C11": [net("C11")],
    "C12": [net("C12")],
    "C13": [net("C13", 18), net("utils", 8, 120)],
    "C14": [net("C14")],
    "C16": [
        net("logdirect", 13, 180, variant="logging"),
        net("flooddirect", 3, 40, variant="logging"),
        net("logmongo", 13, 300, variant="mongo"),
        net("floodmongo", 6, 90, variant="mongo"),
        net("refused", 4, 60, variant="mongo"),
    ],
    "C15": [net("inits", 15, 180)],
    "C17": [net("dots", 15, 180, variant="dot")],
    "C18": [
        net("C18", 10, 150, hang=False),
        san("C18", 12, 200, "tsan", seed_add=1),
        san("C18", 6, 120, "tsan", seed_add=2, env={"DAMV_TINY": "1"}),
        san("views", 0, 60, "tsan"),
        san("logdirect", 6, 90, "tsan-logging"),
        san("C18", 8, 150, "asan", seed_add=3),
        san("inits", 5, 60, "asan"),
        miri("C18", 2, 150, per=5, seed_add=4),
        miri("inits", 1, 30, per=4, seed_add=5),
        miri("views", 0, 30, per=6),
    ],
    "C19": [net("C19", 18), net("elapsed", 8, 120)],
    "C20": [net("times", 12, 200), net("times", 6, 100, variant="release")],
    "C21": [
        net("C21", 6, 60),
        net("C21", 8, 150, variant="release"),
        net("C21", 8, 150, variant="unbounded"),
        net("C21", 8, 150, variant="cyclelike"),
        net("C21", 8, 150, variant="logging"),
        net("C21", 0, 100, variant="ub-cycle"),
    ],
    "C22": [net("C22", 18), net("convert", 8, 120)],
    "C23": [net("idents", 15, 180), net("identlog", 10, 120, variant="mongo")],
    "C24": [net("types", 15, 240)],
}

VIEWS = ("Clocks moved by their owners through random steps while up to 16 threads wait on them and poll them, directly and through nested "
         "composite views, with and without stray wake-ups. A case is one plan of steps and looks under one perturbation mode; all are "
         "non-trivial (at least one look) and distinct by plan and mode. Under Miri: small plans, many scheduler seeds, weak memory. ")

RULES = {k: NET for k in PLAN}
RULES["C09"] = VIEWS
RULES["C04"] = NET + "Also two to five such programs at once in one process, each judged on its own. "
RULES["C07"] = NET + "Also such programs with a log, whose entries go to a queue of at most 200 that is read slowly. "
RULES["C16"] = ("Random dataflow programs in which scripts also log events of several types, directly and by callback, under random filters "
                "(none, one for all, one per context); entries are collected from the channel of a log interface or by a server that speaks "
                "MongoDB's protocol. A case is one program with one filter and one perturbation mode; it is non-trivial if at least one entry "
                "was recorded, and distinct by program text and filter. Floods: up to six contexts log thousands of events each. "
                "Refusals: the server refuses to create the collection, an insert or a document.")

GRAPH = ("Random graphs of leaf contexts, library units, PMUs and nested composites over bounded, unbounded and void channels of random "
         "parameters and element types, parallel channels and cycles included. ")
RULES["C15"] = GRAPH + ("Up to four faults (endpoints never attached, contexts never registered, at any depth of a composite) are injected in "
                        "half of them, and inference is on or off. A case is one graph with its faults; all are non-trivial (something is "
                        "created and initialized), and distinct by the description of the graph and its faults.")
RULES["C17"] = GRAPH + ("Each is rendered before and after it ran, parsed, and compared with what was built. All cases are non-trivial and distinct "
                        "by the description of the graph.")
RULES["C23"] = GRAPH + ("Up to eight threads build them at once amid a storm of other contexts and channels; then each is run. All cases are "
                        "non-trivial and distinct by the description of the graph.")

RULES["C10"] = NET + ("Also random reads and writes of a datastore by several threads at random times, against a naive model: a case is one history of "
                      "operations. ")
RULES["C13"] = NET + ("Also every utility context on random streams, some of them short or mismatching, run twice: a case is one set of units and streams. ")
RULES["C22"] = NET + ("Also single channels read by random operations with and without an adapter, with values that do not convert: a case is one list "
                      "of values and operations. ")
RULES["C19"] = NET + ("Also nested composites of contexts that stop at random times or fail: a case is one tree of contexts. ")

RULES["C20"] = ("Batches of six timestamps, near the edges of the 64-bit range, near powers of two and near each other, a third of them infinite, "
                "made in every way there is; all unary, pairwise and three-way laws are evaluated on each batch. A case is one batch; all are "
                "non-trivial, and distinct by the values.")
RULES["C24"] = ("Random values of scalars, nested tuples, unevaluated and user-defined types, arrays of rank 0 to 8 with empty axes, both memory orders, "
                "strides and holes, texts to parse, and indices near the edges; all laws are evaluated on each. A case is one batch of values; "
                "all are non-trivial, and distinct by the values.")

RULES["C18"] = NET + ("Here most payloads count their drops, endpoints are dropped early and contexts fail; small programs run under Miri (many scheduler "
                      "seeds, weak memory), others under ThreadSanitizer and AddressSanitizer with leak detection, and graphs are also built "
                      "and refused without running. ")

SCHED = "Real threads, perturbed by delays injected at harness operations and at hooked points inside DAM; coverage is of the executions seen."
TRACE = "offline trace checker over recorded event logs of random programs under perturbed schedules"
MODEL = "differential runtime monitoring: recorded logs against a reference simulation, under perturbed schedules"

TECH = {
    "C01": (TRACE + " (exactly-once FIFO)", SCHED),
    "C02": (TRACE + " (timestamp and clock rules)", SCHED),
    "C03": (TRACE + " (exact backpressure, occupancy)", SCHED),
    "C04": ("differential runtime monitoring: logs of several perturbed schedules against each other and a reference simulation", SCHED),
    "C05": ("differential runtime monitoring: logs with inference on and off against each other and a reference simulation", SCHED),
    "C06": (TRACE + " (predictions of peeks and next events)", SCHED),
    "C07": ("online hang monitor (all threads blocked / burning CPU without progress) on programs the reference simulation completes", SCHED),
    "C08": (TRACE + " (closure after endpoints are dropped)", SCHED),
    "C09": ("online view monitor with many waiters; Miri for weak-memory behaviours and deadlocks", SCHED),
    "C10": (MODEL + " of PMU and datastore", SCHED),
    "C11": (MODEL + " of the DRAM unit", SCHED),
    "C12": (MODEL + " of the PCU", SCHED),
    "C13": (MODEL + " of generators, traces, broadcasts, checkers and consumers", SCHED),
    "C14": ("offline checker of failure reports against injected failures", SCHED),
    "C15": ("initialization monitor: injected graph faults against the result, with counted init and run calls", SCHED),
    "C16": ("offline checker of logged events against recorded ones, by channel and by a fake MongoDB server", SCHED),
    "C17": ("DOT text of generated programs parsed and compared with the generated graph", SCHED),
    "C18": ("Miri, ThreadSanitizer, AddressSanitizer with LeakSanitizer, and drop-counting payloads", SCHED),
    "C19": (TRACE + " (final clocks against elapsed cycles)", SCHED),
    "C20": ("runtime law monitor over edge-biased timestamps against a 128-bit reference", "Sampled values; edge-biased."),
    "C21": ("differential runtime monitoring: the same programs in every build mode against a reference simulation", SCHED),
    "C22": (MODEL + " through adapters", SCHED),
    "C23": ("identity monitor: ids collected under concurrent construction and compared across phases", SCHED),
    "C24": ("runtime law monitor over generated values", "Sampled values and shapes."),
}

NOT_APPLICABLE = {}
