import os
from lib import vlib

Q = """CONSTANTS NT = %d MaxOps = %d MaxPush = %d Notify = "%s" Retest = %s Spurious = %d HoldHead = %s
%s
CHECK_DEADLOCK FALSE
"""
LIVE = "SPECIFICATION Spec\nINVARIANTS Fifo PerProducer Chain\nPROPERTY Terminates"
G = """CONSTANTS NW = %d Max = %d Strict = %s All = %s Atomic = %s Pieces = %s
SPECIFICATION Spec
INVARIANTS WithinLimit NobodyForgotten
PROPERTY AllServed
CHECK_DEADLOCK FALSE
"""


def check(ctx):
    T, F = "TRUE", "FALSE"
    jobs = [("Queue", Q % (3, 2, 3, "locked", T, 2, T, LIVE), False), ("Queue", Q % (4, 1, 3, "locked", T, 1, T, LIVE), False),
            ("Queue", Q % (2, 1, 2, "plain", T, 0, T, LIVE), True), ("Queue", Q % (4, 1, 2, "ifempty", T, 0, T, LIVE), True),
            ("Queue", Q % (3, 2, 3, "locked", F, 1, T, LIVE), True), ("Queue", Q % (3, 2, 3, "locked", T, 0, F, LIVE), True),
            ("Gate", G % (3, 4 if ctx.thorough else 3, F, T, T, T), False), ("Gate", G % (2, 2, T, T, T, T), True),
            ("Gate", G % (2, 3, F, F, T, T), True), ("Gate", G % (2, 3, F, T, F, T), True)]
    if ctx.thorough:
        jobs.append(("Queue", Q % (4, 2, 3, "locked", T, 1, T, LIVE), False))

    def gen():
        lines = []
        for nt, mo, mp in ((2, 2, 2), (3, 1, 2), (4, 1, 2), (3, 2, 3)):
            got = ctx.generate("QueueGen", Q % (nt, mo, mp, "locked", T, 0, T, "INIT GInit\nNEXT GNext\nINVARIANT Dump"), 240 if ctx.thorough else 60, 90, procs=2)
            for prog, sched in got:
                lines.append("%d %s : %s" % (nt, " ".join("%d %s" % (len(p), " ".join(map(str, p))) for p in prog), " ".join(map(str, sched))))
            # behaviours that end with somebody asleep because a wake-up went missing
            got = ctx.generate("QueueGen", Q % (nt, mo, mp, "plain", T, 0, T, "INIT GInit\nNEXT GNext\nINVARIANT Dump"), 240 if ctx.thorough else 60, 90, procs=2)
            for prog, sched in got:
                lines.append("%d %s : %s" % (nt, " ".join("%d %s" % (len(p), " ".join(map(str, p))) for p in prog), " ".join(map(str, sched))))
        with open(ctx.path("plans.txt"), "w") as f:
            f.write("\n".join(sorted(set(lines))) + "\n")
    exe = ctx.par([lambda: ctx.controlled("queue", "queue.cpp", ["-I", os.path.join(vlib.REPO, "PaRMAT/src")]), gen] +
                  [lambda j=j: ctx.model(j[0], None, cfgtext=j[1], expect_violation=j[2], count=not j[2], workers=2, heap="3g") for j in jobs], 6)[0]

    def rec(again=""):
        out = ctx.path("queue%s.json" % again)
        ctx.run(exe, [out, ctx.path("plans.txt")], env={"MALLOC_PERTURB_": "0"})
        return [out]
    ctx.trace("QueueTrace", "QueueTrace.cfg", rec(), confirm=lambda: rec("again"), label="histories")
