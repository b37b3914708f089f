"""Checks on built images: C01, C02, C03, C04, C13, C17."""
import json
import c_wf

CFG = """SPECIFICATION Spec
CONSTANTS
  MaxParts = %(parts)d
  MaxNodes = %(nodes)d
  Fails = %(fails)s
  BigEvery = %(big)d
  Filled = %(filled)s
  NoDol = %(nodol)s
  Hard = %(hard)s
CHECK_DEADLOCK FALSE
"""


def defs(c, num, parts=2, nodes=14, fails=False, big=6, filled=True, nodol=False, hard=False, seed=0, name="defs"):
    p = c.path(name + ".cfg")
    b = lambda v: "TRUE" if v else "FALSE"
    open(p, "w").write(CFG % dict(parts=parts, nodes=nodes, fails=b(fails), big=big, filled=b(filled), nodol=b(nodol), hard=b(hard)))
    c.tlc("DefGen", cfg=p, out=name, simulate=num, depth=80, seed=c.seed + seed)
    return c.to_ndjson(name, name + ".nd")


def images(c, what, n, env=None, **kw):
    defs(c, n, **kw)
    c.sample(json.loads(next(c.emitted(kw.get("name", "defs")))))
    c.harness("build", "defs.nd", what, obs=True, timeout=800, limit=300)
    c.judge("ImageTrace", "build.out.obs", what, env={"PROP": c.pid}, timeout=800)


def wide(c, what, kind="discs"):
    """file tables spanning several groups, many groups"""
    c.tlc("WideGen", out="wide", env={"KIND": kind, "TIER": c.tier})
    c.to_ndjson("wide", "wide.nd")
    c.harness("build", "wide.nd", what, obs=True, timeout=800, limit=300, out="wide.out")
    c.judge("ImageTrace", "wide.out.obs", what, env={"PROP": c.pid}, timeout=800)


def huge(c, what):
    """more than 4 GiB; needs some 11 GB of memory"""
    if mem_available() < 16 << 30:
        c.notes.append("a disc of more than 4 GiB was left out for lack of memory")
        return
    c.tlc("WideGen", out="huge", env={"KIND": "huge", "TIER": c.tier})
    c.to_ndjson("huge", "huge.nd")
    c.harness("build", "huge.nd", what, obs=True, timeout=800, limit=600, out="huge.out")
    c.judge("ImageTrace", "huge.out.obs", what, env={"PROP": c.pid}, timeout=800)


def mem_available():
    for line in open("/proc/meminfo"):
        if line.startswith("MemAvailable:"):
            return int(line.split()[1]) << 10
    return 0


def vast(c, what, kind="limits"):
    """at the limits of the format; in the quick tier what has to be refused at once"""
    c.tlc("VastGen", out="vast", env={"TIER": c.tier, "KIND": kind})
    c.to_ndjson("vast", "vast.nd")
    c.harness("vast", "vast.nd", what, obs=True, timeout=3000, limit=900, out="vast.out", env={"TREES": "1"} if kind == "trees" else None)
    c.judge("VastTrace", "vast.out.obs", what, env={"PROP": c.pid}, timeout=800)


def c01(c):
    images(c, "building a disc", c.n(900, 3000), parts=3, nodes=18)
    wide(c, "building a disc with a large file table")
    huge(c, "building a disc of more than 4 GiB")
    vast(c, "building at the limits of the format")


def c02(c):
    c.tlc("PartStream", cfg="PartStreamMC.cfg")
    images(c, "building a disc", c.n(700, 3000), seed=100)
    wide(c, "building a disc with a large file table")
    if c.tier != "quick":
        huge(c, "building a disc of more than 4 GiB")
    vast(c, "building at the limits of the format", kind="trees")


def c03(c):
    images(c, "building a disc", c.n(700, 3000), seed=200)
    wide(c, "building a disc with a large file table")
    huge(c, "building a disc of more than 4 GiB")
    vast(c, "building at the limits of the format")


def c04(c):
    c.tlc("DiscBuild", cfg="DiscBuildMC.cfg")
    # every history of the model with up to 2 (3) additions
    c.tlc("HistGen", out="hist")
    c.tlc("HistGen", cfg="HistGen3.cfg", out="hist3")
    with open(c.path("hist.nd"), "w") as f:
        for j in list(c.emitted("hist")) + list(c.emitted("hist3")):
            f.write(j + "\n")
    c.harness("build", "hist.nd", "history of additions", obs=True, timeout=800, limit=300, out="hist.out")
    c.judge("ImageTrace", "hist.out.obs", "history of additions", env={"PROP": "C04"}, timeout=800)
    # additions that fail because of the destination
    faultdefs(c)
    c.harness("faults-on", "fdefs.nd", "continuing after a failed operation", obs=True, timeout=800, limit=120)
    c.judge("ImageTrace", "faults-on.out.obs", "continuing after a failed operation", env={"PROP": "C04"}, timeout=800)
    images(c, "adding partitions", c.n(400, 1500), seed=300, fails=True, parts=4, nodes=9)


def faultdefs(c, dirs=False):
    c.tlc("FaultDefs", out="fdefs", env={"TIER": c.tier, "DIRS": "1" if dirs else "0"})
    c.to_ndjson("fdefs", "fdefs.nd")


def c05(c):
    c.tlc("DiscBuild", cfg="DiscBuildMC.cfg")
    faultdefs(c, dirs=True)
    c.sample(json.loads(next(c.emitted("fdefs"))))
    c.harness("faults", "fdefs.nd", "building onto a failing destination", obs=True, timeout=800, limit=120)
    c.judge("FaultTrace", "faults.out.obs", "building onto a failing destination", env={"PROP": "C05"})
    # failing definitions
    defs(c, c.n(300, 1500), fails=True, parts=2, nodes=9, seed=600)
    c.harness("build", "defs.nd", "building from a failing definition", obs=True, timeout=800, limit=300)
    c.judge("FaultTrace", "build.out.obs", "building from a failing definition", env={"PROP": "C05def"}, timeout=800)
    # the tools report it, too
    c_wf.trips(c, "C05", c.n(80, 600), 0)


def c06(c):
    c.tlc("DiscBuild", cfg="DiscBuildMC.cfg")
    c.tlc("HistGen", out="hist")
    faultdefs(c)
    import random
    h = list(c.emitted("hist"))
    random.Random(c.seed).shuffle(h)
    with open(c.path("crash.nd"), "w") as f:
        for j in list(c.emitted("fdefs")) + h[:c.n(60, 351)]:
            f.write(j + "\n")
    c.sample(json.loads(h[0]))
    c.harness("crash", "crash.nd", "interrupting a build", obs=True, timeout=800, limit=300)
    c.judge("FaultTrace", "crash.out.obs", "interrupting a build", env={"PROP": "C06"})


def c13(c):
    images(c, "building a disc", c.n(400, 3000), seed=400, parts=3, nodes=6, nodol=True, hard=True)
    vast(c, "building at the limits of the format", kind="trees")


def c17(c):
    images(c, "progress of a build", c.n(400, 1500), seed=500, parts=1, nodes=14)
    wide(c, "progress of a long build", kind="long")
    vast(c, "progress of a build of more than 4 GiB", kind="long")
    if c.tier != "quick":
        huge(c, "progress of a build of more than 4 GiB")
    c_wf.dirs(c, "C17", c.n(400, 3000), c.n(120, 600))
    c_wf.extraction(c, "C17", c.n(500, 4000), 0, 0, False)
    c_wf.big_extraction(c)
    c_wf.trips(c, "C17", c.n(100, 900), 0)
